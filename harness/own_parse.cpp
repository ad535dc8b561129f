#include "parse.cpp"
#include "heap.h"
// what the parser makes of the events of Poppler belongs to the document, and what it skips to nobody
static int ev[8], at[8]; static double px;
static void events(int N) {
  World w(1); w.clip(0, 0, 600, 800); w.page(1); w.font8("F"); int pages = 1;
  for (int i = 0; i < N; i++) {
    double d = at[i] * 40; w.clip(d, 0, 600 - d, 800); w.st->ctm[1] = w.st->ctm[2] = 0;
    if (ev[i] < 3) { w.st->ctm[0] = 1; w.st->ctm[3] = -1; w.st->ctm[4] = w.st->ctm[5] = 0; w.st->curX = px; w.st->curY = -200; Unicode u = ev[i] == 1 ? ' ' : 'x'; w.draw(65, 1, &u, ev[i] == 2 ? 0 : 1); }
    if (ev[i] == 3) { GfxPath* p = mkPath(1); p->subpaths[0] = mkSub(2); auto* s = p->subpaths[0]; s->x[1] = 8; s->y[1] = 4; w.st->ctm[0] = w.st->ctm[3] = 1; w.st->ctm[4] = px; w.st->ctm[5] = 200; w.st->path = p; w.dev->stroke(w.st); free(s->x); free(s->y); free(s->curve); free(s); free(p->subpaths); free(p); w.st->path = nullptr; }
    if (ev[i] == 4) { w.st->ctm[0] = 16; w.st->ctm[3] = 12; w.st->ctm[4] = px; w.st->ctm[5] = 200; w.dev->drawImage(w.st, nullptr, nullptr, 7, 9, nullptr, false, nullptr, false); }
    if (ev[i] == 5) w.page(++pages);
    if (ev[i] == 6) w.font8(at[i] ? "F" : "G");
    if (ev[i] == 7) w.fontC(at[i] ? "C" : "G");
  }
  w.st->font.reset(); delete w.st->strokeColorSpace; free(w.st); delete w.dev; free(globalParams.release());
}
extern "C" void h_own_parse() {
  int N = sym_param(0); for (int i = 0; i < N; i++) { ev[i] = sym_choice(8, "event"); at[i] = ev[i] == 1 || ev[i] == 2 || ev[i] == 5 ? 0 : sym_choice(ev[i] > 5 ? 2 : 3, "clip"); } px = sym_grid(-100, 700, 1, "x");
  events(N); long before = sym_heap_live(); events(N); same(before);
}
