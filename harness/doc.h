// Builders for the documents the harnesses hand to the real code.
#ifndef DOC_H_
#define DOC_H_
#include "h.h"
#include "Types.h"
#include "Config.h"
using namespace ppp::types;
struct Box { double l, u, r, d; };
// a box with symbolic corners on a grid; width and height at least minExt steps
inline Box symBox(int lo, int hi, double step, int minExt, const char* n) {
  Box b; b.l = sym_grid(lo, hi, step, n); b.r = sym_grid(lo, hi, step, n); b.u = sym_grid(lo, hi, step, n); b.d = sym_grid(lo, hi, step, n);
  sym_assume(b.r - b.l >= minExt * step); sym_assume(b.d - b.u >= minExt * step); return b;
}
// same with a concrete extent per side (w, h) and a symbolic position
inline Box symBoxAt(int lo, int hi, double step, double w, double h, const char* n) {
  Box b; b.l = sym_grid(lo, hi, step, n); b.u = sym_grid(lo, hi, step, n); b.r = b.l + w; b.d = b.u + h; return b;
}
inline void place(PdfElement* e, int page, const Box& b, int rot = 0, int wMode = 0) {
  e->pos->pageNum = page; e->pos->leftX = b.l; e->pos->upperY = b.u; e->pos->rightX = b.r; e->pos->lowerY = b.d; e->pos->rotation = rot; e->pos->wMode = wMode;
}
inline std::string num(const char* p, int i) { std::string s = p; if (i >= 10) s += (char)('0' + i / 10); s += (char)('0' + i % 10); return s; }
inline PdfCharacter* mkChar(PdfDocument* doc, int page, const Box& b, const std::string& text, int i, int rot = 0, double fs = 10, const char* font = "F") {
  auto* c = new PdfCharacter(); place(c, page, b, rot); c->id = num("c", i); c->text = text; c->name = text; c->fontName = font; c->fontSize = fs; c->doc = doc; c->rank = i; c->base = b.d;
  c->color[0] = c->color[1] = c->color[2] = 0; for (unsigned char ch : text) c->unicodes.push_back(ch); return c;
}
inline PdfWord* mkWord(PdfDocument* doc, int page, const Box& b, const std::string& text, int i, int rot = 0, double fs = 10, const char* font = "F") {
  auto* w = new PdfWord(); place(w, page, b, rot); w->id = num("w", i); w->text = text; w->fontName = font; w->fontSize = fs; w->doc = doc; w->rank = i; w->base = b.d; w->color[0] = w->color[1] = w->color[2] = 0; return w;
}
inline PdfTextLine* mkLine(PdfDocument* doc, int page, const Box& b, const std::string& text, int i, double fs = 10, const char* font = "F") {
  auto* l = new PdfTextLine(); place(l, page, b); l->id = num("l", i); l->text = text; l->fontName = font; l->fontSize = fs; l->maxFontSize = fs; l->doc = doc; l->rank = i; l->base = b.d; l->color[0] = l->color[1] = l->color[2] = 0;
  l->baseBBoxLeftX = b.l; l->baseBBoxUpperY = b.u; l->baseBBoxRightX = b.r; l->baseBBoxLowerY = b.d; return l;
}
inline PdfTextBlock* mkBlock(PdfDocument* doc, int page, const Box& b, const std::string& text, int i) {
  auto* k = new PdfTextBlock(); place(k, page, b); k->id = num("b", i); k->text = text; k->fontName = "F"; k->fontSize = 10; k->doc = doc; k->rank = i; k->role = SemanticRole::PARAGRAPH; k->color[0] = k->color[1] = k->color[2] = 0;
  k->trimLeftX = b.l; k->trimUpperY = b.u; k->trimRightX = b.r; k->trimLowerY = b.d; return k;
}
inline PdfFontInfo* addFont(PdfDocument* doc, const char* name, int weight = 400, bool italic = false) {
  auto* f = new PdfFontInfo(); f->fontName = name; f->weight = weight; f->isItalic = italic; for (double& m : f->fontMatrix) m = 0; doc->fontInfos[name] = f; return f;
}
inline PdfDocument* mkDoc() {
  auto* d = new PdfDocument(); d->avgCharWidth = 5; d->avgCharHeight = 10; d->mostFreqFontSize = 10; d->mostFreqFontName = "F"; d->mostFreqWordDistance = 3; d->mostFreqEstimatedLineDistance = 2; d->mostFreqLineDistance = 2; d->mostFreqWordHeight = 10; d->mostFreqLineLeftMargin = 0;
  addFont(d, "F"); return d;
}
inline PdfPage* mkPage(PdfDocument* d, int n) { auto* p = new PdfPage(); p->pageNum = n; p->clipLeftX = 0; p->clipUpperY = 0; p->clipRightX = 600; p->clipLowerY = 800; d->pages.push_back(p); return p; }
#endif
