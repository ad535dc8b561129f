// XY-cut and page segmentation.
#include "doc.h"
#include "PageSegmentation.h"
#include "utils/PageSegmentationUtils.h"
#include "utils/XYCut.h"
using namespace ppp::modules; using namespace ppp::config; using namespace ppp::utils; using std::string; using std::vector;
static int randCount; extern "C" int rand() noexcept { return randCount += 7; }
typedef vector<PdfElement*> Elems;
static void choose(const vector<Cut*>& cuts, int how) {
  if (how == 3) { int k = 1 + sym_choice(3, "choose the cuts"); for (size_t i = 0; i < cuts.size(); i++) cuts[i]->isChosen = k == 1 || (k == 2 && i % 2) || (k == 3 && i % 3 == 0); return; }
  for (Cut* c : cuts) c->isChosen = how == 2 ? sym_choice(2, "choose the cut") : how; }

// one row of elements: every place that is free but for the allowed number of elements is a candidate
extern "C" void h_xcut() {
  int n = sym_param(0), R = sym_param(1), maxOv = n > 5 ? 1 + sym_choice(2, "allowed overlaps") : sym_choice(2, "allowed overlaps"), rot = n > 5 ? 0 : sym_choice(2, "rotation"); double minGap = n > 5 ? 4 : sym_grid(0, 40, 1. / 2, "min gap"); vector<PdfWord> w(n); Elems in; double lo = 1e9, hi = -1e9;
  bool lng = n > 5; int p1 = lng ? sym_choice(n, "first free element") : 0, p2 = lng ? sym_choice(n, "second free element") : 0; if (p2 < p1) return;
  for (int i = 0; i < n; i++) { Box b; if (!lng || i == p1 || i == p2) { b.l = sym_grid(-R, R, 1. / 2, "l"); if (lng && i == p2 && p1 != p2) b.r = b.l + 9; else { b.r = sym_grid(-R, R, 1. / 2, "r"); sym_assume(b.r > b.l); } } else { b.l = 12 * i - R; b.r = b.l + 5 + i % 3; } b.u = 7 * i % 5; b.d = b.u + 10 + i; place(&w[i], 4, b, rot); in.push_back(&w[i]); if (b.u < lo) lo = b.u; if (b.d > hi) hi = b.d; }
  sym_assume(minGap > 0); Elems E; vector<Cut*> C; bool sil = false, called = false;
  auto f = [&](const vector<Cut*>& c, const Elems& e, bool s) { C = c; E = e; sil = s; called = true; choose(c, n > 5 ? 3 : 2); };
  vector<Elems> groups; vector<Cut*> cuts; bool ok = xCut(in, minGap, maxOv, f, true, &groups, &cuts); sym_assert(called && sil && cuts == C, "the cut candidates are offered to the caller and reported");
  sym_assert(E.size() == in.size(), "the elements are kept"); for (auto* e : in) { int k = 0; for (auto* g : E) k += g == e; sym_assert(k == 1, "the elements are kept"); }
  for (size_t i = 1; i < E.size(); i++) sym_assert(E[i - 1]->pos->leftX <= E[i]->pos->leftX, "the elements are sorted from left to right");
  size_t k = 0;
  for (size_t p = 1; p < E.size(); p++) {
    PdfElement* a = E[p]; Elems over; PdfElement* before = nullptr;
    for (size_t j = 0; j < p; j++) if (a->pos->leftX - E[j]->pos->rightX < minGap) over.push_back(E[j]); else if (!before || E[j]->pos->rightX > before->pos->rightX) before = E[j];
    bool cand = before && (int)over.size() <= maxOv, have = k < C.size() && C[k]->posInElements == p; sym_assert(cand == have, "there is a cut candidate exactly where a gap of the minimum width is crossed by no more than the allowed number of elements");
    if (!have) continue; Cut* c = C[k++]; double gap = a->pos->leftX - before->pos->rightX; if (!over.empty()) sym_reach("overlap");
    sym_assert(c->elementAfter == a && c->elementBefore->pos->rightX == before->pos->rightX, "a cut lies between the rightmost element before and the leftmost element after it"); sym_assert(c->gapWidth == gap, "the gap of a cut is measured between the elements beside it");
    sym_assert((c->x1 == before->pos->rightX + gap / 2) & (c->x2 == c->x1) & (c->y1 == lo) & (c->y2 == hi), "an x-cut is a vertical line in the middle of its gap over the full height of the elements"); sym_assert(c->gapHeight == hi - lo, "the height of an x-cut is that of the elements"); sym_assert(c->dir == CutDir::X && c->pageNum == 4, "an x-cut is on the page of its elements");
    sym_assert(c->overlappingElements.size() == over.size(), "a cut lists the elements it crosses"); for (auto* o : over) { bool in2 = false; for (auto* q : c->overlappingElements) in2 = in2 | (q == o); sym_assert(in2, "a cut lists the elements it crosses"); }
  }
  sym_assert(k == C.size(), "there is at most one cut candidate per place");
  Elems all; for (auto& g : groups) { sym_assert(!g.empty(), "no group is empty"); all.insert(all.end(), g.begin(), g.end()); } sym_assert(all == E, "the groups contain every element exactly once, in order");
  size_t chosen = 0, at = 0; for (Cut* c : C) if (c->isChosen) { at += groups[chosen++].size(); sym_assert(at == c->posInElements, "the elements are divided exactly at the chosen cuts"); } sym_assert(groups.size() == chosen + 1 && ok == (chosen > 0), "the elements are divided exactly at the chosen cuts"); sym_reach(ok ? "cut" : "no cut");
}
extern "C" void h_ycut() {
  int n = sym_param(0), R = sym_param(1); double minGap = n > 5 ? 4 : sym_grid(0, 40, 1. / 2, "min gap"); vector<PdfWord> w(n); Elems in; double lo = 1e9, hi = -1e9;
  bool lng = n > 5; int p1 = lng ? sym_choice(n, "first free element") : 0, p2 = lng ? sym_choice(n, "second free element") : 0; if (p2 < p1) return;
  for (int i = 0; i < n; i++) { Box b; if (!lng || i == p1 || i == p2) { b.u = sym_grid(-R, R, 1. / 2, "u"); if (lng && i == p2 && p1 != p2) b.d = b.u + 9; else { b.d = sym_grid(-R, R, 1. / 2, "d"); sym_assume(b.d > b.u); } } else { b.u = 12 * i - R; b.d = b.u + 5 + i % 3; } b.l = 7 * i % 5; b.r = b.l + 10 + i; place(&w[i], 4, b); in.push_back(&w[i]); if (b.l < lo) lo = b.l; if (b.r > hi) hi = b.r; }
  sym_assume(minGap > 0); Elems E; vector<Cut*> C; auto f = [&](const vector<Cut*>& c, const Elems& e, bool) { C = c; E = e; choose(c, n > 5 ? 3 : 2); };
  vector<Elems> groups; vector<Cut*> cuts; bool ok = yCut(in, minGap, f, false, &groups, &cuts); sym_assert(cuts == C && E.size() == in.size(), "the cut candidates are offered to the caller and reported");
  for (auto* e : in) { int k = 0; for (auto* g : E) k += g == e; sym_assert(k == 1, "the elements are kept"); } for (size_t i = 1; i < E.size(); i++) sym_assert(E[i - 1]->pos->upperY <= E[i]->pos->upperY, "the elements are sorted from top to bottom");
  size_t k = 0;
  for (size_t p = 1; p < E.size(); p++) {
    PdfElement *a = E[p], *before = E[0]; for (size_t j = 1; j < p; j++) if (E[j]->pos->lowerY > before->pos->lowerY) before = E[j];
    double gap = a->pos->upperY - before->pos->lowerY; bool have = k < C.size() && C[k]->posInElements == p; sym_assert((gap >= minGap) == have, "there is a y-cut candidate exactly at every gap of the minimum height that no element crosses"); if (!have) continue; Cut* c = C[k++];
    sym_assert(c->elementAfter == a && c->elementBefore->pos->lowerY == before->pos->lowerY, "a y-cut lies between the lowest element before and the topmost element after it"); sym_assert((c->gapHeight == gap) & (c->gapWidth == hi - lo), "the gap of a cut is measured between the elements beside it");
    sym_assert((c->y1 == before->pos->lowerY + gap / 2) & (c->y2 == c->y1) & (c->x1 == lo) & (c->x2 == hi), "a y-cut is a horizontal line in the middle of its gap over the full width of the elements"); sym_assert(c->dir == CutDir::Y && c->pageNum == 4, "a y-cut is on the page of its elements");
  }
  sym_assert(k == C.size(), "there is at most one cut candidate per place");
  Elems all; for (auto& g : groups) { sym_assert(!g.empty(), "no group is empty"); all.insert(all.end(), g.begin(), g.end()); } sym_assert(all == E, "the groups contain every element exactly once, in order");
  size_t chosen = 0, at = 0; for (Cut* c : C) if (c->isChosen) { at += groups[chosen++].size(); sym_assert(at == c->posInElements, "the elements are divided exactly at the chosen cuts"); } sym_assert(groups.size() == chosen + 1 && ok == (chosen > 0), "the elements are divided exactly at the chosen cuts"); sym_reach(ok ? "cut" : "no cut");
}
// the recursion: with every cut accepted, groups end up exactly where no cut is possible any more
extern "C" void h_xycut() {
  int n = sym_param(0), R = sym_param(1); double gx = 2, gy = 3; vector<PdfWord> w(n); Elems in; int mode = sym_choice(2, "cuts accepted");
  int fr = n > 4 ? sym_choice(n, "free element") : 0;
  for (int i = 0; i < n; i++) { Box b; if (n < 5 || i == fr) b = symBoxAt(-R, R, 1, 10, 6, "box"); else b = {13. * (i % 3) - 20, 10. * (i / 3) - 15, 13. * (i % 3) - 10, 10. * (i / 3) - 9}; place(&w[i], 1, b); in.push_back(&w[i]); }
  auto yes = [&](const vector<Cut*>& c, const Elems&, bool) { choose(c, 1); }; auto no = [&](const vector<Cut*>& c, const Elems&, bool) { choose(c, 0); };
  vector<Elems> groups; vector<Cut*> cuts; if (mode) xyCut(in, gx, gy, 0, yes, yes, true, &groups, &cuts); else xyCut(in, gx, gy, 0, no, no, true, &groups, &cuts);
  size_t total = 0; for (auto& g : groups) { sym_assert(!g.empty(), "no group is empty"); total += g.size(); } sym_assert(total == in.size(), "the groups contain every element exactly once"); vector<int> grp;
  for (auto* e : in) { int k = 0, at = -1; for (size_t g = 0; g < groups.size(); g++) for (auto* q : groups[g]) if (q == e) { k++; at = g; } sym_assert(k == 1, "the groups contain every element exactly once"); grp.push_back(at); }
  if (!mode) { sym_assert(groups.size() == 1, "elements are only divided at chosen cuts"); sym_reach("kept"); return; }
  for (auto& g : groups) { bool c = xCut(g, gx, 0, yes, true) || yCut(g, gy, yes, true); sym_assert(!c, "a group is divided until no cut is possible any more"); }
  for (int i = 0; i < n; i++) for (int j = i + 1; j < n; j++) { auto *a = w[i].pos, *b = w[j].pos; double dx = a->leftX < b->leftX ? b->leftX - a->rightX : a->leftX - b->rightX, dy = a->upperY < b->upperY ? b->upperY - a->lowerY : a->upperY - b->lowerY; if ((dx < gx) & (dy < gy)) sym_assert(grp[i] == grp[j], "elements with no gap between them in either direction stay in one group"); }
  sym_reach(groups.size() > 1 ? "divided" : "whole");
}
// --- segments of a page
static PdfElement* pageElem(PdfDocument* d, PdfPage* pg, int kind, const Box& b, int i, int rank) {
  PdfElement* e; if (kind == 0) { auto* w = mkWord(d, pg->pageNum, b, "w", i); w->rank = rank; pg->words.push_back(w); return w; }
  if (kind == 1) { auto* f = new PdfFigure(); pg->figures.push_back(f); e = f; } else if (kind == 2) { auto* f = new PdfGraphic(); pg->graphics.push_back(f); e = f; } else { auto* f = new PdfShape(); pg->shapes.push_back(f); e = f; }
  place(e, pg->pageNum, b); e->doc = d; return e;
}
static PageSegmentationConfig segConfig() { PageSegmentationConfig c; c.logLevel = ppp::utils::log::LogLevel::ERROR; return c; }
static void segInvariants(PdfDocument* d, PdfPage* pg, const Elems& E) {
  size_t total = 0; vector<int> k(E.size());
  for (auto* s : pg->segments) {
    sym_assert(!s->elements.empty(), "no segment is empty"); Box b{1e9, 1e9, -1e9, -1e9}; total += s->elements.size();
    for (auto* e : s->elements) { if (e->pos->leftX < b.l) b.l = e->pos->leftX; if (e->pos->upperY < b.u) b.u = e->pos->upperY; if (e->pos->rightX > b.r) b.r = e->pos->rightX; if (e->pos->lowerY > b.d) b.d = e->pos->lowerY; for (size_t i = 0; i < E.size(); i++) k[i] += E[i] == e; }
    sym_assert((s->pos->leftX == b.l) & (s->pos->upperY == b.u) & (s->pos->rightX == b.r) & (s->pos->lowerY == b.d), "the box of a segment is the union of the boxes of its elements"); sym_assert(s->pos->pageNum == pg->pageNum && s->doc == d, "a segment is on the page of its elements"); sym_assert(s->id.substr(0, 8) == "segment-" && s->id.size() > 8, "a segment has an id");
  }
  sym_assert(total == E.size(), "the segments contain every element of the page exactly once"); for (int x : k) sym_assert(x == 1, "the segments contain every element of the page exactly once");
}
extern "C" void h_segments() {
  auto cf = segConfig(); PdfDocument* d = mkDoc(); PdfPage *p1 = mkPage(d, 1), *p2 = mkPage(d, 2); mkPage(d, 3); int n = sym_param(0); Elems E; bool wide = false;
  for (int i = 0; i < n; i++) { Box b; b.l = sym_grid(-150, 150, 1, "l"); b.r = b.l + 60; b.u = sym_grid(-100, 100, 1, "u"); b.d = b.u + 40; E.push_back(pageElem(d, p1, i == 1 ? sym_choice(4, "kind") : 0, b, i, 3 * i)); }
  Box o{E[0]->pos->leftX, E[0]->pos->upperY, E[0]->pos->rightX, E[0]->pos->lowerY}; PdfElement* other = pageElem(d, p2, 0, o, 9, 9);
  PageSegmentation(d, &cf).process(); segInvariants(d, p1, E); segInvariants(d, p2, {other}); sym_assert(d->pages[2]->segments.empty(), "an empty page has no segments");
  for (Cut* c : p1->blockDetectionCuts) if (c->isChosen && c->dir == CutDir::X) { wide = true; sym_assert(c->gapWidth >= 6, "an x-cut is at least two word distances wide"); sym_assert((c->gapWidth >= 10) | (c->gapHeight >= 60), "a cut that is narrow and short is not chosen"); sym_assert(c->overlappingElements.empty(), "an x-cut crosses no element of a small group"); }
  for (Cut* c : p1->blockDetectionCuts) if (c->isChosen && c->dir == CutDir::Y) sym_assert(c->gapHeight >= 2, "a y-cut is at least two points high"); sym_assert(wide == (p1->segments.size() > 1) || !wide, "chosen x-cuts divide the page");
  if (p1->segments.size() > 1) sym_reach("divided"); else { sym_assert(!wide, "chosen x-cuts divide the page"); sym_reach("whole"); }
}
// two elements: the exact rule for a column boundary
extern "C" void h_columns() {
  auto cf = segConfig(); PdfDocument* d = mkDoc(); PdfPage* p = mkPage(d, 1); Elems E; int k[2], rank[2]; Box b[2];
  for (int i = 0; i < 2; i++) { k[i] = sym_choice(4, "kind"); rank[i] = k[i] ? -1 : sym_int(0, 4, "rank"); b[i].l = sym_grid(-200, 200, 1. / 2, "l"); b[i].r = sym_grid(-200, 200, 1. / 2, "r"); sym_assume(b[i].r > b[i].l); b[i].u = sym_grid(-200, 200, 1. / 2, "u"); b[i].d = b[i].u + (i ? 40 : 20); E.push_back(pageElem(d, p, k[i], b[i], i, rank[i])); }
  sym_assume(b[0].l < b[1].l); PageSegmentation(d, &cf).process(); segInvariants(d, p, E);
  double gap = b[1].l - b[0].r, lo = b[0].u < b[1].u ? b[0].u : b[1].u, hi = b[0].d > b[1].d ? b[0].d : b[1].d, t = b[0].u > b[1].u ? b[0].u : b[1].u, e = b[0].d < b[1].d ? b[0].d : b[1].d;
  bool neigh = !k[0] && !k[1] && (rank[0] + 1 == rank[1]) & (10 * (e - t) >= 20), small = (gap < 10) & (hi - lo < 60), slim = (b[0].r - b[0].l < 50) | (b[1].r - b[1].l < 50), cut = (gap >= 6) & !neigh & !small & !slim;
  sym_assert(p->segments.size() == (cut ? 2 : 1), "two elements are put into two columns exactly if the gap is wide enough, both columns are wide enough and they are no contiguous words"); if (cut) { sym_assert(p->segments[0]->elements[0] == E[0], "the left column comes first"); sym_reach("columns"); } else sym_reach(neigh ? "contiguous" : "one");
}
// three columns side by side: every part must be wide enough, measured from the cut before it
extern "C" void h_columns3() {
  auto cf = segConfig(); PdfDocument* d = mkDoc(); PdfPage* p = mkPage(d, 1); Elems E; Box b[3];
  for (int i = 0; i < 3; i++) { b[i].l = sym_grid(-200, 200, 1. / 2, "l"); b[i].r = sym_grid(-200, 200, 1. / 2, "r"); sym_assume(b[i].r > b[i].l); if (i) sym_assume(b[i].l > b[i - 1].r); b[i].u = 0; b[i].d = 100; E.push_back(pageElem(d, p, sym_choice(2, "kind") * 3, b[i], i, 3 * i)); }
  PageSegmentation(d, &cf).process(); segInvariants(d, p, E);
  bool c1 = (b[1].l - b[0].r >= 6) & (b[0].r - b[0].l >= 50) & (b[2].r - b[1].l >= 50), c2 = (b[2].l - b[1].r >= 6) & ((c1 ? b[1].r - b[1].l : b[1].r - b[0].l) >= 50) & (b[2].r - b[2].l >= 50);
  sym_assert(p->segments.size() == 1u + c1 + c2, "elements side by side are divided at each gap that is wide enough between columns that are wide enough"); int last = -1; for (auto* s : p->segments) { int top = last; for (auto* e : s->elements) for (int i = 0; i < 3; i++) if (e == E[i]) { sym_assert(i > last, "columns are in order from left to right"); if (i > top) top = i; } last = top; } sym_reach(c1 && c2 ? "three" : c1 || c2 ? "two" : "one");
}
// any number of columns, of which two have any width and distance
extern "C" void h_columns_long() {
  auto cf = segConfig(); PdfDocument* d = mkDoc(); PdfPage* p = mkPage(d, 1); int n = sym_param(0), f1 = sym_choice(n, "first free column"), f2 = sym_choice(n, "second free column"); if (f2 < f1) return; Elems E; vector<Box> b; double x = 0;
  for (int i = 0; i < n; i++) { double g = i ? 8 : 0, w = 60; if (i == f1 || i == f2) { w = sym_grid(1, 160, 1. / 2, "width"); if (i) g = sym_grid(1, 40, 1. / 2, "gap"); } Box q{x + g, 0, x + g + w, 100}; x = q.r; b.push_back(q); E.push_back(pageElem(d, p, i % 3 == 1 ? 3 : 0, q, i, 3 * i)); }
  PageSegmentation(d, &cf).process(); segInvariants(d, p, E); vector<int> cut; double from = b[0].l;
  for (int i = 1; i < n; i++) { bool c = (b[i].l - b[i - 1].r >= 6) & (b[i - 1].r - from >= 50) & (x - b[i].l >= 50); if (c) { cut.push_back(i); from = b[i].l; } }
  sym_assert(p->segments.size() == 1 + cut.size(), "elements side by side are divided at each gap that is wide enough between columns that are wide enough"); if (p->segments.size() != 1 + cut.size()) return;
  for (size_t k = 0; k < p->segments.size(); k++) { int a = k ? cut[k - 1] : 0, e = k < cut.size() ? cut[k] : n; auto& g = p->segments[k]->elements; sym_assert((int)g.size() == e - a, "columns are in order from left to right"); for (int i = a; i < e; i++) { bool in = false; for (auto* q : g) in = in || q == E[i]; sym_assert(in, "columns are in order from left to right"); } }
  sym_reach(cut.size() > 4 ? "many" : "few");
}
// a gap between a word and the next word of the text is no column boundary, wherever that word is in the right column
extern "C" void h_contiguous() {
  auto cf = segConfig(); PdfDocument* d = mkDoc(); PdfPage* p = mkPage(d, 1); int n = sym_param(0), at = sym_choice(n, "next word"), kind = sym_choice(3, "rank"); double y = sym_grid(0, 20 * n, 1. / 2, "y"); Elems E; E.push_back(pageElem(d, p, 0, {0, y, 60, y + 20}, 0, 10));
  for (int i = 0; i < n; i++) E.push_back(pageElem(d, p, i == 1 && at != 1 ? 3 : 0, {80. + i, 20. * i, 150. + i, 20. * i + 30}, 1 + i, i == at ? 10 + kind : 20 + 2 * i)); PageSegmentation(d, &cf).process(); segInvariants(d, p, E);
  double t = y > 20. * at ? y : 20. * at, e = y + 20 < 20. * at + 30 ? y + 20 : 20. * at + 30; bool neigh = (kind == 1) & (10 * (e - t) >= 20); sym_assert(p->segments.size() == (neigh ? 1 : 2), "a gap between two contiguous words that overlap vertically is no boundary of columns"); sym_reach(neigh ? "contiguous" : "columns");
}
// every kind of element, several on a page
extern "C" void h_segments_long() {
  auto cf = segConfig(); PdfDocument* d = mkDoc(); PdfPage *p1 = mkPage(d, 1), *p2 = mkPage(d, 2); int n = sym_param(0), fr = sym_choice(n, "free element"), page = sym_choice(2, "page"); Elems E, E2;
  for (int i = 0; i < n; i++) { Box b{70. * (i % 2), 45. * (i / 2), 70. * (i % 2) + 60, 45. * (i / 2) + 40}, c = b; if (i == fr) { Box& q = page ? c : b; q.l = sym_grid(-20, 150, 1, "l"); q.r = q.l + 60; q.u = sym_grid(-20, 300, 1, "u"); q.d = q.u + 30; } E.push_back(pageElem(d, p1, i % 4, b, i, 3 * i)); E2.push_back(pageElem(d, p2, (i + 1) % 4, c, i, 3 * i)); }
  PageSegmentation(d, &cf).process(); segInvariants(d, p1, E); segInvariants(d, p2, E2); auto& S = (page ? p1 : p2)->segments; sym_assert(S.size() == 2, "a page of two columns has two segments"); for (auto* s : S) sym_assert(s->elements.size() * 2 == (size_t)n, "a page of two columns has two segments"); sym_reach("done");
}
// rows above each other, each of one wide element or of two elements beside each other: y-cuts are made for runs of rows that can be divided into columns together
extern "C" void h_rows() {
  auto cf = segConfig(); PdfDocument* d = mkDoc(); PdfPage* p = mkPage(d, 1); int n = sym_param(0); Elems E; vector<double> gl, gr, up, lo; vector<int> wide; double y = 0; vector<vector<int>> at; static const char* PAT[] = {"2222w222", "w22w22w2", "22ww222w", "2w2w2222", "22222222"}; const char* pat = n > 4 ? PAT[sym_choice(5, "rows")] : nullptr; int fr = pat ? sym_choice(n, "free row") : 0, low = pat ? sym_choice(2, "low") : 0; if (pat && pat[fr] == 'w') return;
  for (int i = 0; i < n; i++) {
    bool w = pat ? pat[i] == 'w' : sym_choice(2, "wide"), con = pat ? i != fr : i == sym_param(1); double h = (pat ? low : sym_choice(2, "low")) ? 30 : 100, l = w ? 200 : con ? 95 : sym_grid(40 * 2, 160 * 2, 1. / 2, "left column ends"), r = w ? 0 : con ? 103 : sym_grid(40 * 2, 160 * 2, 1. / 2, "right column begins"); if (!w) sym_assume(r >= l);
    wide.push_back(w); gl.push_back(l); gr.push_back(r); up.push_back(y); lo.push_back(y + h); at.push_back({(int)E.size(), w ? -1 : (int)E.size() + 1});
    E.push_back(pageElem(d, p, 0, {0, y, l, y + h}, E.size(), 5 * E.size())); if (!w) E.push_back(pageElem(d, p, 0, {r, y, 200, y + h}, E.size(), 5 * E.size())); y += h + 10;
  }
  auto divisible = [&](int i, int j) { bool w = false; double l = 0, r = 1000; for (int k = i; k < j; k++) { w = w || wide[k]; double a = gl[k], b = gr[k]; l = a > l ? a : l; r = b < r ? b : r; } if (w) return false; double g = r - l; bool ok = (g >= 6) & ((g >= 10) | (lo[j - 1] - up[i] >= 60)) & (l >= 50) & (200 - r >= 50); return ok ? true : false; };
  vector<vector<int>> want; auto add = [&](int i, int j, int side) { vector<int> g; for (int k = i; k < j; k++) { if (side < 2) g.push_back(at[k][side]); else for (int e : at[k]) if (e >= 0) g.push_back(e); } want.push_back(g); };
  std::function<void(int, int)> rec = [&](int i, int j) {
    if (divisible(i, j)) { add(i, j, 0); add(i, j, 1); return; }
    vector<int> cuts(j + 1); bool any = false;
    for (int a = i; a <= j; a++) { int b = a; while (b < j && divisible(a, b + 1)) b++; if (b > a) { cuts[a] = cuts[b] = 1; any = any || (a > i) || (b < j); a = b; } }
    if (!any) { add(i, j, 2); return; } int from = i; for (int c = i + 1; c <= j; c++) if (c == j || cuts[c]) { rec(from, c); from = c; }
  };
  rec(0, n); PageSegmentation(d, &cf).process(); segInvariants(d, p, E); sym_assert(p->segments.size() == want.size(), "rows are separated exactly where this allows a run of rows to be divided into columns");
  for (size_t k = 0; k < want.size(); k++) { auto& g = p->segments[k]->elements; sym_assert(g.size() == want[k].size(), "rows are separated exactly where this allows a run of rows to be divided into columns"); for (int e : want[k]) { bool in = false; for (auto* q : g) in = in || q == E[e]; sym_assert(in, "rows are separated exactly where this allows a run of rows to be divided into columns"); } }
  sym_reach(want.size() == 1 ? "whole" : want.size() == 2 ? "two" : "more");
}
// a column boundary may be crossed by a few elements of a large group, but not near its top or bottom
extern "C" void h_crossed() {
  auto cf = segConfig(); int min = sym_choice(3, "minimum number"); cf.overlappingMinNumElements = 4 + min; PdfDocument* d = mkDoc(); PdfPage* p = mkPage(d, 1); Elems E; double y = sym_grid(-100, 700, 1. / 2, "y"), h = sym_grid(1, 60, 1. / 2, "height");
  Box b[5] = {{0, 0, 100, 200}, {120, 0, 220, 200}, {0, 0, 90, 150}, {130, 50, 220, 200}, {30, y, 200, y + h}}; for (int i = 0; i < 5; i++) E.push_back(pageElem(d, p, i == 4 ? sym_choice(2, "kind") * 3 : 0, b[i], i, 3 * i)); sym_assume((y + h > 0) & (y < 200));
  PageSegmentation(d, &cf).process(); segInvariants(d, p, E); double top = y < 0 ? y : 0, bottom = y + h > 200 ? y + h : 200, m = cf.getOverlappingElementsMarginThreshold(d); bool cut = (min < 2) & (y - top >= m) & (bottom - (y + h) >= m);
  sym_assert((p->segments.size() > 1) == cut, "a boundary of columns that is crossed by an element is used exactly if there are enough elements and it is not crossed near its top or bottom"); sym_reach(cut ? "crossed" : "not divided");
}
