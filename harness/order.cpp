// Reading order of the text blocks of a page.
#include "doc.h"
#include "ReadingOrderDetection.h"
using namespace ppp::modules; using namespace ppp::config; using std::string; using std::vector;
static int randCount; extern "C" int rand() noexcept { return randCount += 7; }
typedef vector<PdfElement*> Elems;
// the semantic roles come from a trained model: here, any roles
static vector<SemanticRole> roles; static int predicted;
namespace ppp::modules {
SemanticRolesPrediction::SemanticRolesPrediction(const SemanticRolesPredictionConfig* c) { _config = c; }
SemanticRolesPrediction::~SemanticRolesPrediction() {}
void SemanticRolesPrediction::predict(const PdfDocument* doc) { size_t i = 0; predicted++; for (auto* p : doc->pages) for (auto* b : p->blocks) b->role = roles[i++]; }
}
// --- the documented order: recursive division of the page, written down over sets of elements
struct Gap { size_t pos; PdfElement *before, *after; };
struct Ref {
  PdfDocument* d; Box page; vector<Elems> leaves;
  static double from(PdfElement* e, bool x) { return x ? e->pos->leftX : e->pos->upperY; }
  static double to(PdfElement* e, bool x) { return x ? e->pos->rightX : e->pos->lowerY; }
  static void order(Elems& v, bool x) { for (size_t i = 1; i < v.size(); i++) for (size_t j = i; j > 0 && from(v[j], x) < from(v[j - 1], x); j--) { auto* t = v[j]; v[j] = v[j - 1]; v[j - 1] = t; } }
  static vector<Gap> gaps(Elems& v, bool x) {
    vector<Gap> r; if (v.empty()) return r; order(v, x); PdfElement* m = v[0];
    for (size_t p = 1; p < v.size(); p++) { if (from(v[p], x) >= to(m, x)) r.push_back({p, m, v[p]}); if (to(v[p], x) > to(m, x)) m = v[p]; } return r;
  }
  static Elems part(const Elems& v, size_t a, size_t b) { return Elems(v.begin() + a, v.begin() + b); }
  static bool divisible(Elems v) { return !gaps(v, true).empty(); }
  bool separator(PdfElement* e, bool x) {
    if (!dynamic_cast<PdfNonTextElement*>(e)) return false; double a = from(e, !x), b = to(e, !x), mid = x ? (page.u + page.d) / 2 : (page.l + page.r) / 2;
    return (b - a > 10 * (x ? d->avgCharHeight : d->avgCharWidth)) & (a < mid) & (b > mid);
  }
  bool primary(const Gap& g, bool x) {
    auto *a = dynamic_cast<PdfTextBlock*>(g.before), *b = dynamic_cast<PdfTextBlock*>(g.after);
    if (x) for (auto* k : {a, b}) if (k && (k->pos->rotation != 0 || k->pos->wMode != 0)) return true;
    if (!x) for (auto r : {SemanticRole::TITLE, SemanticRole::AUTHOR_INFO, SemanticRole::MARGINAL}) if ((a && a->role == r) != (b && b->role == r)) return true;
    return separator(g.before, x) || separator(g.after, x);
  }
  vector<Elems> divide(const Elems& in, bool x, bool prim) {
    Elems v = in; vector<Gap> g = gaps(v, x); vector<int> use(g.size());
    if (prim) { for (size_t i = 0; i < g.size(); i++) use[i] = primary(g[i], x); }
    else if (x) { for (auto& u : use) u = 1; }
    else if (!g.empty()) {
      size_t lo = 0, hi = g.size() - 1;
      for (size_t i = 0; i < g.size(); i++) if (divisible(part(v, g[i].pos, v.size()))) { use[hi = i] = 1; break; }
      for (size_t i = hi + 1; i-- > 0;) if (divisible(part(v, 0, g[i].pos))) { use[lo = i] = 1; break; }
      for (size_t i = lo; i < hi; i++) for (size_t j = hi; j > i; j--) if (divisible(part(v, g[i].pos, g[j].pos))) { use[i] = use[j] = 1; i = j; break; }
    }
    vector<Elems> r; size_t at = 0; for (size_t i = 0; i < g.size(); i++) if (use[i]) { r.push_back(part(v, at, g[i].pos)); at = g[i].pos; } r.push_back(part(v, at, v.size())); return r;
  }
  void recurse(const Elems& v) {
    auto xs = divide(v, true, false);
    for (auto& x : xs) { auto ys = divide(x, false, false); if (ys.size() == 1) { leaves.push_back(x); continue; } for (auto& y : ys) recurse(y); }
  }
  void run(const Elems& v) { if (v.empty()) return; for (auto& x : divide(v, true, true)) for (auto& y : divide(x, false, true)) recurse(y); }
};
static int blocksIn(const Elems& v) { int n = 0; for (auto* e : v) n += dynamic_cast<PdfTextBlock*>(e) != nullptr; return n; }
static void check(PdfDocument* d, PdfPage* pg, const Elems& E) {
  Ref ref; ref.d = d; ref.page = {1e9, 1e9, -1e9, -1e9};
  for (auto* e : E) { auto& p = *e->pos; if (p.leftX < ref.page.l) ref.page.l = p.leftX; if (p.upperY < ref.page.u) ref.page.u = p.upperY; if (p.rightX > ref.page.r) ref.page.r = p.rightX; if (p.lowerY > ref.page.d) ref.page.d = p.lowerY; }
  ref.run(E); size_t at = 0, total = blocksIn(E); sym_assert(pg->blocks.size() == total, "no text block is lost or doubled");
  for (auto* e : E) if (dynamic_cast<PdfTextBlock*>(e)) { int k = 0; for (auto* b : pg->blocks) k += b == e; sym_assert(k == 1, "no text block is lost or doubled"); }
  for (auto& leaf : ref.leaves) {
    size_t n = blocksIn(leaf);
    for (size_t i = at; i < at + n; i++) { bool in = false; for (auto* e : leaf) in |= e == pg->blocks[i]; sym_assert(in, "the blocks follow the division of the page: left before right of an x-cut, above before below a y-cut"); if (i > at) sym_assert(pg->blocks[i - 1]->pos->upperY <= pg->blocks[i]->pos->upperY, "blocks that no cut divides are read from top to bottom"); }
    at += n;
  }
  if (ref.leaves.size() > 1) sym_reach("divided"); else sym_reach("whole");
  // every cut the detection reports and uses orders the two elements beside it
  for (Cut* c : pg->readingOrderCuts) if (c->isChosen) {
    sym_assert(c->dir == CutDir::X ? c->elementBefore->pos->rightX <= c->elementAfter->pos->leftX : c->elementBefore->pos->lowerY <= c->elementAfter->pos->upperY, "a cut used for the reading order crosses no element");
    int a = -1, b = -1; for (size_t i = 0; i < pg->blocks.size(); i++) { if (pg->blocks[i] == c->elementBefore) a = i; if (pg->blocks[i] == c->elementAfter) b = i; } if (a >= 0 && b >= 0) sym_assert(a < b, "a cut used for the reading order separates the blocks beside it");
    if (c->dir == CutDir::X) sym_reach("x"); else sym_reach("y");
  }
}
static ReadingOrderDetectionConfig cfg; static SemanticRolesPredictionConfig cfg2;
static PdfElement* elem(PdfDocument* d, PdfPage* pg, int kind, const Box& b, int i) {
  PdfElement* e; if (kind == 0) { auto* k = mkBlock(d, pg->pageNum, b, "x", i); pg->blocks.push_back(k); e = k; } else if (kind == 1) { auto* f = new PdfFigure(); pg->figures.push_back(f); e = f; } else { auto* s = new PdfShape(); pg->shapes.push_back(s); e = s; }
  place(e, pg->pageNum, b); e->doc = d; return e;
}
// plain text blocks: params: number, 1 if all are of the same size, 2 if the first is as wide as both columns
extern "C" void h_order() {
  int n = sym_param(0), how = sym_param(1), R = sym_param(2); PdfDocument* d = mkDoc(); auto* p1 = mkPage(d, 1); auto* p2 = mkPage(d, 2); mkPage(d, 3); Elems E; roles.clear(); predicted = 0;
  for (int i = 0; i < n; i++) { Box b; b.l = sym_grid(-R, R, 1, "l"); b.u = sym_grid(-R, R, 1, "u"); if (how == 0) { b.r = sym_grid(-R, R, 1, "r"); b.d = sym_grid(-R, R, 1, "d"); sym_assume((b.r > b.l) & (b.d > b.u)); } else { b.r = b.l + (how == 2 && i == 0 ? 24 : 10); b.d = b.u + (how == 2 && i == 1 ? 14 : 6); if (n > 3 && i) sym_assume(E[i - 1]->pos->leftX <= b.l); } E.push_back(elem(d, p1, 0, b, i)); roles.push_back(SemanticRole::PARAGRAPH); }
  Box o{1, 1, 9, 9}; PdfElement* other = elem(d, p2, 0, o, 9); roles.push_back(SemanticRole::TITLE);
  { ReadingOrderDetection r(d, &cfg, &cfg2); r.process(); } sym_assert(predicted == 1, "the semantic roles are predicted once"); check(d, p1, E); check(d, p2, {other}); sym_assert(d->pages[2]->blocks.empty() && d->pages[2]->readingOrderCuts.empty(), "an empty page stays empty");
}
// two blocks with any role, rotation and writing mode and a figure, line or third block; params: 0: roles and a separator, 1: rotations, 2: roles, 3: separator
extern "C" void h_primary() {
  int how = sym_param(0), R = sym_param(1); PdfDocument* d = mkDoc(); d->avgCharHeight = 2; d->avgCharWidth = 1; auto* pg = mkPage(d, 1); Elems E; roles.clear();
  SemanticRole rs[] = {SemanticRole::TITLE, SemanticRole::AUTHOR_INFO, SemanticRole::MARGINAL, SemanticRole::HEADING};
  for (int i = 0; i < 3; i++) {
    Box b = symBoxAt(-R, R, 1, i ? 10 : 14, i ? 6 : 8, "box"); bool text = i < 2 || how == 1 || how == 2; int kind = text ? 0 : 1 + sym_choice(2, "kind");
    if (!text) { b.r = sym_grid(-R, R, 1, "r"); b.d = sym_grid(-R, R, 1, "d"); sym_assume((b.r > b.l) & (b.d > b.u)); }
    for (auto* e : E) sym_assume((e->pos->leftX != b.l) & (e->pos->rightX != b.r) & (e->pos->upperY != b.u) & (e->pos->lowerY != b.d));
    PdfElement* e = elem(d, pg, kind, b, i); E.push_back(e);
    if (text) { if (how % 2 == 0) roles.push_back(rs[i < 2 ? sym_choice(i ? 4 : 2, "role") + (i ? 0 : 2) : 3]); else { roles.push_back(SemanticRole::PARAGRAPH); if (i < 2 && how == 1) { int k = sym_choice(3, "turned"); e->pos->rotation = k == 1 ? 1 : 0; e->pos->wMode = k == 2 ? 1 : 0; } } }
  }
  { ReadingOrderDetection r(d, &cfg, &cfg2); r.process(); } check(d, pg, E);
}
// two columns, a block of any role and a figure or line at any place; param: range of the places
extern "C" void h_primary_mix() {
  int R = sym_param(0); PdfDocument* d = mkDoc(); d->avgCharHeight = 2; d->avgCharWidth = 1; auto* pg = mkPage(d, 1); Elems E; roles.clear();
  SemanticRole rs[] = {SemanticRole::TITLE, SemanticRole::AUTHOR_INFO, SemanticRole::MARGINAL, SemanticRole::PARAGRAPH};
  for (int i = 0; i < 4; i++) {
    Box b = i < 2 ? Box{20. * i, 0, 20. * i + 10, 7} : symBoxAt(-R, R, 1, i == 2 ? 12 : 8, i == 2 ? 6 : 3, "box");
    for (auto* e : E) sym_assume((e->pos->leftX != b.l) & (e->pos->rightX != b.r) & (e->pos->upperY != b.u) & (e->pos->lowerY != b.d) | (i < 2));
    E.push_back(elem(d, pg, i < 3 ? 0 : 1 + sym_choice(2, "kind"), b, i)); if (i < 3) roles.push_back(i < 2 ? SemanticRole::PARAGRAPH : rs[sym_choice(4, "role")]);
  }
  { ReadingOrderDetection r(d, &cfg, &cfg2); r.process(); } check(d, pg, E);
}
// no pages, nothing but figures
extern "C" void h_order_empty() {
  PdfDocument* d = mkDoc(); roles.clear(); { ReadingOrderDetection r(d, &cfg, &cfg2); r.process(); } sym_assert(d->pages.empty(), "a document without pages stays as it is");
  auto* pg = mkPage(d, 1); Elems E; for (int i = 0; i < 2; i++) E.push_back(elem(d, pg, 1 + i, symBoxAt(-20, 20, 1, 8, 8, "box"), i)); { ReadingOrderDetection r(d, &cfg, &cfg2); r.process(); } check(d, pg, E);
}
// a page of bands (wide blocks and rows of two or three columns, figures and lines between them), one more block or figure at any place, and roles; params: 0: bands, 1: with figures and shapes; range of the place
extern "C" void h_order_long() {
  int how = sym_param(0), R = sym_param(1); PdfDocument* d = mkDoc(); d->avgCharHeight = 2; d->avgCharWidth = 1; auto* pg = mkPage(d, 1); mkPage(d, 2); Elems E; roles.clear();
  const char* pats[] = {"wcwcw", "cwcwc", "wwcwccw", "tcwcfws", "fcswcsf", "mwcfcwm"}; const char* pat = pats[how * 3 + sym_choice(3, "bands")]; int id = 0; double y = 0;
  auto add = [&](int kind, const Box& b, SemanticRole r) { E.push_back(elem(d, pg, kind, b, id++)); if (kind == 0) roles.push_back(r); };
  for (int i = 0; pat[i]; i++, y += 9) {
    Box w{0, y, 46, y + 7}; char k = pat[i]; SemanticRole para = SemanticRole::PARAGRAPH;
    if (k == 'w') add(0, w, para); else if (k == 't') add(0, w, SemanticRole::TITLE); else if (k == 'm') add(0, {8, y, 30, y + 7}, SemanticRole::MARGINAL);
    else if (k == 'f') add(1, {2, y, 40, y + 7}, para); else if (k == 's') add(2, {0, y, 44, y + 1}, para);
    else { add(0, {25, y + 1, 46, y + 7}, para); add(0, {0, y, 21, y + 6}, para); }
  }
  Box b = symBoxAt(-R, R + 40, 1, 9, 4, "box"); for (auto* e : E) sym_assume((e->pos->leftX != b.l) & (e->pos->rightX != b.r) & (e->pos->upperY != b.u) & (e->pos->lowerY != b.d));
  add(how ? sym_choice(3, "kind") : 0, b, SemanticRole::PARAGRAPH);
  { ReadingOrderDetection r(d, &cfg, &cfg2); r.process(); } check(d, pg, E); sym_assert(d->pages[1]->blocks.empty(), "an empty page stays empty");
}
