// Detection of text lines, their hierarchy, sub- and superscripts, statistics.
#include "doc.h"
#include "TextLinesDetection.h"
#include "utils/TextLinesDetectionUtils.h"
#include "SubSuperScriptsDetection.h"
#include "utils/PdfElementsUtils.h"
using namespace ppp::modules; using namespace ppp::config; using namespace ppp::utils; using std::string; using std::vector;
static int randCount; extern "C" int rand() noexcept { return randCount += 7; }
static TextLinesDetectionConfig linesConfig() { TextLinesDetectionConfig c; c.logLevel = ppp::utils::log::LogLevel::ERROR; return c; }
static PdfPageSegment* mkSegment(PdfDocument* d, PdfPage* pg, const Box& b) { auto* s = new PdfPageSegment(); place(s, pg->pageNum, b); s->doc = d; s->id = "s"; pg->segments.push_back(s); return s; }
// coordinates along the text and across it, growing in reading direction, independent of the code under test
struct Rot { double l, r, t, b; };
static Rot rotBox(double l, double u, double r, double d, int rot) { switch (rot) { case 0: return {l, r, u, d}; case 1: return {u, d, -r, -l}; case 2: return {-r, -l, -d, -u}; default: return {-d, -u, l, r}; } }
static Rot rotBox(const PdfPosition* p) { return rotBox(p->leftX, p->upperY, p->rightX, p->lowerY, p->rotation); }
static bool isMin(double m, const vector<double>& v) { bool all = true, one = false; for (double x : v) { all = all & (m <= x); one = one | (m == x); } return all & one; }
static bool isMax(double m, const vector<double>& v) { bool all = true, one = false; for (double x : v) { all = all & (m >= x); one = one | (m == x); } return all & one; }
// whether two neighbouring lines are merged (heights and positions are linear in the inputs)
static bool mergeable(const Rot& a, const Rot& b) {
  double h1 = a.b - a.t, h2 = b.b - b.t, e1 = a.b - b.t, e2 = b.b - a.t; bool far = (b.l - a.r >= 15) | (a.l - b.r >= 15);
  // overlap = min(e1, e2, h1, h2); ratio = overlap / min(h1, h2) >= 0.4 (0.8 if the lines are far apart)
  auto share = [&](double f, double h) { return (e1 * 10 >= f * h) & (e2 * 10 >= f * h); };
  return (!far & (share(4, h1) | share(4, h2)) & (h1 * 10 >= 4 * h2 | h2 * 10 >= 4 * h1)) | (far & (share(8, h1) | share(8, h2)));
}

static void lineInvariants(PdfDocument* d, PdfPage* pg, PdfPageSegment* s, const vector<PdfWord*>& W, int& rank) {
  vector<int> seen(W.size());
  for (PdfTextLine* l : s->lines) {
    sym_assert(!l->words.empty(), "no line is empty"); sym_assert(l->segment == s && l->doc == d && l->pos->pageNum == pg->pageNum, "a line knows its segment, page and document"); sym_assert(l->rank == rank++, "lines are ranked in order"); sym_assert(l->id.substr(0, 5) == "line-" && l->id.size() > 5, "a line has an id");
    string text; vector<double> bl, bu, br, bd; vector<PdfCharacter*> ch; double mx = 0;
    for (size_t i = 0; i < l->words.size(); i++) {
      PdfWord* w = l->words[i]; auto* p = w->pos; if (i) text += " "; text += w->text; for (size_t k = 0; k < W.size(); k++) seen[k] += W[k] == w; sym_assert(w->line == l, "a word knows its line"); sym_assert(p->rotation == l->pos->rotation && p->wMode == l->pos->wMode, "the words of a line have its rotation");
      bl.push_back(p->leftX); bu.push_back(p->upperY); br.push_back(p->rightX); bd.push_back(p->lowerY); for (auto* c : w->characters) { ch.push_back(c); if (c->fontSize > mx) mx = c->fontSize; }
      if (i) sym_assert(rotBox(l->words[i - 1]->pos).l <= rotBox(p).l, "the words of a line are in text direction");
    }
    sym_assert(l->text == text, "the text of a line is that of its words, joined by blanks"); sym_assert(isMin(l->pos->leftX, bl) & isMin(l->pos->upperY, bu) & isMax(l->pos->rightX, br) & isMax(l->pos->lowerY, bd), "the box of a line is the union of the boxes of its words");
    int best = 0, mine = 0, bestF = 0, mineF = 0, mineB = 0; for (auto* c : ch) { int f = 0, g = 0; for (auto* e : ch) { f += e->fontSize == c->fontSize; g += e->fontName == c->fontName; } if (f > best) best = f; if (g > bestF) bestF = g; mine += c->fontSize == l->fontSize; mineF += c->fontName == l->fontName; mineB += c->base == l->base; }
    bool mostB = true; for (auto* c : ch) { int h = 0; for (auto* e : ch) h += e->base == c->base; mostB = mostB & (h <= mineB); }
    sym_assert(mine == best && mineF == bestF, "font and font size of a line are the most frequent ones of its characters"); sym_assert(mostB, "the baseline of a line is the most frequent one of its characters"); sym_assert(l->maxFontSize == mx, "the maximum font size of a line is the largest one of its characters");
  }
  for (int k : seen) sym_assert(k == 1, "the lines of a segment contain every word exactly once");
  for (size_t i = 0; i < s->lines.size(); i++) {
    PdfTextLine* l = s->lines[i]; PdfTextLine *p = i ? s->lines[i - 1] : nullptr, *q = i + 1 < s->lines.size() ? s->lines[i + 1] : nullptr; if (p && p->pos->rotation != l->pos->rotation) p = nullptr; if (q && q->pos->rotation != l->pos->rotation) q = nullptr;
    sym_assert(l->prevLine == p && l->nextLine == q, "each line refers to the line before and after it in its segment");
    if (p) sym_assert(!mergeable(rotBox(p->pos), rotBox(l->pos)), "neighbouring lines of a segment do not overlap vertically by the share at which lines are merged");
  }
}
static PdfWord* lineWord(PdfDocument* d, PdfPageSegment* s, const Box& b, int i, int rot) {
  PdfWord* w = mkWord(d, s->pos->pageNum, b, string(1, (char)('a' + i)), i, rot); for (int k = 0; k < 2; k++) { auto* c = mkChar(d, s->pos->pageNum, b, "x", i, rot, i == 1 && !k ? 8 : 10 + i / 2, i ? "G" : "F"); w->characters.push_back(c); } s->elements.push_back(w); return w;
}
// two or three words, unrotated; param 1: whether the horizontal positions are symbolic
extern "C" void h_lines() {
  auto cf = linesConfig(); PdfDocument* d = mkDoc(); PdfPage *p1 = mkPage(d, 1), *p2 = mkPage(d, 2); int n = sym_param(0), R = sym_param(2); PdfPageSegment* s = mkSegment(d, p1, {-1000, -1000, 1000, 1000}); mkSegment(d, p1, {0, 0, 1, 1}); PdfPageSegment* s2 = mkSegment(d, p2, {0, 0, 50, 50}); vector<PdfWord*> W; vector<Box> B; static PdfFigure fig; s->elements.push_back(&fig);
  for (int i = 0; i < n; i++) { Box b; b.l = sym_param(1) ? sym_grid(-R, R, 1. / 2, "l") : i == 1 ? (sym_choice(2, "far") ? 40 : -13) : 2 * i; b.r = b.l + 12; b.u = sym_grid(-R, R, 1. / 2, "u"); b.d = b.u + (i & 1 ? 6 : 10); B.push_back(b); W.push_back(lineWord(d, s, b, i, 0)); }
  vector<PdfWord*> W2{lineWord(d, s2, {1, 2, 20, 12}, 5, 0)}; TextLinesDetection(d, &cf).process(); int rank = 0; lineInvariants(d, p1, s, W, rank); lineInvariants(d, p2, s2, W2, rank);
  sym_assert(d->pages[0]->segments[1]->lines.empty(), "a segment without words has no lines");
  for (int i = 0; i < n; i++) for (int j = 0; j < i; j++) { bool one = W[i]->line == W[j]->line; sym_assert(one | (B[i].d != B[j].d), "words on the same baseline are in one line"); if (one) sym_reach("merged"); }
  if (n == 2) sym_assert((W[0]->line == W[1]->line) == (mergeable(rotBox(W[0]->pos), rotBox(W[1]->pos)) | (B[0].d == B[1].d)), "two words are in one line exactly if they share the baseline or overlap vertically by 40 percent (80 percent if they are far apart)");
  if (s->lines.size() > 1) sym_reach("several");
}
// long lines: two rows of n and 3 words, of which two words have a symbolic height
extern "C" void h_lines_long() {
  auto cf = linesConfig(); PdfDocument* d = mkDoc(); PdfPage *p1 = mkPage(d, 1), *p2 = mkPage(d, 2); int n = sym_param(0), R = sym_param(1); PdfPageSegment *s = mkSegment(d, p1, {-1000, -1000, 1000, 1000}), *s2 = mkSegment(d, p2, {-1000, -1000, 1000, 1000}); vector<PdfWord*> W, W2; int p = sym_choice(n, "first"), q = sym_choice(n, "second"), over = sym_choice(2, "second is at the first word"); if (q <= p) return;
  auto word = [&](PdfPageSegment* t, const Box& b, int i) { PdfWord* w = mkWord(d, t->pos->pageNum, b, string(1, (char)('a' + i)), i, 0); for (int k = 0; k < 2; k++) { Box cb{b.l + 6 * k, b.u, b.l + 6 * k + 6, b.d}; auto* c = mkChar(d, t->pos->pageNum, cb, "x", i, 0, i > 3 ? 9 : 10, i > 3 ? "G" : "F"); c->word = w; w->characters.push_back(c); } t->elements.push_back(w); return w; };
  for (int i = 0; i < n; i++) { double u = 0, h = 10; if (i == p || i == q) { u = sym_grid(-R, R, 1. / 2, "u"); h = 6; } double x = i == q && over ? 0 : 13. * i; Box b{x, u, x + 12, u + h}; W.push_back(word(s, b, i)); W2.push_back(word(s2, {13. * i, 40, 13. * i + 12, 50}, i)); }
  for (int i = 0; i < 3; i++) { W.push_back(word(s, {13. * i, 14, 13. * i + 12, 24}, n + i)); W2.push_back(word(s2, {13. * i, 20, 13. * i + 12, 30}, n + i)); }
  TextLinesDetection(d, &cf).process(); int rank = 0; lineInvariants(d, p1, s, W, rank); lineInvariants(d, p2, s2, W2, rank); for (int i = 0; i + 1 < n; i++) if (i != p && i != q) for (int j = i + 1; j < n; j++) if (j != p && j != q) { sym_assert(W[i]->line == W[j]->line, "words on the same baseline are in one line"); if (W[p]->line == W[i]->line) sym_reach("merged"); else sym_reach("apart"); }
  sym_assert(s2->lines.size() == 2 && s2->lines[0]->words.size() == 3, "each row of words is a line, from top to bottom");
}
// every rotation
extern "C" void h_lines_rot() {
  auto cf = linesConfig(); PdfDocument* d = mkDoc(); PdfPage* p1 = mkPage(d, 1); int n = sym_param(0); PdfPageSegment* s = mkSegment(d, p1, {-1000, -1000, 1000, 1000}); vector<PdfWord*> W; int rot = sym_choice(4, "rotation");
  for (int i = 0; i < n; i++) { bool x = sym_param(1) || rot % 2, y = sym_param(1) || rot % 2 == 0; Box b; b.l = x ? sym_grid(-40, 40, 1, "l") : 9 * i; b.r = b.l + 12; b.u = y ? sym_grid(-40, 40, 1, "u") : 13 * i; b.d = b.u + 12; int r = i == 1 ? (rot + sym_choice(2, "other")) % 4 : rot; W.push_back(lineWord(d, s, b, i, r)); }
  TextLinesDetection(d, &cf).process(); int rank = 0; lineInvariants(d, p1, s, W, rank); sym_reach("done");
  if (W[0]->pos->rotation == W[1]->pos->rotation) { Rot a = rotBox(W[0]->pos), b = rotBox(W[1]->pos); if (n == 2) sym_assert((W[0]->line == W[1]->line) == (mergeable(a, b) | (a.b == b.b)), "two words of the same rotation are in one line exactly if they share the baseline or overlap across the text direction by 40 percent (80 percent if they are far apart)"); if (W[0]->line != W[1]->line) { if (n == 2) sym_assert((W[0]->line->rank < W[1]->line->rank) == (a.b < b.b), "lines are in reading order"); sym_reach("several"); } else sym_reach("one"); }
  else sym_assert(W[0]->line != W[1]->line, "words of different rotation are in different lines");
}
// stacked math symbols stay together
extern "C" void h_lines_stacked() {
  auto cf = linesConfig(); PdfDocument* d = mkDoc(); PdfPage* p1 = mkPage(d, 1); PdfPageSegment* s = mkSegment(d, p1, {-1000, -1000, 1000, 1000}); vector<PdfWord*> W;
  for (int i = 0; i < 3; i++) { Box b; b.l = 9 * i; b.r = b.l + 12; b.u = sym_grid(-40, 40, 1, "u"); b.d = b.u + 10; W.push_back(lineWord(d, s, b, i, 0)); }
  int base = sym_choice(3, "base"), part = (base + 1 + sym_choice(2, "part")) % 3; W[base]->isBaseOfStackedMathSymbol.push_back(W[part]); W[part]->isPartOfStackedMathSymbol = W[base];
  TextLinesDetection(d, &cf).process(); int rank = 0; lineInvariants(d, p1, s, W, rank); sym_assert(W[base]->line == W[part]->line, "the parts of a stacked math symbol are in the line of its base"); sym_reach("done");
}
// --- trim box
extern "C" void h_trim() {
  auto cf = linesConfig(); PdfDocument* d = mkDoc(); PdfPage* pg = mkPage(d, 1); PdfPageSegment* s = mkSegment(d, pg, {sym_grid(-50, 50, 1, "l"), -7, 300, 99}); int n = sym_param(0), rot = sym_choice(2, "rotated"); vector<double> X; TextLinesDetectionUtils u(&cf);
  for (int i = 0; i < n; i++) { double x = sym_grid(-40, 40, 1. / 4, "rightX"); Box b{x - 100, 10. * i, x, 10. * i + 8}; if (rot) b = {10. * i, x - 100, 10. * i + 8, x}; auto* l = mkLine(d, 1, b, "t", i); l->pos->rotation = rot; s->lines.push_back(l); X.push_back(x); }
  auto t = u.computeTrimBox(s); sym_assert((std::get<0>(t) == s->pos->leftX) & (std::get<1>(t) == -7) & (std::get<3>(t) == 99), "the trim box of a segment has its left, upper and lower side"); double r = std::get<2>(t);
  auto near = [](double a, double b) { return (a - b >= 0) & (2 * (a - b) <= 1) | (a - b < 0) & (2 * (b - a) <= 1); }; (void)near;
  vector<double> Y; for (double x : X) { double y = sym_grid(-12, 12, 1, "rounded"); sym_assume(((x >= 0) & (y - 0.5 <= x) & (x < y + 0.5)) | ((x < 0) & (y - 0.5 < x) & (x <= y + 0.5))); Y.push_back(y); }
  int best = 0, mine = 0; for (double a : Y) { int k = 0; for (double b : Y) k += a == b; if (k > best) best = k; mine += a == r; }
  if (2 * best >= n && n) { sym_assert(mine == best, "the right side of the trim box is the most frequent right side of the lines if at least half of them share it"); sym_reach("trimmed"); } else { sym_assert(r == 300, "otherwise the trim box has the right side of the segment"); sym_reach("untrimmed"); }
}
// --- hierarchy of lines
extern "C" void h_hierarchy() {
  auto cf = linesConfig(); PdfDocument* d = mkDoc(); PdfPage* pg = mkPage(d, 1); int n = sym_param(0), R = sym_param(1), cut = 1 + sym_choice(2, "second segment"); vector<PdfTextLine*> L; PdfPageSegment *a = mkSegment(d, pg, {0, 0, 9, 9}), *b = mkSegment(d, pg, {0, 0, 9, 9}); TextLinesDetectionUtils u(&cf); int odd = sym_choice(2, "rotated line");
  for (int i = 0; i < n; i++) { double x = sym_grid(-R, R, 1, "leftX"), y = sym_grid(-4 * R, 4 * R, 1. / 2, "upperY"); auto* l = mkLine(d, 1, {x, y, x + 100, y + 8}, "t", i); l->pos->wMode = odd && i == 1; L.push_back(l); (i < n - cut ? a : b)->lines.push_back(l); }
  u.computeTextLineHierarchy(pg); const double T = 5;
  auto idx = [&](const PdfTextLine* l) { for (int i = 0; i < n; i++) if (L[i] == l) return i; return -1; };
  auto brk = [&](int i) { double y0 = L[i - 1]->pos->upperY, y1 = L[i]->pos->upperY, g = y0 < y1 ? y1 - y0 - 8 : y0 - y1 - 8; return L[i - 1]->pos->wMode == L[i]->pos->wMode && (g > 10.1 || g < -10.1); };
  vector<bool> br(n); for (int i = 1; i < n; i++) br[i] = brk(i);
  for (int i = 0; i < n; i++) {
    auto* l = L[i];
    if (l->prevSiblingLine) { int p = idx(l->prevSiblingLine); sym_assert(p >= 0 && p < i, "a previous sibling precedes the line"); auto* q = L[p]; sym_assert(q->nextSiblingLine == l, "siblings refer to each other"); sym_assert(q->parentLine == l->parentLine, "siblings have the same parent"); double dx = q->pos->leftX - l->pos->leftX; sym_assert((dx <= T) & (dx >= -T), "siblings are left-aligned"); sym_assert(q->pos->lowerY < l->pos->lowerY, "a previous sibling is above the line");
      for (int k = p + 1; k <= i; k++) sym_assert(!br[k], "no sibling beyond a large line distance"); for (int k = p + 1; k < i; k++) if (n < 4) sym_assert(!(L[k]->pos->leftX < l->pos->leftX - T) || !(L[k]->pos->lowerY > q->pos->lowerY), "no line further left is between siblings"); sym_reach("sibling"); }
    if (l->nextSiblingLine) { int q = idx(l->nextSiblingLine); sym_assert(q > i && L[q]->prevSiblingLine == l, "siblings refer to each other"); }
    if (l->parentLine) { int p = idx(l->parentLine); sym_assert(p >= 0 && p < i, "a parent precedes the line"); auto* q = L[p]; if (!l->prevSiblingLine) { sym_assert(q->pos->leftX < l->pos->leftX - T, "a line is indented compared to its parent"); } sym_assert(q->pos->lowerY < l->pos->lowerY, "a parent is above the line"); for (int k = p + 1; k <= i; k++) sym_assert(!br[k], "no parent beyond a large line distance"); sym_reach("parent"); }
  }
  // the line right above
  for (int i = 1; i < n; i++) { auto *q = L[i - 1], *l = L[i]; bool free = i == 1 || br[i - 1]; if (free && !br[i] && q->pos->lowerY < l->pos->lowerY - 0.1) { double dx = l->pos->leftX - q->pos->leftX; if ((dx <= T) & (dx >= -T)) sym_assert(l->prevSiblingLine == q, "a line left-aligned with the line above is its sibling"); else if (dx > T) sym_assert(l->parentLine == q && !l->prevSiblingLine, "a line indented to the line above is its child"); else sym_assert(!l->parentLine && !l->prevSiblingLine, "an outdented line has no relatives among the lines that are further right"); } if (br[i]) { sym_assert(!l->parentLine && !l->prevSiblingLine, "a line far away from the line before has no relatives above"); sym_reach("break"); } }
}
// many lines on up to three levels of indentation, from top to bottom; one distance between two lines is symbolic
extern "C" void h_hierarchy_long() {
  auto cf = linesConfig(); PdfDocument* d = mkDoc(); mkPage(d, 1); PdfPage* pg = mkPage(d, 2); int n = sym_param(0), at = 1 + sym_choice(n - 1, "distance"), levels = sym_param(1); PdfPageSegment *a = mkSegment(d, pg, {0, 0, 9, 9}), *b = mkSegment(d, pg, {0, 0, 9, 9}); vector<PdfTextLine*> L; vector<int> lev; double y = 0, gap = sym_grid(0, 120, 1. / 8, "gap"); int last = 0;
  for (int i = 0; i < n; i++) { int v = sym_choice(levels, "level"); double j = i == n - 1 || i == n / 2 ? sym_grid(-4, 4, 1. / 2, "jitter") : 0, x = 12 * v + j; if (i) y += i == at ? gap : 2; auto* l = mkLine(d, 2, {x, y, x + 100, y + 8}, "t", i); y += 8; l->segment = i < n - 2 ? a : b; l->segment == a ? a->lines.push_back(l) : b->lines.push_back(l); L.push_back(l); lev.push_back(v); }
  TextLinesDetectionUtils u(&cf); u.computeTextLineHierarchy(pg); bool brk = gap > 10.1;
  for (int i = 0; i < n; i++) {
    if (i == at && brk) { last = i; sym_reach("break"); } int k = i - 1; while (k >= last && lev[k] > lev[i]) k--; int p = i - 1; while (p >= last && lev[p] >= lev[i]) p--;
    sym_assert(L[i]->prevSiblingLine == (k >= last && lev[k] == lev[i] ? L[k] : nullptr), "the previous sibling of a line is the nearest left-aligned line above that has no line further left below it"); sym_assert(L[i]->parentLine == (p >= last ? L[p] : nullptr), "the parent of a line is the nearest line above that is further left");
    if (L[i]->prevSiblingLine) { sym_assert(L[i]->prevSiblingLine->nextSiblingLine == L[i], "siblings refer to each other"); sym_reach("sibling"); } if (L[i]->parentLine) sym_reach("parent");
  }
}
