// Detection of text blocks and its helpers.
#include "doc.h"
#include "TextBlocksDetection.h"
#include "utils/TextBlocksDetectionUtils.h"
#include "utils/PdfElementsUtils.h"
using namespace ppp::modules; using namespace ppp::config; using namespace ppp::utils; using std::string; using std::vector; using std::unordered_set;
static int randCount; extern "C" int rand() noexcept { return randCount += 7; }
static const double EPS = 0.0001;
static TextBlocksDetectionConfig* blocksConfig() { auto* c = new TextBlocksDetectionConfig(); c->logLevel = ppp::utils::log::LogLevel::ERROR; return c; }
static PdfPageSegment* mkSegment(PdfDocument* d, PdfPage* pg, const Box& b) { auto* s = new PdfPageSegment(); place(s, pg->pageNum, b); s->doc = d; s->id = "s"; s->trimLeftX = b.l; s->trimUpperY = b.u; s->trimRightX = b.r; s->trimLowerY = b.d; pg->segments.push_back(s); return s; }
static double absd(double x) { return x < 0 ? -x : x; }
static bool isMin(double m, const vector<double>& v) { bool all = true, one = false; for (double x : v) { all = all & (m <= x); one = one | (m == x); } return all & one; }
static bool isMax(double m, const vector<double>& v) { bool all = true, one = false; for (double x : v) { all = all & (m >= x); one = one | (m == x); } return all & one; }
static bool within(double a, double b, double t) { return (a - b <= t) & (b - a <= t); }
// a line of the given words (text: the words joined by blanks); the first word is fw wide
static PdfTextLine* textLine(PdfDocument* d, PdfPageSegment* s, const Box& b, const vector<string>& words, int i, double fw = 20) {
  string t; for (size_t k = 0; k < words.size(); k++) { if (k) t += ' '; t += words[k]; }
  auto* l = mkLine(d, s ? s->pos->pageNum : 1, b, t, i); l->segment = s;
  for (size_t k = 0; k < words.size(); k++) { auto* w = mkWord(d, l->pos->pageNum, {b.l, b.u, b.l + fw, b.d}, words[k], 10 * i + k); w->line = l; l->words.push_back(w); w->characters.push_back(mkChar(d, l->pos->pageNum, b, words[k].substr(0, 1), 0)); }
  if (s) s->lines.push_back(l); return l;
}
static void link(vector<PdfTextLine*>& L) { for (size_t i = 1; i < L.size(); i++) { L[i]->prevLine = L[i - 1]; L[i - 1]->nextLine = L[i]; } }

// --- what every block must look like
static void blockInvariants(PdfDocument* d, PdfPage* pg, const vector<PdfTextBlock*>& blocks, const vector<PdfTextLine*>& L, bool last) {
  size_t at = 0;
  for (size_t k = 0; k < blocks.size(); k++) {
    PdfTextBlock* b = blocks[k]; sym_assert(!b->lines.empty(), "no block is empty"); string text; vector<double> bl, bu, br, bd;
    sym_assert(b->rank == (int)k, "blocks are ranked in order"); sym_assert(b->doc == d && b->pos->pageNum == pg->pageNum && b->segment == b->lines[0]->segment, "a block knows its document, page and segment");
    sym_assert(b->pos->rotation == b->lines[0]->pos->rotation && b->pos->wMode == b->lines[0]->pos->wMode, "a block has the rotation and writing mode of its lines");
    sym_assert(b->prevBlock == (k ? blocks[k - 1] : nullptr) && b->nextBlock == (k + 1 < blocks.size() ? blocks[k + 1] : nullptr), "blocks refer to the block before and after them");
    for (size_t i = 0; i < b->lines.size(); i++) {
      PdfTextLine* l = b->lines[i]; sym_assert(at < L.size() && L[at++] == l, "the blocks contain every line exactly once and in order"); if (last) { sym_assert(l->block == b, "a line knows its block"); sym_assert(l->prevLine == (i ? b->lines[i - 1] : nullptr) && l->nextLine == (i + 1 < b->lines.size() ? b->lines[i + 1] : nullptr), "a line knows its neighbours within its block"); }
      for (auto* w : l->words) { if (!text.empty()) text += ' '; text += w->text; } bl.push_back(l->pos->leftX); bu.push_back(l->pos->upperY); br.push_back(l->pos->rightX); bd.push_back(l->pos->lowerY);
    }
    sym_assert(b->text == text, "the text of a block is that of its words, joined by blanks"); sym_assert(isMin(b->pos->leftX, bl) & isMin(b->pos->upperY, bu) & isMax(b->pos->rightX, br) & isMax(b->pos->lowerY, bd), "the box of a block spans its lines");
    auto* s = b->segment; auto* p = b->pos; bool tl = (b->trimLeftX >= p->leftX) & (b->trimLeftX >= s->trimLeftX) & ((b->trimLeftX == p->leftX) | (b->trimLeftX == s->trimLeftX)), tu = (b->trimUpperY >= p->upperY) & (b->trimUpperY >= s->trimUpperY) & ((b->trimUpperY == p->upperY) | (b->trimUpperY == s->trimUpperY));
    bool tr = (b->trimRightX <= p->rightX) & (b->trimRightX <= s->trimRightX) & ((b->trimRightX == p->rightX) | (b->trimRightX == s->trimRightX)), td = (b->trimLowerY <= p->lowerY) & (b->trimLowerY <= s->trimLowerY) & ((b->trimLowerY == p->lowerY) | (b->trimLowerY == s->trimLowerY));
    sym_assert(tl & tu & tr & td, "the trim box of a block is its box within the trim box of its segment");
    int best = 0, mine = 0, bestF = 0, mineF = 0; for (auto* x : b->lines) { int f = 0, g = 0; for (auto* y : b->lines) { f += x->fontSize == y->fontSize; g += x->fontName == y->fontName; } if (f > best) best = f; if (g > bestF) bestF = g; mine += x->fontSize == b->fontSize; mineF += x->fontName == b->fontName; }
    sym_assert(mine == best && mineF == bestF, "font and font size of a block are the most frequent ones of its lines");
  }
  sym_assert(at == L.size(), "the blocks contain every line");
}
// margins of the lines of a block, given the block before it
static bool marginsRight(const PdfTextBlock* b, const PdfTextBlock* prev) {
  double r = b->trimRightX; bool ok = true, wide = false;
  if (b->lines.size() == 2 && prev) { double lm = b->pos->leftX - b->segment->pos->leftX, rm = b->segment->pos->rightX - b->pos->rightX; wide = !within(lm, rm, b->doc->avgCharWidth + EPS / 2); if (wide) r = prev->trimRightX > r ? prev->trimRightX : r; }
  for (auto* l : b->lines) ok = ok & (l->leftMargin == l->pos->leftX - b->trimLeftX) & (l->rightMargin == r - l->pos->rightX);
  return ok;
}
extern "C" void h_create() {
  auto* cf = blocksConfig(); TextBlocksDetectionUtils u(cf); PdfDocument* d = mkDoc(); addFont(d, "G"); PdfPage* pg = mkPage(d, 1); int n = sym_param(0), m = sym_choice(2, "lines of the block before"); vector<PdfTextBlock*> blocks; vector<PdfTextLine*> all, L;
  PdfPageSegment* s = mkSegment(d, pg, {10, -100, 200, 300}); s->trimRightX = 180; s->trimLowerY = 250; const double FS[] = {8, 10};
  if (m) { vector<PdfTextLine*> P{textLine(d, s, {20, 0, sym_grid(60, 220, 1, "right side before"), 10}, {"before"}, 50)}; u.createTextBlock(P, &blocks); all = P; }
  for (int i = 0; i < n; i++) { Box b; b.l = sym_grid(-20, 60, 1, "l"); b.r = sym_grid(100, 220, 1, "r"); b.u = i == 1 ? sym_grid(-120, 320, 1, "u") : 20 * i; b.d = b.u + 8; auto* l = textLine(d, s, b, i ? vector<string>{"Two", "Words"} : vector<string>{"Word"}, i); l->fontSize = FS[i == 1]; if (i == 1 || (i == 2 && sym_choice(2, "font"))) l->fontName = "G"; L.push_back(l); all.push_back(l); }
  link(L); u.createTextBlock(L, &blocks); sym_assert(blocks.size() == (size_t)1 + m, "one block is created"); blockInvariants(d, pg, blocks, all, true);
  sym_assert(blocks.back()->id.size() == cf->idLength + 6 && blocks.back()->id.substr(0, 6) == "block-", "the id of a block has the configured length"); sym_assert(marginsRight(blocks.back(), m ? blocks[0] : nullptr), "the margins of a line are its distances to the sides of the trim box of its block");
  sym_assert(blocks.back()->isLinesCentered == u.computeIsTextLinesCentered(blocks.back()) && blocks.back()->isEmphasized == u.computeIsEmphasized(blocks.back()) && blocks.back()->hangingIndent == u.computeHangingIndent(blocks.back()), "a block is marked as centered, emphasized and in hanging indent format as it is"); sym_reach(n == 2 && m ? "two after one" : "done");
}
// --- preliminary blocks
extern "C" void h_blocks_pre() {
  auto* cf = blocksConfig(); PdfDocument* d = mkDoc(); PdfPage *p1 = mkPage(d, 1), *p2 = mkPage(d, 2); int n = sym_param(0), mode = sym_param(1), R = sym_param(2); PdfPageSegment *s = mkSegment(d, p1, {0, -1000, 1000, 1000}), *s0 = mkSegment(d, p1, {0, 0, 1, 1}), *s2 = mkSegment(d, p2, {0, 0, 100, 100}); (void)s0;
  int odd = mode == 1 ? 1 + sym_choice(6, "odd line") : 0, at = mode == 4 ? 1 + sym_choice(n - 1, "changed distance") : 0; double next = 0; bool per = mode == 2, low = per && sym_choice(2, "smaller than that of the document"); d->mostFreqLineDistance = 2; if (low) { d->mostFreqLineDistancePerFontSize[10] = 1; per = false; } if (per) { d->mostFreqLineDistancePerFontSize[10] = 15; d->mostFreqLineDistancePerFontSize[7] = 30; } d->mostFreqWordHeight = 6; vector<PdfTextLine*> L;
  for (int i = 0; i < n; i++) { Box b{10, mode == 1 ? 12. * i : mode == 4 && i != at && i != at + 1 ? next : mode == 4 ? next + sym_grid(-32 * 24, 32 * 24, 1. / 32, "distance") : sym_grid(-32 * R, 32 * R, 1. / 32, "upperY"), 110, 0}; next = b.u + 12; b.d = b.u + 10; auto* l = textLine(d, s, b, {num("Line", i)}, i); L.push_back(l); }
  double fa = 10, fb = 10; if (odd) { auto* l = L[1]; if (odd == 1) l->pos->rotation = 1; if (odd == 2) l->pos->wMode = 1; if (odd > 2) { l->fontSize = fa = odd != 4 ? sym_grid(0, 20 * 16, 1. / 16, "font size") : 10; l->maxFontSize = fb = odd != 3 ? sym_grid(0, 20 * 16, 1. / 16, "largest font size") : 10; } }
  Box F[2]; int nf = mode == 3 ? 1 + sym_choice(2, "figures") : odd >= 5 ? 1 : 0; for (int k = 0; k < nf; k++) { Box b = mode == 3 && !k ? Box{sym_grid(-100, 200, 1, "figure x"), sym_grid(-100, 100, 1, "figure y"), 0, 0} : mode == 3 ? Box{0, -20, 0, 0} : Box{0, sym_grid(-60, 60, 1, "figure y"), 0, 0}; b.r = b.l + 90; b.d = b.u + 24; F[k] = b; auto* f = new PdfFigure(); place(f, 1, b); p1->figures.push_back(f); }
  link(L); if (mode == 1 && sym_choice(2, "no previous line")) L[1]->prevLine = nullptr; vector<const PdfTextLine*> prev; for (auto* l : L) prev.push_back(l->prevLine);
  vector<PdfTextLine*> L2{textLine(d, s2, {1, 2, 20, 12}, {"Other"}, 9)}; TextBlocksDetection(d, cf).process();
  blockInvariants(d, p1, s->blocks, L, false); blockInvariants(d, p1, p1->blocks, L, true); blockInvariants(d, p2, p2->blocks, L2, true); sym_assert(p1->segments[1]->blocks.empty() && s2->blocks.size() == 1, "the blocks of a segment are made of its own lines only");
  vector<int> start(n); for (auto* b : s->blocks) for (int i = 0; i < n; i++) if (L[i] == b->lines[0]) start[i] = true;
  for (auto* b : p1->blocks) { bool in = false; for (auto* q : s->blocks) { size_t hit = 0; for (auto* l : b->lines) for (auto* m : q->lines) hit += l == m; in = in || hit == b->lines.size(); } sym_assert(in, "a block never spans two preliminary blocks"); }
  auto fig = [&](int i) { for (int k = 0; k < nf; k++) { double ox = (F[k].r < 110 ? F[k].r : 110) - (F[k].l > 10 ? F[k].l : 10), y = L[i]->pos->upperY, oy = (F[k].d < y + 10 ? F[k].d : y + 10) - (F[k].u > y ? F[k].u : y); if (ox >= 50 - 100 * EPS && oy >= 5 - 10 * EPS) return k + 1; } return 0; };
  auto rounded = [&](int i) { double a = L[i - 1]->pos->upperY, b = L[i]->pos->upperY, g = (a < b ? b - a : a - b) - 10, y = sym_grid(-200, 20 * R + 200, 1, "rounded"); sym_assume(((g <= 0) & (y == 0)) | ((g > 0) & (y - 0.5 <= 10 * g) & (10 * g < y + 0.5))); return y; };  // in tenths, 0 if not positive
  for (int i = 0; i < n; i++) {
    bool want; int f = 0, g = 0;
    if (!prev[i]) want = true; else if ((f = fig(i - 1)) && (g = fig(i)) == f) { want = false; sym_reach("same figure"); }
    else if (odd == 1 && (i == 1 || i == 2)) want = true; else if (odd == 2 && (i == 1 || i == 2)) want = true;
    else if (odd > 2 && (i == 1 || i == 2) && absd(fa - 10) > 1 + EPS / 2 && absd(fb - 10) > 1 + EPS / 2) { want = true; sym_reach("font size"); }
    else { double y = rounded(i), e = per ? 15 : 2, t = per ? 1.5 : 1; if (y <= 0) want = false; else if (y > 10 * (e + t)) { want = true; sym_reach("line distance"); }
      else if (i >= 2 && prev[i - 1]) { double a = L[i - 2]->pos->upperY, b = L[i - 1]->pos->upperY, h = (a < b ? b - a : a - b) - 10; if (h > 0) { double x = rounded(i - 1); sym_assume(y - x != 30); want = y - x > 30; } else { double x = sym_grid(-200, 0, 1, "rounded"); sym_assume((x + 0.5 >= 10 * h) & (10 * h > x - 0.5)); sym_assume(y - x != 30); want = y - x > 30; } if (want) sym_reach("increased"); } else want = false; }
    sym_assert(start[i] == want, "a preliminary block starts exactly where rotation, writing mode, font size or line distance changes (unless within a figure)");
  }
}
// --- final blocks: one preliminary block is split
struct FinSeg { PdfPage* page; PdfPageSegment* seg; vector<PdfTextLine*> L; };
static void checkFin(TextBlocksDetectionConfig* cf, PdfDocument* d, vector<FinSeg>& S) {
  TextBlocksDetectionUtils u(cf); const double W = 5; unordered_set<string> labels; struct Facts { vector<int> first, prevFirst, cont, prevCont, emph, alone; }; vector<Facts> F; d->avgCharWidth = W; for (auto& x : S) link(x.L);
  for (auto& x : S) {
    auto& L = x.L; int n = L.size(); vector<int> z(n); Facts f{z, z, z, z, z, z};
    for (int i = 0; i < n; i++) { f.alone[i] = u.computeIsFirstLineOfItem(L[i]); u.computePotentialFootnoteLabels(L[i], &labels); f.first[i] = u.computeIsFirstLineOfItem(L[i], &labels); f.cont[i] = u.computeIsContinuationOfItem(L[i], &labels); if (i) { f.prevFirst[i] = u.computeIsFirstLineOfItem(L[i - 1], &labels); f.prevCont[i] = u.computeIsContinuationOfItem(L[i - 1], &labels); } f.emph[i] = u.computeIsEmphasized(L[i]); } F.push_back(f);
  }
  TextBlocksDetection(d, cf).process(); for (auto* pg : d->pages) { vector<PdfTextLine*> all; for (auto& x : S) if (x.page == pg) all.insert(all.end(), x.L.begin(), x.L.end()); blockInvariants(d, pg, pg->blocks, all, true); }
  for (size_t k = 0; k < S.size(); k++) {
    auto& L = S[k].L; auto& f = F[k]; int n = L.size(); sym_assert(S[k].seg->blocks.size() == 1, "lines at the usual distance form one preliminary block"); PdfTextBlock* pre = S[k].seg->blocks[0];
    vector<int> start(n); for (auto* b : S[k].page->blocks) for (int i = 0; i < n; i++) if (L[i] == b->lines[0]) start[i] = true;
    double l0 = pre->trimLeftX, r0 = pre->trimRightX, hi = pre->hangingIndent; sym_assert(start[0], "the first line starts a block");
    for (int i = 1; i < n; i++) {
      double lm = L[i]->pos->leftX - l0, plm = L[i - 1]->pos->leftX - l0, prm = r0 - L[i - 1]->pos->rightX, off = L[i - 1]->pos->leftX - L[i]->pos->leftX; bool cap = prm > 20 + 2 * W + EPS, inTol = (off >= -W - EPS) & (off <= 6 * W + EPS), want; string pt = L[i - 1]->text; const char* why = "";
      if (pre->isLinesCentered) { want = f.alone[i]; why = "centered"; }
      else if (f.first[i]) { want = true; why = "item"; }
      else if (f.cont[i]) { if (cap) want = true; else if (f.prevFirst[i]) want = false; else if (f.prevCont[i]) want = !inTol; else want = false; why = "continuation"; }
      else if ((f.prevFirst[i] || f.prevCont[i]) && cap) { want = true; why = "after item"; }
      else if ((f.prevFirst[i] || f.prevCont[i]) && pt.back() != '.' && !(L[i]->text[0] >= 'A' && L[i]->text[0] <= 'Z')) { want = false; why = "unindented continuation"; }
      else if (f.emph[i - 1] && f.emph[i] && L[i - 1]->fontName == L[i]->fontName) { want = false; why = "emphasized"; }
      else if (hi > EPS) { why = "hanging"; if (lm < hi - W - EPS) want = true; else if (lm <= hi + W + EPS) { if (plm > hi + W + EPS) want = !inTol; else want = cap; } else if (plm > hi + W + EPS) want = !inTol; else want = true; }
      else { why = "indent"; bool more = lm > 6 * W + EPS, pmore = plm > 6 * W + EPS, aligned = within(off, 0, W + EPS); if (more || pmore) want = !aligned; else if (lm >= W - EPS) want = true; else want = cap; }
      sym_reach(why); sym_assert(start[i] == want, "a block is split exactly where an item, an indentation, or the space left in the line before says so");
    }
  }
}
static void checkFin(TextBlocksDetectionConfig* cf, PdfDocument* d, PdfPage* pg, PdfPageSegment* s, vector<PdfTextLine*>& L) { vector<FinSeg> S{{pg, s, L}}; checkFin(cf, d, S); }
extern "C" void h_blocks_fin() {
  auto* cf = blocksConfig(); PdfDocument* d = mkDoc(); addFont(d, "I", 400, true); PdfPage* pg = mkPage(d, 1); int n = sym_param(0), mode = sym_param(1); PdfPageSegment* s = mkSegment(d, pg, {0, 0, 400, 400}); vector<PdfTextLine*> L;
  for (int i = 0; i < n; i++) {
    Box b; bool red = sym_param(2); b.l = red && !i ? 20 : sym_grid(0, 80, 1, "l"); b.r = i == n - 1 || (red && mode == 1 && !i && n > 2) ? 300 : red ? 220 + 80 * (int)sym_choice(2, "right side") : sym_grid(200, 320, 1, "r"); b.u = 11 * i; b.d = b.u + 10; int k = red && mode == 1 && i != 1 ? (i ? 3 * (int)sym_choice(2, "text") : 1 + (int)sym_choice(2, "text")) : sym_choice(mode == 0 ? 2 : mode == 1 ? 4 : 3, "text"); vector<string> w; if (mode == 0) w = k ? vector<string>{"Upper", "case."} : vector<string>{"lower", "case"}; else if (mode == 1) w = k == 0 ? vector<string>{"lower"} : k == 1 ? vector<string>{"1.", "Item"} : k == 2 ? vector<string>{"1", "note"} : vector<string>{"end."}; else w = k == 0 ? vector<string>{"UPPER"} : k == 1 ? vector<string>{"lower", "case"} : vector<string>{"Italic"};
    auto* l = textLine(d, s, b, w, i); if (mode == 2 && k == 2) l->fontName = "I"; if (mode == 1 && k == 2) l->words[0]->characters[0]->isSuperscript = true; if (mode == 1 && i == 0 && k != 2) { auto* c = mkChar(d, 1, b, "1", 1); c->isSuperscript = true; l->words[0]->characters.push_back(c); } L.push_back(l);
  }
  if (mode == 1 && n > 1) { int r = sym_choice(3, "relation"); if (r == 1) L[1]->parentLine = L[0]; if (r == 2) { L[1]->prevSiblingLine = L[0]; L[0]->nextSiblingLine = L[1]; } if (n > 2 && sym_choice(2, "parent")) L[2]->parentLine = r == 1 ? L[1] : L[0]; }
  checkFin(cf, d, pg, s, L);
}
// a block in hanging indent format with two free lines that may be indented further, among three that set the indent
extern "C" void h_blocks_hang() {
  auto* cf = blocksConfig(); PdfDocument* d = mkDoc(); PdfPage* pg = mkPage(d, 1); PdfPageSegment* s = mkSegment(d, pg, {0, 0, 400, 400}); vector<PdfTextLine*> L; int at = 1 + sym_choice(4, "place of the free lines"), gap = sym_choice(2, "apart"), gap2 = at + 1 + gap;
  for (int i = 0; i < 6; i++) { bool fr = i == at || i == gap2; double l = fr ? sym_grid(0, 80, 1, "l") : i ? 20 : 0, r = fr ? 220 + 80 * (int)sym_choice(2, "right side") : 300; L.push_back(textLine(d, s, {l, 11. * i, r, 11. * i + 10}, {"Upper", "case."}, i)); }
  checkFin(cf, d, pg, s, L);
}
// two pages with three segments: text with a reference to a footnote, an enumeration, footnotes; one line is anywhere
extern "C" void h_blocks_long() {
  auto* cf = blocksConfig(); PdfDocument* d = mkDoc(); addFont(d, "I", 400, true); PdfPage *p1 = mkPage(d, 1), *p2 = mkPage(d, 2); vector<FinSeg> S{{p1, mkSegment(d, p1, {0, 0, 400, 400}), {}}, {p1, mkSegment(d, p1, {0, 400, 400, 700}), {}}, {p2, mkSegment(d, p2, {0, 0, 400, 400}), {}}};
  int seg = sym_choice(3, "segment"), at = sym_choice(6, "line"), ref = seg == 2 ? sym_choice(3, "footnote reference") : 1;
  static const char KIND[3][7] = {"tTttTt", "1ccc1l", "fccfct"};  // t, T: text; 1: item; f: footnote; c: line below the one before; l: lower case
  for (int k = 0; k < 3; k++) for (int i = 0; i < 6; i++) {
    char c = KIND[k][i]; bool sy = k == seg && i == at; double l = c == 'c' ? 10 : 0, r = 300; if (sy) { l = sym_grid(0, 80, 1, "l"); r = sym_grid(200, 320, 1, "r"); } vector<string> w = c == 't' ? vector<string>{"text", "more"} : c == 'T' ? vector<string>{"Text", "end."} : c == '1' ? vector<string>{i ? "2." : "1.", "Item"} : c == 'f' ? vector<string>{i ? "2" : "1", "note"} : c == 'c' ? vector<string>{"and", "on"} : vector<string>{"lower"};
    auto* t = textLine(d, S[k].seg, {l, 11. * i + 100 * k, r, 11. * i + 100 * k + 10}, w, 10 * k + i); t->words[0]->characters[0]->isSuperscript = c == 'f'; if (ref && k == (ref == 2) && i == 5) { auto* q = mkChar(d, 1, {r, 0, r + 4, 5}, "1", 1); q->isSuperscript = true; t->words[0]->characters.push_back(q); }
    auto& L = S[k].L; if (c == 'c') t->parentLine = L.back()->parentLine && i == 3 ? L.back() : L[i - 1]; L.push_back(t);
  }
  for (int k = 1; k < 3; k++) { auto *a = S[k].L[0], *b = S[k].L[k == 1 ? 4 : 3]; a->nextSiblingLine = b; b->prevSiblingLine = a; }
  checkFin(cf, d, S);
}
// --- helpers
extern "C" void h_centered() {
  auto* cf = blocksConfig(); TextBlocksDetectionUtils u(cf); PdfDocument* d = mkDoc(); int n = sym_param(0); vector<PdfTextLine*> L; const double WD[] = {100, 60, 101}; double W = 5; PdfTextBlock b; b.doc = d; vector<int> formula; cf->centeringMaxNumJustifiedLines = 1;
  for (int i = 0; i < n; i++) { double w = WD[sym_choice(3, "width")], x = sym_grid(-240, 240, 1. / 4, "x"); bool f = n > 2 && i < 2 && sym_choice(2, "formula"); formula.push_back(f); auto* l = textLine(d, nullptr, {x, 12. * i, x + w, 12. * i + 10}, {f ? i ? "a+b" : "a=b" : "text"}, i); L.push_back(l); b.lines.push_back(l); }
  bool all = true, large = false; int just = 0;
  for (int i = 1; i < n; i++) {
    auto *p = L[i - 1]->pos, *q = L[i]->pos; double e = p->rightX < q->rightX ? p->rightX : q->rightX, t = p->leftX > q->leftX ? p->leftX : q->leftX, wp = p->rightX - p->leftX, wq = q->rightX - q->leftX, wm = wp < wq ? wp : wq; double lo = absd(p->leftX - q->leftX), ro = absd(p->rightX - q->rightX);
    bool c = (e - t >= (0.99 - EPS) * wm) & within(lo, ro, 2 * W + EPS); sym_assert(u.computeIsCentered(L[i - 1], L[i]) == c, "two lines are centered exactly if one covers the other and their offsets on both sides are equal"); sym_assert(u.computeIsCentered(L[i], L[i - 1]) == c, "being centered is symmetric");
    all = all && c; if (!all) break; if (!(formula[i - 1] || formula[i]) && (lo > 2 * W + EPS || ro > 2 * W + EPS)) large = true; else just++;
  }
  bool want = all && large && just <= 1; sym_assert(u.computeIsTextLinesCentered(&b) == want, "the lines of a block are centered exactly if each is centered to the line before, some by a large offset and at most the allowed number is justified"); sym_reach(want ? "centered" : "not centered");
  PdfTextBlock none; none.doc = d; sym_assert(!u.computeIsTextLinesCentered(&none), "no lines are not centered");
}
extern "C" void h_emphasized() {
  auto* cf = blocksConfig(); TextBlocksDetectionUtils u(cf); PdfDocument* d = mkDoc(); int k = sym_choice(3, "font"), w0 = 400, w = w0 + (const int[]){-101, 0, 100, 101}[sym_choice(4, "weight")]; bool it = k == 1; d->fontInfos["F"]->weight = w0; if (k != 2) addFont(d, "G", w, it); double fs = sym_grid(0, 400, 1. / 16, "font size"); string t = sym_choice(2, "long") ? "ABC-EF GH." : ""; t += symString(sym_param(0), "text");
  if (sym_choice(2, "unknown document font")) d->mostFreqFontName = "H"; PdfWord e; e.doc = d; e.fontName = "G"; e.fontSize = fs; e.text = t; e.pos->pageNum = 1; bool upper = false, lower = false; for (unsigned char c : t) { upper = upper | (c >= 'A' && c <= 'Z'); lower = lower | (c >= 'a' && c <= 'z'); }
  bool big = fs > 10 + 1 + EPS / 2, atLeast = fs >= 10 - 1 - EPS / 2, known = d->mostFreqFontName == "F" && k != 2, want = known & (big | (atLeast & (it | (w - w0 > cf->fontWeightEqualTolerance))) | (upper & !lower));
  sym_assert(u.computeIsEmphasized(&e) == want, "a text is emphasized exactly if it is larger, heavier, italic or all upper case"); sym_reach(want ? "emphasized" : "plain");
}
extern "C" void h_capacity() {
  auto* cf = blocksConfig(); TextBlocksDetectionUtils u(cf); PdfDocument* d = mkDoc(); double fw = sym_grid(1, 200, 1. / 4, "width"), rm = sym_grid(-100, 1000, 1. / 4, "right margin"); auto *p = textLine(d, nullptr, {0, 0, 100, 10}, {"foo"}, 0), *l = textLine(d, nullptr, {0, 20, 100, 30}, {"bar", "baz"}, 1, fw); p->rightMargin = rm;
  sym_assert(u.computeHasPrevLineCapacity(p, l) == (rm - fw > 10 + EPS), "a line has capacity exactly if its right margin is larger than the first word of the next line by two character widths"); sym_assert(!u.computeHasPrevLineCapacity(nullptr, l), "no line has no capacity"); l->words.clear(); sym_assert(!u.computeHasPrevLineCapacity(p, l), "nothing fits for an empty line"); sym_reach("done");
}
extern "C" void h_hanging() {
  auto* cf = blocksConfig(); TextBlocksDetectionUtils u(cf); PdfDocument* d = mkDoc(); int n = sym_param(0); PdfTextBlock b; b.doc = d; vector<double> lm, rm; vector<int> kind; const double W = 5; cf->hangIndentNumNonIndentedLinesThreshold = 2; cf->hangIndentNumLongLinesThreshold = 3; vector<PdfTextLine*> L; bool prefixes = sym_param(1);
  for (int i = 0; i < n; i++) { int k = sym_choice(prefixes ? 4 : 2, "text"); const char* t[] = {"Upper", "lower", "van", "ab"}; auto* l = textLine(d, nullptr, {0, 12. * i, 100, 12. * i + 10}, {t[k]}, i); l->leftMargin = i < 3 && (i < 2 || n < 4) ? sym_grid(0, 24, 1, "left margin") : 12 * (int)sym_choice(2, "left margin"); l->rightMargin = i && (i > 1 || n > 3) ? 0 : sym_grid(0, 40, 1, "right margin"); b.lines.push_back(l); L.push_back(l); lm.push_back(l->leftMargin); rm.push_back(l->rightMargin); kind.push_back(k); }
  link(L); double hi = u.computeHangingIndent(&b); int nl = 0, best = 0; for (int i = 0; i < n; i++) { if (lm[i] >= W - EPS) { nl++; int c = 0; for (double x : lm) if (x == lm[i]) c++; if (c > best) best = c; } }
  if (2 * best <= nl) { sym_assert(hi == 0, "no hanging indent if no left margin is shared by more than half of the indented lines"); sym_reach("no margin"); return; }
  double M = 0; for (int i = 0; i < n; i++) { int c = 0; for (double x : lm) if (x == lm[i]) c++; if (lm[i] >= W - EPS && c == best) M = lm[i]; }   // the most frequent one: more than half, so unique
  int longs = 0, ind = 0, non = 0, lowInd = 0, lowNon = 0; bool firstInd = false, others = true, firstCap = false;
  for (int i = 0; i < n; i++) {
    if (kind[i] == 3) continue; longs++; if (within(lm[i], rm[i], W + EPS) & (lm[i] > W + EPS)) continue; bool a = lm[i] <= W + EPS, c = within(lm[i], M, W + EPS), low = kind[i] == 1 || kind[i] == 2; non += a; ind += c; lowInd += low & c; lowNon += (kind[i] == 1) & a; if (!i) firstInd = c; else others = others & c; if (i == 1) firstCap = rm[0] > 20 + 2 * W + EPS;
  }
  bool want = ind > 0 && lowNon == 0 && ((!firstInd && !firstCap && others) || non >= 2 || (longs >= 3 && lowInd >= 1)); sym_assert(hi == (want ? M : 0), "the hanging indent is the most frequent left margin of the indented lines if no line that is not indented starts in lower case and one of the layouts is met, otherwise 0"); sym_reach(want ? "hanging" : "not hanging");
}
// more lines, with two free ones; param: lines
extern "C" void h_hanging_long() {
  auto* cf = blocksConfig(); TextBlocksDetectionUtils u(cf); PdfDocument* d = mkDoc(); int n = sym_param(0); PdfTextBlock b; b.doc = d; vector<double> lm, rm; vector<int> kind; const double W = 5; cf->hangIndentNumNonIndentedLinesThreshold = 2; cf->hangIndentNumLongLinesThreshold = 3; vector<PdfTextLine*> L; int f1 = sym_choice(n, "free line"), f2 = sym_choice(n, "free line"), pat = sym_choice(4, "pattern"); static const char* pats[] = {"nUiuiuiUiu", "nuIUiUIUIU", "UnIiUnIiIi", "UIIIIIIIII"}; /* upper-case letter or u, i for text and margin below */
  for (int i = 0; i < n; i++) { bool freeT = i == f1, freeM = i == f2; char pc = pats[pat][i]; int k = freeT ? (int)sym_choice(4, "text") : (pc == 'n' ? 3 : pc == 'i' ? 1 : 0); double mg = pc == 'i' || pc == 'I' ? 12 : 0; const char* t[] = {"Upper", "lower", "van", "ab"}; auto* l = textLine(d, nullptr, {0, 12. * i, 100, 12. * i + 10}, {t[k]}, i); l->leftMargin = freeM ? sym_grid(0, 24, 1, "left margin") : mg; l->rightMargin = i ? 0 : 30 * (int)sym_choice(2, "right margin"); b.lines.push_back(l); L.push_back(l); lm.push_back(l->leftMargin); rm.push_back(l->rightMargin); kind.push_back(k); }
  link(L); double hi = u.computeHangingIndent(&b); int nl = 0, best = 0; for (int i = 0; i < n; i++) { if (lm[i] >= W - EPS) { nl++; int c = 0; for (double x : lm) if (x == lm[i]) c++; if (c > best) best = c; } }
  if (2 * best <= nl) { sym_assert(hi == 0, "no hanging indent if no left margin is shared by more than half of the indented lines"); sym_reach("no margin"); return; }
  double M = 0; for (int i = 0; i < n; i++) { int c = 0; for (double x : lm) if (x == lm[i]) c++; if (lm[i] >= W - EPS && c == best) M = lm[i]; }   // the most frequent one: more than half, so unique
  int longs = 0, ind = 0, non = 0, lowInd = 0, lowNon = 0; bool firstInd = false, others = true, firstCap = false;
  for (int i = 0; i < n; i++) {
    if (kind[i] == 3) continue; longs++; if (within(lm[i], rm[i], W + EPS) & (lm[i] > W + EPS)) continue; bool a = lm[i] <= W + EPS, c = within(lm[i], M, W + EPS), low = kind[i] == 1 || kind[i] == 2; non += a; ind += c; lowInd += low & c; lowNon += (kind[i] == 1) & a; if (!i) firstInd = c; else others = others & c; if (i == 1) firstCap = rm[0] > 20 + 2 * W + EPS;
  }
  bool want = ind > 0 && lowNon == 0 && ((!firstInd && !firstCap && others) || non >= 2 || (longs >= 3 && lowInd >= 1)); sym_assert(hi == (want ? M : 0), "the hanging indent is the most frequent left margin of the indented lines if no line that is not indented starts in lower case and one of the layouts is met, otherwise 0"); sym_reach(want ? "hanging" : "not hanging");
}
static bool isSpace(unsigned char c) { return (c == ' ') | ((c >= 9) & (c <= 13)); }
static bool isDigit(unsigned char c) { return (c >= '0') & (c <= '9'); }
static bool isLow(unsigned char c) { return (c >= 'a') & (c <= 'z'); }
static bool isUp(unsigned char c) { return (c >= 'A') & (c <= 'Z'); }
static unsigned char fold(unsigned char c) { return isUp(c) ? c + 32 : c; }
// whether t starts with an item label, followed by whitespace (written down independently of the regular expressions)
static bool itemLabel(const string& t) {
  size_t n = t.size(); auto at = [&](size_t i) { return i < n ? (unsigned char)t[i] : 0; }; auto fo = [&](size_t i) { unsigned char c = at(i); return (unsigned char)(c | (isUp(c) ? 32 : 0)); }; bool r = false;
  auto al = [&](size_t i) { return isLow(at(i)) | isUp(at(i)); };
  r |= ((at(0) == '-') | (at(0) == '+')) & isSpace(at(1)); r |= (at(0) == 0xe2) & (at(1) == 0x80) & ((at(2) == 0xa2) | (at(2) == 0x93)) & isSpace(at(3));
  static const char* ROM[] = {"", "i", "ii", "iii", "iv", "v", "vi", "vii", "viii", "ix", "x", "xi", "xii", "xiii", "xiv", "xv", "xvi", "xvii", "xviii", "xix"};
  for (const char* q : ROM) { bool m = true, m1 = at(0) == '('; size_t k = 0; for (; q[k]; k++) { m = m & (fo(k) == (unsigned char)q[k]); m1 = m1 & (fo(k + 1) == (unsigned char)q[k]); } r |= m & (at(k) == '.') & isSpace(at(k + 1)); r |= m1 & (at(k + 1) == ')') & isSpace(at(k + 2)); }
  r |= isLow(at(0)) & (at(1) == '.') & isSpace(at(2)); bool dig = true; for (size_t k = 0; k < n; k++) { if (k) r |= dig & (at(k) == '.') & isSpace(at(k + 1)); dig = dig & isDigit(at(k)); }
  auto close = [&](size_t i) { return (at(i) == ')') | (at(i) == ']'); }; bool open = (at(0) == '(') | (at(0) == '['); bool an = al(1) | isDigit(at(1));
  r |= open & an & ((close(2) & isSpace(at(3))) | (isDigit(at(2)) & ((close(3) & isSpace(at(4))) | (isDigit(at(3)) & close(4) & isSpace(at(5))))));
  bool in = (at(0) == '[') & isUp(at(1)); for (size_t k = 2; k <= 7 && k < n; k++) { r |= in & (at(k) == ']') & isSpace(at(k + 1)); in = in & (al(k) | isDigit(at(k))); }
  bool a0 = al(0) | isDigit(at(0)); r |= a0 & (at(1) == ')') & isSpace(at(2)); r |= a0 & isDigit(at(1)) & (at(2) == ')') & isSpace(at(3));
  r |= (fo(0) == 'p') & (fo(1) == 'a') & (fo(2) == 'c') & (fo(3) == 's') & isSpace(at(4)); return r;
}
extern "C" void h_item_label() {
  auto* cf = blocksConfig(); TextBlocksDetectionUtils u(cf); PdfDocument* d = mkDoc(); int mode = sym_param(1); string t; if (mode == 0) t = symString(sym_param(0), "text", false); else { static const char* P[] = {"(", "[", "[A", "[Abcd", "x", "xi", "xvi", "XvII", "(x", "(XIX", "pac", "12", "(a1", "[12", "\xe2\x80", "a", "B", "Vi", "(iX", "-", "3."}; t = P[sym_choice(21, "start")]; for (int i = 0; i < sym_param(0); i++) { unsigned char c = sym_char("text"); sym_assume(c != 0); t.push_back((char)c); } }
  auto* l = textLine(d, nullptr, {0, 0, 100, 10}, {"w"}, 0); l->text = t; bool want = itemLabel(t); sym_assert(u.computeIsPrefixedByItemLabel(l) == want, "a line starts with an item label exactly if it starts with a bullet, a number, a letter, a roman numeral or a reference key in one of the known forms, followed by whitespace"); if (want) sym_reach("label");
  l->words[0]->characters.clear(); sym_assert(!u.computeIsPrefixedByItemLabel(l), "a line whose first word is empty has no item label"); l->words.clear(); sym_assert(!u.computeIsPrefixedByItemLabel(l), "a line without words has no item label");
}
extern "C" void h_super_label() {
  auto* cf = blocksConfig(); TextBlocksDetectionUtils u(cf); PdfDocument* d = mkDoc(); auto* l = textLine(d, nullptr, {0, 0, 100, 10}, {"w"}, 0); l->text = "Text"; auto* c = l->words[0]->characters[0]; c->isSuperscript = sym_int(0, 1, "superscript"); int k = sym_choice(4, "text"); unsigned char x = 0;
  if (k == 0) c->text = ""; else if (k == 1) c->text = "\xe2\x88\x97"; else if (k == 2) c->text = "\xe2\x80\xa0"; else { x = sym_char("text"); sym_assume((x >= 1) & (x < 128)); c->text = string(1, (char)x); }
  bool in = k == 1 || (k == 3 && ((x == '*') | isLow(x) | isDigit(x) | (x == '(') | (x == ')'))); sym_assert(u.computeIsPrefixedByItemLabel(l) == (c->isSuperscript && in), "a superscript at the start of a line is an item label exactly if it is a character of the alphabet of such labels"); sym_reach(in ? "label" : k == 0 ? "empty" : "none");
}
// labels of footnotes: kinds of characters
static const char* const FN[] = {"a", "1", ",", "*", "\xe2\x80\xa0", "", "\xc3\xa9", "1", "a"}; static const int FS_[] = {0, 1, 1, 0, 1, 1, 1, 2, 1};
extern "C" void h_fn_labels() {
  auto* cf = blocksConfig(); TextBlocksDetectionUtils u(cf); PdfDocument* d = mkDoc(); int n = sym_param(0), split = sym_choice(n + 1, "second word from"); PdfTextLine* l = textLine(d, nullptr, {0, 0, 100, 10}, {"w", "v"}, 0); for (auto* w : l->words) w->characters.clear(); unordered_set<string> want, got; if (sym_choice(2, "labels seen before")) { got.insert("kept"); want.insert("kept"); } string cur; bool seen = false; vector<PdfCharacter*> C;
  for (int i = 0; i < n; i++) { int k = sym_choice(9, "character"); auto* c = mkChar(d, 1, {0, 0, 1, 1}, FN[k], i); int s = FS_[k]; c->isSuperscript = s == 1; c->isSubscript = s == 2; l->words[i >= split]->characters.push_back(c); }
  u.computePotentialFootnoteLabels(l, &got);
  for (auto* w : l->words) { seen = false; cur = ""; for (auto* c : w->characters) { bool sc = c->isSuperscript || c->isSubscript; if (!seen) { seen = !sc; continue; } if (c->text.empty()) continue; bool lab = c->text == "*" || c->text == FN[4] || (c->isSuperscript && (c->text == "a" || c->text == "1")); if (lab) cur += c->text; else { if (!cur.empty()) want.insert(cur); cur = ""; } } if (!cur.empty()) want.insert(cur); }
  sym_assert(got == want, "the potential footnote labels of a line are the maximal runs of superscript alphanumericals and special symbols behind the start of a word"); if (want.size() > 2) sym_reach("two"); sym_reach("done");
}
// any character of two or three bytes
extern "C" void h_fn_special() {
  auto* cf = blocksConfig(); TextBlocksDetectionUtils u(cf); PdfDocument* d = mkDoc(); PdfTextLine* l = textLine(d, nullptr, {0, 0, 100, 10}, {"w"}, 0); int n = 1 + sym_choice(3, "bytes"); unsigned char x[3] = {0, 0, 0}; string t; for (int i = 0; i < n; i++) { x[i] = sym_char("byte"); t.push_back((char)x[i]); }
  if (n == 1) sym_assume((x[0] >= 1) & (x[0] < 128)); if (n == 2) sym_assume((x[0] >= 0xc2) & (x[0] < 0xe0) & (x[1] >= 0x80) & (x[1] < 0xc0)); if (n == 3) sym_assume((x[0] >= 0xe0) & (x[0] < 0xf0) & (x[1] >= 0x80) & (x[1] < 0xc0) & (x[2] >= 0x80) & (x[2] < 0xc0));
  l->words[0]->characters.push_back(mkChar(d, 1, {0, 0, 1, 1}, t, 1)); unordered_set<string> got; u.computePotentialFootnoteLabels(l, &got);
  bool special = n == 1 ? (x[0] == '*') | (x[0] == '?') : n == 2 ? (x[0] == 0xc2) & ((x[1] == 0xa7) | (x[1] == 0xb6)) : (x[0] == 0xe2) & (((x[1] == 0x88) & (x[2] == 0x97)) | ((x[1] == 0x80) & ((x[2] == 0xa0) | (x[2] == 0xa1) | (x[2] == 0x96))));
  bool lead = (x[0] == 0xe2) | (x[0] == 0xc2); if (n > 1 && !special && lead) { sym_reach("shared byte"); sym_assert(got.empty(), "a character that only shares its first byte with a special footnote label is no footnote label"); } else { sym_assert(got.size() == (size_t)special, "a character behind a word is a potential footnote label exactly if it is a special footnote label"); sym_reach(special ? "special" : "other"); }
}
extern "C" void h_fn_prefix() {
  auto* cf = blocksConfig(); TextBlocksDetectionUtils u(cf); PdfDocument* d = mkDoc(); auto* l = textLine(d, nullptr, {0, 0, 100, 10}, {"w", "v"}, 0); l->words[0]->characters.clear(); int n = sym_choice(4, "characters"); string pre; bool open = true;
  for (int i = 0; i < n; i++) { auto* c = mkChar(d, 1, {0, 0, 1, 1}, i == 1 ? "*" : "1", i); c->isSuperscript = sym_int(0, 1, "superscript"); l->words[0]->characters.push_back(c); if (open && c->isSuperscript) pre += c->text; else open = false; }
  l->words[1]->characters[0]->isSuperscript = true; unordered_set<string> s{"1", "1*"}; sym_assert(u.computeIsPrefixedByFootnoteLabel(l) == !pre.empty(), "without known labels, a line starts with a footnote label exactly if it starts with a superscript"); sym_assert(u.computeIsPrefixedByFootnoteLabel(l, &s) == (pre == "1" || pre == "1*"), "a line starts with a footnote label exactly if its superscripted prefix is one of the known labels"); l->words.clear(); sym_assert(!u.computeIsPrefixedByFootnoteLabel(l), "a line without words has no label"); sym_reach(pre.empty() ? "none" : "some");
}
extern "C" void h_first_item() {
  auto* cf = blocksConfig(); TextBlocksDetectionUtils u(cf); PdfDocument* d = mkDoc(); int lab = sym_choice(3, "label"); auto mk = [&](int i, int k, double x, double y) { auto* l = textLine(d, nullptr, {x, y, x + 100, y + 10}, k == 1 ? vector<string>{"1.", "x"} : vector<string>{"Text", "x"}, i); if (k == 2) l->words[0]->characters[0]->isSuperscript = true, l->words[0]->characters[0]->text = "T"; return l; };  // "T": a superscript, but no item label
  auto* l = mk(1, lab, sym_grid(-40, 40, 1. / 4, "x"), sym_grid(-80, 120, 1. / 4, "y")); int pk = sym_choice(3, "previous line"); PdfTextLine* p = nullptr; if (pk) { p = mk(0, pk - 1, 0, 0); if (sym_choice(2, "sentence ends")) p->text += "."; if (sym_choice(2, "other font")) p->fontName = "G"; p->fontSize = sym_grid(8 * 16, 12 * 16, 1. / 16, "font size"); l->prevLine = p; p->nextLine = l; }
  PdfTextLine* sib[2] = {}; bool sl[2] = {}; for (int k = 0; k < 2; k++) { int c = sym_choice(4, "sibling"); if (c) { sib[k] = mk(2 + k, c == 1 ? 0 : 1, 0, 50); if (c == 3) sib[k]->words[0]->fontName = "G"; else sib[k]->words[0]->fontSize = sym_grid(8 * 16, 12 * 16, 1. / 16, "font size"); sl[k] = c == 2; } } l->prevSiblingLine = sib[0]; l->nextSiblingLine = sib[1];
  int pot = sym_choice(3, "labels"); unordered_set<string> none{"9"}, some{"T"}; bool got = u.computeIsFirstLineOfItem(l, pot == 0 ? nullptr : pot == 1 ? &none : &some), fn = lab == 2 && pot != 1, want = lab == 1 || fn;
  if (want && p) { double y = l->pos->upperY, gap = y > EPS ? y - 10 : -y - 10; bool cont = pk != 2 && p->fontName == "F" && (absd(p->fontSize - 10) <= 1 + EPS / 2) && gap <= EPS && p->text.back() != '.' && within(l->pos->leftX, 0, 5 + EPS); if (cont) { want = false; sym_reach("continues text"); } }
  if (want && !fn) { bool any = false; for (int k = 0; k < 2; k++) if (sl[k]) any = any | (absd(sib[k]->words[0]->fontSize - 10) <= 1 + EPS / 2); want = any; }
  sym_assert(got == want, "a line is the first line of an item exactly if it starts with a label and a sibling with the same font does too, or if it starts with a footnote label"); if (want) sym_reach(fn ? "footnote" : "item");
  PdfTextLine* c = mk(7, 0, 30, 60); unordered_set<string>* ps = pot == 0 ? nullptr : pot == 1 ? &none : &some; sym_assert(!u.computeIsContinuationOfItem(c, ps), "a line without parent continues no item"); c->parentLine = l; bool deep = u.computeIsContinuationOfItem(l, ps); sym_assert(!deep && u.computeIsContinuationOfItem(c, ps) == want, "a line continues an item exactly if its parent is the first line of one"); PdfTextLine* e = mk(8, 0, 50, 70); e->parentLine = c; sym_assert(u.computeIsContinuationOfItem(e, ps) == want, "a line continues an item if its parent does"); PdfTextLine* f = mk(9, 0, 60, 80); f->parentLine = e; sym_assert(u.computeIsContinuationOfItem(f, ps) == want, "a line continues an item if its parent does");
}
extern "C" void h_figure_of() {
  auto* cf = blocksConfig(); TextBlocksDetectionUtils u(cf); PdfDocument* d = mkDoc(); auto* l = textLine(d, nullptr, {0, 0, 100, 10}, {"w"}, 0); vector<PdfFigure*> F; int n = sym_choice(3, "figures"); PdfFigure* want = nullptr;
  for (int i = 0; i < n; i++) { Box b; b.l = sym_grid(-320, 480, 1. / 4, "l"); b.u = sym_grid(-60, 60, 1. / 4, "u"); b.r = b.l + 70; b.d = b.u + 8; auto* f = new PdfFigure(); place(f, 1, b); F.push_back(f); double ox = (b.r < 100 ? b.r : 100) - (b.l > 0 ? b.l : 0), oy = (b.d < 10 ? b.d : 10) - (b.u > 0 ? b.u : 0); if (!want && ox >= 50 - 100 * EPS && oy >= 5 - 10 * EPS) want = f; }
  sym_assert(u.computeOverlapsFigure(l, F) == want, "a line belongs to the first figure that covers at least half of its width and height"); sym_reach(want ? "figure" : "none");
}
