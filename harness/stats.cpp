// Sub- and superscripts, statistics over characters, words and lines.
#include "doc.h"
#include "SubSuperScriptsDetection.h"
#include "GlyphsStatisticsCalculation.h"
#include "WordsStatisticsCalculation.h"
#include "TextLinesStatisticsCalculation.h"
using namespace ppp::modules; using namespace ppp::config; using std::string; using std::vector;
template <class C> static C quiet() { C c; c.logLevel = ppp::utils::log::LogLevel::ERROR; return c; }
static bool isMin(double m, const vector<double>& v) { bool all = true, one = false; for (double x : v) { all = all & (m <= x); one = one | (m == x); } return all & one; }
static bool isMax(double m, const vector<double>& v) { bool all = true, one = false; for (double x : v) { all = all & (m >= x); one = one | (m == x); } return all & one; }
// m is one of the values that occur most often
static bool mostFrequent(double m, const vector<double>& v) { int mine = 0; for (double x : v) mine += x == m; bool ok = mine > 0; for (double x : v) { int k = 0; for (double y : v) k += y == x; ok = ok & (k <= mine); } return ok; }
static PdfPageSegment* mkSegment(PdfDocument* d, PdfPage* pg) { auto* s = new PdfPageSegment(); s->pos->pageNum = pg->pageNum; s->doc = d; pg->segments.push_back(s); return s; }

extern "C" void h_scripts() {
  auto cf = quiet<SubSuperScriptsDetectionConfig>(); PdfDocument* d = mkDoc(); PdfPage *p1 = mkPage(d, 1), *p2 = mkPage(d, 2); int n = sym_param(0); d->mostFreqFontSize = sym_grid(8, 60, 1. / 4, "font size of the document"); vector<PdfCharacter*> C; vector<PdfTextLine*> L; vector<int> of; PdfPageSegment *s1 = mkSegment(d, p1), *s2 = mkSegment(d, p2);
  for (int l = 0; l < 2; l++) { auto* t = new PdfTextLine(); t->base = sym_grid(-40, 40, 1. / 16, "base of the line"); (l ? s2 : s1)->lines.push_back(t); L.push_back(t); t->words.push_back(mkWord(d, 1 + l, {0, 0, 9, 9}, "w", 2 * l)); t->words.push_back(mkWord(d, 1 + l, {0, 0, 9, 9}, "w", 2 * l + 1)); }
  for (int i = 0; i < n; i++) { int l = i == 2; Box b = symBoxAt(-40, 40, 1. / 2, 4 + i, 6 + i, "char"); auto* c = mkChar(d, 1 + l, b, "c", i, 0, sym_grid(0, 64, 1. / 4, "font size")); c->base = sym_grid(-40, 40, 1. / 16, "base"); L[l]->words[i & 1]->characters.push_back(c); C.push_back(c); of.push_back(l); }
  SubSuperScriptsDetection(d, &cf).process(); vector<double> bl[2], bu[2], br[2], bd[2];
  for (int i = 0; i < n; i++) {
    auto* c = C[i]; double lb = L[of[i]]->base; bool small = c->fontSize < d->mostFreqFontSize - 0.9, sup = small & (c->base < lb - 0.1), sub = small & (c->base > lb + 0.1);
    sym_assert(c->isSuperscript == sup, "a character is a superscript exactly if its font is smaller than that of the document and its baseline above that of its line"); sym_assert(c->isSubscript == sub, "a character is a subscript exactly if its font is smaller than that of the document and its baseline below that of its line");
    if (sup) sym_reach("super"); else if (sub) sym_reach("sub"); else { int l = of[i]; bl[l].push_back(c->pos->leftX); bu[l].push_back(c->pos->upperY); br[l].push_back(c->pos->rightX); bd[l].push_back(c->pos->lowerY); }
  }
  for (int l = 0; l < 2; l++) if (!bl[l].empty()) sym_assert(isMin(L[l]->baseBBoxLeftX, bl[l]) & isMin(L[l]->baseBBoxUpperY, bu[l]) & isMax(L[l]->baseBBoxRightX, br[l]) & isMax(L[l]->baseBBoxLowerY, bd[l]), "the base box of a line surrounds exactly its characters that are neither sub- nor superscript"); else sym_assert((L[l]->baseBBoxLeftX == std::numeric_limits<double>::max()) & (L[l]->baseBBoxLowerY == std::numeric_limits<double>::lowest()), "a line without base characters has no base box");
}
extern "C" void h_glyph_stats() {
  auto cf = quiet<GlyphsStatisticsCalculationConfig>(); PdfDocument* d = mkDoc(); PdfPage *p1 = mkPage(d, 1), *p2 = mkPage(d, 2); int n = sym_param(0); vector<double> fs, w, h; vector<string> fn; d->avgCharWidth = d->avgCharHeight = -7; d->mostFreqFontSize = -7;
  for (int i = 0; i < n; i++) { Box b; b.l = sym_grid(-64, 64, 1. / 4, "l"); b.r = sym_grid(-64, 64, 1. / 4, "r"); b.u = sym_grid(-64, 64, 1. / 4, "u"); b.d = sym_grid(-64, 64, 1. / 4, "d"); double f = sym_grid(0, 64, 1. / 4, "font size"); const char* N[] = {"F", "G", "H"}; int k = sym_choice(3, "font"); fs.push_back(f); fn.push_back(N[k]); w.push_back(b.r - b.l); h.push_back(b.d - b.u); (i == 1 || i == 2 ? p2 : p1)->characters.push_back(mkChar(d, i == 1 || i == 2 ? 2 : 1, b, "c", i, 0, f, N[k])); }
  GlyphsStatisticsCalculation(d, &cf).process(); if (!n) { sym_assert((d->avgCharWidth == -7) & (d->avgCharHeight == -7) & (d->mostFreqFontSize == -7), "a document without characters has no statistics"); sym_reach("empty"); return; }
  sym_assert(mostFrequent(d->mostFreqFontSize, fs), "the font size of a document is the most frequent one of its characters"); int mine = 0; for (auto& s : fn) mine += s == d->mostFreqFontName; for (auto& s : fn) { int k = 0; for (auto& t : fn) k += t == s; sym_assert(k <= mine, "the font of a document is the most frequent one of its characters"); }
  double sw = 0, sh = 0; for (int i = 0; i < n; i++) { sw += w[i]; sh += h[i]; } double ew = d->avgCharWidth * n - sw, eh = d->avgCharHeight * n - sh; sym_assert((ew < 1e-6) & (ew > -1e-6) & (eh < 1e-6) & (eh > -1e-6), "the average size of a character is the mean over all characters of all pages"); sym_reach("done");
}
extern "C" void h_word_stats() {
  auto cf = quiet<WordsStatisticsCalculationConfig>(); PdfDocument* d = mkDoc(); PdfPage *p1 = mkPage(d, 1), *p2 = mkPage(d, 2); int n = sym_param(0), odd = sym_choice(3, "odd word"); d->mostFreqWordHeight = d->mostFreqWordDistance = d->mostFreqEstimatedLineDistance = -7777; vector<PdfWord*> W; double mf = d->mostFreqFontSize = 10; vector<double> fs;
  for (int i = 0; i < n; i++) { Box b; b.l = sym_grid(-80, 80, 1. / 2, "l"); b.r = b.l + 5 + i; b.u = sym_grid(-80, 80, 1. / 2, "u"); b.d = b.u + 8 + 4 * (i & 1); double f = sym_grid(8 * 8, 12 * 8, 1. / 8, "font size"); auto* w = mkWord(d, 1, b, "w", i, 0, f); if (i == 1 && odd == 1) w->pos->rotation = 1; if (i == 1 && odd == 2) w->pos->wMode = 1; W.push_back(w); fs.push_back(f); p1->words.push_back(w); }
  PdfWord* alone = mkWord(d, 2, {W[0]->pos->leftX, 50, W[0]->pos->leftX + 5, 63}, "x", n, 0, 4); p2->words.push_back(alone);  // first on its page and too small: counts nowhere
  WordsStatisticsCalculation(d, &cf).process(); double tol = 0; { static WordsStatisticsCalculationConfig c0; tol = c0.fsEqualTolerance; } vector<double> H, G, V;
  for (int i = 0; i < n; i++) {
    if (fs[i] < mf - tol) continue; auto* p = W[i]->pos; H.push_back(p->lowerY - p->upperY); if (!i) continue; auto* q = W[i - 1]->pos; if (p->rotation != q->rotation || p->wMode != q->wMode || !((fs[i - 1] >= mf - tol) & (fs[i - 1] <= mf + tol))) continue;
    double t = p->upperY > q->upperY ? p->upperY : q->upperY, e = p->lowerY < q->lowerY ? p->lowerY : q->lowerY, h = 8; sym_assume(p->leftX != q->leftX); double ov = e - t;
    if (2 * ov >= h) { G.push_back(p->leftX < q->leftX ? q->leftX - p->rightX : p->leftX - q->rightX); sym_reach("same line"); } if (ov <= 0) { V.push_back(p->upperY < q->upperY ? q->upperY - p->lowerY : p->upperY - q->lowerY); sym_reach("different line"); }
  }
  if (H.empty()) sym_assert(d->mostFreqWordHeight == -7777, "no word height without words of the document's font size"); else sym_assert(mostFrequent(d->mostFreqWordHeight, H), "the word height of a document is the most frequent height of its words that are not small");
  if (G.empty()) sym_assert(d->mostFreqWordDistance == -7777, "no word distance without words of one line"); else sym_assert(mostFrequent(d->mostFreqWordDistance, G), "the word distance of a document is the most frequent gap between consecutive words of one line");
  if (V.empty()) sym_assert(d->mostFreqEstimatedLineDistance == -7777, "no estimated line distance without consecutive lines"); else sym_assert(mostFrequent(d->mostFreqEstimatedLineDistance, V), "the estimated line distance of a document is the most frequent vertical gap between consecutive words of different lines"); sym_reach("done");
}
extern "C" void h_line_stats() {
  auto cf = quiet<TextLinesStatisticsCalculationConfig>(); PdfDocument* d = mkDoc(); PdfPage *p1 = mkPage(d, 1), *p2 = mkPage(d, 2); int n = sym_param(0), odd = sym_choice(3, "odd line"); d->mostFreqLineDistance = -7777; auto *s1 = mkSegment(d, p1), *s2 = mkSegment(d, p2); vector<PdfTextLine*> L;
  const double FS[] = {8, 10}; vector<int> F; for (int i = 0; i < n; i++) { int f = i ? sym_choice(2, "font size") : 0; F.push_back(f); Box b = symBoxAt(-80, 80, 1. / 32, 50, 9, "line"); auto* l = mkLine(d, 1, {-500, -500, 500, 500}, "t", i, FS[f]); l->baseBBoxUpperY = b.u; l->baseBBoxLowerY = b.d; if (i == 1 && odd == 1) l->pos->rotation = 3; if (i == 1 && odd == 2) l->pos->wMode = 1; L.push_back(l); s1->lines.push_back(l); } s2->lines.push_back(mkLine(d, 2, {0, 0, 7, 7}, "z", n));
  TextLinesStatisticsCalculation(d, &cf).process(); vector<double> D, D0, D1; double unit = 1; for (int k = 0; k < cf.lineDistancePrecision; k++) unit *= 10;
  for (int i = 1; i < n; i++) { if (odd && (i == 1 || i == 2)) continue; double x = (L[i]->baseBBoxUpperY - L[i - 1]->baseBBoxLowerY) * unit, y = sym_grid(0, 1200, 1, "rounded"); sym_assume(((x <= 0) & (y == 0)) | ((x > 0) & (y - 0.5 <= x) & (x < y + 0.5))); D.push_back(y); if (F[i] == F[i - 1]) (F[i] ? D1 : D0).push_back(y); }
  auto scaled = [&](double m, const vector<double>& v) { double y = sym_grid(-1000000, 1000000, 1, "result"), e = m * unit - y; sym_assume((e <= 0.5) & (e >= -0.5)); return (e < 0.01) & (e > -0.01) & mostFrequent(y, v); };
  if (D.empty()) { sym_assert(d->mostFreqLineDistance == -7777, "no line distance without consecutive lines"); sym_reach("none"); } else { sym_assert(scaled(d->mostFreqLineDistance, D), "the line distance of a document is the most frequent distance between consecutive lines of a segment, without sub- and superscripts"); sym_reach("some"); }
  auto& M = d->mostFreqLineDistancePerFontSize; sym_assert(M.count(8) == !D0.empty() && M.count(10) == !D1.empty() && M.size() == (size_t)!D0.empty() + !D1.empty(), "there is a line distance per font size exactly for the font sizes of consecutive lines"); if (!D0.empty()) sym_assert(scaled(M[8], D0), "the line distance of a font size is the most frequent one of consecutive lines with this font size"); if (!D1.empty()) { sym_assert(scaled(M[10], D1), "the line distance of a font size is the most frequent one of consecutive lines with this font size"); sym_reach("per size"); }
}
// --- longer documents, of which a few elements are symbolic
extern "C" void h_scripts_long() {
  auto cf = quiet<SubSuperScriptsDetectionConfig>(); PdfDocument* d = mkDoc(); PdfPage *p1 = mkPage(d, 1), *p2 = mkPage(d, 2); int n = sym_param(0), at = sym_choice(2 * n, "first"), at2 = sym_choice(2 * n, "second"), page = sym_choice(3, "line"); if (at2 < at) return; PdfPageSegment *s1 = mkSegment(d, p1), *s2 = mkSegment(d, p2), *s3 = mkSegment(d, p2); vector<PdfTextLine*> L; (void)s2;
  for (int l = 0; l < 3; l++) { auto* t = new PdfTextLine(); t->base = 90; (l < 1 ? s1 : s3)->lines.push_back(t); t->segment = l < 1 ? s1 : s3; L.push_back(t); for (int i = 0; i < n; i++) { auto* w = mkWord(d, 1 + (l > 0), {0, 0, 9, 9}, "w", i); w->line = t; t->words.push_back(w); } }
  for (int l = 0; l < 3; l++) for (int i = 0; i < 2 * n; i++) { Box b{5. * i, 80, 5. * i + 4, 92}; double f = 10, base = 90; if (l == page && (i == at || i == at2)) { b = symBoxAt(-400, 400, 1. / 2, 4, 9, "char"); f = sym_grid(8, 60, 1. / 4, "font size"); base = sym_grid(80 * 16, 100 * 16, 1. / 16, "base"); } auto* c = mkChar(d, 1 + (l > 0), b, "c", i, 0, f); c->base = base; c->word = L[l]->words[i / 2]; L[l]->words[i / 2]->characters.push_back(c); }
  SubSuperScriptsDetection(d, &cf).process();
  for (auto* t : L) { vector<double> bl, bu, br, bd; for (auto* w : t->words) for (auto* c : w->characters) { bool small = c->fontSize < 10 - 0.9, sup = small & (c->base < 90 - 0.1), sub = small & (c->base > 90 + 0.1); sym_assert((c->isSuperscript == sup) & (c->isSubscript == sub), "a character is a sub- or superscript exactly if its font is smaller than that of the document and its baseline below or above that of its line"); if (sup) sym_reach("super"); else if (sub) sym_reach("sub"); else { bl.push_back(c->pos->leftX); bu.push_back(c->pos->upperY); br.push_back(c->pos->rightX); bd.push_back(c->pos->lowerY); } }
    sym_assert(isMin(t->baseBBoxLeftX, bl) & isMin(t->baseBBoxUpperY, bu) & isMax(t->baseBBoxRightX, br) & isMax(t->baseBBoxLowerY, bd), "the base box of a line surrounds exactly its characters that are neither sub- nor superscript"); }
}
extern "C" void h_glyph_long() {
  auto cf = quiet<GlyphsStatisticsCalculationConfig>(); PdfDocument* d = mkDoc(); int n = sym_param(0); vector<double> fs, w, h; vector<string> fn; const char* N[] = {"F", "G", "H"}; int at = sym_choice(n, "symbolic character"), more = sym_choice(4, "common font") , pg = sym_choice(3, "page of the symbolic character");
  for (int p = 0; p < 3; p++) { auto* page = mkPage(d, p + 1); for (int i = 0; i < n; i++) { int sh = (i + 2 * p) % 3; double f = 7 + sh; int k = i % 4 < more ? p : 2; Box b{1. * i, 2. * p, 1. * i + 3 + p, 2. * p + 6 + sh}; if (i == at && p == pg) { f = sym_grid(0, 64, 1. / 4, "font size"); k = sym_choice(3, "font"); b = symBox(-64, 64, 1. / 4, -64, "char"); } fs.push_back(f); fn.push_back(N[k]); w.push_back(b.r - b.l); h.push_back(b.d - b.u); page->characters.push_back(mkChar(d, p + 1, b, "c", i, 0, f, N[k])); } }
  GlyphsStatisticsCalculation(d, &cf).process(); sym_assert(mostFrequent(d->mostFreqFontSize, fs), "the font size of a document is the most frequent one of its characters"); int mine = 0; for (auto& s : fn) mine += s == d->mostFreqFontName; for (auto& s : fn) { int k = 0; for (auto& t : fn) k += t == s; sym_assert(k <= mine, "the font of a document is the most frequent one of its characters"); }
  double sw = 0, sh = 0; for (size_t i = 0; i < w.size(); i++) { sw += w[i]; sh += h[i]; } double ew = d->avgCharWidth * w.size() - sw, eh = d->avgCharHeight * w.size() - sh; sym_assert((ew < 1e-6) & (ew > -1e-6) & (eh < 1e-6) & (eh > -1e-6), "the average size of a character is the mean over all characters of all pages"); sym_reach("done");
}
extern "C" void h_word_long() {
  auto cf = quiet<WordsStatisticsCalculationConfig>(); PdfDocument* d = mkDoc(); int n = sym_param(0), pg = sym_choice(3, "page"), at = sym_choice(n, "word"); d->mostFreqWordHeight = d->mostFreqWordDistance = d->mostFreqEstimatedLineDistance = -7777; double mf = d->mostFreqFontSize = 10; vector<double> H, G, V; int len = sym_choice(3, "length of the pages"), cnt[3] = {len == 0 ? n : 1, len == 2 ? 1 : pg == 1 ? n : 0, len == 0 ? n : 1}; if (at >= cnt[pg]) return; double tol = cf.fsEqualTolerance; vector<PdfPage*> P; for (int p = 0; p < 3; p++) P.push_back(mkPage(d, p + 1));
  for (int p = 0; p < 3; p++) { Box q{0, 0, 0, 0}; double qf = 0, x = 0;
    for (int i = 0; i < cnt[p]; i++) {
      // two words per line; every page has its own distances
      bool sy = p == pg && i == at; if (i % 2 == 0) x = 0; double gap = 2 + p + (i > 4), f = 10; if (sy) { gap = sym_grid(1, 40, 1. / 2, "gap"); f = sym_grid(8 * 8, 12 * 8, 1. / 8, "font size"); }
      double u = 3 * p + (12 + 2 * p) * (i / 2), hh = 8 + p; if (sy) { hh = sym_grid(16, 24, 1. / 2, "height"); } Box b{x + gap, u, x + gap + 20, u + hh}; x = b.r; P[p]->words.push_back(mkWord(d, p + 1, b, "w", i, 0, f));
      bool ok = !(f < mf - tol); if (ok) H.push_back(b.d - b.u); if (ok && i && (qf >= mf - tol) & (qf <= mf + tol)) { if (i % 2) G.push_back(b.l - q.r); else V.push_back(b.u - q.d); } q = b; qf = f;
    }
  }
  WordsStatisticsCalculation(d, &cf).process();
  auto freq = [](double m, const vector<double>& v) { return v.empty() ? m == -7777 : mostFrequent(m, v); };
  sym_assert(freq(d->mostFreqWordHeight, H), "the word height of a document is the most frequent height of its words that are not small"); sym_assert(freq(d->mostFreqWordDistance, G), "the word distance of a document is the most frequent gap between consecutive words of one line"); sym_assert(freq(d->mostFreqEstimatedLineDistance, V), "the estimated line distance of a document is the most frequent vertical gap between consecutive words of different lines"); sym_reach("done");
}
extern "C" void h_line_long() {
  auto cf = quiet<TextLinesStatisticsCalculationConfig>(); PdfDocument* d = mkDoc(); PdfPage *p1 = mkPage(d, 1), *p2 = mkPage(d, 2), *p3 = mkPage(d, 3); d->mostFreqLineDistance = -7777; PdfPageSegment* S[] = {mkSegment(d, p1), mkSegment(d, p1), mkSegment(d, p2), mkSegment(d, p3), mkSegment(d, p3)}; int len[] = {4, 2, 1, 2, sym_choice(2, "long last segment") ? sym_param(0) : 2}, seg = sym_choice(3, "segment"); seg = seg == 2 ? 4 : seg; int at = sym_choice(len[seg], "line"), big = sym_choice(2, "larger font on last page");
  vector<double> D, D0, D1; double u = 1; for (int k = 0; k < cf.lineDistancePrecision; k++) u *= 10;
  for (int s = 0; s < 5; s++) { double y = 0, prevF = 0; for (int i = 0; i < len[s]; i++) {
    bool sy = s == seg && i == at; int cent = s < 2 ? 25 : s == 3 ? 13 : i == 2 ? 25 : 45; double dist = cent / 8., f = (s == 4 && big) || (s == 1 && i == 1) ? 10 : 8; if (sy) dist = sym_grid(-80, 320, 1. / 32, "distance"); double top = y + dist; auto* l = mkLine(d, S[s]->pos->pageNum, {-500, -500, 500, 500}, "t", i, f); l->baseBBoxUpperY = top; l->baseBBoxLowerY = top + 9; l->segment = S[s]; y = top + 9; S[s]->lines.push_back(l); if (i) { l->prevLine = S[s]->lines[i - 1]; S[s]->lines[i - 1]->nextLine = l; }
    if (i) { double x = dist * u, r; if (sy) { r = sym_grid(0, 12000, 1, "rounded"); sym_assume(((x <= 0) & (r == 0)) | ((x > 0) & (r - 0.5 <= x) & (x < r + 0.5))); } else r = (int)(x + 0.5); D.push_back(r); if (f == prevF) (f == 10 ? D1 : D0).push_back(r); } prevF = f; } }
  TextLinesStatisticsCalculation(d, &cf).process(); auto scaled = [&](double m, const vector<double>& v) { double y = sym_grid(-1000000, 1000000, 1, "result"), e = m * u - y; sym_assume((e <= 0.5) & (e >= -0.5)); return (e < 0.01) & (e > -0.01) & mostFrequent(y, v); };
  sym_assert(scaled(d->mostFreqLineDistance, D), "the line distance of a document is the most frequent distance between consecutive lines of a segment, without sub- and superscripts"); auto& M = d->mostFreqLineDistancePerFontSize; sym_assert(M.count(8) == !D0.empty() && M.count(10) == !D1.empty(), "there is a line distance per font size exactly for the font sizes of consecutive lines"); if (!D0.empty()) sym_assert(scaled(M[8], D0), "the line distance of a font size is the most frequent one of consecutive lines with this font size"); if (!D1.empty()) { sym_assert(scaled(M[10], D1), "the line distance of a font size is the most frequent one of consecutive lines with this font size"); sym_reach("two sizes"); } sym_reach("done");
}
