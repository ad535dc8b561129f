// Merging of diacritic marks, detection of words, stacked math symbols.
#include "doc.h"
#include <cstdlib>
#include <cstring>
#include "DiacriticalMarksMerging.h"
#include "WordsDetection.h"
#include "utils/WordsDetectionUtils.h"
#include "utils/Log.h"
using namespace ppp::modules; using namespace ppp::config; using std::string; using std::vector;

// --- environment: poppler's UTF-8 encoder, utf8proc (composition itself is not modelled), random numbers
static int randCount, mapFails, wrongOptions, noEncoding; static int dummyParams[16];
extern "C" {
void* globalParams = dummyParams;
const void* _ZN12GlobalParams15getTextEncodingEv(void*) { return noEncoding ? nullptr : dummyParams; }
int _ZNK10UnicodeMap10mapUnicodeEjPci(const void*, unsigned u, char* b, int n) {
  if (u < 0x80) { if (n < 1) return 0; b[0] = (char)u; return 1; }
  if (u < 0x800) { if (n < 2) return 0; b[0] = (char)(0xc0 | (u >> 6)); b[1] = (char)(0x80 | (u & 63)); return 2; }
  if (u < 0x10000) { if (n < 3) return 0; b[0] = (char)(0xe0 | (u >> 12)); b[1] = (char)(0x80 | ((u >> 6) & 63)); b[2] = (char)(0x80 | (u & 63)); return 3; }
  if (n < 4) return 0; b[0] = (char)(0xf0 | (u >> 18)); b[1] = (char)(0x80 | ((u >> 12) & 63)); b[2] = (char)(0x80 | ((u >> 6) & 63)); b[3] = (char)(0x80 | (u & 63)); return 4;
}
long utf8proc_map(const unsigned char* s, long n, unsigned char** out, int options) {
  if (mapFails) { *out = nullptr; return -3; }
  if (!(options & 8) || (options & 16)) wrongOptions = 1;
  unsigned char* o = (unsigned char*)malloc(n + 1); memcpy(o, s, n); o[n] = 0; *out = o; return n;
}
int rand() noexcept { return randCount += 7; }
}
static string enc(unsigned u) { char b[8]; int n = _ZNK10UnicodeMap10mapUnicodeEjPci(nullptr, u, b, 8); return string(b, n); }

static PdfCharacter* uniChar(PdfDocument* d, PdfPage* pg, const Box& b, vector<unsigned> us, int i) {
  PdfCharacter* c = mkChar(d, pg->pageNum, b, "", i); c->unicodes.clear(); for (unsigned u : us) { c->unicodes.push_back(u); c->text += enc(u); } pg->characters.push_back(c); return c;
}
static double xov(const Box& a, const Box& b) { double l = a.l > b.l ? a.l : b.l, r = a.r < b.r ? a.r : b.r; return r - l; }
static DiacriticalMarksMergingConfig diaConfig() { DiacriticalMarksMergingConfig c; c.logLevel = ppp::utils::log::LogLevel::ERROR; return c; }

// what must hold of any result. mark[i]: the combining mark character i stands for, or 0
static void diaInvariants(PdfDocument* d, PdfPage* pg, const vector<Box>& box, const vector<unsigned>& mark) {
  size_t n = pg->characters.size(); sym_assert(n == box.size(), "merging diacritic marks keeps the characters of the page");
  for (size_t i = 0; i < n; i++) {
    PdfCharacter* c = pg->characters[i]; string text; Box b = box[i]; int marks = 0;
    text = c->text;
    for (size_t j = 0; j < n; j++) if (pg->characters[j]->isDiacriticMarkOfBaseChar == c) {
      sym_assert(j != i, "a mark is not its own base"); marks++; text += enc(mark[j]);
      if (box[j].l < b.l) b.l = box[j].l; if (box[j].u < b.u) b.u = box[j].u; if (box[j].r > b.r) b.r = box[j].r; if (box[j].d > b.d) b.d = box[j].d;
    }
    if (marks) {
      sym_assert(!c->isDiacriticMarkOfBaseChar, "the base of a merged mark is not itself a merged mark");
      sym_assert(c->isBaseCharOfDiacriticMark && c->isBaseCharOfDiacriticMark->isDiacriticMarkOfBaseChar == c, "a base character knows a mark merged with it");
      sym_assert(c->textWithDiacriticMark == text, "the merged text is the base character followed by all its marks in order, each as combining mark");
    } else sym_assert(!c->isBaseCharOfDiacriticMark, "only the base of a merged mark is called a base character");
    if (!c->isDiacriticMarkOfBaseChar) sym_assert((c->pos->leftX == b.l) & (c->pos->upperY == b.u) & (c->pos->rightX == b.r) & (c->pos->lowerY == b.d), "the box of a character is the union of its own box and those of the marks merged with it");
    else {
      sym_assert(mark[i] != 0, "only a single mark character is merged with another character"); bool here = false;
      for (size_t j = 0; j < n; j++) here = here | (pg->characters[j] == c->isDiacriticMarkOfBaseChar); sym_assert(here, "the base of a mark is a character of the same page");
    }
  }
  sym_assert(!wrongOptions, "the merged text is composed");
}
static const unsigned KIND[] = {'a', 'e', 0x60, 0x301};  // two letters, a spacing accent with a combining equivalent, a combining accent
static const unsigned MARK[] = {0, 0, 0x300, 0x301};
// a single mark between two letters: the larger overlap wins
extern "C" void h_dia_single() {
  DiacriticalMarksMergingConfig cf = diaConfig(); PdfDocument* d = mkDoc(); PdfPage* pg = mkPage(d, 1); PdfPage* pg2 = mkPage(d, 2); vector<Box> box; vector<unsigned> mark;
  int at = sym_choice(3, "position of the mark"), k = 2 + sym_choice(2, "kind of the mark"), n = 2 + sym_choice(2, "chars"); if (at >= n) return; mapFails = sym_choice(2, "composition fails");
  for (int i = 0; i < n; i++) { Box b = i == at ? symBoxAt(-400, 400, 1. / 8, 3, 2, "mark") : symBoxAt(-400, 400, 1. / 8, 5, 8, "letter"); if (i == at) b.d = b.u + sym_grid(1, 160, 1. / 8, "mark height"); box.push_back(b); int kk = i == at ? k : i & 1; mark.push_back(MARK[kk]); uniChar(d, pg, b, {KIND[kk]}, i); }
  PdfCharacter* far = uniChar(d, pg2, box[at], {'x'}, 9);
  DiacriticalMarksMerging(d, &cf).process(); diaInvariants(d, pg, box, mark);
  double p = at > 0 ? xov(box[at], box[at - 1]) : -1, q = at + 1 < n ? xov(box[at], box[at + 1]) : -1; PdfCharacter* base = pg->characters[at]->isDiacriticMarkOfBaseChar ? (PdfCharacter*)pg->characters[at]->isDiacriticMarkOfBaseChar : nullptr;
  if (p <= 0 && q <= 0) { sym_assert(!base, "a mark that overlaps no neighbour is not merged"); sym_reach("unmerged"); }
  else if (p > q) { sym_assert(base == pg->characters[at - 1], "a mark is merged with the neighbour it overlaps most"); sym_reach("previous"); }
  else if (q > p) { sym_assert(base == pg->characters[at + 1], "a mark is merged with the neighbour it overlaps most"); sym_reach("next"); }
  else { sym_assert(base != nullptr, "a mark that overlaps a neighbour is merged"); sym_reach("tie"); }
  sym_assert(!far->isBaseCharOfDiacriticMark, "a mark is never merged across pages");
}
// any sequence of letters and marks
extern "C" void h_dia_seq() {
  DiacriticalMarksMergingConfig cf = diaConfig(); PdfDocument* d = mkDoc(); PdfPage* pg = mkPage(d, 1); vector<Box> box; vector<unsigned> mark; int n = sym_param(0);
  for (int i = 0; i < n; i++) { int k = sym_choice(3, "kind"); if (k) k++; Box b; if (k < 2) b = symBoxAt(-40, 40, 1, 5, 8, "letter"); else { b.l = sym_grid(-40, 40, 1, "mark"); b.r = b.l + 3; b.u = -4; b.d = -2; } box.push_back(b); mark.push_back(MARK[k]); uniChar(d, pg, b, k == 0 && i == 1 ? vector<unsigned>{0x1d44e} : k == 0 && i == 2 ? vector<unsigned>{'f', 0xfb01, 0x2c6f} : vector<unsigned>{KIND[k]}, i); }
  DiacriticalMarksMerging(d, &cf).process(); diaInvariants(d, pg, box, mark);
  for (int i = 0; i < n; i++) if (mark[i]) {  // a mark next to a letter it overlaps is merged, and the base is the nearest letter on one side
    bool lp = i > 0 && !mark[i - 1], ln = i + 1 < n && !mark[i + 1]; const PdfCharacter* base = pg->characters[i]->isDiacriticMarkOfBaseChar;
    if ((lp && xov(box[i], box[i - 1]) > 0) | (ln && xov(box[i], box[i + 1]) > 0)) sym_assert(base != nullptr, "a mark that overlaps the letter beside it is merged");
    if (base) { int p = i - 1, q = i + 1; while (p >= 0 && pg->characters[p]->isDiacriticMarkOfBaseChar) p--; while (q < n && mark[q]) q++;
      sym_assert((p >= 0 && base == pg->characters[p]) || (q < n && base == pg->characters[q]), "a mark is merged with the nearest character beside it that is no mark (or an unmerged one)"); sym_reach("merged"); }
  }
  sym_reach("done");
}
// which characters are marks: any code point
extern "C" void h_dia_class() {
  DiacriticalMarksMergingConfig cf = diaConfig(); PdfDocument* d = mkDoc(); PdfPage* pg = mkPage(d, 1); noEncoding = sym_choice(2, "no encoding");
  unsigned u = sym_int(0, 0x10ffff, "code point"); int two = sym_choice(2, "two code points"); Box b{0, 0, 5, 8}; uniChar(d, pg, b, {'a'}, 0); PdfCharacter* c = mkChar(d, 1, b, "?", 1); c->unicodes.clear(); c->unicodes.push_back(u); if (two) c->unicodes.push_back(0x301); pg->characters.push_back(c);
  // the documented equivalents of spacing accents outside the two blocks of modifier letters and combining marks
  static const unsigned spacing[] = {0x22, 0x27, 0x5e, 0x5f, 0x60, 0x7e, 0xa8, 0xaf, 0xb0, 0xb4, 0xb8, 0x384, 0x485, 0x486, 0x559, 0x55a, 0x204e}; bool isM = (u >= 0x2b0) & (u <= 0x36f); for (unsigned s : spacing) isM = isM | (u == s);
  DiacriticalMarksMerging(d, &cf).process(); bool merged = pg->characters[1]->isDiacriticMarkOfBaseChar != nullptr;
  sym_assert(merged == (isM & !two & !noEncoding), "exactly the single accents, modifier letters and combining marks are merged"); sym_reach(merged ? "mark" : "no mark");
}

// --- words
static WordsDetectionConfig wordsConfig() { WordsDetectionConfig c; c.logLevel = ppp::utils::log::LogLevel::ERROR; return c; }
struct Ref { Box b; double fs; int rot, mode; };
static void conservation(PdfPage* pg, const vector<PdfCharacter*>& want) {
  size_t k = 0; int rank = 0;
  for (PdfWord* w : pg->words) {
    sym_assert(!w->characters.empty(), "no word is empty"); sym_assert(w->rank == rank++, "words are ranked in order"); string text; Box b{1e9, 1e9, -1e9, -1e9};
    for (PdfCharacter* c : w->characters) {
      sym_assert(k < want.size() && c == want[k], "the words contain every unmerged character exactly once, in order"); k++; sym_assert(c->word == w, "a character knows its word");
      text += c->isBaseCharOfDiacriticMark ? c->textWithDiacriticMark : c->text; if (c->pos->leftX < b.l) b.l = c->pos->leftX; if (c->pos->upperY < b.u) b.u = c->pos->upperY; if (c->pos->rightX > b.r) b.r = c->pos->rightX; if (c->pos->lowerY > b.d) b.d = c->pos->lowerY;
      sym_assert(c->pos->rotation == w->pos->rotation && c->pos->wMode == w->pos->wMode, "all characters of a word have its rotation and writing mode");
    }
    sym_assert(w->text == text, "the text of a word is that of its characters, with merged marks");
    sym_assert((w->pos->leftX == b.l) & (w->pos->upperY == b.u) & (w->pos->rightX == b.r) & (w->pos->lowerY == b.d), "the box of a word is the union of the boxes of its characters");
    sym_assert(w->pos->pageNum == pg->pageNum && w->doc == w->characters[0]->doc, "a word is on the page of its characters");
    int best = 0, mine = 0, bestF = 0, mineF = 0;
    for (PdfCharacter* c : w->characters) { int f = 0, g = 0; for (PdfCharacter* e : w->characters) { f += e->fontSize == c->fontSize; g += e->fontName == c->fontName; } if (f > best) best = f; if (g > bestF) bestF = g; mine += c->fontSize == w->fontSize; mineF += c->fontName == w->fontName; }
    sym_assert(mine == best, "the font size of a word is the most frequent one of its characters"); sym_assert(mineF == bestF, "the font of a word is the most frequent one of its characters");
    sym_assert(w->id.substr(0, 5) == "word-" && w->id.size() > 5, "a word has an id");
  }
  sym_assert(k == want.size(), "the words contain every unmerged character exactly once, in order");
}
// reference: where a new word begins
static void checkSplits(const vector<PdfCharacter*>& want, const vector<Box>& box, const vector<double>& fs) {
  Box act = box[0]; double mf = fs[0]; int n = want.size();
  for (int i = 1; i < n; i++) {
    double top = box[i].u > act.u ? box[i].u : act.u, bot = box[i].d < act.d ? box[i].d : act.d, ov = bot - top, h1 = act.d - act.u, h2 = box[i].d - box[i].u, h = h1 < h2 ? h1 : h2; bool low = 2 * ov < h;
    double gap = act.l < box[i].l ? box[i].l - act.r : act.l > box[i].l ? act.l - box[i].r : -1; bool wide = 20 * gap > 3 * mf;
    bool split = want[i]->word != want[i - 1]->word; sym_assert(split == (low | wide), "a new word begins exactly where the characters do not overlap vertically by half or the gap exceeds 15 percent of the font size");
    if (split) { act = box[i]; mf = fs[i]; sym_reach("split"); } else { if (box[i].l < act.l) act.l = box[i].l; if (box[i].r > act.r) act.r = box[i].r; if (box[i].u < act.u) act.u = box[i].u; if (box[i].d > act.d) act.d = box[i].d; if (fs[i] > mf) mf = fs[i]; sym_reach("joined"); }
  }
}
// where words are split: unrotated text
extern "C" void h_words() {
  WordsDetectionConfig cf = wordsConfig(); PdfDocument* d = mkDoc(); PdfPage* pg = mkPage(d, 1); PdfPage* pg2 = mkPage(d, 2); int n = sym_param(0); vector<PdfCharacter*> want; vector<Box> box; vector<double> fs;
  for (int i = 0; i < n; i++) { Box b; b.l = sym_grid(-800, 800, 1. / 8, "l"); b.r = b.l + 4; b.u = sym_grid(-800, 800, 1. / 8, "u"); b.d = b.u + 6 + 2 * (i & 1); double f = sym_grid(2, 60, 1. / 2, "fontsize"); box.push_back(b); fs.push_back(f); PdfCharacter* c = mkChar(d, 1, b, string(1, (char)('a' + i)), i, 0, f); pg->characters.push_back(c); want.push_back(c); }
  PdfCharacter* o = mkChar(d, 2, box[0], "z", 7, 0, fs[0]); pg2->characters.push_back(o);
  WordsDetection(d, &cf).process(); conservation(pg, want); conservation(pg2, {o});
  checkSplits(want, box, fs);
}
// long words: a line of n characters without gaps; at two of them the line continues at another height, in another font size, after a gap
extern "C" void h_words_long() {
  WordsDetectionConfig cf = wordsConfig(); PdfDocument* d = mkDoc(); PdfPage *pg = mkPage(d, 1), *pg2 = mkPage(d, 2); int n = sym_param(0); vector<PdfCharacter*> want, want2; vector<Box> box; vector<double> fs; int e = 1 + sym_choice(n - 2, "first change"), f = e + 1 + sym_choice(n - e - 1, "second change"), keep = sym_choice(2, "second change is of height"); double x = -30, u = -7, size = 10, y2 = 0;
  for (int i = 0; i < n; i++) {
    if (i == e) { double g = sym_grid(-64, 64, 1. / 8, "gap"), v = sym_grid(-64, 64, 1. / 8, "shift"), s = sym_grid(2, 60, 1. / 2, "fontsize"); x += g; u += v; size = s; }
    else if (i == e + 1) { u = -7; size = 10; }
    if (i == f) { double g = sym_grid(-64, 64, 1. / 8, "gap"); x += g; if (keep) { y2 = sym_grid(-64, 64, 1. / 8, "shift"); u += y2; } }
    Box b{x, u, x + 4, u + 6 + 2 * (i & 1)}; x += 4; box.push_back(b); fs.push_back(size); PdfCharacter* c = mkChar(d, 1, b, string(1, (char)('a' + i)), i, 0, size, i == 0 || i == 5 ? "G" : "F"); pg->characters.push_back(c); want.push_back(c);
    PdfCharacter* o = mkChar(d, 2, {4. * i, 0, 4. * i + 4, 8}, string(1, (char)('k' + i)), 20 + i, 0, i & 1 ? 7 : 9); pg2->characters.push_back(o); want2.push_back(o);
  }
  WordsDetection(d, &cf).process(); conservation(pg, want); conservation(pg2, want2); checkSplits(want, box, fs); sym_assert(pg2->words.size() == 1, "characters side by side are one word");
}
// rotated text, writing modes, merged marks, fonts: characters on one baseline
extern "C" void h_words_mixed() {
  WordsDetectionConfig cf = wordsConfig(); PdfDocument* d = mkDoc(); PdfPage* pg = mkPage(d, 3); int n = sym_param(0); vector<PdfCharacter*> want; int prev = -1, prot = 0, pmode = 0;
  for (int i = 0; i < n; i++) {
    int rot = sym_choice(4, "rotation"), mode = sym_choice(2, "writing mode"), kind = sym_choice(3, "kind"), f = sym_choice(3, "font"); Box b; b.l = sym_grid(-80, 80, 1. / 2, "l"); b.r = b.l + 4; b.u = sym_grid(-80, 80, 1. / 2, "u"); b.d = b.u + 8;
    PdfCharacter* c = mkChar(d, 3, b, string(1, (char)('a' + i)), i, rot, f == 2 ? 8 : 10, f ? "G" : "F"); c->pos->wMode = mode; pg->characters.push_back(c);
    static PdfCharacter other; if (kind == 1) { c->isBaseCharOfDiacriticMark = &other; c->textWithDiacriticMark = "A"; c->textWithDiacriticMark[0] = (char)('A' + i); }
    if (kind == 2) c->isDiacriticMarkOfBaseChar = &other; else want.push_back(c);
  }
  WordsDetection(d, &cf).process(); conservation(pg, want);
  for (size_t i = 1; i < want.size(); i++) { bool differ = want[i]->pos->rotation != want[i - 1]->pos->rotation || want[i]->pos->wMode != want[i - 1]->pos->wMode; if (differ) { sym_assert(want[i]->word != want[i - 1]->word, "a new word begins where rotation or writing mode changes"); sym_reach("differ"); } }
  sym_reach("done");
}
// --- stacked math symbols
extern "C" void h_stacked() {
  WordsDetectionConfig cf = wordsConfig(); PdfDocument* d = mkDoc(); PdfPage* pg = mkPage(d, 1); int n = sym_param(0); vector<Box> box; vector<double> fs; vector<int> kind;
  static const char* T[] = {"n", "lim", "sup", "\u2211", "\u222b", "?"}; static const char* N[] = {"n", "l", "s", "x", "x", "summationdisplay"};
  int nb = 0;
  for (int i = 0; i < n; i++) {
    int k = nb < 2 ? sym_choice(sym_param(1), "kind") : 0; if (k) { nb++; if (sym_param(1) == 2) k = 1 + sym_choice(5, "base"); } kind.push_back(k);
    Box b; b.l = sym_grid(-400, 400, 1. / 8, "l"); b.r = b.l + (k ? 10 : 4); b.u = sym_grid(-400, 400, 1. / 8, "u"); b.d = b.u + 8; double f = sym_grid(2, 60, 1. / 2, "fontsize"); box.push_back(b); fs.push_back(f);
    PdfWord* w = mkWord(d, 1, b, T[k], i, 0, f); PdfCharacter* c = mkChar(d, 1, b, k == 1 || k == 2 ? string(1, T[k][0]) : string(T[k]), i, 0, f); c->name = N[k]; w->characters.push_back(c); pg->words.push_back(w);
  }
  WordsDetection(d, &cf).process(); vector<PdfWord*>& W = pg->words; sym_assert((int)W.size() == n, "merging stacked symbols keeps the words");
  auto fits = [&](int p, int b) { double ov = xov(box[p], box[b]), m = box[p].r - box[p].l, m2 = box[b].r - box[b].l; if (m2 < m) m = m2; return (2 * ov >= m) & (fs[p] < fs[b] - 1); };
  auto idx = [&](const PdfWord* w) { for (int i = 0; i < n; i++) if (W[i] == w) return i; return -1; };
  for (int b = 0; b < n; b++) {
    auto& parts = W[b]->isBaseOfStackedMathSymbol; if (parts.empty()) continue;
    sym_assert(kind[b] != 0, "only a sum, product, integral or limit word is the base of a stacked symbol"); sym_assert(!W[b]->isPartOfStackedMathSymbol, "the base of a stacked symbol is no part of another one"); sym_reach("symbol");
    for (size_t i = 0; i < parts.size(); i++) { for (size_t j = 0; j < i; j++) sym_assert(parts[i] != parts[j], "a word is listed once as part of a symbol"); int p = idx(parts[i]); sym_assert(p >= 0 && p != b, "the parts of a symbol are other words of the page"); sym_assert(parts[i]->isPartOfStackedMathSymbol == W[b], "a part of a stacked symbol knows its base");
      sym_assert(parts[i]->isBaseOfStackedMathSymbol.empty(), "a part is no base"); sym_assert(fits(p, b), "a part overlaps its base horizontally by half and has a smaller font");
      for (int q = (p < b ? p : b) + 1; q < (p < b ? b : p); q++) sym_assert(W[q]->isPartOfStackedMathSymbol == W[b], "the parts of a symbol are the words right beside its base"); }
  }
  for (int p = 0; p < n; p++) if (W[p]->isPartOfStackedMathSymbol) { bool in = false; for (PdfWord* x : W[p]->isPartOfStackedMathSymbol->isBaseOfStackedMathSymbol) in = in | (x == W[p]); sym_assert(in, "the base of a symbol lists every part"); }
  for (int b = 0; b < n; b++) if (kind[b] && !W[b]->isPartOfStackedMathSymbol) for (int dir = -1; dir <= 1; dir += 2) {
    int q = b + dir; while (q >= 0 && q < n && W[q]->isPartOfStackedMathSymbol == W[b]) q += dir;
    if (q >= 0 && q < n && !W[q]->isPartOfStackedMathSymbol && W[q]->isBaseOfStackedMathSymbol.empty()) { sym_assert(!fits(q, b), "every fitting word beside the base is a part of the symbol"); sym_reach("end"); }
  }
}
// longer pages: one base word (of one or more characters), all other words fit except up to two with symbolic position or font size; the sign may be any character of a base word
extern "C" void h_stacked_long() {
  WordsDetectionConfig cf = wordsConfig(); PdfDocument* d = mkDoc(); mkPage(d, 1); PdfPage* pg = mkPage(d, 2); int n = sym_param(0), b = sym_choice(n, "base"), at = sym_choice(4, "position of the sign"), p = sym_choice(n - 1, "first other word"), q = sym_choice(n - 1, "second other word"); if (q < p) return; if (p >= b) p++; if (q >= b) q++;
  double px = sym_grid(-160, 160, 1. / 8, "l"), qs = sym_grid(2, 60, 1. / 2, "fontsize"); auto& W = pg->words; vector<Box> box; vector<double> fs;
  for (int i = 0; i < n; i++) {
    Box x{i == p ? px : 1. + i, 9. * i, 0, 9. * i + 8}; x.r = x.l + (i == b ? 20 : 4); double f = i == q ? qs : i == b ? 12 : 7; PdfWord* w = mkWord(d, 2, x, "t", i, 0, f); string text;
    for (int k = 0; k < (i == b ? at + 1 : 3); k++) { bool sign = i == b && k == at; Box cb{x.l + k, x.u, x.l + k + 1, x.d}; PdfCharacter* c = mkChar(d, 2, cb, sign ? "\u2211" : "n", i, 0, f); c->name = sign ? "summation" : "n"; c->word = w; w->characters.push_back(c); text += c->text; }
    w->text = text; box.push_back(x); fs.push_back(f); W.push_back(w);
  }
  WordsDetection(d, &cf).process(); sym_assert((int)W.size() == n, "merging stacked symbols keeps the words"); vector<PdfWord*> want;
  auto fits = [&](int k) { double ov = xov(box[k], box[b]); return (2 * ov >= 4) & (fs[k] < fs[b] - 1); };
  for (int i = b - 1; i >= 0 && fits(i); i--) want.push_back(W[i]); for (int i = b + 1; i < n && fits(i); i++) want.push_back(W[i]);
  auto& parts = W[b]->isBaseOfStackedMathSymbol; sym_assert(parts.size() == want.size(), "the parts of a symbol are exactly the fitting words right beside its base"); for (PdfWord* w : want) { bool in = false; for (PdfWord* v : parts) in = in | (v == w); sym_assert(in, "the parts of a symbol are exactly the fitting words right beside its base"); }
  for (int i = 0; i < n; i++) { bool part = false; for (PdfWord* w : want) part = part | (w == W[i]); sym_assert((W[i]->isPartOfStackedMathSymbol == W[b]) == part && (part || !W[i]->isPartOfStackedMathSymbol), "exactly the parts of a symbol know its base"); sym_assert(i == b || W[i]->isBaseOfStackedMathSymbol.empty(), "only a sum, product, integral or limit word is the base of a stacked symbol"); }
  sym_reach(want.size() > 3 ? "many" : "few");
}
