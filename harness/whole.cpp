// The whole pipeline, from the characters of the PDF to the plain text: nothing is lost, invented or duplicated.
#include "doc.h"
#include <memory>
#include <optional>
#include <poppler/GlobalParams.h>
#define private public
#include <poppler/PDFDoc.h>
#undef private
#include <poppler/PDFDocFactory.h>
#include "PdfParsing.h"
#include <cppflow/cppflow.h>
#include <cstring>
#include "PdfToTextPlusPlus.h"
#include "serializers/PlainTextSerializer.h"
using namespace ppp::config; using std::string; using std::vector;
static PdfDocument* theDoc; static int nPages; static void (*draw)();
#ifdef SYMBOLIC
std::unique_ptr<GlobalParams> globalParams;
#endif
GlobalParams::GlobalParams(const char*) {} GlobalParams::~GlobalParams() {}
PDFDocFactory::PDFDocFactory(vector<PDFDocBuilder*>*) {} PDFDocFactory::~PDFDocFactory() {}
std::unique_ptr<PDFDoc> PDFDocFactory::createPDFDoc(const GooString&, const std::optional<GooString>&, const std::optional<GooString>&, void*) { char* m = (char*)::operator new(sizeof(PDFDoc)); for (size_t i = 0; i < sizeof(PDFDoc); i++) m[i] = 0; auto* d = (PDFDoc*)m; d->ok = true; return std::unique_ptr<PDFDoc>(d); }
#define ASM(n) __asm__(n)
namespace cppflow { tensor next_output, last_layout, last_words; }
static int dummyMap[16];
extern "C" {
const void* _ZN12GlobalParams15getTextEncodingEv(void*) { return dummyMap; }
int _ZNK10UnicodeMap10mapUnicodeEjPci(const void*, unsigned u, char* b, int n) {
  if (u < 0x80) { if (n < 1) return 0; b[0] = (char)u; return 1; }
  if (u < 0x800) { if (n < 2) return 0; b[0] = (char)(0xc0 | (u >> 6)); b[1] = (char)(0x80 | (u & 63)); return 2; }
  if (u < 0x10000) { if (n < 3) return 0; b[0] = (char)(0xe0 | (u >> 12)); b[1] = (char)(0x80 | ((u >> 6) & 63)); b[2] = (char)(0x80 | (u & 63)); return 3; }
  if (n < 4) return 0; b[0] = (char)(0xf0 | (u >> 18)); b[1] = (char)(0x80 | ((u >> 12) & 63)); b[2] = (char)(0x80 | ((u >> 6) & 63)); b[3] = (char)(0x80 | (u & 63)); return 4;
}
long utf8proc_map(const unsigned char* s, long n, unsigned char** out, int options) {
  unsigned char* o = (unsigned char*)malloc(n + 1); memcpy(o, s, n); o[n] = 0; *out = o; return n;
}
void s_doc(void*) ASM("_ZN6PDFDocD1Ev"); void s_out(void*, PdfDocument*, const PdfParsingConfig&) ASM("_ZN3ppp7modules10PdfParsingC1EPNS_5types11PdfDocumentERKNS_6config16PdfParsingConfigE"); void s_gone(void*) ASM("_ZN3ppp7modules10PdfParsingD1Ev");
int s_pages(const PDFDoc*) ASM("_ZN6PDFDoc11getNumPagesEv"); int s_pages2(const PDFDoc*) ASM("_ZNK6PDFDoc11getNumPagesEv");
void s_doc(void*) {} void s_out(void*, PdfDocument*, const PdfParsingConfig&) {} void s_gone(void*) {} int s_pages(const PDFDoc*) { return nPages; } int s_pages2(const PDFDoc*) { return nPages; }
}
void PDFDoc::displayPages(OutputDev*, int, int, double, double, int, bool, bool, bool, bool (*)(void*), void*, bool (*)(Annot*, void*), void*) { draw(); }
static vector<PdfCharacter*> chars;
static PdfCharacter* put(int page, const string& t, double x, double y, double w = 5, double fs = 10) { Box b = {x, y, x + w, y + fs}; int n = chars.size(); auto* c = mkChar(theDoc, page, b, t, n, 0, fs); c->base = b.d; theDoc->pages[page - 1]->characters.push_back(c); chars.push_back(c); return c; }
static void begin() { theDoc = new PdfDocument("a.pdf"); addFont(theDoc, "F"); chars.clear(); }
static string process() { Config cfg; cfg.semanticRolesPrediction.disabled = true; int rc = ppp::PdfToTextPlusPlus(&cfg).process(theDoc, nullptr); sym_assert(rc == 0, "the document is processed"); std::stringstream out; struct S : ppp::serialization::PlainTextSerializer { using PlainTextSerializer::serializeToStream; }; S().serializeToStream(theDoc, {}, {}, out); return out.str(); }
// every character is part of exactly one word, every word of one text line, every line of one text block; all on its page
static void structure() {
  vector<int> seen(chars.size()); size_t words = 0, lines = 0;
  for (auto* p : theDoc->pages) {
    vector<PdfWord*> ws; vector<PdfTextLine*> ls; for (auto* b : p->blocks) { sym_assert(b->pos->pageNum == p->pageNum && !b->lines.empty(), "a text block is on its page and has lines"); for (auto* l : b->lines) { ls.push_back(l); sym_assert(l->block == b && l->pos->pageNum == p->pageNum && !l->words.empty(), "a text line knows its text block and has words"); for (auto* w : l->words) { ws.push_back(w); sym_assert(w->line == l && w->pos->pageNum == p->pageNum && !w->characters.empty(), "a word knows its text line and has characters"); for (auto* c : w->characters) { int k = -1; for (size_t i = 0; i < chars.size(); i++) if (chars[i] == c) k = i; sym_assert(k >= 0 && c->word == w && c->pos->pageNum == p->pageNum, "a character knows its word and is on its page"); if (k >= 0) seen[k]++; } } } }
    size_t all = 0; for (auto* w : p->words) { bool in = false; for (auto* x : ws) in = in | (x == w); all += in; } sym_assert(all == p->words.size() && ws.size() == all, "each word of a page is part of exactly one text line of exactly one text block"); sym_assert(p->textLines == ls, "the text lines of a page are those of its text blocks");
  }
  for (size_t i = 0; i < chars.size(); i++) sym_assert(seen[i] == (chars[i]->isDiacriticMarkOfBaseChar ? 0 : 1), "each character, except merged diacritic marks, is part of exactly one word of exactly one text line of exactly one text block");
}
static string squeeze(const string& s) { string r; for (char c : s) if (c != ' ' && c != '\n' && c != '\f') r += c; return r; }
static void permutation(const string& out, const string& in, bool hyphens) {
  for (char c = 0x21; c < 0x7f; c++) { size_t a = 0, b = 0; for (char x : out) a += x == c; for (char x : in) b += x == c; if (c == '-' && hyphens) sym_assert(a <= b, "no hyphen is invented"); else sym_assert(a == b, "each character of the PDF is in the output exactly as often as in the PDF"); } bool ok = true; for (char x : out) ok = ok & (x >= 0x21) & (x < 0x7f); sym_assert(ok, "the output consists of characters of the PDF");
}
static int P(int i) { return sym_param(i); }
// n characters anywhere on a grid; optionally rotated, of different sizes and fonts, on two pages, with other elements or in figures
static int n, mode;
static void other(int page, double x, double y, double w, double h, int kind) {
  auto* p = theDoc->pages[page - 1]; Box b = {x, y, x + w, y + h}; if (kind == 1) { auto* e = new PdfShape(); place(e, page, b); e->doc = theDoc; e->id = "s"; e->rank = 20; p->shapes.push_back(e); } if (kind == 2) { auto* e = new PdfGraphic(); place(e, page, b); e->doc = theDoc; e->id = "g"; e->rank = 20; p->graphics.push_back(e); }
  if (kind == 3) { auto* f = new PdfFigure(); place(f, page, b); f->doc = theDoc; f->id = "f"; f->rank = 20; f->clipLeftX = b.l; f->clipUpperY = b.u; f->clipRightX = b.r; f->clipLowerY = b.d; p->figures.push_back(f); }
}
extern "C" void h_whole() {
  begin(); n = P(0); mode = P(3); nPages = mode == 3 ? 2 : 1; draw = [] {
    for (int i = 1; i <= nPages; i++) mkPage(theDoc, i); static const char T[] = "aBc-1.gh"; int rot = mode == 1 ? 1 + sym_choice(3, "rotation") : 0; if (mode == 2) addFont(theDoc, "Z", 700, true);
    for (int i = 0; i < n; i++) { int page = mode == 3 ? 1 + sym_choice(2, "page") : 1; double x = sym_grid(0, P(1), P(2), "x") + 50, y = sym_grid(0, P(1), P(2), "y") + 50, fs = 10; if (mode == 2) fs = sym_choice(2, "size") ? 7 : 10; auto* c = put(page, string(1, T[i]), x, y, 5, fs); c->pos->rotation = rot; if (mode == 2 && sym_choice(2, "font")) { c->fontName = "Z"; c->color[0] = 1; } }
    if (mode == 4) { int kind = 1 + sym_choice(3, "kind"); double x = sym_grid(0, P(1), P(2), "x") + 50, y = sym_grid(0, P(1), P(2), "y") + 50, h = 1 + sym_choice(2, "h") * 20; other(1, x, y, 30, h, kind); }
  };
  string out = process(); structure(); string in; for (auto* c : chars) in += c->text; permutation(squeeze(out), in, true); sym_assert(!out.empty() && out.back() == '\n', "the output ends with a line break"); sym_reach("done");
}
extern "C" void h_whole_empty() { begin(); nPages = sym_choice(3, "pages"); mode = sym_choice(2, "other"); draw = [] { for (int i = 1; i <= nPages; i++) { mkPage(theDoc, i); if (mode) for (int k = 1; k <= 3; k++) other(i, sym_grid(0, 40, 10, "x"), 100, 30, 20, k); } }; string out = process(); structure(); sym_assert(squeeze(out).empty(), "a PDF without text has no text"); sym_reach("done"); }
// an accent drawn before, after or away from its character
extern "C" void h_whole_marks() {
  begin(); nPages = 1; draw = [] { mkPage(theDoc, 1); int at = sym_choice(3, "at"); for (int i = 0; i < 3; i++) { if (i == at) { double x = sym_grid(0, P(0), 1, "x") + 60, y = sym_grid(0, 8, 4, "y") + 96; auto* m = put(1, "\xcc\x81", x, y, 5, 10); m->unicodes.clear(); m->unicodes.push_back(0x301); } if (i < 2) put(1, i ? "b" : "a", 62 + 5 * i, 100); } };
  string out = process(); structure(); size_t a = 0, b = 0, m = 0; for (char c : out) { a += c == 'a'; b += c == 'b'; m += c == '\xcc'; } sym_assert(a == 1 && b == 1, "each character of the PDF is in the output exactly as often as in the PDF"); sym_assert(m == 1, "an accent is in the output exactly once"); sym_reach("done");
}
static vector<string> tokens(const string& s) { vector<string> r; string t; for (char c : s + " ") if (c == ' ' || c == '\n' || c == '\f') { if (!t.empty()) r.push_back(t); t = ""; } else t += c; return r; }
static void lineOf(int page, const vector<string>& words, double x, double y, double fs = 10) { for (auto& w : words) { for (char c : w) { put(page, string(1, c), x, y, fs / 2, fs); x += fs / 2; } x += fs / 2; } }
static int nl, order_; static double lx[6], ly[6]; static const vector<string> LW[] = {{"ab", "c"}, {"de", "fg"}, {"h", "ij"}, {"kl", "m"}, {"no", "p"}, {"q", "rs"}};
static vector<int> drawOrder(int n, int k) { vector<int> o; for (int i = 0; i < n; i++) o.push_back(i); if (k == 1) std::reverse(o.begin(), o.end()); if (k == 2 && n > 2) std::swap(o[0], o[1]); return o; }
// one column: lines from top to bottom, whatever the order in which they are drawn
extern "C" void h_whole_lines() {
  begin(); nPages = 1; nl = P(0); order_ = sym_choice(3, "order"); double y = 100; for (int i = 0; i < nl; i++) { lx[i] = 60 + sym_grid(0, P(1), 5, "x"); ly[i] = y; y += 10 + sym_grid(1, P(2), 4, "gap"); }
  draw = [] { mkPage(theDoc, 1); for (int i : drawOrder(nl, order_)) lineOf(1, LW[i], lx[i], ly[i]); };
  vector<string> t = tokens(process()); structure(); vector<string> want; for (int i = 0; i < nl; i++) for (auto& w : LW[i]) want.push_back(w); sym_assert(t == want, "the lines of a column are written from top to bottom, their words from left to right"); sym_reach("done");
}
// two columns: the left one first
extern "C" void h_whole_columns() {
  begin(); nPages = 1; nl = 2 * P(0); order_ = sym_choice(3, "order"); for (int c = 0; c < 2; c++) { double y = 100 + sym_grid(0, 3, 4, "top"); for (int i = 0; i < P(0); i++) { int k = c * P(0) + i; lx[k] = c ? 320 : 60; ly[k] = y; y += 10 + sym_grid(1, P(1), 4, "gap"); } }
  draw = [] { mkPage(theDoc, 1); for (int i : drawOrder(nl, order_)) { vector<string> w; for (int r = 0; r < 8; r++) w.push_back(LW[i][0] + LW[i][1]); lineOf(1, w, lx[i], ly[i]); } };
  vector<string> t = tokens(process()); structure(); vector<string> want; for (int i = 0; i < nl; i++) for (int r = 0; r < 8; r++) want.push_back(LW[i][0] + LW[i][1]); sym_assert(t == want, "the left column is written before the right one"); sym_reach("done");
}
// a line across the page above columns and another one below them: from top to bottom, and the columns from left to right in between; params: lines per column, columns, steps of the gaps
static int cols, perCol; static double topY, bottomY;
extern "C" void h_whole_layout() {
  begin(); nPages = 1; perCol = P(0); cols = P(1); nl = cols * perCol; order_ = sym_choice(3, "order"); double y0 = 100, low = 0; topY = y0; y0 += 10 + sym_grid(5, 5 + P(2), 4, "below the title"); for (int c = 0; c < cols; c++) { double y = y0 + sym_grid(0, c ? 1 : 0, 3, "top"); for (int i = 0; i < perCol; i++) { int k = c * perCol + i; lx[k] = 60 + c * (cols == 2 ? 260 : 170); ly[k] = y; y += 10 + sym_grid(1, P(2), 4, "gap"); } low = c && low > y ? low : y; } bottomY = low + 10 + sym_grid(1, 1 + P(2), 8, "above the footer");
  draw = [] { mkPage(theDoc, 1); vector<string> t(15, "title"), f(15, "below"); if (order_ == 1) lineOf(1, f, 60, bottomY); lineOf(1, t, 60, topY); if (order_ == 2) lineOf(1, f, 60, bottomY); for (int i : drawOrder(nl, order_ == 1)) { vector<string> w; for (int r = 0; r < (cols == 2 ? 8 : 5); r++) w.push_back(LW[i][0] + LW[i][1]); lineOf(1, w, lx[i], ly[i]); } if (!order_) lineOf(1, f, 60, bottomY); };
  vector<string> t = tokens(process()); structure(); vector<string> want(15, "title"); for (int i = 0; i < nl; i++) for (int r = 0; r < (cols == 2 ? 8 : 5); r++) want.push_back(LW[i][0] + LW[i][1]); for (int i = 0; i < 15; i++) want.push_back("below"); sym_assert(t == want, "a line across the page is written before the columns below it and after the columns above it, and columns from left to right"); sym_reach("done");
}
// pages in their order; a word divided by a hyphen is joined and written once, also over columns or pages
extern "C" void h_whole_pages() {
  begin(); nPages = P(0); static int used[8]; for (int i = 0; i < nPages; i++) used[i] = sym_choice(3, "lines"); draw = [] { for (int i = 0; i < nPages; i++) { mkPage(theDoc, i + 1); double x = 60 + sym_grid(0, 2, 40, "x"); for (int j = 0; j < used[i]; j++) { double gap = sym_grid(1, 2, 6, "gap"); lineOf(i + 1, {string(1, 'a' + 2 * i + j)}, x, 100 + j * (10 + gap)); } } };
  vector<string> t = tokens(process()); structure(); vector<string> want; for (int i = 0; i < nPages; i++) for (int j = 0; j < used[i]; j++) want.push_back(string(1, 'a' + 2 * i + j)); sym_assert(t == want, "the text of the pages is written in their order"); sym_reach("done");
}
extern "C" void h_whole_hyphen() {
  begin(); static int where; where = sym_choice(2, "where"); nPages = where ? 2 : 1; static bool hyphen; hyphen = sym_choice(2, "hyphen"); draw = [] { mkPage(theDoc, 1); if (where) mkPage(theDoc, 2); double gap = 10 + sym_grid(1, 3, 4, "gap"); lineOf(1, {"We", "com", hyphen ? "pu-" : "pu"}, 60, 100); if (where) lineOf(2, {"ter", "now"}, 60 + sym_grid(0, 2, 5, "x"), 100); else lineOf(1, {"ter", "now"}, 60, 100 + gap); };
  string out = process(); vector<string> t = tokens(out); structure(); vector<string> want; if (hyphen) want = {"We", "com", "puter", "now"}; else want = {"We", "com", "pu", "ter", "now"}; sym_assert(t == want, "a word divided by a hyphen at the end of a line is written once, without the hyphen"); sym_reach("done");
}
// --- the same text elsewhere, again, or after other documents
struct Item { int page; string text; double x, y, w, fs; int rot; const char* font; int kind; };
static vector<Item> scene; static double dx, dy; static int pagesBefore;
static bool swapped, renamed; static double scale = 1;
static void drawScene() { if (renamed) theDoc->fontInfos.clear(); addFont(theDoc, renamed ? "Fresh" : "F", swapped ? 700 : 400, swapped); for (int i = 1; i <= nPages + pagesBefore; i++) mkPage(theDoc, i); addFont(theDoc, renamed ? "New" : "Z", swapped ? 400 : 700, !swapped); for (auto& t : scene) { int page = t.page + pagesBefore; if (t.kind) other(page, t.x * scale + dx, t.y * scale + dy, t.w * scale, t.fs * scale, t.kind); else { auto* c = put(page, t.text, t.x * scale + dx, t.y * scale + dy, t.w * scale, t.fs * scale); c->pos->rotation = t.rot; c->fontName = !renamed ? t.font : t.font[0] == 'F' ? "Fresh" : "New"; } } }
static void add(int page, const vector<string>& words, double x, double y, double fs = 10, const char* font = "F") { for (auto& w : words) { for (char c : w) { scene.push_back({page, string(1, c), x, y, fs / 2, fs, 0, font, 0}); x += fs / 2; } x += fs / 2; } }
// what is recognized: the text, the structure and the roles of the parts of it
static string digest() {
  std::stringstream out; struct S : ppp::serialization::PlainTextSerializer { using PlainTextSerializer::serializeToStream; }; S().serializeToStream(theDoc, {}, {}, out); string s = out.str();
  for (auto* p : theDoc->pages) { if (p->pageNum <= pagesBefore) continue; s += '<'; for (auto* g : p->segments) { s += '{'; for (size_t i = 0; i < g->lines.size(); i++) s += '-'; s += '}'; } for (auto* b : p->blocks) { s += '['; if (b->isEmphasized) s += 'e'; if (b->isLinesCentered) s += 'c'; for (auto* l : b->lines) { s += '('; if (l->parentLine) s += 'p'; if (l->prevSiblingLine) s += 's'; for (auto* w : l->words) { s += ' '; if (w->isFirstPartOfHyphenatedWord) s += '~'; for (auto* c : w->characters) { s += c->text; if (c->isSubscript) s += '_'; if (c->isSuperscript) s += '^'; } } s += ')'; } s += ']'; } s += '>'; }
  return s;
}
static vector<double> statistics() { auto* d = theDoc; return {d->mostFreqFontSize, d->avgCharWidth, d->avgCharHeight, d->mostFreqWordHeight, d->mostFreqWordDistance, d->mostFreqEstimatedLineDistance, d->mostFreqLineDistance}; }
static string recognize() { begin(); draw = drawScene; process(); structure(); return digest(); }
static void anyScene(int kind) {
  scene.clear(); nPages = 1; pagesBefore = 0; dx = dy = 0;
  if (kind == 0) { for (int i = 0; i < P(1); i++) { double x = sym_grid(0, P(2), P(3), "x") + 60, y = sym_grid(0, P(2), P(3), "y") + 100; scene.push_back({1, string(1, 'a' + i), x, y, 5, 10, 0, "F", 0}); } }
  if (kind == 1) { double y = 100; for (int i = 0; i < P(1); i++) { double x = 60 + sym_grid(0, P(2), 5, "x"); add(1, LW[i], x, y, i == 2 ? 8 : 10, i == 1 && P(3) ? "Z" : "F"); y += 10.375 + sym_grid(1, P(2), 4, "gap") + (i & 1) * 0.25; } }
  if (kind == 2) { for (int c = 0; c < 2; c++) { double y = 100 + sym_grid(0, P(2), 4, "top"); for (int i = 0; i < P(1); i++) { add(1, {"ab", "cdefgh", "ij", "klmn"}, c ? 260 : 60, y); y += 10 + sym_grid(1, P(2), 4, "gap"); } } }
  if (kind == 3) { double y = sym_grid(-8, 8, 1, "y") + 100, fs = 5 + sym_choice(2, "small") * 5; add(1, {"abc"}, 60, 100); scene.push_back({1, "2", 75, y, 3, fs, 0, "F", 0}); add(1, {"de-"}, 83, 100); double gap = sym_grid(1, P(2), 4, "gap"); add(1, {"fg"}, 60, 110 + gap); double sx = sym_grid(0, P(2), 20, "sx"); scene.push_back({1, "", 60 + sx, 108, 20, 2, 0, "F", 1}); }
}
extern "C" void h_shift() {
  anyScene(P(0)); string a = recognize(); vector<double> u = statistics(); static const double bx[] = {0, 170, 0, -40.5, 0.25}, by[] = {0, 0, 170, 0.25, -40.5}; int k = sym_choice(5, "shift"); dx = bx[k]; dy = by[k]; pagesBefore = k == 0 || k == 4; string b = recognize(); sym_assert(a == b, "what is recognized does not depend on where on the page the text is"); vector<double> v = statistics(); for (size_t i = 0; i < u.size(); i++) sym_assert(u[i] == v[i], "the statistics do not depend on where on the page the text is"); sym_reach("done");
}
extern "C" void h_again() {
  anyScene(P(0)); auto mine = scene; int pages = nPages; string a = recognize(); int between = sym_choice(4, "between"); scene.clear(); if (between == 1) { nPages = 2; add(1, {"Xy", "zw"}, 20, 300, 20, "Z"); add(2, {"v-"}, 20, 300, 14, "F"); scene.push_back({1, "", 5, 5, 9, 9, 0, "F", 3}); } if (between == 2) { nPages = 1; scene.push_back({1, "q", 400, 100, 7, 30, 3, "F", 0}); }
  if (between) { begin(); draw = drawScene; process(); } if (between == 3) { nPages = 0; begin(); draw = drawScene; process(); } scene = mine; nPages = pages; string b = recognize(); sym_assert(a == b, "what is recognized in a document does not depend on the documents processed before"); sym_reach("done");
}
// two documents that differ in the names of their fonts and the number of the page only, after a document that shares names and numbers with the first
extern "C" void h_fresh() {
  anyScene(P(0)); recognize(); swapped = true; scale = sym_choice(2, "scale") ? 1.5 : 1; string a = recognize(); renamed = true; pagesBefore = 2; string b = recognize(); swapped = renamed = false; scale = 1; sym_assert(a == b, "what is recognized in a document does not depend on the fonts and pages of documents processed before"); sym_reach("done");
}
