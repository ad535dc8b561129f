// Prediction of the semantic roles (SemanticRolesPrediction) around a stand-in for the neural network.
#include "doc.h"
#include <cppflow/cppflow.h>
#include <codecvt>
#include <locale>
#include <fstream>
#include "SemanticRolesPrediction.h"
#include "utils/BytePairEncoder.h"
#ifndef SYMBOLIC
#include <unistd.h>
#include <sys/stat.h>
#endif
using namespace ppp::config; using ppp::modules::SemanticRolesPrediction; using std::string; using std::vector; using std::wstring;
namespace cppflow { tensor next_output, last_layout, last_words; }
static SemanticRolesPredictionConfig cfg;
// --- the vocabulary files
static string bpe = "a\t0\nab\t1\nb\xe2\x9c\x82\t2\n", roles = "paragraph\t0\ntitle\t6\n"; static bool haveBpe = true, haveRoles = true;
#ifdef SYMBOLIC
__sym_file __symfs_open_read(const char* p) { if (!strcmp(p, "m/bpe-vocab.tsv")) return {haveBpe, bpe}; if (!strcmp(p, "m/roles-vocab.tsv")) return {haveRoles, roles}; return {false, string()}; }
static string dir() { return "m"; } static void cleanup() {}
#else
static string D;
static string dir() {
  char t[] = "/tmp/symx_rolesXXXXXX"; D = mkdtemp(t); if (haveBpe) std::ofstream(D + "/bpe-vocab.tsv", std::ios::binary) << bpe; if (haveRoles) std::ofstream(D + "/roles-vocab.tsv", std::ios::binary) << roles; return D;
}
static void cleanup() { unlink((D + "/bpe-vocab.tsv").c_str()); unlink((D + "/roles-vocab.tsv").c_str()); rmdir(D.c_str()); }
#endif
// runs the prediction; false if the model cannot be read
static bool predict(PdfDocument* d) { cfg.modelsDir = dir(); bool ok = true; { SemanticRolesPrediction s(&cfg); try { s.predict(d); } catch (const std::invalid_argument&) { ok = false; } } cleanup(); return ok; }
static PdfDocument* mk(unsigned pages) { auto* d = mkDoc(); for (unsigned i = 1; i <= pages; i++) mkPage(d, i); return d; }
static PdfTextBlock* add(PdfDocument* d, unsigned page, int i) { auto* b = mkBlock(d, page, {10, 20, 30, 40}, "", i); d->pages[page - 1]->blocks.push_back(b); b->role = SemanticRole::OTHER; return b; }
// params: number of blocks at most, number of roles
extern "C" void h_roles_argmax() {
  unsigned pages = 1 + sym_choice(3, "pages"), n = sym_choice(sym_param(0) + 1, "blocks"), roles = sym_param(1); auto* d = mk(pages); vector<PdfTextBlock*> bs; unsigned pg = 1;
  for (unsigned i = 0; i < n; i++) { pg += sym_choice(pages - pg + 1, "page"); bs.push_back(add(d, pg, i)); }
  vector<float> p; for (unsigned i = 0; i < n * roles; i++) p.push_back((float)sym_grid(0, 64, 1 / 64., "p"));
  cppflow::next_output = cppflow::tensor(p, {(int64_t)n, (int64_t)roles});
  sym_assert(predict(d), "the model is read");
  for (unsigned i = 0; i < n; i++) {
    int r = sym_concretize((int)bs[i]->role); sym_assert(r >= 0 && r < (int)roles, "a predicted role is one of the roles of the model");
    bool best = true, first = true; for (int k = 0; k < (int)roles; k++) { best = best & (p[i * roles + r] >= p[i * roles + k]); if (k < r) first = first & (p[i * roles + r] > p[i * roles + k]); }
    sym_assert(best, "a text block gets the role with the highest probability of its row"); sym_assert(first, "the first of several most likely roles is chosen");
  }
  sym_assert(cppflow::last_words.i.size() == n * 100, "every text block has 100 token ids"); sym_assert(cppflow::last_layout.f.size() == n * 15 || n == 0, "every text block has 15 layout features");
  sym_reach(n ? "blocks" : "empty"); for (auto* b : bs) sym_observe_i((int)b->role);
}
// a text of up to n letters; what the features count of them
struct Letters { string s; int n = 0, digits = 0, upper = 0, wide = 0, punct = 0, ink = 0; bool at = false, firstDigit = false, firstUpper = false; };
static void letter(Letters* t) {
  int k = sym_choice(4, "letter"); static const char* wides[] = {"", "\xc3\x84", "\xe2\x80\xa2", "\xc4\x80"}; t->n++;   // Ä, a bullet, A with macron
  if (k) { t->s += wides[k]; t->wide++; t->ink++; return; }
  unsigned char c = sym_char("c"); sym_assume(c != 0 && c < 0x80); t->s.push_back((char)c);
  bool dg = c >= '0' && c <= '9', up = c >= 'A' && c <= 'Z', lo = c >= 'a' && c <= 'z', sp = c == ' ' || (c >= 9 && c <= 13);
  t->digits += dg; t->upper += up; t->punct += c > 32 && c < 127 && !dg && !up && !lo; t->ink += !sp; t->at |= c == '@'; if (t->n == 1) t->firstDigit = dg, t->firstUpper = up;
}
static Letters letters(unsigned n) { Letters t; unsigned k = sym_choice(n + 1, "len"); for (unsigned i = 0; i < k; i++) letter(&t); return t; }
static void feature(const vector<float>& f, unsigned block, unsigned i, double want, const char* msg) { double got = f[block * 15 + i]; sym_assert(got - want <= 1e-5 && want - got <= 1e-5, msg); }
static double share(int a, int b) { return b > 0 ? (double)a / b : 0; }
// the text features of one block
extern "C" void h_roles_text() {
  auto* d = mk(1); auto* b = add(d, 1, 0); Letters t = letters(sym_param(0)); b->text = t.s; auto* l = mkLine(d, 1, {1, 2, 3, 4}, "", 0); b->lines.push_back(l);
  int upper = 0; unsigned words = sym_choice(3, "words"); for (unsigned i = 0; i < words; i++) { Letters w = letters(1); l->words.push_back(mkWord(d, 1, {1, 2, 3, 4}, w.s, i)); upper += w.firstUpper; }
  cppflow::next_output = cppflow::tensor(vector<float>(14, 0.5f), {1, 14});
  sym_assert(predict(d), "the model is read");
  const vector<float>& f = cppflow::last_layout.f; sym_assert(f.size() == 15, "a text block has 15 layout features");
  feature(f, 0, 8, t.at, "a feature tells whether the block contains an @"); feature(f, 0, 9, t.firstDigit, "a feature tells whether the block starts with a digit");
  feature(f, 0, 10, share(t.digits, t.ink), "a feature is the share of digits"); feature(f, 0, 11, share(t.wide, t.ink), "a feature is the share of non-ASCII characters");
  feature(f, 0, 12, share(t.punct, t.ink), "a feature is the share of punctuation"); feature(f, 0, 13, share(upper, words), "a feature is the share of words that start with an uppercase letter"); feature(f, 0, 14, share(t.upper, t.ink), "a feature is the share of uppercase letters");
  sym_reach("done"); for (int i = 8; i < 15; i++) sym_observe_d(f[i]);
}
// the same for a longer text with letters of any length in bytes (a letter beyond U+FFFF counts as the two UTF-16 units the code reads); param: 1 for a text that begins with white space
extern "C" void h_roles_long() {
  auto* d = mk(1); auto* b = add(d, 1, 0); Letters t; static const char* fixed[] = {"\xf0\x9d\x90\x80", "7", "B", "\xc3\x84", " ", "x", "(", "\t", "\xe2\x80\xa2", "3", "Z", "\xf0\x9f\x98\x80", ".", "@"}; if (sym_param(0)) t.s = " ", t.n = 1; unsigned at = sym_choice(14, "place"), from = sym_choice(3, "from") * 4;
  for (unsigned i = from; i < 14; i++) { if (i == at) letter(&t); string c = fixed[i]; if (c == "@" && !sym_choice(2, "at")) continue; t.s += c; t.n++; bool w = (unsigned char)c[0] > 127; int units = (unsigned char)c[0] >= 0xf0 ? 2 : 1; t.wide += w * units; t.ink += c != " " && c != "\t" ? units : 0; bool dg = c == "7" || c == "3", up = c == "B" || c == "Z"; t.digits += dg; t.upper += up; t.punct += c == "(" || c == "." || c == "@"; t.at |= c == "@"; if (t.n == 1) t.firstDigit = dg; }
  b->text = t.s; auto* l = mkLine(d, 1, {1, 2, 3, 4}, "", 0); b->lines.push_back(l); auto* l2 = mkLine(d, 1, {1, 2, 3, 4}, "", 1); b->lines.push_back(l2); int upper = 0; static const char* words[] = {"And", "or", "Ni", "9N", "Abc", "if"}; static const bool ups[] = {true, false, true, false, true, false}; unsigned n = 3 + sym_choice(4, "words");
  for (unsigned i = 0; i < n; i++) { (i < 4 ? l : l2)->words.push_back(mkWord(d, 1, {1, 2, 3, 4}, i < 6 ? words[i] : "", i)); if (i < 6) upper += ups[i]; }
  cppflow::next_output = cppflow::tensor(vector<float>(14, 0.5f), {1, 14}); sym_assert(predict(d), "the model is read");
  const vector<float>& f = cppflow::last_layout.f; sym_assert(f.size() == 15, "a text block has 15 layout features");
  feature(f, 0, 8, t.at, "a feature tells whether the block contains an @"); feature(f, 0, 9, t.firstDigit, "a feature tells whether the block starts with a digit");
  feature(f, 0, 10, share(t.digits, t.ink), "a feature is the share of digits"); feature(f, 0, 11, share(t.wide, t.ink), "a feature is the share of non-ASCII characters");
  feature(f, 0, 12, share(t.punct, t.ink), "a feature is the share of punctuation"); feature(f, 0, 13, share(upper, n), "a feature is the share of words that start with an uppercase letter"); feature(f, 0, 14, share(t.upper, t.ink), "a feature is the share of uppercase letters");
  sym_reach("done"); for (int i = 8; i < 15; i++) sym_observe_d(f[i]);
}
// the layout features of two blocks
extern "C" void h_roles_layout() {
  unsigned pages = 1 + sym_choice(3, "pages"); auto* d = mk(pages); double W = sym_choice(2, "width") ? 600 : 0, H = sym_choice(2, "height") ? 800 : 0; static const double sizes[] = {8, 10, 12.5};
  double more = sym_choice(2, "pages of different size") ? 200 : 0; auto PW = [&](unsigned pg) { return W > 0 ? W + more * (pg - 1) : 0; }; auto PH = [&](unsigned pg) { return H > 0 ? H + more * (pg - 1) : 0; };
  for (auto* p : d->pages) { p->clipLeftX = 0; p->clipUpperY = 0; p->clipRightX = PW(p->pageNum); p->clipLowerY = PH(p->pageNum); }
  unsigned pg[2], n = 1 + sym_choice(2, "blocks"); Box B[2]; double fs[2]; int weight[2]; bool it[2]; pg[0] = 1;
  for (unsigned i = 0; i < n; i++) {
    pg[i] = (i ? pg[0] : 1) + sym_choice(pages - (i ? pg[0] : 1) + 1, "page"); auto* b = add(d, pg[i], i); B[i] = symBox(0, 1600, 0.5, 0, "b"); place(b, pg[i], B[i]); b->fontSize = fs[i] = sizes[sym_choice(3, "size")];
    weight[i] = sym_int(100, 900, "weight"); it[i] = sym_int(0, 1, "italic"); b->fontName = i ? "G" : "E"; addFont(d, b->fontName.c_str(), weight[i], it[i]);
  }
  cppflow::next_output = cppflow::tensor(vector<float>(n * 14, 0.5f), {(int64_t)n, 14});
  sym_assert(predict(d), "the model is read");
  const vector<float>& f = cppflow::last_layout.f; sym_assert(f.size() == 15 * n && cppflow::last_layout.dims == (vector<int64_t>{(int64_t)n, 15}), "every text block has 15 layout features"); double lo = fs[0], hi = fs[0]; if (n > 1) { lo = fs[1] < lo ? fs[1] : lo; hi = fs[1] > hi ? fs[1] : hi; }
  for (unsigned i = 0; i < n; i++) {
    feature(f, i, 0, pages > 1 ? (pg[i] - 1.) / (pages - 1.) : 0, "a feature is the position of the page in the document");
    feature(f, i, 1, W > 0 ? B[i].l / PW(pg[i]) : 0, "features 2 to 5 are the box relative to the page, from the lower left"); feature(f, i, 2, H > 0 ? (PH(pg[i]) - B[i].d) / PH(pg[i]) : 0, "features 2 to 5 are the box relative to the page, from the lower left");
    feature(f, i, 3, W > 0 ? B[i].r / PW(pg[i]) : 0, "features 2 to 5 are the box relative to the page, from the lower left"); feature(f, i, 4, H > 0 ? (PH(pg[i]) - B[i].u) / PH(pg[i]) : 0, "features 2 to 5 are the box relative to the page, from the lower left");
    feature(f, i, 5, hi > lo ? (fs[i] - lo) / (hi - lo) : 0, "a feature is the font size on the scale from the smallest to the largest");
    feature(f, i, 6, weight[i] > 500 ? 1 : 0, "a feature tells whether the font is bold"); feature(f, i, 7, it[i] ? 1 : 0, "a feature tells whether the font is italic");
  }
  sym_reach(n > 1 ? "two" : "one");
}
// the token ids of every block are those of its own text
extern "C" void h_roles_words() {
  auto* d = mk(2); std::unordered_map<wstring, int> voc; voc.insert(std::make_pair(wstring(L"a"), 0)); voc.insert(std::make_pair(wstring(L"ab"), 1)); voc.insert(std::make_pair(wstring(L"b\u2702"), 2)); vector<string> t; unsigned n = 1 + sym_choice(2, "blocks");
  for (unsigned i = 0; i < n; i++) { auto* b = add(d, 1 + i, i); t.push_back(symStringIn(0, sym_param(0), "ab \xc3\xa4", "c")); sym_assume(t[i].find('\xa4') == string::npos || (t[i].find('\xa4') > 0 && t[i][t[i].find('\xa4') - 1] == '\xc3' && t[i].rfind('\xa4') == t[i].find('\xa4'))); sym_assume((t[i].find('\xc3') == string::npos) == (t[i].find('\xa4') == string::npos) && t[i].rfind('\xc3') == t[i].find('\xc3')); b->text = t[i]; }
  cppflow::next_output = cppflow::tensor(vector<float>(n * 14, 0.5f), {(int64_t)n, 14});
  sym_assert(predict(d), "the model is read");
  std::wstring_convert<std::codecvt_utf8_utf16<wchar_t>> conv; const vector<int>& got = cppflow::last_words.i; sym_assert(got.size() == n * 100 && cppflow::last_words.dims == (vector<int64_t>{(int64_t)n, 100}), "every text block has 100 token ids");
  for (unsigned i = 0; i < n; i++) { ppp::utils::BytePairEncoder e(&voc); vector<int> want; e.encode(conv.from_bytes(t[i]), 100, "", &want); sym_assert(vector<int>(got.begin() + i * 100, got.begin() + (i + 1) * 100) == want, "the token ids of a text block are the encoding of its text"); }
  sym_reach("done");
}
extern "C" void h_roles_vocab() {
  unsigned n = sym_choice(sym_param(0) + 1, "lines"); haveBpe = sym_choice(5, "file") != 0; haveRoles = sym_choice(5, "roles file") != 0; roles = "paragraph\t0\ntitle\t6\n"; bpe = ""; vector<wstring> tok; vector<int> ids;
  for (unsigned i = 0; i < n; i++) {
    int k = sym_choice(4, "line"); if (i) bpe += "\n";
    if (k == 0) { bpe += "junk"; continue; }
    wstring w; if (k == 1) { int c = sym_int(33, 126, "c"); w.push_back((wchar_t)c); bpe += (char)c; } else if (k == 2) { int c = sym_int(0x80, 0x7ff, "u"); w.push_back((wchar_t)c); bpe += (char)(0xc0 | c >> 6); bpe += (char)(0x80 | (c & 63)); } else { w = L"a\u2702"; bpe += "a\xe2\x9c\x82"; }
    bool dup = false; for (auto& o : tok) dup |= o == w; sym_assume(!dup); tok.push_back(w); ids.push_back(7 * i + 3); bpe += "\t"; bpe += std::to_string(7 * i + 3);
  }
  bool nl = sym_choice(2, "final newline"); if (n && nl) bpe += "\n";
  auto* d = mk(1); for (auto& t : tok) { auto* b = add(d, 1, 0); std::wstring_convert<std::codecvt_utf8_utf16<wchar_t>> conv; b->text = conv.to_bytes(t) + "x"; } if (tok.empty()) add(d, 1, 0)->text = "ax"; unsigned nb = d->pages[0]->blocks.size();
  cppflow::next_output = cppflow::tensor(vector<float>(nb * 14, 0.5f), {(int64_t)nb, 14}); bool ok = predict(d);
  sym_assert(ok == (haveBpe && haveRoles), "a missing vocabulary file is reported"); if (!ok) { sym_reach("missing"); return; }
  std::unordered_map<wstring, int> voc; for (size_t i = 0; i < tok.size(); i++) voc.insert(std::make_pair(tok[i], ids[i])); const vector<int>& got = cppflow::last_words.i; sym_assert(got.size() == nb * 100, "every text block has 100 token ids");
  for (unsigned i = 0; i < nb; i++) { ppp::utils::BytePairEncoder e(&voc); vector<int> want; e.encode(i < tok.size() ? tok[i] + L"x" : wstring(L"ax"), 100, "", &want); sym_assert(vector<int>(got.begin() + i * 100, got.begin() + (i + 1) * 100) == want, "every line of the vocabulary file is read"); }
  sym_reach("read");
}
// no prediction if it is disabled, and the role of a text block before any prediction
extern "C" void h_roles_disabled() {
  void* m = ::operator new(sizeof(PdfTextBlock)); for (size_t i = 0; i < sizeof(PdfTextBlock); i++) ((volatile char*)m)[i] = 0x77;
  auto* d = mk(1); auto* b = new (m) PdfTextBlock(); b->fontName = "F"; b->fontSize = 10; place(b, 1, {1, 2, 3, 4}); d->pages[0]->blocks.push_back(b); sym_assert(b->role == SemanticRole::PARAGRAPH, "a text block without predicted role is a paragraph");
  bool off = sym_choice(2, "disabled"); cfg.disabled = off; haveBpe = sym_choice(2, "file"); vector<float> out(14, 0.f); int r = sym_choice(14, "role"); out[r] = 1; cppflow::next_output = cppflow::tensor(out, {1, 14});
  bool ok = predict(d); sym_assert(ok == (off || haveBpe), "no model is read if the prediction is disabled"); if (!ok) return;
  sym_assert(b->role == (off ? SemanticRole::PARAGRAPH : SemanticRole(r)), "roles are predicted exactly if the prediction is not disabled"); sym_reach(off ? "off" : "on");
}
