// Byte pair encoding of texts (utils/BytePairEncoder).
#include "h.h"
#define private public
#include "utils/BytePairEncoder.h"
#undef private
using ppp::utils::BytePairEncoder; using std::string; using std::vector; using std::wstring;
static bool blank(wchar_t c) { return (c == L' ') | (c == L'\t') | (c == L'\n') | (c == L'\r') | (c == L'\f') | (c == L'\v'); }
static wchar_t symWide(const char* name) {
  int c = sym_int(1, 0x10ffff, name); sym_assume((c != 0x229b) & (c != 0x233e) & (c != 0x2702)); return (wchar_t)c; // not one of the three meta symbols
}
struct Voc { vector<wstring> e; std::unordered_map<wstring, int> m; };
// up to n different tokens of up to l characters, with the ids 0, 1, ..
static void mkVoc(Voc* v, unsigned n, unsigned l, bool delims) {
  unsigned k = sym_choice(n + 1, "vocabulary size");
  for (unsigned i = 0; i < k; i++) {
    wstring w; unsigned len = 1 + sym_choice(l, "token length"); for (unsigned j = 0; j < len; j++) w.push_back(symWide("v"));
    if (delims && sym_choice(2, "end of word")) w.push_back(L'\u2702');
    for (auto& o : v->e) sym_assume(o != w);
    v->e.push_back(w); v->m.insert(std::make_pair(w, (int)i));
  }
}
static int idOf(const Voc& v, const wstring& w) { for (size_t i = 0; i < v.e.size(); i++) if (v.e[i] == w) return (int)i; return -1; }
// the encoding as documented: merge all occurrences of the first pair that is in the vocabulary, until there is none
static vector<int> ref(const Voc& v, const wstring& word) {
  vector<wstring> t; for (wchar_t c : word) t.push_back(wstring(1, c));
  for (;;) {
    wstring pair; for (size_t i = 0; i + 1 < t.size() && pair.empty(); i++) if (idOf(v, t[i] + t[i + 1]) >= 0) pair = t[i] + t[i + 1];
    if (pair.empty()) break;
    vector<wstring> u; for (size_t i = 0; i < t.size();) { if (i + 1 < t.size() && t[i] + t[i + 1] == pair) { u.push_back(pair); i += 2; } else u.push_back(t[i++]); }
    t = u;
  }
  vector<int> r; int n = v.e.size();
  for (auto& x : t) { int id = idOf(v, x); r.push_back(id >= 0 ? id : x == L"\u2702" ? n + 2 : n + 1); }
  return r;
}
static wstring symText(unsigned n) { wstring t; unsigned k = sym_choice(n + 1, "len"); for (unsigned i = 0; i < k; i++) t.push_back(symWide("t")); return t; }
extern "C" void h_encode_word() {
  Voc v; mkVoc(&v, sym_param(1), 2, true);
  wstring w; unsigned k = 1 + sym_choice(sym_param(0), "len"); for (unsigned i = 0; i < k; i++) { wchar_t c = symWide("t"); sym_assume(!blank(c)); w.push_back(c); }
  BytePairEncoder e(&v.m); vector<int> got; e.encode(w, 0, "", &got);
  sym_assert(got == ref(v, w + L"\u2702"), "a word is encoded by merging the first pair of the vocabulary over and over, with an end-of-word token");
  vector<int> again; e.encode(w, 0, "", &again); sym_assert(again == got, "a word is encoded the same way every time");
  sym_reach("done"); for (int x : got) sym_observe_i(x);
}
extern "C" void h_encode_text() {
  Voc v; mkVoc(&v, 1, 1, true); wstring t = symText(sym_param(0)); unsigned target = sym_choice(6, "target");
  BytePairEncoder e(&v.m); vector<int> got; e.encode(t, target, "", &got);
  vector<int> want; wstring w;
  for (size_t i = 0; i <= t.size(); i++) { if (i < t.size() && !blank(t[i])) { w.push_back(t[i]); continue; } if (!w.empty()) for (int x : ref(v, w + L"\u2702")) want.push_back(x); w.clear(); }
  if (target) while (want.size() < target) want.push_back(v.e.size());
  if (target) while (want.size() > target) want.pop_back();
  sym_assert(got.size() == want.size(), target ? "an encoding has exactly the requested length" : "an encoding has one token per merged piece");
  sym_assert(got == want, "a text is encoded word by word, then padded or cut");
  sym_reach(target ? "target" : "all"); for (int x : got) sym_observe_i(x);
}
// long words over two letters with fixed vocabularies; params: letters of the word, 1 for two words
extern "C" void h_encode_long() {
  static const wchar_t* vocs[][5] = {{L"ab", L"abab", L"ba", L"a", L"b"}, {L"aa", L"b", L"aab", L"a\u2702", L"bb"}, {L"a", L"b\u2702", L"bb", L"aba", L"ab"}, {L"a", L"b", L"aabb", L"bbb", L"abb"}};
  unsigned n = sym_param(0), k = sym_choice(4, "vocabulary"); Voc v; for (auto* w : vocs[k]) { v.m.insert(std::make_pair(wstring(w), (int)v.e.size())); v.e.push_back(w); }
  wstring w; for (unsigned i = 0; i < n; i++) { int c = sym_choice(2, "letter"); w.push_back(c ? L'b' : L'a'); }
  BytePairEncoder e(&v.m); vector<int> got; e.encode(w, 0, "", &got); sym_assert(got == ref(v, w + L"\u2702"), "a word is encoded by merging the first pair of the vocabulary over and over, with an end-of-word token");
  unsigned target = sym_choice(3, "target") * n; wstring text = w + L" \t" + w.substr(n / 2) + L"\n"; vector<int> want = ref(v, w + L"\u2702"), two = ref(v, w.substr(n / 2) + L"\u2702"), all; want.insert(want.end(), two.begin(), two.end());
  if (target) while (want.size() < target) want.push_back(v.e.size());
  if (target) while (want.size() > target) want.pop_back();
  e.encode(text, target, "", &all); sym_assert(all == want, "a text is encoded word by word, then padded or cut"); sym_reach("done"); for (int x : all) sym_observe_i(x);
}
