#include "encode.cpp"
#include "heap.h"
// what encoding a text takes is given back; an encoder keeps the words it knows until it is deleted
static void run(const Voc& v, const wstring& w, int target) { BytePairEncoder e(&const_cast<Voc&>(v).m); vector<int> got; e.encode(w, target, "", &got); e.encode(w + L" " + w.substr(w.size() / 2), target, "", &got); }
extern "C" void h_own_encode() {
  static const wchar_t* vocs[][5] = {{L"ab", L"abab", L"ba", L"a", L"b"}, {L"aa", L"b", L"aab", L"a\u2702", L"bb"}, {L"a", L"b\u2702", L"bb", L"aba", L"ab"}, {L"a", L"b", L"aabb", L"bbb", L"abb"}};
  unsigned n = sym_param(0), k = sym_choice(4, "vocabulary"); Voc v; for (auto* w : vocs[k]) { v.m.insert(std::make_pair(wstring(w), (int)v.e.size())); v.e.push_back(w); }
  wstring w; unsigned len = sym_choice(n + 1, "length"); for (unsigned i = 0; i < len; i++) { int c = sym_choice(2, "letter"); w.push_back(c ? L'b' : L'a'); } int target = sym_choice(3, "target") * 3;
  run(v, w, target); long before = sym_heap_live(); run(v, w, target); same(before);
}
