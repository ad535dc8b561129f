#include "any.cpp"
#include "heap.h"
// whoever deletes a document has all the memory back that was used for recognizing its text, and gets each part of it back once
static void once() { begin(); delete theDoc->fontInfos["F"]; theDoc->fontInfos.clear(); draw = drawScene; process(); delete theDoc; theDoc = nullptr; vector<PdfCharacter*>().swap(chars); }
extern "C" void h_own() { anyScene(P(0)); once(); long before = sym_heap_live(); once(); same(before); }
extern "C" void h_own_any() {
  n = P(0); nPages = 1; for (int i = 0; i < n; i++) kinds[i] = sym_choice(14, "kind"); chooseAny(); long before = 0; for (int i = 0; i < 2; i++) { before = sym_heap_live(); begin(); draw = drawAny; process(); delete theDoc; vector<PdfCharacter*>().swap(chars); } same(before);
}
// lines of one word each, each with or without a hyphen, over pages, too
extern "C" void h_own_hyphen() {
  scene.clear(); int lines = P(0); nPages = 2; double y = 100; bool over = sym_choice(2, "page"); for (int i = 0; i < lines; i++) { bool hyphen = sym_choice(2, "hyphen"), two = sym_choice(2, "words"); int page = over && 2 * i >= lines ? 2 : 1; vector<string> w; if (two) w.push_back("of"); w.push_back(hyphen ? "word-" : "word"); add(page, w, 60, y); y += 12; }
  once(); long before = sym_heap_live(); once(); same(before);
}
// a symbol with others above and below it, and marks on or near characters
extern "C" void h_own_stacked() {
  scene.clear(); nPages = 1; add(1, {"ab"}, 60, 120); scene.push_back({1, "\xe2\x88\x91", 80, 118, 12, 14, 0, "F", 0}); double x = sym_grid(0, P(0), 2, "x") + 76, y = sym_grid(0, 6, 4, "y") + 104; scene.push_back({1, "i", x, y, 4, 7, 0, "F", 0}); double y2 = sym_grid(0, 3, 3, "below") + 130; scene.push_back({1, "n", 84, y2, 4, 7, 0, "F", 0}); add(1, {"cd"}, 100, 120); int m = sym_choice(3, "mark"); if (m) scene.push_back({1, "\xcc\x81", m == 1 ? 60. : 150., 118, 4, 4, 0, "F", 0});
  once(); long before = sym_heap_live(); once(); same(before);
}
