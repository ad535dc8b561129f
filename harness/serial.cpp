// Dehyphenation of words and the serializers.
#include "doc.h"
#include "WordsDehyphenation.h"
#include "serializers/PlainTextSerializer.h"
#include "serializers/PlainTextExtendedSerializer.h"
#include "serializers/JsonlSerializer.h"
#include "utils/PdfElementsUtils.h"
using namespace ppp::modules; using namespace ppp::config; using namespace ppp::serialization; using std::string; using std::vector; using std::unordered_set;
struct Txt : PlainTextSerializer { using PlainTextSerializer::serializeToStream; };
struct Ext : PlainTextExtendedSerializer { using PlainTextExtendedSerializer::serializeToStream; };
struct Jsl : JsonlSerializer { Jsl() : JsonlSerializer(2) {} using JsonlSerializer::serializeToStream; };
// A document: w = word, / = new line, | = new text block, ; = new page
struct Doc { PdfDocument* d; vector<PdfTextLine*> lines; vector<PdfTextBlock*> blocks; vector<PdfWord*> words; };
static Doc build(const char* shape, unsigned minLen, unsigned maxLen, const char* alphabet) {
  Doc r; r.d = mkDoc(); auto* pg = mkPage(r.d, 1); PdfTextBlock* b = nullptr; PdfTextLine* l = nullptr; int nw = 0, nb = 0, nl = 0, nc = 0;
  for (const char* p = shape; *p; p++) {
    if (*p == ';') { pg = mkPage(r.d, pg->pageNum + 1); b = nullptr; l = nullptr; } else if (*p == '|') { b = nullptr; l = nullptr; }
    else {
      if (!b) { b = mkBlock(r.d, pg->pageNum, {1, 2, 3, 4}, "", nb++); b->isEmphasized = false; b->segment = new PdfPageSegment(); if (!r.blocks.empty()) { b->prevBlock = r.blocks.back(); r.blocks.back()->nextBlock = b; } pg->blocks.push_back(b); r.blocks.push_back(b); l = nullptr; }
      if (!l || *p == '/') { l = mkLine(r.d, pg->pageNum, {1, 2, 3, 4}, "", nl++); l->block = b; l->segment = b->segment; if (!b->lines.empty()) { l->prevLine = b->lines.back(); b->lines.back()->nextLine = l; } b->lines.push_back(l); pg->textLines.push_back(l); r.lines.push_back(l); }
      if (*p == 'w') { string t = symStringIn(minLen, maxLen, alphabet, "text"); auto* w = mkWord(r.d, pg->pageNum, {1, 2, 3, 4}, t, nw++); for (char c : t) { string s(1, c); auto* ch = mkChar(r.d, pg->pageNum, {1, 2, 3, 4}, s, nc++); ch->word = w; w->characters.push_back(ch); pg->characters.push_back(ch); } w->line = l; pg->words.push_back(w); l->words.push_back(w); r.words.push_back(w); }
    }
  }
  return r;
}
static const char* shapes[] = {"w/w/w", "ww/ww", "w//w", "w|w;w", ";w/|ww", "w;;w/w", "", "/"};
// hyph[i]: the index of the word that the i-th word is joined with (-1: none)
static vector<int> joins(const Doc& D) {
  vector<int> r(D.words.size(), -1); vector<PdfTextLine*> ls; for (auto* l : D.lines) if (!l->words.empty()) ls.push_back(l); size_t at = 0;
  for (size_t i = 0; i + 1 < ls.size(); i++) { at += ls[i]->words.size(); const string& t = D.words[at - 1]->text; if (t.size() > 1 && t[t.size() - 1] == '-') r[at - 1] = at; } return r;
}
static WordsDehyphenationConfig hcfg;
static void dehyph(const char* shape, int minLen, int maxLen);
// params: number of characters per word at most
extern "C" void h_dehyph() { dehyph(shapes[sym_choice(8, "shape")], 0, sym_param(0)); }
// a word over more lines, blocks, and pages
extern "C" void h_dehyph_long() { static const char* S[] = {"w/w/w/w/w", "w/w|w;w/w", "w;w;w;w;w", "ww/w//w/ww", "w|;;w|//w/w", "ww|w/w;w/ww"}; dehyph(S[sym_choice(6, "shape")], 2, 2); }
static void dehyph(const char* shape, int minLen, int maxLen) {
  Doc D = build(shape, minLen, maxLen, "a-"); vector<string> before; for (auto* w : D.words) before.push_back(w->text); vector<int> J = joins(D), from(D.words.size(), -1); for (size_t i = 0; i < J.size(); i++) if (J[i] >= 0) from[J[i]] = i;
  { WordsDehyphenation h(D.d, &hcfg); h.process(); }
  for (size_t i = 0; i < D.words.size(); i++) {
    PdfWord* w = D.words[i]; sym_assert(w->text == before[i], "the parts of a hyphenated word keep their texts"); sym_assert((w->isSecondPartOfHyphenatedWord != nullptr) == (from[i] >= 0), "a word is the second part of a hyphenated word exactly if the last word before it in the previous line ends with a hyphen");
    sym_assert((w->isFirstPartOfHyphenatedWord != nullptr) >= (J[i] >= 0), "a word at the end of a line that ends with a hyphen is the first part of a hyphenated word"); if (J[i] < 0) sym_assert(!w->isFirstPartOfHyphenatedWord, "no other word is the first part of a hyphenated word");
    if (J[i] >= 0) sym_assert(w->isFirstPartOfHyphenatedWord == D.words[J[i]]->isSecondPartOfHyphenatedWord, "both parts of a hyphenated word refer to the same word");
    if (J[i] >= 0 && from[i] < 0) { // the start of a word: its text is that of all of its parts without the hyphens between them
      string t = before[i]; size_t k = i; while (J[k] >= 0) { k = J[k]; t.pop_back(); t += before[k]; } sym_assert(w->isFirstPartOfHyphenatedWord->text == t, "the text of a hyphenated word is that of its parts without the hyphens between them"); sym_assert(w->isFirstPartOfHyphenatedWord->doc == D.d, "a hyphenated word belongs to the document"); sym_reach(k - i > 1 && J[J[i]] >= 0 ? "chain" : "joined");
    }
  }
  sym_reach("done");
}
// what a word is written as: its characters, with marks merged into their bases
static string written(PdfWord* w) { string t; for (auto* c : w->characters) if (c->isBaseCharOfDiacriticMark) t += c->textWithDiacriticMark; else if (!c->isDiacriticMarkOfBaseChar) t += c->text; return t; }
static string blockText(const Doc& D, size_t b, const vector<int>& sel) {
  vector<int> J = joins(D), from(D.words.size(), -1); for (size_t i = 0; i < J.size(); i++) if (J[i] >= 0) from[J[i]] = i;
  vector<int> blk(D.words.size()); for (size_t i = 0; i < D.words.size(); i++) for (size_t k = 0; k < D.blocks.size(); k++) for (auto* l : D.blocks[k]->lines) for (auto* w : l->words) if (w == D.words[i]) blk[i] = k;
  string t; bool first = true;
  for (size_t i = 0; i < D.words.size(); i++) {
    if (blk[i] != (int)b) continue; size_t h = i; while (from[h] >= 0) h = from[h];
    if (h != i && sel[blk[h]]) continue;   // written as part of the word that starts further up
    if (!first) t += " "; first = false;
    if (h == i && J[i] >= 0) { string x = D.words[i]->text; size_t k = i; while (J[k] >= 0) { k = J[k]; x.pop_back(); x += D.words[k]->text; } t += x; } else t += written(D.words[i]);
  }
  return t;
}
static const SemanticRole someRoles[] = {SemanticRole::PARAGRAPH, SemanticRole::TITLE};
// params: characters per word, 0: all roles, 1: a filter, 2: no filter
static unordered_set<SemanticRole> filter(Doc& D, int how, vector<int>* sel) {
  unordered_set<SemanticRole> roles; if (how == 0) for (auto r : ppp::utils::elements::getSemanticRoles()) roles.insert(r); if (how == 1) roles.insert(SemanticRole::PARAGRAPH);
  for (auto* b : D.blocks) { int r = how == 1 ? sym_choice(2, "role") : 0; b->role = someRoles[r]; sel->push_back(!r); } return roles;
}
extern "C" void h_txt() {
  int how = sym_param(1); Doc D = build(shapes[sym_choice(8, "shape")], 1, sym_param(0), "a-"); vector<int> sel; auto roles = filter(D, how, &sel); WordsDehyphenation(D.d, &hcfg).process();
  std::ostringstream out; Txt().serializeToStream(D.d, roles, {}, out); string want; bool any = false;
  for (size_t b = 0; b < D.blocks.size(); b++) if (sel[b]) { if (any) want += "\n\n"; any = true; want += blockText(D, b, sel); } want += "\n"; string got = out.str(); observe(got);
  sym_assert(got.size() == want.size() && got == want, "plain text: the words of the selected blocks, separated by blanks, blocks separated by empty lines, hyphenated words joined"); sym_reach(any ? "text" : "empty");
}
extern "C" void h_ext() {
  int how = sym_param(1); Doc D = build(shapes[sym_choice(8, "shape")], 1, sym_param(0), "a-"); vector<int> sel; auto roles = filter(D, how, &sel); for (auto* b : D.blocks) b->isEmphasized = sym_choice(2, "emphasized"); WordsDehyphenation(D.d, &hcfg).process();
  std::ostringstream out; Ext().serializeToStream(D.d, roles, {}, out); string want; bool any = false; size_t b = 0;
  for (auto* pg : D.d->pages) { for (size_t k = 0; k < pg->blocks.size(); k++, b++) if (sel[b]) { if (any) want += "\n\n"; any = true; want += "[PARAGRAPH] "; if (D.blocks[b]->isEmphasized) want += '\x01'; want += blockText(D, b, sel); } want += "\n\f"; } want += "\n"; string got = out.str(); observe(got);
  sym_assert(got.size() == want.size() && got == want, "extended text: each selected block with its role and emphasis, each page ended by a form feed"); sym_reach(any ? "text" : "empty");
}
// every role is written by its name, in capital letters
extern "C" void h_ext_roles() {
  Doc D = build("w", 1, 1, "ab"); auto all = ppp::utils::elements::getSemanticRoles(); SemanticRole r = all[sym_choice(all.size(), "role")]; D.blocks[0]->role = r; D.blocks[0]->isEmphasized = false; std::ostringstream out; Ext().serializeToStream(D.d, {r}, {}, out);
  string name = ppp::utils::elements::getSemanticRoleName(r), want = "["; for (char c : name) want += c >= 'a' && c <= 'z' ? (char)(c - 32) : c; want += "] " + D.words[0]->text + "\n\f\n"; sym_assert(out.str() == want, "a block is prefixed by its role"); sym_reach("done");
}
// characters with diacritic marks, any bytes: params: 0: plain, 1: extended
extern "C" void h_marks() {
  PdfDocument* d = mkDoc(); auto* pg = mkPage(d, 1); auto* b = mkBlock(d, 1, {1, 2, 3, 4}, "", 0); b->isEmphasized = false; pg->blocks.push_back(b); auto* l = mkLine(d, 1, {1, 2, 3, 4}, "", 0); b->lines.push_back(l); auto* w = mkWord(d, 1, {1, 2, 3, 4}, "?", 0); l->words.push_back(w); string want;
  vector<PdfCharacter*> cs; for (int i = 0; i < 3; i++) { auto* c = mkChar(d, 1, {1, 2, 3, 4}, symString(1, "char"), i); cs.push_back(c); w->characters.push_back(c); }
  int base = sym_choice(4, "base"), mark = (base + 1 + sym_choice(2, "mark")) % 3; if (base < 3) { cs[base]->isBaseCharOfDiacriticMark = cs[mark]; cs[mark]->isDiacriticMarkOfBaseChar = cs[base]; cs[base]->textWithDiacriticMark = symString(2, "composed"); }
  for (int i = 0; i < 3; i++) if (i == base) want += cs[i]->textWithDiacriticMark; else if (base == 3 || i != mark) want += cs[i]->text;
  std::ostringstream out; if (sym_param(0)) { Ext().serializeToStream(d, {SemanticRole::PARAGRAPH}, {}, out); want = "[PARAGRAPH] " + want + "\n\f\n"; } else { Txt().serializeToStream(d, {SemanticRole::PARAGRAPH}, {}, out); want += "\n"; }
  string got = out.str(); sym_assert(got.size() == want.size() && got == want, "a word is written as its characters, marks merged into their base characters"); sym_reach("done");
}
// --- JSONL: a small JSON reader, and every value compared with what the document says
struct Val { int kind; string s; double n; vector<double> a; };   // 0 string, 1 number, 2 bool, 3 array
struct Obj { vector<string> k; vector<Val> v; const Val* get(const char* key) const { for (size_t i = 0; i < k.size(); i++) if (k[i] == key) return &v[i]; return nullptr; } };
struct Json {
  const string& s; size_t p = 0; bool ok = true; explicit Json(const string& t) : s(t) {}
  char at() { return p < s.size() ? s[p] : '\0'; } void ws() { while (p < s.size() && s[p] == ' ') p++; } bool eat(char c) { if (p < s.size() && s[p] == c) { p++; return true; } return ok = false; }
  string str() {
    string r; if (!eat('"')) return r;
    while (ok) { if (p >= s.size()) { ok = false; break; } unsigned char c = s[p++]; if (c == '"') break; if (c < 32) { ok = false; break; } if (c != '\\') { r += (char)c; continue; }
      char e = at(); p++; if (e == 'n') r += '\n'; else if (e == 't') r += '\t'; else if (e == 'r') r += '\r'; else if (e == 'b') r += '\b'; else if (e == 'f') r += '\f'; else if (e == '"' || e == '\\' || e == '/') r += e; else if (e == 'u') { int x = 0; for (int i = 0; i < 4; i++) { char h = at(); p++; if (h >= '0' && h <= '9') x = 16 * x + (h - '0'); else if (h >= 'a' && h <= 'f') x = 16 * x + (h - 'a' + 10); else if (h >= 'A' && h <= 'F') x = 16 * x + (h - 'A' + 10); else ok = false; } if (x > 127) ok = false; r += (char)x; } else ok = false; }
    return r;
  }
  double num() { bool neg = false; if (at() == '-') { neg = true; p++; } if (!(at() >= '0' && at() <= '9')) { ok = false; return 0; } double r = 0, f = 1; while (at() >= '0' && at() <= '9') r = 10 * r + (s[p++] - '0'); if (at() == '.') { p++; if (!(at() >= '0' && at() <= '9')) ok = false; while (at() >= '0' && at() <= '9') { f /= 10; r += f * (s[p++] - '0'); } } if (at() == 'e') { p++; bool en = at() == '-'; if (en || at() == '+') p++; int x = 0; if (!(at() >= '0' && at() <= '9')) ok = false; while (at() >= '0' && at() <= '9') x = 10 * x + (s[p++] - '0'); while (x-- > 0) r = en ? r / 10 : r * 10; } return neg ? -r : r; }
  Val val() { Val v{1, "", 0, {}}; ws(); if (at() == '"') { v.kind = 0; v.s = str(); } else if (at() == 't' || at() == 'f') { v.kind = 2; string w = at() == 't' ? "true" : "false"; for (char c : w) eat(c); v.n = w.size() == 4; } else if (at() == '[') { v.kind = 3; p++; do { ws(); v.a.push_back(num()); ws(); } while (ok && at() == ',' && ++p); eat(']'); } else v.n = num(); ws(); return v; }
  Obj obj() { Obj o; ws(); eat('{'); do { ws(); o.k.push_back(str()); ws(); eat(':'); o.v.push_back(val()); } while (ok && at() == ',' && ++p); eat('}'); ws(); if (p != s.size()) ok = false; return o; }
};
static vector<Obj> parse(const string& t) {
  vector<Obj> r; string line; for (size_t i = 0; i < t.size(); i++) { if (t[i] != '\n') { line += t[i]; continue; } Json j(line); Obj o = j.obj(); sym_assert(j.ok, "every line of the output is a JSON object"); if (!j.ok) sym_stop(); r.push_back(o); line.clear(); } sym_assert(line.empty(), "every object ends with a newline"); return r;
}
static void hasStr(const Obj& o, const char* k, const string& want) { const Val* v = o.get(k); string m = string("the ") + k + " of an entry is that of its element"; sym_assert(v && v->kind == 0 && v->s.size() == want.size() && v->s == want, m.c_str()); }
static void hasNum(const Obj& o, const char* k, double want, double tol = 0) { const Val* v = o.get(k); string m = string("the ") + k + " of an entry is that of its element"; sym_assert(v && v->kind == 1 && v->n - want <= tol && want - v->n <= tol, m.c_str()); }
static void hasPos(const Obj& o, PdfElement* e) { hasNum(o, "page", e->pos->pageNum); hasNum(o, "minX", e->pos->leftX, 0.005); hasNum(o, "minY", e->pos->upperY, 0.005); hasNum(o, "maxX", e->pos->rightX, 0.005); hasNum(o, "maxY", e->pos->lowerY, 0.005); hasStr(o, "id", e->id); hasNum(o, "rank", e->rank); hasStr(o, "origin", "pdftotext++"); }
// a page with two blocks; any: 1 if the font name, 2 if the text is any bytes
static PdfDocument* jdoc(int any, vector<PdfTextBlock*>* bs, const Box& box, unordered_set<SemanticRole>* roles) {
  PdfDocument* d = mkDoc(); auto* pg = mkPage(d, 1); mkPage(d, 2); string font = any == 1 ? symString(1, "font") : string("F"); if (any == 1) font += "x"; d->fontInfos[font] = addFont(d, "G", 700, true); int how = sym_choice(2, "filter"); if (how) roles->insert(SemanticRole::TITLE); else for (auto r : ppp::utils::elements::getSemanticRoles()) roles->insert(r);
  for (int i = 0; i < 2; i++) {
    auto* b = mkBlock(d, 1, box, i ? "b" : any == 2 ? symString(2, "text") : "a b", i); b->fontName = font; b->role = (any ? i : sym_choice(2, "role")) ? SemanticRole::TITLE : SemanticRole::FOOTNOTE; pg->blocks.push_back(b); bs->push_back(b); auto* l = mkLine(d, 1, box, "", i); b->lines.push_back(l);
    for (int k = 0; k < 2 - i; k++) { auto* w = mkWord(d, 1, box, k ? "b" : b->text, 2 * i + k, 0, 9.5, "x"); w->fontName = font; l->words.push_back(w); auto* c = mkChar(d, 1, box, b->text, 2 * i + k, 1, 12); c->fontName = font; c->opacity = 0.5; c->color[1] = 1; w->characters.push_back(c); }
  }
  for (int i = 0; i < 2; i++) { auto* f = new PdfFigure(); place(f, 1, box); f->id = num("f", i); f->rank = -1; pg->figures.push_back(f); auto* s = new PdfShape(); place(s, 1, box); s->id = num("s", i); s->rank = i; pg->shapes.push_back(s); } return d;
}
extern "C" void h_jsonl() {
  int any = sym_param(0); vector<PdfTextBlock*> bs; Box box{12.25, -7.5, 130.125, 44}; unordered_set<SemanticRole> roles; PdfDocument* d = jdoc(any, &bs, box, &roles); PdfElementType types[] = {PdfElementType::PAGES, PdfElementType::CHARACTERS, PdfElementType::WORDS, PdfElementType::TEXT_BLOCKS, PdfElementType::FIGURES, PdfElementType::SHAPES}; int t = any ? 1 + sym_choice(3, "type") : sym_choice(6, "type");
  if (any) { auto& c = *bs[0]->lines[0]->words[0]->characters[0]; auto& m = *bs[0]->lines[0]->words[1]->characters[0]; if (sym_choice(2, "mark")) { c.isBaseCharOfDiacriticMark = &m; m.isDiacriticMarkOfBaseChar = &c; c.textWithDiacriticMark = "xy"; } }
  std::ostringstream out; Jsl().serializeToStream(d, roles, {types[t]}, out); vector<Obj> O = parse(out.str()); size_t at = 0; auto next = [&]() -> const Obj& { sym_assert(at < O.size(), "there is an entry for every selected element"); return O[at++]; };
  if (t == 0) for (auto* p : d->pages) { const Obj& o = next(); hasStr(o, "type", "page"); hasNum(o, "num", p->pageNum); hasNum(o, "width", 600); hasNum(o, "height", 800); }
  if (t >= 1 && t <= 3) for (auto* b : bs) if (roles.count(b->role)) {
    if (t == 3) { const Obj& o = next(); hasPos(o, b); hasStr(o, "type", "block"); hasStr(o, "font", b->fontName); hasNum(o, "fontSize", 10); hasStr(o, "text", b->text); hasStr(o, "role", ppp::utils::elements::getSemanticRoleName(b->role)); sym_reach("block"); }
    else for (auto* w : b->lines[0]->words) {
      if (t == 2) { const Obj& o = next(); hasPos(o, w); hasStr(o, "type", "word"); hasStr(o, "font", w->fontName); hasNum(o, "fontSize", 9.5); hasStr(o, "text", w->text); hasStr(o, "block", b->id); sym_reach("word"); continue; }
      auto* c = w->characters[0]; if (c->isDiacriticMarkOfBaseChar) continue; const Obj& o = next(); hasPos(o, c); hasStr(o, "type", "char"); hasStr(o, "font", c->fontName); hasNum(o, "fontSize", 12); hasStr(o, "text", c->isBaseCharOfDiacriticMark ? "xy" : c->text); hasStr(o, "block", b->id); hasStr(o, "word", w->id);
      hasNum(o, "rotation", 1); hasNum(o, "wMode", 0); hasNum(o, "weight", d->fontInfos[c->fontName]->weight); hasNum(o, "opacity", 0.5); const Val *it = o.get("italic"), *t3 = o.get("type-3"), *col = o.get("color"); sym_assert(it && it->kind == 2 && it->n == (d->fontInfos[c->fontName]->isItalic ? 1 : 0) && t3 && t3->kind == 2 && t3->n == 0, "the style of a character is that of its font"); sym_assert(col && col->a.size() == 3 && col->a[0] == 0 && col->a[1] == 1 && col->a[2] == 0, "the color of an entry is that of its element"); sym_reach("char");
    }
  }
  if (t == 4) for (auto* f : d->pages[0]->figures) { const Obj& o = next(); hasPos(o, f); hasStr(o, "type", "figure"); } if (t == 5) for (auto* s : d->pages[0]->shapes) { const Obj& o = next(); hasPos(o, s); hasStr(o, "type", "shape"); }
  sym_assert(at == O.size(), "there is no entry but those of the selected elements"); sym_reach("done");
}
// several types at once: the entries of each of them
extern "C" void h_jsonl_types() {
  vector<PdfTextBlock*> bs; unordered_set<SemanticRole> roles; PdfDocument* d = jdoc(false, &bs, {1, 2, 3, 4}, &roles); PdfElementType types[] = {PdfElementType::PAGES, PdfElementType::CHARACTERS, PdfElementType::WORDS, PdfElementType::TEXT_BLOCKS, PdfElementType::FIGURES, PdfElementType::SHAPES}; const char* names[] = {"page", "char", "word", "block", "figure", "shape"}; unordered_set<PdfElementType> u; int use[6];
  for (int i = 0; i < 6; i++) if ((use[i] = sym_choice(2, "use"))) u.insert(types[i]); std::ostringstream out; Jsl().serializeToStream(d, roles, u, out); int nb = 0, nw = 0; for (size_t i = 0; i < 2; i++) if (roles.count(bs[i]->role)) { nb++; nw += 2 - i; } int want[] = {2, nw, nw, nb, 2, 2}, got[6] = {};
  for (auto& o : parse(out.str())) { const Val* v = o.get("type"); for (int i = 0; i < 6; i++) if (v && v->s == names[i]) got[i]++; } for (int i = 0; i < 6; i++) sym_assert(got[i] == (use[i] ? want[i] : 0), "there are entries exactly for the selected types"); sym_reach("done");
}
// pages with several elements of every kind, on any of them one with a long text of which one character is an arbitrary byte; param: pages
extern "C" void h_jsonl_many() {
  int n = sym_param(0); PdfDocument* d = mkDoc(); addFont(d, "long font name \"x\"", 300, true); string text = "a long \"text\\ with \t many"; string any = symString(1, "text"); int at = sym_choice(3, "place") * 8, where = sym_choice(2, "element") * (2 * n - 1); text.insert(at, any); vector<vector<PdfElement*>> E(6); int id = 0; PdfElementType types[] = {PdfElementType::PAGES, PdfElementType::CHARACTERS, PdfElementType::WORDS, PdfElementType::TEXT_BLOCKS, PdfElementType::FIGURES, PdfElementType::SHAPES}; const char* names[] = {"page", "char", "word", "block", "figure", "shape"};
  for (int p = 1; p <= n; p++) {
    auto* pg = mkPage(d, p); Box box{1. * p, 2.5, 30.25 + p, 44}; auto mk = [&](PdfElement* e, int k) { place(e, p, box); e->id = num("e", id); e->rank = id++; E[k].push_back(e); box.l += 1; box.d += 2; };
    for (int i = 0; i < (p == n ? 1 : 2) + p % 2; i++) { auto* f = new PdfFigure(); mk(f, 4); pg->figures.push_back(f); } for (int i = 0; i < 1 + p; i++) { auto* f = new PdfShape(); mk(f, 5); pg->shapes.push_back(f); }
    for (int i = 0; i < 2; i++) { auto* b = mkBlock(d, p, box, where == 2 * (p - 1) + i ? text : "b", 0); mk(b, 3); b->role = i ? SemanticRole::HEADING : SemanticRole::PARAGRAPH; b->fontName = i ? "F" : "long font name \"x\""; pg->blocks.push_back(b);
      for (int k = 0; k < 1 + (p + i) % 3; k++) { auto* l = mkLine(d, p, box, "", k); b->lines.push_back(l); for (int q = 0; q < 1 + k; q++) { auto* w = mkWord(d, p, box, q == i ? b->text : "w", 0); mk(w, 2); l->words.push_back(w); for (int r = 0; r < 1 + q; r++) { auto* c = mkChar(d, p, box, r == 0 ? w->text : "c", 0); mk(c, 1); c->fontName = b->fontName; w->characters.push_back(c); } } } }
  }
  int t = 1 + sym_choice(5, "type"); unordered_set<SemanticRole> roles; for (auto r : ppp::utils::elements::getSemanticRoles()) roles.insert(r); std::ostringstream out; Jsl().serializeToStream(d, roles, {types[t]}, out); vector<Obj> O = parse(out.str()); sym_assert(O.size() == E[t].size(), "there is an entry for every selected element");
  for (size_t i = 0; i < O.size(); i++) { hasPos(O[i], E[t][i]); hasStr(O[i], "type", names[t]); if (t == 3) hasStr(O[i], "text", ((PdfTextBlock*)E[t][i])->text); if (t == 2) hasStr(O[i], "text", ((PdfWord*)E[t][i])->text); if (t == 1) hasStr(O[i], "text", ((PdfCharacter*)E[t][i])->text); if (t < 4) hasStr(O[i], "font", ((PdfTextElement*)E[t][i])->fontName); } sym_reach("done");
}
// coordinates have the requested number of decimals
extern "C" void h_jsonl_precision() {
  double xs[] = {0.125, 12.0625, 1234.5, 1234.0625, -1234.1875, 98765.4375}; double x = xs[sym_choice(6, "x")]; vector<PdfTextBlock*> bs; unordered_set<SemanticRole> roles; PdfDocument* d = jdoc(false, &bs, {x, 2, x + 1, 4}, &roles); struct P : JsonlSerializer { explicit P(size_t p) : JsonlSerializer(p) {} using JsonlSerializer::serializeToStream; }; int p = 1 + sym_choice(2, "precision");
  std::ostringstream out; P(p).serializeToStream(d, roles, {PdfElementType::FIGURES}, out); string t = out.str(); size_t k = t.find("\"minX\": ") + 8, e = t.find(",", k); string s = t.substr(k, e - k); size_t dot = s.find('.'); sym_assert(dot == string::npos || s.size() - dot - 1 <= (size_t)p, "coordinates have at most the given number of decimals"); Json j(s); double v = j.num(), tol = p == 1 ? 0.0501 : 0.00501; sym_assert(j.ok && v - x <= tol && x - v <= tol, "coordinates are precise to the given number of decimals"); sym_reach("done");
}
