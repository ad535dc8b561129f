// Embedded Type 1 fonts: glyph programs, the encryption, the two portions of a font file.
#include "h.h"
#include <algorithm>
#include <array>
#include <atomic>
#include <functional>
#include <iostream>
#include <memory>
#include <mutex>
#include <optional>
#include <regex>
#include <set>
#include <sstream>
#include <string_view>
#include <tuple>
#include <unordered_map>
#include <cstring>
#define private public
#define protected public
#include <poppler/GfxFont.h>
#include <poppler/Dict.h>
#include <poppler/Stream.h>
#include <poppler/Error.h>
#include "utils/PdfFontInfoParser.h"
#undef private
#undef protected
using namespace ppp::utils::fonts; using ppp::types::PdfFontInfo; using std::string; using std::vector; using std::unordered_map;

// --- stand-ins for the parts of Poppler the parser calls
static string fileData; static int fileLength1 = 0, fileLength2 = 0; static bool fileIsStream = true, length1IsInt = true, length2IsInt = true; static size_t filePos;
struct FileStream2 : Stream {
  StreamKind getKind() const override { return strWeird; } void reset() override { filePos = 0; } int getChar() override { return filePos < fileData.size() ? (unsigned char)fileData[filePos++] : EOF; } int lookChar() override { return filePos < fileData.size() ? (unsigned char)fileData[filePos] : EOF; }
  int getUnfilteredChar() override { return getChar(); } void unfilteredReset() override { filePos = 0; } Goffset getPos() override { return filePos; } void setPos(Goffset p, int) override { filePos = p; } bool isBinary(bool) const override { return true; } BaseStream* getBaseStream() override { return nullptr; } Stream* getUndecodedStream() override { return this; } Dict* getDict() override { static long dict[64]; return (Dict*)dict; } Object* getDictObject() override { return nullptr; }
};
Stream::Stream() {} Stream::~Stream() {} void Stream::close() {} int Stream::getRawChar() { return EOF; } void Stream::getRawChars(int, int*) {} char* Stream::getLine(char*, int) { return nullptr; } unsigned int Stream::discardChars(unsigned int) { return 0; } GooString* Stream::getPSFilter(int, const char*) { return nullptr; } int Stream::getChars(int, unsigned char*) { return 0; }
void Object::free() { type = objNone; } Object Object::fetch(XRef*, int) const { static FileStream2* s = new FileStream2(); return fileIsStream ? Object((Stream*)s) : Object(objNull); }
Object Dict::lookup(const char* key, int) const { string k = key; if (k == "Length1" && length1IsInt) return Object(fileLength1); if (k == "Length2" && length2IsInt) return Object(fileLength2); return Object(objNull); }
void error(ErrorCategory, Goffset, const char*, ...) {}
GooString* GooString::lowerCase() { for (size_t i = 0; i < size(); i++) (*this)[i] = (*this)[i] >= 'A' && (*this)[i] <= 'Z' ? (*this)[i] + 32 : (*this)[i]; return this; }
static bool locOk; static GfxFontLocType locType; static GfxFontType locFont;
std::optional<GfxFontLoc> GfxFont::locateFont(XRef*, class PSOutputDev*, GooString*) { if (!locOk) return std::nullopt; GfxFontLoc l; l.locType = locType; l.fontType = locFont; l.embFontID = Ref{7, 0}; return l; }
GfxFontLoc::GfxFontLoc() {} GfxFontLoc::GfxFontLoc(GfxFontLoc&& o) noexcept : locType(o.locType), fontType(o.fontType), embFontID(o.embFontID) {} GfxFontLoc::~GfxFontLoc() {}
GfxFont::GfxFont(const char*, Ref, std::optional<string>&& n, GfxFontType t, Ref) : tag("t"), id{1, 0}, name(n), family(nullptr), stretch(StretchNotDefined), weight(WeightNotDefined), type(t), flags(0), embFontName(nullptr), embFontID{1, 0}, missingWidth(0), ascent(0), descent(0), ok(true), hasToUnicode(false) {} GfxFont::~GfxFont() {}
struct AnyFont : GfxFont { AnyFont(std::optional<string> n, GfxFontType t) : GfxFont("", Ref{1, 0}, std::move(n), t, Ref{1, 0}) {} const CharCodeToUnicode* getToUnicode() const override { return nullptr; } int getNextChar(const char*, int, CharCode*, Unicode const**, int*, double*, double*, double*, double*) const override { return 0; } };
static GfxState* newState() { GfxState* s = (GfxState*)calloc(1, sizeof(GfxState)); new (&s->font) std::shared_ptr<GfxFont>(); return s; }
// --- the Type 1 charstring language, from its specification
static int mn(int a, int b) { return (int)std::min((double)a, (double)b); }
static int mx(int a, int b) { return (int)std::max((double)a, (double)b); }
struct Machine {
  vector<int> st, ps; int x, y, l, u, r, b; const unordered_map<int, string>* subrs; bool unknownOrder = false;
  void point() { l = mn(l, x); r = mx(r, x); u = mn(u, y); b = mx(b, y); }
  void move(int dx, int dy) { x += dx; y += dy; point(); }
  void curve(int a, int c, int d, int e, int f, int g) { int xs[4] = {l, x + a, x + a + d, x + a + d + f}, ys[4] = {u, y + c, y + c + e, y + c + e + g}; x = xs[3]; y = ys[3]; l = mn(mn(l, xs[1]), mn(xs[2], xs[3])); r = mx(mx(r, xs[1]), mx(xs[2], xs[3])); u = mn(mn(u, ys[1]), mn(ys[2], ys[3])); b = mx(mx(b, ys[1]), mx(ys[2], ys[3])); }
  bool take(size_t n, int* v) { if (st.size() < n) return false; for (size_t i = n; i-- > 0;) { v[i] = st.back(); st.pop_back(); } return true; }
  void run(const string& s, int depth) {
    size_t i = 0; auto next = [&]() { return (unsigned char)s[i++]; };
    while (i < s.size()) {
      int v[6]; unsigned char c = next();
      if (c >= 32) {
        if (c <= 246) st.push_back(c - 139);
        else if (c <= 254) { if (i >= s.size()) return; int w = next(); st.push_back(c <= 250 ? (c - 247) * 256 + w + 108 : -(c - 251) * 256 - w - 108); }
        else { if (i + 4 > s.size()) return; unsigned a = next(), d = next(), e = next(), f = next(); st.push_back((int)(a << 24 | d << 16 | e << 8 | f)); }
        continue;
      }
      switch (c) {
        case 1: case 3: take(2, v); break;
        case 4: case 7: if (take(1, v)) { y += v[0]; u = mn(u, y); b = mx(b, y); } break;
        case 5: case 21: if (take(2, v)) move(v[0], v[1]); break;
        case 6: case 22: if (take(1, v)) { x += v[0]; l = mn(l, x); r = mx(r, x); } break;
        case 8: if (take(6, v)) curve(v[0], v[1], v[2], v[3], v[4], v[5]); break;
        case 30: if (take(4, v)) curve(0, v[0], v[1], v[2], v[3], 0); break;
        case 31: if (take(4, v)) curve(v[0], 0, v[1], v[2], 0, v[3]); break;
        case 13: if (take(2, v)) { x = v[0]; y = 0; point(); } break;
        case 10: if (take(1, v)) { auto it = subrs->begin(); for (; it != subrs->end(); ++it) if (it->first == v[0]) break; if (it != subrs->end() && depth < 10) run(it->second, depth + 1); } break;
        case 12: {
          if (i >= s.size()) return; c = next();
          switch (c) {
            case 1: case 2: take(6, v); break;
            case 6: take(5, v); break;
            case 7: if (take(4, v)) { x = v[0]; y = v[1]; point(); } break;
            case 12: if (st.size() >= 2 && st.back() == 0) { st.pop_back(); st.pop_back(); st.push_back(0); } else if (take(2, v)) { st.push_back((int)((long)v[0] / v[1])); } break;
            case 16: if (take(2, v)) { ps.clear(); int n = v[1] == 0 ? 2 : v[1] == 1 ? 0 : v[1] == 3 ? 1 : v[0]; bool flex = v[1] == 0; if (flex && st.size() < 3) { break; } for (int k = 0; k < n && !st.empty(); k++) { ps.push_back(st.back()); st.pop_back(); } if (flex) st.pop_back(); } break;
            case 17: if (!ps.empty()) { st.push_back(ps.back()); ps.pop_back(); } break;
            case 33: if (take(2, v)) { x = v[0]; y = v[1]; point(); } break;
          }
        } break;
      }
    }
  }
};
static const int K = 1 << 20;
struct State { int x, y, l, u, r, b; vector<int> args, ps; };
static State anyState(int maxArgs, int maxPs, int lim) {
  State s; s.x = sym_int(-K, K, "x"); s.y = sym_int(-K, K, "y"); s.l = sym_int(-K, K, "l"); s.r = sym_int(-K, K, "r"); s.u = sym_int(-K, K, "u"); s.b = sym_int(-K, K, "b");
  sym_assume((s.l <= s.x) & (s.x <= s.r) & (s.u <= s.y) & (s.y <= s.b)); int n = sym_choice(maxArgs + 1, "args"), m = sym_choice(maxPs + 1, "ps");
  for (int i = 0; i < n; i++) s.args.push_back(sym_int(-lim, lim, "arg")); for (int i = 0; i < m; i++) s.ps.push_back(sym_int(-lim, lim, "psarg")); return s;
}
static void compare(State s, const string& prog, const unordered_map<int, string>& subrs) {
  Machine m; m.st = s.args; m.ps = s.ps; m.x = s.x; m.y = s.y; m.l = s.l; m.u = s.u; m.r = s.r; m.b = s.b; m.subrs = &subrs; m.run(prog, 0);
  Type1FontFileParser p; p.parseCharString(prog, subrs, &s.x, &s.y, &s.l, &s.u, &s.r, &s.b, &s.args, &s.ps);
  sym_assert((s.x == m.x) & (s.y == m.y), "the current point is the one the glyph program moves to");
  sym_assert((s.l == m.l) & (s.u == m.u) & (s.r == m.r) & (s.b == m.b), "the box of a glyph contains exactly the points of its outline");
  sym_assert(s.args.size() == m.st.size() && s.ps.size() == m.ps.size(), "each command takes its arguments");
  bool same = true; for (size_t i = 0; i < m.st.size(); i++) same = same & (s.args[i] == m.st[i]); for (size_t i = 0; i < m.ps.size(); i++) same = same & (s.ps[i] == m.ps[i]); sym_assert(same, "each command takes its arguments");
  sym_observe_i(s.x); sym_observe_i(s.y); sym_observe_i(s.l); sym_observe_i(s.u); sym_observe_i(s.r); sym_observe_i(s.b);
}
// one command of up to n arbitrary bytes, in any state
extern "C" void h_glyph_cmd() {
  State s = anyState(7, 1, K); string prog; unsigned char c = sym_char("cmd"); bool esc = sym_choice(2, "esc"); sym_assume(c < 32 && c != 10); if (esc) { sym_assume(c == 12); prog.push_back(c); prog.push_back((char)sym_char("cmd2")); unsigned char e = prog[1]; sym_assume(e != 16); } else { sym_assume(c != 12); prog.push_back(c); }
  compare(s, prog, {}); sym_reach("done");
}
// callothersubr: any number of arguments, any number of transferred arguments
extern "C" void h_glyph_other() {
  State s = anyState(5, 1, 8); string prog; prog.push_back(12); prog.push_back(16); int pops = sym_choice(3, "pops"); for (int i = 0; i < pops; i++) { prog.push_back(12); prog.push_back(17); } compare(s, prog, {}); sym_reach("done");
}
// numbers: any bytes, complete or cut off
extern "C" void h_glyph_num() {
  State s = anyState(1, 0, 8); int n = 1 + sym_choice(sym_param(0), "len"); string prog; for (int i = 0; i < n; i++) prog.push_back((char)sym_char("byte")); sym_assume((unsigned char)prog[0] >= (n > 3 ? 255 : 32)); for (int i = 1; i < n && n <= 3; i++) sym_assume((unsigned char)prog[i] >= 32); if (n > 5) for (int i = 5; i < n; i++) sym_assume((unsigned char)prog[i] >= 32 );
  compare(s, prog, {}); sym_reach(n > 5 ? "long" : "short");
}
// whole glyph programs of several commands, with subroutines
static string token(bool inSubr) {
  static const unsigned char ops[] = {5, 6, 7, 21, 8, 31}; string t; auto num = [&]() { unsigned char c = sym_char("num"); sym_assume(c >= 32 && c <= 246); t.push_back((char)c); };
  int k = sym_choice(inSubr ? 4 : 7, "token");
  if (k == 0) { num(); num(); t.push_back(5); } else if (k == 1) { num(); t.push_back(22); } else if (k == 2) { num(); num(); t.push_back((char)(141 + sym_choice(2, "divisor"))); t.push_back(12); t.push_back(12); t.push_back(6); } else if (k == 3) { for (int i = 0; i < 4; i++) num(); t.push_back(30); }
  else if (k == 4) { t.push_back((char)(139 + sym_choice(4, "subr"))); t.push_back(10); } else if (k == 5) { num(); num(); num(); t.push_back((char)142); t.push_back((char)139); t.push_back(12); t.push_back(16); t.push_back(12); t.push_back(17); t.push_back(12); t.push_back(17); t.push_back(12); t.push_back(33); } else { t.push_back((char)(139 + sym_choice(2, "subr"))); t.push_back((char)140); t.push_back((char)142); t.push_back(12); t.push_back(16); t.push_back(12); t.push_back(17); t.push_back(10); }
  return t;
}
extern "C" void h_glyph_prog() {
  State s = {}; s.x = s.y = 0; s.l = s.u = std::numeric_limits<int>::max(); s.r = s.b = std::numeric_limits<int>::min();
  unordered_map<int, string> subrs; subrs[0] = token(true); subrs[1] = string("\x8b\x0a", 2); subrs[2] = "";
  string prog; { unsigned char c = sym_char("sbx"); sym_assume(c >= 32 && c <= 246); prog.push_back((char)c); prog.push_back((char)200); prog.push_back(13); } int n = sym_param(0); for (int i = 0; i < n; i++) prog += token(false); prog.push_back(14);
  compare(s, prog, subrs); sym_reach("done");
}
// any bytes at all: the interpreter ends and stays within its data
extern "C" void h_glyph_any() {
  State s = anyState(sym_param(1), 0, 3); string prog; int n = 1 + sym_choice(sym_param(0), "len"); for (int i = 0; i < n; i++) prog.push_back((char)sym_char("byte")); unordered_map<int, string> subrs; subrs[0] = string("\x8b\x0a", 2); subrs[1] = string("\xff", 1); subrs[2] = string("\x8d\x8b\x0c\x0c", 4);
  Type1FontFileParser p; p.parseCharString(prog, subrs, &s.x, &s.y, &s.l, &s.u, &s.r, &s.b, &s.args, &s.ps); sym_reach("done");
}
// subroutines: nested up to ten deep, and calling themselves
extern "C" void h_glyph_nest() {
  int n = sym_choice(13, "depth"); bool loop = sym_choice(2, "loop"); unordered_map<int, string> subrs; for (int i = 0; i < n; i++) { string t; unsigned char c = sym_char("num"); sym_assume(c >= 32 && c <= 246); t.push_back((char)c); t.push_back(6); if (i + 1 < n || loop) { t.push_back((char)(139 + (i + 1) % n)); t.push_back(10); } subrs[i] = t; }
  State s = {}; string prog("\x8b\xc8\x0d\x8b\x0a", 5); s.l = s.u = 0; s.r = s.b = 0;
  if (!loop && n <= 10) compare(s, prog, subrs); else { Type1FontFileParser p; p.parseCharString(prog, subrs, &s.x, &s.y, &s.l, &s.u, &s.r, &s.b, &s.args, &s.ps); } sym_reach(loop ? "loop" : "nested");
}
// --- the encryption
extern "C" void h_decrypt() {
  int n = sym_choice(sym_param(0) + 1, "len"), skip = sym_choice(6, "skip"); int key = sym_int(0, 65535, "key"); unsigned r = key; string plain, cipher;
  for (int i = 0; i < n; i++) { unsigned char p = sym_char("byte"); unsigned char c = p ^ (r >> 8); plain.push_back((char)p); cipher.push_back((char)c); r = ((c + r) * 52845u + 22719u) & 65535u; }
  string out; Type1FontFileParser p; p.decrypt(cipher.data(), cipher.size(), key, skip, &out);
  int want = n > skip ? n - skip : 0; sym_assert((int)out.size() == want, "decrypting drops the leading random bytes only"); bool same = true; for (int i = 0; i < want; i++) same = same & (out[i] == plain[i + skip]); sym_assert(same, "decrypting undoes the Type 1 encryption"); sym_reach("done");
}
// --- whole font files
static string encrypt(const string& plain, unsigned r) { string out; for (unsigned char p : plain) { unsigned char c = p ^ (r >> 8); out.push_back((char)c); r = ((c + r) * 52845u + 22719u) & 65535u; } return out; }
static string glyphProgram(int lenIV, const string& body) { return encrypt(string("\x06\x8c\xef\x06", 4).substr(4 - lenIV) + body, 4330); }  // the leading random bytes would draw a line
static string num(int v) { return string(1, (char)(139 + v)); }
static const char* const header = "%!PS-AdobeFont-1.0: F\n/FontMatrix [0.002 0 0 0.003 4 5 ]readonly def\n/Weight (Bold) readonly def\n/ItalicAngle 0 def\ncurrentdict end\n";
struct Font { string plain; int lenIV; };
// a private portion with a subroutine and two glyphs: A is a 30 x 40 box at (10, 20), drawn by the subroutine; B is a line to the left and below
static string lead = "0000";
static string privatePortion(int lenIV, bool mention, const string& n0, const string& nA) {
  string sub = glyphProgram(lenIV, num(30) + string(1, 6) + num(40) + string(1, 7) + string(1, 11));
  string a = glyphProgram(lenIV, num(10) + num(50) + string(1, 13) + num(20) + string(1, 4) + num(0) + string(1, 10) + string(1, 9) + string(1, 14)), b = glyphProgram(lenIV, num(0) + num(50) + string(1, 13) + num(-7) + num(-9) + string(1, 5) + string(1, 14));
  string s = lead + "dup /Private 8 dict dup begin\n"; if (mention) s += "/lenIV " + std::to_string(lenIV) + " def\n";
  s += "/Subrs 1 array\ndup 0 " + (n0.empty() ? std::to_string(sub.size()) : n0) + " RD " + sub + " NP\nND\n2 index /CharStrings 2 dict dup begin\n/A " + (nA.empty() ? std::to_string(a.size()) : nA) + " RD " + a + " ND\n/B " + std::to_string(b.size()) + " RD " + b + " ND\nend\nend\n"; return s;
}
static string le(unsigned n) { string s; for (int i = 0; i < 4; i++) s.push_back((char)(n >> (8 * i))); return s; }
// the four leading random bytes are free; chosen such that the file starts with any hexadecimal digits, or with one byte that is none among three that are
static void pickLead(int form) {
  static const unsigned char hexes[][2] = {{0x01, 0x23}, {0x45, 0x67}, {0x89, 0xab}, {0xcd, 0xef}, {0x9a, 0xf0}}; static const unsigned char odd[] = {'/', ':', '@', 'G', '`', 'g', 0, 255}, even[] = {'0', '9', 'A', 'F', 'a', 'f'}; unsigned char c[4] = {17, 34, 51, 68};
  if (form == 0) { int at = sym_choice(4, "odd place"), k = sym_choice(8, "odd byte"), j = sym_choice(6, "digit"); for (int i = 0; i < 4; i++) c[i] = i == at ? odd[k] : even[(j + i) % 6]; } else if (form > 1) { int k = sym_choice(5, "digits"); c[0] = hexes[k][0]; c[1] = hexes[k][1]; }
  unsigned r = 55665; lead = ""; for (unsigned char x : c) { lead.push_back((char)(x ^ (r >> 8))); r = ((x + r) * 52845u + 22719u) & 65535u; }
}
extern "C" void h_t1_file() {
  static const int ivs[] = {4, 0, 1}; int iv = sym_choice(4, "lenIV"), form = sym_choice(6, "form"); pickLead(form); string priv = privatePortion(iv == 3 ? 4 : ivs[iv], iv != 3, "", ""), enc = encrypt(priv, 55665), head = header; fileIsStream = length1IsInt = length2IsInt = true; fileLength1 = head.size(); fileLength2 = enc.size();
  static const char* hex = "0123456789abcdef0123456789ABCDEF"; string body;
  if (form == 0) body = enc; else if (form == 1) { head = string("\x80\x01", 2) + le(head.size()) + head; body = string("\x80\x02", 2) + le(enc.size()) + enc; fileLength1 = 1; fileLength2 = 1 + sym_int(0, 600, "length2"); }
  else { int i = 0; for (unsigned char c : enc) { const char* h = hex + (form == 3 ? 16 : 0); body.push_back(h[c >> 4]); if (form == 5 && i == 3) body += "\r\n"; body.push_back(h[c & 15]); if (form >= 4 && ++i % 20 == 0) body += form == 5 ? "\r\n" : "\n"; } fileLength2 = body.size(); }
  if (form != 1) fileLength2 += sym_int(0, 3, "more"); fileData = head + body; if (form < 2) fileData += form == 1 ? string("\x80\x01\x05\x00\x00\x00" "0000\n\x80\x03", 13) : string(); else fileData += "\n";
  PdfFontInfo info; Type1FontFileParser p; long xref[4]; p.parse(Ref{1, 0}, (XRef*)xref, &info);
  auto& g = info.glyphBoundingBoxes; sym_assert(g.size() == 2 && g.count("A") == 1 && g.count("B") == 1, "every glyph of an embedded font file is read");
  sym_assert(g["A"] == std::make_tuple(10, 0, 40, 60), "the box of a glyph of an embedded font file is that of its outline"); sym_assert(g["B"] == std::make_tuple(-7, -9, 0, 0), "the box of a glyph of an embedded font file is that of its outline");
  sym_assert(info.weight == 700 && !info.isItalic, "weight and slant are those of the font file"); sym_assert(info.fontMatrix[0] == 0.002 && info.fontMatrix[3] == 0.003 && info.fontMatrix[4] == 4 && info.fontMatrix[5] == 5, "the font matrix is that of the font file"); sym_reach(form == 0 ? "binary" : form == 1 ? "segments" : "hex");
}
// a file with several subroutines and glyphs, each glyph drawn by a different one; param: number of glyphs
extern "C" void h_t1_glyphs() {
  int n = sym_param(0), form = sym_choice(2, "hex") ? 2 : 0; lead = "0000"; pickLead(1); string s = "dup /Private 8 dict dup begin\n/lenIV 4 def\n/Subrs " + std::to_string(n + 1) + " array\n"; int call[12];
  for (int i = 0; i <= n; i++) { string sub = glyphProgram(4, num(5 + 3 * i) + string(1, 6) + num(7 + 2 * i) + string(1, 7) + string(1, 11)); s += "dup " + std::to_string(i) + " " + std::to_string(sub.size()) + " RD " + sub + " NP\n"; }
  s += "ND\n2 index /CharStrings " + std::to_string(n) + " dict dup begin\n"; int at = sym_choice(n, "glyph"); int other = sym_choice(n + 1, "subroutine");
  for (int i = 0; i < n; i++) { call[i] = i == at ? other : (i * 3 + 1) % (n + 1); string a = glyphProgram(4, num(10 - i) + num(50) + string(1, 13) + num(call[i]) + string(1, 10) + string(1, 9) + string(1, 14)); s += string("/g") + std::to_string(i) + (i == 1 ? ".alt" : "") + " " + std::to_string(a.size()) + " RD " + a + " ND\n"; }
  s += "end\nend\n"; string enc = encrypt(s, 55665), head = header, body; if (form) for (unsigned char c : enc) { body.push_back("0123456789abcdef"[c >> 4]); body.push_back("0123456789abcdef"[c & 15]); } else body = enc;
  fileIsStream = length1IsInt = length2IsInt = true; fileLength1 = head.size(); fileLength2 = body.size(); fileData = head + body + "\n"; PdfFontInfo info; Type1FontFileParser p; long xref[4]; p.parse(Ref{1, 0}, (XRef*)xref, &info);
  auto& g = info.glyphBoundingBoxes; sym_assert((int)g.size() == n, "every glyph of an embedded font file is read");
  for (int i = 0; i < n; i++) { string name = string("g") + std::to_string(i) + (i == 1 ? ".alt" : ""); sym_assert(g.count(name) == 1, "every glyph of an embedded font file is read"); int x = 10 - i; sym_assert(g[name] == std::make_tuple(x, 0, x + 5 + 3 * call[i], 7 + 2 * call[i]), "the box of a glyph of an embedded font file is that of its outline"); }
  sym_reach(form ? "hex" : "binary");
}
// the clear-text portion: any number of matrix entries, any weight, any angle
extern "C" void h_t1_dict() {
  static const char* const angles[] = {nullptr, "/ItalicAngle 0 def", "/ItalicAngle 0 def\r", "/ItalicAngle 0.0 def", "/ItalicAngle -12 def", "/ItalicAngle 12.5 def"}; static const bool italic[] = {false, false, false, false, true, true};
  static const char* const weights[] = {nullptr, "Regular", "Medium", "Bold", "Odd", ""}; static const int value[] = {0, 400, 500, 700, 0, 0};
  int n = sym_choice(10, "entries"), a = sym_choice(6, "angle"), w = sym_choice(6, "weight"); bool was = sym_choice(2, "was"), more = sym_choice(2, "more"); string before0 = more ? "/UniqueID 7 def /BBox [8 9] def (x) " : "", after0 = more ? " /XUID [5 6] def /Notice (y) def" : "", d = "%!PS\n" + before0 + "/FontMatrix ["; for (int i = 0; i < n; i++) d += (i ? " " : "") + std::to_string(i + 1); d += "]readonly def" + after0 + "\n"; if (w && weights[w]) d += before0 + "/Weight (" + string(weights[w]) + ") readonly def" + after0 + "\n"; if (angles[a]) d += string(angles[a]) + "\n"; int cut = sym_choice(2, "cut") ? sym_int(0, 5, "cutoff") : 0;
  fileIsStream = sym_choice(2, "stream"); length1IsInt = sym_choice(2, "l1"); length2IsInt = sym_choice(2, "l2"); bool ok = fileIsStream && length1IsInt && length2IsInt; if (!ok) sym_assume(n < 2 && a < 2 && w < 2);
  fileData = d; fileLength1 = (int)d.size() + cut; fileLength2 = 5; PdfFontInfo info; info.isItalic = was; int before = info.weight; double m[6]; for (int i = 0; i < 6; i++) m[i] = info.fontMatrix[i] = -1 - i; Type1FontFileParser p; long xref[4]; p.parse(Ref{1, 0}, (XRef*)xref, &info);
  for (int i = 0; i < 6; i++) sym_assert(info.fontMatrix[i] == (ok && i < n ? i + 1 : m[i]), "the font matrix is that of the font file"); sym_assert(info.weight == (ok && value[w] ? value[w] : before), "the weight is that of the font file"); sym_assert(info.isItalic == (was || (ok && italic[a])), "a font is italic if its angle is not zero"); sym_assert(info.glyphBoundingBoxes.empty(), "no glyph is made up"); sym_reach(ok ? "done" : "no file");
}
// damaged files: any length fields, any cut, numbers that do not fit the data
extern "C" void h_t1_damaged() {
  static const char* const counts[] = {"", "0", "3", "5000", "99999999999999999999"}; static const char* const ivs[] = {"4", "-1", "77", "99999999999999999999", "x"};
  int what = sym_choice(5, "damage"); string priv = privatePortion(4, true, what == 0 ? counts[1 + sym_choice(4, "n0")] : "", what == 1 ? counts[1 + sym_choice(4, "nA")] : ""); if (what == 2) { size_t k = priv.find("/lenIV 4"); priv = priv.substr(0, k + 7) + ivs[sym_choice(5, "iv")] + priv.substr(k + 8); }
  string enc = encrypt(priv, 55665), head = "%!PS\n"; fileIsStream = length1IsInt = length2IsInt = true; fileLength1 = head.size(); fileLength2 = enc.size();
  if (what == 3) { unsigned char l0 = sym_char("len"), l1 = sym_choice(2, "len1"), l3 = sym_choice(3, "len3") * 0x7f; enc = string("\x80\x02", 2) + string(1, (char)l0) + string(1, (char)l1) + string(1, '\0') + string(1, (char)l3) + enc; fileLength2 = 1 + sym_choice(5, "length2"); }
  if (what == 4) { fileLength2 = sym_int(-2, (int)enc.size() + 2, "length2"); if (sym_choice(2, "hex")) { string h; for (unsigned char c : enc) { h.push_back("0123456789abcdef"[c >> 4]); h.push_back("0123456789abcdef"[c & 15]); } enc = h.substr(0, 1 + sym_choice(9, "digits")); } else enc = enc.substr(0, sym_choice(2, "short") ? enc.size() : 3); }
  fileData = head + enc; PdfFontInfo info; Type1FontFileParser p; long xref[4]; p.parse(Ref{1, 0}, (XRef*)xref, &info);
  for (auto& g : info.glyphBoundingBoxes) sym_assert(std::get<0>(g.second) <= std::get<2>(g.second) && std::get<1>(g.second) <= std::get<3>(g.second), "no glyph has an inverted box"); sym_reach("done");
}
// --- the information about a font
static bool has(const string& s, const string& t) { for (size_t i = 0; i + t.size() <= s.size(); i++) { bool e = true; for (size_t k = 0; k < t.size(); k++) e = e && s[i + k] == t[k]; if (e) return true; } return false; }
extern "C" void h_font_name() {
  string head = symStringIn(0, sym_param(0), "A+-1z", "name"), name = head; static const char* const tails[] = {"", "Bold", "-BLACKItalic", "bol", "-italic"}; int t = sym_choice(5, "tail"); name += tails[t]; GfxState* st = newState(); auto f = std::make_shared<AnyFont>(name, fontTrueType); st->font = f; f->fontMat[0] = 0.25; f->fontMat[1] = f->fontMat[2] = f->fontMat[3] = f->fontMat[4] = 0; f->fontMat[5] = 3; long xref[4];
  PdfFontInfoParser p; PdfFontInfo* info = p.parse(st, (XRef*)xref, sym_choice(2, "embedded"));
  string low; for (char c : name) low.push_back(c >= 'A' && c <= 'Z' ? c + 32 : c); size_t plus = 0; while (plus < low.size() && low[plus] != '+') plus++; string norm = plus < low.size() ? low.substr(plus + 1) : low, base; for (size_t i = 0; i < norm.size() && norm[i] != '-'; i++) if (norm[i] < '0' || norm[i] > '9') base.push_back(norm[i]);
  sym_assert(info->fontName == name, "the name of a font is the one the PDF gives"); sym_assert(info->normFontName == norm, "the normalized name is in lower case and has no subset prefix"); sym_assert(info->fontBaseName == base, "the base name ends at the first hyphen and has no digits");
  sym_assert(info->isItalic == (t == 2 || t == 4) && info->weight == (t == 1 ? 700 : t == 2 ? 800 : PdfFontInfo().weight), "weight and slant follow the name"); sym_assert(info->fontMatrix[0] == 0.25 && info->fontMatrix[5] == 3, "the font matrix is that of the font"); sym_reach("done");
}
// long names: a prefix, digits anywhere, several hyphens
extern "C" void h_font_name_long() {
  static const char* const heads[] = {"", "ABCDEF+", "ABCDEF+XYZ"}, *const mids[] = {"NimbusRomNo9L", "Times2New34Roman", "a1b2c3d4e5f6g7h8", "CMR10"}, *const tails[] = {"", "-Regu", "-Medi2-Bold", "7-BoldItalic", "-Black9"}; int hd = sym_choice(3, "head"), m = sym_choice(4, "middle"), t = sym_choice(5, "tail");
  string name = heads[hd]; name += mids[m]; size_t at = name.size() - 1 - sym_choice(5, "place"); unsigned char c = sym_char("c"); sym_assume((c >= '0' && c <= '9') || (c >= 'A' && c <= 'Z') || c == '-' || c == '+' || c == '_'); if (hd) sym_assume(c != '+'); name.insert(at, 1, (char)c); name += tails[t];
  GfxState* st = newState(); auto f = std::make_shared<AnyFont>(name, fontTrueType); st->font = f; for (int i = 0; i < 6; i++) f->fontMat[i] = i + 1; long xref[4]; PdfFontInfoParser p; PdfFontInfo* info = p.parse(st, (XRef*)xref, false);
  string low; for (char c : name) low.push_back(c >= 'A' && c <= 'Z' ? c + 32 : c); size_t plus = 0; while (plus < low.size() && low[plus] != '+') plus++; string norm = plus < low.size() ? low.substr(plus + 1) : low, base; for (size_t i = 0; i < norm.size() && norm[i] != '-'; i++) if (norm[i] < '0' || norm[i] > '9') base.push_back(norm[i]);
  sym_assert(info->fontName == name, "the name of a font is the one the PDF gives"); sym_assert(info->normFontName == norm, "the normalized name is in lower case and has no subset prefix"); sym_assert(info->fontBaseName == base, "the base name ends at the first hyphen and has no digits");
  sym_assert(info->isItalic == (t == 3) && info->weight == (t == 2 || t == 3 ? 700 : t == 4 ? 800 : PdfFontInfo().weight), "weight and slant follow the name"); for (int i = 0; i < 6; i++) sym_assert(info->fontMatrix[i] == i + 1, "the font matrix is that of the font"); sym_reach("done");
}
extern "C" void h_font_flags() {
  static const char* const names[] = {"F", "FBold", "FItalic"}; int n = sym_choice(4, "name"), w = sym_choice(10, "weight"), flags = sym_int(0, 0x7ffff, "flags"), ty = sym_choice(4, "type"); static const GfxFontType types[] = {fontType1, fontType1C, fontType3, fontTrueType}; GfxState* st = newState(); auto f = std::make_shared<AnyFont>(n < 3 ? std::optional<string>(names[n]) : std::nullopt, types[ty]); f->weight = (GfxFont::Weight)w; f->flags = flags; f->fontMat[0] = f->fontMat[3] = 0.001; f->fontMat[1] = f->fontMat[2] = f->fontMat[4] = f->fontMat[5] = 0; st->font = f;
  bool embedded = sym_choice(2, "embedded"); locOk = sym_choice(2, "located"); locType = sym_choice(2, "external") ? gfxFontLocExternal : gfxFontLocEmbedded; locFont = types[ty]; fileIsStream = length1IsInt = length2IsInt = true; fileData = "/Weight (Medium) def\n/ItalicAngle 5 def\n/FontMatrix [1 2 3 4 5 6]\n"; fileLength1 = fileData.size(); fileLength2 = 1; if (locType == gfxFontLocExternal) sym_assume(locOk); if (!embedded) sym_assume(locOk && locType == gfxFontLocEmbedded);
  long xref[4]; PdfFontInfoParser p; PdfFontInfo* info = p.parse(st, (XRef*)xref, embedded); bool file = embedded && locOk && locType == gfxFontLocEmbedded && ty < 2; int want = w > 0 ? w * 100 : PdfFontInfo().weight; if (flags & (1 << 18)) want = 700; if (n == 1) want = 700; if (file) want = 500; bool italic = n == 2; italic = italic | ((flags & 64) != 0) | file;
  sym_assert(info->weight == want, "the weight of a font is one of 100, 200 ... 900, taken from the PDF"); sym_assert(info->isItalic == italic, "a font is italic if its flags, its name or its file say so"); sym_assert((info->isFixedWidth == ((flags & 1) != 0)) & (info->isSerif == ((flags & 2) != 0)) & (info->isSymbolic == ((flags & 4) != 0)) & (info->isType3 == (ty == 2)), "the flags of a font are those of the PDF"); sym_assert((info->fontMatrix[1] == 2) == file, "an embedded font file is read if it is to be read and only then"); sym_assert(!info->fontName.empty(), "every font has a name"); sym_reach(file ? "file" : "done");
}
extern "C" void h_font_none() { GfxState* st = newState(); long xref[4]; PdfFontInfoParser p; sym_assert(p.parse(st, (XRef*)xref, true) == nullptr, "no font, no font information"); sym_reach("done"); }
