// The events Poppler sends while it interprets a page: pages, fonts, characters, paths and images.
#include "h.h"
#include <algorithm>
#include <array>
#include <atomic>
#include <functional>
#include <iostream>
#include <memory>
#include <mutex>
#include <optional>
#include <regex>
#include <set>
#include <sstream>
#include <string_view>
#include <tuple>
#include <unordered_map>
#include <unordered_set>
#include <cstring>
#include <codecvt>
#include <locale>
#define private public
#define protected public
#include <poppler/GfxFont.h>
#include <poppler/GfxState.h>
#include <poppler/GlobalParams.h>
#include <poppler/OutputDev.h>
#include <poppler/UnicodeMap.h>
#include "PdfParsing.h"
#undef private
#undef protected
#include "utils/CharMap.h"
#include "utils/MathUtils.h"
using namespace ppp::types; using ppp::modules::PdfParsing; using std::string; using std::vector;

// --- stand-ins for the parts of Poppler that the class calls; they do what Poppler documents
void Object::free() { type = objNone; }
void error(ErrorCategory, Goffset, const char*, ...) {}
#ifdef SYMBOLIC
OutputDev::OutputDev() : iccColorSpaceCache(5) {} OutputDev::~OutputDev() {} GfxColorSpace::GfxColorSpace() {} GfxColorSpace::~GfxColorSpace() {} GlobalParams::~GlobalParams() {}
std::unique_ptr<GlobalParams> globalParams;
#endif
GfxFont::GfxFont(const char*, Ref, std::optional<string>&& n, GfxFontType t, Ref) : tag("t"), id{1, 0}, name(n), family(nullptr), stretch(StretchNotDefined), weight(WeightNotDefined), type(t), flags(0), embFontName(nullptr), embFontID{1, 0}, missingWidth(0), ascent(0), descent(0), ok(true), hasToUnicode(false) { for (double& m : fontMat) m = 0; fontMat[0] = fontMat[3] = 0.001; }
GfxFont::~GfxFont() {}
Gfx8BitFont::Gfx8BitFont(XRef*, const char* t, Ref id, std::optional<string>&& n, GfxFontType ty, Ref e, Dict*) : GfxFont(t, id, std::move(n), ty, e) { for (char*& c : enc) c = nullptr; for (double& w : widths) w = 0; }
Gfx8BitFont::~Gfx8BitFont() {} int Gfx8BitFont::getNextChar(const char*, int, CharCode*, Unicode const**, int*, double*, double*, double*, double*) const { return 0; } const CharCodeToUnicode* Gfx8BitFont::getToUnicode() const { return nullptr; }
static int cidWMode; static double cidWidth; static string cidBytes;
GfxCIDFont::GfxCIDFont(XRef*, const char* t, Ref id, std::optional<string>&& n, GfxFontType ty, Ref e, Dict*) : GfxFont(t, id, std::move(n), ty, e) {}
GfxCIDFont::~GfxCIDFont() {} int GfxCIDFont::getNextChar(const char*, int, CharCode*, Unicode const**, int*, double*, double*, double*, double*) const { return 0; } const CharCodeToUnicode* GfxCIDFont::getToUnicode() const { return nullptr; }
int GfxCIDFont::getWMode() const { return cidWMode; } double GfxCIDFont::getWidth(char* s, int len) const { cidBytes.assign(s, len); return cidWidth; }
void GfxState::getFontTransMat(double* a, double* b, double* c, double* d) const {
  *a = (textMat[0] * ctm[0] + textMat[1] * ctm[2]) * fontSize * horizScaling; *b = (textMat[0] * ctm[1] + textMat[1] * ctm[3]) * fontSize * horizScaling;
  *c = (textMat[2] * ctm[0] + textMat[3] * ctm[2]) * fontSize; *d = (textMat[2] * ctm[1] + textMat[3] * ctm[3]) * fontSize;
}
double GfxState::getTransformedFontSize() const { double x1 = textMat[2] * fontSize, y1 = textMat[3] * fontSize, x = ctm[0] * x1 + ctm[2] * y1, y = ctm[1] * x1 + ctm[3] * y1; return sqrt(x * x + y * y); }
static bool haveMap; static int mapCalls;
const UnicodeMap* GlobalParams::getTextEncoding() { static long dummy[64]; return haveMap ? (const UnicodeMap*)dummy : nullptr; }
int UnicodeMap::mapUnicode(Unicode u, char* buf, int size) const {
  mapCalls++; if (u < 0x80 && size > 0) { buf[0] = u; return 1; } if (u < 0x800 && size > 1) { buf[0] = 0xc0 | u >> 6; buf[1] = 0x80 | (u & 63); return 2; }
  if (u < 0x10000 && size > 2) { buf[0] = 0xe0 | u >> 12; buf[1] = 0x80 | (u >> 6 & 63); buf[2] = 0x80 | (u & 63); return 3; } if (size > 3) { buf[0] = 0xf0 | u >> 18; buf[1] = 0x80 | (u >> 12 & 63); buf[2] = 0x80 | (u >> 6 & 63); buf[3] = 0x80 | (u & 63); return 4; } return 0;
}
struct Space : GfxColorSpace {
  GfxColorSpace* copy() const override { return nullptr; } GfxColorSpaceMode getMode() const override { return csDeviceRGB; } void getGray(const GfxColor*, GfxGray*) const override {} void getCMYK(const GfxColor*, GfxCMYK*) const override {} void getDeviceN(const GfxColor*, GfxColor*) const override {}
  void getRGB(const GfxColor* c, GfxRGB* rgb) const override { rgb->r = c->c[0]; rgb->g = c->c[1]; rgb->b = c->c[2]; } int getNComps() const override { return 3; } void getDefaultColor(GfxColor*) const override {}
};
// the font information: one object per call, recorded
static int parseCalls; static bool parseEmbedded; static XRef* parseXref;
namespace ppp::utils::fonts {
PdfFontInfo* PdfFontInfoParser::parse(const GfxState* state, XRef* xref, bool embedded) { parseCalls++; parseEmbedded = embedded; parseXref = xref; auto* f = new PdfFontInfo(); f->fontName = state->font->name ? *state->font->name : "unnamed"; f->ascent = 0.75; f->descent = -0.25; for (double& m : f->fontMatrix) m = 0; f->fontMatrix[0] = f->fontMatrix[3] = 1. / 1024; return f; }
}
static double gmn(double a, double b) { return ppp::utils::math::minimum(a, b); }
static double gmx(double a, double b) { return ppp::utils::math::maximum(a, b); }
static double rnd(double v, int p) { return ppp::utils::math::round(v, p); }

struct World {
  PdfDocument doc; ppp::config::PdfParsingConfig cfg; PdfParsing* dev; GfxState* st; long xref[4];
  World(int precision) {
    *(void**)&globalParams = calloc(1, sizeof(GlobalParams)); haveMap = true; mapCalls = parseCalls = 0; cidWMode = 0; cidWidth = 0.5;
    cfg.coordinatePrecision = precision; dev = new PdfParsing(&doc, cfg); st = (GfxState*)calloc(1, sizeof(GfxState)); new (&st->font) std::shared_ptr<GfxFont>();
    double m[6] = {1, 0, 0, -1, 0, 800}; for (int i = 0; i < 6; i++) { st->ctm[i] = m[i]; st->textMat[i] = i == 0 || i == 3; } st->fontSize = 8; st->horizScaling = 1; st->strokeOpacity = 0.5; st->strokeColorSpace = new Space(); clip(0, 0, 600, 800);
  }
  ~World() { globalParams.release(); }
  void clip(double l, double u, double r, double d) { st->clipXMin = l; st->clipYMin = u; st->clipXMax = r; st->clipYMax = d; }
  void page(int n) { dev->startPage(n, st, (XRef*)xref); }
  Gfx8BitFont* font8(const char* name, GfxFontType t = fontType1) { auto* f = new Gfx8BitFont(nullptr, "", Ref{1, 0}, string(name), t, Ref{1, 0}, nullptr); st->font = std::shared_ptr<GfxFont>(f); for (double& w : f->widths) w = 0.5; dev->updateFont(st); return f; }
  GfxCIDFont* fontC(const char* name) { auto* f = new GfxCIDFont(nullptr, "", Ref{1, 0}, string(name), fontCIDType2, Ref{1, 0}, nullptr); st->font = std::shared_ptr<GfxFont>(f); dev->updateFont(st); return f; }
  void draw(CharCode c, int nBytes, const Unicode* u, int n) { dev->drawChar(st, 1, 2, 3, 4, 5, 6, c, nBytes, u, n); }
};
// --- the box of a character
static const double mats[][4] = {{1, 0, 0, 1}, {0, 1, -1, 0}, {-1, 0, 0, -1}, {0, -1, 1, 0}, {-1, 0, 0, 1}, {0, 1, 1, 0}, {1, 0.25, -0.25, 1}, {2, 0, 0, 0.5}};
extern "C" void h_char_box() {
  int prec = sym_param(0); World w(prec); w.page(1);
  int kind = sym_choice(4, "font"); if (kind == 0) w.font8("F"); else if (kind == 1) w.font8("T", fontType3); else { cidWMode = kind == 3; w.fontC("C"); }
  int m = sym_choice(8, "text matrix"), pg = sym_choice(4, "page rotation"), sz = sym_choice(3, "size"); static const double sizes[] = {8, 0.0625, -4}; static const double pages[][4] = {{1, 0, 0, -1}, {0, 1, 1, 0}, {-1, 0, 0, 1}, {0, -1, -1, 0}};
  for (int i = 0; i < 4; i++) { w.st->textMat[i] = mats[m][i]; w.st->ctm[i] = pages[pg][i]; } w.st->ctm[4] = 100; w.st->ctm[5] = 700; w.st->fontSize = sizes[sz]; w.st->horizScaling = sym_choice(2, "scaling") ? 0.5 : 1; w.st->rise = sym_choice(2, "rise") ? 2 : 0;
  double x = sym_grid(-4096, 4096, 0.25, "x"), y = sym_grid(-4096, 4096, 0.25, "y"), wd = sym_grid(0, 64, 1. / 32, "width"); w.st->curX = x; w.st->curY = y; cidWidth = wd; if (kind < 2) ((Gfx8BitFont*)w.st->font.get())->widths[65] = wd;
  Unicode u = 'A'; w.draw(65, 1, &u, 1); sym_assert(w.doc.pages[0]->characters.size() == 1, "every character is taken over once"); PdfCharacter* c = w.doc.pages[0]->characters[0];
  // the geometry of PDF text: glyph space -> text space -> user space -> device space
  const double *t = mats[m], *g = pages[pg]; double fs = w.st->fontSize, hs = w.st->horizScaling; auto dx = [&](double a, double b) { return a * g[0] + b * g[2]; }; auto dy = [&](double a, double b) { return a * g[1] + b * g[3]; };
  double ux = dx(t[0], t[1]) * fs * hs, uy = dy(t[0], t[1]) * fs * hs, vx = dx(t[2], t[3]) * fs, vy = dy(t[2], t[3]) * fs;   // the direction of the baseline; the direction up from it
  double px = x + w.st->rise * t[2], py = y + w.st->rise * t[3], x0 = dx(px, py) + 100, y0 = dy(px, py) + 700, x1 = dx(x + wd * fs * hs * t[0], y + wd * fs * hs * t[1]) + 100, y1 = dy(x + wd * fs * hs * t[0], y + wd * fs * hs * t[1]) + 700;
  if (w.st->rise == 0 || true) { x1 = x0 + wd * ux; y1 = y0 + wd * uy; }
  double size = sqrt(vx * vx + vy * vy), up = 0.75 * size, down = -0.25 * size; bool mirrored = ux * vy - uy * vx > 0; bool hor = fabs(ux * vy) > fabs(uy * vx); int dir = hor ? (ux > 0 ? 0 : 2) : (uy > 0 ? 1 : 3);
  if (!mirrored) sym_assert(c->pos->rotation == (kind == 3 ? (dir + 1) % 4 : dir), "the rotation of a character is the direction of its baseline");
  sym_assert(c->pos->wMode == (kind == 3), "the writing mode is that of the font"); sym_assert(fabs(c->fontSize - size) <= 0.05 + 1e-9, "the font size is the one on the page");
  double cl = c->pos->leftX, cr = c->pos->rightX, cu = c->pos->upperY, cd = c->pos->lowerY; if (kind != 3) sym_assert((gmn(cl, cr) == cl) & (gmn(cu, cd) == cu), mirrored || dir == 2 ? "the box of a mirrored or upside-down character is not inverted" : "the box of a character is not inverted");
  double X0 = rnd(x0, prec), X1 = rnd(x1, prec), Y0 = rnd(y0, prec), Y1 = rnd(y1, prec); int rot = c->pos->rotation;
  if (kind != 3) {
    if (hor) { sym_assert(((cl == X0) & (cr == X1)) | ((cl == X1) & (cr == X0)), "the box extends from the origin to that of the next character"); sym_assert(rot == 0 ? (cu == rnd(y0 - up, prec)) & (cd == rnd(y0 - down, prec)) : (cu == rnd(y0 + down, prec)) & (cd == rnd(y0 + up, prec)), "the box extends from the descent to the ascent of the font"); }
    else { sym_assert(((cu == Y0) & (cd == Y1)) | ((cu == Y1) & (cd == Y0)), "the box extends from the origin to that of the next character"); sym_assert(rot == 1 ? (cl == rnd(x0 + down, prec)) & (cr == rnd(x0 + up, prec)) : (cl == rnd(x0 - up, prec)) & (cr == rnd(x0 - down, prec)), "the box extends from the descent to the ascent of the font"); }
    sym_assert(c->base == (hor ? Y0 : X0), "the base is the baseline"); sym_reach(mirrored ? "mirrored" : "horizontal");
  } else {
    double s = rot == 0 || rot == 3 ? -size : size, t = rot < 2 ? -size : size;   // a square of the font size in the quadrant of the rotation
    sym_assert((cl == rnd(gmn(x0, x0 + s), prec)) & (cr == rnd(gmx(x0, x0 + s), prec)) & (cu == rnd(gmn(y0, y0 + t), prec)) & (cd == rnd(gmx(y0, y0 + t), prec)), "in vertical writing the box is a square of the font size at the origin"); sym_reach("vertical");
  }
  sym_observe_d(c->pos->leftX); sym_observe_d(c->pos->upperY); sym_observe_d(c->pos->rightX); sym_observe_d(c->pos->lowerY);
}

// the box of the glyph replaces that of the font exactly if it is taller
extern "C" void h_char_glyph() {
  int prec = 0; World w(prec); w.page(1); auto* f = w.font8("F"); char name[2] = "g"; f->enc[65] = name; int other = sym_choice(2, "other glyph"); int m = sym_choice(4, "text matrix"); for (int i = 0; i < 4; i++) w.st->textMat[i] = mats[m][i]; w.st->ctm[5] = 0; w.st->fontSize = 16; w.st->curX = sym_grid(-64, 64, 1, "x"); w.st->curY = sym_grid(-64, 64, 1, "y");
  double* fm = w.dev->_fontInfo->fontMatrix; bool slanted = sym_choice(2, "slanted"); if (slanted) fm[2] = 1. / 4096; if (sym_choice(2, "offset")) { fm[4] = 0.5; fm[5] = -0.25; }
  double gl = sym_grid(-512, 512, 4, "gl"), gu = sym_grid(-512, 512, 4, "gu"), gr = sym_grid(-512, 512, 4, "gr"), gd = sym_grid(-512, 512, 4, "gd"); sym_assume((gl <= gr) & (gu <= gd)); w.dev->_fontInfo->glyphBoundingBoxes[other ? "h" : "g"] = std::make_tuple(gl, gu, gr, gd);
  Unicode u = 'A'; w.draw(65, 1, &u, 1); PdfCharacter* c = w.doc.pages[0]->characters[0]; const double* t = mats[m]; double sx = w.st->curX, sy = w.st->curY;
  auto X = [&](double a, double b) { double p = a * fm[0] + b * fm[2] + fm[4], q = a * fm[1] + b * fm[3] + fm[5]; return 16 * (p * t[0] + q * t[2]) + sx; }; auto Y = [&](double a, double b) { double p = a * fm[0] + b * fm[2] + fm[4], q = a * fm[1] + b * fm[3] + fm[5]; return -16 * (p * t[1] + q * t[3]) - sy; };
  double l = gmn(X(gl, gu), X(gr, gd)), r = gmx(X(gl, gu), X(gr, gd)), a = gmn(Y(gl, gu), Y(gr, gd)), b = gmx(Y(gl, gu), Y(gr, gd));
  double x1 = sx + 8 * t[0], y1 = -sy - 8 * t[1], fu, fd; if (m == 0) { fu = -sy - 12; fd = -sy + 4; } else if (m == 2) { fu = -sy - 4; fd = -sy + 12; } else { fu = gmn(-sy, y1); fd = gmx(-sy, y1); } (void)x1;
  bool taller = a < fu - 0.1 || b > fd + 0.1;
  if (!other && taller) { sym_assert((c->pos->leftX == rnd(l, prec)) & (c->pos->rightX == rnd(r, prec)) & (c->pos->upperY == rnd(a, prec)) & (c->pos->lowerY == rnd(b, prec)), "a glyph that is taller than its font gets its own box"); sym_reach("glyph"); }
  else { sym_assert((c->pos->upperY == rnd(fu, prec)) & (c->pos->lowerY == rnd(fd, prec)), "a glyph within the extent of its font gets the box of the font"); sym_reach("font"); }
}
// --- the text of a character
extern "C" void h_char_text() {
  World w(1); w.page(1); auto* f = w.font8("F"); static const char* const names[] = {nullptr, "", "a", "summationdisplay", "controlNULL", "circlecopyrt"}; int n = sym_choice(6, "name"); f->enc[200] = (char*)names[n]; haveMap = sym_choice(2, "encoding"); int len = sym_choice(4, "length"); Unicode u[3];
  static const int classes[][2] = {{0, 0x7f}, {0x80, 0x7ff}, {0x800, 0xd7ff}, {0xe000, 0xffff}, {0x10000, 0x10ffff}}; for (int i = 0; i < len; i++) { int k = sym_choice(i < 2 ? 5 : 1, "class"); u[i] = sym_int(classes[k][0], classes[k][1], "code"); }
  bool given = len > 0 && sym_choice(2, "given"); if (len == 3) sym_assume(given); w.draw(200, 1, given ? u : nullptr, len);
  string want; vector<unsigned> codes; bool mapped = len == 1 && n >= 3; if (mapped) { unsigned c = n == 3 ? 0x2211 : n == 4 ? 0 : 0xa9; codes.push_back(c); want = n == 3 ? "\xe2\x88\x91" : n == 4 ? "" : "\xc2\xa9"; }
  else if (given) { for (int i = 0; i < len; i++) { unsigned c = u[i]; codes.push_back(c); if (!haveMap) continue; if (c < 0x80) want.push_back(c); else if (c < 0x800) { want.push_back(0xc0 | c >> 6); want.push_back(0x80 | (c & 63)); } else if (c < 0x10000) { want.push_back(0xe0 | c >> 12); want.push_back(0x80 | (c >> 6 & 63)); want.push_back(0x80 | (c & 63)); } else { want.push_back(0xf0 | c >> 18); want.push_back(0x80 | (c >> 12 & 63)); want.push_back(0x80 | (c >> 6 & 63)); want.push_back(0x80 | (c & 63)); } } }
  bool blank = !want.empty(); if (!want.empty()) for (unsigned c : codes) blank = blank && (c == 32 || (c >= 9 && c <= 13) || c == 0xa0);
  auto& cs = w.doc.pages[0]->characters; sym_assert(cs.size() == (blank ? 0 : 1), "exactly the white space is skipped"); if (blank) { sym_reach("blank"); return; }
  PdfCharacter* c = cs[0]; sym_assert(c->text.size() == want.size() && c->unicodes.size() == codes.size(), "the text of a character is what the PDF or the map of names says"); bool same = true; for (size_t i = 0; i < want.size(); i++) same = same & (c->text[i] == want[i]); for (size_t i = 0; i < codes.size(); i++) same = same & (c->unicodes[i] == codes[i]); sym_assert(same, "the text of a character is what the PDF or the map of names says");
  sym_assert(c->name == (n < 1 ? "" : names[n]), "the name of a character is that of the font"); sym_assert(c->fontName == "F" && c->rank == 0 && c->pos->pageNum == 1 && c->doc == &w.doc && !c->id.empty(), "a character knows its font, page, document and rank"); sym_reach(mapped ? "mapped" : "text");
}
// the map of names is consistent: each string is the code point it comes with
// a glyph that stands for many code points; param: at most so many
extern "C" void h_char_many() {
  World w(1); w.page(1); w.font8("F"); haveMap = true; int len = 1 + sym_choice(sym_param(0), "length"), at = sym_choice(len, "place"); Unicode u[12]; static const Unicode fixed[] = {'f', 0x20, 0x131, 0x2211, 0x1d400, 'l', 0x9, 'x'}; string want; bool blank = true; for (int i = 0; i < len; i++) u[i] = fixed[i % 8]; bool white = sym_choice(2, "white"); if (white) for (int i = 0; i < len; i++) u[i] = ' '; u[at] = sym_int(1, 0x7ff, "code");
  for (int i = 0; i < len; i++) { unsigned c = u[i]; blank = blank & ((c == 32) | ((c >= 9) & (c <= 13)) | (c == 0xa0)); if (c < 0x80) want.push_back(c); else if (c < 0x800) { want.push_back(0xc0 | c >> 6); want.push_back(0x80 | (c & 63)); } else if (c < 0x10000) { want.push_back(0xe0 | c >> 12); want.push_back(0x80 | (c >> 6 & 63)); want.push_back(0x80 | (c & 63)); } else { want.push_back(0xf0 | c >> 18); want.push_back(0x80 | (c >> 12 & 63)); want.push_back(0x80 | (c >> 6 & 63)); want.push_back(0x80 | (c & 63)); } }
  w.draw(200, 1, u, len); auto& cs = w.doc.pages[0]->characters; sym_assert(cs.size() == (blank ? 0 : 1), "exactly the white space is skipped"); if (blank) { sym_reach("blank"); return; }
  PdfCharacter* c = cs[0]; sym_assert(c->text == want, "the text of a character is what the PDF or the map of names says"); sym_assert(c->unicodes.size() == (size_t)len, "the text of a character is what the PDF or the map of names says"); for (int i = 0; i < len; i++) sym_assert((Unicode)c->unicodes[i] == u[i], "the text of a character is what the PDF or the map of names says"); sym_reach("text");
}
extern "C" void h_char_map() {
  for (auto& e : ppp::utils::charMap) { unsigned c = e.second.first; string s; if (c == 0) ; else if (c < 0x80) s.push_back(c); else if (c < 0x800) { s.push_back(0xc0 | c >> 6); s.push_back(0x80 | (c & 63)); } else if (c < 0x10000) { s.push_back(0xe0 | c >> 12); s.push_back(0x80 | (c >> 6 & 63)); s.push_back(0x80 | (c & 63)); } else { s.push_back(0xf0 | c >> 18); s.push_back(0x80 | (c >> 12 & 63)); s.push_back(0x80 | (c >> 6 & 63)); s.push_back(0x80 | (c & 63)); } if (s != e.second.second) sym_print(e.first.c_str()); sym_assert(s == e.second.second, "the map of names gives the text of the code point it gives"); }
  sym_reach("done");
}
// --- color, opacity, codes of several bytes
extern "C" void h_char_color() {
  World w(1); w.page(1); w.fontC("C"); static const int parts[] = {0, 1, 32768, 65535, 65536}; int r = parts[sym_choice(5, "r")], g = parts[sym_choice(5, "g")], b = parts[sym_choice(5, "b")]; w.st->strokeColor.c[0] = r; w.st->strokeColor.c[1] = g; w.st->strokeColor.c[2] = b; w.st->strokeOpacity = sym_grid(0, 16, 1. / 16, "opacity");
  unsigned code = sym_int(0, 0x7fffffff, "code"); int nb = sym_choice(5, "bytes"); Unicode u = 'x'; cidBytes.clear(); w.draw(code, nb, &u, 1); PdfCharacter* c = w.doc.pages[0]->characters[0];
  sym_assert((c->color[0] == r / 65536.) & (c->color[1] == g / 65536.) & (c->color[2] == b / 65536.) & (c->opacity == w.st->strokeOpacity), "color and opacity are those of the graphics state");
  sym_assert((int)cidBytes.size() == nb, "the width is that of the code"); bool same = true; for (int i = 0; i < nb; i++) same = same & ((unsigned char)cidBytes[i] == (unsigned char)(code >> 8 * (nb - 1 - i))); sym_assert(same, "the width is that of the code"); sym_assert(c->pos->rightX == (nb ? 4 : 0), "the width is that of the code"); sym_reach("done");
}
// --- fonts are read once per name, and the current one applies
extern "C" void h_fonts() {
  World w(1); bool skip = sym_choice(2, "skip"); w.cfg.skipEmbeddedFontFilesParsing = skip; w.dev = new PdfParsing(&w.doc, w.cfg); w.page(1); Unicode u = 'x'; int drawn = 0; vector<string> seen; string cur; int n = sym_param(0);
  for (int i = 0; i < n; i++) {
    int k = sym_choice(4, "event"); static const char* const names[] = {"A", "B"};
    if (k < 2) { w.font8(names[k]); cur = names[k]; bool known = false; for (auto& s : seen) known = known || s == cur; if (!known) seen.push_back(cur); sym_assert(parseEmbedded == !skip && parseXref == (XRef*)w.xref, "font files are read as configured"); }
    else if (k == 2) { w.st->font.reset(); w.dev->updateFont(w.st); cur.clear(); }
    else if (!cur.empty() || !w.st->font) { w.draw(65, 1, &u, 1); if (!cur.empty()) drawn++; auto& cs = w.doc.pages[0]->characters; sym_assert((int)cs.size() == drawn, "characters without a font are skipped"); if (!cur.empty()) sym_assert(cs.back()->fontName == cur, "a character has the font that is current when it is drawn"); }
    sym_assert(parseCalls == (int)seen.size() && w.doc.fontInfos.size() == seen.size(), "each font is read once"); for (auto& s : seen) sym_assert(w.doc.fontInfos.count(s) && w.doc.fontInfos[s] && w.doc.fontInfos[s]->fontName == s, "the document knows each font by its name");
  }
  sym_reach("done");
}
// --- pages
extern "C" void h_page() {
  int prec = sym_choice(2, "precision"); World w(prec); int n = 1 + sym_choice(3, "pages"); 
  for (int i = 1; i <= n; i++) { double l = sym_grid(-400, 400, 0.25, "l"), u = sym_grid(-400, 400, 0.25, "u"), r = sym_grid(-400, 400, 0.25, "r"), d = sym_grid(-400, 400, 0.25, "d"); w.clip(l, u, r, d); w.page(i); sym_assert((int)w.doc.pages.size() == i, "one page per page of the PDF"); PdfPage* p = w.doc.pages[i - 1]; sym_assert(p->pageNum == i && p->characters.empty() && p->figures.empty() && p->shapes.empty(), "pages are numbered and start empty"); sym_assert((p->clipLeftX == rnd(l, prec)) & (p->clipUpperY == rnd(u, prec)) & (p->clipRightX == rnd(r, prec)) & (p->clipLowerY == rnd(d, prec)), "the box of a page is that of the PDF, rounded"); w.dev->endPage(); sym_observe_d(p->clipLeftX); }
  sym_reach("done");
}
// --- paths
static GfxPath* mkPath(int subs) { auto* p = (GfxPath*)calloc(1, sizeof(GfxPath)); p->subpaths = (GfxSubpath**)calloc(subs + 1, sizeof(GfxSubpath*)); p->n = p->size = subs; return p; }
static GfxSubpath* mkSub(int n) { auto* s = (GfxSubpath*)calloc(1, sizeof(GfxSubpath)); s->x = (double*)calloc(n + 1, 8); s->y = (double*)calloc(n + 1, 8); s->curve = (bool*)calloc(n + 1, 1); s->n = s->size = n; return s; }
extern "C" void h_path() {
  World w(0); w.page(1); int N = sym_param(0), total = sym_choice(N + 1, "points"), cut = total ? sym_choice(total, "cut") : 0; GfxPath* p = mkPath(cut ? 2 : 1); vector<double> xs, ys; int m = sym_choice(3, "matrix"); static const double ms[][4] = {{1, 0, 0, 1}, {0, -1, 1, 0}, {0.5, 0, 0, -2}}; for (int i = 0; i < 4; i++) w.st->ctm[i] = ms[m][i]; w.st->ctm[4] = 2; w.st->ctm[5] = 3;
  for (int i = 0; i < 2; i++) { int len = i ? (cut ? total - cut : 0) : cut ? cut : total; if (i && !cut) break; GfxSubpath* s = p->subpaths[i] = mkSub(len); for (int k = 0; k < len; k++) { double x = s->x[k] = sym_grid(-20, 20, 1, "x"), y = s->y[k] = sym_grid(-20, 20, 1, "y"); xs.push_back(rnd(x * ms[m][0] + y * ms[m][2] + 2, 0)); ys.push_back(rnd(x * ms[m][1] + y * ms[m][3] + 3, 0)); } }
  double l = sym_grid(-16, 0, 1, "l"), u = sym_grid(-16, 0, 1, "u"); w.clip(l, u, 10, 12); w.st->path = p; if (sym_choice(2, "fill")) w.dev->fill(w.st); else w.dev->stroke(w.st);
  double bl = 1e9, bu = 1e9, br = -1e9, bd = -1e9; bool any = false; for (size_t i = 0; i < xs.size(); i++) if ((xs[i] > l + 0.1) & (ys[i] > u + 0.1) & (xs[i] < 10 - 0.1) & (ys[i] < 12 - 0.1)) { any = true; bl = gmn(bl, xs[i]); bu = gmn(bu, ys[i]); br = gmx(br, xs[i]); bd = gmx(bd, ys[i]); }
  PdfPage* pg = w.doc.pages[0]; if (!any) { sym_assert(pg->figures.empty() && pg->shapes.empty(), "a path without a visible point is ignored"); sym_reach("invisible"); return; }
  sym_assert(pg->shapes.size() + (pg->figures.empty() ? 0 : pg->figures[0]->shapes.size()) == 1, "a visible path becomes one shape"); PdfShape* s = pg->shapes.empty() ? pg->figures[0]->shapes[0] : pg->shapes[0]; sym_assert((s->pos->leftX == bl) & (s->pos->upperY == bu) & (s->pos->rightX == br) & (s->pos->lowerY == bd), "the box of a shape contains exactly the visible points of its path"); sym_assert(s->pos->pageNum == 1 && s->rank == 0 && s->doc == &w.doc && !s->id.empty(), "a shape knows its page, document and rank"); sym_reach("visible");
}
// longer paths of several subpaths with two points anywhere; params: subpaths, points of each
extern "C" void h_path_long() {
  World w(0); w.page(1); int S = sym_param(0), P = sym_param(1), f1 = sym_choice(S * P, "free point"); bool two = sym_choice(2, "two"); int f2 = two ? (f1 + P + 1) % (S * P) : f1; GfxPath* p = mkPath(S); vector<double> xs, ys; w.st->ctm[0] = w.st->ctm[3] = 1; w.st->ctm[1] = w.st->ctm[2] = 0; w.st->ctm[4] = 2; w.st->ctm[5] = 3; double l = -12, u = -14; w.clip(l, u, 10, 12); bool out = sym_choice(2, "outside");
  for (int i = 0; i < S; i++) { GfxSubpath* s = p->subpaths[i] = mkSub(P); for (int k = 0; k < P; k++) { int n = i * P + k; double x, y; if (n == f1 || n == f2) { x = sym_grid(-20, 20, 1, "x"); y = sym_grid(-20, 20, 1, "y"); } else { x = (out ? 40 : 0) - 5 + 3 * i - k; y = -4 + 2 * k - i; } s->x[k] = x; s->y[k] = y; xs.push_back(x + 2); ys.push_back(y + 3); } }
  w.st->path = p; int how = sym_choice(3, "how"); if (how == 0) w.dev->fill(w.st); else if (how == 1) w.dev->stroke(w.st); else w.dev->eoFill(w.st);
  double bl = 1e9, bu = 1e9, br = -1e9, bd = -1e9; bool any = false; for (size_t i = 0; i < xs.size(); i++) { bool in = (xs[i] > l + 0.1) & (ys[i] > u + 0.1) & (xs[i] < 10 - 0.1) & (ys[i] < 12 - 0.1); any = any | in; bl = in & (xs[i] < bl) ? xs[i] : bl; bu = in & (ys[i] < bu) ? ys[i] : bu; br = in & (xs[i] > br) ? xs[i] : br; bd = in & (ys[i] > bd) ? ys[i] : bd; }
  PdfPage* pg = w.doc.pages[0]; if (!any || how == 2) { if (how < 2) sym_assert(pg->figures.empty() && pg->shapes.empty(), "a path without a visible point is ignored"); sym_reach(how < 2 ? "invisible" : "even-odd"); return; }
  sym_assert(pg->shapes.size() + (pg->figures.empty() ? 0 : pg->figures[0]->shapes.size()) == 1, "a visible path becomes one shape"); PdfShape* s = pg->shapes.empty() ? pg->figures[0]->shapes[0] : pg->shapes[0]; sym_assert((s->pos->leftX == bl) & (s->pos->upperY == bu) & (s->pos->rightX == br) & (s->pos->lowerY == bd), "the box of a shape contains exactly the visible points of its path"); sym_assert(s->pos->pageNum == 1 && s->rank == 0 && s->doc == &w.doc && !s->id.empty(), "a shape knows its page, document and rank"); sym_reach("visible");
}
// --- images
extern "C" void h_image() {
  World w(0); w.page(1); double a = sym_grid(-40, 40, 1, "a"), d = sym_grid(-40, 40, 1, "d"), b = 0, c = 0; int k = sym_choice(3, "form"); if (k == 1) { b = a; c = d; a = d = 0; } else if (k == 2) { b = sym_grid(-8, 8, 1, "b"); c = sym_grid(-8, 8, 1, "c"); }
  double tx = sym_grid(-60, 60, 1, "tx"), ty = sym_grid(-60, 60, 1, "ty"); double m[6] = {a, b, c, d, tx, ty}; for (int i = 0; i < 6; i++) w.st->ctm[i] = m[i]; double l = -10, u = sym_grid(-16, 0, 1, "u"), r = 20, dd = 30; w.clip(l, u, r, dd);
  switch (sym_choice(4, "event")) { case 0: w.dev->drawImage(w.st, nullptr, nullptr, 7, 9, nullptr, false, nullptr, false); break; case 1: w.dev->drawImageMask(w.st, nullptr, nullptr, 7, 9, false, false, false); break; case 2: w.dev->drawMaskedImage(w.st, nullptr, nullptr, 7, 9, nullptr, false, nullptr, 1, 1, false, false); break; case 3: w.dev->drawSoftMaskedImage(w.st, nullptr, nullptr, 7, 9, nullptr, false, nullptr, 1, 1, nullptr, false); break; }
  double il = tx + ppp::utils::math::minimum(0, a, c, a + c), ir = tx + ppp::utils::math::maximum(0, a, c, a + c), iu = ty + ppp::utils::math::minimum(0, b, d, b + d), id = ty + ppp::utils::math::maximum(0, b, d, b + d);
  bool visible = (ir > l + 0.1) & (il < r - 0.1) & (id > u + 0.1) & (iu < dd - 0.1); PdfPage* pg = w.doc.pages[0];
  if (!visible) { sym_assert(pg->figures.empty() && pg->graphics.empty(), "an image outside the clip box is ignored"); sym_reach("invisible"); return; }
  sym_assert(pg->graphics.empty() && pg->figures.size() == 1 && pg->figures[0]->graphics.size() == 1, "a visible image becomes one graphic"); PdfGraphic* g = pg->figures[0]->graphics[0];
  sym_assert((g->pos->leftX == gmx(il, l)) & (g->pos->upperY == gmx(iu, u)) & (g->pos->rightX == gmn(ir, r)) & (g->pos->lowerY == gmn(id, dd)), "the box of a graphic is the visible part of the image"); sym_assert(g->pos->pageNum == 1 && g->rank == 0 && g->doc == &w.doc && !g->id.empty(), "a graphic knows its page, document and rank"); sym_reach("visible");
}
// --- which elements belong to the page, which to which figure
extern "C" void h_owner() {
  World w(0); int N = sym_param(0), rank = 0; Unicode u = 'x'; w.clip(0, 0, 600, 800); w.page(1); w.font8("F"); struct Fig { double c[4]; double b[4]; int n[3]; }; vector<Fig> figs; int own[3] = {0, 0, 0}; int pages = 1; double tol = w.cfg.coordsEqualTolerance = 1.5; w.dev->_config.coordsEqualTolerance = tol;
  for (int i = 0; i < N; i++) {
    int k = sym_choice(i ? 4 : 3, "event"); if (k == 3) { w.clip(0, 0, 600, 800); w.page(++pages); figs.clear(); own[0] = own[1] = own[2] = 0; continue; }
    double c[4] = {0, 0, 600, 800}; int j = sym_choice(4, "side"); c[j] += sym_grid(-5, 5, 1, "moved"); w.clip(c[0], c[1], c[2], c[3]); double x = sym_grid(100, 400, 1, "x"), y = sym_grid(100, 600, 1, "y"), box[4];
    if (k == 0) { w.st->curX = x; w.st->curY = -y; w.st->ctm[0] = 1; w.st->ctm[1] = w.st->ctm[2] = 0; w.st->ctm[3] = -1; w.st->ctm[4] = w.st->ctm[5] = 0; w.draw(65, 1, &u, 1); box[0] = x; box[1] = y - 6; box[2] = x + 4; box[3] = y + 2; }
    else if (k == 1) { GfxPath* p = mkPath(1); p->subpaths[0] = mkSub(2); auto* s = p->subpaths[0]; s->x[0] = 0; s->y[0] = 0; s->x[1] = 8; s->y[1] = 4; w.st->ctm[0] = w.st->ctm[3] = 1; w.st->ctm[1] = w.st->ctm[2] = 0; w.st->ctm[4] = x; w.st->ctm[5] = y; w.st->path = p; w.dev->stroke(w.st); box[0] = x; box[1] = y; box[2] = x + 8; box[3] = y + 4; }
    else { w.st->ctm[0] = 16; w.st->ctm[3] = 12; w.st->ctm[1] = w.st->ctm[2] = 0; w.st->ctm[4] = x; w.st->ctm[5] = y; w.dev->drawImage(w.st, nullptr, nullptr, 7, 9, nullptr, false, nullptr, false); box[0] = x; box[1] = y; box[2] = x + 16; box[3] = y + 12; }
    PdfPage* pg = w.doc.pages.back(); auto same = [&](const double* a) { bool e = true; for (int q = 0; q < 4; q++) e = e & (fabs(a[q] - c[q]) <= tol); return e; }; static const double page[4] = {0, 0, 600, 800}; int r = -1;
    if (same(page)) { own[k]++; r = k == 0 ? pg->characters.back()->rank : k == 1 ? pg->shapes.back()->rank : pg->graphics.back()->rank; sym_reach("page"); }
    else { size_t f = 0; while (f < figs.size() && !same(figs[f].c)) f++; if (f == figs.size()) { Fig g; for (int q = 0; q < 4; q++) { g.c[q] = c[q]; g.b[q] = box[q]; } g.n[0] = g.n[1] = g.n[2] = 0; figs.push_back(g); } else sym_reach("same figure"); Fig& g = figs[f]; g.n[k]++; for (int q = 0; q < 4; q++) g.b[q] = q < 2 ? gmn(g.b[q], box[q]) : gmx(g.b[q], box[q]);
      sym_assert(pg->figures.size() == figs.size(), "there is one figure per clip box other than that of the page"); PdfFigure* F = pg->figures[f]; sym_assert((F->clipLeftX == g.c[0]) & (F->clipUpperY == g.c[1]) & (F->clipRightX == g.c[2]) & (F->clipLowerY == g.c[3]), "a figure keeps its clip box"); sym_assert((F->pos->leftX == g.b[0]) & (F->pos->upperY == g.b[1]) & (F->pos->rightX == g.b[2]) & (F->pos->lowerY == g.b[3]), "the box of a figure contains exactly its elements"); sym_assert((int)F->characters.size() == g.n[0] && (int)F->shapes.size() == g.n[1] && (int)F->graphics.size() == g.n[2], "an element drawn in the clip box of a figure belongs to it"); sym_assert(F->pos->pageNum == pages && F->doc == &w.doc && !F->id.empty(), "a figure knows its page and document"); r = k == 0 ? F->characters.back()->rank : k == 1 ? F->shapes.back()->rank : F->graphics.back()->rank; }
    sym_assert(r == rank, "the ranks follow the order in which the elements are drawn"); rank++; sym_assert((int)pg->characters.size() == own[0] && (int)pg->shapes.size() == own[1] && (int)pg->graphics.size() == own[2] && pg->figures.size() == figs.size(), "an element drawn in the clip box of the page belongs to the page");
  }
  sym_reach("done");
}
// a longer sequence of elements in four clip boxes, then any further one; param: number of elements before
extern "C" void h_owner_long() {
  World w(0); int N = sym_param(0) + 1, rank = 0; Unicode u = 'x'; w.clip(0, 0, 600, 800); w.page(1); w.font8("F"); struct Fig { double c[4]; double b[4]; int n[3]; }; vector<Fig> figs; int own[3] = {0, 0, 0}; int pages = 1; double tol = w.cfg.coordsEqualTolerance = 1.5; w.dev->_config.coordsEqualTolerance = tol;
  for (int i = 0; i < N; i++) {
    int k = i + 1 == N ? sym_choice(3, "event") : (i * 2 + i / 3) % 3; static const double moved[] = {0, 20, -30, 40, 3}; if (k == 3) { w.clip(0, 0, 600, 800); w.page(++pages); figs.clear(); own[0] = own[1] = own[2] = 0; continue; }
    double c[4] = {0, 0, 600, 800}; int j = sym_choice(i + 1 == N ? 4 : 1, "side"); if (i + 1 == N) c[j] += (j ? 0 : moved[sym_choice(5, "figure")]) + sym_grid(-3, 3, 1, "moved"); else c[0] += moved[(i * 3 + i / 4) % 5]; w.clip(c[0], c[1], c[2], c[3]); double x = 150 + 7 * i, y = 200 - 5 * i, box[4]; if (i + 1 == N) { x = sym_grid(100, 400, 1, "x"); y = sym_grid(100, 600, 1, "y"); }
    if (k == 0) { w.st->curX = x; w.st->curY = -y; w.st->ctm[0] = 1; w.st->ctm[1] = w.st->ctm[2] = 0; w.st->ctm[3] = -1; w.st->ctm[4] = w.st->ctm[5] = 0; w.draw(65, 1, &u, 1); box[0] = x; box[1] = y - 6; box[2] = x + 4; box[3] = y + 2; }
    else if (k == 1) { GfxPath* p = mkPath(1); p->subpaths[0] = mkSub(2); auto* s = p->subpaths[0]; s->x[0] = 0; s->y[0] = 0; s->x[1] = 8; s->y[1] = 4; w.st->ctm[0] = w.st->ctm[3] = 1; w.st->ctm[1] = w.st->ctm[2] = 0; w.st->ctm[4] = x; w.st->ctm[5] = y; w.st->path = p; w.dev->stroke(w.st); box[0] = x; box[1] = y; box[2] = x + 8; box[3] = y + 4; }
    else { w.st->ctm[0] = 16; w.st->ctm[3] = 12; w.st->ctm[1] = w.st->ctm[2] = 0; w.st->ctm[4] = x; w.st->ctm[5] = y; w.dev->drawImage(w.st, nullptr, nullptr, 7, 9, nullptr, false, nullptr, false); box[0] = x; box[1] = y; box[2] = x + 16; box[3] = y + 12; }
    PdfPage* pg = w.doc.pages.back(); auto same = [&](const double* a) { bool e = true; for (int q = 0; q < 4; q++) e = e & (fabs(a[q] - c[q]) <= tol); return e; }; static const double page[4] = {0, 0, 600, 800}; int r = -1;
    if (same(page)) { own[k]++; r = k == 0 ? pg->characters.back()->rank : k == 1 ? pg->shapes.back()->rank : pg->graphics.back()->rank; sym_reach("page"); }
    else { size_t f = 0; while (f < figs.size() && !same(figs[f].c)) f++; if (f == figs.size()) { Fig g; for (int q = 0; q < 4; q++) { g.c[q] = c[q]; g.b[q] = box[q]; } g.n[0] = g.n[1] = g.n[2] = 0; figs.push_back(g); } else sym_reach("same figure"); Fig& g = figs[f]; g.n[k]++; for (int q = 0; q < 4; q++) g.b[q] = q < 2 ? gmn(g.b[q], box[q]) : gmx(g.b[q], box[q]);
      sym_assert(pg->figures.size() == figs.size(), "there is one figure per clip box other than that of the page"); PdfFigure* F = pg->figures[f]; sym_assert((F->clipLeftX == g.c[0]) & (F->clipUpperY == g.c[1]) & (F->clipRightX == g.c[2]) & (F->clipLowerY == g.c[3]), "a figure keeps its clip box"); sym_assert((F->pos->leftX == g.b[0]) & (F->pos->upperY == g.b[1]) & (F->pos->rightX == g.b[2]) & (F->pos->lowerY == g.b[3]), "the box of a figure contains exactly its elements"); sym_assert((int)F->characters.size() == g.n[0] && (int)F->shapes.size() == g.n[1] && (int)F->graphics.size() == g.n[2], "an element drawn in the clip box of a figure belongs to it"); sym_assert(F->pos->pageNum == pages && F->doc == &w.doc && !F->id.empty(), "a figure knows its page and document"); r = k == 0 ? F->characters.back()->rank : k == 1 ? F->shapes.back()->rank : F->graphics.back()->rank; }
    sym_assert(r == rank, "the ranks follow the order in which the elements are drawn"); rank++; sym_assert((int)pg->characters.size() == own[0] && (int)pg->shapes.size() == own[1] && (int)pg->graphics.size() == own[2] && pg->figures.size() == figs.size(), "an element drawn in the clip box of the page belongs to the page");
  }
  sym_reach("done");
}
