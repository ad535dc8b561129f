// The visualization: which annotations are added to which page of the PDF, where, in which color.
#include <deque>
#include <map>
#include <memory>
#include <optional>
#include "doc.h"
#define private public
#define protected public
#include <poppler/Page.h>
#include <poppler/PDFDoc.h>
#include <poppler/Annot.h>
#undef private
#undef protected
#include <poppler/PDFDocEncoding.h>
#include <poppler/PDFDocFactory.h>
#include "PdfDocumentVisualization.h"
#include "utils/MathUtils.h"
using namespace ppp::config; using std::string; using std::vector; using std::unique_ptr; using ppp::visualization::PdfDocumentVisualization;
// --- what was added
struct Rgb { double v[3]; bool set = false; };
struct Rec { int kind = 0; const void* self = nullptr; double r[4]; double v[4]; bool hasV = false; Rgb color, interior; double border = -1; string text, look; bool hasText = false; int centered = 0, page = 0, drawn = 0, gfxPage = 0, order = 0; };
enum { SQUARE, CIRCLE, LINE, TEXT };
static vector<Rec*> recs; static int nPages, saved; static bool loaded, closed; static string savedTo; static vector<Page*> pageObjs; static char gfxMarks[8]; static const void* parsing; static double cfgH, cfgV; static vector<int> gfxMade; static double nextWidth; static const void* lastLook; static string lastLookText;
static Rec* rec(const void* self) { for (auto* r : recs) if (r->self == self) return r; sym_assert(false, "an annotation is made before it is used"); return nullptr; }
static Rec* made(void* self, int kind, const PDFRectangle* r) { auto* x = new Rec(); x->kind = kind; x->self = self; x->r[0] = r->x1; x->r[1] = r->y1; x->r[2] = r->x2; x->r[3] = r->y2; recs.push_back(x); return x; }
template <class F> static size_t slot(F f) { size_t w; __builtin_memcpy(&w, &f, 8); return (w - 1) / 8; }
static const void* annotVt[64]; static const void* borderVt[32]; static const void* outVt[128]; static void nop() {}
static void vDraw(void* self, Gfx* g, bool printing) { auto* r = rec(self); r->drawn++; for (int i = 1; i <= nPages; i++) if ((void*)g == (void*)&gfxMarks[i]) r->gfxPage = i; sym_assert(!printing, "an annotation is drawn to be displayed"); }
static void vContents(void* self, unique_ptr<GooString>&& t) { auto* r = rec(self); r->text = t->toStr(); r->hasText = true; }
static void vWidth(void*, double w) { nextWidth = w; }
static void tables() { for (auto& p : annotVt) p = (void*)nop; for (auto& p : borderVt) p = (void*)nop; for (auto& p : outVt) p = (void*)nop; annotVt[slot(&Annot::draw)] = (void*)vDraw; annotVt[slot(&Annot::setContents)] = (void*)vContents; borderVt[slot(&AnnotBorder::setWidth)] = (void*)vWidth; }
// --- stand-ins for Poppler
#ifdef SYMBOLIC
#define U4(i) i, i + 1, i + 2, i + 3
#define U16(i) U4(i), U4(i + 4), U4(i + 8), U4(i + 12)
#define U64(i) U16(i), U16(i + 16), U16(i + 32), U16(i + 48)
extern const Unicode pdfDocEncoding[256] = {U64(0), U64(64), U64(128), U64(192)};
#endif
AnnotColor::AnnotColor() { length = 0; values[0] = values[1] = values[2] = values[3] = -1; } AnnotColor::AnnotColor(double r, double g, double b) { values[0] = r; values[1] = g; values[2] = b; values[3] = 0; length = 3; }
static Rgb rgb(const AnnotColor* c) { Rgb x; x.set = c && c->length == 3; for (int i = 0; i < 3; i++) x.v[i] = c ? c->values[i] : -1; return x; }
DefaultAppearance::DefaultAppearance(const GooString* s) { fontPtSize = 0; lastLook = this; lastLookText = s->toStr(); }
#define ASM(n) __asm__(n)
extern "C" {
void s_geo(void* self, PDFDoc*, PDFRectangle* r, Annot::AnnotSubtype t) ASM("_ZN13AnnotGeometryC1EP6PDFDocP12PDFRectangleN5Annot12AnnotSubtypeE");
void s_line(void* self, PDFDoc*, PDFRectangle* r) ASM("_ZN9AnnotLineC1EP6PDFDocP12PDFRectangle");
void s_text(void* self, PDFDoc*, PDFRectangle* r) ASM("_ZN13AnnotFreeTextC1EP6PDFDocP12PDFRectangle");
void s_border(void* self) ASM("_ZN16AnnotBorderArrayC1Ev");
void s_doc(void*) ASM("_ZN6PDFDocD1Ev");
void s_out(void* self, PdfDocument* d, const PdfParsingConfig& c) ASM("_ZN3ppp7modules10PdfParsingC1EPNS_5types11PdfDocumentERKNS_6config16PdfParsingConfigE");
void s_free(void*) ASM("_ZN6Object4freeEv");
void s_geo(void* self, PDFDoc*, PDFRectangle* r, Annot::AnnotSubtype t) { *(const void***)self = annotVt; sym_assert(t == Annot::typeSquare || t == Annot::typeCircle, "a box or a circle is drawn"); made(self, t == Annot::typeSquare ? SQUARE : CIRCLE, r); }
void s_line(void* self, PDFDoc*, PDFRectangle* r) { *(const void***)self = annotVt; made(self, LINE, r); }
void s_text(void* self, PDFDoc*, PDFRectangle* r) { *(const void***)self = annotVt; made(self, TEXT, r); }
void s_border(void* self) { *(const void***)self = borderVt; nextWidth = 1; }
void s_doc(void*) { closed = true; }
void s_out(void* self, PdfDocument*, const PdfParsingConfig&) { *(const void***)self = outVt; parsing = self; }
void s_free(void*) {}
}
void Annot::setBorder(unique_ptr<AnnotBorder>&& b) { rec(this)->border = nextWidth; b.release(); }
void Annot::setColor(unique_ptr<AnnotColor>&& c) { rec(this)->color = rgb(c.get()); }
void AnnotGeometry::setInteriorColor(unique_ptr<AnnotColor>&& c) { rec(this)->interior = rgb(c.get()); }
void AnnotLine::setInteriorColor(unique_ptr<AnnotColor>&& c) { rec(this)->interior = rgb(c.get()); }
void AnnotLine::setVertices(double x1, double y1, double x2, double y2) { auto* r = rec(this); r->v[0] = x1; r->v[1] = y1; r->v[2] = x2; r->v[3] = y2; r->hasV = true; }
void AnnotFreeText::setDefaultAppearance(const DefaultAppearance& d) { sym_assert(&d == lastLook, "the appearance is that of the text"); rec(this)->look = lastLookText; }
void AnnotFreeText::setQuadding(VariableTextQuadding q) { rec(this)->centered = q == VariableTextQuadding::centered; }
bool Page::addAnnot(Annot* a) { auto* r = rec(a); sym_assert(r->page == 0 && r->drawn == 0, "an annotation is added once, before it is drawn"); r->page = num; return true; }
Gfx* Page::createGfx(OutputDev* o, double h, double v, int rotate, bool media, bool crop, int, int, int, int, bool, bool (*)(void*), void*, XRef*) { sym_assert((const void*)o == parsing && h == cfgH && v == cfgV && rotate == 0 && media && !crop, "the pages are set up as they were parsed"); gfxMade.push_back(num); return (Gfx*)&gfxMarks[num]; }
static string pdfPath;
PDFDocFactory::PDFDocFactory(vector<PDFDocBuilder*>*) {} PDFDocFactory::~PDFDocFactory() {}
unique_ptr<PDFDoc> PDFDocFactory::createPDFDoc(const GooString& uri, const std::optional<GooString>&, const std::optional<GooString>&, void*) { sym_assert(uri.toStr() == pdfPath, "the given PDF is visualized"); loaded = true; char* m = (char*)::operator new(sizeof(PDFDoc)); for (size_t i = 0; i < sizeof(PDFDoc); i++) m[i] = 0; return unique_ptr<PDFDoc>((PDFDoc*)m); }
int PDFDoc::getNumPages() { return nPages; } Page* PDFDoc::getPage(int n) { sym_assert(n >= 1 && n <= nPages, "only pages of the PDF are drawn on"); return pageObjs[n]; }
int PDFDoc::saveAs(const GooString& n, PDFWriteMode) { saved++; savedTo = n.toStr(); return 0; }
// --- the document
struct MediaBox { double x1, y1, x2, y2; int rotate; }; static MediaBox media[4];
// a point of the displayed page in the coordinates of the PDF page
static double atX(int p, double x, double y) { auto& m = media[p]; return m.rotate == 0 ? m.x1 + x : m.rotate == 90 ? m.x1 + y : m.rotate == 180 ? m.x2 - x : m.x2 - y; }
static double atY(int p, double x, double y) { auto& m = media[p]; return m.rotate == 0 ? m.y2 - y : m.rotate == 90 ? m.y1 + x : m.rotate == 180 ? m.y1 + y : m.y2 - x; }
static PdfDocument* doc; static PdfDocumentVisualizationConfig cfg; static ColorScheme* cs;
static void pageObj(int n, double x1, double y1, double x2, double y2, int rotate) {
  auto* a = (PageAttrs*)calloc(1, sizeof(PageAttrs)); a->mediaBox = PDFRectangle(x1, y1, x2, y2); a->cropBox = PDFRectangle(x1 + 7, y1 + 9, x2 - 11, y2 - 13); a->rotate = rotate; auto* p = (Page*)calloc(1, sizeof(Page)); p->num = n; p->attrs = a; while ((int)pageObjs.size() <= n) pageObjs.push_back(nullptr); pageObjs[n] = p; media[n] = {x1, y1, x2, y2, rotate};
}
static PdfDocumentVisualization* start(int pages, bool origin) {
  tables(); recs.clear(); gfxMade.clear(); pageObjs.clear(); loaded = closed = false; saved = 0; nPages = pages; pdfPath = "a b.pdf"; doc = mkDoc();
  for (int i = 1; i <= pages; i++) { mkPage(doc, i); double x = 0, y = 0; if (origin) { x = sym_grid(-20, 20, 5, "media x"); y = sym_grid(-20, 20, 5, "media y"); } pageObj(i, x, y, x + 500 + 100 * i, y + 700 + 50 * i, origin && i == 1 ? 90 * (int)sym_choice(4, "rotate") : origin ? 270 : 0); }
  cfg.hDPI = cfgH = 36; cfg.vDPI = cfgV = 54; cfg.semanticRoleAppearance = "role look"; cfg.readingOrderLineWidth = 3.5; cfg.readingOrderCircleRadius = 6; cfg.readingOrderIndexAppearance = "index look"; cfg.cutWidth = 1.25; cfg.cutIndexAppearance = "cut look"; cfg.cutSquareRadius = 4; cfg.cutIdAppearance = "id look";
  cs = new ColorScheme(AnnotColor(.1, .2, .3), AnnotColor(.4, .5, .6), AnnotColor(.7, .8, .9));
  auto* v = new PdfDocumentVisualization(pdfPath, cfg); sym_assert(loaded && (int)gfxMade.size() == pages, "every page is set up once"); for (int i = 0; i < pages; i++) sym_assert(gfxMade[i] == i + 1, "every page is set up once"); return v;
}
// --- what is expected
static vector<Rec> want;
static Rgb col(double r, double g, double b) { Rgb c; c.set = true; c.v[0] = r; c.v[1] = g; c.v[2] = b; return c; }
static Rec base(int kind, int page, double x1, double y1, double x2, double y2) { Rec r; r.kind = kind; r.page = page; r.r[0] = x1; r.r[1] = y1; r.r[2] = x2; r.r[3] = y2; return r; }
static void wantBox(const PdfElement* e, const Rgb& c) {
  int p = e->pos->pageNum; auto* q = e->pos; double ax = atX(p, q->leftX, q->upperY), bx = atX(p, q->rightX, q->lowerY), ay = atY(p, q->leftX, q->upperY), by = atY(p, q->rightX, q->lowerY); bool xl = (media[p].rotate == 0) | (media[p].rotate == 90), yl = (media[p].rotate == 90) | (media[p].rotate == 180); double x1 = xl ? ax : bx, x2 = xl ? bx : ax, y1 = yl ? ay : by, y2 = yl ? by : ay; double w = x2 - x1, h = y2 - y1; x2 += (w < 1) ? 1.0 : 0.0; y2 += (h < 1) ? 1.0 : 0.0;
  Rec r = base(SQUARE, p, x1, y1, x2, y2); r.color = c; want.push_back(r);
}
static void wantText(int page, double x1, double y1, double x2, double y2, const string& t, const string& look, bool centered) { Rec r = base(TEXT, page, x1, y1, x2, y2); r.text = "\xfe\xff"; for (char c : t) { r.text += '\0'; r.text += c; } r.look = look; r.hasText = true; r.centered = centered; r.border = 0; want.push_back(r); }
static void wantRole(const PdfTextBlock* b) { int p = b->pos->pageNum; double x = atX(p, b->pos->leftX, b->pos->upperY), y = atY(p, b->pos->leftX, b->pos->upperY); wantText(p, x, y, x + 100, y + 7, SEMANTIC_ROLE_NAMES[(int)b->role], "role look", false); }
static void wantLine(int page, double x1, double y1, double x2, double y2, double width, const Rgb& c) { Rec r = base(LINE, page, x1, y1, x2, y2); r.v[0] = x1; r.v[1] = y1; r.v[2] = x2; r.v[3] = y2; r.hasV = true; r.border = width; r.color = c; want.push_back(r); }
static Rgb P() { return col(.1, .2, .3); } static Rgb S() { return col(.4, .5, .6); }
static bool same(const Rgb& a, const Rgb& b) { return a.set == b.set && (!a.set || ((a.v[0] == b.v[0]) & (a.v[1] == b.v[1]) & (a.v[2] == b.v[2]))); }
// annotations of one kind appear on a page in the order of what they stand for
static void compare() {
  sym_assert(recs.size() == want.size(), "exactly the requested elements are drawn, once each");
  for (int k = 0; k < 4; k++) for (int p = 1; p <= nPages; p++) {
    vector<Rec*> a; vector<const Rec*> b; for (auto* r : recs) if (r->kind == k && r->page == p) a.push_back(r); for (auto& r : want) if (r.kind == k && r.page == p) b.push_back(&r);
    sym_assert(a.size() == b.size(), "an element is drawn on its page"); 
    for (size_t i = 0; i < a.size(); i++) {
      auto *x = a[i]; auto* y = b[i]; sym_assert(x->drawn == 1 && x->gfxPage == p, "an annotation is drawn once, on its page");
      if (k == LINE) { bool ok = x->hasV; for (int j = 0; j < 4; j++) ok = ok & (x->v[j] == y->v[j]); sym_assert(ok, "a line is drawn from where it starts to where it ends"); ok = true; sym_assert(x->border == y->border, "a line has the configured width"); }
      { bool ok = true; for (int j = 0; j < 4; j++) ok = ok & (x->r[j] == y->r[j]); sym_assert(ok, "an annotation is drawn where its element is on the page"); }
      if (k == TEXT) { sym_assert(x->hasText && x->text == y->text, "a text says what it should, in UTF-16"); sym_assert(x->look == y->look && x->centered == y->centered && x->border == 0, "a text has the configured appearance and no border"); }
      else { sym_assert(same(x->color, y->color), "an annotation has the requested color"); sym_assert(same(x->interior, y->interior), "an annotation is filled as requested"); }
    }
  }
}
static void finish(PdfDocumentVisualization* v, const char* label) { compare(); sym_assert(!saved && !closed, "the visualization is written when it is saved"); v->save("out dir/v.pdf"); sym_assert(saved == 1 && savedTo == "out dir/v.pdf" && !closed, "the visualization is written to the given path"); delete v; sym_assert(closed, "the PDF is closed"); sym_reach(label); }
static Box anyBox(double minExt) { Box b; b.l = sym_grid(0, 400, .5, "box"); b.u = sym_grid(0, 400, .5, "box"); b.r = b.l + sym_grid(0, 40, .25, "w"); b.d = b.u + sym_grid(0, 40, .25, "h"); sym_assume((b.r - b.l >= minExt) & (b.d - b.u >= minExt)); return b; }
static const Box B0 = {10, 20, 30, 45};
template <class T> static T* elem(int page, bool sym) { auto* e = new T(); place(e, page, sym ? anyBox(0) : B0); return e; }
// boxes of all kinds; on each page everything else is there, too
static void boxes(bool origin) {
  int pages = 1 + sym_choice(2, "pages"); auto* v = start(pages, origin); int kind = sym_choice(8, "kind"), n = origin ? 1 : sym_choice(3, "elements"); want.clear(); bool one = origin || sym_choice(2, "overload");
  for (int i = 1; i <= pages; i++) {
    auto* p = doc->pages[i - 1]; int m = (i == 1) ? n : 1; auto k = [&](int j) { return j == kind ? m : 1; };
    for (int j = 0; j < k(0); j++) { auto* e = mkChar(doc, i, kind == 0 ? anyBox(0) : B0, "x", j); p->characters.push_back(e); if (kind == 0) wantBox(e, P()); }
    for (int j = 0; j < k(1); j++) { auto* e = elem<PdfFigure>(i, kind == 1); p->figures.push_back(e); if (kind == 1) wantBox(e, P()); }
    for (int j = 0; j < k(2); j++) { auto* e = elem<PdfShape>(i, kind == 2); p->shapes.push_back(e); if (kind == 2) wantBox(e, P()); }
    for (int j = 0; j < k(3); j++) { auto* e = elem<PdfGraphic>(i, kind == 3); p->graphics.push_back(e); if (kind == 3) wantBox(e, P()); }
    for (int j = 0; j < k(4); j++) { auto* e = mkWord(doc, i, kind == 4 ? anyBox(0) : B0, "x", j); p->words.push_back(e); if (kind == 4) wantBox(e, P()); }
    auto* s = elem<PdfPageSegment>(i, kind == 7); p->segments.push_back(s); if (kind == 7) wantBox(s, P());
    for (int j = 0; j < k(5); j++) { auto* e = mkLine(doc, i, kind == 5 ? anyBox(0) : B0, "x", j); s->lines.push_back(e); p->textLines.push_back(e); if (kind == 5) wantBox(e, P()); }
    for (int j = 0; j < k(6); j++) { auto* e = mkBlock(doc, i, kind == 6 ? anyBox(0) : B0, "x", j); e->role = SemanticRole(kind == 6 && !origin ? (i == 1 ? sym_choice(j == 0 ? 14 : 1, "role") : 4) : 1); p->blocks.push_back(e); if (kind == 6) { wantBox(e, P()); wantRole(e); } }
    if (kind == 7) { for (int j = 0; j < m; j++) { auto* e = mkBlock(doc, i, anyBox(0), "x", 50 + j); s->blocks.push_back(e); wantBox(e, col(1, 0, 0)); } }
  }
  auto* p = doc->pages[0]; 
  if (one) switch (kind) { case 0: v->visualizeCharacters(*doc, *cs); break; case 1: v->visualizeFigures(*doc, *cs); break; case 2: v->visualizeShapes(*doc, *cs); break; case 3: v->visualizeGraphics(*doc, *cs); break; case 4: v->visualizeWords(*doc, *cs); break; case 5: v->visualizeTextLines(*doc, *cs); break; case 6: v->visualizeTextBlocks(*doc, *cs); break; default: v->visualizePageSegments(*doc, *cs); }
  else for (auto* q : doc->pages) switch (kind) { case 0: v->visualizeCharacters(q->characters, *cs); break; case 1: v->visualizeFigures(q->figures, *cs); break; case 2: v->visualizeShapes(q->shapes, *cs); break; case 3: v->visualizeGraphics(q->graphics, *cs); break; case 4: v->visualizeWords(q->words, *cs); break; case 5: v->visualizeTextLines(q->textLines, *cs); break; case 6: v->visualizeTextBlocks(q->blocks, *cs); break; default: v->visualizePageSegments(q->segments, *cs); }
  (void)p; finish(v, "done");
}
extern "C" void h_vis_boxes() { boxes(false); }
extern "C" void h_vis_origin() { boxes(true); }
static void wantCircle(int p, double x, double y, int index) { Rec r = base(CIRCLE, p, x - 6, y - 6, x + 6, y + 6); r.color = r.interior = P(); want.push_back(r); wantText(p, x - 6, y - 6, x + 6, y + 6 * 0.6, std::to_string(index), "index look", true); }
// the reading order: boxes and roles of the blocks, lines between them and their numbers
extern "C" void h_vis_order() {
  int pages = 2; bool origin = sym_choice(2, "origin"); auto* v = start(pages, origin); bool longer = sym_param(0) > 4; int n = longer ? sym_param(0) : sym_choice(sym_param(0) + 1, "blocks"), free_ = longer ? sym_choice(n, "free block") : 0; want.clear();
  for (int i = 1; i <= pages; i++) { auto* p = doc->pages[i - 1]; int m = i == 1 ? n : longer ? 11 : 2; for (int j = 0; j < m; j++) { Box fb{20. * j, 9. * ((j * 7) % 11), 20. * j + 31, 9. * ((j * 7) % 11) + 8}; auto* e = mkBlock(doc, i, i == 1 && (!longer || j == free_) ? anyBox(0) : longer ? fb : B0, "x", j); e->role = SemanticRole((j + i) % 14); p->blocks.push_back(e); } for (auto* e : p->blocks) wantBox(e, P()); for (auto* e : p->blocks) wantRole(e);
    for (int j = 0; j < m; j++) { auto mid = [&](PdfTextBlock* b, double& x, double& y) { double a = (b->pos->leftX + b->pos->rightX) / 2, c = (b->pos->upperY + b->pos->lowerY) / 2; x = atX(i, a, c); y = atY(i, a, c); }; double x, y, x2, y2; mid(p->blocks[j], x, y); if (j + 1 < m) { mid(p->blocks[j + 1], x2, y2); wantLine(i, x, y, x2, y2, 3.5, S()); } wantCircle(i, x, y, j + 1); } }
  if (origin || sym_choice(2, "overload")) v->visualizeReadingOrder(*doc, *cs); else for (auto* p : doc->pages) v->visualizeReadingOrder(p->blocks, *cs);
  finish(v, "done");
}
// cuts: lines, gray unless chosen; numbers of the chosen ones; ids
extern "C" void h_vis_cuts() {
  int pages = 2; bool origin = sym_choice(2, "origin"); auto* v = start(pages, origin); bool longer = sym_param(0) > 4; int n = longer ? sym_param(0) : sym_choice(sym_param(0) + 1, "cuts"), free_ = longer ? sym_choice(n, "free cut") : 0, skip = longer ? sym_choice(3, "pattern") : 0, which = sym_choice(2, "which"); want.clear();
  for (int i = 1; i <= pages; i++) { auto* p = doc->pages[i - 1]; int m = i == 1 ? n : longer ? 5 : 1, chosen = 0; for (int j = 0; j < m; j++) { bool fix = longer && (i > 1 || j != free_), x = fix ? j % 3 == 1 : sym_choice(2, "x"); auto* c = new Cut(x ? CutDir::X : CutDir::Y, num("cut", j), 0); c->pageNum = i; c->isChosen = fix ? skip == 0 || j % 3 != skip : sym_choice(2, "chosen"); if (fix) { c->x1 = 10 * j; c->y1 = 7 * j; c->x2 = x ? c->x1 : 300 - j; c->y2 = x ? 90 + j : c->y1; } else { c->x1 = sym_grid(0, 400, .5, "x1"); c->y1 = sym_grid(0, 400, .5, "y1"); c->x2 = sym_grid(0, 400, .5, "x2"); c->y2 = sym_grid(0, 400, .5, "y2"); } (which ? p->blockDetectionCuts : p->readingOrderCuts).push_back(c);
      double x1 = atX(i, c->x1, c->y1), y1 = atY(i, c->x1, c->y1), x2 = atX(i, c->x2, c->y2), y2 = atY(i, c->x2, c->y2); Rgb main = c->isChosen ? P() : col(.7, .7, .7); wantLine(i, x1, y1, x2, y2, 1.25, main);
      if (c->isChosen) { Rec r = base(SQUARE, i, x1 - 4, y1 - 4, x1 + 4, y1 + 4); r.color = r.interior = S(); want.push_back(r); wantText(i, x1 - 4, y1 - 4, x1 + 4, y1 + 4 * 0.6, std::to_string(++chosen), "cut look", true); }
      double tx = x ? x2 - 10 : x2 - 20, ty = x ? y2 - 10 : y2; wantText(i, tx, ty, tx + 20, ty + 10, c->id, "id look", true); }
    auto* other = new Cut(CutDir::X); other->pageNum = i; other->x1 = other->x2 = other->y1 = other->y2 = 1; (which ? p->readingOrderCuts : p->blockDetectionCuts).push_back(other); }
  bool overload = !origin && sym_choice(2, "overload"); if (!overload) { if (which) v->visualizeSegmentCuts(*doc, *cs); else v->visualizeReadingOrderCuts(*doc, *cs); } else for (auto* p : doc->pages) { if (which) v->visualizeTextBlockDetectionCuts(p->blockDetectionCuts, *cs); else v->visualizeReadingOrderCuts(p->readingOrderCuts, *cs); }
  finish(v, "done");
}
