// The pipeline (PdfToTextPlusPlus::process): which steps run, in which order, on which document and configuration.
#include "doc.h"
#include <chrono>
#include <memory>
#include <poppler/GlobalParams.h>
#define private public
#include <poppler/PDFDoc.h>
#undef private
#include <poppler/PDFDocFactory.h>
#include "DiacriticalMarksMerging.h"
#include "GlyphsStatisticsCalculation.h"
#include "PageSegmentation.h"
#include "PdfParsing.h"
#include "PdfToTextPlusPlus.h"
#include "ReadingOrderDetection.h"
#include "SubSuperScriptsDetection.h"
#include "TextBlocksDetection.h"
#include "TextLinesDetection.h"
#include "TextLinesStatisticsCalculation.h"
#include "WordsDehyphenation.h"
#include "WordsDetection.h"
#include "WordsStatisticsCalculation.h"
using namespace ppp::config; using std::string; using std::vector;
enum Step { LOAD, PARSE, GLYPHS, MARKS, WORDS, WSTAT, SEGMENTS, LINES, SCRIPTS, LSTAT, BLOCKS, ORDER, DEHYPHENATE };
static vector<int> events; static int64_t nowMs; static PdfDocument* theDoc; static const Config* theConfig; static const void* current; static bool pdfOk, linesOff; static int pdfError, pages; static bool loaded; static string path;
static void event(int s) { events.push_back(s); nowMs += 10 * s + 7; }
static void made(const void* self, const PdfDocument* d, const void* cfg, const void* want) { current = self; sym_assert(d == theDoc, "every step works on the given document"); sym_assert(cfg == want, "every step gets its own part of the configuration"); sym_assert(loaded, "the PDF is loaded first"); }
static void run(const void* self, int s) { sym_assert(self == current, "a step is run after it was set up"); event(s); }
namespace std::chrono { inline namespace _V2 {
system_clock::time_point system_clock::now() noexcept { return system_clock::time_point(std::chrono::nanoseconds(nowMs * 1000000)); }
steady_clock::time_point steady_clock::now() noexcept { return steady_clock::time_point(std::chrono::nanoseconds(nowMs * 1000000)); }
} }
// --- stand-ins for Poppler and for the steps
#ifdef SYMBOLIC
std::unique_ptr<GlobalParams> globalParams;
#endif
static bool haveGlobals;
GlobalParams::GlobalParams(const char*) { haveGlobals = true; } GlobalParams::~GlobalParams() {}
PDFDocFactory::PDFDocFactory(vector<PDFDocBuilder*>*) {} PDFDocFactory::~PDFDocFactory() {}
std::unique_ptr<PDFDoc> PDFDocFactory::createPDFDoc(const GooString& uri, const std::optional<GooString>&, const std::optional<GooString>&, void*) {
  sym_assert(haveGlobals, "Poppler is initialized before the PDF is loaded"); sym_assert(string(uri.c_str()) == path, "the PDF with the given path is loaded"); event(LOAD); loaded = true;
  char* m = (char*)::operator new(sizeof(PDFDoc)); for (size_t i = 0; i < sizeof(PDFDoc); i++) m[i] = 0; auto* d = (PDFDoc*)m; d->ok = pdfOk; d->errCode = pdfOk ? 0 : pdfError; return std::unique_ptr<PDFDoc>(d);
}
extern "C" void pdfdoc_gone(void*) __asm__("_ZN6PDFDocD1Ev"); extern "C" void pdfdoc_gone(void*) { loaded = false; }
extern "C" void parsing_made(const void* self, const PdfDocument* d, const PdfParsingConfig* c) __asm__("_ZN3ppp7modules10PdfParsingC1EPNS_5types11PdfDocumentERKNS_6config16PdfParsingConfigE");
extern "C" void parsing_gone(void*) __asm__("_ZN3ppp7modules10PdfParsingD1Ev"); static bool parsingCfgOk; static const void* parsing;
extern "C" void parsing_made(const void* self, const PdfDocument* d, const PdfParsingConfig* c) { current = parsing = self; sym_assert(d == theDoc, "every step works on the given document"); parsingCfgOk = c->skipEmbeddedFontFilesParsing == theConfig->pdfParsing.skipEmbeddedFontFilesParsing && c->logPageFilter == theConfig->pdfParsing.logPageFilter; sym_assert(parsingCfgOk, "every step gets its own part of the configuration"); }
extern "C" void parsing_gone(void*) {}
extern "C" int pdf_pages(const PDFDoc*) __asm__("_ZNK6PDFDoc11getNumPagesEv"); extern "C" int pdf_pages2(const PDFDoc*) __asm__("_ZN6PDFDoc11getNumPagesEv");
extern "C" int pdf_pages(const PDFDoc*) { return pages; } extern "C" int pdf_pages2(const PDFDoc*) { return pages; }
void PDFDoc::displayPages(OutputDev* out, int first, int last, double hDPI, double vDPI, int rotate, bool media, bool crop, bool printing, bool (*)(void*), void*, bool (*)(Annot*, void*), void*) {
  sym_assert((const void*)out == parsing && loaded, "the parser gets the events of the PDF"); sym_assert(first == 1 && last == pages, "all pages of the PDF are parsed"); sym_assert(hDPI == theConfig->pdfParsing.hDPI && vDPI == theConfig->pdfParsing.vDPI && rotate == 0, "the PDF is parsed with the configured resolution, not rotated"); sym_assert(media & !crop & !printing, "the PDF is parsed as it is displayed, with all that lies on its pages");
  for (int i = 1; i <= pages; i++) mkPage(theDoc, i); run(out, PARSE);
}
static int nextLine;
static PdfTextLine* line(int page) { return mkLine(theDoc, page, {1, 2, 3, 4}, "x", nextLine++); }
// the text lines of the pages are those of the segments (or blocks) until the next step
static void linesAre(bool blocks, const char* msg) {
  for (auto* p : theDoc->pages) { vector<PdfTextLine*> want; if (blocks) { for (auto* b : p->blocks) for (auto* l : b->lines) want.push_back(l); } else for (auto* s : p->segments) for (auto* l : s->lines) want.push_back(l); sym_assert(p->textLines == want, msg); }
}
namespace ppp::modules {
#define STEP(C, CFG, S, ...) C::C(PdfDocument* d, const CFG##Config* c) { made(this, d, c, &theConfig->S); } C::~C() {} __VA_ARGS__
STEP(GlyphsStatisticsCalculation, GlyphsStatisticsCalculation, glyphsStatisticsCalculation, void GlyphsStatisticsCalculation::process() const { run(this, GLYPHS); })
STEP(DiacriticalMarksMerging, DiacriticalMarksMerging, diacriticalMarksMerging, void DiacriticalMarksMerging::process() const { run(this, MARKS); })
STEP(WordsDetection, WordsDetection, wordsDetection, void WordsDetection::process() { run(this, WORDS); })
STEP(WordsStatisticsCalculation, WordsStatisticsCalculation, wordsStatisticsCalculation, void WordsStatisticsCalculation::process() const { run(this, WSTAT); })
STEP(PageSegmentation, PageSegmentation, pageSegmentation, void PageSegmentation::process() { run(this, SEGMENTS); for (auto* p : theDoc->pages) for (int i = 0; i < 2; i++) p->segments.push_back(new PdfPageSegment()); })
STEP(TextLinesDetection, TextLinesDetection, textLinesDetection, void TextLinesDetection::process() { run(this, LINES); for (auto* p : theDoc->pages) for (auto* s : p->segments) for (int i = 0; i < p->pageNum; i++) s->lines.push_back(line(p->pageNum)); })
STEP(SubSuperScriptsDetection, SubSuperScriptsDetection, subSuperScriptsDetection, void SubSuperScriptsDetection::process() const { run(this, SCRIPTS); linesAre(false, "the detected text lines are put on the pages at once"); })
STEP(TextLinesStatisticsCalculation, TextLinesStatisticsCalculation, textLinesStatisticsCalculation, void TextLinesStatisticsCalculation::process() const { run(this, LSTAT); linesAre(false, "the detected text lines are put on the pages at once"); })
STEP(TextBlocksDetection, TextBlocksDetection, textBlocksDetection, void TextBlocksDetection::process() { run(this, BLOCKS); linesAre(false, "the detected text lines are put on the pages at once"); for (auto* p : theDoc->pages) for (int i = 0; i < 2; i++) { auto* b = new PdfTextBlock(); b->lines.push_back(line(p->pageNum)); if (i) b->lines.push_back(line(p->pageNum)); p->blocks.push_back(b); } })
STEP(WordsDehyphenation, WordsDehyphenation, wordsDehyphenation, void WordsDehyphenation::process() const { run(this, DEHYPHENATE); })
ReadingOrderDetection::ReadingOrderDetection(PdfDocument* d, const ReadingOrderDetectionConfig* c, const SemanticRolesPredictionConfig* c2) { made(this, d, c, &theConfig->readingOrderDetection); sym_assert(c2 == &theConfig->semanticRolesPrediction, "every step gets its own part of the configuration"); } ReadingOrderDetection::~ReadingOrderDetection() {}
void ReadingOrderDetection::process() { run(this, ORDER); for (auto* p : theDoc->pages) if (p->blocks.size() > 1) std::swap(p->blocks[0], p->blocks[1]); }
}
// param: 0 for up to two pages and any steps, else the number of pages, with four steps that may be disabled
extern "C" void h_pipeline() {
  int many = sym_param(0);
  Config cfg; theConfig = &cfg; path = "a b.pdf"; theDoc = new PdfDocument(path); pages = many ? many : sym_choice(3, "pages"); pdfOk = sym_choice(4, "pdf") != 0; pdfError = sym_int(1, 12, "error"); cfg.pdfParsing.hDPI = 72; cfg.pdfParsing.vDPI = 36; cfg.pdfParsing.logPageFilter = 17; cfg.pdfParsing.skipEmbeddedFontFilesParsing = sym_int(0, 1, "skip");
  bool *flags[] = {&cfg.glyphsStatisticsCalculation.disabled, &cfg.diacriticalMarksMerging.disabled, &cfg.wordsDetection.disabled, &cfg.wordsStatisticsCalculation.disabled, &cfg.pageSegmentation.disabled, &cfg.textLinesDetection.disabled, &cfg.subSuperScriptsDetection.disabled, &cfg.textLinesStatisticsCalculation.disabled, &cfg.textBlocksDetection.disabled, &cfg.readingOrderDetection.disabled, &cfg.wordsDehyphenation.disabled};
  vector<int> off(11); for (int i = 0; i < 11; i++) { off[i] = many && i < 7 ? 0 : sym_int(0, 1, "disabled"); *flags[i] = off[i] != 0; } cfg.semanticRolesPrediction.disabled = sym_int(0, 1, "disabled") != 0;
  bool timed = sym_choice(2, "timings"); vector<Timing> t; if (timed) t.push_back(Timing("before", 1)); nowMs = 1000; events.clear();
  int rc = ppp::PdfToTextPlusPlus(&cfg).process(theDoc, timed ? &t : nullptr);
  vector<int> want; want.push_back(LOAD); if (pdfOk) { want.push_back(PARSE); for (int i = 0; i < 11; i++) if (!off[i]) want.push_back(GLYPHS + i); }
  sym_assert(rc == (pdfOk ? 0 : pdfError), "the error code of a PDF that cannot be loaded is returned, and 0 otherwise"); sym_assert(events == want, "exactly the steps that are not disabled run, once and in the documented order; none if the PDF cannot be loaded");
  sym_assert(theDoc->pages.size() == (pdfOk ? (size_t)pages : 0), "the pages of the document are those of the PDF"); linesAre(true, "in the end the text lines of a page are those of its text blocks in reading order"); sym_assert(!loaded, "the PDF is closed");
  if (timed) { sym_assert(t.size() == want.size() + 1 && t[0].name == "before" && t[0].time == 1, "each step that ran adds one running time"); for (size_t i = 0; i < want.size(); i++) { sym_assert(t[i + 1].time == 10 * want[i] + 7, "a running time is the time of its step"); sym_assert(!t[i + 1].name.empty() && t[i + 1].name != t[i].name, "a running time names its step"); } } else sym_assert(t.empty(), "each step that ran adds one running time");
  sym_reach(pdfOk ? "ok" : "error"); sym_observe_i(rc); sym_observe_i(events.size());
}
