// The command line: what each option does to the configuration, the output and the visualization.
#include <unistd.h>
#include <algorithm>
#include <chrono>
#include <ctime>
#include <iostream>
#include "doc.h"
#define PROGRAM_NAME "prog"
#define PROGRAM_DESCRIPTION "what it is for"
#define PROGRAM_USAGE "how to use it"
#define VERSION "1.2.3"
#define CONFIG_SEMANTIC_ROLES_DETECTION_MODELS_DIR "models"
#define main ppp_main
#include "pdftotext++.cpp"
#undef main
using std::string; using std::vector;
#ifdef SYMBOLIC
vector<__cli_option> __cli_options; vector<string> __cli_positional;
extern "C" time_t time(time_t*) noexcept { return 5; } extern "C" int getpid() noexcept { return 7; } extern "C" int putenv(char*) noexcept { return 0; } extern "C" void srand(unsigned) noexcept {}
AnnotColor::AnnotColor() {} AnnotColor::AnnotColor(double, double, double) {}
#else
struct __cli_option { string name; int given; vector<string> tokens; }; static vector<__cli_option> __cli_options; static vector<string> __cli_positional;
#endif
namespace std::chrono { inline namespace _V2 { system_clock::time_point system_clock::now() noexcept { return system_clock::time_point(); } steady_clock::time_point steady_clock::now() noexcept { return steady_clock::time_point(); } } }
// --- the options
static const char* STEPS[] = {"pdf-parsing", "glyphs-statistics-calculation", "diacritic-marks-merging", "words-detection", "words-statistics-calculation", "page-segmentation", "text-lines-detection", "sub-super-scripts-detection", "text-lines-statistics-calculation", "text-blocks-detection", "reading-order-detection", "semantic-roles-prediction", "words-dehyphenation"};
static const char* DRAW[] = {"characters", "figures", "shapes", "graphics", "words", "text-lines", "text-blocks", "segments", "reading-order", "segment-cuts", "reading-order-cuts"};
static int debugF[13], skipF[13], drawF[11], noDehyphenation;
static void opt(const string& n, int given, const string& token = "", bool hasToken = false) { __cli_option o; o.name = n; o.given = given; if (hasToken) o.tokens.push_back(token); for (auto& x : __cli_options) if (x.name == n) { x.tokens.push_back(token); return; } __cli_options.push_back(o); }
static void val(const string& n, const string& token) { opt(n, 1, token, true); }
static std::stringstream out, err, text; static string outPath; static int processed, serialized; static const Config* conf; static bool throws; static int status; static vector<Timing> moreTimings; static vector<int> drawn; static string drawPdf, savedTo; static int saved;
static std::unordered_set<SemanticRole> gotRoles; static std::unordered_set<PdfElementType> gotTypes; static PdfDocument* built; static int kind;   // kind of document the engine produces
static LogLevel level; static unsigned pageFilter; static bool checkConfig; static string pdfPath;
static int run() {
  out.str(""); err.str(""); text.str(""); outPath = ""; processed = serialized = saved = 0; drawn.clear(); int rc; auto *o = cout.rdbuf(out.rdbuf()), *e = cerr.rdbuf(err.rdbuf());
#ifdef SYMBOLIC
  char* argv[] = {(char*)"prog", nullptr}; rc = ppp_main(1, argv);
#else
  vector<string> a{"prog"}; for (auto& c : __cli_options) if (c.given) { if (c.tokens.empty()) a.push_back("--" + c.name); for (auto& t : c.tokens) { a.push_back("--" + c.name); a.push_back(t); } } for (auto& p : __cli_positional) a.push_back(p);
  vector<char*> argv; for (auto& x : a) argv.push_back(&x[0]); argv.push_back(nullptr); rc = ppp_main(a.size(), argv.data());
#endif
  cout.rdbuf(o); cerr.rdbuf(e); return rc;
}
static bool has(const std::stringstream& s, const string& x) { return s.str().find(x) != string::npos; }
// --- stand-ins for the engine, the writing of the output and the visualization
static PdfWord* word(PdfDocument* d, const string& t, int n) { auto* w = mkWord(d, 1, {1, 2, 3, 4}, t, n); for (size_t i = 0; i < t.size(); i++) w->characters.push_back(mkChar(d, 1, {1, 2, 3, 4}, string(1, t[i]), n * 10 + i)); return w; }
static PdfTextBlock* block(PdfDocument* d, PdfPage* p, SemanticRole r, const string& t) { int n = p->blocks.size(); auto* b = mkBlock(d, p->pageNum, {1, 2, 3, 4}, t, n); b->role = r; auto* l = mkLine(d, p->pageNum, {1, 2, 3, 4}, t, n); l->words.push_back(word(d, t, n)); b->lines.push_back(l); p->blocks.push_back(b); return b; }
namespace ppp {
PdfToTextPlusPlus::PdfToTextPlusPlus(const Config* c) : _config(c) { conf = c; } PdfToTextPlusPlus::~PdfToTextPlusPlus() {}
int PdfToTextPlusPlus::process(PdfDocument* doc, vector<Timing>* t) const {
  processed++; const Config* c = _config; sym_assert(c == conf && doc->pdfFilePath == pdfPath, "the given PDF file is processed"); built = doc;
  if (checkConfig) {
    const config::BaseConfig* parts[] = {&c->pdfParsing, &c->glyphsStatisticsCalculation, &c->diacriticalMarksMerging, &c->wordsDetection, &c->wordsStatisticsCalculation, &c->pageSegmentation, &c->textLinesDetection, &c->subSuperScriptsDetection, &c->textLinesStatisticsCalculation, &c->textBlocksDetection, &c->readingOrderDetection, &c->semanticRolesPrediction, &c->wordsDehyphenation};
    bool off[] = {c->pdfParsing.skipEmbeddedFontFilesParsing, c->glyphsStatisticsCalculation.disabled, c->diacriticalMarksMerging.disabled, c->wordsDetection.disabled, c->wordsStatisticsCalculation.disabled, c->pageSegmentation.disabled, c->textLinesDetection.disabled, c->subSuperScriptsDetection.disabled, c->textLinesStatisticsCalculation.disabled, c->textBlocksDetection.disabled, c->readingOrderDetection.disabled, c->semanticRolesPrediction.disabled, c->wordsDehyphenation.disabled};
    for (int i = 0; i < 13; i++) { int want = (i == 12) ? ((skipF[i] != 0) | (noDehyphenation != 0)) : (skipF[i] != 0); sym_assert((int)off[i] == want, "a step is skipped exactly if its --skip option (or --no-dehyphenation) is given"); sym_assert((int)parts[i]->logLevel == (debugF[i] ? (int)DEBUG : (int)level), "a step logs at the given verbosity, or everything if its --debug option is given"); sym_assert(parts[i]->logPageFilter == pageFilter, "every step logs only the given page"); }
    sym_assert(c->semanticRolesPrediction.modelsDir == "models", "the models are read from the installed directory");
  }
  if (throws) throw std::invalid_argument("no model"); if (t) for (auto& x : moreTimings) t->push_back(x); if (status > 0) return status;
  auto* p = mkPage(doc, 1); if (kind == 0) { for (int r = 0; r < 14; r++) block(doc, p, SemanticRole(r), string(1, (char)('A' + r))); } else { block(doc, p, SemanticRole::HEADING, "ab")->isEmphasized = true; auto* b = block(doc, p, SemanticRole::PARAGRAPH, "x2"); b->lines[0]->words[0]->characters[1]->isSubscript = true; block(doc, mkPage(doc, 2), SemanticRole::CAPTION, "Z"); } return 0;
}
}
namespace ppp::serialization {
void Serializer::serialize(const PdfDocument* d, const std::unordered_set<SemanticRole>& r, const std::unordered_set<PdfElementType>& u, const string& path) const { serialized++; sym_assert(d == built && !saved, "the processed document is written"); gotRoles = r; gotTypes = u; outPath = path; serializeToStream(d, r, u, text); }
}
namespace ppp::visualization {
PdfDocumentVisualization::PdfDocumentVisualization(const string& p, const PdfDocumentVisualizationConfig&) { drawPdf = p; } PdfDocumentVisualization::~PdfDocumentVisualization() {}
static void draw(const PdfDocument& d, int k) { sym_assert(&d == built && !saved, "the processed document is drawn"); drawn.push_back(k); }
void PdfDocumentVisualization::visualizeCharacters(const PdfDocument& d, const ColorScheme&) const { draw(d, 0); } void PdfDocumentVisualization::visualizeFigures(const PdfDocument& d, const ColorScheme&) const { draw(d, 1); } void PdfDocumentVisualization::visualizeShapes(const PdfDocument& d, const ColorScheme&) const { draw(d, 2); } void PdfDocumentVisualization::visualizeGraphics(const PdfDocument& d, const ColorScheme&) const { draw(d, 3); } void PdfDocumentVisualization::visualizeWords(const PdfDocument& d, const ColorScheme&) const { draw(d, 4); } void PdfDocumentVisualization::visualizeTextLines(const PdfDocument& d, const ColorScheme&) const { draw(d, 5); }
void PdfDocumentVisualization::visualizeTextBlocks(const PdfDocument& d, const ColorScheme&) const { draw(d, 6); } void PdfDocumentVisualization::visualizePageSegments(const PdfDocument& d, const ColorScheme&) const { draw(d, 7); } void PdfDocumentVisualization::visualizeReadingOrder(const PdfDocument& d, const ColorScheme&) const { draw(d, 8); } void PdfDocumentVisualization::visualizeSegmentCuts(const PdfDocument& d, const ColorScheme&) const { draw(d, 9); } void PdfDocumentVisualization::visualizeReadingOrderCuts(const PdfDocument& d, const ColorScheme&) const { draw(d, 10); }
void PdfDocumentVisualization::save(const string& p) const { saved++; savedTo = p; }
}
static void pdf() { pdfPath = "my file.pdf"; __cli_positional.push_back(pdfPath); }
// every combination of the switches, with every verbosity
extern "C" void h_cli_config() {
  checkConfig = true; pdf(); for (int i = 0; i < 13; i++) { debugF[i] = sym_int(0, 1, "debug"); skipF[i] = sym_int(0, 1, "skip"); opt(string("debug-") + STEPS[i], debugF[i]); opt(i ? string("skip-") + STEPS[i] : string("skip-embedded-font-files-parsing"), skipF[i]); } for (int i = 0; i < 11; i++) opt(string("visualize-") + DRAW[i], sym_int(0, 1, "draw"));
  noDehyphenation = sym_int(0, 1, "no-dehyphenation"); opt("no-dehyphenation", noDehyphenation);
  static const char* names[] = {"trace", "debug", "info", "warn", "error", "TRACE", "DEBUG", "INFO", "WARN", "ERROR"}; int v = sym_choice(11, "verbosity"); level = ERROR; if (v) { val("verbosity", names[v - 1]); level = LogLevel((v - 1) % 5); }
  static const char* pages[] = {"1", "37", "-1"}; int f = sym_choice(4, "page"); pageFilter = (unsigned)-1; if (f) { val("log-page-filter", pages[f - 1]); pageFilter = f == 1 ? 1 : f == 2 ? 37 : (unsigned)-1; }
  int rc = run(); sym_assert(rc == 0 && processed == 1 && serialized == 1 && outPath == "-", "the PDF is processed once and its text written to stdout"); sym_assert(drawn.empty() && !saved, "without --visualization-path nothing is drawn"); sym_assert(out.str().empty() && err.str().empty(), "nothing else is written"); sym_reach("done");
}
// format, roles, types, output file and the result of the engine
extern "C" void h_cli_output() {
  checkConfig = false; kind = 0; pdf(); static const char* formats[] = {"txt", "txt-extended"}; int f = sym_choice(3, "format"); if (f) val("format", formats[f - 1]);
  vector<int> want; int nr = sym_choice(3, "roles"); for (int i = 0; i < nr; i++) { int r = sym_choice(14, "role"); want.push_back(r); val("role", SEMANTIC_ROLE_NAMES[r]); }
  int nt = sym_choice(2, "types"), ty = 0; if (nt) { ty = sym_choice(PDF_ELEMENT_TYPE_NAMES.size(), "type"); val("type", PDF_ELEMENT_TYPE_NAMES[ty]); }
  int o = sym_choice(3, "output"); if (o == 1) __cli_positional.push_back("-"); if (o == 2) __cli_positional.push_back("a b/out.txt");
  int rc = run(); sym_assert(rc == 0 && processed == 1 && serialized == 1, "the PDF is processed and its text written once"); sym_assert(outPath == (o == 2 ? "a b/out.txt" : "-"), "the text is written to the given file, and to stdout without one");
  string expect; bool first = true; for (int r = 0; r < 14; r++) { bool in = nr == 0; for (int w : want) in = in | (w == r); if (!in) continue; if (!first) expect += "\n\n"; first = false; if (f == 2) { string n = SEMANTIC_ROLE_NAMES[r]; for (char& c : n) c = c >= 'a' && c <= 'z' ? c - 32 : c; expect += "[" + n + "] "; } expect += (char)('A' + r); } expect += f == 2 ? "\n\f\n" : "\n";
  sym_assert(text.str() == expect, "the text blocks with the given roles are written in the given format, all of them in plain text by default");
  sym_assert(nt == 0 ? gotTypes.size() == PDF_ELEMENT_TYPE_NAMES.size() : gotTypes.size() == 1 && gotTypes.count(PdfElementType(ty)) == 1, "the elements of the given types are written, all of them by default"); sym_assert(out.str().empty() && err.str().empty(), "nothing else is written");
  sym_reach("done");
}
extern "C" void h_cli_status() {
  checkConfig = false; kind = 0; pdf(); throws = sym_choice(2, "exception"); status = sym_int(0, 20, "status"); val("visualization-path", "v.pdf"); int rc = run();
  if (throws) { sym_assert(rc == 3 && has(err, "no model"), "an error of the engine is reported"); } else sym_assert(rc == status, "the exit code is that of the engine"); bool ok = !throws && rc == 0; sym_assert(serialized == (ok ? 1 : 0) && saved == (ok ? 1 : 0), "nothing is written after an error"); sym_reach(ok ? "ok" : "error"); sym_observe_i(rc);
}
extern "C" void h_cli_visualize() {
  checkConfig = false; kind = 0; pdf(); for (int i = 0; i < 11; i++) { drawF[i] = sym_int(0, 1, "draw"); opt(string("visualize-") + DRAW[i], drawF[i]); } bool path = sym_choice(4, "path"); if (path) val("visualization-path", "v 1.pdf"); int rc = run(); sym_assert(rc == 0 && serialized == 1, "the text is written");
  if (!path) { sym_assert(drawn.empty() && !saved, "without --visualization-path nothing is drawn"); sym_reach("none"); return; }
  sym_assert(saved == 1 && savedTo == "v 1.pdf" && drawPdf == pdfPath, "the visualization of the PDF is written once, to the given file"); for (int i = 0; i < 11; i++) { int n = 0; for (int k : drawn) n += k == i; sym_assert(n == (drawF[i] != 0), "exactly the requested elements are drawn"); } sym_reach("drawn");
}
static const char* PUBLIC[] = {"format", "role", "type", "control-characters", "semantic-roles", "no-scripts", "no-dehyphenation", "visualization-path", "verbosity", "version", "help"};
// --help, --full-help and --version, with and without a PDF file
extern "C" void h_cli_help() {
  checkConfig = false; int h = sym_int(0, 1, "help"), f = sym_int(0, 1, "full-help"), v = sym_int(0, 1, "version"); sym_assume((h | f | v) != 0); opt("help", h); opt("full-help", f); opt("version", v); if (sym_choice(2, "pdf")) pdf(); int rc = run();
  sym_assert(rc == 0 && !processed && !serialized && err.str().empty(), "asking for help or the version only prints it");
  if (h || f) { for (auto* n : PUBLIC) sym_assert(has(out, string("--") + n), "the help lists every public option"); for (auto* n : DRAW) sym_assert(has(out, string("--visualize-") + n), "the help lists every public option"); for (auto& x : {"prog", "1.2.3", "what it is for", "how to use it"}) sym_assert(has(out, x), "the help names the program, its version, purpose and usage");
    for (int i = 0; i < 13; i++) { sym_assert(has(out, string("--debug-") + STEPS[i]) == (f != 0), "the full help lists every option, the help the public ones"); if (i) sym_assert(has(out, string("--skip-") + STEPS[i]) == (f != 0), "the full help lists every option, the help the public ones"); } sym_reach(f ? "full" : "help"); }
  else { sym_assert(out.str() == "prog, version 1.2.3\n", "--version prints the name and the version"); sym_reach("version"); }
}
extern "C" void h_cli_errors() {
  checkConfig = false; int k = sym_choice(10, "error"); if (k != 0) pdf(); string bad = symStringIn(1, sym_param(0), "txaTX -", "c"); sym_assume(bad[0] != '-');
  if (k == 1) opt("no-such-option", 1); if (k == 2) { sym_assume(bad != "txt"); val("format", bad); } if (k == 3) val("role", bad); if (k == 4) val("type", bad); if (k == 5) val("log-page-filter", bad); if (k == 6) { __cli_positional.push_back("out"); __cli_positional.push_back("more"); } if (k == 7) { val("format", "txt"); val("format", "txt"); } if (k == 8) { val("verbosity", "info"); val("verbosity", "info"); } if (k == 9) { val("role", "title"); val("role", bad); }
  int rc = run(); sym_assert(rc == 1 && !processed && !serialized && !saved, "nothing is processed if the command line is wrong, and the exit code is 1"); sym_assert(!err.str().empty() && has(err, "--help") && out.str().empty(), "a wrong command line is reported on stderr"); sym_reach("done");
}
// the running times
extern "C" void h_cli_times() {
  checkConfig = false; kind = 0; pdf(); opt("print-running-times", 1); static const int ms[] = {0, 3, 250}; long total = 0; moreTimings.clear(); vector<long> t; int n = sym_choice(3, "timings"); for (int i = 0; i < n; i++) { t.push_back(ms[sym_choice(3, "ms")]); total += t[i]; moreTimings.push_back(Timing(i ? "Second" : "First", t[i])); }
  int rc = run(); sym_assert(rc == 0 && serialized == 1, "the text is written"); sym_assert(has(out, "Finished in " + std::to_string(total) + " ms."), "the sum of the running times is printed"); sym_assert(!has(out, "nan") && !has(out, "inf"), "the shares of the running times are numbers"); string all = out.str();
  for (int i = 0; i < n; i++) { size_t k = all.find(string(" * ") + (i ? "Second" : "First") + ":"); sym_assert(k != string::npos, "every running time is printed with its name"); size_t e = all.find('\n', k); string line = all.substr(k, e - k); sym_assert(line.find(" " + std::to_string(t[i]) + " ms ") != string::npos, "every running time is printed with its name"); if (total > 0) { long tenths = (t[i] * 1000 + total / 2) / total; sym_assert(line.find("(" + std::to_string(tenths / 10) + "." + std::to_string(tenths % 10) + "%)") != string::npos, "a running time is printed with its share of the total"); } }
  sym_assert(has(out, "Serialize"), "the time of writing the output is printed"); sym_reach(total ? "time" : "none");
}
// options that promise to change the plain text output
extern "C" void h_cli_effects() {
  checkConfig = false; kind = 1; pdf(); int k = sym_choice(4, "option"); if (k == 1) opt("control-characters", 1); if (k == 2) opt("semantic-roles", 1); if (k == 3) opt("no-scripts", 1); if (sym_choice(2, "format")) val("format", "txt"); int rc = run(); sym_assert(rc == 0 && serialized == 1, "the text is written"); string s = text.str();
  if (k == 0) sym_assert(s == "ab\n\nx2\n\nZ\n", "plain text is written without control characters and roles"); if (k == 1) sym_assert(s.find("\x01" "ab") != string::npos && s.find('\f') != string::npos, "--control-characters marks emphasized text blocks and page breaks"); if (k == 2) sym_assert(s.find("HEADING") != string::npos || s.find("heading") != string::npos, "--semantic-roles prints the role of each text block"); if (k == 3) sym_assert(s.find('2') == string::npos, "--no-scripts leaves out subscripts and superscripts"); sym_reach("done");
}
