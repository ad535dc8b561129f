// Counters, bounded priority queue, enum names and option validators, log filter.
#include "doc.h"
#include <boost/program_options.hpp>
#include <iostream>
#include <stdexcept>
#include "utils/Counter.h"
#include "utils/FixedCapacityPriorityQueue.h"
#include "utils/PdfElementsUtils.h"
#include "utils/Log.h"
#include "Validators.h"
#include "PdfDocumentSerialization.h"
using namespace ppp::utils::counter; using namespace ppp::utils::elements; using ppp::utils::log::Logger; using ppp::utils::log::LogLevel;
using std::string; using std::vector;
namespace po = boost::program_options;

extern "C" void h_dcounter() {
  int n = sym_choice(sym_param(0) + 1, "entries"); double key[4]; unsigned cnt[4]; DoubleCounter c;
  for (int i = 0; i < n; i++) { key[i] = sym_grid(-64, 6400, 1. / 64, "key"); cnt[i] = sym_int(0, 5, "count"); for (int j = 0; j < i; j++) sym_assume(key[i] != key[j]); c[key[i]] = cnt[i]; }
  unsigned best = 0, sum = 0; bool any = false; double mx = 0;
  for (int i = 0; i < n; i++) { sum += cnt[i]; if (cnt[i] > best) best = cnt[i]; if (cnt[i] > 0 && (!any || key[i] > mx)) { mx = key[i]; any = true; } }
  sym_assert(c.sumCounts() == sum, "sumCounts is the sum of all counts");
  bool t1 = false, t2 = false, t3 = false, t4 = false; double f = 0, m = 0; unsigned k = 0; std::pair<double, unsigned> p;
  try { f = c.mostFreq(); } catch (const std::runtime_error&) { t1 = true; }
  try { k = c.mostFreqCount(); } catch (const std::runtime_error&) { t2 = true; }
  try { p = c.mostFreqAndCount(); } catch (const std::runtime_error&) { t3 = true; }
  try { m = c.max(); } catch (const std::runtime_error&) { t4 = true; }
  sym_assert(t1 == (best == 0) && t2 == t1 && t3 == t1, "the most frequent value is refused exactly if nothing was counted");
  sym_assert(t4 == !any, "max is refused exactly if nothing was counted");
  if (any) {
    sym_assert(m == mx, "max is the largest key with a positive count");
    bool ok = false; for (int i = 0; i < n; i++) ok = ok | ((key[i] == f) & (cnt[i] == best)); sym_assert(ok, "mostFreq is a key with the largest count");
    sym_assert(k == best && p.second == best && p.first == f, "mostFreqCount is the largest count"); sym_reach("counted");
  } else sym_reach("empty");
}
extern "C" void h_dcounter_inc() {  // counting a sequence of values
  int n = sym_param(0); double v[4]; DoubleCounter c; for (int i = 0; i < n; i++) { v[i] = sym_grid(0, 6400, 1. / 64, "v"); c[v[i]]++; }
  unsigned best = 0; for (int i = 0; i < n; i++) { unsigned k = 0; for (int j = 0; j < n; j++) k += v[i] == v[j]; sym_assert(c[v[i]] == k, "a counter counts how often each value occurred"); if (k > best) best = k; }
  sym_assert(c.sumCounts() == (unsigned)n, "the counts add up to the number of values"); sym_assert(c.mostFreqCount() == best, "the largest count is that of the most frequent value"); sym_assert(c[c.mostFreq()] == best, "the most frequent value has the largest count"); sym_reach("done");
}
extern "C" void h_scounter() {
  int n = sym_choice(sym_param(0) + 1, "entries"); string key[4]; unsigned cnt[4]; StringCounter c;
  for (int i = 0; i < n; i++) { key[i] = symStringOver(0, 2, "ab", "key"); cnt[i] = sym_int(0, 5, "count"); for (int j = 0; j < i; j++) sym_assume(key[i] != key[j]); c[key[i]] = cnt[i]; }
  unsigned best = 0, sum = 0; for (int i = 0; i < n; i++) { sum += cnt[i]; if (cnt[i] > best) best = cnt[i]; }
  sym_assert(c.sumCounts() == sum, "sumCounts is the sum of all counts");
  bool t1 = false, t2 = false, t3 = false; string f; unsigned k = 0; std::pair<string, unsigned> p;
  try { f = c.mostFreq(); } catch (const std::runtime_error&) { t1 = true; }
  try { k = c.mostFreqCount(); } catch (const std::runtime_error&) { t2 = true; }
  try { p = c.mostFreqAndCount(); } catch (const std::runtime_error&) { t3 = true; }
  sym_assert(t1 == (best == 0) && t2 == t1 && t3 == t1, "the most frequent value is refused exactly if nothing was counted");
  if (best) { bool ok = false; for (int i = 0; i < n; i++) ok = ok | ((key[i] == f) & (cnt[i] == best)); sym_assert(ok, "mostFreq is a key with the largest count"); sym_assert(k == best && p.second == best && p.first == f, "mostFreqCount is the largest count"); sym_reach("counted"); } else sym_reach("empty");
}
struct Less { bool operator()(int a, int b) const { return a < b; } };
struct Greater { bool operator()(int a, int b) const { return a > b; } };
template <class C> static void queueChecks(int n, int cap, bool small, int fixed = 0) {
  FixedCapacityPriorityQueue<int, C> q(cap); vector<int> in;
  static const int pattern[][7] = {{1, 2, 3, 4, 5, 6, 7}, {70, 60, 50, 40, 30, 20, 10}, {5, -8, 5, 90, 0, 5, -8}}; const int* pat = pattern[fixed ? sym_choice(3, "pattern") : 0];
  for (int i = 0; i < n; i++) {
    int v = i < fixed ? pat[i] : sym_int(-1000, 1000, "v"); in.push_back(v); q.push(v);
    sym_assert(q.size() == (size_t)(i + 1 < cap ? i + 1 : cap), "the queue never holds more elements than its capacity and fills up to it");
  }
  vector<int> out; out.push_back(12345); q.sort(Less(), &out);
  // a push on a full queue evicts the top element, which is replaced: simulate on a plain list
  vector<int> ref; for (int v : in) { if ((int)ref.size() == cap) { size_t t = 0; for (size_t k = 1; k < ref.size(); k++) if (C()(ref[t], ref[k])) t = k; ref.erase(ref.begin() + t); } ref.push_back(v); }
  std::sort(ref.begin(), ref.end());
  bool same = out.size() == ref.size(); for (size_t k = 0; same && k < ref.size(); k++) same = out[k] == ref[k]; bool app = out.size() == ref.size() + 1 && out[0] == 12345; for (size_t k = 0; app && k < ref.size(); k++) app = out[k + 1] == ref[k];
  sym_assert(same | app, "the queue holds the values not evicted, sorted with the given comparator");
  if (!ref.empty()) { int t = ref[0]; for (int v : ref) if (C()(t, v)) t = v; sym_assert(q.top() == t, "the top is the greatest element under the queue's comparator"); }
  sym_reach(small ? "min" : "max");
}
// more pushes than a larger capacity: params: capacity, pushes, pushes of any value after the fixed ones
extern "C" void h_queue_long() { int cap = 1 + sym_choice(sym_param(0), "capacity"), n = sym_param(1), f = n - sym_param(2); if (sym_choice(2, "order")) queueChecks<Less>(n, cap, false, f); else queueChecks<Greater>(n, cap, true, f); }
extern "C" void h_queue() { int cap = 1 + sym_choice(sym_param(0), "capacity"), n = sym_choice(sym_param(1) + 1, "pushes"); if (sym_choice(2, "order")) queueChecks<Less>(n, cap, false); else queueChecks<Greater>(n, cap, true); }

// --- names and options
static const char* ELEM[] = {"pages", "blocks", "lines", "words", "characters", "figures", "shapes"};
static const char* ROLE[] = {"paragraph", "reference", "marginal", "footnote", "heading", "formula", "title", "author-info", "abstract", "date", "caption", "table", "other", "toc"};
static const char* FMT[] = {"txt", "txt-extended", "jsonl"};
static const PdfElementType ELEMV[] = {PdfElementType::PAGES, PdfElementType::TEXT_BLOCKS, PdfElementType::TEXT_LINES, PdfElementType::WORDS, PdfElementType::CHARACTERS, PdfElementType::FIGURES, PdfElementType::SHAPES};
static const SemanticRole ROLEV[] = {SemanticRole::PARAGRAPH, SemanticRole::REFERENCE, SemanticRole::MARGINAL, SemanticRole::FOOTNOTE, SemanticRole::HEADING, SemanticRole::FORMULA, SemanticRole::TITLE, SemanticRole::AUTHOR_INFO, SemanticRole::ABSTRACT, SemanticRole::DATE, SemanticRole::CAPTION, SemanticRole::TABLE, SemanticRole::OTHER, SemanticRole::TOC};
static const SerializationFormat FMTV[] = {SerializationFormat::TXT, SerializationFormat::TXT_EXTENDED, SerializationFormat::JSONL};
template <class T> static int parseOpt(const vector<string>& toks, T* out, bool twice = false) {
  boost::any v; if (twice) v = T(); try { ppp::types::validate(v, toks, (T*)nullptr, 0); } catch (...) { return 0; }
  const T* r = boost::any_cast<T>(&v); if (!r) return 2; *out = *r; return 1;
}
static bool avail(PdfElementType) { return true; }
static bool avail(SemanticRole) { return true; }
static bool avail(SerializationFormat f) { return ppp::serialization::getSerializer(f) != nullptr; }
template <class T> static void optChecks(const char** names, const T* vals, int n, unsigned maxLen) {
  // any token: recognised exactly if it is one of the names, and then it means that value
  string tok; int kind = sym_choice(3, "token kind");
  if (kind == 0) { tok = symString(maxLen, "t", false); }
  else { int k = sym_choice(n, "name"); tok = names[k]; if (kind == 2) { int p = sym_choice(tok.size() + 1, "where"); unsigned char c = sym_char("t"); sym_assume(c != 0); if (p < (int)tok.size()) tok[p] = (char)c; else tok += (char)c; } }
  if (tok.empty()) return;  // the command line parser hands over at least one character
  int idx = -1; for (int i = 0; i < n; i++) if (tok == names[i] && avail(vals[i])) idx = i;
  T v; int r = parseOpt<T>({tok}, &v);
  sym_assert((r == 1) == (idx >= 0), "an option value is accepted exactly if it is one of the documented names");
  if (idx >= 0) { sym_assert(v == vals[idx], "an option value means the thing it names"); sym_reach("accepted"); } else sym_reach("refused");
}
extern "C" void h_opt() { int w = sym_choice(3, "option"); if (w == 0) optChecks(ELEM, ELEMV, 7, sym_param(0)); else if (w == 1) optChecks(ROLE, ROLEV, 14, sym_param(0)); else optChecks(FMT, FMTV, 3, sym_param(0)); }
extern "C" void h_opt_multi() {  // several tokens, or a second occurrence, are errors
  int w = sym_choice(3, "option"), how = sym_choice(2, "how"); vector<string> toks; PdfElementType e; SemanticRole s; SerializationFormat f;
  if (w == 0) { toks.push_back("words"); if (how) toks.push_back("words"); sym_assert(parseOpt(toks, &e, !how) == 0, "an option given twice is an error"); }
  else if (w == 1) { toks.push_back("title"); if (how) toks.push_back("title"); sym_assert(parseOpt(toks, &s, !how) == 0, "an option given twice is an error"); }
  else { toks.push_back("txt"); if (how) toks.push_back("txt"); sym_assert(parseOpt(toks, &f, !how) == 0, "an option given twice is an error"); }
  sym_reach("done");
}
extern "C" void h_names() {
  int w = sym_choice(3, "enum"), i = sym_int(0, 20, "index"); string sep = symString(1, "sep", false), ref; int n = w == 0 ? 7 : w == 1 ? 14 : 3; sym_assume(i < n); const char** N = w == 0 ? ELEM : w == 1 ? ROLE : FMT;
  i = sym_concretize(i); for (int k = 0; k < n; k++) { if (k) ref += sep; ref += N[k]; }
  if (w == 0) { auto all = getPdfElementTypes(); sym_assert((int)all.size() == n && all[i] == ELEMV[i], "every element type is listed once, in order"); sym_assert(getPdfElementTypeName(all[i]) == N[i], "the name of an element type is its documented name"); sym_assert(getPdfElementTypesStr(sep) == ref, "the list of names joins all names"); sym_reach("types"); }
  else if (w == 1) { auto all = getSemanticRoles(); sym_assert((int)all.size() == n && all[i] == ROLEV[i], "every semantic role is listed once, in order"); sym_assert(getSemanticRoleName(all[i]) == N[i], "the name of a semantic role is its documented name"); sym_assert(getSemanticRolesStr(sep) == ref, "the list of names joins all names"); sym_reach("roles"); }
  else { auto all = getSerializationFormats(); sym_assert((int)all.size() == n && all[i] == FMTV[i], "every format is listed once, in order"); sym_assert(getSerializationFormatName(all[i]) == N[i], "the name of a format is its documented name"); sym_assert(getSerializationFormatsStr(sep) == ref, "the list of names joins all names");
    
    string choices = ppp::serialization::getSerializationFormatChoicesStr(), item = string(FMT[i]); bool have = ppp::serialization::getSerializer(FMTV[i]) != nullptr, listed = (", " + choices + ",").find(", " + item + ",") != string::npos;
    sym_assert(have == listed, "the help lists exactly the formats that have a serializer"); sym_assert(i == 2 || have, "the plain and the extended text format have a serializer"); sym_reach("formats"); }
}
// --- logging
extern "C" void h_log() {
  int lvl = sym_choice(5, "level of the logger"), filter = sym_int(-100000, 100000, "filter"), page = sym_int(-100000, 100000, "page"), msg = sym_choice(5, "level of the message"), set = sym_choice(2, "setters");
  std::stringstream ss; auto* old = std::cout.rdbuf(ss.rdbuf());
  Logger log(set ? LogLevel::ERROR : LogLevel(lvl), set ? -1 : filter); if (set) { log.setLogLevel(LogLevel(lvl)); log.setPageFilter(filter); }
  std::ostream& o = msg == 0 ? log.trace(page) : msg == 1 ? log.debug(page) : msg == 2 ? log.info(page) : msg == 3 ? log.warn(page) : log.error(page);
  bool shown = &o == &std::cout; o << "MSG"; string out = ss.str(); std::cout.rdbuf(old);
  bool want = (msg >= lvl) & ((filter <= 0) | (page <= 0) | (filter == page));
  sym_assert(shown == want, "a message is shown exactly if its level is at least the logger's and its page passes the filter");
  const char* names[] = {"TRACE:", "DEBUG:", "INFO:", "WARN:", "ERROR:"};
  if (want) { sym_assert(out.find(names[msg]) != string::npos && out.find("MSG") != string::npos && out.find(names[msg]) < out.find("MSG"), "a shown message is prefixed by its level"); sym_reach("shown"); }
  else { sym_assert(out.empty(), "a suppressed message leaves no trace"); sym_reach("hidden"); }
  if (sym_choice(2, "again")) { auto* o2 = std::cout.rdbuf(ss.rdbuf()); std::ostream& p = log.error(); std::cout.rdbuf(o2); sym_assert(&p == &std::cout, "errors without a page are always shown"); }
}
