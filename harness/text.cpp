// Text utilities: escaping, splitting, stripping, shortening, wrapping, joining, random ids.
#include "h.h"
#include <cstring>
#include "utils/TextUtils.h"
using namespace ppp::utils::text;
using std::string; using std::vector; using std::wstring;

static int nextRand;
extern "C" int rand() noexcept { return nextRand; }

static int hexv(unsigned char c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1; }
// strict decoder of the inside of a JSON string literal; false if it is not valid
static bool jsonDecode(const string& s, string* out) {
  for (size_t i = 0; i < s.size(); i++) {
    unsigned char c = s[i];
    if (c == '"' || c < 0x20) return false;
    if (c != '\\') { out->push_back((char)c); continue; }
    if (++i >= s.size()) return false;
    switch (s[i]) {
      case '"': out->push_back('"'); break; case '\\': out->push_back('\\'); break; case '/': out->push_back('/'); break;
      case 'b': out->push_back('\b'); break; case 'f': out->push_back('\f'); break; case 'n': out->push_back('\n'); break;
      case 'r': out->push_back('\r'); break; case 't': out->push_back('\t'); break;
      case 'u': { if (i + 4 >= s.size()) return false; int v = 0; for (int k = 1; k <= 4; k++) { int h = hexv(s[i + k]); if (h < 0) return false; v = v * 16 + h; } i += 4; if (v >= 0x80) return false; out->push_back((char)v); break; }
      default: return false;
    }
  }
  return true;
}
extern "C" void h_escape_json() {
  string s = symString(sym_param(0), "c"); string e = escapeJson(s), d;
  sym_assert(jsonDecode(e, &d), "escapeJson yields the inside of a valid JSON string literal");
  sym_assert(d == s, "decoding the escaped string gives the original string");
  sym_reach("done"); observe(e);
}
static bool isDelim(char c, const string& d) { return d.find(c) != string::npos; }
template <class S> static void checkSplit(const S& text, const vector<S>& words, const string& delims) {
  // reference: maximal runs of non-delimiters, in order
  size_t i = 0, w = 0;
  while (i < text.size()) {
    while (i < text.size() && isDelim((char)text[i], delims)) i++;
    if (i >= text.size()) break;
    size_t j = i; while (j < text.size() && !isDelim((char)text[j], delims)) j++;
    sym_assert(w < words.size(), "splitIntoWords loses a word");
    sym_assert(words[w] == text.substr(i, j - i), "splitIntoWords yields the maximal runs of non-delimiters in order");
    w++; i = j;
  }
  sym_assert(w == words.size(), "splitIntoWords invents a word");
}
extern "C" void h_split() {
  string t = symString(sym_param(0), "c", false);
  int own = sym_choice(2, "delims"); vector<string> words; string delims = own ? string("x-") : string(WORD_DELIMITERS_ALPHABET);
  words.push_back("keep");
  if (own) splitIntoWords(t, &words, "x-"); else splitIntoWords(t, &words);
  sym_assert(!words.empty() && words[0] == "keep", "splitIntoWords appends");
  words.erase(words.begin());
  checkSplit(t, words, delims); sym_reach("done"); sym_observe_i(words.size());
}
extern "C" void h_wsplit() {
  unsigned n = sym_choice(sym_param(0) + 1, "len"); wstring t; for (unsigned i = 0; i < n; i++) { int c = sym_int(1, 0x2ff, "c"); sym_assume(c < 0x80 || c > 0xff); t.push_back((wchar_t)c); }
  vector<wstring> words; splitIntoWords(t, &words, " -");
  size_t i = 0, w = 0; auto del = [](wchar_t c) { return c == L' ' || c == L'-'; };
  while (i < t.size()) { while (i < t.size() && del(t[i])) i++; if (i >= t.size()) break; size_t j = i; while (j < t.size() && !del(t[j])) j++; sym_assert(w < words.size() && words[w] == t.substr(i, j - i), "splitIntoWords (wide) yields the maximal runs of non-delimiters in order"); w++; i = j; }
  sym_assert(w == words.size(), "splitIntoWords (wide) invents a word"); sym_reach("done");
}
static bool sp(char c) { return c == ' ' || (c >= 9 && c <= 13); }
extern "C" void h_strip() {
  string s = symString(sym_param(0), "c"); for (char c : s) sym_assume((unsigned char)c < 128);
  string r = strip(s); size_t a = 0, b = s.size(); while (a < b && sp(s[a])) a++; while (b > a && sp(s[b - 1])) b--;
  sym_assert(r == s.substr(a, b - a), "strip removes exactly the leading and trailing whitespace");
  sym_reach(a == s.size() ? "blank" : "nonblank"); observe(r);
}
extern "C" void h_shorten() {
  string s = symString(sym_param(0), "c"); unsigned len = (unsigned)sym_choice(sym_param(0) + 2, "n");
  string r = shorten(s, len);
  if (s.size() <= len) { sym_assert(r == s, "shorten keeps a string that is short enough"); sym_reach("kept"); }
  else { sym_assert(r == s.substr(0, len) + "...", "shorten yields the prefix of the given length and '...'"); sym_reach("cut"); }
  observe(r);
}
// a long text: the length asked for is anywhere around its size
extern "C" void h_shorten_long() {
  string s = "A sentence, longer than most limits: "; unsigned n = sym_choice(6, "part"); s = s.substr(0, n * 7) + symString(sym_param(0), "c"); unsigned len = (unsigned)sym_int(0, (int)s.size() + 2, "n");
  string r = shorten(s, len);
  if (s.size() <= len) { sym_assert(r == s, "shorten keeps a string that is short enough"); sym_reach("kept"); }
  else { sym_assert(r == s.substr(0, len) + "...", "shorten yields the prefix of the given length and '...'"); sym_reach("cut"); }
  observe(r);
}
extern "C" void h_join() {
  unsigned n = sym_choice(sym_param(0) + 1, "n"); vector<string> v; for (unsigned i = 0; i < n; i++) v.push_back(symString(sym_param(1), "c"));
  int k = sym_choice(3, "sep"); string sep = k == 0 ? "" : k == 1 ? "," : ", ", ref; for (unsigned i = 0; i < n; i++) { if (i) ref += sep; ref += v[i]; }
  string r = join(v, sep); sym_assert(r == ref, "join separates every two neighbouring strings by exactly one separator"); sym_reach("done"); observe(r);
}
extern "C" void h_random() {
  unsigned len = sym_choice(sym_param(0) + 1, "len"); string prefix = symStringOver(0, 1, "p", "p");
  nextRand = sym_int(0, 2147483647, "rand");
  int alpha = sym_choice(4, "alphabet"); const char* al = alpha == 0 ? "x" : alpha == 1 ? "ab" : alpha == 2 ? "abc" : ALPHA_NUM; size_t m = strlen(al);
  string r = createRandomString(len, prefix, al);
  sym_assert(r.size() == prefix.size() + len, "createRandomString has the requested length");
  sym_assert(r.substr(0, prefix.size()) == prefix, "createRandomString starts with the prefix");
  for (size_t i = prefix.size(); i < r.size(); i++) { bool in = false; for (size_t k = 0; k < m; k++) in = in | (r[i] == al[k]); sym_assert(in, "createRandomString uses characters of the alphabet only"); }
  if (len > 0) { if (r.back() == al[m - 1]) sym_reach("last"); if (r.back() == al[0]) sym_reach("first"); }
  sym_reach("done");
}
extern "C" void h_ends() {
  string s = symString(sym_param(0), "c"); bool e = endsWithSentenceDelimiter(s); string d = SENTENCE_DELIMITERS_ALPHABET; bool ref = false;
  if (!s.empty()) for (char c : d) ref = ref | (s.back() == c);
  sym_assert(e == ref, "endsWithSentenceDelimiter looks at exactly the last character");
  bool u = startsWithUpper(s); if (!s.empty()) sym_assume((unsigned char)s[0] < 128);
  sym_assert(u == (!s.empty() && s[0] >= 'A' && s[0] <= 'Z'), "startsWithUpper looks at exactly the first character"); sym_reach("done");
}
// wrap: lines are indented, not longer than width where possible, and the text is kept
extern "C" void h_wrap() {
  string s = symStringIn(0, sym_param(0), "a \n", "c"); unsigned indent = sym_choice(3, "indent"), width = indent + 1 + sym_choice(sym_param(1), "width");
  string r = wrap(s, width, indent);
  // read the result line by line, in step with the given text
  size_t i = 0, at = 0;
  while (true) {
    size_t j = r.find('\n', i); bool last = j == string::npos; string line = last ? r.substr(i) : r.substr(i, j - i);
    bool ind = line.size() >= indent; for (unsigned k = 0; ind && k < indent; k++) ind = line[k] == ' ';
    sym_assert(ind, "wrap indents every line by exactly the indent");
    string body = line.substr(indent);
    sym_assert(at + body.size() <= s.size() && s.compare(at, body.size(), body) == 0, "wrap changes the text only at line breaks"); at += body.size();
    sym_assert(line.size() <= width || body.find(' ') == string::npos, "wrap makes no line longer than the width if it could be broken at a blank");
    if (last) { sym_assert(at == s.size(), "wrap keeps the whole text"); break; }
    sym_assert(at < s.size() && (s[at] == ' ' || s[at] == '\n'), "wrap breaks lines only at a blank or a newline");
    if (s[at] == ' ') { size_t e = at + 1; while (e < s.size() && s[e] != ' ' && s[e] != '\n') e++; sym_assert(line.size() + (e - at) > width, "wrap breaks a line only where the next word does not fit any more"); sym_reach("wrapped"); }
    at++; i = j + 1;
  }
  sym_reach("done"); observe(r);
}
// wrap with the default width keeps a short text as it is
extern "C" void h_wrap_default() {
  string s = symString(sym_param(0), "c"); for (char c : s) sym_assume(c != '\n'); sym_assert(wrap(s) == s, "wrap keeps a text that fits into a line"); sym_reach("done");
}
