// Where the output goes: the file system, the shell and the standard streams are stand-ins here, in the
// symbolic run as well as in the replay, so nothing is ever written outside the harness.
#include "doc.h"
#include "serializers/PlainTextSerializer.h"
#include <filesystem>
#include <iostream>
#ifndef SYMBOLIC
#include <cerrno>
#include <dlfcn.h>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <unistd.h>
#endif
using namespace ppp::serialization; using std::string; using std::vector; using std::unordered_set;
// --- a small file system: the absolute paths of its directories and files
static vector<string> dirs, files, contents; static int shells; static bool active;
static string resolve(const string& p) {   // "." and empty components vanish; the working directory is /w
  string full = !p.empty() && p[0] == '/' ? p : "/w/" + p, r, c; full += '/';
  for (char x : full) { if (x != '/') { c += x; continue; } if (!c.empty() && !(c.size() == 1 && c[0] == '.')) { r += '/'; r += c; } c.clear(); } return r.empty() ? "/" : r;
}
static int find(const vector<string>& v, const string& p) { for (size_t i = 0; i < v.size(); i++) if (v[i].size() == p.size() && v[i] == p) return i; return -1; }
static string parentOf(const string& p) { size_t k = p.size(); while (k > 0 && p[k - 1] != '/') k--; return k <= 1 ? string("/") : p.substr(0, k - 1); }
static int mkdirs(const string& p) {
  if (p.empty()) return 2; string r = resolve(p); vector<string> chain; for (string q = r; q.size() > 1; q = parentOf(q)) chain.push_back(q); int made = 0;
  for (size_t i = chain.size(); i-- > 0;) { if (find(files, chain[i]) >= 0) return 2; if (find(dirs, chain[i]) < 0) { dirs.push_back(chain[i]); made = 1; } } return made;
}
static int kindOf(const string& p) { if (p.empty()) return 0; string r = resolve(p); return find(dirs, r) >= 0 ? 2 : find(files, r) >= 0 && p[p.size() - 1] != '/' ? 1 : 0; }
static int openFile(const string& p) {   // the index of the file, or -1
  if (p.empty() || p[p.size() - 1] == '/') return -1; string r = resolve(p); if (find(dirs, r) >= 0) return -1; if (find(dirs, parentOf(r)) < 0) return -1; int k = find(files, r); if (k < 0) { k = files.size(); files.push_back(r); contents.push_back(""); } contents[k] = ""; return k;
}
// --- a small shell: words, quotes and "mkdir -p"
extern "C" int system(const char* cmd) {
  shells++; vector<string> words; string cur; bool have = false; string c = cmd; size_t i = 0;
  while (i < c.size()) {
    char x = c[i++]; if (x == ' ') { if (have) words.push_back(cur); cur.clear(); have = false; continue; }
    if (x == '\'') { have = true; while (i < c.size() && c[i] != '\'') cur += c[i++]; if (i >= c.size()) return 2; i++; continue; }
    if (x == '"') { have = true; while (i < c.size() && c[i] != '"') { if (c[i] == '\\' && i + 1 < c.size() && (c[i + 1] == '"' || c[i + 1] == '\\' || c[i + 1] == '$' || c[i + 1] == '`')) i++; else sym_assert(c[i] != '$' && c[i] != '`', "no part of the output path is executed by a shell"); cur += c[i++]; } if (i >= c.size()) return 2; i++; continue; }
    if (x == '\\' && i < c.size()) { have = true; cur += c[i++]; continue; }
    sym_assert(x != '$' && x != '`' && x != ';' && x != '|' && x != '&' && x != '<' && x != '>' && x != '(' && x != ')' && x != '*' && x != '?' && x != '\n', "no part of the output path is executed by a shell"); have = true; cur += x;
  }
  if (have) words.push_back(cur); if (words.size() < 3 || words[0] != "mkdir" || words[1] != "-p") return 1; size_t k = 2; if (words[2] == "--") k = 3; int rc = words.size() > k ? 0 : 1; for (; k < words.size(); k++) { if (!words[k].empty() && words[k][0] == '-') return 1; if (mkdirs(words[k]) == 2) rc = 1; } return rc;
}
#ifdef SYMBOLIC
__sym_file __symfs_open_read(const char*) { return {false, string()}; }
void __symfs_open_write(const char* p, bool* ok) { *ok = openFile(p) >= 0; }
void __symfs_write(const char* p, const string& data) { int k = find(files, resolve(p)); if (k >= 0) contents[k] = data; }
int __symfs_mkdirs(const char* p) { return mkdirs(p); } int __symfs_kind(const char* p) { return kindOf(p); }
static void fetch() {}
#else
// the replay: the C library functions behind ofstream and create_directories work on the same model
static int fds[64];
static FILE* realOpen(const char* p, const char* m) { static FILE* (*f)(const char*, const char*) = (FILE * (*)(const char*, const char*))dlsym(RTLD_NEXT, "fopen"); return f(p, m); }
static FILE* modelOpen(const char* p) { int k = openFile(p); if (k < 0) { errno = ENOENT; return nullptr; } int fd = memfd_create("out", 0); fds[k] = dup(fd); return fdopen(fd, "w"); }
extern "C" FILE* fopen(const char* p, const char* m) { return active ? modelOpen(p) : realOpen(p, m); }
extern "C" FILE* fopen64(const char* p, const char* m) { return active ? modelOpen(p) : realOpen(p, m); }
extern "C" int mkdir(const char* p, mode_t m) noexcept { static int (*f)(const char*, mode_t) = (int (*)(const char*, mode_t))dlsym(RTLD_NEXT, "mkdir"); if (!active) return f(p, m); int k = kindOf(p); if (k) { errno = EEXIST; return -1; } string r = resolve(p); if (find(dirs, parentOf(r)) < 0) { errno = find(files, parentOf(r)) >= 0 ? ENOTDIR : ENOENT; return -1; } dirs.push_back(r); return 0; }
static int modelStat(const char* p, struct stat* s) { int k = kindOf(p); if (!k) { string r = resolve(p); errno = ENOENT; for (string q = r; q.size() > 1; q = parentOf(q)) if (find(files, q) >= 0) errno = ENOTDIR; return -1; } *s = {}; s->st_mode = k == 2 ? S_IFDIR | 0755 : S_IFREG | 0644; return 0; }
extern "C" int stat(const char* p, struct stat* s) noexcept { static int (*f)(const char*, struct stat*) = (int (*)(const char*, struct stat*))dlsym(RTLD_NEXT, "stat"); return active ? modelStat(p, s) : f(p, s); }
extern "C" int lstat(const char* p, struct stat* s) noexcept { static int (*f)(const char*, struct stat*) = (int (*)(const char*, struct stat*))dlsym(RTLD_NEXT, "lstat"); return active ? modelStat(p, s) : f(p, s); }
static void fetch() { for (size_t k = 0; k < files.size(); k++) if (fds[k]) { char b[4096]; ssize_t n = pread(fds[k], b, sizeof b, 0); contents[k] = string(b, n > 0 ? n : 0); } }
#endif
static PdfDocument* oneWord(const string& t) { PdfDocument* d = mkDoc(); auto* pg = mkPage(d, 1); auto* b = mkBlock(d, 1, {1, 2, 3, 4}, t, 0); pg->blocks.push_back(b); auto* l = mkLine(d, 1, {1, 2, 3, 4}, t, 0); b->lines.push_back(l); auto* w = mkWord(d, 1, {1, 2, 3, 4}, t, 0); l->words.push_back(w); w->characters.push_back(mkChar(d, 1, {1, 2, 3, 4}, t, 0)); return d; }
// params: length of the path, 1 if with the characters a shell knows
extern "C" void h_target() {
  string path = symStringIn(0, sym_param(0), sym_param(1) ? "a$ ;'`" : "a./ ", "path"); if (sym_param(1)) path = "b/" + path + "/c"; for (size_t i = 1; i < path.size(); i++) sym_assume(!((path[i] == '.') & (path[i - 1] == '.')));
  dirs = {"/", "/w", "/w/a"}; files = {"/w/aa"}; contents = {"old"}; shells = 0; vector<string> dirs0 = dirs; string text = symStringIn(1, 1, "xyz", "text"); PdfDocument* d = oneWord(text); text += "\n"; bool std_ = path == "-"; string r = resolve(path);
  // what has to happen
  size_t slash = path.find_last_of('/'); string last = slash == string::npos ? path : path.substr(slash + 1); bool file = !last.empty() && last != "."; for (string q = parentOf(r); q.size() > 1; q = parentOf(q)) if (find(files, q) >= 0) file = false; if (find(dirs, r) >= 0) file = false;
  std::stringstream out, err; auto *o = std::cout.rdbuf(out.rdbuf()), *e = std::cerr.rdbuf(err.rdbuf()); active = true; PlainTextSerializer s; s.serialize(d, {}, {}, path); active = false; std::cout.rdbuf(o); std::cerr.rdbuf(e); fetch();
  if (std_) { sym_assert(out.str() == text, "the output is written to stdout if the path is \"-\""); sym_assert(files.size() == 1 && contents[0] == "old" && dirs.size() == dirs0.size(), "no file is touched if the output goes to stdout"); sym_reach("stdout"); return; }
  sym_assert(out.str().empty(), "nothing is written to stdout if the output goes to a file");
  for (size_t i = dirs0.size(); i < dirs.size(); i++) { bool above = false; for (string q = parentOf(r); q.size() > 1; q = parentOf(q)) above |= dirs[i].size() == q.size() && dirs[i] == q; sym_assert(above || (!last.empty() && last == ".") || last.empty(), "no directory is created but the missing ones above the file"); }
  int k = find(files, r); if (file) { sym_assert(k >= 0 && contents[k] == text, "the output is written to exactly the given file, and missing directories are created"); sym_assert(files.size() == (r == "/w/aa" ? 1 : 2) && err.str().empty(), "no other file is touched"); sym_reach(dirs.size() > dirs0.size() ? "new directory" : "file"); }
  else { sym_assert(!err.str().empty(), "an output file that cannot be written is reported"); sym_assert(files.size() == 1 && contents[0] == "old", "no other file is touched"); sym_reach("error"); }
}
// standard output
extern "C" void h_stdout() {
  dirs = {"/", "/w"}; files.clear(); contents.clear(); string text = symString(2, "text"); PdfDocument* d = oneWord(text); std::stringstream out; auto* o = std::cout.rdbuf(out.rdbuf()); active = true; PlainTextSerializer().serialize(d, {SemanticRole::PARAGRAPH}, {}, "-"); active = false; std::cout.rdbuf(o); text += "\n"; string got = out.str();
  sym_assert(got.size() == text.size() && got == text, "the output is written to stdout if the path is \"-\""); sym_assert(files.empty() && dirs.size() == 2, "no file is touched if the output goes to stdout"); sym_reach("stdout");
}
