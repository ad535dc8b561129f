// Native replay runtime: reads the recorded inputs from the file given as argv[1] (one "<type> <hex> <name>"
// per line), runs the harness entry and reports every failed assertion on stdout.
#include <cctype>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <string>
#include <vector>
#include <typeinfo>
#include <unistd.h>
#include <dlfcn.h>
#include "sym.h"
static std::vector<std::pair<char, unsigned long long>> in; static size_t pos; static int failed; static std::vector<int> params;
static std::string obs, labels;
static unsigned long long next(char t) {
  if (pos >= in.size()) { printf("REPLAY-DIVERGED: more inputs consumed than recorded\n"); fflush(stdout); _exit(4); }
  if (in[pos].first != t) { printf("REPLAY-DIVERGED: input %zu has type %c, wanted %c\n", pos, in[pos].first, t); fflush(stdout); _exit(4); }
  return in[pos++].second;
}
static double bits(unsigned long long v) { double d; memcpy(&d, &v, 8); return d; }
static void finish() { printf("OBS %s\nLABELS %s\n", obs.c_str(), labels.c_str()); fflush(stdout); }
extern "C" {
int sym_int(int, int, const char*) { return (int)next('i'); }
int sym_choice(unsigned, const char*) { return (int)next('i'); }
unsigned char sym_char(const char*) { return (unsigned char)next('c'); }
unsigned long sym_u64(const char*) { return next('q'); }
double sym_grid(int, int, double, const char*) { return bits(next('d')); }
double sym_double(const char*) { return bits(next('d')); }
void sym_assume(bool c) { if (!c) { printf("ASSUME-FAILED\n"); fflush(stdout); _exit(5); } }
void sym_assert(bool c, const char* msg) { if (!c) { printf("ASSERT-FAILED: %s\n", msg); fflush(stdout); failed = 1; _exit(3); } }
void sym_reach(const char* l) { std::string s = std::string(l); if (("," + labels + ",").find("," + s + ",") == std::string::npos) { if (!labels.empty()) labels += ","; labels += s; } }
int sym_param(unsigned i) { return i < params.size() ? params[i] : 0; }
void sym_observe_d(double v) { unsigned long long b; memcpy(&b, &v, 8); char s[32]; sprintf(s, "%llx ", b); obs += s; }
void sym_observe_i(unsigned long v) { char s[32]; sprintf(s, "%lx ", v); obs += s; }
int sym_concretize(int v) { return v; }
void sym_stop() { finish(); _exit(0); }
int sym_replaying() { return 1; }
void sym_print(const char*) {}
int __sym_is_symbolic(double) { return 0; }
}
// the same character class functions as in the symbolic run: out-of-range arguments are reported, not looked up
extern "C" {
static int CT(int c, int bit) { if ((unsigned)c + 128 > 383) sym_assert(false, "a character class function is only given bytes"); return ((*__ctype_b_loc())[c] & bit) != 0; }
#define F(n, b) int n(int c) noexcept { return CT(c, b); }
F(isspace, _ISspace) F(isupper, _ISupper) F(islower, _ISlower) F(isalpha, _ISalpha) F(isdigit, _ISdigit) F(isalnum, _ISalnum) F(ispunct, _ISpunct) F(isxdigit, _ISxdigit) F(isprint, _ISprint)
}
int main(int argc, char** argv) { // entry, replay file, integer parameters...
  void (*entry)() = (void (*)())dlsym(RTLD_DEFAULT, argv[1]); if (!entry) { printf("NO-ENTRY\n"); return 9; }
  FILE* f = fopen(argv[2], "r"); if (!f) return 9; char line[4096];
  while (fgets(line, sizeof line, f)) { if (line[0] == '#' || line[0] == '\n') continue; char t; unsigned long long v; if (sscanf(line, "%c %llx", &t, &v) == 2) in.push_back({t, v}); }
  fclose(f);
  for (int i = 3; i < argc; i++) params.push_back(atoi(argv[i]));
  try { entry(); } catch (const std::exception& e) { printf("UNCAUGHT %s: %s\n", typeid(e).name(), e.what()); fflush(stdout); _exit(6); } catch (...) { printf("UNCAUGHT\n"); fflush(stdout); _exit(6); }
  finish(); _exit(failed ? 3 : 0);
}
