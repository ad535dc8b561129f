// Shared helpers of the harnesses.
#ifndef H_H_
#define H_H_
#include <string>
#include <vector>
#include <sstream>
#include <cmath>
#include <limits>
#include "sym.h"
// any byte string of length <= maxLen (length is one path per value)
inline std::string symString(unsigned maxLen, const char* name, bool allowNul = true) {
  unsigned n = sym_choice(maxLen + 1, "len"); std::string s;
  for (unsigned i = 0; i < n; i++) { unsigned char c = sym_char(name); if (!allowNul) sym_assume(c != 0); s.push_back((char)c); }
  return s;
}
// a string of length <= maxLen over the given alphabet, every letter still symbolic (index variable)
inline std::string symStringOver(unsigned minLen, unsigned maxLen, const char* alphabet, const char* name) {
  unsigned n = minLen + sym_choice(maxLen - minLen + 1, "len"), k = 0; while (alphabet[k]) k++; std::string s;
  for (unsigned i = 0; i < n; i++) s.push_back(alphabet[sym_choice(k, name)]);
  return s;
}
// same, with one symbolic byte per letter
inline std::string symStringIn(unsigned minLen, unsigned maxLen, const char* alphabet, const char* name) {
  unsigned n = minLen + sym_choice(maxLen - minLen + 1, "len"); std::string s;
  for (unsigned i = 0; i < n; i++) { unsigned char c = sym_char(name); bool in = false; for (unsigned k = 0; alphabet[k]; k++) in = in | (c == (unsigned char)alphabet[k]); sym_assume(in); s.push_back((char)c); }
  return s;
}
inline void observe(const std::string& s) { sym_observe_i(s.size()); for (char c : s) sym_observe_i((unsigned char)c); }
#endif
