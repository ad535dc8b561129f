// Library functions that live in libstdc++.so / libc and that the engine therefore executes from here.
// Everything in this file is part of the trusted environment model.
#include <cstddef>
#include <cstdint>
#include <list>
#include <new>
#include <stdexcept>
#include <string>
#include <typeinfo>
#include <functional>
#include <unordered_map>
#include <map>
#include <set>
#include <chrono>
#include <ctime>

extern "C" {
size_t strlen(const char* s) { size_t n = 0; while (s[n]) n++; return n; }
size_t wcslen(const wchar_t* s) { size_t n = 0; while (s[n]) n++; return n; }
int strcmp(const char* a, const char* b) { while (*a && *a == *b) { a++; b++; } return (unsigned char)*a - (unsigned char)*b; }
int strncmp(const char* a, const char* b, size_t n) { while (n && *a && *a == *b) { a++; b++; n--; } return n ? (unsigned char)*a - (unsigned char)*b : 0; }
char* strchr(const char* s, int c) { for (;; s++) { if (*s == (char)c) return (char*)s; if (!*s) return nullptr; } }
char* strrchr(const char* s, int c) { const char* r = nullptr; for (;; s++) { if (*s == (char)c) r = s; if (!*s) return (char*)r; } }
char* strcpy(char* d, const char* s) { char* r = d; while ((*d++ = *s++)) {} return r; }
char* strncpy(char* d, const char* s, size_t n) { size_t i = 0; for (; i < n && s[i]; i++) d[i] = s[i]; for (; i < n; i++) d[i] = 0; return d; }
char* strcat(char* d, const char* s) { strcpy(d + strlen(d), s); return d; }
char* strstr(const char* h, const char* n) { size_t l = strlen(n); for (;; h++) { if (!strncmp(h, n, l)) return (char*)h; if (!*h) return nullptr; } }
void* memchr(const void* p, int c, size_t n) { const unsigned char* s = (const unsigned char*)p; for (size_t i = 0; i < n; i++) if (s[i] == (unsigned char)c) return (void*)(s + i); return nullptr; }
wchar_t* wmemcpy(wchar_t* d, const wchar_t* s, size_t n) { for (size_t i = 0; i < n; i++) d[i] = s[i]; return d; }
wchar_t* wmemmove(wchar_t* d, const wchar_t* s, size_t n) { if (d < s) for (size_t i = 0; i < n; i++) d[i] = s[i]; else for (size_t i = n; i-- > 0;) d[i] = s[i]; return d; }
wchar_t* wmemset(wchar_t* d, wchar_t c, size_t n) { for (size_t i = 0; i < n; i++) d[i] = c; return d; }
int wmemcmp(const wchar_t* a, const wchar_t* b, size_t n) { for (size_t i = 0; i < n; i++) if (a[i] != b[i]) return a[i] < b[i] ? -1 : 1; return 0; }
wchar_t* wmemchr(const wchar_t* s, wchar_t c, size_t n) { for (size_t i = 0; i < n; i++) if (s[i] == c) return (wchar_t*)(s + i); return nullptr; }
// character classes of the "C" locale; the argument must be representable as unsigned char or be EOF
void sym_assert(bool c, const char* msg);
static inline void CTYPE(int c) { if ((unsigned)c + 128 > 383) sym_assert(false, "a character class function is only given bytes"); } // glibc also allows negative bytes
int isspace(int c) { CTYPE(c); return c == ' ' || (c >= 9 && c <= 13); }
int isupper(int c) { CTYPE(c); return c >= 'A' && c <= 'Z'; }
int islower(int c) { CTYPE(c); return c >= 'a' && c <= 'z'; }
int isalpha(int c) { CTYPE(c); return ((c | 32) >= 'a') & ((c | 32) <= 'z'); }
int isdigit(int c) { CTYPE(c); return c >= '0' && c <= '9'; }
int isalnum(int c) { CTYPE(c); return isalpha(c) || isdigit(c); }
int ispunct(int c) { CTYPE(c); return c > 32 && c < 127 && !isalnum(c); }
int isxdigit(int c) { CTYPE(c); return isdigit(c) || ((c | 32) >= 'a' && (c | 32) <= 'f'); }
int isprint(int c) { CTYPE(c); return c >= 32 && c < 127; }
int tolower(int c) { return isupper(c) ? c + 32 : c; }
int toupper(int c) { return islower(c) ? c - 32 : c; }
int iswspace(unsigned c) { return c == 32 || (c >= 9 && c <= 13); }      // the "C" locale, as the program never sets another
int iswupper(unsigned c) { return c >= 65 && c <= 90; } int iswlower(unsigned c) { return c >= 97 && c <= 122; } int iswalpha(unsigned c) { return iswupper(c) || iswlower(c); } int iswdigit(unsigned c) { return c >= 48 && c <= 57; } int iswalnum(unsigned c) { return iswalpha(c) || iswdigit(c); } int iswpunct(unsigned c) { return c > 32 && c < 127 && !iswalnum(c); }
unsigned towlower(unsigned c) { return iswupper(c) ? c + 32 : c; } unsigned towupper(unsigned c) { return iswlower(c) ? c - 32 : c; }
static int the_errno;
int* __errno_location() { return &the_errno; }
long wcstol(const wchar_t* s, wchar_t** end, int base) { // decimal only
  const wchar_t* p = s; while (iswspace(*p)) p++; bool neg = false; if (*p == '-' || *p == '+') { neg = *p == '-'; p++; }
  unsigned long v = 0; bool any = false, ovf = false; for (; *p >= '0' && *p <= '9'; p++) { any = true; int d = *p - '0'; if (v > (0x7fffffffffffffffUL - d) / 10) ovf = true; else v = v * 10 + d; }
  if (end) *end = (wchar_t*)(any ? p : s); if (ovf) { the_errno = 34; return neg ? (-0x7fffffffffffffffL - 1) : 0x7fffffffffffffffL; } return neg ? -(long)v : (long)v;
}
long strtol(const char* s, char** end, int base) {
  const char* p = s; while (isspace((unsigned char)*p)) p++;
  bool neg = false; if (*p == '-' || *p == '+') { neg = *p == '-'; p++; }
  if ((base == 0 || base == 16) && p[0] == '0' && (p[1] | 32) == 'x' && isxdigit((unsigned char)p[2])) { p += 2; base = 16; }
  if (base == 0) base = *p == '0' ? 8 : 10;
  unsigned long v = 0; bool any = false, ovf = false;
  for (;; p++) { int d; unsigned char c = *p; if (isdigit(c)) d = c - '0'; else if (isalpha(c)) d = (c | 32) - 'a' + 10; else break; if (d >= base) break; any = true;
    if (v > (0x7fffffffffffffffUL - d) / base) ovf = true; else v = v * base + d; }
  if (end) *end = (char*)(any ? p : s);
  if (ovf) { the_errno = 34; return neg ? (-0x7fffffffffffffffL - 1) : 0x7fffffffffffffffL; }
  return neg ? -(long)v : (long)v;
}
int atoi(const char* s) { return (int)strtol(s, nullptr, 10); }
unsigned long strtoul(const char* s, char** end, int base) { return (unsigned long)strtol(s, end, base); }
double __sym_parse_double(const char* s, int* consumed);
double strtod(const char* s, char** end) { int n; double d = __sym_parse_double(s, &n); if (end) *end = (char*)s + n; return d; }
int __sym_fmt_double(char* buf, double v, int precision, int mode);
}

// --- std::list
namespace std { namespace __detail {
void _List_node_base::_M_hook(_List_node_base* const p) noexcept { _M_next = p; _M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this; }
void _List_node_base::_M_unhook() noexcept { _M_next->_M_prev = _M_prev; _M_prev->_M_next = _M_next; }
void _List_node_base::_M_transfer(_List_node_base* const first, _List_node_base* const last) noexcept {
  if (this != last) { last->_M_prev->_M_next = this; first->_M_prev->_M_next = last; this->_M_prev->_M_next = first;
    _List_node_base* const t = this->_M_prev; this->_M_prev = last->_M_prev; last->_M_prev = first->_M_prev; first->_M_prev = t; } }
// --- std::unordered_*: bucket policy (any policy is allowed; iteration order is unspecified)
size_t _Prime_rehash_policy::_M_next_bkt(size_t n) const {
  static const size_t primes[] = {1, 2, 5, 11, 23, 47, 97, 199, 409, 823, 1741, 3469, 6949, 14033};
  for (size_t p : primes) if (p >= n) { _M_next_resize = p; return p; }
  _M_next_resize = n; return n;
}
std::pair<bool, size_t> _Prime_rehash_policy::_M_need_rehash(size_t nb, size_t ne, size_t ni) const {
  if (ne + ni > _M_next_resize) { size_t m = (ne + ni) > nb * 2 ? (ne + ni) : nb * 2; if (m < 13) m = 11; return {true, _M_next_bkt(m)}; }
  return {false, 0};
}
} }
// strings and doubles hash to one constant: sound for any hash function up to iteration order
namespace std { size_t _Hash_bytes(const void*, size_t, size_t) { return 7; } size_t _Fnv_hash_bytes(const void*, size_t, size_t) { return 7; } }

// --- std::map / std::set: plain (unbalanced) binary search tree with the libstdc++ node layout
namespace std {
_Rb_tree_node_base* _Rb_tree_increment(_Rb_tree_node_base* x) throw() {
  if (x->_M_right) { x = x->_M_right; while (x->_M_left) x = x->_M_left; return x; }
  _Rb_tree_node_base* y = x->_M_parent; while (x == y->_M_right) { x = y; y = y->_M_parent; } if (x->_M_right != y) x = y; return x;
}
const _Rb_tree_node_base* _Rb_tree_increment(const _Rb_tree_node_base* x) throw() { return _Rb_tree_increment(const_cast<_Rb_tree_node_base*>(x)); }
_Rb_tree_node_base* _Rb_tree_decrement(_Rb_tree_node_base* x) throw() {
  if (x->_M_color == _S_red && x->_M_parent->_M_parent == x) return x->_M_right;
  if (x->_M_left) { _Rb_tree_node_base* y = x->_M_left; while (y->_M_right) y = y->_M_right; return y; }
  _Rb_tree_node_base* y = x->_M_parent; while (x == y->_M_left) { x = y; y = y->_M_parent; } return y;
}
const _Rb_tree_node_base* _Rb_tree_decrement(const _Rb_tree_node_base* x) throw() { return _Rb_tree_decrement(const_cast<_Rb_tree_node_base*>(x)); }
void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base* x, _Rb_tree_node_base* p, _Rb_tree_node_base& h) throw() {
  x->_M_parent = p; x->_M_left = x->_M_right = nullptr; x->_M_color = _S_black;
  if (left) { p->_M_left = x; if (p == &h) { h._M_parent = x; h._M_right = x; } else if (p == h._M_left) h._M_left = x; }
  else { p->_M_right = x; if (p == h._M_right) h._M_right = x; }
  h._M_color = _S_red;
}
}
// --- exceptions
// (an exception holds its virtual functions and a copy of its message)
static void symExcDtor(void*) {}
static const char* symExcWhat(const void* e) { return ((const char* const*)e)[1]; }
static const void* const symExcVtable[] = {(void*)symExcDtor, (void*)symExcDtor, (void*)symExcWhat};
static void symException(void* e, const char* m, size_t n) { char* s = (char*)malloc(n + 1); for (size_t i = 0; i < n; i++) s[i] = m[i]; s[n] = 0; ((const void**)e)[0] = symExcVtable; ((char**)e)[1] = s; }
extern "C" const char* _ZNKSt11logic_error4whatEv(const void* e) { return symExcWhat(e); }
extern "C" const char* _ZNKSt13runtime_error4whatEv(const void* e) { return symExcWhat(e); }
extern "C" {
const std::type_info* __sym_keep_typeinfo[] = { &typeid(std::exception), &typeid(std::runtime_error), &typeid(std::logic_error), &typeid(std::out_of_range), &typeid(std::invalid_argument), &typeid(std::length_error), &typeid(std::bad_alloc), &typeid(std::bad_array_new_length), &typeid(std::bad_function_call), &typeid(std::range_error), &typeid(std::bad_cast) };
void _ZNSt13runtime_errorC1EPKc(void* e, const char* m) { symException(e, m, __builtin_strlen(m)); }
void _ZNSt13runtime_errorC2EPKc(void* e, const char* m) { symException(e, m, __builtin_strlen(m)); }
void _ZNSt13runtime_errorC1ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE(void* e, const void* m) { symException(e, ((const std::string*)m)->data(), ((const std::string*)m)->size()); }
void _ZNSt13runtime_errorC2ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE(void* e, const void* m) { symException(e, ((const std::string*)m)->data(), ((const std::string*)m)->size()); }
void _ZNSt13runtime_errorD1Ev(void*) {}
void _ZNSt13runtime_errorD2Ev(void*) {}
void _ZNSt11logic_errorC1ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE(void* e, const void* m) { symException(e, ((const std::string*)m)->data(), ((const std::string*)m)->size()); }
void _ZNSt11logic_errorC2ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE(void* e, const void* m) { symException(e, ((const std::string*)m)->data(), ((const std::string*)m)->size()); }
void _ZNSt11logic_errorD1Ev(void*) {}
void _ZNSt11logic_errorD2Ev(void*) {}
void _ZNSt12out_of_rangeC1ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE(void* e, const void* m) { symException(e, ((const std::string*)m)->data(), ((const std::string*)m)->size()); }
void _ZNSt12out_of_rangeC2EPKc(void* e, const char* m) { symException(e, m, __builtin_strlen(m)); }
void _ZNSt12out_of_rangeC2ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE(void* e, const void* m) { symException(e, ((const std::string*)m)->data(), ((const std::string*)m)->size()); }
void _ZNSt12out_of_rangeD2Ev(void*) {}
void _ZNSt16invalid_argumentC2EPKc(void* e, const char* m) { symException(e, m, __builtin_strlen(m)); }
void _ZNSt16invalid_argumentC2ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE(void* e, const void* m) { symException(e, ((const std::string*)m)->data(), ((const std::string*)m)->size()); }
void _ZNSt16invalid_argumentD2Ev(void*) {}
void _ZNSt12length_errorC1EPKc(void* e, const char* m) { symException(e, m, __builtin_strlen(m)); }
void _ZNSt12length_errorC1ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE(void* e, const void* m) { symException(e, ((const std::string*)m)->data(), ((const std::string*)m)->size()); }
void _ZNSt12length_errorC2EPKc(void* e, const char* m) { symException(e, m, __builtin_strlen(m)); }
void _ZNSt12length_errorC2ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE(void* e, const void* m) { symException(e, ((const std::string*)m)->data(), ((const std::string*)m)->size()); }
void _ZNSt12length_errorD1Ev(void*) {}
void _ZNSt12length_errorD2Ev(void*) {}
void _ZNSt11range_errorC1EPKc(void* e, const char* m) { symException(e, m, __builtin_strlen(m)); }
void _ZNSt11range_errorC1ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE(void* e, const void* m) { symException(e, ((const std::string*)m)->data(), ((const std::string*)m)->size()); }
void _ZNSt11range_errorC2EPKc(void* e, const char* m) { symException(e, m, __builtin_strlen(m)); }
void _ZNSt11range_errorC2ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE(void* e, const void* m) { symException(e, ((const std::string*)m)->data(), ((const std::string*)m)->size()); }
void _ZNSt11range_errorD1Ev(void*) {}
void _ZNSt11range_errorD2Ev(void*) {}
void _ZNSt12domain_errorC1EPKc(void* e, const char* m) { symException(e, m, __builtin_strlen(m)); }
void _ZNSt12domain_errorC1ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE(void* e, const void* m) { symException(e, ((const std::string*)m)->data(), ((const std::string*)m)->size()); }
void _ZNSt12domain_errorC2EPKc(void* e, const char* m) { symException(e, m, __builtin_strlen(m)); }
void _ZNSt12domain_errorC2ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE(void* e, const void* m) { symException(e, ((const std::string*)m)->data(), ((const std::string*)m)->size()); }
void _ZNSt12domain_errorD1Ev(void*) {}
void _ZNSt12domain_errorD2Ev(void*) {}
void _ZNSt14overflow_errorC1EPKc(void* e, const char* m) { symException(e, m, __builtin_strlen(m)); }
void _ZNSt14overflow_errorC1ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE(void* e, const void* m) { symException(e, ((const std::string*)m)->data(), ((const std::string*)m)->size()); }
void _ZNSt14overflow_errorC2EPKc(void* e, const char* m) { symException(e, m, __builtin_strlen(m)); }
void _ZNSt14overflow_errorC2ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE(void* e, const void* m) { symException(e, ((const std::string*)m)->data(), ((const std::string*)m)->size()); }
void _ZNSt14overflow_errorD1Ev(void*) {}
void _ZNSt14overflow_errorD2Ev(void*) {}
void _ZNSt11logic_errorC1EPKc(void* e, const char* m) { symException(e, m, __builtin_strlen(m)); }
void _ZNSt11logic_errorC2EPKc(void* e, const char* m) { symException(e, m, __builtin_strlen(m)); }
void _ZNSt16invalid_argumentC1EPKc(void* e, const char* m) { symException(e, m, __builtin_strlen(m)); }
void _ZNSt16invalid_argumentC1ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE(void* e, const void* m) { symException(e, ((const std::string*)m)->data(), ((const std::string*)m)->size()); }
void _ZNSt16invalid_argumentD1Ev(void*) {}
void _ZNSt12out_of_rangeC1EPKc(void* e, const char* m) { symException(e, m, __builtin_strlen(m)); }
void _ZNSt12out_of_rangeD1Ev(void*) {}
int rand() noexcept __attribute__((weak));
int rand() noexcept { return 0; }
static struct tm the_tm;
struct tm* localtime(const time_t*) { return &the_tm; }
}
// the clock stands still: timing is outside every claim
namespace std { namespace chrono { inline namespace _V2 { __attribute__((weak)) system_clock::time_point system_clock::now() noexcept { return system_clock::time_point(); } __attribute__((weak)) steady_clock::time_point steady_clock::now() noexcept { return steady_clock::time_point(); } } } }
