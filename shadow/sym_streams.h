// Minimal model of the iostream library used for the symbolic build only (the replay build uses the
// real one). A stream buffer is a growing string (output) or a string with a read position (input).
#ifndef SYM_STREAMS_H_
#define SYM_STREAMS_H_
#include <iosfwd>
#include <string>
#include <string_view>
#include <cstdio>
#include <cstdint>
#include <ctime>

extern "C" int __sym_fmt_double(char* buf, double v, int precision, int mode);
extern "C" double __sym_parse_double(const char* s, int* consumed);
// virtual files of the harness: weak defaults say that nothing can be opened
struct __sym_file { bool ok; std::string data; };
__sym_file __symfs_open_read(const char* path);
void __symfs_open_write(const char* path, bool* ok);
void __symfs_write(const char* path, const std::string& data);

namespace std {
class locale { public: bool utf8 = false, bom = false; locale() {} explicit locale(const char*) {} explicit locale(const std::string&) {} template <class F> locale(const locale&, F* f) { if constexpr (requires { f->__sym_utf8; }) { utf8 = true; bom = f->__sym_bom; } } static const locale& classic() { static locale l; return l; } };

class ios_base {
 public:
  typedef unsigned fmtflags; typedef unsigned iostate; typedef unsigned openmode; typedef unsigned seekdir;
  static constexpr fmtflags dec = 1, hex = 2, oct = 4, basefield = 7, fixed = 8, scientific = 16, floatfield = 24, boolalpha = 32, left = 64, right = 128, internal = 256, adjustfield = 448, skipws = 512, uppercase = 1024, showpoint = 2048, showbase = 4096, showpos = 8192, unitbuf = 16384;
  static constexpr iostate goodbit = 0, badbit = 1, eofbit = 2, failbit = 4;
  static constexpr openmode app = 1, ate = 2, binary = 4, in = 8, out = 16, trunc = 32;
  static constexpr seekdir beg = 0, cur = 1, end = 2;
  class Init { public: Init() {} ~Init() {} };
  fmtflags flags() const { return _f; }
  fmtflags flags(fmtflags f) { fmtflags o = _f; _f = f; return o; }
  fmtflags setf(fmtflags f) { fmtflags o = _f; _f |= f; return o; }
  fmtflags setf(fmtflags f, fmtflags m) { fmtflags o = _f; _f = (_f & ~m) | (f & m); return o; }
  void unsetf(fmtflags f) { _f &= ~f; }
  streamsize precision() const { return _prec; }
  streamsize precision(streamsize p) { streamsize o = _prec; _prec = p; return o; }
  streamsize width() const { return _width; }
  streamsize width(streamsize w) { streamsize o = _width; _width = w; return o; }
  locale getloc() const { return locale(); }
  locale imbue(const locale&) { return locale(); }
  static bool sync_with_stdio(bool = true) { return true; }
  virtual ~ios_base() {}
 protected:
  ios_base() {}
  fmtflags _f = dec | skipws; streamsize _prec = 6, _width = 0;
};
inline ios_base& hex(ios_base& b) { b.setf(ios_base::hex, ios_base::basefield); return b; }
inline ios_base& dec(ios_base& b) { b.setf(ios_base::dec, ios_base::basefield); return b; }
inline ios_base& oct(ios_base& b) { b.setf(ios_base::oct, ios_base::basefield); return b; }
inline ios_base& fixed(ios_base& b) { b.setf(ios_base::fixed, ios_base::floatfield); return b; }
inline ios_base& scientific(ios_base& b) { b.setf(ios_base::scientific, ios_base::floatfield); return b; }
inline ios_base& boolalpha(ios_base& b) { b.setf(ios_base::boolalpha); return b; }
inline ios_base& noboolalpha(ios_base& b) { b.unsetf(ios_base::boolalpha); return b; }
inline ios_base& left(ios_base& b) { b.setf(ios_base::left, ios_base::adjustfield); return b; }
inline ios_base& right(ios_base& b) { b.setf(ios_base::right, ios_base::adjustfield); return b; }
inline ios_base& internal(ios_base& b) { b.setf(ios_base::internal, ios_base::adjustfield); return b; }
inline ios_base& skipws(ios_base& b) { b.setf(ios_base::skipws); return b; }
inline ios_base& noskipws(ios_base& b) { b.unsetf(ios_base::skipws); return b; }
inline ios_base& uppercase(ios_base& b) { b.setf(ios_base::uppercase); return b; }
inline ios_base& nouppercase(ios_base& b) { b.unsetf(ios_base::uppercase); return b; }
inline ios_base& showbase(ios_base& b) { b.setf(ios_base::showbase); return b; }

template <typename C, typename T> class basic_streambuf {
 public:
  basic_string<C> _s; size_t _pos = 0; bool _bad = false; // _bad: undecodable bytes follow
  virtual ~basic_streambuf() {}
  int sgetc() { return _pos < _s.size() ? (int)(typename make_unsigned<C>::type)_s[_pos] : -1; }
  int sbumpc() { return _pos < _s.size() ? (int)(typename make_unsigned<C>::type)_s[_pos++] : -1; }
};
template <typename C, typename T> class basic_ios : public ios_base {
 public:
  typedef C char_type; typedef T traits_type;
  basic_streambuf<C, T>* _sb = nullptr; iostate _st = goodbit; C _fill = C(' ');
  basic_ios() {}
  explicit basic_ios(basic_streambuf<C, T>* b) : _sb(b), _st(b ? goodbit : badbit) {}
  void init(basic_streambuf<C, T>* b) { _sb = b; _st = b ? goodbit : badbit; }
  basic_streambuf<C, T>* rdbuf() const { return _sb; }
  basic_streambuf<C, T>* rdbuf(basic_streambuf<C, T>* b) { auto* o = _sb; _sb = b; _st = b ? goodbit : badbit; return o; }
  C fill() const { return _fill; } C fill(C c) { C o = _fill; _fill = c; return o; }
  bool good() const { return _st == goodbit; } bool eof() const { return _st & eofbit; }
  bool fail() const { return _st & (failbit | badbit); } bool bad() const { return _st & badbit; }
  iostate rdstate() const { return _st; } void setstate(iostate s) { _st |= s; } void clear(iostate s = goodbit) { _st = s; }
  explicit operator bool() const { return !fail(); } bool operator!() const { return fail(); }
  void exceptions(iostate) {}
};
template <typename C, typename T> class basic_ostream : virtual public basic_ios<C, T> {
 public:
  explicit basic_ostream(basic_streambuf<C, T>* b) { this->init(b); }
  basic_ostream() {}
  virtual ~basic_ostream() {}
  void _put(const C* p, size_t n) { if (this->_sb && !this->_st) this->_sb->_s.append(p, n); }
  basic_ostream& _padded(const C* p, size_t n) {
    if (!this->_sb || this->_st) { this->_width = 0; return *this; }
    size_t w = this->_width > 0 ? (size_t)this->_width : 0; this->_width = 0;
    bool l = this->_f & ios_base::left; size_t pad = w > n ? w - n : 0;
    if (!l) this->_sb->_s.append(pad, this->_fill); this->_sb->_s.append(p, n); if (l) this->_sb->_s.append(pad, this->_fill);
    return *this;
  }
  basic_ostream& _num(unsigned long v, bool neg) {
    if (!this->_sb || this->_st) { this->_width = 0; return *this; }
    C b[72]; int i = 72; unsigned base = (this->_f & ios_base::hex) ? 16 : (this->_f & ios_base::oct) ? 8 : 10;
    const char* dg = (this->_f & ios_base::uppercase) ? "0123456789ABCDEF" : "0123456789abcdef";
    do { b[--i] = (C)dg[v % base]; v /= base; } while (v); if (neg) b[--i] = C('-'); return _padded(b + i, 72 - i);
  }
  bool _b10() const { return !(this->_f & (ios_base::hex | ios_base::oct)); }
  basic_ostream& operator<<(long v) { return (v < 0 && _b10()) ? _num(0UL - (unsigned long)v, true) : _num((unsigned long)v, false); }
  basic_ostream& operator<<(int v) { return (v < 0 && _b10()) ? _num(0UL - (unsigned long)(long)v, true) : _num((unsigned)v, false); }
  basic_ostream& operator<<(short v) { return *this << (int)v; }
  basic_ostream& operator<<(unsigned long v) { return _num(v, false); }
  basic_ostream& operator<<(unsigned v) { return _num(v, false); }
  basic_ostream& operator<<(unsigned short v) { return _num(v, false); }
  basic_ostream& operator<<(long long v) { return *this << (long)v; }
  basic_ostream& operator<<(unsigned long long v) { return _num((unsigned long)v, false); }
  basic_ostream& operator<<(bool v) { if (this->_f & ios_base::boolalpha) { const char* s = v ? "true" : "false"; C b[6]; size_t n = 0; while (s[n]) { b[n] = (C)s[n]; n++; } return _padded(b, n); } return _num(v, false); }
  basic_ostream& operator<<(double v) {
    if (!this->_sb || this->_st) { this->_width = 0; return *this; }
    char b[512]; int n = __sym_fmt_double(b, v, (int)this->_prec, (this->_f & ios_base::fixed) ? 1 : (this->_f & ios_base::scientific) ? 2 : 0);
    C w[512]; for (int i = 0; i < n; i++) w[i] = (C)b[i]; return _padded(w, n);
  }
  basic_ostream& operator<<(float v) { return *this << (double)v; }
  basic_ostream& operator<<(const void* p) {
    unsigned long v = (unsigned long)p; C b[40]; int i = 40; do { b[--i] = (C)"0123456789abcdef"[v % 16]; v /= 16; } while (v);
    if (p) { b[--i] = C('x'); b[--i] = C('0'); } return _padded(b + i, 40 - i);
  }
  basic_ostream& operator<<(basic_ostream& (*f)(basic_ostream&)) { return f(*this); }
  basic_ostream& operator<<(ios_base& (*f)(ios_base&)) { f(*this); return *this; }
  basic_ostream& operator<<(nullptr_t) { return *this; }
  basic_ostream& put(C c) { _put(&c, 1); return *this; }
  basic_ostream& write(const C* p, streamsize n) { _put(p, n); return *this; }
  basic_ostream& flush() { return *this; }
};
inline ostream& operator<<(ostream& o, const char* s) { if (!s) { o.setstate(ios_base::badbit); return o; } return o._padded(s, char_traits<char>::length(s)); }
inline ostream& operator<<(ostream& o, char c) { return o._padded(&c, 1); }
inline ostream& operator<<(ostream& o, signed char c) { return o << (char)c; }
inline ostream& operator<<(ostream& o, unsigned char c) { return o << (char)c; }
inline ostream& operator<<(ostream& o, const string& s) { return o._padded(s.data(), s.size()); }
inline ostream& operator<<(ostream& o, string_view s) { return o._padded(s.data(), s.size()); }
inline wostream& operator<<(wostream& o, const wstring& s) { return o._padded(s.data(), s.size()); }
template <typename C, typename T> basic_ostream<C, T>& endl(basic_ostream<C, T>& o) { C c = C('\n'); o._put(&c, 1); return o; }
template <typename C, typename T> basic_ostream<C, T>& flush(basic_ostream<C, T>& o) { return o; }
template <typename C, typename T> basic_ostream<C, T>& ends(basic_ostream<C, T>& o) { C c = C(); o._put(&c, 1); return o; }
template <class O, class V> requires (is_base_of_v<ios_base, O> && !is_lvalue_reference_v<O>)
inline O&& operator<<(O&& o, const V& v) { static_cast<O&>(o) << v; return static_cast<O&&>(o); }

template <typename C, typename T> class basic_istream : virtual public basic_ios<C, T> {
 public:
  explicit basic_istream(basic_streambuf<C, T>* b) { this->init(b); }
  basic_istream() {}
  virtual ~basic_istream() {}
  streamsize _gc = 0;
  int get() { if (!this->good()) { this->setstate(ios_base::failbit); return -1; } int c = this->_sb->sbumpc(); if (c < 0) this->setstate(ios_base::eofbit | ios_base::failbit); return c; }
  basic_istream& get(C& c) { int v = get(); if (v >= 0) c = (C)v; return *this; }
  int peek() { if (!this->good()) return -1; int c = this->_sb->sgetc(); if (c < 0) this->setstate(ios_base::eofbit); return c; }
  bool _ws(int c) { return c == ' ' || (c >= 9 && c <= 13); }
  bool _sentry() {
    if (!this->good()) { this->setstate(ios_base::failbit); return false; }
    if (this->_f & ios_base::skipws) while (_ws(this->_sb->sgetc())) this->_sb->sbumpc();
    if (this->_sb->sgetc() < 0) { this->setstate(ios_base::eofbit | ios_base::failbit); return false; }
    return true;
  }
  basic_istream& operator>>(double& d) {
    if (!_sentry()) { return *this; }
    string t; for (;;) { int c = this->_sb->sgetc(); if ((c >= '0' && c <= '9') || c == '.' || c == '-' || c == '+' || c == 'e' || c == 'E') { t.push_back((char)c); this->_sb->sbumpc(); } else break; }
    if (this->_sb->sgetc() < 0) this->setstate(ios_base::eofbit);
    int n = 0; double v = __sym_parse_double(t.c_str(), &n); if (n == 0 || n != (int)t.size()) { d = 0; this->setstate(ios_base::failbit); } else d = v; return *this;
  }
  template <class I> basic_istream& _int(I& r, long lo, long hi) {
    if (!_sentry()) return *this;
    bool neg = false; int c = this->_sb->sgetc(); if (c == '-' || c == '+') { neg = c == '-'; this->_sb->sbumpc(); }
    bool any = false, ovf = false; long v = 0;
    for (;;) { c = this->_sb->sgetc(); if (c < '0' || c > '9') break; any = true; if (v > (0x7fffffffffffffffL - (c - '0')) / 10) ovf = true; else v = v * 10 + (c - '0'); this->_sb->sbumpc(); }
    if (c < 0) this->setstate(ios_base::eofbit); if (neg) v = -v;
    if (!any) { r = 0; this->setstate(ios_base::failbit); } else if (ovf || v < lo || v > hi) { r = (I)(neg ? lo : hi); this->setstate(ios_base::failbit); } else r = (I)v; return *this;
  }
  basic_istream& operator>>(int& r) { return _int(r, -2147483648L, 2147483647L); }
  basic_istream& operator>>(unsigned& r) { return _int(r, 0, 4294967295L); }
  basic_istream& operator>>(long& r) { return _int(r, -0x7fffffffffffffffL - 1, 0x7fffffffffffffffL); }
  basic_istream& operator>>(basic_istream& (*f)(basic_istream&)) { return f(*this); }
  basic_istream& operator>>(ios_base& (*f)(ios_base&)) { f(*this); return *this; }
};
inline istream& operator>>(istream& i, string& s) { s.clear(); if (!i._sentry()) return i; for (;;) { int c = i.rdbuf()->sgetc(); if (c < 0) { i.setstate(ios_base::eofbit); break; } if (i._ws(c)) break; s.push_back((char)c); i.rdbuf()->sbumpc(); } return i; }
inline istream& operator>>(istream& i, char& ch) { if (!i._sentry()) return i; ch = (char)i.rdbuf()->sbumpc(); return i; }
template <typename C, typename T> basic_istream<C, T>& __sym_getline(basic_istream<C, T>& i, basic_string<C, T>& s, C d) {
  if (!i.good()) { i.setstate(ios_base::failbit); return i; } s.clear(); bool any = false;
  for (;;) { auto* b = i.rdbuf(); if (b->_pos >= b->_s.size()) { if (b->_bad) { i.setstate(ios_base::badbit); break; } i.setstate(any ? ios_base::eofbit : (ios_base::eofbit | ios_base::failbit)); break; } C c = b->_s[b->_pos++]; any = true; if (c == d) break; s.push_back(c); }
  return i;
}
inline istream& getline(istream& i, string& s) { return __sym_getline<char, char_traits<char>>(i, s, '\n'); }
inline istream& getline(istream& i, string& s, char d) { return __sym_getline<char, char_traits<char>>(i, s, d); }
inline wistream& getline(wistream& i, wstring& s) { return __sym_getline<wchar_t, char_traits<wchar_t>>(i, s, L'\n'); }
inline istream& getline(istream&& i, string& s, char d) { return __sym_getline<char, char_traits<char>>(i, s, d); }

template <typename C, typename T> class basic_iostream : public basic_istream<C, T>, public basic_ostream<C, T> { public: basic_iostream() {} explicit basic_iostream(basic_streambuf<C, T>* b) { this->init(b); } };

inline namespace __cxx11 {
template <typename C, typename T, typename Al> class basic_stringbuf : public basic_streambuf<C, T> {};
template <typename C, typename T, typename Al> class basic_ostringstream : public basic_ostream<C, T> { basic_streambuf<C, T> _b; public: basic_ostringstream() { this->init(&_b); } explicit basic_ostringstream(ios_base::openmode) { this->init(&_b); } basic_string<C> str() const { return _b._s; } void str(const basic_string<C>& s) { _b._s = s; _b._pos = 0; } };
template <typename C, typename T, typename Al> class basic_istringstream : public basic_istream<C, T> { basic_streambuf<C, T> _b; public: basic_istringstream() { this->init(&_b); } explicit basic_istringstream(const basic_string<C>& s) { _b._s = s; this->init(&_b); } basic_string<C> str() const { return _b._s; } void str(const basic_string<C>& s) { _b._s = s; _b._pos = 0; } };
template <typename C, typename T, typename Al> class basic_stringstream : public basic_iostream<C, T> { basic_streambuf<C, T> _b; public: basic_stringstream() { this->init(&_b); } explicit basic_stringstream(const basic_string<C>& s) { _b._s = s; this->init(&_b); } basic_string<C> str() const { return _b._s; } void str(const basic_string<C>& s) { _b._s = s; _b._pos = 0; } };
}
template <typename C, typename T> class basic_filebuf : public basic_streambuf<C, T> {};
template <typename C, typename T> class basic_ofstream : public basic_ostream<C, T> {
  basic_streambuf<C, T> _b; string _p; bool _open = false;
 public:
  basic_ofstream() { this->init(&_b); }
  explicit basic_ofstream(const string& p, ios_base::openmode = ios_base::out) { this->init(&_b); open(p); }
  explicit basic_ofstream(const char* p, ios_base::openmode = ios_base::out) { this->init(&_b); open(string(p)); }
  void open(const string& p, ios_base::openmode = ios_base::out) { _p = p; bool ok = false; __symfs_open_write(p.c_str(), &ok); _open = ok; if (!ok) this->setstate(ios_base::failbit); }
  bool is_open() const { return _open; }
  void close() { if (_open) { __symfs_write(_p.c_str(), _b._s); _open = false; } else this->setstate(ios_base::failbit); }
  ~basic_ofstream() { if (_open) close(); }
};
template <typename C, typename T> class basic_ifstream : public basic_istream<C, T> {
  basic_streambuf<C, T> _b; bool _open = false;
 public:
  basic_ifstream() { this->init(&_b); }
  explicit basic_ifstream(const string& p, ios_base::openmode = ios_base::in) { this->init(&_b); open(p); }
  explicit basic_ifstream(const char* p, ios_base::openmode = ios_base::in) { this->init(&_b); open(string(p)); }
  void open(const string& p, ios_base::openmode = ios_base::in) { __sym_file f = __symfs_open_read(p.c_str()); _open = f.ok; if (!f.ok) { this->setstate(ios_base::failbit); return; } for (char c : f.data) _b._s.push_back((C)(unsigned char)c); }
  locale imbue(const locale& l) { // a wide file read as UTF-8 (before the first character is read)
    if constexpr (sizeof(C) > 1) if (l.utf8) {
      basic_string<C> b = _b._s, r; size_t i = 0, n = b.size();
      while (i < n) {
        unsigned c = (unsigned)b[i]; unsigned len = c < 0x80 ? 1 : (c >= 0xc2 && c < 0xe0) ? 2 : (c >= 0xe0 && c < 0xf0) ? 3 : (c >= 0xf0 && c < 0xf5) ? 4 : 0; if (!len || i + len > n) break;
        unsigned cp = len == 1 ? c : len == 2 ? c & 31 : len == 3 ? c & 15 : c & 7; bool ok = true; for (unsigned k = 1; k < len; k++) { unsigned d = (unsigned)b[i + k]; if ((d & 0xc0) != 0x80) ok = false; cp = cp << 6 | (d & 63); } if (!ok) break;
        if (!(l.bom && i == 0 && cp == 0xfeff)) r.push_back((C)cp); i += len;
      }
      _b._s = r; _b._bad = i < n;
    }
    return locale();
  }
  bool is_open() const { return _open; } void close() { _open = false; }
};
template <typename C, typename T> class basic_fstream : public basic_iostream<C, T> {};

struct __sym_setw { int n; }; inline __sym_setw setw(int n) { return {n}; }
struct __sym_setp { int n; }; inline __sym_setp setprecision(int n) { return {n}; }
template <class C> struct __sym_setfill { C c; }; template <class C> inline __sym_setfill<C> setfill(C c) { return {c}; }
template <class C> struct __sym_put_time { const tm* t; const C* f; }; template <class C> inline __sym_put_time<C> put_time(const tm* t, const C* f) { return {t, f}; }
template <typename C, typename T> basic_ostream<C, T>& operator<<(basic_ostream<C, T>& o, __sym_setw w) { o.width(w.n); return o; }
template <typename C, typename T> basic_ostream<C, T>& operator<<(basic_ostream<C, T>& o, __sym_setp w) { o.precision(w.n); return o; }
template <typename C, typename T> basic_ostream<C, T>& operator<<(basic_ostream<C, T>& o, __sym_setfill<C> w) { o.fill(w.c); return o; }
inline ostream& operator<<(ostream& o, __sym_put_time<char>) { return o._padded("2000-01-01 00:00:00", 19); }

extern ostream cout, cerr, clog; extern istream cin;
}
#endif
