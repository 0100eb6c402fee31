// Model of the C++ stream library for symbolic execution: the interface of
// <iostream>, <fstream>, <sstream>, <iomanip> over a handful of engine
// primitives.  Streams have no locale and no virtual functions.
#pragma once
#define _OSTREAM_INSERT_H 1  // ours, below
#include <iosfwd>
namespace std { template <typename C, typename T> inline basic_ostream<C, T> &__ostream_insert(basic_ostream<C, T> &o, const C *s, long n) { if (o._w) o._padded(s, n); else o._raw(s, n); return o; } }
#include <iosfwd>
#include <string>
#include <cstddef>
#include <cstdio>
#include <bits/postypes.h>
extern "C" {
void __vf_write(long fd, const void *p, unsigned long n);
void __vf_puts(long fd, const char *p);
void __vf_out_int(long fd, unsigned long v, int bits, int sgn, int flags, long width, int fill);
int __vf_fmt_int(char *b, unsigned long v, int bits, int sgn, int flags, long width, int fill);
int __vf_fmt_double(char *b, double v, int prec, int fixed);
long __vf_open_read(const char *name);
long __vf_open_write(const char *name, int append);
const char *__vf_data(long h);
unsigned long __vf_size(long h);
}
namespace std {
class ios_base {
public:
  typedef int fmtflags; typedef int iostate; typedef int openmode; typedef int seekdir;
  static const fmtflags boolalpha = 1, dec = 2, fixed = 4, hex = 8, internal = 16, left = 32, oct = 64, right = 128, scientific = 256,
    showbase = 512, showpoint = 1024, showpos = 2048, skipws = 4096, unitbuf = 8192, uppercase = 16384, adjustfield = 176, basefield = 74, floatfield = 260;
  static const iostate goodbit = 0, badbit = 1, eofbit = 2, failbit = 4;
  static const openmode app = 1, ate = 2, binary = 4, in = 8, out = 16, trunc = 32;
  static const seekdir beg = 0, cur = 1, end = 2;
  class failure {};
  fmtflags _fl = skipws | dec; long _w = 0; long _p = 6; iostate _st = 0;
  fmtflags flags() const { return _fl; }
  fmtflags flags(fmtflags f) { fmtflags o = _fl; _fl = f; return o; }
  fmtflags setf(fmtflags f) { fmtflags o = _fl; _fl |= f; return o; }
  fmtflags setf(fmtflags f, fmtflags m) { fmtflags o = _fl; _fl = (_fl & ~m) | (f & m); return o; }
  void unsetf(fmtflags f) { _fl &= ~f; }
  long width() const { return _w; }
  long width(long w) { long o = _w; _w = w; return o; }
  long precision() const { return _p; }
  long precision(long w) { long o = _p; _p = w; return o; }
  static bool sync_with_stdio(bool = true) { return true; }
};
template <typename C, typename T> class basic_streambuf {  // a view of the region an input stream reads
public:
  typedef C char_type; typedef T traits_type; typedef typename T::int_type int_type; typedef long pos_type; typedef long off_type;
  const char **_d = nullptr; unsigned long *_n = nullptr, **_pos = nullptr;
  int_type sgetc() { if (!_d || **_pos >= *_n) return -1; return (unsigned char)(*_d)[**_pos]; }
  int_type sbumpc() { int_type c = sgetc(); if (c >= 0) ++**_pos; return c; }
  int_type snextc() { return sbumpc() < 0 ? -1 : sgetc(); }
  long in_avail() { return _d ? (long)(*_n - **_pos) : 0; }
  int_type sputc(C) { return -1; }
};
template <typename C, typename T> class basic_ios : public ios_base {
public:
  typedef C char_type; typedef T traits_type;
  C _fill = ' ';
  bool good() const { return _st == 0; }
  bool eof() const { return _st & eofbit; }
  bool fail() const { return _st & (failbit | badbit); }
  bool bad() const { return _st & badbit; }
  explicit operator bool() const { return !fail(); }
  bool operator!() const { return fail(); }
  iostate rdstate() const { return _st; }
  void clear(iostate s = 0) { _st = s; }
  void setstate(iostate s) { _st |= s; }
  C fill() const { return _fill; }
  C fill(C c) { C o = _fill; _fill = c; return o; }
  void *tie(void * = nullptr) { return nullptr; }
  void exceptions(iostate) {}
};
typedef basic_ios<char, char_traits<char>> ios;

template <typename C, typename T> class basic_ostream : public basic_ios<C, T> {
public:
  typedef basic_ostream<C, T> self;
  long _fd = -1;                 // engine stream, or -1
  basic_string<C, T, allocator<C>> *_str = nullptr; // string stream
  class sentry { public: explicit sentry(self &s) : ok(s.good()) {} explicit operator bool() const { return ok; } bool ok; };
  basic_ostream() {}
  explicit basic_ostream(long fd) : _fd(fd) {}
  void _raw(const char *p, unsigned long n) {
    if (this->_st) { this->_st |= ios_base::failbit; return; }
    if (_str) _str->append(p, n); else if (_fd >= 0) __vf_write(_fd, p, n); else this->_st |= ios_base::badbit;
  }
  void _cs(const char *p) {
    if (_str || this->_w) { unsigned long n = __builtin_strlen(p); _padded(p, n); return; }
    if (this->_st) { this->_st |= ios_base::failbit; return; }
    if (_fd >= 0) __vf_puts(_fd, p); else this->_st |= ios_base::badbit;
  }
  void _padded(const char *p, unsigned long n) {
    long w = this->_w; this->_w = 0;
    char f = this->_fill;
    bool l = this->_fl & ios_base::left;
    if (!l) for (long i = n; i < w; i++) _raw(&f, 1);
    _raw(p, n);
    if (l) for (long i = n; i < w; i++) _raw(&f, 1);
  }
  void _int(unsigned long v, int bits, int sgn) {
    if (this->_st) { this->_st |= ios_base::failbit; return; }
    if (_str) { char b[128]; int n = __vf_fmt_int(b, v, bits, sgn, this->_fl, this->_w, this->_fill); this->_w = 0; _raw(b, n); return; }
    if (_fd < 0) { this->_st |= ios_base::badbit; return; }
    __vf_out_int(_fd, v, bits, sgn, this->_fl, this->_w, this->_fill);
    this->_w = 0;
  }
  void _dbl(double d) {
    if (this->_st) { this->_st |= ios_base::failbit; return; }
    char b[512]; int n = __vf_fmt_double(b, d, (int)this->_p, (this->_fl & ios_base::fixed) != 0); _padded(b, n);
  }
  self &operator<<(self &(*pf)(self &)) { return pf(*this); }
  self &operator<<(ios_base &(*pf)(ios_base &)) { pf(*this); return *this; }
  self &operator<<(bool v) { if (this->_fl & ios_base::boolalpha) _cs(v ? "true" : "false"); else _int(v, 8, 0); return *this; }
  self &operator<<(short v) { _int((unsigned long)(long)v, 16, 1); return *this; }
  self &operator<<(unsigned short v) { _int(v, 16, 0); return *this; }
  self &operator<<(int v) { _int((unsigned long)(long)v, 32, 1); return *this; }
  self &operator<<(unsigned v) { _int(v, 32, 0); return *this; }
  self &operator<<(long v) { _int((unsigned long)v, 64, 1); return *this; }
  self &operator<<(unsigned long v) { _int(v, 64, 0); return *this; }
  self &operator<<(long long v) { _int((unsigned long)v, 64, 1); return *this; }
  self &operator<<(unsigned long long v) { _int(v, 64, 0); return *this; }
  self &operator<<(double v) { _dbl(v); return *this; }
  self &operator<<(float v) { _dbl(v); return *this; }
  self &operator<<(basic_streambuf<C, T> *b) { bool any = false; for (int c; (c = b->sgetc()) >= 0; b->sbumpc()) { C x = (C)c; _raw(&x, 1); any = true; } if (!any) this->_st |= ios_base::failbit; return *this; }
  self &operator<<(const void *) { _cs("0x1"); return *this; }
  self &operator<<(nullptr_t) { _cs("nullptr"); return *this; }
  self &put(char c) { _raw(&c, 1); return *this; }
  self &write(const char *p, long n) { _raw(p, n); return *this; }
  self &flush() { return *this; }
  fpos<mbstate_t> tellp() { return fpos<mbstate_t>(0); }
};
inline basic_ostream<char> &operator<<(basic_ostream<char> &o, char c) { if (o._w) o._padded(&c, 1); else o._raw(&c, 1); return o; }
inline basic_ostream<char> &operator<<(basic_ostream<char> &o, signed char c) { return o << (char)c; }
inline basic_ostream<char> &operator<<(basic_ostream<char> &o, unsigned char c) { return o << (char)c; }
inline basic_ostream<char> &operator<<(basic_ostream<char> &o, const char *s) { if (!s) { o.setstate(ios_base::badbit); return o; } o._cs(s); return o; }
inline basic_ostream<char> &operator<<(basic_ostream<char> &o, const string &s) { if (o._w) o._padded(s.data(), s.size()); else o._raw(s.data(), s.size()); return o; }
template <typename C, typename T> inline basic_ostream<C, T> &endl(basic_ostream<C, T> &o) { char c = '\n'; o._raw(&c, 1); return o; }
template <typename C, typename T> inline basic_ostream<C, T> &ends(basic_ostream<C, T> &o) { char c = 0; o._raw(&c, 1); return o; }
template <typename C, typename T> inline basic_ostream<C, T> &flush(basic_ostream<C, T> &o) { return o; }
template <typename O, typename X> inline auto operator<<(O &&o, const X &x) -> typename enable_if<!is_lvalue_reference<O>::value && is_base_of<ios_base, O>::value, O &&>::type { o << x; return static_cast<O &&>(o); }

// input: a region of characters and a position
template <typename C, typename T> class basic_istream : public basic_ios<C, T> {
public:
  typedef basic_istream<C, T> self;
  const char *_d = nullptr; unsigned long _n = 0, _own = 0; unsigned long *_pos = &_own; long _gc = 0;
  basic_streambuf<C, T> _sb;
  basic_istream() {}
  basic_istream(const basic_istream &) = delete;
  basic_streambuf<C, T> *rdbuf() { _sb._d = &_d; _sb._n = &_n; _sb._pos = &_pos; return &_sb; }
  int _peek() { if (*_pos >= _n) return -1; return (unsigned char)_d[*_pos]; }
  int _get() { if (*_pos >= _n) return -1; return (unsigned char)_d[(*_pos)++]; }
  class sentry { public: explicit sentry(self &s, bool nows = false) : ok(s._sentry(nows)) {} explicit operator bool() const { return ok; } bool ok; };
  bool _sentry(bool nows) {
    if (this->_st) { this->_st |= ios_base::failbit; return false; }
    if (!nows && (this->_fl & ios_base::skipws)) {
      for (;;) { int c = _peek(); if (c < 0) { this->_st |= ios_base::eofbit | ios_base::failbit; return false; }
        if (c == ' ' || (c >= 9 && c <= 13)) (*_pos)++; else break; }
    }
    return true;
  }
  int get() { _gc = 0; if (!_sentry(true)) return -1; int c = _get(); if (c < 0) this->_st |= ios_base::eofbit | ios_base::failbit; else _gc = 1; return c; }
  self &get(char &x) { int c = get(); if (c >= 0) x = (char)c; return *this; }
  int peek() { _gc = 0; if (!_sentry(true)) return -1; int c = _peek(); if (c < 0) this->_st |= ios_base::eofbit; return c; }
  self &unget() { if (*_pos) (*_pos)--; return *this; }
  self &putback(char) { if (*_pos) (*_pos)--; return *this; }
  long gcount() const { return _gc; }
  self &read(char *p, long n) { _gc = 0; if (!_sentry(true)) return *this; while (_gc < n) { int c = _get(); if (c < 0) { this->_st |= ios_base::eofbit | ios_base::failbit; break; } p[_gc++] = (char)c; } return *this; }
  self &getline(char *p, long n) { return getline(p, n, '\n'); }
  self &getline(char *p, long n, char delim) {
    _gc = 0; long k = 0;
    if (!_sentry(true)) { if (n > 0) *p = 0; return *this; }
    for (;;) {
      int c = _peek();
      if (c < 0) { this->_st |= ios_base::eofbit; if (_gc == 0) this->_st |= ios_base::failbit; break; }
      if (c == (unsigned char)delim) { (*_pos)++; _gc++; break; }
      if (k + 1 >= n) { this->_st |= ios_base::failbit; break; }
      p[k++] = (char)c; (*_pos)++; _gc++;
    }
    if (n > 0) p[k] = 0;
    return *this;
  }
  self &get(char *p, long n, char delim = '\n') {
    _gc = 0; long k = 0; if (!_sentry(true)) { if (n > 0) *p = 0; return *this; }
    while (k + 1 < n) { int c = _peek(); if (c < 0) { this->_st |= ios_base::eofbit; break; } if (c == (unsigned char)delim) break; p[k++] = (char)c; (*_pos)++; _gc++; }
    if (!_gc) this->_st |= ios_base::failbit; if (n > 0) p[k] = 0; return *this;
  }
  self &ignore(long n = 1, int delim = -1) { _gc = 0; if (!_sentry(true)) return *this; while (n-- > 0) { int c = _get(); if (c < 0) { this->_st |= ios_base::eofbit; break; } _gc++; if (c == delim) break; } return *this; }
  bool _num(bool &neg, unsigned long &v, bool &over, unsigned long lim, unsigned long nlim) {
    neg = false; v = 0; over = false; bool any = false;
    int c = _peek();
    if (c == '-' || c == '+') { neg = c == '-'; (*_pos)++; }
    unsigned long l = neg ? nlim : lim;
    for (;;) { c = _peek(); if (c < '0' || c > '9') break; any = true; unsigned long dgt = c - '0'; if (v > (l - dgt) / 10) over = true; else v = v * 10 + dgt; (*_pos)++; }
    if (c < 0) this->_st |= ios_base::eofbit;
    return any;
  }
  template <class I> self &_rd(I &x, long mn, long mx) {
    if (!_sentry(false)) return *this;
    bool neg, over; unsigned long v;
    if (!_num(neg, v, over, (unsigned long)mx, (unsigned long)mx + (mn < 0 ? 1 : 0))) { this->_st |= ios_base::failbit; x = 0; return *this; }
    if (over) { this->_st |= ios_base::failbit; x = (I)(neg ? mn : mx); return *this; }
    x = (I)(neg ? 0 - v : v); return *this;
  }
  self &operator>>(int &x) { return _rd(x, -2147483647L - 1, 2147483647L); }
  self &operator>>(short &x) { return _rd(x, -32768, 32767); }
  self &operator>>(unsigned &x) { return _rd(x, 0, 4294967295L); }
  self &operator>>(long &x) { return _rd(x, -9223372036854775807L - 1, 9223372036854775807L); }
  self &operator>>(unsigned long &x) { return _rd(x, 0, 9223372036854775807L); }
  self &operator>>(long long &x) { return _rd(x, -9223372036854775807L - 1, 9223372036854775807L); }
  self &operator>>(bool &b) { int x = 0; *this >> x; b = x; return *this; }
  self &operator>>(self &(*pf)(self &)) { return pf(*this); }
  self &operator>>(ios_base &(*pf)(ios_base &)) { pf(*this); return *this; }
  fpos<mbstate_t> tellg() { return fpos<mbstate_t>((long)*_pos); }
  self &seekg(fpos<mbstate_t> p) { this->_st &= ~ios_base::eofbit; *_pos = (long)p; return *this; }
  self &seekg(long p, int d) { this->_st &= ~ios_base::eofbit; *_pos = d == 0 ? p : d == 1 ? *_pos + p : _n + p; return *this; }
};
inline basic_istream<char> &operator>>(basic_istream<char> &i, char &c) { if (i._sentry(false)) { int x = i._get(); if (x < 0) i._st |= ios_base::eofbit | ios_base::failbit; else c = (char)x; } return i; }
inline basic_istream<char> &operator>>(basic_istream<char> &i, string &s) {
  if (!i._sentry(false)) return i;
  s.clear();
  for (;;) { int c = i._peek(); if (c < 0) { i._st |= ios_base::eofbit; break; } if (c == ' ' || (c >= 9 && c <= 13)) break; s.push_back((char)c); (*i._pos)++; }
  if (s.empty()) i._st |= ios_base::failbit;
  return i;
}
template <typename C, typename T> inline basic_istream<C, T> &ws(basic_istream<C, T> &i) { for (;;) { int c = i._peek(); if (c < 0) { i._st |= ios_base::eofbit; break; } if (c == ' ' || (c >= 9 && c <= 13)) (*i._pos)++; else break; } return i; }
inline basic_istream<char> &getline(basic_istream<char> &i, string &s, char delim) {
  s.clear();
  if (!i._sentry(true)) return i;
  bool any = false;
  for (;;) {
    int c = i._get();
    if (c < 0) { i._st |= ios_base::eofbit; break; }
    any = true;
    if (c == (unsigned char)delim) break;
    s.push_back((char)c);
  }
  if (!any) i._st |= ios_base::failbit;
  return i;
}
inline basic_istream<char> &getline(basic_istream<char> &i, string &s) { return getline(i, s, '\n'); }

inline ios_base &dec(ios_base &b) { b._fl = (b._fl & ~ios_base::basefield) | ios_base::dec; return b; }
inline ios_base &hex(ios_base &b) { b._fl = (b._fl & ~ios_base::basefield) | ios_base::hex; return b; }
inline ios_base &oct(ios_base &b) { b._fl = (b._fl & ~ios_base::basefield) | ios_base::oct; return b; }
inline ios_base &fixed(ios_base &b) { b._fl |= ios_base::fixed; return b; }
inline ios_base &left(ios_base &b) { b._fl = (b._fl & ~ios_base::adjustfield) | ios_base::left; return b; }
inline ios_base &right(ios_base &b) { b._fl = (b._fl & ~ios_base::adjustfield) | ios_base::right; return b; }
inline ios_base &boolalpha(ios_base &b) { b._fl |= ios_base::boolalpha; return b; }
inline ios_base &noskipws(ios_base &b) { b._fl &= ~ios_base::skipws; return b; }
inline ios_base &skipws(ios_base &b) { b._fl |= ios_base::skipws; return b; }

template <typename C, typename T> class basic_iostream : public basic_istream<C, T>, public basic_ostream<C, T> {
public:
  explicit operator bool() const { return !basic_istream<C, T>::fail() && !basic_ostream<C, T>::fail(); }
  bool operator!() const { return !(bool)*this; }
  bool good() const { return basic_istream<C, T>::good(); }
  bool eof() const { return basic_istream<C, T>::eof(); }
  bool fail() const { return !(bool)*this; }
  void clear(int s = 0) { basic_istream<C, T>::clear(s); basic_ostream<C, T>::clear(s); }
};

template <typename C, typename T> class basic_ifstream : public basic_istream<C, T> {
public:
  bool _op = false;
  basic_ifstream() {}
  explicit basic_ifstream(const char *n, int = 8) { open(n); }
  explicit basic_ifstream(const string &n, int = 8) { open(n.c_str()); }
  void open(const char *n, int = 8) {
    if (_op) { this->_st |= ios_base::failbit; return; }
    long h = __vf_open_read(n);
    if (h < 0) { this->_st |= ios_base::failbit; return; }
    this->_st = 0; _op = true; this->_d = __vf_data(h); this->_n = __vf_size(h); *this->_pos = 0;
  }
  void open(const string &n, int m = 8) { open(n.c_str(), m); }
  bool is_open() const { return _op; }
  void close() { if (!_op) this->_st |= ios_base::failbit; _op = false; this->_n = 0; }
};
template <typename C, typename T> class basic_ofstream : public basic_ostream<C, T> {
public:
  bool _op = false;
  basic_ofstream() {}
  explicit basic_ofstream(const char *n, int m = 16) { open(n, m); }
  explicit basic_ofstream(const string &n, int m = 16) { open(n.c_str(), m); }
  void open(const char *n, int m = 16) {
    if (_op) { this->_st |= ios_base::failbit; return; }
    long h = __vf_open_write(n, m & 1);
    if (h < 0) { this->_st |= ios_base::failbit; return; }
    this->_st = 0; _op = true; this->_fd = h;
  }
  void open(const string &n, int m = 16) { open(n.c_str(), m); }
  bool is_open() const { return _op; }
  void close() { if (!_op) this->_st |= ios_base::failbit; _op = false; this->_fd = -1; }
};
template <typename C, typename T> class basic_fstream : public basic_iostream<C, T> {};
_GLIBCXX_BEGIN_NAMESPACE_CXX11
template <typename C, typename T, typename A> class basic_istringstream : public basic_istream<C, T> {
public:
  basic_string<C, T, A> _s;
  void _sync() { this->_d = _s.data(); this->_n = _s.size(); *this->_pos = 0; }
  basic_istringstream() { _sync(); }
  explicit basic_istringstream(const basic_string<C, T, A> &s, int = 8) : _s(s) { _sync(); }
  void str(const basic_string<C, T, A> &s) { _s = s; _sync(); }
  basic_string<C, T, A> str() const { return _s; }
};
template <typename C, typename T, typename A> class basic_ostringstream : public basic_ostream<C, T> {
public:
  basic_string<C, T, A> _s;
  basic_ostringstream() { this->_str = &_s; }
  explicit basic_ostringstream(const basic_string<C, T, A> &, int = 16) { this->_str = &_s; }
  basic_ostringstream(const basic_ostringstream &) = delete;
  void str(const basic_string<C, T, A> &s) { _s = s; }
  basic_string<C, T, A> str() const { return _s; }
};
template <typename C, typename T, typename A> class basic_stringstream : public basic_iostream<C, T> {
public:
  typedef basic_istream<C, T> IS; typedef basic_ostream<C, T> OS;
  basic_string<C, T, A> _s;
  basic_stringstream() { OS::_str = &_s; _r(); }
  explicit basic_stringstream(const basic_string<C, T, A> &s, int = 24) : _s(s) { OS::_str = &_s; _r(); }
  void _r() { IS::_d = _s.data(); IS::_n = _s.size(); }
  void str(const basic_string<C, T, A> &s) { _s = s; _r(); *IS::_pos = 0; }
  basic_string<C, T, A> str() const { return _s; }
  template <class X> basic_stringstream &operator<<(const X &x) { static_cast<OS &>(*this) << x; _r(); return *this; }
  template <class X> basic_stringstream &operator>>(X &x) { _r(); static_cast<IS &>(*this) >> x; return *this; }
};
_GLIBCXX_END_NAMESPACE_CXX11
extern basic_istream<char> cin;
extern basic_ostream<char> cout, cerr, clog;

struct _Setw { int n; }; inline _Setw setw(int n) { return {n}; }
struct _Setp { int n; }; inline _Setp setprecision(int n) { return {n}; }
struct _Setfill { char c; }; inline _Setfill setfill(char c) { return {c}; }
inline basic_ostream<char> &operator<<(basic_ostream<char> &o, _Setw s) { o._w = s.n; return o; }
inline basic_ostream<char> &operator<<(basic_ostream<char> &o, _Setp s) { o._p = s.n; return o; }
inline basic_ostream<char> &operator<<(basic_ostream<char> &o, _Setfill s) { o._fill = s.c; return o; }
template <size_t N> class bitset;
template <size_t N> inline basic_ostream<char> &operator<<(basic_ostream<char> &o, const bitset<N> &b) {
  char t[N + 1]; for (size_t i = 0; i < N; i++) t[i] = b[N - 1 - i] ? '1' : '0'; o._padded(t, N); return o;
}
} // namespace std
#include <bits/streambuf_iterator.h>
#include <bits/stream_iterator.h>
