// Definitions behind the model headers and the out-of-line parts of the C++
// library that the program may use.
#include "vf_streams.h"
#include <list>
#include <map>
#include <set>
#include <cstring>
#include <cstdlib>
namespace std {
basic_istream<char> cin;
basic_ostream<char> cout(1), cerr(2), clog(2);
namespace __detail {
void _List_node_base::_M_hook(_List_node_base *p) noexcept { _M_next = p; _M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this; }
void _List_node_base::_M_unhook() noexcept { _List_node_base *n = _M_next, *p = _M_prev; p->_M_next = n; n->_M_prev = p; }
void _List_node_base::_M_transfer(_List_node_base *f, _List_node_base *l) noexcept {
  if (this != l) { l->_M_prev->_M_next = this; f->_M_prev->_M_next = l; _M_prev->_M_next = f; _List_node_base *t = _M_prev; _M_prev = l->_M_prev; l->_M_prev = f->_M_prev; f->_M_prev = t; }
}
void _List_node_base::_M_reverse() noexcept { _List_node_base *t = this; do { _List_node_base *n = t->_M_next; t->_M_next = t->_M_prev; t->_M_prev = n; t = t->_M_prev; } while (t != this); }
void _List_node_base::swap(_List_node_base &x, _List_node_base &y) noexcept {
  if (x._M_next != &x) {
    if (y._M_next != &y) { _List_node_base *a = x._M_next, *b = x._M_prev; x._M_next = y._M_next; x._M_prev = y._M_prev; y._M_next = a; y._M_prev = b; x._M_next->_M_prev = x._M_prev->_M_next = &x; y._M_next->_M_prev = y._M_prev->_M_next = &y; }
    else { y._M_next = x._M_next; y._M_prev = x._M_prev; y._M_next->_M_prev = y._M_prev->_M_next = &y; x._M_next = x._M_prev = &x; }
  } else if (y._M_next != &y) { x._M_next = y._M_next; x._M_prev = y._M_prev; x._M_next->_M_prev = x._M_prev->_M_next = &x; y._M_next = y._M_prev = &y; }
}
} // namespace __detail
// Ordered trees: iteration order is what matters, so no rebalancing is done.
static _Rb_tree_node_base *vf_inc(_Rb_tree_node_base *x) {
  if (x->_M_right) { x = x->_M_right; while (x->_M_left) x = x->_M_left; }
  else { _Rb_tree_node_base *y = x->_M_parent; while (x == y->_M_right) { x = y; y = y->_M_parent; } if (x->_M_right != y) x = y; }
  return x;
}
static _Rb_tree_node_base *vf_dec(_Rb_tree_node_base *x) {
  if (x->_M_color == _S_red && x->_M_parent && x->_M_parent->_M_parent == x) return x->_M_right;
  if (x->_M_left) { _Rb_tree_node_base *y = x->_M_left; while (y->_M_right) y = y->_M_right; return y; }
  _Rb_tree_node_base *y = x->_M_parent; while (x == y->_M_left) { x = y; y = y->_M_parent; } return y;
}
_Rb_tree_node_base *_Rb_tree_increment(_Rb_tree_node_base *x) throw() { return vf_inc(x); }
const _Rb_tree_node_base *_Rb_tree_increment(const _Rb_tree_node_base *x) throw() { return vf_inc(const_cast<_Rb_tree_node_base *>(x)); }
_Rb_tree_node_base *_Rb_tree_decrement(_Rb_tree_node_base *x) throw() { return vf_dec(x); }
const _Rb_tree_node_base *_Rb_tree_decrement(const _Rb_tree_node_base *x) throw() { return vf_dec(const_cast<_Rb_tree_node_base *>(x)); }
void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base *x, _Rb_tree_node_base *p, _Rb_tree_node_base &h) throw() {
  x->_M_parent = p; x->_M_left = x->_M_right = nullptr; x->_M_color = _S_black; // header stays red
  if (left) { p->_M_left = x; if (p == &h) { h._M_parent = x; h._M_right = x; } else if (p == h._M_left) h._M_left = x; }
  else { p->_M_right = x; if (p == h._M_right) h._M_right = x; }
}
_Rb_tree_node_base *_Rb_tree_rebalance_for_erase(_Rb_tree_node_base *const z, _Rb_tree_node_base &h) throw() {
  _Rb_tree_node_base *next = vf_inc(z), *prev = h._M_left == z ? nullptr : vf_dec(z);
  _Rb_tree_node_base *r;
  if (!z->_M_left) r = z->_M_right; else if (!z->_M_right) r = z->_M_left;
  else { // put the right subtree under the greatest of the left subtree
    _Rb_tree_node_base *m = z->_M_left; while (m->_M_right) m = m->_M_right;
    m->_M_right = z->_M_right; z->_M_right->_M_parent = m; r = z->_M_left;
  }
  if (r) r->_M_parent = z->_M_parent;
  if (h._M_parent == z) h._M_parent = r; else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = r; else z->_M_parent->_M_right = r;
  if (h._M_left == z) h._M_left = next;
  if (h._M_right == z) h._M_right = prev ? prev : &h;
  return z;
}
} // namespace std
#include <unordered_map>
namespace std {
namespace __detail {
static const unsigned long vf_primes[] = {2,3,5,7,11,13,17,19,23,29,31,37,41,43,47,53,59,61,67,71,73,79,83,89,97,103,109,113,127,137,139,149,157,167,179,193,199,211,227,241,257,277,293,313,337,359,383,409,439,467,503,541,577,619,661,709,761,823,887,953,1031,1109,1193,1289,1381,1493,1613,1741,1879,2029,2179,2357,2549,2753,2971,3209,3469,3739,4027,4349,4703,5087,5503,5953,6427,6949,7517,8123,8783,9497,10273,11113,12011,12983,14033,15173,16411,17749,19183,20753,22447,24281,26267,28411,30727,33223,35933,38873,42043,45481,49201,53201,57557,62233,67307,72817,78779,85229,92203,99733,107897,116731,126271,136607,147793,159871,172933,187091,202409,218971,236897,256279,277261,299951,324503,351061,379787,410857,444487,480881,520241,562841,608903,658753,712697,771049,834181,902483,976369,1056323,1142821,1236397,1337629,1447153,1565659,1693859,1832561,1982627,2144977,2320627,2510653,2716249,2938679};
size_t _Prime_rehash_policy::_M_next_bkt(size_t n) const {
  static const unsigned char fast[] = {2, 2, 2, 3, 5, 5, 7, 7, 11, 11, 11, 11, 13, 13};
  if (n < sizeof fast) { if (n == 0) return 1; _M_next_resize = (size_t)(fast[n] * (double)_M_max_load_factor); return fast[n]; }
  const unsigned long *p = vf_primes + 6; while (*p < n) p++;
  _M_next_resize = (size_t)(*p * (double)_M_max_load_factor);
  return *p;
}
std::pair<bool, size_t> _Prime_rehash_policy::_M_need_rehash(size_t nb, size_t ne, size_t ni) const {
  if (ne + ni <= _M_next_resize) return {false, 0};
  size_t least = ne + ni; if (!_M_next_resize && least < 11) least = 11;
  double mb = least / (double)_M_max_load_factor;
  if (mb >= nb) { size_t a = (size_t)mb + 1, b = nb * 2; return {true, _M_next_bkt(a > b ? a : b)}; }
  _M_next_resize = (size_t)(nb * (double)_M_max_load_factor);
  return {false, 0};
}
} // namespace __detail
size_t _Hash_bytes(const void *ptr, size_t len, size_t seed) {
  const size_t mul = (((size_t)0xc6a4a793UL) << 32UL) + (size_t)0x5bd1e995UL;
  auto mix = [](size_t v) { return v ^ (v >> 47); };
  auto load = [](const unsigned char *p, size_t n) { size_t r = 0; for (size_t i = n; i-- > 0;) r = (r << 8) + p[i]; return r; };
  const unsigned char *b = (const unsigned char *)ptr; size_t h = seed ^ (len * mul), i = 0;
  for (; i + 8 <= len; i += 8) { h ^= mix(load(b + i, 8) * mul) * mul; h *= mul; }
  if (i < len) { h ^= load(b + i, len - i); h *= mul; }
  h = mix(h) * mul; return mix(h);
}
} // namespace std
static unsigned long vf_stdin_pos;
struct VfInit2 { VfInit2() { long h = __vf_open_read("<stdin>"); std::cin._d = __vf_data(h); std::cin._n = __vf_size(h); std::cin._pos = &vf_stdin_pos; } };
static VfInit2 vf_init2; // after the constructors of cin and cout
extern "C" {
#undef stdin
#undef stdout
#undef stderr
FILE *stdin = (FILE *)0, *stdout = (FILE *)1, *stderr = (FILE *)2;
#undef getchar
#undef getc
// A FILE * is a number: 0 standard input, 1 and 2 the standard outputs, 16 and up files being written, VF_R and up files being read.
static const unsigned long VF_R = 1UL << 20, VF_MAX = 64;
static unsigned long vf_rpos[64]; static int vf_eof_[65];
static long vf_h(FILE *f) { unsigned long n = (unsigned long)f; return n >= VF_R ? (long)(n - VF_R) : -1; }
static int vf_getc(FILE *f) {
  long h = vf_h(f);
  if (h < 0) { int c = std::cin._get(); if (c < 0) vf_eof_[64] = 1; return c; }
  if (vf_rpos[h] >= __vf_size(h)) { vf_eof_[h] = 1; return -1; }
  return (unsigned char)__vf_data(h)[vf_rpos[h]++];
}
static void vf_back(FILE *f) { long h = vf_h(f); if (h < 0) { if (vf_stdin_pos) vf_stdin_pos--; } else if (vf_rpos[h]) vf_rpos[h]--; }
FILE *fopen(const char *n, const char *m) {
  if (*m == 'r') { long h = __vf_open_read(n); if (h < 0) return nullptr; vf_rpos[h] = 0; vf_eof_[h] = 0; return (FILE *)(VF_R + h); }
  long h = __vf_open_write(n, *m == 'a'); return h < 0 ? nullptr : (FILE *)h;
}
int fclose(FILE *) { return 0; }
int feof(FILE *f) { long h = vf_h(f); return vf_eof_[h < 0 ? 64 : h]; }
int ferror(FILE *) { return 0; }
void rewind(FILE *f) { long h = vf_h(f); if (h >= 0) { vf_rpos[h] = 0; vf_eof_[h] = 0; } }
int getchar() { return vf_getc((FILE *)0); }
int fgetc(FILE *f) { return vf_getc(f); }
int getc(FILE *f) { return vf_getc(f); }
int ungetc(int c, FILE *f) { if (c < 0) return c; vf_back(f); return c; }
char *fgets(char *p, int n, FILE *f) { int k = 0; while (k + 1 < n) { int c = vf_getc(f); if (c < 0) break; p[k++] = (char)c; if (c == '\n') break; } if (!k) return nullptr; p[k] = 0; return p; }
unsigned long fread(void *p, unsigned long s, unsigned long n, FILE *f) { unsigned long k = 0; char *q = (char *)p; while (k < s * n) { int c = vf_getc(f); if (c < 0) break; q[k++] = (char)c; } return s ? k / s : 0; }
unsigned long fwrite(const void *p, unsigned long s, unsigned long n, FILE *f) { __vf_write((long)f, p, s * n); return n; }
void perror(const char *s) { __vf_puts(2, s); __vf_puts(2, ": error\n"); }
// strings
char *strncpy(char *d, const char *s, unsigned long n) { unsigned long i = 0; for (; i < n && s[i]; i++) d[i] = s[i]; for (; i < n; i++) d[i] = 0; return d; }
char *strncat(char *d, const char *s, unsigned long n) { unsigned long k = __builtin_strlen(d), i = 0; for (; i < n && s[i]; i++) d[k + i] = s[i]; d[k + i] = 0; return d; }
unsigned long strspn(const char *s, const char *a) { unsigned long i = 0; for (; s[i]; i++) { const char *p = a; while (*p && *p != s[i]) p++; if (!*p) break; } return i; }
unsigned long strcspn(const char *s, const char *a) { unsigned long i = 0; for (; s[i]; i++) { const char *p = a; while (*p && *p != s[i]) p++; if (*p) break; } return i; }
char *strtok_r(char *s, const char *a, char **sv) {
  if (!s) s = *sv;
  s += strspn(s, a); if (!*s) { *sv = s; return nullptr; }
  char *e = s + strcspn(s, a); if (*e) { *e = 0; *sv = e + 1; } else *sv = e;
  return s;
}
static char *vf_tok;
char *strtok(char *s, const char *a) { return strtok_r(s, a, &vf_tok); }
#undef strdup
char *strdup(const char *s) { unsigned long n = __builtin_strlen(s) + 1; char *p = (char *)__builtin_malloc(n); for (unsigned long i = 0; i < n; i++) p[i] = s[i]; return p; }
#undef strpbrk
char *vf_strpbrk(const char *s, const char *a) __asm__("strpbrk");
char *vf_strpbrk(const char *s, const char *a) { s += strcspn(s, a); return *s ? (char *)s : nullptr; }
#undef strstr
char *vf_strstr(const char *s, const char *t) __asm__("strstr");
char *vf_strstr(const char *s, const char *t) { for (;; s++) { unsigned long i = 0; while (t[i] && s[i] == t[i]) i++; if (!t[i]) return (char *)s; if (!*s) return nullptr; } }
void qsort(void *b, unsigned long n, unsigned long s, int (*c)(const void *, const void *)) {
  char *p = (char *)b;
  for (unsigned long i = 1; i < n; i++) for (unsigned long j = i; j > 0 && c(p + (j - 1) * s, p + j * s) > 0; j--)
    for (unsigned long k = 0; k < s; k++) { char t = p[(j - 1) * s + k]; p[(j - 1) * s + k] = p[j * s + k]; p[j * s + k] = t; }
}
}
#include <sys/single_threaded.h>
extern "C" { char __libc_single_threaded = 1; }
