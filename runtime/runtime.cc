// Library functions that live outside the headers, as plain code for the
// symbolic build.  (The native build takes them from libc/libstdc++.)
#define _FORTIFY_SOURCE 0
#define __NO_INLINE__ 1
#include <cstddef>
#include <cstdint>
#include <cstdlib>
#include <cstdarg>
#include <cstdio>
#include <system_error>
#include <utility>
#undef putchar
#undef putc
extern "C" {
char __libc_single_threaded = 1;
void *__dso_handle = nullptr;
static int errno_storage;
int *__errno_location() noexcept { return &errno_storage; }
size_t strlen(const char *s) { size_t n = 0; while (s[n]) ++n; return n; }
void *memchr(const void *p, int c, size_t n) { const unsigned char *s = (const unsigned char *)p; for (size_t i = 0; i < n; ++i) if (s[i] == (unsigned char)c) return (void *)(s + i); return nullptr; }
void *memrchr(const void *p, int c, size_t n) { const unsigned char *s = (const unsigned char *)p; while (n--) if (s[n] == (unsigned char)c) return (void *)(s + n); return nullptr; }
int strcmp(const char *a, const char *b) { while (*a && *a == *b) ++a, ++b; return (unsigned char)*a - (unsigned char)*b; }
int strncmp(const char *a, const char *b, size_t n) { for (; n; --n, ++a, ++b) { if (*a != *b || !*a) return (unsigned char)*a - (unsigned char)*b; } return 0; }
char *strchr(const char *s, int c) { for (;; ++s) { if (*s == (char)c) return (char *)s; if (!*s) return nullptr; } }
char *strrchr(const char *s, int c) { const char *r = nullptr; for (;; ++s) { if (*s == (char)c) r = s; if (!*s) return (char *)r; } }
char *strcpy(char *d, const char *s) { char *r = d; while ((*d++ = *s++)) {} return r; }
char *strcat(char *d, const char *s) { strcpy(d + strlen(d), s); return d; }
char *strncpy(char *d, const char *s, size_t n) { size_t i = 0; for (; i < n && s[i]; ++i) d[i] = s[i]; for (; i < n; ++i) d[i] = 0; return d; }
size_t strnlen(const char *s, size_t n) { size_t i = 0; while (i < n && s[i]) ++i; return i; }
char *strstr(const char *h, const char *n) { const size_t l = strlen(n); for (;; ++h) { if (strncmp(h, n, l) == 0) return (char *)h; if (!*h) return nullptr; } }
size_t strspn(const char *s, const char *a) { size_t n = 0; while (s[n] && strchr(a, s[n])) ++n; return n; }
size_t strcspn(const char *s, const char *a) { size_t n = 0; while (s[n] && !strchr(a, s[n])) ++n; return n; }
char *strpbrk(const char *s, const char *a) { s += strcspn(s, a); return *s ? (char *)s : nullptr; }
char *strdup(const char *s) { const size_t n = strlen(s) + 1; char *r = (char *)malloc(n); for (size_t i = 0; i < n; ++i) r[i] = s[i]; return r; }
void *memmem(const void *h, size_t hn, const void *n, size_t nn) { const char *a = (const char *)h, *b = (const char *)n; for (size_t i = 0; i + nn <= hn; ++i) { size_t k = 0; while (k < nn && a[i + k] == b[k]) ++k; if (k == nn) return (void *)(a + i); } return nullptr; }
int isspace(int c) { return c == ' ' || (c >= 9 && c <= 13); }
int isdigit(int c) { return c >= '0' && c <= '9'; }
int isalpha(int c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }
int isalnum(int c) { return isalpha(c) || isdigit(c); }
int isupper(int c) { return c >= 'A' && c <= 'Z'; }
int islower(int c) { return c >= 'a' && c <= 'z'; }
int isxdigit(int c) { return isdigit(c) || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F'); }
int isprint(int c) { return c >= 32 && c < 127; }
int ispunct(int c) { return isprint(c) && !isalnum(c) && c != ' '; }
int tolower(int c) { return isupper(c) ? c + 32 : c; }
int isgraph(int c) { return c > 32 && c < 127; }
int iscntrl(int c) { return (c >= 0 && c < 32) || c == 127; }
int isblank(int c) { return c == ' ' || c == 9; }
int toupper(int c) { return islower(c) ? c - 32 : c; }
// ---- numbers
static bool strto_(const char *s, char **end, int base, bool sign, unsigned long *out) {
  const char *p = s; while (isspace((unsigned char)*p)) ++p; bool neg = false; if (*p == '-' || *p == '+') neg = *p++ == '-';
  if ((base == 0 || base == 16) && p[0] == '0' && (p[1] | 32) == 'x' && isxdigit((unsigned char)p[2])) { p += 2; base = 16; } else if (base == 0) base = *p == '0' ? 8 : 10;
  unsigned long v = 0; bool any = false, over = false; const unsigned long lim = sign ? 0x7ffffffffffffffful + neg : ~0ul;
  for (;; ++p) { const int c = (unsigned char)*p; int d = isdigit(c) ? c - '0' : isalpha(c) ? (c | 32) - 'a' + 10 : 99; if (d >= base) break; any = true; if (over || v > (lim - d) / base) over = true; else v = v * base + d; }
  if (end) *end = (char *)(any ? p : s); if (over) { errno_storage = 34; *out = lim; return true; } *out = neg ? 0 - v : v; return any;
}
long strtol(const char *s, char **e, int b) noexcept { unsigned long v; strto_(s, e, b, true, &v); return (long)v; }
unsigned long strtoul(const char *s, char **e, int b) noexcept { unsigned long v; strto_(s, e, b, false, &v); return v; }
long long strtoll(const char *s, char **e, int b) noexcept { return strtol(s, e, b); }
unsigned long long strtoull(const char *s, char **e, int b) noexcept { return strtoul(s, e, b); }
// ---- formatted output
int vsnprintf(char *out, size_t cap, const char *f, va_list ap) {
  size_t n = 0; auto put = [&](char c) { if (n + 1 < cap) out[n] = c; ++n; };
  for (; *f; ++f) {
    if (*f != '%') { put(*f); continue; }
    ++f; bool left = false, zero = false, plus = false, space = false, alt = false; int width = 0, prec = -1, lng = 0;
    for (;; ++f) { if (*f == '-') left = true; else if (*f == '0') zero = true; else if (*f == '+') plus = true; else if (*f == ' ') space = true; else if (*f == '#') alt = true; else break; }
    if (*f == '*') { width = va_arg(ap, int); if (width < 0) { left = true; width = -width; } ++f; } else while (*f >= '0' && *f <= '9') width = width * 10 + (*f++ - '0');
    if (*f == '.') { ++f; prec = 0; if (*f == '*') { prec = va_arg(ap, int); ++f; } else while (*f >= '0' && *f <= '9') prec = prec * 10 + (*f++ - '0'); }
    for (;; ++f) { if (*f == 'l' || *f == 'z' || *f == 'j' || *f == 't' || *f == 'q') lng = 2; else if (*f == 'h') --lng; else break; }
    const char c = *f; char buf[72]; const char *b = buf; int len = 0; char sign = 0; const char *pre = "";
    if (c == '%') { buf[0] = '%'; len = 1; zero = false; }
    else if (c == 'c') { buf[0] = (char)va_arg(ap, int); len = 1; zero = false; }
    else if (c == 's') { b = va_arg(ap, const char *); if (!b) b = "(null)"; while ((prec < 0 || len < prec) && b[len]) ++len; zero = false; }
    else if (c == 'd' || c == 'i' || c == 'u' || c == 'x' || c == 'X' || c == 'o' || c == 'p') {
      unsigned long v; if (c == 'd' || c == 'i') { long x = lng > 0 ? va_arg(ap, long) : va_arg(ap, int); if (lng == -1) x = (short)x; if (lng == -2) x = (signed char)x; if (x < 0) { sign = '-'; v = 0ul - (unsigned long)x; } else { v = x; if (plus) sign = '+'; else if (space) sign = ' '; } }
      else { v = c == 'p' || lng > 0 ? va_arg(ap, unsigned long) : va_arg(ap, unsigned); if (lng == -1) v = (unsigned short)v; if (lng == -2) v = (unsigned char)v; }
      unsigned base = c == 'x' || c == 'X' || c == 'p' ? 16 : c == 'o' ? 8 : 10; const char *dig = c == 'X' ? "0123456789ABCDEF" : "0123456789abcdef"; char t[24]; int k = 0; if ((alt && v && base == 16) || c == 'p') pre = c == 'X' ? "0X" : "0x";
      do { t[k++] = dig[v % base]; v /= base; } while (v); while (k < prec && k < 24) t[k++] = '0'; if (prec >= 0) zero = false; while (k) buf[len++] = t[--k];
    } else if (c == 'f' || c == 'g' || c == 'e') { double d = va_arg(ap, double); if (d < 0) { sign = '-'; d = -d; } if (prec < 0) prec = 6; unsigned long ip = (unsigned long)d; double fr = d - (double)ip; char t[24]; int k = 0; do { t[k++] = '0' + ip % 10; ip /= 10; } while (ip); while (k) buf[len++] = t[--k]; if (prec) { buf[len++] = '.'; for (int i = 0; i < prec && i < 20; ++i) { fr *= 10; int g = (int)fr; buf[len++] = '0' + g; fr -= g; } } }
    else __builtin_trap();
    int total = len + (sign ? 1 : 0); for (const char *q = pre; *q; ++q) ++total;
    if (!left && !zero) for (int i = total; i < width; ++i) put(' ');
    if (sign) put(sign); for (const char *q = pre; *q; ++q) put(*q);
    if (!left && zero) for (int i = total; i < width; ++i) put('0');
    for (int i = 0; i < len; ++i) put(b[i]);
    if (left) for (int i = total; i < width; ++i) put(' ');
  }
  if (cap) out[n < cap ? n : cap - 1] = 0; return (int)n;
}
int snprintf(char *out, size_t cap, const char *f, ...) { va_list ap; va_start(ap, f); int r = vsnprintf(out, cap, f, ap); va_end(ap); return r; }
int sprintf(char *out, const char *f, ...) { va_list ap; va_start(ap, f); int r = vsnprintf(out, 1u << 30, f, ap); va_end(ap); return r; }
__attribute__((weak)) void sym_file_put(FILE *, const char *, size_t) {}
int vfprintf(FILE *o, const char *f, va_list ap) { va_list c; va_copy(c, ap); char small[256]; int n = vsnprintf(small, sizeof small, f, ap); if (n < 256) { sym_file_put(o, small, n); return n; } char *b = (char *)malloc(n + 1); vsnprintf(b, n + 1, f, c); sym_file_put(o, b, n); free(b); return n; }
int fprintf(FILE *o, const char *f, ...) { va_list ap; va_start(ap, f); int r = vfprintf(o, f, ap); va_end(ap); return r; }
int printf(const char *f, ...) { va_list ap; va_start(ap, f); int r = vfprintf(stdout, f, ap); va_end(ap); return r; }
size_t fwrite(const void *p, size_t s, size_t n, FILE *o) { sym_file_put(o, (const char *)p, s * n); return n; }
int fputs(const char *s, FILE *o) { sym_file_put(o, s, strlen(s)); return 1; }
int fputc(int c, FILE *o) { char b = (char)c; sym_file_put(o, &b, 1); return c; }
int putc(int c, FILE *o) { return fputc(c, o); }
int putchar(int c) { return fputc(c, stdout); }
int puts(const char *s) { fputs(s, stdout); fputc(10, stdout); return 1; }
char *strerror(int) { return (char *)"error"; }
__attribute__((weak)) int fflush(FILE *) { return 0; }
__attribute__((weak)) char *getenv(const char *) { return nullptr; }
__attribute__((weak)) int isatty(int) { return 0; }
}
// ---- red-black tree (std::map/std::set support)
namespace std {
enum _Rb_tree_color { _S_red = false, _S_black = true };
struct _Rb_tree_node_base { typedef _Rb_tree_node_base *_Base_ptr; _Rb_tree_color _M_color; _Base_ptr _M_parent, _M_left, _M_right; };
typedef _Rb_tree_node_base N;
static N *inc(N *x) {
  if (x->_M_right) { x = x->_M_right; while (x->_M_left) x = x->_M_left; }
  else { N *y = x->_M_parent; while (x == y->_M_right) { x = y; y = y->_M_parent; } if (x->_M_right != y) x = y; }
  return x;
}
static N *decr(N *x) {
  if (x->_M_color == _S_red && x->_M_parent->_M_parent == x) x = x->_M_right;
  else if (x->_M_left) { N *y = x->_M_left; while (y->_M_right) y = y->_M_right; x = y; }
  else { N *y = x->_M_parent; while (x == y->_M_left) { x = y; y = y->_M_parent; } x = y; }
  return x;
}
N *_Rb_tree_increment(N *x) throw() { return inc(x); }
const N *_Rb_tree_increment(const N *x) throw() { return inc((N *)x); }
N *_Rb_tree_decrement(N *x) throw() { return decr(x); }
const N *_Rb_tree_decrement(const N *x) throw() { return decr((N *)x); }
static void rotl(N *x, N *&root) { N *y = x->_M_right; x->_M_right = y->_M_left; if (y->_M_left) y->_M_left->_M_parent = x; y->_M_parent = x->_M_parent; if (x == root) root = y; else if (x == x->_M_parent->_M_left) x->_M_parent->_M_left = y; else x->_M_parent->_M_right = y; y->_M_left = x; x->_M_parent = y; }
static void rotr(N *x, N *&root) { N *y = x->_M_left; x->_M_left = y->_M_right; if (y->_M_right) y->_M_right->_M_parent = x; y->_M_parent = x->_M_parent; if (x == root) root = y; else if (x == x->_M_parent->_M_right) x->_M_parent->_M_right = y; else x->_M_parent->_M_left = y; y->_M_right = x; x->_M_parent = y; }
void _Rb_tree_insert_and_rebalance(const bool left, N *x, N *p, N &header) throw() {
  N *&root = header._M_parent;
  x->_M_parent = p; x->_M_left = x->_M_right = nullptr; x->_M_color = _S_red;
  if (left) { p->_M_left = x; if (p == &header) { header._M_parent = x; header._M_right = x; } else if (p == header._M_left) header._M_left = x; }
  else { p->_M_right = x; if (p == header._M_right) header._M_right = x; }
  while (x != root && x->_M_parent->_M_color == _S_red) {
    N *xpp = x->_M_parent->_M_parent;
    if (x->_M_parent == xpp->_M_left) {
      N *y = xpp->_M_right;
      if (y && y->_M_color == _S_red) { x->_M_parent->_M_color = _S_black; y->_M_color = _S_black; xpp->_M_color = _S_red; x = xpp; }
      else { if (x == x->_M_parent->_M_right) { x = x->_M_parent; rotl(x, root); } x->_M_parent->_M_color = _S_black; xpp->_M_color = _S_red; rotr(xpp, root); }
    } else {
      N *y = xpp->_M_left;
      if (y && y->_M_color == _S_red) { x->_M_parent->_M_color = _S_black; y->_M_color = _S_black; xpp->_M_color = _S_red; x = xpp; }
      else { if (x == x->_M_parent->_M_left) { x = x->_M_parent; rotr(x, root); } x->_M_parent->_M_color = _S_black; xpp->_M_color = _S_red; rotl(xpp, root); }
    }
  }
  root->_M_color = _S_black;
}
N *_Rb_tree_rebalance_for_erase(N *const z, N &header) throw() {
  N *&root = header._M_parent; N *&leftmost = header._M_left; N *&rightmost = header._M_right;
  N *y = z, *x = nullptr, *xp = nullptr;
  if (!y->_M_left) x = y->_M_right; else if (!y->_M_right) x = y->_M_left; else { y = y->_M_right; while (y->_M_left) y = y->_M_left; x = y->_M_right; }
  if (y != z) {
    z->_M_left->_M_parent = y; y->_M_left = z->_M_left;
    if (y != z->_M_right) { xp = y->_M_parent; if (x) x->_M_parent = y->_M_parent; y->_M_parent->_M_left = x; y->_M_right = z->_M_right; z->_M_right->_M_parent = y; } else xp = y;
    if (root == z) root = y; else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = y; else z->_M_parent->_M_right = y;
    y->_M_parent = z->_M_parent; _Rb_tree_color c = y->_M_color; y->_M_color = z->_M_color; z->_M_color = c; y = z;
  } else {
    xp = y->_M_parent; if (x) x->_M_parent = y->_M_parent;
    if (root == z) root = x; else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = x; else z->_M_parent->_M_right = x;
    if (leftmost == z) { if (!z->_M_right) leftmost = z->_M_parent; else { N *m = x; while (m->_M_left) m = m->_M_left; leftmost = m; } }
    if (rightmost == z) { if (!z->_M_left) rightmost = z->_M_parent; else { N *m = x; while (m->_M_right) m = m->_M_right; rightmost = m; } }
  }
  if (y->_M_color != _S_red) {
    while (x != root && (!x || x->_M_color == _S_black))
      if (x == xp->_M_left) {
        N *w = xp->_M_right;
        if (w->_M_color == _S_red) { w->_M_color = _S_black; xp->_M_color = _S_red; rotl(xp, root); w = xp->_M_right; }
        if ((!w->_M_left || w->_M_left->_M_color == _S_black) && (!w->_M_right || w->_M_right->_M_color == _S_black)) { w->_M_color = _S_red; x = xp; xp = xp->_M_parent; }
        else { if (!w->_M_right || w->_M_right->_M_color == _S_black) { w->_M_left->_M_color = _S_black; w->_M_color = _S_red; rotr(w, root); w = xp->_M_right; }
          w->_M_color = xp->_M_color; xp->_M_color = _S_black; if (w->_M_right) w->_M_right->_M_color = _S_black; rotl(xp, root); break; }
      } else {
        N *w = xp->_M_left;
        if (w->_M_color == _S_red) { w->_M_color = _S_black; xp->_M_color = _S_red; rotr(xp, root); w = xp->_M_left; }
        if ((!w->_M_right || w->_M_right->_M_color == _S_black) && (!w->_M_left || w->_M_left->_M_color == _S_black)) { w->_M_color = _S_red; x = xp; xp = xp->_M_parent; }
        else { if (!w->_M_left || w->_M_left->_M_color == _S_black) { w->_M_right->_M_color = _S_black; w->_M_color = _S_red; rotl(w, root); w = xp->_M_left; }
          w->_M_color = xp->_M_color; xp->_M_color = _S_black; if (w->_M_left) w->_M_left->_M_color = _S_black; rotr(xp, root); break; }
      }
    if (x) x->_M_color = _S_black;
  }
  return y;
}
// ---- std::hash of byte ranges (64 bit), on concrete bytes
extern "C" unsigned long sym_concretize(unsigned long);
size_t _Hash_bytes(const void *ptr, size_t len, size_t seed) {
  const size_t mul = ((size_t)0xc6a4a793UL << 32) + (size_t)0x5bd1e995UL; const unsigned char *b = (const unsigned char *)ptr; size_t hash = seed ^ (len * mul), i = 0; auto mix = [](size_t v) { return v ^ (v >> 47); };
  auto load = [&](size_t n) { size_t r = 0; for (size_t k = n; k-- > 0;) r = (r << 8) + sym_concretize(b[i + k]); return r; };
  for (; i < (len & ~(size_t)7); i += 8) { hash ^= mix(load(8) * mul) * mul; hash *= mul; }
  if (len & 7) { hash ^= load(len & 7); hash *= mul; }
  return mix(mix(hash) * mul);
}
// ---- std::list
namespace __detail {
struct _List_node_base { _List_node_base *_M_next, *_M_prev;
  void _M_hook(_List_node_base *const p) noexcept; void _M_unhook() noexcept; void _M_transfer(_List_node_base *const f, _List_node_base *const l) noexcept; void _M_reverse() noexcept; static void swap(_List_node_base &, _List_node_base &) noexcept; };
void _List_node_base::_M_hook(_List_node_base *const p) noexcept { _M_next = p; _M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this; }
void _List_node_base::_M_unhook() noexcept { _List_node_base *n = _M_next, *p = _M_prev; p->_M_next = n; n->_M_prev = p; }
void _List_node_base::_M_transfer(_List_node_base *const f, _List_node_base *const l) noexcept { if (this == l) return; l->_M_prev->_M_next = this; f->_M_prev->_M_next = l; this->_M_prev->_M_next = f; _List_node_base *t = _M_prev; _M_prev = l->_M_prev; l->_M_prev = f->_M_prev; f->_M_prev = t; }
void _List_node_base::_M_reverse() noexcept { _List_node_base *n = this; do { _List_node_base *t = n->_M_next; n->_M_next = n->_M_prev; n->_M_prev = t; n = t; } while (n != this); }
void _List_node_base::swap(_List_node_base &x, _List_node_base &y) noexcept {
  if (x._M_next != &x) { if (y._M_next != &y) { auto *a = x._M_next, *b = x._M_prev; x._M_next = y._M_next; x._M_prev = y._M_prev; y._M_next = a; y._M_prev = b; x._M_next->_M_prev = x._M_prev->_M_next = &x; y._M_next->_M_prev = y._M_prev->_M_next = &y; }
    else { y._M_next = x._M_next; y._M_prev = x._M_prev; y._M_next->_M_prev = y._M_prev->_M_next = &y; x._M_next = x._M_prev = &x; } }
  else if (y._M_next != &y) { x._M_next = y._M_next; x._M_prev = y._M_prev; x._M_next->_M_prev = x._M_prev->_M_next = &x; y._M_next = y._M_prev = &y; }
}
// ---- unordered containers: the growth of libstdc++ (so the order is the same)
static const unsigned kPrimes_[] = {17,19,23,29,31,37,41,43,47,53,59,61,67,71,73,79,83,89,97,103,109,113,127,137,139,149,157,167,179,193,199,211,227,241,257,277,293,313,337,359,383,409,439,467,503,541,577,619,661,709,761,823,887,953,1031,1109,1193,1289,1381,1493,1613,1741,1879,2029,2179,2357,2549,2753,2971,3209,3469,3739,4027,4349,4703,5087,5503,5953,6427,6949,7517,8123,8783,9497,10273,11113,12011,12983,14033,15173,16411,17749,19183,20753,22447,24281,26267,28411,30727,33223,35933,38873,42043,45481,49201,53201,57557,62233,67307,72817,78779,85229,92203,99733,107897,116731,126271,136607,147793,159871,172933,187091,202409,218971,236897,256279,277261,299951,324503};
struct _Prime_rehash_policy { float _M_max_load_factor; mutable size_t _M_next_resize; size_t _M_next_bkt(size_t n) const; size_t _M_bkt_for_elements(size_t n) const { const double d = (double)n / (double)_M_max_load_factor; size_t r = (size_t)d; return r < d ? r + 1 : r; } std::pair<bool, size_t> _M_need_rehash(size_t, size_t, size_t) const; };
size_t _Prime_rehash_policy::_M_next_bkt(size_t n) const {
  static const unsigned char kFast[] = {2, 2, 2, 3, 5, 5, 7, 7, 11, 11, 11, 11, 13, 13};
  size_t b = 0; if (n < sizeof(kFast)) { if (n == 0) return 1; b = kFast[n]; } else { for (unsigned p : kPrimes_) if (p >= n) { b = p; break; } if (!b) __builtin_trap(); }
  _M_next_resize = (size_t)((double)b * (double)_M_max_load_factor); return b;
}
std::pair<bool, size_t> _Prime_rehash_policy::_M_need_rehash(size_t bkt, size_t elt, size_t ins) const {
  if (elt + ins > _M_next_resize) { const size_t want = elt + ins, floor = _M_next_resize ? 0 : 11; const double min = (double)(want > floor ? want : floor) / (double)_M_max_load_factor; if (min >= (double)bkt) { const size_t a = (size_t)min + 1, b = bkt * 2; return {true, _M_next_bkt(a > b ? a : b)}; } _M_next_resize = (size_t)((double)bkt * (double)_M_max_load_factor); }
  return {false, 0};
}
}
}  // namespace std

// <system_error>: the two categories behind std::error_code.
#include <system_error>
namespace std { inline namespace _V2 {
error_category::~error_category() = default;
error_condition error_category::default_error_condition(int i) const noexcept { return error_condition(i, *this); }
bool error_category::equivalent(int i, const error_condition &c) const noexcept { return default_error_condition(i) == c; }
bool error_category::equivalent(const error_code &c, int i) const noexcept { return &c.category() == this && c.value() == i; }
#if _GLIBCXX_USE_DUAL_ABI
__cow_string error_category::_M_message(int) const { __builtin_trap(); }
#endif
}}
namespace { struct Cat_ final : std::error_category {
  const char *n; bool sys; constexpr Cat_(const char *n, bool s) : n(n), sys(s) {} const char *name() const noexcept override { return n; } std::string message(int i) const override { return i ? "Error" : "Success"; }
  std::error_condition default_error_condition(int i) const noexcept override { return std::error_condition(i, std::generic_category()); }
}; constinit Cat_ g_gen("generic", false), g_sys("system", true); }
namespace std { inline namespace _V2 { const error_category &generic_category() noexcept { return g_gen; } const error_category &system_category() noexcept { return g_sys; } }}
