// Support runtime compiled to IR and linked with every harness: the pieces of libc/libstdc++ that live in shared objects.
#include <cstddef>
#include <cstdint>
#include <exception>
#include <stdexcept>
#include <new>
#include <typeinfo>
#include <string>
template class std::basic_string<char>;
namespace std {
__cow_string::__cow_string() {}
exception::~exception() noexcept {}
const char *exception::what() const noexcept { return "std::exception"; }
bad_alloc::~bad_alloc() noexcept {}
const char *bad_alloc::what() const noexcept { return "std::bad_alloc"; }
bad_cast::~bad_cast() noexcept {}
const char *bad_cast::what() const noexcept { return "std::bad_cast"; }
bad_array_new_length::~bad_array_new_length() noexcept {}
const char *bad_array_new_length::what() const noexcept { return "std::bad_array_new_length"; }
// the message is dropped: __cow_string is private, so the objects are only constructed, never read back
__cow_string::__cow_string(const __cow_string &) noexcept {}
__cow_string::~__cow_string() {}
#define SX_EXC(C, B) C::C(const string &) : B(string()) {} C::C(const char *) : B(static_cast<const char *>("")) {} C::~C() noexcept {}
logic_error::logic_error(const string &) {}
logic_error::logic_error(const char *) {}
logic_error::~logic_error() noexcept {}
const char *logic_error::what() const noexcept { return "std::logic_error"; }
runtime_error::runtime_error(const string &) {}
runtime_error::runtime_error(const char *) {}
runtime_error::~runtime_error() noexcept {}
const char *runtime_error::what() const noexcept { return "std::runtime_error"; }
SX_EXC(length_error, logic_error) SX_EXC(out_of_range, logic_error) SX_EXC(invalid_argument, logic_error) SX_EXC(domain_error, logic_error)
void __throw_bad_alloc() { throw bad_alloc(); }
void __throw_bad_array_new_length() { throw bad_array_new_length(); }
void __throw_bad_cast() { throw bad_cast(); }
void __throw_logic_error(const char *s) { throw logic_error(s); }
void __throw_length_error(const char *s) { throw length_error(s); }
void __throw_out_of_range(const char *s) { throw out_of_range(s); }
void __throw_out_of_range_fmt(const char *s, ...) { throw out_of_range(s); }
void __throw_invalid_argument(const char *s) { throw invalid_argument(s); }
void __throw_bad_function_call() { throw logic_error("bad_function_call"); }
const nothrow_t nothrow{};
size_t _Hash_bytes(const void *p, size_t n, size_t seed) { unsigned h = n; const unsigned char *a = (const unsigned char *)p; (void)seed; for (size_t i = 0; i < n; ++i) h += (unsigned)a[i] * (unsigned)(i + 1); return h & 0xffff; }
namespace __detail {
struct _List_node_base { _List_node_base *_M_next, *_M_prev; void _M_hook(_List_node_base *p) noexcept; void _M_unhook() noexcept; void _M_transfer(_List_node_base *first, _List_node_base *last) noexcept; };
void _List_node_base::_M_hook(_List_node_base *p) noexcept { _M_next = p; _M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this; }
void _List_node_base::_M_unhook() noexcept { _M_prev->_M_next = _M_next; _M_next->_M_prev = _M_prev; }
void _List_node_base::_M_transfer(_List_node_base *first, _List_node_base *last) noexcept {
  if (this != last) { last->_M_prev->_M_next = this; first->_M_prev->_M_next = last; this->_M_prev->_M_next = first; _List_node_base *const t = this->_M_prev; this->_M_prev = last->_M_prev; last->_M_prev = first->_M_prev; first->_M_prev = t; }
}
struct _Prime_rehash_policy { float _M_max_load_factor; mutable size_t _M_next_resize; size_t _M_next_bkt(size_t n) const; struct R { bool a; size_t b; }; pair<bool, size_t> _M_need_rehash(size_t nb, size_t ne, size_t ni) const; };
size_t _Prime_rehash_policy::_M_next_bkt(size_t n) const { size_t p = n < 13 ? 13 : n * 2 + 1; _M_next_resize = p; return p; }
pair<bool, size_t> _Prime_rehash_policy::_M_need_rehash(size_t nb, size_t ne, size_t ni) const { if (ne + ni > _M_next_resize) { size_t w = ne + ni > nb * 2 ? ne + ni : nb * 2; return {true, _M_next_bkt(w)}; } return {false, 0}; }
}  // namespace __detail
}  // namespace std
extern "C" {
void sxrt_throw_bad_alloc() { throw std::bad_alloc(); }
void __cxa_throw_bad_array_new_length() { throw std::bad_array_new_length(); }
size_t strlen(const char *s) { size_t n = 0; while (s[n]) ++n; return n; }
int strcmp(const char *a, const char *b) { for (;; ++a, ++b) { if (*a != *b) return (unsigned char)*a - (unsigned char)*b; if (!*a) return 0; } }
int strncmp(const char *a, const char *b, size_t n) { for (; n; --n, ++a, ++b) { if (*a != *b) return (unsigned char)*a - (unsigned char)*b; if (!*a) return 0; } return 0; }
int memcmp(const void *p, const void *q, size_t n) { const unsigned char *a = (const unsigned char *)p, *b = (const unsigned char *)q; for (; n; --n, ++a, ++b) if (*a != *b) return (int)*a - (int)*b; return 0; }
int bcmp(const void *p, const void *q, size_t n) { return memcmp(p, q, n); }
void *memchr(const void *p, int c, size_t n) { const unsigned char *a = (const unsigned char *)p; for (; n; --n, ++a) if (*a == (unsigned char)c) return (void *)a; return nullptr; }
char *strchr(const char *s, int c) { for (;; ++s) { if (*s == (char)c) return (char *)s; if (!*s) return nullptr; } }
char *strrchr(const char *s, int c) { const char *r = nullptr; for (;; ++s) { if (*s == (char)c) r = s; if (!*s) return (char *)r; } }
char *strcpy(char *d, const char *s) { char *r = d; while ((*d++ = *s++)) {} return r; }
char *strncpy(char *d, const char *s, size_t n) { size_t i = 0; for (; i < n && s[i]; ++i) d[i] = s[i]; for (; i < n; ++i) d[i] = 0; return d; }
int tolower(int c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
int toupper(int c) { return c >= 'a' && c <= 'z' ? c - 32 : c; }
int isspace(int c) { return c == ' ' || (c >= 9 && c <= 13); }
long __isoc23_strtol(const char *s, char **e, int base) {  // decimal
  while (isspace((unsigned char)*s)) ++s; bool n = false; if (*s == '-' || *s == '+') n = *s++ == '-'; long v = 0; for (; *s >= '0' && *s <= '9'; ++s) v = v * 10 + (*s - '0'); if (e) *e = (char *)s; (void)base; return n ? -v : v;
}
int abs(int x) { return x < 0 ? -x : x; }
struct SxC2 { double re, im; };
SxC2 __divdc3(double a, double b, double c, double d) { if (d == 0) return {a / c, b / c}; if (c == 0) return {b / d, -a / d}; double n = c * c + d * d; return {(a * c + b * d) / n, (b * c - a * d) / n}; }
SxC2 __muldc3(double a, double b, double c, double d) { return {a * c - b * d, a * d + b * c}; }
}
