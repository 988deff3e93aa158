// Runtime model linked into every harness module: the out-of-line parts of libstdc++ / libc that
// header code calls.  Nothing of eProsima/xtypes is modelled here.
#include <cstddef>
#include <cstdint>
#include <cstring>
#include <cstdlib>
#include <string>
#include <stdexcept>
#include <typeinfo>
#include <new>
#include <memory>
#include <functional>
#include <map>
#include <unordered_map>
#include <list>
#include <vx_ostream_model.h>

extern "C" { int vx_exact_fmt = 0; char __libc_single_threaded = 1; void vx_freeze(bool); bool vx_run_twice(void (*)(void*), void*) { return false; } void vx_share(bool on) { if (!on) vx_freeze(false); __libc_single_threaded = !on; if (on) vx_freeze(true); } void* __dso_handle = nullptr; }
namespace std {
basic_ostream<char> cout, cerr, clog; basic_ostream<wchar_t> wcout, wcerr;

// ---- exceptions
exception::~exception() noexcept {}
const char* exception::what() const noexcept { return "std::exception"; }
bad_exception::~bad_exception() noexcept {}
const char* bad_exception::what() const noexcept { return "std::bad_exception"; }
bad_alloc::~bad_alloc() noexcept {}
const char* bad_alloc::what() const noexcept { return "std::bad_alloc"; }
bad_array_new_length::~bad_array_new_length() noexcept {}
const char* bad_array_new_length::what() const noexcept { return "std::bad_array_new_length"; }
bad_cast::~bad_cast() noexcept {}
const char* bad_cast::what() const noexcept { return "std::bad_cast"; }
bad_typeid::~bad_typeid() noexcept {}
const char* bad_typeid::what() const noexcept { return "std::bad_typeid"; }
bad_weak_ptr::~bad_weak_ptr() noexcept {}
const char* bad_weak_ptr::what() const noexcept { return "bad_weak_ptr"; }
bad_function_call::~bad_function_call() noexcept {}
const char* bad_function_call::what() const noexcept { return "bad_function_call"; }
type_info::~type_info() {}

static const char* vx_dup(const char* s, size_t n) { char* p = (char*)malloc(n + 1); memcpy(p, s, n); p[n] = 0; return p; }
__cow_string::__cow_string() : _M_p(vx_dup("", 0)) {}
__cow_string::__cow_string(const std::string& s) : _M_p(vx_dup(s.data(), s.size())) {}
__cow_string::__cow_string(const char* s, size_t n) : _M_p(vx_dup(s, n)) {}
__cow_string::__cow_string(const __cow_string& o) noexcept : _M_p(vx_dup(o._M_p, strlen(o._M_p))) {}
__cow_string& __cow_string::operator=(const __cow_string& o) noexcept { if (this != &o) { free((void*)_M_p); _M_p = vx_dup(o._M_p, strlen(o._M_p)); } return *this; }
__cow_string::__cow_string(__cow_string&& o) noexcept : _M_p(o._M_p) { o._M_p = nullptr; }
__cow_string& __cow_string::operator=(__cow_string&& o) noexcept { const char* t = _M_p; _M_p = o._M_p; o._M_p = t; return *this; }
__cow_string::~__cow_string() { free((void*)_M_p); }

logic_error::logic_error(const string& s) : exception(), _M_msg(s) {}
logic_error::logic_error(const char* s) : exception(), _M_msg(s, strlen(s)) {}
logic_error::logic_error(const logic_error& o) noexcept : exception(o), _M_msg(o._M_msg) {}
logic_error::logic_error(logic_error&& o) noexcept : exception(o), _M_msg(std::move(o._M_msg)) {}
logic_error& logic_error::operator=(const logic_error& o) noexcept { _M_msg = o._M_msg; return *this; }
logic_error::~logic_error() noexcept {}
const char* logic_error::what() const noexcept { return _M_msg._M_p; }
domain_error::domain_error(const string& s) : logic_error(s) {}
domain_error::domain_error(const char* s) : logic_error(s) {}
domain_error::~domain_error() noexcept {}
invalid_argument::invalid_argument(const string& s) : logic_error(s) {}
invalid_argument::invalid_argument(const char* s) : logic_error(s) {}
invalid_argument::~invalid_argument() noexcept {}
length_error::length_error(const string& s) : logic_error(s) {}
length_error::length_error(const char* s) : logic_error(s) {}
length_error::~length_error() noexcept {}
out_of_range::out_of_range(const string& s) : logic_error(s) {}
out_of_range::out_of_range(const char* s) : logic_error(s) {}
out_of_range::~out_of_range() noexcept {}
runtime_error::runtime_error(const string& s) : exception(), _M_msg(s) {}
runtime_error::runtime_error(const char* s) : exception(), _M_msg(s, strlen(s)) {}
runtime_error::runtime_error(const runtime_error& o) noexcept : exception(o), _M_msg(o._M_msg) {}
runtime_error::runtime_error(runtime_error&& o) noexcept : exception(o), _M_msg(std::move(o._M_msg)) {}
runtime_error& runtime_error::operator=(const runtime_error& o) noexcept { _M_msg = o._M_msg; return *this; }
runtime_error::~runtime_error() noexcept {}
const char* runtime_error::what() const noexcept { return _M_msg._M_p; }
range_error::range_error(const string& s) : runtime_error(s) {}
range_error::range_error(const char* s) : runtime_error(s) {}
range_error::~range_error() noexcept {}
overflow_error::overflow_error(const string& s) : runtime_error(s) {}
overflow_error::overflow_error(const char* s) : runtime_error(s) {}
overflow_error::~overflow_error() noexcept {}
underflow_error::underflow_error(const string& s) : runtime_error(s) {}
underflow_error::underflow_error(const char* s) : runtime_error(s) {}
underflow_error::~underflow_error() noexcept {}

void __throw_bad_exception() { throw bad_exception(); }
void __throw_bad_alloc() { throw bad_alloc(); }
void __throw_bad_array_new_length() { throw bad_array_new_length(); }
void __throw_bad_cast() { throw bad_cast(); }
void __throw_bad_typeid() { throw bad_typeid(); }
void __throw_logic_error(const char* s) { throw logic_error(s); }
void __throw_domain_error(const char* s) { throw domain_error(s); }
void __throw_invalid_argument(const char* s) { throw invalid_argument(s); }
void __throw_length_error(const char* s) { throw length_error(s); }
void __throw_out_of_range(const char* s) { throw out_of_range(s); }
void __throw_out_of_range_fmt(const char* s, ...) { throw out_of_range(s); }
void __throw_runtime_error(const char* s) { throw runtime_error(s); }
void __throw_range_error(const char* s) { throw range_error(s); }
void __throw_overflow_error(const char* s) { throw overflow_error(s); }
void __throw_underflow_error(const char* s) { throw underflow_error(s); }
void __throw_bad_function_call() { throw bad_function_call(); }

// ---- red-black tree primitives: an unbalanced binary search tree with the same links
_Rb_tree_node_base* _Rb_tree_increment(_Rb_tree_node_base* x) throw()
{
    if (x->_M_right) { x = x->_M_right; while (x->_M_left) x = x->_M_left; return x; }
    _Rb_tree_node_base* y = x->_M_parent;
    while (x == y->_M_right) { x = y; y = y->_M_parent; }
    if (x->_M_right != y) x = y;
    return x;
}
const _Rb_tree_node_base* _Rb_tree_increment(const _Rb_tree_node_base* x) throw() { return _Rb_tree_increment(const_cast<_Rb_tree_node_base*>(x)); }
_Rb_tree_node_base* _Rb_tree_decrement(_Rb_tree_node_base* x) throw()
{
    if (x->_M_color == _S_red && x->_M_parent && x->_M_parent->_M_parent == x) return x->_M_right;
    if (x->_M_left) { x = x->_M_left; while (x->_M_right) x = x->_M_right; return x; }
    _Rb_tree_node_base* y = x->_M_parent;
    while (x == y->_M_left) { x = y; y = y->_M_parent; }
    return y;
}
const _Rb_tree_node_base* _Rb_tree_decrement(const _Rb_tree_node_base* x) throw() { return _Rb_tree_decrement(const_cast<_Rb_tree_node_base*>(x)); }
void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base* x, _Rb_tree_node_base* p, _Rb_tree_node_base& h) throw()
{
    x->_M_parent = p; x->_M_left = nullptr; x->_M_right = nullptr; x->_M_color = _S_black;
    if (left)
    {
        p->_M_left = x;
        if (p == &h) { h._M_parent = x; h._M_right = x; }
        else if (p == h._M_left) h._M_left = x;
    }
    else { p->_M_right = x; if (p == h._M_right) h._M_right = x; }
}
_Rb_tree_node_base* _Rb_tree_rebalance_for_erase(_Rb_tree_node_base* const z, _Rb_tree_node_base& h) throw()
{
    auto relink = [&](_Rb_tree_node_base* u, _Rb_tree_node_base* v) {
        _Rb_tree_node_base* p = u->_M_parent;
        if (p == &h) h._M_parent = v; else if (p->_M_left == u) p->_M_left = v; else p->_M_right = v;
        if (v) v->_M_parent = p; };
    _Rb_tree_node_base *l = h._M_left, *r = h._M_right;
    if (z == l) l = (z == r) ? &h : _Rb_tree_increment(z);
    if (z == r) r = (z == h._M_left) ? &h : _Rb_tree_decrement(z);
    if (!z->_M_left) relink(z, z->_M_right);
    else if (!z->_M_right) relink(z, z->_M_left);
    else
    {
        _Rb_tree_node_base* y = z->_M_right; while (y->_M_left) y = y->_M_left;
        if (y->_M_parent != z) { relink(y, y->_M_right); y->_M_right = z->_M_right; y->_M_right->_M_parent = y; }
        relink(z, y); y->_M_left = z->_M_left; y->_M_left->_M_parent = y;
    }
    h._M_left = l; h._M_right = r;
    return z;
}

// ---- doubly linked lists
namespace __detail {
void _List_node_base::_M_hook(_List_node_base* const p) noexcept { _M_next = p; _M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this; }
void _List_node_base::_M_unhook() noexcept { _M_prev->_M_next = _M_next; _M_next->_M_prev = _M_prev; }
void _List_node_base::_M_transfer(_List_node_base* const f, _List_node_base* const l) noexcept
{
    if (this == l) return;
    _List_node_base* before = f->_M_prev; _List_node_base* last = l->_M_prev; _List_node_base* mine = _M_prev;
    before->_M_next = l; l->_M_prev = before; mine->_M_next = f; f->_M_prev = mine; last->_M_next = this; _M_prev = last;
}
void _List_node_base::_M_reverse() noexcept { _List_node_base* t = this; do { _List_node_base* n = t->_M_next; t->_M_next = t->_M_prev; t->_M_prev = n; t = n; } while (t != this); }
void _List_node_base::swap(_List_node_base& x, _List_node_base& y) noexcept
{
    auto fix = [](_List_node_base& a, _List_node_base* n, _List_node_base* p) { a._M_next = n; a._M_prev = p; n->_M_prev = &a; p->_M_next = &a; };
    auto empty = [](_List_node_base& a) { a._M_next = a._M_prev = &a; };
    _List_node_base *xn = x._M_next, *xp = x._M_prev, *yn = y._M_next, *yp = y._M_prev; bool xe = xn == &x, ye = yn == &y;
    if (ye) empty(x); else fix(x, yn, yp);
    if (xe) empty(y); else fix(y, xn, xp);
}
}

// ---- hashing (MurmurHash64A, as libstdc++ on 64-bit targets)
size_t _Hash_bytes(const void* ptr, size_t len, size_t seed)
{
    static const size_t mul = (((size_t)0xc6a4a793UL) << 32UL) + (size_t)0x5bd1e995UL;
    const char* const buf = static_cast<const char*>(ptr);
    const size_t len_aligned = len & ~(size_t)0x7;
    const char* const end = buf + len_aligned;
    size_t hash = seed ^ (len * mul);
    for (const char* p = buf; p != end; p += 8)
    {
        size_t d; memcpy(&d, p, 8);
        d *= mul; d ^= d >> 47; d *= mul;
        hash ^= d; hash *= mul;
    }
    if ((len & 0x7) != 0)
    {
        size_t d = 0; size_t n = len & 7;
        for (size_t i = n; i-- > 0; ) d = (d << 8) + (unsigned char)end[i];
        hash ^= d; hash *= mul;
    }
    hash ^= hash >> 47; hash *= mul; hash ^= hash >> 47;
    return hash;
}
namespace __detail {
struct _Prime_rehash_policy;
}
}
#include <unordered_map>
namespace std { namespace __detail {
size_t _Prime_rehash_policy::_M_next_bkt(size_t n) const
{
    size_t p = n < 13 ? 13 : n < 29 ? 29 : n < 59 ? 59 : n < 127 ? 127 : n < 257 ? 257 : n < 541 ? 541 : n < 1109 ? 1109 : n | 1;
    _M_next_resize = p; return p;
}
pair<bool, size_t> _Prime_rehash_policy::_M_need_rehash(size_t bkt, size_t elt, size_t ins) const
{
    if (elt + ins > _M_next_resize || _M_next_resize == 0) { if (elt + ins < bkt) { _M_next_resize = bkt; return {false, 0}; } return {true, _M_next_bkt(elt + ins > 2 * bkt ? elt + ins : 2 * bkt)}; }
    return {false, 0};
}
} }

// ---- RTTI
struct VxTi { void** vt; const char* name; };
struct VxSi { void** vt; const char* name; const VxTi* base; };
struct VxVmi { void** vt; const char* name; unsigned flags, count; struct { const VxTi* base; long off; } b[1]; };
extern "C" { extern char vx_si_vt[] __asm__("_ZTVN10__cxxabiv120__si_class_type_infoE"); extern char vx_vmi_vt[] __asm__("_ZTVN10__cxxabiv121__vmi_class_type_infoE"); extern char vx_ci_vt[] __asm__("_ZTVN10__cxxabiv117__class_type_infoE"); }
static const char* vx_upcast(const char* obj, const VxTi* from, const VxTi* to)
{
    if (from == to) return obj;
    if ((char*)from->vt == vx_si_vt + 16) return vx_upcast(obj, ((const VxSi*)from)->base, to);
    if ((char*)from->vt == vx_vmi_vt + 16)
    {
        const VxVmi* v = (const VxVmi*)from;
        for (unsigned i = 0; i < v->count; ++i)
        {
            long o = v->b[i].off; const char* sub;
            if (o & 1) { const char* vt = *(const char* const*)obj; sub = obj + *(const long*)(vt + (o >> 8)); } else sub = obj + (o >> 8);
            if (const char* r = vx_upcast(sub, v->b[i].base, to)) return r;
        }
    }
    return nullptr;
}
extern "C" void* __dynamic_cast(const void* src, const void*, const void* dst, long)
{
    const long* vt = *(const long* const*)src; const char* whole = (const char*)src + vt[-2];
    return (void*)vx_upcast(whole, (const VxTi*)vt[-1], (const VxTi*)dst);
}
extern "C" { extern char vx_fi_vt[] __asm__("_ZTVN10__cxxabiv123__fundamental_type_infoE"); }
#define VX_TI(c) extern "C" { extern const VxTi vx_ti_##c __asm__("_ZTI" #c); const VxTi vx_ti_##c = {(void**)(vx_fi_vt + 16), #c}; }
VX_TI(v) VX_TI(b) VX_TI(c) VX_TI(a) VX_TI(h) VX_TI(w) VX_TI(s) VX_TI(t) VX_TI(i) VX_TI(j) VX_TI(l) VX_TI(m) VX_TI(x) VX_TI(y) VX_TI(f) VX_TI(d) VX_TI(e) VX_TI(Ds) VX_TI(Di) VX_TI(Dn)
namespace std { bool type_info::__is_pointer_p() const { return false; } bool type_info::__is_function_p() const { return false; } }

// ---- libc text conversion
extern "C" {
static thread_local int vx_errno; int* __errno_location() { return &vx_errno; }
static unsigned long long vx_conv(const char* s, char** e, int base, bool sign)
{
    const char* p = s; while (*p == ' ' || (*p >= 9 && *p <= 13)) ++p;
    bool neg = false; if (*p == '-') { neg = true; ++p; } else if (*p == '+') ++p;
    auto dig = [](char c) -> int { return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'z' ? c - 'a' + 10 : c >= 'A' && c <= 'Z' ? c - 'A' + 10 : 99; };
    if ((base == 16 || base == 0) && p[0] == '0' && (p[1] == 'x' || p[1] == 'X') && dig(p[2]) < 16) { p += 2; base = 16; }
    else if (base == 0) base = p[0] == '0' ? 8 : 10;
    unsigned long long v = 0; bool any = false, ovf = false; unsigned long long lim = sign ? (neg ? 1ull << 63 : (1ull << 63) - 1) : ~0ull;
    for (;; ++p) { int d = dig(*p); if (d >= base) break; any = true; if (v > (lim - d) / base) ovf = true; else v = v * base + d; }
    if (e) *e = (char*)(any ? p : s);
    if (ovf) vx_errno = 34;
    if (ovf) return sign ? (neg ? 1ull << 63 : (1ull << 63) - 1) : ~0ull;
    return neg ? 0 - v : v;
}
long long strtoll(const char* s, char** e, int b) { return (long long)vx_conv(s, e, b, true); }
unsigned long long strtoull(const char* s, char** e, int b) { return vx_conv(s, e, b, false); }
long strtol(const char* s, char** e, int b) { return (long)vx_conv(s, e, b, true); }
unsigned long strtoul(const char* s, char** e, int b) { return vx_conv(s, e, b, false); }
int isalpha(int c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }
int isdigit(int c) { return c >= '0' && c <= '9'; }
int isalnum(int c) { return isalpha(c) || isdigit(c); }
int isspace(int c) { return c == ' ' || (c >= 9 && c <= 13); }
int toupper(int c) { return c >= 'a' && c <= 'z' ? c - 32 : c; }
int tolower(int c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
int strcmp(const char* a, const char* b) { while (*a && *a == *b) ++a, ++b; return (unsigned char)*a - (unsigned char)*b; }
int strncmp(const char* a, const char* b, size_t n) { for (; n; --n, ++a, ++b) { if (*a != *b) return (unsigned char)*a - (unsigned char)*b; if (!*a) break; } return 0; }
size_t wcslen(const wchar_t* s) { size_t n = 0; while (s[n]) ++n; return n; }
int wmemcmp(const wchar_t* a, const wchar_t* b, size_t n) { for (size_t i = 0; i < n; ++i) if (a[i] != b[i]) return a[i] < b[i] ? -1 : 1; return 0; }
wchar_t* wmemcpy(wchar_t* d, const wchar_t* s, size_t n) { return (wchar_t*)memcpy(d, s, n * sizeof(wchar_t)); }
wchar_t* wmemmove(wchar_t* d, const wchar_t* s, size_t n) { return (wchar_t*)memmove(d, s, n * sizeof(wchar_t)); }
wchar_t* wmemset(wchar_t* d, wchar_t c, size_t n) { for (size_t i = 0; i < n; ++i) d[i] = c; return d; }
wchar_t* wmemchr(const wchar_t* s, wchar_t c, size_t n) { for (size_t i = 0; i < n; ++i) if (s[i] == c) return (wchar_t*)(s + i); return nullptr; }
char* vx_strchr(const char* q, int c) __asm__("strchr");
char* vx_strchr(const char* q, int c) { char* s = (char*)q; for (;; ++s) { if (*s == (char)c) return s; if (!*s) return nullptr; } }
char* vx_strrchr(const char* s, int c) __asm__("strrchr");
char* vx_strrchr(const char* s, int c) { const char* r = nullptr; for (;; ++s) { if (*s == (char)c) r = s; if (!*s) return (char*)r; } }
char* vx_strstr(const char* s, const char* n) __asm__("strstr");
char* vx_strstr(const char* s, const char* n) { for (;; ++s) { size_t i = 0; while (n[i] && s[i] == n[i]) ++i; if (!n[i]) return (char*)s; if (!*s) return nullptr; } }
char* strcpy(char* d, const char* s) { char* r = d; while ((*d++ = *s++)) {} return r; }
char* strncpy(char* d, const char* s, size_t n) { size_t i = 0; for (; i < n && s[i]; ++i) d[i] = s[i]; for (; i < n; ++i) d[i] = 0; return d; }
char* strcat(char* d, const char* s) { char* r = d; while (*d) ++d; while ((*d++ = *s++)) {} return r; }
char* stpcpy(char* d, const char* s) { while ((*d = *s)) ++d, ++s; return d; }
int abs(int x) { return x < 0 ? -x : x; }
long labs(long x) { return x < 0 ? -x : x; }
long long llabs(long long x) { return x < 0 ? -x : x; }
void qsort(void* b, size_t n, size_t w, int (*c)(const void*, const void*)) { char* p = (char*)b; for (size_t i = 1; i < n; ++i) for (size_t j = i; j > 0 && c(p + (j - 1) * w, p + j * w) > 0; --j) for (size_t k = 0; k < w; ++k) { char t = p[(j - 1) * w + k]; p[(j - 1) * w + k] = p[j * w + k]; p[j * w + k] = t; } }
size_t strnlen(const char* s, size_t n) { size_t i = 0; while (i < n && s[i]) ++i; return i; }
int isupper(int c) { return c >= 'A' && c <= 'Z'; }
int islower(int c) { return c >= 'a' && c <= 'z'; }
int isxdigit(int c) { return isdigit(c) || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F'); }
int isprint(int c) { return c >= 32 && c < 127; }
int isgraph(int c) { return c > 32 && c < 127; }
int ispunct(int c) { return isgraph(c) && !isalnum(c); }
int iscntrl(int c) { return (c >= 0 && c < 32) || c == 127; }
// snprintf for integers and text; arguments as 64-bit words
__attribute__((used)) int vx_format(char* b, size_t n, const char* f, const uint64_t* a)
{
    size_t k = 0; auto out = [&](char c) { if (k + 1 < n) b[k] = c; ++k; };
    while (*f)
    {
        if (*f != '%') { out(*f++); continue; }
        ++f; bool left = false, zero = false, plus = false, alt = false, space = false; for (;; ++f) { if (*f == '-') left = true; else if (*f == '0') zero = true; else if (*f == '+') plus = true; else if (*f == '#') alt = true; else if (*f == ' ') space = true; else break; }
        long w = 0, p = -1; if (*f == '*') { w = (int)*a++; ++f; if (w < 0) { left = true; w = -w; } } else while (isdigit(*f)) w = w * 10 + (*f++ - '0');
        if (*f == '.') { ++f; p = 0; if (*f == '*') { p = (int)*a++; ++f; } else while (isdigit(*f)) p = p * 10 + (*f++ - '0'); }
        unsigned bits = 32; for (;; ++f) { if (*f == 'l' || *f == 'z' || *f == 'j' || *f == 't') bits = 64; else if (*f == 'h') bits = bits == 16 ? 8 : 16; else break; }
        char t[40]; int m = 40; const char* s = nullptr; size_t len = 0; char sign = 0; const char* pre = ""; char c = *f++;
        if (c == '%') { out('%'); continue; }
        else if (c == 'c') { t[--m] = (char)*a++; s = t + m; len = 1; zero = false; }
        else if (c == 's') { s = (const char*)*a++; while ((p < 0 || (long)len < p) && s[len]) ++len; zero = false; }
        else if (c == 'd' || c == 'i' || c == 'u' || c == 'x' || c == 'X' || c == 'o')
        {
            uint64_t v = *a++; bool sg = c == 'd' || c == 'i'; if (bits < 64) v = sg ? (uint64_t)((int64_t)(v << (64 - bits)) >> (64 - bits)) : v & ((1ull << bits) - 1);
            if (!vx_exact_fmt && vx_is_symbolic(v)) { t[--m] = '#'; }
            else
            {
                if (sg && (int64_t)v < 0) { sign = '-'; v = 0 - v; } else if (sg && plus) sign = '+'; else if (sg && space) sign = ' ';
                bool z = v == 0; if (!(z && p == 0)) do { unsigned d = c == 'x' || c == 'X' ? v & 15 : c == 'o' ? v & 7 : v % 10; t[--m] = (char)(d < 10 ? '0' + d : (c == 'X' ? 'A' : 'a') + (d - 10)); v = c == 'x' || c == 'X' ? v >> 4 : c == 'o' ? v >> 3 : v / 10; } while (v);
                if (alt && !z) { if (c == 'x') pre = "0x"; else if (c == 'X') pre = "0X"; else if (c == 'o') t[--m] = '0'; }
                if (p >= 0) { zero = false; if (p > 30) vx_unsupported("precision"); while (40 - m < p) t[--m] = '0'; }
            }
            s = t + m; len = 40 - m;
        }
        else vx_unsupported("conversion of snprintf");
        long total = (long)len + (sign ? 1 : 0) + (*pre ? 2 : 0);
        if (!left && !zero) for (long i = total; i < w; ++i) out(' ');
        if (sign) out(sign); for (const char* q = pre; *q; ++q) out(*q);
        if (!left && zero) for (long i = total; i < w; ++i) out('0');
        for (size_t i = 0; i < len; ++i) out(s[i]);
        if (left) for (long i = total; i < w; ++i) out(' ');
    }
    if (n) b[k < n ? k : n - 1] = 0;
    return (int)k;
}
}
