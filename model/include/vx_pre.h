// instantiate library templates in the module instead of referring to libstdc++.so
#include <bits/c++config.h>
#undef _GLIBCXX_EXTERN_TEMPLATE
#define _GLIBCXX_EXTERN_TEMPLATE 0
// std::to_string like the stream formatting of vx_ostream_model.h
#define to_string vx_hidden_to_string
#include <string>
#undef to_string
extern "C" { bool vx_is_symbolic(unsigned long long); void vx_unsupported(const char*); extern int vx_exact_fmt; }
namespace std {
__attribute__((noinline)) inline string vx_dec(unsigned long long v, bool neg)
{
    if (!vx_exact_fmt && vx_is_symbolic(v)) return "#";
    char b[24]; int n = 24; do { b[--n] = (char)('0' + v % 10); v /= 10; } while (v);
    if (neg) b[--n] = '-';
    return string(b + n, b + 24);
}
inline string to_string(unsigned long long v) { return vx_dec(v, false); }
inline string to_string(unsigned long v) { return vx_dec(v, false); }
inline string to_string(unsigned v) { return vx_dec(v, false); }
inline string to_string(long long v) { if (!vx_exact_fmt && vx_is_symbolic((unsigned long long)v)) return "#"; return v < 0 ? vx_dec(0 - (unsigned long long)v, true) : vx_dec((unsigned long long)v, false); }
inline string to_string(long v) { return to_string((long long)v); }
inline string to_string(int v) { return to_string((long long)v); }
inline string vx_flt() { if (vx_exact_fmt) vx_unsupported("formatting a floating point value"); return "#"; }
inline string to_string(float) { return vx_flt(); }
inline string to_string(double) { return vx_flt(); }
inline string to_string(long double) { return vx_flt(); }
}
