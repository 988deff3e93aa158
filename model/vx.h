// Harness interface.  The same harness source is (a) compiled to LLVM bitcode and executed
// symbolically by xsym, (b) compiled natively with sanitizers to replay a counterexample.
#pragma once
#include <cstdint>
#include <cstddef>
#include <cstring>
#include <type_traits>
#include <exception>
extern "C" {
    void vx_make_symbolic(void* p, size_t n, const char* name); // arbitrary bytes
    void vx_assume(bool c);                                      // restrict the explored inputs
    void vx_assert(bool c, const char* msg);                     // the property
    void vx_reach(const char* label);                            // witness: must be reachable
    uint64_t vx_pick(uint64_t n, const char* name);              // arbitrary choice in [0,n), one path per value
    void vx_unsupported(const char* msg);
    void vx_observe(uint64_t v);                                 // value compared between xsym and native runs
    bool vx_equal(const void* a, const void* b, size_t n);       // bit identity of two blocks of memory
    uint64_t vx_concretize(uint64_t v);
    bool vx_is_replay();
    bool vx_is_symbolic(unsigned long long);
    extern int vx_exact_fmt;
    void vx_share(bool on);                                      // between share(true) and share(false) writing older heap or global memory is a race
    bool vx_run_twice(void (*f)(void*), void* p);                // native: f in two threads at once
}
template<class T> inline T vx_any(const char* name) { T v; vx_make_symbolic(&v, sizeof(T), name); return v; }
template<> inline bool vx_any<bool>(const char* name) { unsigned char v; vx_make_symbolic(&v, 1, name); vx_assume(v <= 1); return v & 1; }
template<> inline long double vx_any<long double>(const char* name) { double d; vx_make_symbolic(&d, sizeof d, name); return d; }
template<class T> inline T vx_below(T n, const char* name) { T v = vx_any<T>(name); vx_assume(v < n); return v; }
// bit identity (floats compare by representation)
template<class T> inline bool vx_same(const T& a, const T& b)
{ if constexpr (std::is_same<T, bool>::value) return a == b; else return vx_equal(&a, &b, std::is_same<T, long double>::value ? 10 : sizeof(T)); }
#define VX_ENTRY(name) extern "C" __attribute__((noinline, used)) void name()
// expression must throw std::exception; returns whether it did
template<class F> inline bool vx_throws(F f) { try { f(); } catch (const std::exception&) { return true; } return false; }
// what concurrent readers do: symbolically, no write to memory that existed before; natively, two threads
template<class F> inline void vx_readers(F f) { if (vx_run_twice([](void* p) { (*(F*)p)(); }, &f)) return; vx_share(true); f(); vx_share(false); }
