// Native side of the harness interface: replays one recorded input vector against the real build.
#include "vx.h"
#include <cstdio>
#include <cstdlib>
#include <string>
#include <thread>
#include <atomic>
#include <sched.h>
#include <vector>
#include <dlfcn.h>
#include <exception>
#include <new>
#ifdef VX_TSAN
// ThreadSanitizer does not see what libstdc++ itself writes: the text written by the conversion facet is written again
#include <locale>
#include <codecvt>
typedef std::codecvt<char16_t, char, std::mbstate_t> vx_cvt;
template<class R, class... A> static R vx_next(const char* n, const vx_cvt* c, A... a) { typedef R (*F)(const vx_cvt*, A...); static F f = (F)dlsym(RTLD_NEXT, n); return f(c, a...); }
template<class C> static void vx_touch(C* b, C* e) { for (volatile C* p = b; p < e; ++p) { C v = *p; *p = v; } }
std::codecvt_base::result vx_cvt::do_out(std::mbstate_t& st, const char16_t* f, const char16_t* fe, const char16_t*& fn, char* t, char* te, char*& tn) const
{ auto r = vx_next<result, std::mbstate_t*, const char16_t*, const char16_t*, const char16_t**, char*, char*, char**>("_ZNKSt7codecvtIDsc11__mbstate_tE6do_outERS0_PKDsS4_RS4_PcS6_RS6_", this, &st, f, fe, &fn, t, te, &tn); vx_touch(t, tn); return r; }
std::codecvt_base::result vx_cvt::do_in(std::mbstate_t& st, const char* f, const char* fe, const char*& fn, char16_t* t, char16_t* te, char16_t*& tn) const
{ auto r = vx_next<result, std::mbstate_t*, const char*, const char*, const char**, char16_t*, char16_t*, char16_t**>("_ZNKSt7codecvtIDsc11__mbstate_tE5do_inERS0_PKcS4_RS4_PDsS6_RS6_", this, &st, f, fe, &fn, t, te, &tn); vx_touch(t, tn); return r; }
#endif
// as in the executor, allocations beyond 256 MiB fail
extern "C" { void* __real__Znwm(size_t); void* __real__Znam(size_t);
void* __wrap__Znwm(size_t n) { if (n > (1ull << 28)) throw std::bad_alloc(); return __real__Znwm(n); }
void* __wrap__Znam(size_t n) { if (n > (1ull << 28)) throw std::bad_alloc(); return __real__Znam(n); } }
static std::vector<std::pair<std::string, std::vector<unsigned char>>> in; static size_t pos = 0;
static bool obs = false;
extern "C" {
int vx_exact_fmt = 0;
static const std::vector<unsigned char>& next(const char* name)
{
    static std::vector<unsigned char> none;
    if (pos >= in.size()) { fprintf(stderr, "VX-REPLAY-DIVERGED: no input for %s\n", name); _Exit(77); }
    if (in[pos].first != name) { fprintf(stderr, "VX-REPLAY-DIVERGED: expected %s got %s\n", name, in[pos].first.c_str()); _Exit(77); }
    return in[pos++].second;
}
void vx_make_symbolic(void* p, size_t n, const char* name) { if (!n) return; auto& v = next(name); memcpy(p, v.data(), n < v.size() ? n : v.size()); }
void vx_assume(bool c) { if (!c) { fprintf(stderr, "VX-REPLAY-DIVERGED: assumption\n"); _Exit(77); } }
void vx_assert(bool c, const char* msg) { if (!c) { fprintf(stderr, "VX-ASSERT-FAILED: %s\n", msg); fflush(stderr); _Exit(99); } }
void vx_reach(const char* l) { if (getenv("VX_VERBOSE")) fprintf(stderr, "VX-REACH: %s\n", l); }
uint64_t vx_pick(uint64_t n, const char* name) { auto& v = next(name); uint32_t x = 0; memcpy(&x, v.data(), 4); return x; }
void vx_unsupported(const char* m) { fprintf(stderr, "VX-UNSUPPORTED: %s\n", m); _Exit(78); }
bool vx_equal(const void* a, const void* b, size_t n) { return !n || !memcmp(a, b, n); }
static std::string& observed() { static std::string s; return s; }
void vx_observe(uint64_t v) { if (obs) { char b[32]; snprintf(b, sizeof b, "%llx ", (unsigned long long)v); observed() += b; } }
uint64_t vx_concretize(uint64_t v) { return v; }
void vx_share(bool) {}
bool vx_run_twice(void (*f)(void*), void* p)
{
#if __has_feature(thread_sanitizer)
    const int rounds = 40; // released together each time, without a synchronisation that would hide a race
#else
    const int rounds = 1;
#endif
    static std::atomic<int> at{0}; const int base = at.load();
    auto run = [&]() { for (int i = 1; i <= rounds; ++i) { at.fetch_add(1, std::memory_order_relaxed); while (at.load(std::memory_order_relaxed) < base + 2 * i) sched_yield(); f(p); } };
    std::thread a(run), b(run); a.join(); b.join(); return true;
}
bool vx_is_replay() { return true; }
bool vx_is_symbolic(unsigned long long) { return false; }
}
int main(int argc, char** argv)
{
    // file: lines "name hex"
    FILE* f = fopen(argv[2], "r"); if (!f) return 2; obs = argc > 3;
    char nm[512], hx[1 << 16];
    while (fscanf(f, "%511s %65535s", nm, hx) == 2)
    { std::vector<unsigned char> b; if (hx[0] != '-') for (char* p = hx; p[0] && p[1]; p += 2) { unsigned x; sscanf(p, "%2x", &x); b.push_back((unsigned char)x); } in.push_back({nm, b}); }
    fclose(f);
    void (*fn)() = (void (*)())dlsym(RTLD_DEFAULT, argv[1]);
    if (!fn) { fprintf(stderr, "no entry\n"); return 2; }
    try { fn(); }
    catch (const std::exception& e) { fprintf(stderr, "VX-UNCAUGHT: %s\n", e.what()); return 98; }
    fflush(stdout); if (obs) printf("\nVX-OBS: %s\n", observed().c_str());
    return 0;
}
