// Compares the codecvt model used by the engine with the facet of the installed libstdc++ on all inputs of
// up to 3 units drawn from the boundary values of the encodings, and on all output room sizes up to 8.
// Build and run: g++ -std=c++17 tools/codecvt_conformance.cpp -o /tmp/cc && /tmp/cc
#include <string>
#include <locale>
#include <cwchar>
#include <cstdio>
#include <vector>
#define codecvt_base vx_codecvt_base
#define codecvt vx_codecvt
#define locale vx_locale
#define use_facet vx_use_facet
namespace std { class vx_locale; template<class F> const F& vx_use_facet(const vx_locale&); }
#include "../model/include/codecvt_model.h"
#undef codecvt_base
#undef codecvt
#undef locale
#undef use_facet
static long n, bad;
template<class Real, class Model, class S, class O>
static void one(const Real& r, const Model& m, const std::basic_string<S>& s, size_t room)
{
    O b1[16] = {}, b2[16] = {}, *t1, *t2; const S *f1, *f2; std::mbstate_t s1{}, s2{};
    int a, b;
    if constexpr (sizeof(S) == 1) { a = r.in(s1, s.data(), s.data() + s.size(), f1, b1, b1 + room, t1); b = m.in(s2, s.data(), s.data() + s.size(), f2, b2, b2 + room, t2); }
    else { a = r.out(s1, s.data(), s.data() + s.size(), f1, b1, b1 + room, t1); b = m.out(s2, s.data(), s.data() + s.size(), f2, b2, b2 + room, t2); }
    ++n;
    if (a != b || f1 != f2 || (t1 - b1) != (t2 - b2) || std::basic_string<O>(b1, t1) != std::basic_string<O>(b2, t2))
    { if (++bad < 20) { std::printf("mismatch real %d/%ld/%ld model %d/%ld/%ld room %zu:", a, (long)(f1 - s.data()), (long)(t1 - b1), b, (long)(f2 - s.data()), (long)(t2 - b2), room); for (auto c : s) std::printf(" %x", (unsigned)(sizeof(S) == 1 ? (unsigned char)c : (unsigned)c)); std::printf("\n"); } }
}
template<class S, class O, class R, class M> static void all(const R& r, const M& m, const std::vector<unsigned>& units, size_t len, std::basic_string<S> s = {})
{
    for (size_t room = 0; room <= 8; ++room) one<R, M, S, O>(r, m, s, room);
    if (s.size() < len) for (unsigned u : units) all<S, O>(r, m, units, len, s + S(u));
}
int main()
{
    auto& real = std::use_facet<std::codecvt<char16_t, char, std::mbstate_t>>(std::locale::classic());
    std::vx_codecvt<char16_t, char, std::mbstate_t> model;
    all<char16_t, char>(real, model, {0, 0x41, 0x7f, 0x80, 0x7ff, 0x800, 0xd7ff, 0xd800, 0xd83d, 0xdbff, 0xdc00, 0xde00, 0xdfff, 0xe000, 0xfeff, 0xfffe, 0xffff}, 3);
    all<char, char16_t>(real, model, {0, 0x41, 0x7f, 0x80, 0x8f, 0x90, 0x9f, 0xa0, 0xbf, 0xc0, 0xc1, 0xc2, 0xdf, 0xe0, 0xe1, 0xed, 0xef, 0xf0, 0xf1, 0xf4, 0xf5, 0xff}, 4);
    std::printf("%ld comparisons, %ld mismatches\n", n, bad);
    return bad != 0;
}
