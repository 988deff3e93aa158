// Casting data to C++ values
//! entry h_num : every primitive type to every arithmetic C++ type, all stored values with a defined conversion
//! entry h_enum : enumerations of 8, 16 and 32 bits, all declared values, to every arithmetic type and to text
//! entry h_text : every integral primitive type to text: all 8-bit values, and 16/32/64-bit values of every number of digits
//! entry h_string : strings of 0..4 and 17 characters, bounded and unbounded
//! entry h_reject : casts of data of every other kind are rejected, and leave the data as it was
//! entry h_place : casts of members, elements, map values, union members and const references
//! assume floating point to integer casts of values outside the target's range are undefined in C++ and excluded
#include "xt.h"
#include <limits>
using namespace xt;
template<class F> static void any_prim(const char* n, F f) { prim((int)vx_pick(15, n), f); }
template<class X> static X sym(const char* n)
{
    if constexpr (std::is_same<X, long double>::value) { static const long double v[6] = {0, 1, -2.5L, 3e100L, 0.1L, 77}; return v[vx_pick(6, n)]; }
    else return vx_any<X>(n);
}
template<class Y, class X> static bool defined(X x)
{
    if constexpr (std::is_floating_point<X>::value && std::is_integral<Y>::value && !std::is_same<Y, bool>::value)
    {
        X hi = 1; for (unsigned i = 0; i < std::numeric_limits<Y>::digits; ++i) hi *= 2; // first value above the range
        return x < hi && (std::is_signed<Y>::value ? x > -hi - (sizeof(Y) < 4 ? X(1) : X(0)) : x > X(-1));
    }
    else if constexpr (std::is_floating_point<X>::value && std::is_floating_point<Y>::value && sizeof(Y) < sizeof(X)) { X m = std::numeric_limits<Y>::max(); return !(x > m) && !(x < -m); }
    else return true;
}
template<class Y> static bool eqv(Y a, Y b) { if constexpr (std::is_floating_point<Y>::value) return a == b || (a != a && b != b); else return a == b; }
VX_ENTRY(h_num)
{
    any_prim("from", [](auto z) { typedef decltype(z) X;
        any_prim("to", [](auto w) { typedef decltype(w) Y;
            X x = sym<X>("x"); if constexpr (std::is_same<X, long double>::value) { if (!defined<Y>(x)) return; } else vx_assume(defined<Y>(x));
            DynamicData d(primitive_type<X>()); d = x; Y y = d.template cast<Y>();
            vx_assert(eqv(y, static_cast<Y>(x)), "a cast gives the C++ conversion");
            X back = d.template value<X>(); vx_assert(vx_same(back, x), "casting changes nothing"); }); });
    vx_reach("end");
}
template<class E> static void enu(const char* n)
{
    EnumerationType<E> e(n); E v = vx_any<E>("v"); vx_assume(v > 3); e.add_enumerator("A"); e.add_enumerator("B", v);
    DynamicData d(e); bool b = vx_pick(2, "which"); E w = b ? v : E(0); if (b) d = v;
    any_prim("to", [&](auto z) { typedef decltype(z) Y; if constexpr (std::is_same<Y, long double>::value) { if (!b) vx_assert(d.template cast<Y>() == 0, "enumerations cast to their value"); } else vx_assert(eqv(d.template cast<Y>(), static_cast<Y>(w)), "enumerations cast to their value"); });
    vx_assert(d.template value<E>() == w, "casting changes nothing");
}
template<class I> static std::string dec(I v) // decimal text, written independently
{
    std::string r; bool neg = v < 0; uint64_t u = neg ? 0 - uint64_t(int64_t(v)) : uint64_t(v);
    do { r.insert(r.begin(), char('0' + u % 10)); u /= 10; } while (u); if (neg) r.insert(r.begin(), '-'); return r;
}
VX_ENTRY(h_enum)
{
    vx_exact_fmt = 1;
    switch (vx_pick(4, "width"))
    {
        case 0: enu<uint8_t>("E8"); break; case 1: enu<uint16_t>("E16"); break; case 2: enu<uint32_t>("E32"); break;
        default:
        {
            static const uint32_t vs[5] = {1, 10, 255, 65536, 4294967295u}; uint32_t v = vs[vx_pick(5, "v")]; EnumerationType<uint32_t> e("E"); e.add_enumerator("A", v); DynamicData d(e); vx_assert(d.cast<std::string>() == dec(v), "enumerations cast to the text of their value");
            if (v <= 65535) { EnumerationType<uint16_t> f("F"); f.add_enumerator("A", (uint16_t)v); DynamicData g(f); vx_assert(g.cast<std::string>() == dec(v), "enumerations cast to the text of their value"); }
            if (v <= 255) { EnumerationType<uint8_t> f("F"); f.add_enumerator("A", (uint8_t)v); DynamicData g(f); vx_assert(g.cast<std::string>() == dec(v), "enumerations cast to the text of their value"); }
        }
    }
    vx_reach("end");
}
VX_ENTRY(h_text)
{
    vx_exact_fmt = 1; int k = (int)vx_pick(15, "type");
    prim(k, [&](auto z) {
        typedef decltype(z) X; if constexpr (std::is_integral<X>::value)
        {
            X x; if (sizeof(X) == 1) { x = vx_any<X>("x"); }
            else
            {   // every number of digits: 10^i + small and the limits
                unsigned i = (unsigned)vx_pick(21, "digits"); uint64_t p = 1; for (unsigned j = 0; j < i && j < 19; ++j) p *= 10;
                if (i == 19) x = std::numeric_limits<X>::max(); else if (i == 20) x = std::numeric_limits<X>::min();
                else { if (p > (uint64_t)std::numeric_limits<X>::max()) return; x = X(p + vx_pick(2, "small")); if (std::is_signed<X>::value && vx_pick(2, "negative")) x = X(0 - x); }
            }
            DynamicData d(primitive_type<X>()); d = x; std::string t = d.template cast<std::string>();
            if constexpr (std::is_same<X, bool>::value) vx_assert(t == (x ? "1" : "0"), "a cast to string gives the decimal text");
            else vx_assert(t == dec(x), "a cast to string gives the decimal text");
            vx_assert(d.template value<X>() == x, "casting changes nothing");
        } });
    vx_reach("end");
}
VX_ENTRY(h_string)
{
    static const unsigned n[6] = {0, 1, 2, 3, 4, 17}; T t = leaf(STR, (uint32_t)vx_pick(2, "bounded") * 20); prof().chars = n[vx_pick(6, "chars")]; S s = any(t); DynamicData d(*build(t)); put(d, t, s);
    std::string c = d.cast<std::string>(); vx_assert(eqstr(c, s.s), "a string casts to itself"); vx_assert(has(d, t, s), "casting changes nothing");
    vx_assert(vx_throws([&]() { d.cast<int32_t>(); }) && vx_throws([&]() { d.cast<double>(); }) && vx_throws([&]() { d.cast<bool>(); }), "strings do not cast to numbers");
    vx_reach("end");
}
VX_ENTRY(h_reject)
{
    T t = pick_type(); if (t.k <= WC || t.k == STR || t.k == ENUM) { vx_reach("end"); return; } const T& r = res(t); if (r.k <= WC || r.k == STR || r.k == ENUM) { vx_reach("end"); return; }
    prof().elems = 1; prof().chars = 2; S s = any(t); DynamicData d(*build(t)); put(d, t, s);
    vx_assert(vx_throws([&]() { d.cast<int32_t>(); }) && vx_throws([&]() { d.cast<uint8_t>(); }) && vx_throws([&]() { d.cast<bool>(); }) && vx_throws([&]() { d.cast<double>(); }) && vx_throws([&]() { d.cast<char>(); }), "casting data that is not a number is rejected");
    vx_assert(vx_throws([&]() { d.cast<std::string>(); }), "casting data that has no text is rejected");
    vx_assert(has(d, t, s), "rejected casts change nothing");
    vx_reach("end");
}
VX_ENTRY(h_place)
{
    int16_t v = vx_any<int16_t>("v"); uint8_t w = vx_any<uint8_t>("w"); T t;
    switch (vx_pick(6, "place"))
    {
        case 0: { t = st({leaf(U8), ali(leaf(I16))}); DynamicData d(*build(t)); d[0] = w; d[1] = v; vx_assert(d[1].cast<int64_t>() == v && d["m1"].cast<uint8_t>() == uint8_t(v) && d[0].cast<int8_t>() == int8_t(w), "members cast to their value"); break; }
        case 1: { DynamicData d(*build(arr(2, leaf(I16)))); d[1] = v; vx_assert(d[1].cast<uint32_t>() == uint32_t(v) && d[0].cast<int>() == 0, "elements cast to their value"); break; }
        case 2: { DynamicData d(*build(seq(leaf(I16)))); d.push(v); vx_assert(d.cref()[0].cast<double>() == double(v), "elements cast to their value"); break; }
        case 3: { DynamicData d(*build(map(leaf(U8), leaf(I16)))), k(primitive_type<uint8_t>()); k = w; d[k] = v; vx_assert(d.at(k).cast<int32_t>() == v, "map values cast to their value"); break; }
        case 4: { DynamicData d(*build(un({leaf(STR), leaf(I16)}))); d["m1"] = v; vx_assert(d["m1"].cast<uint64_t>() == uint64_t(v) && d.d().cast<uint8_t>() == 10, "union members and discriminators cast to their value"); break; }
        default: { DynamicData d(*build(ali(ali(leaf(I16))))); d = v; const DynamicData& c = d; vx_assert(c.cast<bool>() == (v != 0) && c.cref().cast<float>() == float(v), "aliases cast to their value"); }
    }
    vx_reach("end");
}
