// Strings keep their contents and their bounds
//! entry h_write : char, char16_t and wchar_t strings; bound 0..5 x length 0..8 (thorough: 0..20), all characters including zero; root, struct member, array and sequence element, map value, union member; read back by value, copy and reference
//! entry h_history : 3 consecutive writes of lengths from {0,1,15,16,23,40} to one instance of each string kind, unbounded and bound 16
//! entry h_value : value<T>(), assignment, push and construction from the same type agree on what is kept; bound 0..4 x length 0..6
//! entry h_long : lengths 64, 127 and 300; unbounded and bound 200
//! entry h_bulk : strings of the three kinds of 66000 and 33000 characters, without bound or with a bound just above, at or below, one arbitrary character at one of four places
#include "xt.h"
using namespace xt;
#ifdef VX_THOROUGH
enum { ML = 20 };
#else
enum { ML = 8 };
#endif
static S text(int k, unsigned n) { Profile o = prof(); prof().chars = n; S s = any(leaf(k)); prof() = o; return s; }
static S cut(const S& s, uint32_t bound) { S r = s; if (bound && r.s.size() > bound) r.s.resize(bound); return r; }
static int pick_str() { static const int k[3] = {STR, STR16, WSTR}; return k[vx_pick(3, "kind")]; }
VX_ENTRY(h_write)
{
    int k = pick_str(); uint32_t b = (uint32_t)vx_pick(6, "bound"); unsigned n = (unsigned)vx_pick(ML + 1, "len");
    T e = leaf(k, b); S s = text(k, n), want = cut(s, b);
    T t; S w;
    switch (vx_pick(6, "place"))
    {
        case 0: { DynamicData d(*build(e)); put(d, e, s); vx_assert(has(d, e, want), "the string is kept up to its bound"); DynamicData c(d); vx_assert(has(c, e, want) && has(d.cref(), e, want), "copies keep it"); vx_assert(d.bounds() == b && d.size() == want.s.size(), "bound and size are reported"); break; }
        case 1: { t = st({leaf(U8), e, leaf(U8)}); DynamicData d(*build(t)); put(d[1], e, s); w = zero(t); w.sub[1] = want; vx_assert(has(d, t, w), "a member string is kept up to its bound"); break; }
        case 2: { t = arr(2, e); DynamicData d(*build(t)); put(d[1], e, s); w = zero(t); w.sub[1] = want; vx_assert(has(d, t, w), "an element string is kept up to its bound"); break; }
        case 3: { t = seq(e); DynamicData d(*build(t)); d.resize(1); put(d[0], e, s); w.sub.push_back(want); vx_assert(has(d, t, w), "a sequence string is kept up to its bound"); break; }
        case 4: { t = map(leaf(U8), e); DynamicData d(*build(t)), q(*build(leaf(U8))); q = uint8_t(3); put(d[q], e, s); vx_assert(has(d.at(q), e, want), "a map string is kept up to its bound"); break; }
        default: { t = un({leaf(U8), e}); DynamicData d(*build(t)); put(d["m1"], e, s); vx_assert(has(d["m1"], e, want), "a union string is kept up to its bound"); }
    }
    vx_reach("end");
}
VX_ENTRY(h_history)
{
    static const unsigned len[6] = {0, 1, 15, 16, 23, 40};
    int k = pick_str(); uint32_t b = vx_pick(2, "bounded") ? 16 : 0; T e = leaf(k, b);
    DynamicData d(*build(e)); S want;
    for (int i = 0; i < 3; ++i)
    {
        S s = text(k, len[vx_pick(6, "len")]); want = cut(s, b);
        put(d, e, s);
        vx_assert(has(d, e, want), "the last written string is kept");
    }
    DynamicData c(std::move(d));
    vx_assert(has(c, e, want), "a moved string is kept");
    vx_reach("end");
}
template<class C> static void ways(int k)
{
    uint32_t b = (uint32_t)vx_pick(5, "bound"); unsigned n = (unsigned)vx_pick(7, "len");
    S s = text(k, n), want = cut(s, b); std::basic_string<C> v = str<C>(s.s);
    DynamicType::Ptr ty = build(leaf(k, b));
    DynamicData a(*ty), c(*ty), e(*build(seq(leaf(k, b))));
    a.template value<std::basic_string<C>>(v); c = v; e.push(v);
    vx_assert(a == c && eqstr(a.template value<std::basic_string<C>>(), want.s), "value and assignment keep the same prefix");
    vx_assert(eqstr(e[0].template value<std::basic_string<C>>(), want.s), "push keeps the same prefix");
    DynamicData f(a, *ty); std::basic_string<C> g = f;
    vx_assert(eqstr(g, want.s), "construction keeps the same prefix");
    vx_assert(eqstr(v, s.s), "the written string itself is not changed");
}
VX_ENTRY(h_value)
{
    int k = pick_str();
    if (k == STR) ways<char>(k); else if (k == STR16) ways<char16_t>(k); else ways<wchar_t>(k);
    vx_reach("end");
}
VX_ENTRY(h_long)
{
    static const unsigned len[3] = {64, 127, 300};
    int k = pick_str(); uint32_t b = vx_pick(2, "bounded") ? 200 : 0; T e = leaf(k, b);
    S s = text(k, len[vx_pick(3, "len")]), want = cut(s, b);
    DynamicData d(*build(e)); put(d, e, s);
    vx_assert(has(d, e, want), "a long string is kept up to its bound");
    DynamicData c(d); put(d, e, text(k, 3));
    vx_assert(has(c, e, want), "a copied long string is kept");
    vx_reach("end");
}
VX_ENTRY(h_bulk)
{
    int k = pick_str(); auto run = [&](auto ch)
    {
        typedef decltype(ch) C; typedef std::basic_string<C> X; unsigned n = vx_pick(2, "n") ? 66000 : 33000, b = 0; switch (vx_pick(4, "bound")) { case 0: break; case 1: b = n + 1; break; case 2: b = n; break; default: b = n - 7; }
        X v(n, C('.')); for (unsigned i = 3; i < n; i += 509) v[i] = C('a' + i % 26); unsigned at = 0; switch (vx_pick(4, "at")) { case 0: break; case 1: at = n / 2; break; case 2: at = n - 8; break; default: at = n - 1; } v[at] = vx_any<C>("c");
        X want(v, 0, b ? b : n); auto eq = [](const X& x, const X& y) { return x.size() == y.size() && vx_equal((const char*)x.data(), (const char*)y.data(), x.size() * sizeof(C)); };
        DynamicType::Ptr ty = build(leaf(k, b)); DynamicData d(*ty); d = v; vx_assert(eq(d.value<X>(), want) && d.size() == want.size(), "a long string is kept up to its bound");
        DynamicData c(d), e(*ty); e = d; e = X(5, C('q')); d = X(); vx_assert(eq(c.value<X>(), want) && d.size() == 0 && e.size() == 5, "a copied long string is kept"); d.value<X>(v); vx_assert(eq(d.value<X>(), want), "value keeps the same prefix");
        T m = seq(leaf(k, b)); DynamicData s(*build(m)); s.push(v); s.push(X(1, C('z'))); s.push(c); vx_assert(eq(s[0].template value<X>(), want) && eq(s[2].template value<X>(), want), "elements keep the same prefix");
    };
    if (k == STR) run(char()); else if (k == STR16) run(char16_t()); else run(wchar_t()); vx_reach("end");
}
