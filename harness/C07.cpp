// Sequence as a bounded vector
//! entry h_history : 11 element types, unbounded or bound 2; 3 operations (thorough: 4) from {push value, push data, resize 0..4, write}; all values
//! entry h_grow : push of 9 (thorough: 18) elements of integer, string and structure type, one arbitrary element overwritten on the way
//! entry h_bounds : bound 0..3, arbitrary size_t resize argument up to 2^64-1 beyond the bound, arbitrary index
//! entry h_prim : every primitive kind and string kind pushed as C++ value; as_vector
//! entry h_large : vectors of 34, 130 and 260 elements of 4 types, by push, by resize or both, in a sequence without bound or with a bound of that size, an arbitrary one overwritten; push and resize at the bound
//! entry h_huge : resize of a sequence without bound of 6 types of element (1 to 4000 bytes) to k * 2^32 bytes plus 0 to 3 elements, any k up to 2^32-1 (allocations of more than 256 MiB fail)
//! entry h_bulk : sequences without bound of 5 types of element that hold 64 KiB or more (2060 to 66000 elements): an arbitrary value at one of four places survives growth, copy, assignment, move and shrinking
#include "xt.h"
using namespace xt;
#ifdef VX_THOROUGH
enum { NH = 4, NG = 18 };
#else
enum { NH = 3, NG = 9 };
#endif
VX_ENTRY(h_history)
{
    T m = pick_mid(); T t = seq(m, vx_pick(2, "bounded") ? 2 : 0); prof().elems = 1; prof().chars = 1;
    DynamicData d(*build(t)); S s;
    for (int i = 0; i < NH; ++i)
        switch (vx_pick(3, "op"))
        {
            case 0:
            {
                S e = any(m); DynamicData x(*build(m)); put(x, m, e);
                bool full = t.n && s.sub.size() >= t.n;
                vx_assert(vx_throws([&]() { d.push(x); }) == full, "push fails exactly when the sequence is full");
                if (!full) s.sub.push_back(e);
                break;
            }
            case 1:
            {
                size_t n = vx_pick(5, "size");
                bool bad = t.n && n > t.n;
                vx_assert(vx_throws([&]() { d.resize(n); }) == bad, "resize fails exactly beyond the bound");
                if (!bad) while (s.sub.size() < n) s.sub.push_back(zero(m));
                break;
            }
            default:
            {
                if (s.sub.empty()) { vx_assert(vx_throws([&]() { d[0]; }), "access beyond the size fails"); break; }
                size_t j = vx_pick(s.sub.size(), "j"); const T& r = res(m);
                if (s.sub[j].act < 0 && r.k == UNION) { s.sub[j] = any(m); put(d[j], m, s.sub[j]); }
                else { s.sub[j] = fresh(m, s.sub[j]); put(d[j], m, s.sub[j]); }
            }
        }
    vx_assert(d.size() == s.sub.size(), "the size follows the history");
    bool unsel = false; for (auto& e : s.sub) unsel |= res(m).k == UNION && e.act < 0;
    if (!unsel) vx_assert(has(d, t, s), "the sequence holds exactly the elements of the reference vector");
    else for (size_t i = 0; i < s.sub.size(); ++i) if (s.sub[i].act >= 0) vx_assert(has(d[i], m, s.sub[i]), "written elements are kept");
    vx_reach("end");
}
VX_ENTRY(h_grow)
{
    T m; switch (vx_pick(4, "elem")) { case 0: m = leaf(U16); break; case 1: m = leaf(STR); break; case 2: m = st({leaf(U8), leaf(STR)}); break; default: m = seq(leaf(U8)); }
    prof().chars = 2; prof().elems = 1;
    T t = seq(m); DynamicData d(*build(t)); S s;
    int w = (int)vx_pick(NG, "when");
    for (int i = 0; i < NG; ++i)
    {
        S e = any(m); DynamicData x(*build(m)); put(x, m, e); d.push(x); s.sub.push_back(e);
        if (i == w) { size_t j = (size_t)i / 2; s.sub[j] = fresh(m, s.sub[j]); put(d[j], m, s.sub[j]); }
    }
    vx_assert(has(d, t, s), "all elements survive growth, in order");
    vx_reach("end");
}
VX_ENTRY(h_bounds)
{
    uint32_t b = (uint32_t)vx_pick(4, "bound");
    T t = seq(leaf(I16), b); prof().elems = 2;
    DynamicData d(*build(t)); S s = any(t); put(d, t, s);
    vx_assert(d.bounds() == b, "the bound is the declared one");
    if (b) { size_t n = vx_any<size_t>("n"); vx_assume(n > b); vx_assert(vx_throws([&]() { d.resize(n); }), "resizing beyond the bound fails"); }
    int64_t i = vx_any<int64_t>("i");
    bool in = i >= 0 && i < (int64_t)s.sub.size();
    vx_assert(vx_throws([&]() { d[i]; }) == !in, "an index is accepted exactly when it is below the size");
    vx_assert(vx_throws([&]() { d.cref()[i]; }) == !in, "an index is accepted exactly when it is below the size (readable)");
    while (!b ? false : s.sub.size() < b) { int16_t v = vx_any<int16_t>("v"); d.push(v); S e; toS(v, e); s.sub.push_back(e); }
    if (b) vx_assert(vx_throws([&]() { d.push(int16_t(1)); }), "pushing beyond the bound fails");
    vx_assert(has(d, t, s), "failed operations leave the sequence unchanged");
    vx_reach("end");
}
template<class X> static void prims(int k)
{
    T t = seq(leaf(k)); DynamicData d(*build(t)); S s; std::vector<X> ref;
    unsigned n = (unsigned)vx_pick(4, "n");
    for (unsigned i = 0; i < n; ++i) { X v = vx_any<X>("v"); d.push(v); ref.push_back(v); S e; toS(v, e); s.sub.push_back(e); }
    vx_assert(has(d, t, s), "pushed values are kept in order");
    std::vector<X> got = d.template as_vector<X>();
    bool ok = got.size() == n; for (unsigned i = 0; ok && i < n; ++i) ok &= vx_same<X>(got[i], ref[i]);
    vx_assert(ok, "as_vector returns the elements");
}
template<class C> static void strs(int k)
{
    T t = seq(leaf(k)); DynamicData d(*build(t)); S s; std::vector<std::basic_string<C>> ref; prof() = pick_profile();
    for (unsigned i = 0; i < 2; ++i) { S e = any(leaf(k)); std::basic_string<C> v = str<C>(e.s); d.push(v); ref.push_back(v); s.sub.push_back(e); }
    vx_assert(has(d, t, s), "pushed strings are kept in order");
    auto got = d.template as_vector<std::basic_string<C>>();
    bool ok = got.size() == 2; for (unsigned i = 0; ok && i < 2; ++i) ok &= got[i] == ref[i];
    vx_assert(ok, "as_vector returns the strings");
}
VX_ENTRY(h_prim)
{
    int k = (int)vx_pick(18, "kind");
    if (k == BOOL) { T t = seq(leaf(BOOL)); DynamicData d(*build(t)); S s; for (int i = 0; i < 3; ++i) { bool v = vx_any<bool>("v"); d.push(v); S e; toS(v, e); s.sub.push_back(e); } vx_assert(has(d, t, s), "pushed values are kept in order"); }
    else if (k == STR) strs<char>(k); else if (k == WSTR) strs<wchar_t>(k); else if (k == STR16) strs<char16_t>(k);
    else prim(k, [&](auto x) { if constexpr (!std::is_same<decltype(x), bool>::value) prims<decltype(x)>(k); });
    vx_reach("end");
}
VX_ENTRY(h_large)
{
    static const unsigned sizes[3] = {34, 130, 260}; unsigned n = pick_n(sizes); bool full = vx_pick(2, "full");
    T m; switch (vx_pick(4, "elem")) { case 0: m = leaf(U8); break; case 1: m = leaf(STR); break; case 2: m = st({leaf(U16), leaf(STR)}); break; default: m = seq(leaf(I32)); }
    T t = seq(m, full ? n : 0); DynamicType::Ptr ty = build(t), mt = build(m); DynamicData d(*ty); S s; unsigned c = 0, start = 0; prof().elems = 2; prof().chars = 2;
    switch (vx_pick(3, "by")) { case 0: break; case 1: start = n; break; default: start = n / 2; }
    if (start) { d.resize(start); for (unsigned i = 0; i < start; ++i) s.sub.push_back(zero(m)); }
    vx_assert(d.size() == start && has(d, t, s), "resizing adds default elements");
    for (unsigned i = start; i < n; ++i) { s.sub.push_back(ramp(m, 0, c)); DynamicData x(*mt); put(x, m, s.sub[i]); d.push(x); }
    unsigned at = 0; switch (vx_pick(4, "at")) { case 0: break; case 1: at = n / 2; break; case 2: at = n / 2 - 1; break; default: at = n - 1; }
    s.sub[at] = any(m); put(d[at], m, s.sub[at]);
    if (full) { DynamicData x(*mt); vx_assert(vx_throws([&]() { d.push(x); }), "pushing beyond the bound fails"); vx_assert(vx_throws([&]() { d.resize(n + 1); }), "resizing beyond the bound fails"); }
    else if (vx_pick(2, "more")) { s.sub.push_back(any(m)); DynamicData x(*mt); put(x, m, s.sub[n]); d.push(x); }
    d.resize(n / 4); vx_assert(vx_throws([&]() { d[s.sub.size()]; }), "access beyond the size fails");
    vx_assert(d.size() == s.sub.size() && has(d, t, s), "the sequence holds exactly the elements of the reference vector"); vx_reach("end");
}
VX_ENTRY(h_huge)
{
    T m; switch (vx_pick(6, "elem")) { case 0: m = leaf(U8); break; case 1: m = leaf(U32); break; case 2: m = leaf(F128); break; case 3: m = leaf(STR); break; case 4: m = arr(500, leaf(U64)); break; default: m = st({leaf(U16), leaf(STR)}); }
    prof().elems = 1; prof().chars = 1; T t = seq(m); DynamicType::Ptr ty = build(t); DynamicData d(*ty); S s = m.k == ARR ? S() : any(t); put(d, t, s);
    size_t z = build(m)->memory_size(), k = vx_any<uint32_t>("k"), r = vx_any<uint8_t>("r"), n = ((1ull << 32) + z - 1) / z * k + r; vx_assume(k > 0 && r < 4); if (z & (z - 1)) vx_assume(k < 3);
    bool failed = vx_throws([&]() { d.resize(n); });
    if (failed) vx_assert(d.size() == s.sub.size() && has(d, t, s), "a resize that fails leaves the sequence unchanged");
    else vx_assert(d.size() == n, "a resize that succeeds gives the size");
    vx_reach(failed ? "failed" : "done"); vx_reach("end");
}
VX_ENTRY(h_bulk)
{
    T m; unsigned n; switch (vx_pick(5, "elem")) { case 0: m = leaf(U8); n = 66000; break; case 1: m = leaf(U64); n = 8300; break; case 2: m = leaf(F128); n = 4200; break; case 3: m = leaf(STR); n = 2060; break; default: m = st({leaf(U16), leaf(STR)}); n = 2060; }
    prof().chars = 2; prof().finite = true; T t = seq(m); DynamicType::Ptr ty = build(t), mt = build(m); DynamicData d(*ty); S z = zero(m), v = any(m), w; { unsigned c = 3; w = ramp(m, 2, c); }
    d.resize(n); unsigned at = 0; switch (vx_pick(4, "at")) { case 0: break; case 1: at = n / 2; break; case 2: at = n - n / 100; break; default: at = n - 1; }
    put(d[at], m, v); for (int i = 0; i < 2; ++i) { DynamicData x(*mt); put(x, m, w); d.push(x); }
    auto good = [&](ReadableDynamicDataRef r)
    {
        bool ok = r.size() == n + 2 && has(r[at], m, v) && has(r[n], m, w) && has(r[n + 1], m, w);
        for (unsigned i = 7; i < n; i += 1021) if (i != at) ok &= has(r[i], m, z);
        return ok && (at == n - 1 || has(r[n - 1], m, z)) && (at == 0 || has(r[0], m, z));
    };
    vx_assert(good(d), "elements survive growth, in order");
    switch (vx_pick(3, "then"))
    {
        case 0: { DynamicData c(d); vx_assert(good(c) && c == d, "and copies"); DynamicData e(std::move(c)); vx_assert(good(e) && good(d), "and moves"); break; }
        case 1: { DynamicData c(*ty); c = d; vx_assert(good(c) && c == d && c.hash() == d.hash(), "and assignment"); put(c[n / 3], m, w); DynamicData x(*mt), y(*mt); put(y, m, w); vx_assert((c == d) == (x == y) && good(d), "of independent copies"); break; }
        default: { d.resize(n + 9000); vx_assert(d.size() == n + 9000 && has(d[at], m, v) && has(d[n + 1], m, w) && has(d[n + 8999], m, z) && has(d[n + 2], m, z), "and resizing"); }
    }
    vx_reach("end");
}
