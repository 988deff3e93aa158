// Conversion between compatible types against a reference conversion
//! entry h_prim : every pair of the 15 primitive types and the enumeration; all values (floating point to integer: values within the target's range)
//! entry h_string : the three string kinds, 0..3 characters (and 17), arbitrary target bound 0..4, existing text in between
//! entry h_coll : sequences, arrays and maps of 5 contents converted to other bounds, sizes and contents
//! entry h_struct : structures of 1..3 members converted to structures with other member types, more members or fewer, plain or inherited
//! entry h_union : unions converted to unions with other member types, more or fewer cases, with and without default
//! entry h_disc : unions with discriminators of 5 integer types (8 to 64 bits) to unions with another discriminator of those types, two cases with arbitrary labels on both sides (whole range), the second one possibly the default, with or without labels; values wholly outside the range of the target's width select no label, values that fit it only with the other sign are left open
//! entry h_deep : two-level compositions of all the above
//! entry h_one : one-member structures to and from 11 types of member or a variant of it (11 kinds), plain or behind an alias, sequence, array or structure
//! entry h_keys : maps whose key types differ: converted or rejected, never corrupted
//! entry h_reject : incompatible pairs are rejected and leave the source as it was
//! entry h_round : widening conversion and back gives the original value
//! entry h_large : arrays, sequences, maps and structures of 34, 130 and 260 elements (11 shapes) converted to fewer, more or as many elements, to wider contents and to bounded strings; one element arbitrary
//! leaks
//! assume conversion of floating point values that do not fit the integer target is undefined in C++ and excluded
//! entry h_bulk steps=100000000 : sequences, arrays, strings and structures of 64 KiB or more converted to wider, narrower, larger or smaller ones, one arbitrary element at one of four places
#include "xt.h"
#include <memory>
using namespace xt;
// reference conversion
static S conv(const T& f, const S& s, const T& t)
{
    if (f.k == ALIAS) return conv(f.sub[0], s, t); if (t.k == ALIAS) return conv(f, s, t.sub[0]);
    if (f.k == STRUCT && f.sub.size() == 1 && (t.k != STRUCT || t.sub.size() != 1)) return conv(f.sub[0], s.sub[0], t);
    if (t.k == STRUCT && t.sub.size() == 1 && (f.k != STRUCT || f.sub.size() != 1)) { S r; r.sub.push_back(conv(f, s, t.sub[0])); return r; }
    S r;
    switch (t.k)
    {
        case STR: case WSTR: case STR16: r.s = t.n && s.s.size() > t.n ? s.s.substr(0, t.n) : s.s; return r;
        case ENUM: r.lo = s.lo & 0xffffffff; return r;
        case ARR: for (uint32_t i = 0; i < t.n; ++i) r.sub.push_back(i < f.n ? conv(f.sub[0], s.sub[i], t.sub[0]) : zero(t.sub[0])); return r;
        case SEQ: for (size_t i = 0; i < s.sub.size() && (!t.n || i < t.n); ++i) r.sub.push_back(conv(f.sub[0], s.sub[i], t.sub[0])); return r;
        case MAP: for (auto& p : s.sub) { S q; q.sub.push_back(conv(f.sub[0], p.sub[0], t.sub[0])); q.sub.push_back(conv(f.sub[1], p.sub[1], t.sub[1])); r.sub.push_back(q); } return r;
        case STRUCT: for (size_t i = 0; i < t.sub.size(); ++i) r.sub.push_back(i < f.sub.size() ? conv(f.sub[i], s.sub[i], t.sub[i]) : zero(t.sub[i])); return r;
        case UNION:
            if (s.act >= 0 && (size_t)s.act < t.sub.size()) { r.act = s.act; r.sub.push_back(conv(f.sub[s.act], s.sub[0], t.sub[s.act])); return r; }
            if (s.act >= 0 && t.n) { r.act = 0; r.sub.push_back(zero(t.sub[0])); } // case not declared: handled by the entry
            return r;
        default:
            prim(f.k == ENUM ? U32 : f.k, [&](auto a) { typedef decltype(a) A; A x = fromS<A>(s); prim(t.k, [&](auto b) { typedef decltype(b) B; toS(static_cast<B>(x), r); }); });
            return r;
    }
}
static void check(const T& f, const T& t, const S& s)
{
    DynamicType::Ptr ft = build(f), tt = build(t);
    DynamicData d(*ft); put(d, f, s);
    DynamicData c(d, *tt);
    vx_assert(has(c, t, conv(f, s, t)), "the converted value is the value of the common content");
    vx_assert(has(d, f, s), "the source keeps its value");
    DynamicData again(c), w(*tt); w = c; vx_assert(again == c && w == c, "the converted value is a complete value");
}
VX_ENTRY(h_prim)
{
    T f = leaf((int)vx_pick(16, "from")), t = leaf((int)vx_pick(16, "to")); if (f.k == 15) f.k = ENUM; if (t.k == 15) t.k = ENUM;
    if (t.k == ENUM && f.k != ENUM && (f.k >= F32 && f.k <= F128)) { vx_reach("end"); return; }
    prof().finite = true; S s = any(f);
    if (t.k == ENUM && f.k != ENUM) { s = S(); unsigned v = vx_pick(3, "declared"); s.lo = v == 0 ? 0 : v == 1 ? 5 : 6; if (f.k == BOOL) s.lo = 0; }
    bool ff = f.k == F32 || f.k == F64 || f.k == F128, tf = t.k == F32 || t.k == F64 || t.k == F128;
    if (ff && !tf && t.k != BOOL)
    {   // values the target can hold
        prim(f.k, [&](auto a) { typedef decltype(a) A; A x = fromS<A>(s); prim(t.k, [&](auto b) { typedef decltype(b) B; if constexpr (std::is_floating_point<A>::value && std::is_integral<B>::value) { const A hi = (A)(1ull << (sizeof(B) * 8 - 2)) * 2; vx_assume(x < hi && x >= (B(-1) < B(0) ? -hi : A(0))); } }); });
    }
    if (f.k == F64 && t.k == F32) { double x = fromS<double>(s); vx_assume(x <= 3.0e38 && x >= -3.0e38); } if (f.k == F128 && t.k == F32) { long double x = fromS<long double>(s); vx_assume(x <= 3.0e38L && x >= -3.0e38L); }
    check(f, t, s);
    vx_reach("end");
}
VX_ENTRY(h_string)
{
    static const int ks[3] = {STR, WSTR, STR16}; int k = ks[vx_pick(3, "kind")]; uint32_t fb = vx_pick(2, "fb") ? 17 : 0, tb = vx_pick(5, "tb");
    unsigned n = vx_pick(5, "chars"); prof().chars = n == 4 ? 17 : n;
    check(leaf(k, fb), leaf(k, tb), any(leaf(k, fb)));
    vx_reach("end");
}
static T pc(const char* n, bool to = false) { switch (vx_pick(5, n)) { case 0: return leaf(U8); case 1: return leaf(I32); case 2: return leaf(STR, to ? 1 : 0); case 3: return to ? st({leaf(U16), leaf(STR, 1), leaf(F32)}) : st({leaf(U8), leaf(STR)}); default: return seq(leaf(I16), to ? 1 : 0); } }
static bool fits(const T& f, const T& t) { return build(f)->is_compatible(*build(t)) != TypeConsistency::NONE; }
static T variant(const T& t)
{
    switch (t.k)
    {
        case U8: return vx_pick(2, "vp") ? leaf(I32) : t; case I32: switch (vx_pick(3, "vp")) { case 0: return t; case 1: return leaf(U8); default: return leaf(U64); }
        case STR: return leaf(STR, vx_pick(2, "vb")); case I16: return vx_pick(2, "vp") ? leaf(U32) : t;
        case SEQ: return seq(variant(t.sub[0]), vx_pick(3, "vb")); case ARR: return arr(1 + vx_pick(3, "vn"), variant(t.sub[0])); case MAP: return map(t.sub[0], variant(t.sub[1]));
        case STRUCT: { T r = st({}); for (auto& m : t.sub) r.sub.push_back(variant(m)); switch (vx_pick(3, "vm")) { case 1: r.sub.push_back(leaf(STR)); break; case 2: if (r.sub.size() > 2) r.sub.pop_back(); } return r; }
        case UNION: { T r = un({}); r.n = t.n; for (auto& m : t.sub) r.sub.push_back(variant(m)); return r; }
        case ALIAS: return variant(t.sub[0]);
    }
    return t;
}
VX_ENTRY(h_coll)
{
    T c = pc("content"), f, t; prof().chars = 2;
    switch (vx_pick(3, "coll"))
    {
        case 0: f = seq(c); prof().elems = (unsigned)vx_pick(4, "elems"); break;
        case 1: f = arr(2, c); prof().elems = 1; break;
        default: f = map(leaf(U16), c); prof().elems = (unsigned)vx_pick(3, "elems");
    }
    t = variant(f); check(f, t, any(f));
    vx_reach("end");
}
VX_ENTRY(h_struct)
{
    unsigned n = 1 + (unsigned)vx_pick(3, "n"); prof().finite = true; prof().chars = 2; prof().elems = 1;
    T f = st({}); for (unsigned i = 0; i < n; ++i) switch (vx_pick(3, "m")) { case 0: f.sub.push_back(leaf(U8)); break; case 1: f.sub.push_back(leaf(STR)); break; default: f.sub.push_back(seq(leaf(I16))); }
    T t = variant(f); if (t.sub.size() == 1) t.sub.push_back(leaf(F64)); if (f.sub.size() == 1) f.sub.push_back(leaf(F64));
    if (t.sub.size() > 1 && f.sub.size() > 1 && t.sub[1].k != f.sub[1].k && !fits(f, t)) { vx_reach("end"); return; }
    if (vx_pick(2, "inherited")) { t.n = 1; f.n = (uint32_t)f.sub.size() - 1; }
    check(f, t, any(f));
    vx_reach("end");
}
VX_ENTRY(h_union)
{
    T f, t; prof().chars = 2; prof().elems = 1;
    switch (vx_pick(3, "u")) { case 0: f = un({leaf(STR), leaf(U8)}); break; case 1: f = un({leaf(I32), seq(leaf(I16)), leaf(STR)}); break; default: f = un({leaf(STR), st({leaf(U8), leaf(STR)})}); f.n = 1; }
    t = variant(f); if (vx_pick(2, "def")) t.n = 1;
    unsigned m = vx_pick(3, "cases"); if (m == 1) t.sub.push_back(leaf(F64)); if (m == 2) t.sub.pop_back();
    S s = any(f);
    DynamicData d(*build(f)); put(d, f, s); DynamicData c(d, *build(t));
    if ((size_t)s.act < t.sub.size()) vx_assert(has(c, t, conv(f, s, t)), "the converted value is the value of the same case");
    else if (t.n) vx_assert(c.current_case().name() == "m0", "an undeclared case becomes the default");
    else vx_assert(vx_throws([&]() { c.current_case(); }), "an undeclared case selects nothing");
    vx_assert(has(d, f, s), "the source keeps its value");
    // the result is a usable union
    T last = t.sub.back(); S v = any(last); put(c[mname(t.sub.size() - 1)], last, v); S now; now.act = (int)t.sub.size() - 1; now.sub.push_back(v); vx_assert(has(c, t, now), "the result can be written");
    vx_reach("end");
}
// the selected case follows the value of the discriminator, whatever its type; a value the target cannot hold selects no label
template<class F> static void disc_kind(unsigned k, F f) { switch (k) { case 0: f(int8_t()); break; case 1: f(uint8_t()); break; case 2: f(int16_t()); break; case 3: f(uint32_t()); break; default: f(int64_t()); } }
template<class A> static A free_label(const char* n) { A a = vx_any<A>(n); typedef typename std::make_unsigned<A>::type U; constexpr U top = U(~U(0)) >> 1; vx_assume(U(a) != top && U(a) != U(top - 1)); return a; }
template<class A, class B> static bool same(A a, B b) { return __int128(a) == __int128(b); }
template<class A, class B> static void disc()
{
    unsigned in = vx_pick(2, "case"), fd = in ? 2 * vx_pick(2, "fdef") : 0, td = vx_pick(3, "tdef"); // none, the second with its label, the second without labels
    A a0 = free_label<A>("a0"), a1 = free_label<A>("a1"); B b0 = free_label<B>("b0"), b1 = free_label<B>("b1"); vx_assume(a0 != a1 && b0 != b1);
    UnionType f("F", primitive_type<A>()), t("G", primitive_type<B>()); uint16_t x = vx_any<uint16_t>("x"); uint8_t y = vx_any<uint8_t>("y");
    f.add_case_member(std::vector<A>{a0}, Member("m0", primitive_type<uint16_t>())); f.add_case_member(fd == 2 ? std::vector<A>{} : std::vector<A>{a1}, Member("m1", primitive_type<uint8_t>()), fd > 0);
    t.add_case_member(std::vector<B>{b0}, Member("m0", primitive_type<uint32_t>())); t.add_case_member(td == 2 ? std::vector<B>{} : std::vector<B>{b1}, Member("m1", primitive_type<uint64_t>()), td > 0);
    vx_assume(t.is_compatible(f) != TypeConsistency::NONE);
    DynamicData d(f); if (in) d["m1"] = y; else d["m0"] = x; A v = d.d().template value<A>(); uint64_t held = in ? y : x;
    vx_assert(in || v == a0, "the case is selected by its label");
    DynamicData c(d, t); bool fits = same(v, B(v)); int want = fits && same(v, b0) ? 0 : fits && td < 2 && same(v, b1) ? 1 : td > 0 ? 1 : -1;
    // as with other integers, a value of the other sign becomes the value with its bits
    if (!fits && __int128(v) >= -(__int128(1) << (8 * sizeof(B) - 1)) && __int128(v) < (__int128(1) << (8 * sizeof(B)))) { vx_reach("end"); return; }
    if (want < 0) vx_assert(vx_throws([&]() { c.current_case(); }), "a value that is no label selects no case");
    else
    {
        vx_assert(c.current_case().name() == (want ? "m1" : "m0"), "the case is the one the discriminator selects");
        B w = c.d().template value<B>(); vx_assert(want == 0 ? w == b0 : td == 2 ? w != b0 : true, "the discriminator is a value of that case"); if (fits && (same(v, b0) || (td < 2 && same(v, b1)))) vx_assert(same(v, w), "the discriminator keeps its value");
        if (fits) vx_assert((want ? c["m1"].template value<uint64_t>() : c["m0"].template value<uint32_t>()) == held, "the case holds the converted value");
        else { uint64_t now = c["m1"].template value<uint64_t>(); vx_assert(now == 0 || now == held, "the default holds the converted value or none"); }
    }
    vx_assert(d.d().template value<A>() == v && (in ? d["m1"].template value<uint8_t>() == y : d["m0"].template value<uint16_t>() == x), "the source keeps its value");
    c["m0"] = uint32_t(7); vx_assert(c.current_case().name() == "m0" && c["m0"].template value<uint32_t>() == 7, "the result can be written");
    vx_reach("end");
}
VX_ENTRY(h_disc) { unsigned i = vx_pick(5, "from"), j = vx_pick(5, "to"); disc_kind(i, [&](auto a) { disc_kind(j, [&](auto b) { disc<decltype(a), decltype(b)>(); }); }); }
VX_ENTRY(h_deep)
{
    T in; prof().chars = 2; prof().elems = 2;
    switch (vx_pick(5, "in")) { case 0: in = seq(leaf(STR)); break; case 1: in = st({leaf(U8), leaf(STR)}); break; case 2: in = arr(2, leaf(I16)); break; case 3: in = un({leaf(STR), leaf(U8)}); break; default: in = map(leaf(U16), leaf(STR)); prof().elems = 1; }
    T f; switch (vx_pick(5, "out")) { case 0: f = seq(in); break; case 1: f = arr(2, in); break; case 2: f = st({leaf(I32), in}); break; case 3: f = map(leaf(U8), in); prof().elems = 1; break; default: f = un({leaf(U8), in}); }
    T t = variant(f); if (f.k == STRUCT && t.sub.size() == 1) t.sub.push_back(in);
    check(f, t, any(f));
    vx_reach("end");
}
VX_ENTRY(h_one)
{
    T m; switch (vx_pick(11, "m")) { case 0: m = leaf(U8); break; case 1: m = leaf(I32); break; case 2: m = leaf(STR); break; case 3: m = seq(leaf(U8)); break; case 4: m = arr(2, leaf(I16)); break; case 5: m = map(leaf(U8), leaf(STR)); break;
        case 6: m = un({leaf(I32), leaf(STR)}); break; case 7: m = leaf(ENUM); break; case 8: m = ali(leaf(STR)); break; case 9: m = arr(2, leaf(STR)); break; default: m = st({leaf(U8), leaf(STR)}); }
    T v = variant(m); prof().chars = 2; prof().elems = 2; bool dir = vx_pick(2, "dir"), both = vx_pick(2, "both"); unsigned in = (unsigned)vx_pick(5, "in");
    T f = dir || both ? st({m}) : m, t = !dir || both ? st({v}) : v;
    auto put_in = [&](const T& x) -> T { switch (in) { case 0: return x; case 1: return ali(x); case 2: return seq(x); case 3: return arr(2, x); default: return st({leaf(U8), x}); } };
    f = put_in(f); t = put_in(t);
    if (!fits(f, t)) vx_reach("unfit"); else check(f, t, any(f));
    vx_reach("end");
}
VX_ENTRY(h_keys)
{
    static const int ks[4] = {U8, I16, U32, I8}; T k = leaf(ks[vx_pick(4, "k")]), l = leaf(ks[vx_pick(4, "l")]), v = vx_pick(2, "v") ? leaf(STR) : leaf(U8); prof().elems = (unsigned)vx_pick(3, "elems"); prof().chars = 2;
    T f = map(k, v), t = map(l, v, (uint32_t)vx_pick(2, "bound")); S s = any(f); DynamicData d(*build(f)); put(d, f, s);
    bool nested = vx_pick(2, "nested");
    bool threw = vx_throws([&]() {
        std::unique_ptr<DynamicData> c(new DynamicData(d, *build(t)));
        vx_assert(c->size() == (t.n && t.n < s.sub.size() ? t.n : s.sub.size()) || k.k != l.k, "maps keep as many entries as fit");
        for (auto& p : s.sub) { DynamicData x(*build(k)); put(x, k, p.sub[0]); DynamicData y(x, *build(l)); if (k.k == l.k && c->has_key(y)) vx_assert(has(c->at(y), v, p.sub[1]), "each kept entry has its value"); } });
    vx_assert(!threw || k.k != l.k, "only different key types are rejected");
    vx_assert(has(d, f, s), "the source keeps its value");
    (void)nested;
    vx_reach("end");
}
VX_ENTRY(h_reject)
{
    T f = pick_mid(), t = pick_mid(); prof().chars = 2; prof().elems = 1;
    if (fits(f, t)) { vx_reach("end"); return; }
    S s = any(f); DynamicData d(*build(f)); put(d, f, s); DynamicType::Ptr tt = build(t);
    vx_assert(vx_throws([&]() { DynamicData c(d, *tt); }), "conversion to an incompatible type is rejected");
    vx_assert(has(d, f, s), "the source keeps its value");
    vx_reach("end");
}
VX_ENTRY(h_round)
{
    prof().elems = 2; prof().chars = 3; prof().finite = true; T f, t;
    switch (vx_pick(9, "pair"))
    {
        case 0: f = leaf(U8); t = leaf(U64); break; case 1: f = leaf(I16); t = leaf(I64); break; case 2: f = leaf(I32); t = leaf(F64); break; case 3: f = leaf(STR, 3); t = leaf(STR); break; case 4: f = seq(leaf(U16), 2); t = seq(leaf(U32)); break;
        case 5: f = arr(2, leaf(I8)); t = arr(3, leaf(I32)); break; case 6: f = st({leaf(U8), leaf(STR, 3)}); t = st({leaf(U16), leaf(STR), leaf(F64)}); break; case 7: f = leaf(F32); t = leaf(F64); break; default: f = leaf(U32); t = leaf(I64);
    }
    S s = any(f); DynamicData d(*build(f)); put(d, f, s); DynamicData w(d, *build(t)), back(w, *build(f));
    vx_assert(has(back, f, s) && back == d, "widening and back gives the original value");
    vx_reach("end");
}
VX_ENTRY(h_large)
{
    static const unsigned sizes[3] = {34, 130, 260}; prof().finite = true; Big b = pick_big(sizes); T f = b.t, t = res(f).k == f.k ? f : f.sub[0]; unsigned m = b.n; switch (vx_pick(4, "size")) { case 0: break; case 1: m = b.n / 2; break; case 2: m = b.n - 1; break; default: m = b.n + 7; }
    if (t.k == STRUCT) { while (t.sub.size() > m) t.sub.pop_back(); while (t.sub.size() < m) t.sub.push_back(leaf(t.sub.size() % 2 ? STR : F64)); t.n = f.n ? t.n / 2 : 0; }
    else if (t.k == MAP) { if (t.n) t.n = m < b.n ? b.n : m; } else t.n = m;
    auto wider = [](T& e) { if (e.k == U8) e = leaf(I32); else if (e.k == I32) e = leaf(I64); else if (e.k == STR) e = leaf(STR, 1); else if (e.k == STRUCT) for (auto& x : e.sub) if (x.k == STR) x.n = 1; };
    if (vx_pick(2, "content")) { if (t.k == STRUCT) for (auto& e : t.sub) wider(e); else wider(t.sub[t.k == MAP ? 1 : 0]); }
    check(f, t, b.s); vx_reach("end");
}
VX_ENTRY(h_bulk)
{
    prof().finite = true; unsigned n = 66000, m = n; switch (vx_pick(3, "size")) { case 0: break; case 1: m = n - 300; break; default: m = n + 300; }
    T fe = leaf(U8), te = leaf(U8); switch (vx_pick(4, "elem")) { case 0: break; case 1: te = leaf(I32); break; case 2: fe = leaf(I32); break; default: fe = leaf(U16); te = leaf(F64); }
    unsigned shape = (unsigned)vx_pick(4, "shape"); T f, t; auto make = [&](T e, unsigned k) { switch (shape) { case 0: return seq(e); case 1: return arr(k, e); case 2: return st({leaf(U8), arr(k, e)}); default: return seq(e, 1000000); } }; f = make(fe, n); t = make(te, m);
    if (shape == 0) { t.n = m; } DynamicType::Ptr fy = build(f), ty = build(t); DynamicData d(*fy); S v = any(fe); unsigned at = 0; switch (vx_pick(4, "at")) { case 0: break; case 1: at = n / 2; break; case 2: at = n - 301; break; default: at = n - 1; }
    if (fe.k == I32) vx_assume(fromS<int32_t>(v) >= 0 && fromS<int32_t>(v) < 256);
    auto el = [&](auto r, unsigned i) { return shape == 2 ? r[1][i] : r[i]; };
    if (f.k == SEQ) d.resize(n); put(el(d.ref(), at), fe, v); S one; prim(fe.k, [&](auto x) { toS((decltype(x))7, one); }); for (unsigned i = 9; i < n; i += 997) if (i != at) put(el(d.ref(), i), fe, one);
    DynamicData c(d, *ty); unsigned k = shape == 0 ? (m < n ? m : n) : shape == 3 ? n : m; vx_assert((shape == 2 ? c[1].size() : c.size()) == k, "the size is kept up to the bound");
    auto num = [&](auto r, const T& e) { int64_t z = 0; prim(e.k, [&](auto x) { z = (int64_t)r.template value<decltype(x)>(); }); return z; }; int64_t want = 0; prim(fe.k, [&](auto x) { want = (int64_t)fromS<decltype(x)>(v); });
    if (at < k) vx_assert(num(el(c.cref(), at), te) == want, "the elements are converted"); bool ok = true; for (unsigned i = 9; i < n && i < k; i += 997) if (i != at) ok &= num(el(c.cref(), i), te) == 7; if (k > n) ok &= num(el(c.cref(), n), te) == 0 && num(el(c.cref(), k - 1), te) == 0;
    vx_assert(ok, "every element is converted, new ones hold the default"); vx_reach("end");
}
