// Type compatibility against an independent classification
//! entry h_prim : all pairs of the 15 primitive types and 8/16/32-bit enumerations
//! entry h_bounds : strings (3 kinds), sequences, maps and arrays of two contents, with arbitrary bounds and dimensions on both sides
//! entry h_family : all pairs of 18 types of every family, plain or wrapped in a sequence, array, map value or structure
//! entry h_struct : two structures of 0, 2 or 3 (thorough: 4) members of 3 types with arbitrary string bounds, member names equal or different, plain or inherited
//! entry h_union : two unions with arbitrary labels, defaults, discriminators, member names and types
//! entry h_nested : pairs of two-level compositions with arbitrary bounds at each level
//! entry h_self : 13 root shapes x 11 contents against themselves, a clone, a copy and an alias
//! entry h_one : one-member structures against every kind of type, both directions
//! entry h_large : types of 34 and 130 elements or members (11 shapes) against the same type, and with one member or the content changed, or one more element, with an arbitrary string bound in one place
//! entry h_nest : h_self on chains of 5 and 17 levels of one kind of container (structure, array, sequence, map, union, alias, bounded sequence; derived structure: 5 and 6) or all of them in turn
#include "xt.h"
using namespace xt;
typedef TypeConsistency TC;
static const int NO = -1;
#ifdef VX_THOROUGH
#define VX_L 3
#else
#define VX_L 2
#endif
static int bytes(int k) { int r = 0; prim(k, [&](auto x) { r = sizeof(x); }); return r; }
static bool uns(int k) { return k == U8 || k == U16 || k == U32 || k == U64; }
static bool flt(int k) { return k == F32 || k == F64 || k == F128; }
static bool isprim(int k) { return k <= WC; }
static int orr(int a, int b) { return a == NO || b == NO ? NO : a | b; }
// ENUM with n = width in bytes
static int ref(const T& x, const T& y)
{
    if (x.k == ALIAS) return ref(x.sub[0], y); if (y.k == ALIAS) return ref(x, y.sub[0]);
    if (isprim(x.k) && isprim(y.k))
    {
        if (x.k == y.k) return 0;
        int f = (bytes(x.k) != bytes(y.k) ? 2 : 0) | (uns(x.k) != uns(y.k) ? 1 : 0);
        if (!f && (flt(x.k) != flt(y.k) || (x.k == BOOL) != (y.k == BOOL))) f = 2;
        return f;
    }
    if (x.k == ENUM && y.k == ENUM) return x.n == y.n ? 0 : 2;
    if (x.k == ENUM && isprim(y.k)) return ((int)x.n != bytes(y.k) ? 2 : 0) | (uns(y.k) ? 0 : 1);
    if (y.k == ENUM && isprim(x.k)) return ref(y, x);
    if (x.k != y.k) return NO;
    bool d = x.n != y.n;
    switch (x.k)
    {
        case STR: case WSTR: case STR16: return d ? 16 : 0;
        case SEQ: return orr(ref(x.sub[0], y.sub[0]), d ? 4 : 0);
        case ARR: return orr(ref(x.sub[0], y.sub[0]), d ? 8 : 0);
        case MAP: return orr(orr(ref(x.sub[0], y.sub[0]), ref(x.sub[1], y.sub[1])), d ? 128 : 0);
        case STRUCT: { int f = x.sub.size() != y.sub.size() ? 64 : 0; for (size_t i = 0; i < x.sub.size() && i < y.sub.size(); ++i) f = orr(f, ref(x.sub[i], y.sub[i])); return f; }
    }
    return NO;
}
static DynamicType::Ptr mk(const T& t)
{
    switch (t.k)
    {
        case ENUM: if (t.n == 1) { EnumerationType<uint8_t> e("E8"); e.add_enumerator("A"); return DynamicType::Ptr(e); } if (t.n == 2) { EnumerationType<uint16_t> e("E16"); e.add_enumerator("A"); return DynamicType::Ptr(e); } { EnumerationType<uint32_t> e("E32"); e.add_enumerator("A"); return DynamicType::Ptr(e); }
        case SEQ: return DynamicType::Ptr(SequenceType(*mk(t.sub[0]), t.n));
        case ARR: return DynamicType::Ptr(ArrayType(*mk(t.sub[0]), t.n));
        case MAP: return DynamicType::Ptr(MapType(*mk(t.sub[0]), *mk(t.sub[1]), t.n));
        case ALIAS: return DynamicType::Ptr(AliasType(mk(t.sub[0]), "Al"));
        case STRUCT: { StructType s("S"); for (size_t i = 0; i < t.sub.size(); ++i) s.add_member(mname(i), *mk(t.sub[i])); return DynamicType::Ptr(s); }
        default: return build(t);
    }
}
static void both(const DynamicType& a, const DynamicType& b, int expected, const char* what)
{
    int x = (int)a.is_compatible(b), y = (int)b.is_compatible(a);
    vx_assert(x == expected, what);
    vx_assert(y == expected, "the classification is the same in both directions");
}
VX_ENTRY(h_prim)
{
    auto p = [](const char* n) { unsigned i = (unsigned)vx_pick(18, n); return i < 15 ? leaf((int)i) : leaf(ENUM, 1u << (i - 15)); };
    T x = p("x"), y = p("y"); both(*mk(x), *mk(y), ref(x, y), "primitive and enumerated types are classified by width and sign");
    vx_reach("end");
}
VX_ENTRY(h_bounds)
{
    uint32_t a = vx_any<uint32_t>("a"), b = vx_any<uint32_t>("b"); unsigned f = (unsigned)vx_pick(8, "family"); int diff; T x, y;
    T c = vx_pick(2, "content") ? leaf(I16) : leaf(STR), d = vx_pick(2, "other") ? leaf(U64) : leaf(STR);
    switch (f)
    {
        case 0: x = leaf(STR, a); y = leaf(STR, b); diff = 16; break; case 1: x = leaf(WSTR, a); y = leaf(WSTR, b); diff = 16; break; case 2: x = leaf(STR16, a); y = leaf(STR16, b); diff = 16; break;
        case 3: x = seq(c, a); y = seq(d, b); diff = 4; break; case 4: x = arr(a, c); y = arr(b, d); diff = 8; vx_assume(a < 100000 && b < 100000); break; case 5: x = map(c, leaf(U8), a); y = map(d, leaf(U8), b); diff = 128; break;
        case 6: x = map(leaf(U8), c, a); y = map(leaf(U8), d, b); diff = 128; break; default: x = seq(c, a); y = arr(b, d); diff = 0; vx_assume(b < 100000);
    }
    (void)diff; both(*mk(x), *mk(y), ref(x, y), "different bounds and sizes are reported, with the difference of the content");
    vx_reach("end");
}
static T pick_f(const char* n)
{
    switch (vx_pick(18, n))
    {
        case 0: return leaf(U8); case 1: return leaf(I32); case 2: return leaf(F64); case 3: return leaf(BOOL); case 4: return leaf(C16); case 5: return leaf(ENUM, 2); case 6: return leaf(STR); case 7: return leaf(WSTR); case 8: return leaf(STR16);
        case 9: return seq(leaf(U8)); case 10: return arr(2, leaf(U8)); case 11: return map(leaf(U8), leaf(U8)); case 12: return st({leaf(U8), leaf(STR)}); case 13: return st({}); case 14: return seq(seq(leaf(U8))); case 15: return arr(2, arr(2, leaf(U8))); case 16: return map(leaf(STR), leaf(U8)); default: return seq(leaf(STR));
    }
}
static T wrap(const T& t, unsigned w) { switch (w) { case 0: return t; case 1: return seq(t); case 2: return arr(2, t); case 3: return map(leaf(U8), t); default: return st({leaf(U8), t}); } }
VX_ENTRY(h_family)
{
    unsigned w = (unsigned)vx_pick(5, "wrap"); T x = wrap(pick_f("x"), w), y = wrap(pick_f("y"), w);
    both(*mk(x), *mk(y), ref(x, y), "types of different families are inconsistent, others by their parts");
    vx_reach("end");
}
VX_ENTRY(h_struct)
{
#ifdef VX_THOROUGH
    const unsigned N = 4;
#else
    const unsigned N = 3;
#endif
    auto m = [](const char* n, unsigned i) { switch (vx_pick(i < 2 ? 3 : 2, n)) { case 0: return leaf(U16); case 1: return leaf(STR, vx_any<uint32_t>("bound")); default: return leaf(I64); } };
    unsigned n = (unsigned)vx_pick(N + 1, "n"), k = (unsigned)vx_pick(N + 1, "k"); vx_assume(n != 1 && k != 1);
    bool inherit = vx_pick(2, "inherit"); unsigned odd = (unsigned)vx_pick(N + 1, "odd"); // the odd-th member of the second structure has another name
    T x = st({}), y = st({}); for (unsigned i = 0; i < n; ++i) x.sub.push_back(m("x", i)); for (unsigned i = 0; i < k; ++i) y.sub.push_back(m("y", i));
    StructType a("A"), p("P"); for (unsigned i = 0; i < n; ++i) a.add_member(mname(i), *mk(x.sub[i]));
    unsigned half = inherit ? k / 2 : 0; for (unsigned i = 0; i < half; ++i) p.add_member(i == odd ? "other" : mname(i), *mk(y.sub[i]));
    StructType b("B", inherit ? &p : nullptr); for (unsigned i = half; i < k; ++i) b.add_member(i == odd ? "other" : mname(i), *mk(y.sub[i]));
    int e = ref(x, y); if (e != NO && odd < n && odd < k) e |= 32;
    both(a, b, e, "structures are classified by the number, names and types of their members");
    vx_reach("end");
}
VX_ENTRY(h_union)
{
    int kx = vx_pick(2, "kx") ? I32 : U16, ky = vx_pick(2, "ky") ? I32 : U16; T p[3] = {leaf(STR), leaf(U8), leaf(I16)};
    unsigned dx = (unsigned)vx_pick(3, "dx"), dy = (unsigned)vx_pick(3, "dy"); bool same = kx == ky; int64_t l[2][2];
    for (auto& u : l) { for (auto& v : u) { v = vx_any<uint16_t>("label"); vx_assume(v < 0x7ffe); } vx_assume(u[0] != u[1]); }
    T y1 = p[vx_pick(3, "y1")]; bool name = vx_pick(2, "name");
    UnionType a("A", *build(leaf(kx))), b("B", *build(leaf(ky)));
    a.add_case_member(std::vector<int64_t>{l[0][0]}, Member("m0", *build(p[0])), dx == 1); a.add_case_member(std::vector<int64_t>{l[0][1]}, Member("m1", *build(p[1])), dx == 2);
    b.add_case_member(std::vector<int64_t>{l[1][0]}, Member("m0", *build(p[0])), dy == 1); b.add_case_member(std::vector<int64_t>{l[1][1]}, Member(name ? "x1" : "m1", *build(y1)), dy == 2);
    int e = orr(ref(leaf(kx), leaf(ky)), ref(p[1], y1)); bool lab = l[0][0] != l[1][0] || l[0][1] != l[1][1] || dx != dy;
    if (e != NO) e |= (name ? 32 : 0) | (lab ? 64 : 0);
    (void)same; both(a, b, e, "unions are classified by discriminator, labels, default, names and types of their members");
    both(a, a, 0, "a union equals itself"); UnionType c(a); both(a, c, 0, "a union equals its copy");
    vx_reach("end");
}
static T lvl(unsigned d, const char* n)
{
    uint32_t b = vx_any<uint32_t>("bound"); vx_assume(b < 1000);
    if (!d) switch (vx_pick(VX_L, n)) { case 0: return leaf(STR, b); case 1: return leaf(I16); default: return leaf(U32); }
    switch (vx_pick(4, n)) { case 0: return seq(lvl(d - 1, n), b); case 1: return arr(b, lvl(d - 1, n)); case 2: return map(leaf(U8), lvl(d - 1, n), b); default: return st({leaf(U8), lvl(d - 1, n)}); }
}
VX_ENTRY(h_nested)
{
#ifdef VX_THOROUGH
    T x = lvl(3, "x"), y = lvl(3, "y");
#else
    T x = lvl(2, "x"), y = lvl(2, "y");
#endif
    int e = ref(x, y); both(*mk(x), *mk(y), e, "differences are combined over nested types");
    both(AliasType(mk(x), "AX"), *mk(y), e, "aliases do not matter");
    vx_reach("end");
}
VX_ENTRY(h_self)
{
    T t = pick_type(); DynamicType::Ptr a = build(t), b = build(t), c(*a), al = DynamicType::Ptr(AliasType(*a, "X"));
    both(*a, *a, 0, "a type equals itself"); both(*a, *b, 0, "a type equals another declared equally"); both(*a, *c, 0, "a type equals its clone"); both(*al, *c, 0, "a type equals its alias");
    DynamicData d(*a); vx_assert((int)d.type().is_compatible(*a) == 0, "the type of data equals its type");
    vx_reach("end");
}
VX_ENTRY(h_one)
{
    T t = pick_f("t"), u = pick_f("u"); if (t.k == STRUCT && t.sub.empty()) { vx_reach("end"); return; }
    bool both_one = vx_pick(2, "both"); StructType s("S"); s.add_member("only", *mk(t));
    if (both_one) { StructType r("R"); r.add_member("single", *mk(u)); both(s, r, ref(t, u), "one-member structures are classified by their member"); }
    else if (u.k != STRUCT) both(s, *mk(u), ref(t, u), "a one-member structure is classified by its member");
    vx_reach("end");
}
VX_ENTRY(h_large)
{
    static const unsigned sizes[3] = {34, 130, 260}; unsigned n = sizes[vx_pick(2, "n")]; T x = big_type((unsigned)vx_pick(11, "shape"), n), y = x; T& c = res(y).k == y.k ? y : y.sub[0]; unsigned at = 0; switch (vx_pick(3, "at")) { case 0: break; case 1: at = n / 2; break; default: at = n - 1; }
    T& e = c.sub[c.k == STRUCT ? at : c.k == MAP ? 1 : 0];
    switch (vx_pick(6, "change")) { case 0: break; case 1: e = leaf(STR, vx_any<uint32_t>("b")); break; case 2: e = leaf(U64); break; case 3: e = seq(leaf(U16), vx_any<uint32_t>("b")); break; case 4: if (c.k == STRUCT) c.sub.push_back(leaf(U8)); else c.n = n + 1; break; default: if (c.k == STRUCT) { c.sub.pop_back(); if (c.n) c.n = 0; } else { c.n = 1; if (c.k == SEQ || c.k == MAP) c.n = vx_any<uint32_t>("b"); } }
    DynamicType::Ptr a = build(x), b = build(y); both(*a, *b, ref(x, y), "large types are classified like small ones"); both(*a, *a, 0, "a type is equal to itself"); vx_reach("end");
}
VX_ENTRY(h_nest)
{
    nest_mode() = true; h_self();
}
