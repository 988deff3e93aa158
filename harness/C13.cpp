// Aliases are transparent
//! entry h_same : types of every family with aliases (chains of 1..2) at the root, at every content / member / key, or both; the same arbitrary value in both
//! entry h_ops : 26 operations, available or not, on a plain instance and on its aliased twin, for 16 types: same outcome, same value afterwards
//! entry h_compat : all pairs of 16 types with arbitrary bounds, aliased on either side or both, at the root or nested: same classification
//! entry h_convert : conversion between compatible types with and without aliases on source or target
//! entry h_keys : maps whose keys or values are aliases, accessed with plain and aliased keys
//! entry h_walk : depth-first traversal visits the same nodes
//! entry h_union : aliased discriminators and cases
//! entry h_equal : two arbitrary values (any zero, infinity or NaN) of every plain type and of its alias, at the root or nested: equal, different and same hash exactly alike
#include "xt.h"
using namespace xt;
static T al(const T& t, unsigned n) { T r = t; for (unsigned i = 0; i < n; ++i) r = ali(r); return r; }
// aliases at the root (mode & 1) and / or at every direct component (mode & 2)
static T dress(const T& t, unsigned mode, unsigned n)
{
    T r = t;
    if (mode & 2) for (auto& s : r.sub) s = al(s, n);
    return mode & 1 ? al(r, n) : r;
}
static T pick_t()
{
    switch (vx_pick(16, "t"))
    {
        case 0: return leaf(I16); case 1: return leaf(BOOL); case 2: return leaf(STR); case 3: return leaf(WSTR); case 4: return leaf(ENUM); case 5: return arr(2, leaf(U16));
        case 6: return seq(leaf(STR)); case 7: return seq(leaf(U8), 3); case 8: return map(leaf(U8), leaf(STR)); case 9: return st({leaf(U8), leaf(STR)}); case 10: return der(1, {leaf(U16), leaf(F32)});
        case 11: return un({leaf(STR), leaf(U8)}); case 12: { T u = un({leaf(I64), leaf(STR)}); u.n = 1; return u; } case 13: return seq(st({leaf(STR), leaf(C8)})); case 14: return arr(2, arr(2, leaf(U8))); default: return leaf(F64);
    }
}
VX_ENTRY(h_same)
{
    T t = pick_t(); unsigned mode = 1 + (unsigned)vx_pick(3, "mode"), n = 1 + (unsigned)vx_pick(2, "chain"); T a = dress(t, mode, n);
    prof().finite = true; prof().elems = 2; prof().chars = 2; S s = any(t);
    DynamicType::Ptr pt = build(t), pa = build(a);
    vx_assert(pt->memory_size() == pa->memory_size(), "an alias has the size of its type");
    DynamicData d(*pt), e(*pa); put(d, t, s); put(e, a, s);
    vx_assert(has(e, t, s) && has(d, t, s), "an alias holds the same value");
    vx_assert(d == e && e == d && !(d != e), "equality ignores aliases");
    vx_assert(d.hash() == e.hash(), "hashing ignores aliases");
    DynamicData x(*pa), y(*pt); x = d; y = e; vx_assert(has(x, t, s) && has(y, t, s), "assignment ignores aliases");
    DynamicData cx(e), mx(std::move(e)); vx_assert(has(cx, t, s) && has(mx, t, s), "copies of aliased data hold the value");
    vx_assert(&cx.type() == &mx.type() || cx.type().name() == mx.type().name(), "copies have the same type");
    vx_reach("end");
}
VX_ENTRY(h_equal)
{
    T t = pick_t(); if (t.k == F64 && vx_pick(2, "f32")) t = leaf(F32); unsigned mode = 1 + (unsigned)vx_pick(3, "mode"), n = 1 + (unsigned)vx_pick(2, "chain"); bool in = vx_pick(2, "in");
    if (in) t = st({leaf(U8), t}); T a = dress(t, mode, n); prof().elems = 1; prof().chars = 1; S s = any(t), r = any(t);
    DynamicData d(*build(t)), f(*build(t)), e(*build(a)), g(*build(a)); put(d, t, s); put(e, a, s); put(f, t, r); put(g, a, r);
    bool x = d == f; vx_assert((e == g) == x && (d == g) == x && (e == f) == x && (g == e) == x && (e != g) == !x, "equality ignores aliases");
    vx_assert(d.hash() == e.hash() && f.hash() == g.hash(), "hashing ignores aliases");
    if (x) vx_reach("equal"); else vx_reach("different"); vx_reach("end");
}
// outcome of an operation: 0 = rejected, otherwise 1 + what it returned
static uint64_t act(DynamicData& d, const T& t, unsigned op, const std::vector<uint64_t>& in)
{
    uint64_t r = 1; (void)t;
    try
    {
        switch (op)
        {
            case 0: r += d.size(); break;
            case 1: r += d[0].type().memory_size(); break;
            case 2: r += d[(size_t)(in[0] % 5)].type().memory_size(); break;
            case 3: r += d["m0"].type().memory_size(); break;
            case 4: r += d.cref()["m1"].type().memory_size(); break;
            case 5: d.resize(in[0] % 5); r += d.size(); break;
            case 6: d = (uint8_t)in[1]; break;
            case 7: d = (int16_t)in[1]; break;
            case 8: d = std::string("q"); break;
            case 9: d = (double)1.5; break;
            case 10: r += d.value<int16_t>(); break;
            case 11: r += d.value<std::string>().size(); break;
            case 12: d.push((uint8_t)in[1]); r += d.size(); break;
            case 13: d.push(std::string("z")); r += d.size(); break;
            case 14: { DynamicData k(primitive_type<uint8_t>()); k = (uint8_t)in[1]; d[k] = std::string("v"); r += d.size(); break; }
            case 15: { DynamicData k(primitive_type<uint8_t>()); k = (uint8_t)in[1]; r += d.has_key(k); break; }
            case 16: d.d((int64_t)in[0]); break;
            case 17: r += d.d().value<int32_t>(); break;
            case 18: r += d.current_case().name().size(); break;
            case 19: ++d; break;
            case 20: d += DynamicData(d); break;
            case 21: r += !d; break;
            case 22: { DynamicData k(d); r += (d < k); break; }
            case 23: r += d.cast<int64_t>(); break;
            case 24: { uint64_t c = 0; for (ReadableDynamicDataRef e : d.cref()) c += 1 + e.type().memory_size(); r += c; break; }
            default: { uint64_t c = 0; for (auto e : d.items()) c += e.member().name().size(); r += c; break; }
        }
    }
    catch (const std::exception&) { return 0; }
    return r;
}
VX_ENTRY(h_ops)
{
    T t = pick_t(); unsigned n = 1 + (unsigned)vx_pick(2, "chain"); T a = al(t, n); prof().finite = true; prof().elems = 2; prof().chars = 1;
    unsigned op = (unsigned)vx_pick(26, "op");
    std::vector<uint64_t> in{vx_any<uint64_t>("a"), vx_any<uint64_t>("b")};
    if (op == 5) vx_assume(in[0] < 5); if (op == 2) vx_assume(in[0] < 5); if (op == 16) vx_assume(in[0] < 12);
    if (op == 23 && t.k == F64) vx_assume(false); 
    if ((op == 19 || op == 20) && t.k == I16) {}
    S s = any(t); DynamicData d(*build(t)), e(*build(a)); put(d, t, s); put(e, a, s);
    uint64_t x = act(d, t, op, in), y = act(e, a, op, in);
    vx_assert(x == y, "an operation on an alias gives the same outcome");
    vx_assert(d == e, "and leaves the same value");
    vx_reach("end");
}
static T pick_b()
{
    uint32_t b = 0; if (vx_pick(2, "bounded")) { b = vx_any<uint32_t>("bound"); vx_assume(b != 0); }
    switch (vx_pick(8, "b"))
    {
        case 0: return leaf(STR, b); case 1: return seq(leaf(U8), b); case 2: return seq(leaf(STR, b)); case 3: return map(leaf(U8), leaf(I16), b); case 4: return st({leaf(STR, b)}); case 5: return st({leaf(U8), seq(leaf(I32), b)}); case 6: return leaf(I32); default: return leaf(U64);
    }
}
static uint32_t flags(const T& x, const T& y) { return (uint32_t)build(x)->is_compatible(*build(y)); }
VX_ENTRY(h_compat)
{
    bool plain = vx_pick(2, "set"); T x = plain ? pick_t() : pick_b(), y = plain ? pick_t() : pick_b();
    unsigned mx = (unsigned)vx_pick(3, "mx"), my = (unsigned)vx_pick(3, "my"); if (!mx && !my) { vx_reach("end"); return; }
    vx_assert(flags(dress(x, mx, 1 + (mx & my)), dress(y, my, 1)) == flags(x, y), "compatibility ignores aliases");
    vx_reach("end");
}
VX_ENTRY(h_convert)
{
    T x, y; prof().finite = true; prof().elems = 2; prof().chars = 2;
    switch (vx_pick(8, "pair"))
    {
        case 0: x = leaf(I16); y = leaf(U64); break; case 1: x = seq(leaf(U8)); y = seq(leaf(I32), 1); break; case 2: x = leaf(STR); y = leaf(STR, 1); break; case 3: x = arr(3, leaf(U16)); y = arr(2, leaf(U8)); break;
        case 4: x = st({leaf(U8), leaf(STR)}); y = st({leaf(U16), leaf(STR, 1), leaf(F32)}); break; case 5: x = map(leaf(U8), leaf(U16)); y = map(leaf(U8), leaf(I32)); break; case 6: x = seq(seq(leaf(U8)), 2); y = seq(seq(leaf(U8), 1)); break;
        default: x = un({leaf(STR), leaf(U8)}); y = un({leaf(STR, 1), leaf(U16)}); break;
    }
    S s = any(x); T ax = dress(x, 1 + (unsigned)vx_pick(3, "mx"), 1), ay = dress(y, 1 + (unsigned)vx_pick(3, "my"), 1);
    DynamicData d(*build(x)), e(*build(ax)); put(d, x, s); put(e, ax, s);
    DynamicData p(d, *build(y)), q(e, *build(ay)), r(d, *build(ay)), u(e, *build(y));
    vx_assert(p == q && p == r && p == u, "conversion ignores aliases");
    vx_reach("end");
}
VX_ENTRY(h_keys)
{
    T k = vx_pick(2, "key") ? leaf(U16) : leaf(STR), v = vx_pick(2, "value") ? leaf(STR) : seq(leaf(U8)); prof().chars = 2; prof().finite = true; prof().elems = 1;
    T t = map(ali(k), vx_pick(2, "av") ? ali(v) : v); DynamicType::Ptr kp = build(k), ka = build(ali(ali(k)));
    S a = any(k), b = any(k), va = any(v), vb = any(v); bool eq = same(k, a, b);
    DynamicData d(*build(t)), x(*kp), y(*ka); put(x, k, a); put(y, k, b);
    put(d[x], v, va); bool known = d.has_key(y); vx_assert(known == eq, "a key is found whatever alias its type has");
    put(d[y], v, vb);
    vx_assert(d.size() == (eq ? 1u : 2u) && has(d.at(y), v, vb) && has(d.at(x), v, eq ? vb : va), "values are stored under their key");
    DynamicData m(*build(map(k, v))); m = d; vx_assert(m == d && has(m.at(y), v, vb), "maps with aliased keys and plain maps are interchangeable");
    vx_reach("end");
}
VX_ENTRY(h_walk)
{
    T t = pick_t(); unsigned mode = (unsigned)vx_pick(2, "mode") ? 2 : 0; prof().finite = true; prof().elems = 2; prof().chars = 1; S s = any(t);
    T p = st({t}), a = st({dress(t, mode, 1)}); if (!mode) a = st({al(t, 2)});
    DynamicData d(*build(p)), e(*build(a)); put(d["m0"], t, s); put(e["m0"], a.sub[0], s);
    struct N { size_t deep, ix, size; bool leafy; uint64_t h; };
    auto walk = [](DynamicData& x) { std::vector<N> r; x.for_each([&](DynamicData::ReadableNode& n) { N q; q.deep = n.deep(); q.ix = n.from_index(); q.size = n.type().memory_size(); q.leafy = n.has_parent(); q.h = 0; r.push_back(q); }); return r; };
    std::vector<N> x = walk(d), y = walk(e); bool ok = x.size() == y.size();
    for (size_t i = 0; ok && i < x.size(); ++i) ok &= x[i].deep == y[i].deep && x[i].ix == y[i].ix && x[i].size == y[i].size && x[i].leafy == y[i].leafy;
    vx_assert(ok, "traversal visits the same nodes");
    vx_reach("end");
}
VX_ENTRY(h_union)
{
    T c0 = leaf(STR), c1 = leaf(U16); prof().chars = 1; bool en = vx_pick(2, "enum");
    EnumerationType<uint16_t> e("E"); e.add_enumerator("A", 3); e.add_enumerator("B", 300);
    DynamicType::Ptr disc = en ? DynamicType::Ptr(e) : DynamicType::Ptr(primitive_type<uint16_t>()), ad = DynamicType::Ptr(AliasType(AliasType(*disc, "D1"), "D2"));
    auto mk = [&](const DynamicType& dt, unsigned n) { UnionType u("U", dt); u.add_case_member(std::vector<int>{3}, Member("m0", *build(al(c0, n)))); u.add_case_member(std::vector<int>{300}, Member("m1", *build(al(c1, n)))); return u; };
    UnionType p = mk(*disc, 0), q = mk(*ad, 1);
    vx_assert(p.is_compatible(q) == TypeConsistency::EQUALS && q.is_compatible(p) == TypeConsistency::EQUALS && p.memory_size() == q.memory_size(), "unions with aliased parts are the same");
    DynamicData d(p), f(q); size_t o = vx_pick(3, "op"); S s; if (o < 2) { s = any(o ? c1 : c0); put(d[mname(o)], o ? c1 : c0, s); put(f[mname(o)], o ? c1 : c0, s); }
    uint16_t v = vx_any<uint16_t>("v"); bool how = vx_pick(2, "how"); if (en) vx_assume(v == 3 || v == 300);
    auto setd = [&](DynamicData& x) { return vx_throws([&]() { if (how) x.d(v); else { DynamicData w(*disc); w = v; x.d(w); } }); };
    bool tx = setd(d), ty = vx_throws([&]() { if (how) f.d(v); else { DynamicData w(*ad); w = v; f.d(w); } });
    vx_assert(tx == ty && d == f && d.hash() == f.hash() && d.d().value<uint16_t>() == f.d().value<uint16_t>(), "an aliased discriminator behaves like its type");
    bool nx = vx_throws([&]() { d.current_case(); }), ny = vx_throws([&]() { f.current_case(); }); vx_assert(nx == ny && (nx || d.current_case().name() == f.current_case().name()), "and selects the same case");
    DynamicData c(d, q); vx_assert(c == d, "conversion to the aliased union keeps the value");
    vx_reach("end");
}
