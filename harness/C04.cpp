// Structural equality
//! entry h_pair : pairs of arbitrary values of the same type; 13 root shapes x 11 contents; sizes 0..3 chosen independently for both; strings of length 0/3/17; all values
//! entry h_leaf : pairs of leaf values of every kind, string lengths chosen independently
//! entry h_one : equal values that then differ in at most one leaf; nested struct/array/sequence/map/union; all values
//! entry h_order : maps with 2-3 entries inserted in different orders; sequences built by push and by resize; all values
//! entry h_union : every pair of discriminator states of a union with 2 labels per case and a default
//! entry h_large : two instances of 34, 130 and 260 elements (11 shapes) that agree but for two arbitrary values at one of four places
//! entry h_bulk : two instances of 64 KiB or more (12 shapes) that agree but for an arbitrary value at one of four places
//! entry h_nest : h_pair on chains of 5 and 17 levels of one kind of container (structure, array, sequence, map, union, alias, bounded sequence; derived structure: 5 and 6) or all of them in turn
#include "xt.h"
using namespace xt;
static void eq(const DynamicData& a, const DynamicData& b, bool expect)
{
    bool e = a == b;
    vx_assert(e == expect, "equality holds exactly when all leaves, sizes and discriminators are equal");
    vx_assert((b == a) == expect, "equality is symmetric");
    vx_assert((a != b) == !expect, "inequality is the negation of equality");
}
VX_ENTRY(h_pair)
{
    T t = pick_type(); prof() = pick_profile();
    DynamicType::Ptr ty = build(t);
    DynamicData a(*ty), b(*ty);
    S s = any(t); put(a, t, s);
    if (t.k == SEQ || t.k == MAP) prof() = pick_profile();
    S r = any(t); put(b, t, r);
    eq(a, b, same(t, s, r));
    vx_reach("end");
}
VX_ENTRY(h_leaf)
{
    T t = pick_leaf(); prof() = pick_profile();
    DynamicData a(*build(t)), b(*build(t));
    S s = any(t); put(a, t, s);
    if (t.k >= STR && t.k <= STR16) prof() = pick_profile();
    S r = any(t); put(b, t, r);
    eq(a, b, same(t, s, r));
    eq(a, a, same(t, s, s));
    vx_reach("end");
}
VX_ENTRY(h_one)
{
#ifdef VX_THOROUGH
    T m = pick_mid();
#else
    T m = vx_pick(2, "kind") ? leaf(F64) : leaf(STR);
#endif
    T t = st({m, arr(2, st({m, leaf(I16)})), seq(arr(2, leaf(F32))), map(leaf(U16), seq(m)), un({leaf(STR), m})});
    prof().elems = 2; prof().chars = 2;
    S s = any(t), r = s;
    switch (vx_pick(8, "where"))
    {
        case 0: r.sub[0] = any(m); break;
        case 1: r.sub[1].sub[0].sub[0] = any(m); break;
        case 2: r.sub[1].sub[1].sub[1] = any(leaf(I16)); break;
        case 3: r.sub[2].sub[1].sub[1] = any(leaf(F32)); break;
        case 4: r.sub[2].sub.pop_back(); break;
        case 5: r.sub[3].sub[1].sub[1].sub[1] = any(m); break;
        case 6: r.sub[3].sub[0].sub[1].sub.pop_back(); break;
        default: r.sub[4] = any(t.sub[4]); break;
    }
    DynamicType::Ptr ty = build(t);
    DynamicData a(*ty), b(*ty);
    put(a, t, s); put(b, t, r);
    eq(a, b, same(t, s, r));
    vx_reach("end");
}
VX_ENTRY(h_order)
{
    T m = pick_mid(); prof().chars = 2; prof().elems = 2;
    if (vx_pick(2, "kind"))
    {
        T t = map(vx_pick(2, "key") ? leaf(I32) : leaf(U8), m);
        S s = any(t); if (vx_pick(2, "three")) { S p; p.sub.push_back(any(t.sub[0])); p.sub.push_back(any(m)); for (auto& q : s.sub) vx_assume(q.sub[0].lo != p.sub[0].lo); s.sub.push_back(p); }
        S r; for (size_t i = s.sub.size(); i-- > 0; ) r.sub.push_back(s.sub[i]);
        DynamicType::Ptr ty = build(t);
        DynamicData a(*ty), b(*ty);
        put(a, t, s); put(b, t, r);
        eq(a, b, same(t, s, s));
    }
    else
    {
        T t = seq(m); S s = any(t); DynamicType::Ptr ty = build(t);
        DynamicData a(*ty), b(*ty);
        put(a, t, s);
        for (auto& e : s.sub) { DynamicData x(*build(m)); put(x, m, e); b.push(x); }
        eq(a, b, same(t, s, s));
    }
    vx_reach("end");
}
VX_ENTRY(h_union)
{
    T t = un({leaf(I16), leaf(STR)}); t.n = 1; prof().chars = 2;
    DynamicType::Ptr ty = build(t);
    S s = any(t), r = any(t);
    DynamicData a(*ty), b(*ty);
    put(a, t, s); put(b, t, r);
    // values accepted for the selected member: its labels, and any unlisted value for the default
    int32_t da = vx_any<int32_t>("da"), db = vx_any<int32_t>("db");
    auto okd = [](int act, int32_t d) { return act == 0 ? (d != 10 && d != 11) : (d == 10 || d == 11); };
    vx_assume(okd(s.act, da) && okd(r.act, db));
    a.d(da); b.d(db);
    bool sel = (int32_t)a.d() == (int32_t)b.d();
    eq(a, b, sel && same(t, s, r));
    vx_reach("end");
}
static const unsigned sizes[3] = {34, 130, 260};
VX_ENTRY(h_large)
{
    Big b = pick_big(sizes); prof().elems = 1; prof().chars = 2; DynamicType::Ptr ty = build(b.t); DynamicData x(*ty), y(*ty); S n = b.s; part(b.t, n, b.pos) = vx_pick(2, "other") ? any(child(b.t, b.pos)) : part(b.t, b.s, b.pos);
    put(x, b.t, b.s); put(y, b.t, n); bool eq = same(child(b.t, b.pos), part(b.t, b.s, b.pos), part(b.t, n, b.pos));
    vx_assert((x == y) == eq && (x != y) == !eq && (y == x) == eq, "equal exactly when the values are"); vx_reach("end");
}
VX_ENTRY(h_bulk)
{
    Bulk b = pick_bulk(); prof().finite = true; prof().chars = 2; DynamicType::Ptr ty = build(b.t); DynamicData x(*ty), y(*ty); S w = any(b.e); bulk_put(x, b, b.v); bulk_put(y, b, w);
    bool eq = same(b.e, b.v, w); vx_assert((x == y) == eq && (x != y) == !eq && (y == x) == eq, "equal exactly when the values are"); vx_reach("end");
}
VX_ENTRY(h_nest)
{
    nest_mode() = true; h_pair();
}
