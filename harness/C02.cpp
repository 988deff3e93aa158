// Copies and moves are deep and independent
//! leaks
//! entry h_copy : 13 root shapes x 11 contents, 9 copy/move/assign forms, then source and copy overwritten in turn; <= 3 elements, strings <= 17; all values
//! entry h_part : struct with two members of each of 11 contents; assignment between the parts, to itself, from a part by reference; all values
//! entry h_elem : sequence/array/map elements copied out, copied in and pushed; all values
//! entry h_outlive : source destroyed before the copy is read, copy destroyed before the source is read; all forms
//! entry h_large : the same forms for arrays, sequences, maps and structures of 34, 130 and 260 elements (11 shapes), concrete but for an arbitrary value at one of four places
//! entry h_bulk : copy, move and assignment (to new or filled data) of instances of 64 KiB or more (12 shapes), an arbitrary value at one of four places
//! entry h_nest : h_copy and h_outlive on chains of 5 and 17 levels of one kind of container (structure, array, sequence, map, union, alias, bounded sequence; derived structure: 5 and 6) or all of them in turn
#include "xt.h"
#include <memory>
using namespace xt;
static void form(unsigned f, std::unique_ptr<DynamicData>& c, DynamicData& d, const T& t, const DynamicType& ty, bool& moved)
{
    auto target = [&]() { c.reset(new DynamicData(ty)); if (vx_pick(2, "filled")) put(*c, t, any(t)); };
    switch (f)
    {
        case 0: c.reset(new DynamicData(d)); break;
        case 1: c.reset(new DynamicData(std::move(d))); moved = true; break;
        case 2: target(); *c = d; break;
        case 3: target(); *c = std::move(d); moved = true; break;
        case 4: c.reset(new DynamicData(d.ref())); break;
        case 5: c.reset(new DynamicData(d.cref())); break;
        case 6: target(); *c = d.cref(); break;
        case 7: { target(); WritableDynamicDataRef r = c->ref(); r = d.ref(); break; }
        default: c.reset(new DynamicData(d, ty)); break;
    }
}
VX_ENTRY(h_copy)
{
    T t = pick_type(); prof() = pick_profile();
    DynamicType::Ptr ty = build(t);
    DynamicData d(*ty);
    S s = any(t);
    put(d, t, s);
    std::unique_ptr<DynamicData> c; bool moved = false;
    form((unsigned)vx_pick(9, "form"), c, d, t, *ty, moved);
    vx_assert(has(*c, t, s), "the copy holds the value of the source");
    if (!moved)
    {
        vx_assert(has(d, t, s), "copying leaves the source unchanged");
        S n = fresh(t, s);
        put(d, t, n);
        vx_assert(has(*c, t, s), "overwriting the source does not change the copy");
        S m = fresh(t, s);
        put(*c, t, m);
        vx_assert(has(d, t, n), "overwriting the copy does not change the source");
        vx_assert(has(*c, t, m), "the copy can be overwritten");
    }
    vx_reach("end");
}
VX_ENTRY(h_part)
{
    T m = pick_mid(); prof().elems = 2; prof().chars = vx_pick(2, "len") ? 17 : 2;
    T t = st({m, leaf(U16), m});
    DynamicData d(*build(t));
    S s = any(t);
    put(d, t, s);
    switch (vx_pick(7, "form"))
    {
        case 0: d["m2"] = d["m0"]; s.sub[2] = s.sub[0]; break;
        case 1: d[0] = d[2]; s.sub[0] = s.sub[2]; break;
        case 2: { WritableDynamicDataRef r = d["m0"]; r = r; break; }
        case 3: { WritableDynamicDataRef r = d["m0"], q = d[0]; r = q; break; }
        case 4: { DynamicData c(d["m0"]); S n = fresh(m, s.sub[0]); put(d["m0"], m, n); vx_assert(has(c, m, s.sub[0]), "a copy of a part keeps the old value"); d["m2"] = c; s.sub[2] = s.sub[0]; s.sub[0] = n; break; }
        case 5: { DynamicData& a = d; d = a; break; }
        default: d = d.cref(); break;
    }
    vx_assert(has(d, t, s), "assignment between parts copies the value");
    S n = fresh(m, s.sub[0]);
    put(d["m0"], m, n); S o = s.sub[2];
    vx_assert(has(d["m2"], m, o), "the assigned part stays independent");
    vx_reach("end");
}
VX_ENTRY(h_elem)
{
    T m = pick_mid(); prof().elems = 2; prof().chars = 2;
    switch (vx_pick(3, "root"))
    {
        case 0:
        {
            T t = seq(m); DynamicData d(*build(t)); S s = any(t); put(d, t, s);
            if (vx_pick(2, "how")) { DynamicData e(d[0]); d.push(e); } else d.push(d[0].cref());
            s.sub.push_back(s.sub[0]);
            vx_assert(has(d, t, s), "pushing an element of the same sequence copies it");
            S n = fresh(m, s.sub[0]); put(d[0], m, n); s.sub[0] = n;
            vx_assert(has(d, t, s), "the pushed element is independent");
            break;
        }
        case 1:
        {
            T t = arr(3, m); DynamicData d(*build(t)); S s = any(t); put(d, t, s);
            unsigned i = vx_pick(3, "i"), j = vx_pick(3, "j");
            d[i] = d[j]; s.sub[i] = s.sub[j];
            vx_assert(has(d, t, s), "assigning one array element to another copies it");
            S n = fresh(m, s.sub[j]); put(d[j], m, n); s.sub[j] = n; if (i == j) s.sub[i] = n;
            vx_assert(has(d, t, s), "array elements stay independent");
            break;
        }
        default:
        {
            T t = map(leaf(U16), m); DynamicData d(*build(t)); S s = any(t); put(d, t, s);
            DynamicData k(*build(t.sub[0])), k1(*build(t.sub[0])), kn(*build(t.sub[0])); put(k, t.sub[0], s.sub[0].sub[0]); put(k1, t.sub[0], s.sub[1].sub[0]);
            uint16_t nk = vx_any<uint16_t>("nk"); vx_assume(nk != (uint16_t)s.sub[0].sub[0].lo && nk != (uint16_t)s.sub[1].sub[0].lo);
            kn = nk;
            DynamicData v(d[k]);
            d[kn] = v; S p; S ks; toS(nk, ks); p.sub.push_back(ks); p.sub.push_back(s.sub[0].sub[1]); s.sub.push_back(p);
            vx_assert(has(d, t, s), "copying a map value to another key copies it");
            S n = fresh(m, s.sub[0].sub[1]); put(d[k], m, n); s.sub[0].sub[1] = n;
            vx_assert(has(d, t, s), "map values stay independent");
        }
    }
    vx_reach("end");
}
VX_ENTRY(h_outlive)
{
    T t = pick_type(); prof().elems = 2; prof().chars = 2;
    DynamicType::Ptr ty = build(t);
    std::unique_ptr<DynamicData> d(new DynamicData(*ty)), c;
    S s = any(t);
    put(*d, t, s);
    bool moved = false;
    form((unsigned)vx_pick(9, "form"), c, *d, t, *ty, moved);
    if (moved || vx_pick(2, "which")) { d.reset(); vx_assert(has(*c, t, s), "the copy survives the source"); }
    else { c.reset(); vx_assert(has(*d, t, s), "the source survives the copy"); }
    vx_reach("end");
}
static const unsigned sizes[3] = {34, 130, 260};
VX_ENTRY(h_large)
{
    Big b = pick_big(sizes); prof().elems = 1; prof().chars = 2; DynamicType::Ptr ty = build(b.t); std::unique_ptr<DynamicData> d(new DynamicData(*ty)); put(*d, b.t, b.s);
    std::unique_ptr<DynamicData> c; bool moved = false;
    switch (vx_pick(4, "form")) { case 0: c.reset(new DynamicData(*d)); break; case 1: c.reset(new DynamicData(*ty)); *c = *d; break; case 2: c.reset(new DynamicData(std::move(*d))); moved = true; break; default: c.reset(new DynamicData(*ty)); *c = std::move(*d); moved = true; }
    vx_assert(has(*c, b.t, b.s), "the copy holds the value of the source"); S n = b.s; unsigned q = b.n / 2; part(b.t, n, q) = fresh(child(b.t, q), part(b.t, n, q));
    if (!moved) { put(*d, b.t, n); vx_assert(has(*c, b.t, b.s), "overwriting the source does not change the copy"); put(*c, b.t, n); vx_assert(has(*d, b.t, n), "overwriting the copy does not change the source"); }
    d.reset(); vx_assert(has(*c, b.t, moved ? b.s : n), "the copy outlives its source"); vx_reach("end");
}
VX_ENTRY(h_bulk)
{
    Bulk b = pick_bulk(); prof().finite = true; DynamicType::Ptr ty = build(b.t); std::unique_ptr<DynamicData> d(new DynamicData(*ty)), c; bulk_put(*d, b, b.v); bool moved = false; S w = any(b.e);
    auto target = [&]() { c.reset(new DynamicData(*ty)); if (vx_pick(2, "filled")) bulk_put(*c, b, w); };
    switch (vx_pick(5, "form")) { case 0: c.reset(new DynamicData(*d)); break; case 1: target(); *c = *d; break; case 2: c.reset(new DynamicData(std::move(*d))); moved = true; break; case 3: target(); *c = std::move(*d); moved = true; break; default: c.reset(new DynamicData(*d, *ty)); }
    vx_assert(bulk_has(*c, b, b.v), "the copy holds the value of the source");
    if (!moved) { vx_assert(bulk_has(*d, b, b.v), "copying leaves the source unchanged"); bulk_put(*d, b, w); vx_assert(bulk_has(*c, b, b.v), "overwriting the source does not change the copy"); }
    d.reset(); vx_assert(bulk_has(*c, b, b.v), "the copy outlives its source"); vx_reach("end");
}
VX_ENTRY(h_nest)
{
    nest_mode() = true; switch (vx_pick(2, "what")) { case 0: h_copy(); break; default: h_outlive(); }
}
