// Value round-trip and non-interference
//! entry h_leaf : every primitive kind, string, wide string, u16 string and enumeration; string length 0/3/17; all values
//! entry h_tree : 13 root shapes x 11 contents (nesting depth <= 3), <= 3 elements per collection, strings <= 17 characters; all values
//! entry h_interfere : struct of 3-4 members with nested struct/array/sequence; overwrite one arbitrary leaf; all values
//! entry h_large : arrays, sequences, maps and structures of 34, 130 and 260 elements (11 shapes), concrete but for an arbitrary value at one of four places; a second one overwritten
//! entry h_bulk : sequences, arrays, maps, structures, unions and strings of 64 KiB or more (12 shapes): an arbitrary value at one of four places, then another one
//! entry h_nest : h_tree on chains of 5 and 17 levels of one kind of container (structure, array, sequence, map, union, alias, bounded sequence; derived structure: 5 and 6) or all of them in turn
#include "xt.h"
using namespace xt;
VX_ENTRY(h_leaf)
{
    T t = pick_leaf(); prof() = pick_profile();
    DynamicData d(*build(t));
    S s = any(t);
    put(d, t, s);
    vx_assert(has(d, t, s), "leaf value is read back as written");
    S s2 = any(t);
    put(d, t, s2);
    vx_assert(has(d, t, s2), "overwritten leaf value is read back as written");
    vx_reach("end");
}
VX_ENTRY(h_tree)
{
    T t = pick_type(); prof() = pick_profile();
    DynamicData d(*build(t));
    S s = any(t);
    put(d, t, s);
    vx_assert(has(d, t, s), "all leaves are read back as written");
    vx_reach("end");
}
VX_ENTRY(h_interfere)
{
    T t = st({leaf(U8), arr(2, st({leaf(I16), leaf(STR)})), seq(leaf(F32)), st({leaf(C8), leaf(I64)})});
    prof().elems = 2; prof().chars = 2;
    DynamicData d(*build(t));
    S s = any(t);
    put(d, t, s);
    switch (vx_pick(6, "where"))
    {
        case 0: { uint8_t v = vx_any<uint8_t>("n"); d["m0"] = v; toS(v, s.sub[0]); break; }
        case 1: { uint32_t i = vx_pick(2, "i"); int16_t v = vx_any<int16_t>("n"); d["m1"][i]["m0"] = v; toS(v, s.sub[1].sub[i].sub[0]); break; }
        case 2: { uint32_t i = vx_pick(2, "i"); S n; n.s = U"abcdefghijklmnopqrstuvwxyz"; put(d[1][i][1], leaf(STR), n); s.sub[1].sub[i].sub[1] = n; break; }
        case 3: { uint32_t i = vx_pick(2, "i"); float v = vx_any<float>("n"); d["m2"][i] = v; toS(v, s.sub[2].sub[i]); break; }
        case 4: { int64_t v = vx_any<int64_t>("n"); WritableDynamicDataRef r = d["m3"]; r["m1"].value(v); toS(v, s.sub[3].sub[1]); break; }
        case 5: { float v = vx_any<float>("n"); d["m2"].push(v); S e; toS(v, e); s.sub[2].sub.push_back(e); break; }
    }
    vx_assert(has(d, t, s), "exactly the written leaf changes");
    vx_reach("end");
}
static const unsigned sizes[3] = {34, 130, 260};
VX_ENTRY(h_large)
{
    Big b = pick_big(sizes); DynamicData d(*build(b.t)); put(d, b.t, b.s);
    vx_assert(has(d, b.t, b.s), "every value is read back");
    unsigned q = vx_pick(2, "which") ? b.n / 3 : b.n - 1; const T& e = child(b.t, q); S& p = part(b.t, b.s, q); p = fresh(e, p);
    if (b.t.k == MAP) { DynamicData k(*build(b.t.sub[0])); put(k, b.t.sub[0], b.s.sub[q].sub[0]); put(d[k], e, p); } else put(d[q], e, p);
    vx_assert(has(d, b.t, b.s), "writing one leaf changes no other"); vx_reach("end");
}
VX_ENTRY(h_bulk)
{
    Bulk b = pick_bulk(); DynamicData d(*build(b.t)); bulk_put(d, b, b.v);
    vx_assert(bulk_has(d, b, b.v), "the arbitrary element and its neighbours are read back as written");
    if (b.shape < 10) { S v = any(b.e); bulk_write(d, b, b.at, v); vx_assert(bulk_has(d, b, v), "and after it is overwritten"); }
    vx_reach("end");
}
VX_ENTRY(h_nest)
{
    nest_mode() = true; h_tree();
}
