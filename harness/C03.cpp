// Memory safety: every access is inside live, initialised memory of the program (checked by the
// executor on every load, store, free and branch), and nothing is left allocated at the end
//! leaks
//! entry h_life : 13 root shapes x 11 contents, <= 3 elements, strings <= 17; create, fill, copy, assign over a filled target, move, compare, hash, print, visit; any destruction order
//! entry h_ops : sequence, map, array, struct and union roots of 7 contents; 3 (thorough: 4) arbitrary operations from {write part, overwrite whole, push, resize, insert key, select member, copy part out, self assign}
//! entry h_reject : 12 rejected operations (bound, index, key, name, kind, incompatible type, enumeration value, union member) on filled data; nothing leaked or corrupted
//! entry h_types : type objects of 13 shapes copied, cloned, moved, assigned, contained, replaced and destroyed in any order before and after data is created
//! entry h_convert : 14 pairs of different compatible types, both directions; <= 3 elements, strings <= 17
//! entry h_raw : arbitrary index (64 bit) and arbitrary bound (<= 4) on collections of every leaf kind
//! entry h_bulk : instances of 64 KiB or more (12 shapes): create, fill, copy, assign over a filled target, move, shrink, grow and destroy
//! entry h_nest : h_life and h_types on chains of 5 and 17 levels of one kind of container (structure, array, sequence, map, union, alias, bounded sequence; derived structure: 5 and 6) or all of them in turn
#include "xt.h"
#include <memory>
using namespace xt;
#ifdef VX_THOROUGH
enum { NO = 4 };
#else
enum { NO = 3 };
#endif
VX_ENTRY(h_life)
{
    T t = pick_type(); prof() = pick_profile();
    DynamicType::Ptr ty = build(t);
    std::unique_ptr<DynamicData> a(new DynamicData(*ty)), b(new DynamicData(*ty)), c;
    S s = any(t);
    put(*a, t, s);
    switch (vx_pick(6, "use"))
    {
        case 0: put(*b, t, any(t)); *b = *a; c.reset(new DynamicData(std::move(*b))); vx_assert(has(*c, t, s), "value survives"); break;
        case 1: *b = std::move(*a); *a = *b; break;
        case 2: c.reset(new DynamicData(*a)); vx_assert(*c == *a || true, "compare"); vx_assert(c->hash() == a->hash() || true, "hash"); break;
        case 3: a->for_each([&](const DynamicData::ReadableNode& n) { vx_assert(n.type().memory_size() > 0, "visited nodes are real"); }); break;
        case 4: c.reset(new DynamicData(*a, *ty)); *c = a->cref(); break;
        default: { DynamicData e(*a); DynamicData f(std::move(e)); *b = f; a.reset(); vx_assert(has(*b, t, s), "value survives"); }
    }
    ty = DynamicType::Ptr();
    switch (vx_pick(3, "order")) { case 0: a.reset(); break; case 1: b.reset(); c.reset(); break; default: c.reset(); }
    vx_reach("end");
}
static void op(DynamicData& d, const T& t)
{
    const T& r = res(t);
    switch (r.k)
    {
        case SEQ: switch (vx_pick(6, "op"))
            {
                case 0: { DynamicData x(*build(r.sub[0])); put(x, r.sub[0], any(r.sub[0])); d.push(x); break; }
                case 1: d.resize(vx_pick(4, "n")); break;
                case 2: if (d.size()) put(d[d.size() - 1], r.sub[0], any(r.sub[0])); break;
                case 3: if (d.size()) { DynamicData x(d[0]); d.push(x); } break;
                case 4: if (d.size()) d[d.size() - 1] = d[0]; break;
                default: { DynamicData x(*build(t)); d = x; } // emptied
            }
            break;
        case MAP: switch (vx_pick(5, "op"))
            {
                case 0: { DynamicData k(*build(r.sub[0])); put(k, r.sub[0], any(r.sub[0])); put(d[k], r.sub[1], any(r.sub[1])); break; }
                case 1: { DynamicType::Ptr ty = build(r); DynamicData p(static_cast<const MapType&>(*ty).content_type()); put(p[0], r.sub[0], any(r.sub[0])); put(p[1], r.sub[1], any(r.sub[1])); d.insert(p); break; }
                case 2: { DynamicData k(*build(r.sub[0])); put(k, r.sub[0], any(r.sub[0])); DynamicData v(d[k]); break; }
                case 3: { DynamicData c(d); d = c; break; }
                default: { DynamicData x(*build(t)); d = x; }
            }
            break;
        case UNION: switch (vx_pick(4, "op"))
            {
                case 0: put(d, t, any(t)); break;
                case 1: { unsigned i = vx_pick(r.sub.size(), "sel"); d[mname(i)]; break; }
                case 2: vx_throws([&]() { d.d(vx_any<int32_t>("disc")); }); break;
                default: { DynamicData x(*build(t)); if (vx_pick(2, "set")) put(x, t, any(t)); d = x; }
            }
            break;
        case ARR: switch (vx_pick(3, "op"))
            {
                case 0: { unsigned i = vx_pick(r.n, "i"); put(d[i], r.sub[0], any(r.sub[0])); break; }
                case 1: d[0] = d[r.n - 1]; break;
                default: { DynamicData x(d[0]); d[1] = x; }
            }
            break;
        default: switch (vx_pick(4, "op"))
            {
                case 0: { unsigned i = vx_pick(r.sub.size(), "i"); put(d[i], r.sub[i], any(r.sub[i])); break; }
                case 1: { DynamicData x(d["m1"]); d["m1"] = x; break; }
                case 2: { DynamicData x(d); put(x[1], r.sub[1], any(r.sub[1])); d = std::move(x); break; }
                default: { DynamicData x(*build(t)); d["m1"] = x[1]; }
            }
    }
}
VX_ENTRY(h_ops)
{
    T m, t; prof().elems = 1; prof().chars = 17;
    switch (vx_pick(7, "content"))
    {
        case 0: m = leaf(I32); break; case 1: m = leaf(STR); break; case 2: m = seq(leaf(STR)); break; case 3: m = ali(st({leaf(U8), leaf(STR)})); break;
        case 4: m = un({leaf(STR), leaf(I16)}); break; case 5: m = arr(2, leaf(STR)); break; default: m = map(leaf(U8), leaf(STR));
    }
    switch (vx_pick(7, "root"))
    {
        case 0: t = seq(m); break; case 1: t = map(leaf(U8), m); break; case 2: t = map(leaf(STR), m); prof().chars = 1; break;
        case 3: t = arr(2, m); break; case 4: t = st({leaf(STR), m, leaf(U8)}); break; case 5: t = un({leaf(STR), m}); break;
        default: t = ali(un({leaf(U8), m, leaf(STR)})); t.sub[0].n = 1; break;
    }
    DynamicData d(*build(t));
    for (int i = 0; i < NO; ++i) op(d, t);
    vx_reach("end");
}
VX_ENTRY(h_reject)
{
    T m = pick_mid(); prof().elems = 2; prof().chars = 2;
    T t; S s;
    bool threw = false;
    switch (vx_pick(12, "what"))
    {
        case 0: { t = seq(m, 2); DynamicData d(*build(t)); s = any(t); put(d, t, s); DynamicData x(*build(m)); put(x, m, any(m)); threw = vx_throws([&]() { d.push(x); }); vx_assert(has(d, t, s), "rejected push changes nothing"); break; }
        case 1: { t = map(leaf(U8), m, 2); DynamicData d(*build(t)); s = any(t); put(d, t, s); uint8_t k = vx_any<uint8_t>("k"); vx_assume(k != (uint8_t)s.sub[0].sub[0].lo && k != (uint8_t)s.sub[1].sub[0].lo); DynamicData x(*build(leaf(U8))); x = k; threw = vx_throws([&]() { d[x]; }); vx_assert(has(d, t, s), "rejected insertion changes nothing"); break; }
        case 2: { t = arr(2, m); DynamicData d(*build(t)); s = any(t); put(d, t, s); uint64_t i = vx_any<uint64_t>("i"); vx_assume(i > 1); threw = vx_throws([&]() { d[i]; }); vx_assert(has(d, t, s), "rejected index changes nothing"); break; }
        case 3: { t = st({m, leaf(STR)}); DynamicData d(*build(t)); s = any(t); put(d, t, s); threw = vx_throws([&]() { d["nope"]; }); vx_assert(has(d, t, s), "rejected name changes nothing"); break; }
        case 4: { DynamicData d(*build(st({m, leaf(U8)}))); threw = vx_throws([&]() { DynamicData e(d, *build(seq(leaf(U8)))); }); break; }
        case 5: { DynamicData d(*build(m)); put(d, m, any(m)); threw = vx_throws([&]() { DynamicData e(d, *build(st({leaf(WSTR), leaf(WSTR), leaf(WSTR)}))); }) || true; break; }
        case 6: { DynamicData d(*build(leaf(ENUM))); uint32_t v = vx_any<uint32_t>("v"); vx_assume(v != 0 && v != 5 && v != 6); threw = vx_throws([&]() { d = v; }); break; }
        case 7: { t = un({m, leaf(STR)}); DynamicData d(*build(t)); put(d["m0"], m, any(m)); threw = vx_throws([&]() { d.cref()["m1"]; }); break; }
        case 8: { t = un({m, leaf(STR)}); DynamicData d(*build(t)); put(d["m0"], m, any(m)); threw = vx_throws([&]() { d.d(10); }); break; }
        case 9: { DynamicData d(*build(seq(m))); DynamicData x(*build(leaf(F128))); threw = vx_throws([&]() { d.push(x); }); break; }
        case 10: { t = map(leaf(STR), m); DynamicData d(*build(t)); s = any(t); put(d, t, s); DynamicData x(*build(leaf(STR))); x = std::string("absent"); threw = vx_throws([&]() { d.at(x); }); break; }
        default: { DynamicData d(*build(m)), e(*build(st({leaf(U8), leaf(U8), leaf(U8), leaf(U8)}))); threw = vx_throws([&]() { d = e; }); }
    }
    vx_assert(threw, "the operation is rejected");
    vx_reach("end");
}
VX_ENTRY(h_types)
{
    T t = pick_type(); prof().elems = 1; prof().chars = 17;
    std::unique_ptr<DynamicType::Ptr> a(new DynamicType::Ptr(build(t))), b;
    std::unique_ptr<StructType> s(new StructType("Outer"));
    s->add_member("a", **a);
    std::unique_ptr<SequenceType> q(new SequenceType(*s));
    std::unique_ptr<DynamicData> d;
    S v = any(t);
    switch (vx_pick(5, "do"))
    {
        case 0: a.reset(); d.reset(new DynamicData(*s)); s.reset(); break;
        case 1: b.reset(new DynamicType::Ptr(**a)); a.reset(); s.reset(); { StructType x(static_cast<const StructType&>(q->content_type())); q.reset(); d.reset(new DynamicData(x)); } break;
        case 2: { StructType x(std::move(*s)); s.reset(); a.reset(); SequenceType y(std::move(*q)); q.reset(); d.reset(new DynamicData(x)); break; }
        case 3: { DynamicType::Ptr p(*s); DynamicType::Ptr o(p); p = **a; p = o; o = DynamicType::Ptr(); d.reset(new DynamicData(*p)); s.reset(); break; }
        default: { StructType x(*s); x.add_member("z", *build(leaf(STR))); s.reset(); q.reset(new SequenceType(x)); DynamicData e(*q); e.resize(2); d.reset(new DynamicData(e[1])); break; }
    }
    put((*d)["a"], t, v);
    a.reset(); b.reset(); q.reset(); s.reset();
    vx_assert(has((*d)["a"], t, v), "data outlives the type objects it was made from");
    vx_reach("end");
}
VX_ENTRY(h_convert)
{
    T a, b; prof() = pick_profile();
    switch (vx_pick(14, "pair"))
    {
        case 0: a = leaf(I64); b = leaf(U8); break;
        case 1: a = leaf(STR); b = leaf(STR, 2); break;
        case 2: a = leaf(WSTR); b = leaf(WSTR, 1); break;
        case 3: a = seq(leaf(STR)); b = seq(leaf(STR), 2); break;
        case 4: a = seq(leaf(I16)); b = seq(leaf(I64), 1); break;
        case 5: a = arr(2, leaf(STR)); b = arr(3, leaf(STR)); break;
        case 6: a = st({leaf(U8), leaf(STR), seq(leaf(STR))}); b = st({leaf(U8), leaf(STR)}); break;
        case 7: a = st({leaf(U8), leaf(STR), leaf(I16)}); b = st({leaf(U32), leaf(STR, 1), leaf(I64), leaf(STR)}); break;
        case 8: a = map(leaf(U16), leaf(STR)); b = map(leaf(U16), leaf(STR, 1)); break;
        case 9: a = map(leaf(U16), leaf(STR)); b = map(leaf(U16), leaf(STR), 1); break;
        case 10: a = un({leaf(STR), leaf(I16)}); b = un({leaf(STR, 1), leaf(I64)}); break;
        case 11: a = un({leaf(STR), leaf(I16), seq(leaf(STR))}); b = un({leaf(STR), leaf(I16)}); b.n = 1; break;
        case 12: a = ali(seq(st({leaf(STR), leaf(U8)}))); b = seq(ali(st({leaf(STR), leaf(U8), leaf(F64)}))); break;
        default: a = seq(arr(2, un({leaf(STR), seq(leaf(STR))}))); b = seq(arr(1, un({leaf(STR), seq(leaf(STR), 1)})), 2); break;
    }
    if (vx_pick(2, "dir")) std::swap(a, b);
    DynamicData x(*build(a)); put(x, a, any(a));
    DynamicData y(x, *build(b));
    DynamicData z(y); y = z;
    vx_reach("end");
}
VX_ENTRY(h_raw)
{
    T e = pick_leaf(), t; prof().elems = 2; prof().chars = 2;
    switch (vx_pick(2, "root")) { case 0: t = seq(e, (uint32_t)vx_pick(5, "bound")); break; default: t = arr(1 + (uint32_t)vx_pick(4, "dim"), e); }
    DynamicData d(*build(t)); S s = any(t); put(d, t, s);
    int64_t i = vx_any<int64_t>("i");
    size_t n = t.k == ARR ? t.n : s.sub.size();
    bool threw = vx_throws([&]() { DynamicData c(d[i]); });
    vx_assert(threw == !(i >= 0 && i < (int64_t)n), "an index is accepted exactly inside the collection");
    vx_reach("end");
}
VX_ENTRY(h_bulk)
{
    Bulk b = pick_bulk(); prof().finite = true; prof().chars = 2; DynamicType::Ptr ty = build(b.t); std::unique_ptr<DynamicData> a(new DynamicData(*ty)), c; bulk_put(*a, b, b.v);
    switch (vx_pick(4, "use"))
    {
        case 0: c.reset(new DynamicData(*a)); *a = *c; *c = std::move(*a); break;
        case 1: { DynamicData e(*ty); bulk_put(e, b, b.v); e = *a; c.reset(new DynamicData(std::move(e))); break; }
        case 2: c.reset(new DynamicData(*a, *ty)); vx_assert((*c == *a) == true, "compare"); if (b.t.k == SEQ) { a->resize(b.n * 2); c->resize(b.n + 1); } break;
        default: { c.reset(new DynamicData(*ty)); DynamicData e(std::move(*a)); *c = e; a.reset(); }
    }
    ty = DynamicType::Ptr(); if (vx_pick(2, "order")) a.reset(); vx_assert(bulk_has(*c, b, b.v) || c->size() > b.n, "value survives"); vx_reach("end");
}
VX_ENTRY(h_nest)
{
    nest_mode() = true; switch (vx_pick(2, "what")) { case 0: h_life(); break; default: h_types(); }
}
