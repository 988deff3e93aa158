// Default values of new data
//! entry h_new : 13 root shapes x 11 contents and every leaf kind: a new instance holds the default value everywhere
//! entry h_places : values created by resizing a sequence, adding a key, selecting a union member, converting to a longer array or structure, after other values were stored and released there
//! entry h_dirty : instances constructed over memory with arbitrary contents equal a new instance; 13 root shapes x 11 contents
//! entry h_enum : enumerations of 8, 16 and 32 bits with three arbitrary values declared in order: the default is declared, everywhere
//! entry h_union : 12 discriminator kinds, default with arbitrary labels or without: the default case is selected with its default value
//! entry h_write : default values can be overwritten and new instances of the same type are not affected
//! entry h_large : new instances of types of 34, 130 and 260 elements or members (11 shapes), over memory used before
//! entry h_bulk : new instances of types of 64 KiB or more, over memory used before
//! entry h_nest : h_new, h_dirty and h_write on chains of 5 and 17 levels of one kind of container (structure, array, sequence, map, union, alias, bounded sequence; derived structure: 5 and 6) or all of them in turn
#include "xt.h"
using namespace xt;
VX_ENTRY(h_new)
{
    T t = pick_type(); if (vx_pick(2, "wrap")) { t = vx_pick(2, "in") ? st({leaf(STR), t, leaf(F64)}) : arr(2, t); }
    DynamicType::Ptr ty = build(t); DynamicData d(*ty), e(*ty); S z = zero(t);
    vx_assert(has(d, t, z), "a new instance holds the default value"); vx_assert(d == e && d.hash() == e.hash(), "new instances are equal"); DynamicData c(d), m(std::move(e)); vx_assert(has(c, t, z) && has(m, t, z), "copies of new instances hold the default value");
    vx_reach("end");
}
VX_ENTRY(h_places)
{
    T c = pick_mid(); prof().elems = 2; prof().chars = 2; S z = zero(c), s = any(c), s2 = any(c);
    switch (vx_pick(7, "place"))
    {
        case 0: { DynamicData d(*build(seq(c))), x(*build(c)); put(x, c, s); d.push(x); d.resize(3); vx_assert(d.size() == 3 && has(d[0], c, s) && has(d[1], c, z) && has(d[2], c, z), "resizing adds default values"); break; }
        case 1: { DynamicData d(*build(seq(c, 3))); d.resize(1); put(d[0], c, s); { DynamicData e(d); } d.resize(3); vx_assert(has(d[0], c, s) && has(d[1], c, z) && has(d[2], c, z), "resizing adds default values"); break; }
        case 2: { DynamicData d(*build(map(leaf(U8), c))), k(primitive_type<uint8_t>()); uint8_t a = vx_any<uint8_t>("k"), b = vx_any<uint8_t>("l"); vx_assume(a != b); k = a; put(d[k], c, s); k = b; d[k]; vx_assert(d.size() == 2 && has(d.at(k), c, z), "a new key has the default value"); k = a; vx_assert(has(d.at(k), c, s), "other keys keep theirs"); break; }
        case 3: { T u = un({leaf(U64), c, leaf(STR)}); DynamicData d(*build(u)); switch (vx_pick(3, "before")) { case 0: break; case 1: d["m0"] = vx_any<uint64_t>("x"); break; default: d["m2"] = std::string(20, 'x'); } vx_assert(has(d["m1"], c, z), "a newly selected member has the default value"); put(d["m1"], c, s); d["m0"]; vx_assert(d["m0"].value<uint64_t>() == 0, "a newly selected member has the default value"); break; }
        case 4: { T f = arr(1, c), t = arr(3, c); DynamicData d(*build(f)); put(d[0], c, s); DynamicData e(d, *build(t)); vx_assert(has(e[0], c, s) && has(e[1], c, z) && has(e[2], c, z), "converting to a longer array adds default values"); break; }
        case 5: { T f = st({leaf(U8), leaf(U16)}), t = st({leaf(U8), leaf(U16), c, leaf(STR), leaf(F64)}); DynamicData d(*build(f)); d[0] = uint8_t(7); DynamicData e(d, *build(t)); S w = zero(t); w.sub[0].lo = 7; vx_assert(has(e, t, w), "converting to a longer structure adds default values"); break; }
        default: { T t = st({leaf(STR), c}); DynamicData d(*build(seq(t))); d.resize(1); put(d[0][1], c, s); DynamicData x(*build(t)); vx_assert(has(x, t, zero(t)), "an instance of a part is new"); d.push(x); vx_assert(has(d[1], t, zero(t)) && has(d[0][1], c, s), "pushing a new instance adds the default value"); }
    }
    (void)s2;
    vx_reach("end");
}
VX_ENTRY(h_dirty)
{
    T t = pick_type(); DynamicType::Ptr ty = build(t); size_t n = ty->memory_size(); uint8_t* a = new uint8_t[n]; vx_make_symbolic(a, n, "memory");
    DynamicData d(*ty); ty->construct_instance(a);
    uint8_t* b = new uint8_t[n]; memset(b, 0, n); ty->construct_instance(b);
    bool un = res(t).k == UNION; (void)un;
    vx_assert(ty->compare_instance(a, b) && ty->compare_instance(b, a), "construction does not depend on the memory"); vx_assert(ty->hash(a) == d.hash(), "an instance constructed over any memory is a new instance");
    ty->destroy_instance(a); ty->destroy_instance(b); delete[] a; delete[] b;
    vx_reach("end");
}
template<class X> static void enu()
{
    EnumerationType<X> e("E"); X a = vx_any<X>("a"), b = vx_any<X>("b"), c = vx_any<X>("c"); vx_assume(a < b && b < c); bool up = vx_pick(2, "names"); e.add_enumerator(up ? "A" : "Z", a); e.add_enumerator("M", b); e.add_enumerator(up ? "Z" : "A", c);
    auto decl = [&](X v) { return v == a || v == b || v == c; };
    DynamicData d(e), s(SequenceType(e).bounds() ? e : e); vx_assert(decl(d.template value<X>()) && d.template value<X>() == e.default_value(), "the default of an enumeration is declared");
    DynamicData q{SequenceType(e)}; q.resize(2); StructType st("S"); st.add_member("x", StringType()); st.add_member("e", e); DynamicData w(st); DynamicData r{ArrayType(e, 2)}; DynamicData al{AliasType(e, "A")};
    vx_assert(decl(q[0].template value<X>()) && decl(q[1].template value<X>()) && decl(w["e"].template value<X>()) && decl(r[1].template value<X>()) && decl(al.template value<X>()), "the default of a part that is an enumeration is declared"); (void)s;
    DynamicType::Ptr p(e); DynamicData k(*p); vx_assert(k.template value<X>() == d.template value<X>(), "clones have the same default");
}
VX_ENTRY(h_enum) { switch (vx_pick(3, "width")) { case 0: enu<uint8_t>(); break; case 1: enu<uint16_t>(); break; default: enu<uint32_t>(); } vx_reach("end"); }
VX_ENTRY(h_union)
{
    static const int ks[12] = {BOOL, I8, U8, I16, U16, I32, U32, I64, U64, C8, C16, WC}; int k = ks[vx_pick(12, "disc")]; bool labelled = vx_pick(2, "labelled"); T c = vx_pick(2, "content") ? leaf(STR) : st({leaf(U8), leaf(STR), leaf(F64)});
    prim(k, [&](auto x) { typedef decltype(x) X; if constexpr (std::is_integral<X>::value) {
        X l = vx_any<X>("label"), o = vx_any<X>("other"); vx_assume(l != o); if (!std::is_same<X, bool>::value) vx_assume(shrink_label(l, sizeof(X)) < default_union_label(sizeof(X)) - 1 && shrink_label(o, sizeof(X)) < default_union_label(sizeof(X)) - 1 && !(l < X(0)) && !(o < X(0)));
        UnionType u("U", primitive_type<X>()); std::vector<X> ls; if (labelled) ls.push_back(l);
        u.add_case_member(std::vector<X>{o}, Member("m0", *build(leaf(U64)))); u.add_case_member(ls, Member("m1", *build(c)), true);
        DynamicData d(u); vx_assert(d.current_case().name() == "m1" && has(d["m1"], c, zero(c)), "a new union selects its default case with its default value");
        X v = d.d().template value<X>(); vx_assert(!(v == o), "a new union has no label of another case"); if (labelled) vx_assert(v == l, "a new union has a label of its default case"); } });
    vx_reach("end");
}
VX_ENTRY(h_write)
{
    T t = pick_type(); prof().elems = 1; prof().chars = 2; S s = any(t), z = zero(t); DynamicType::Ptr ty = build(t); DynamicData d(*ty); put(d, t, s); DynamicData e(*ty); vx_assert(has(e, t, z), "new instances do not depend on earlier ones"); vx_assert(has(d, t, s), "earlier instances keep their value"); { DynamicData x(*ty); put(x, t, s); } DynamicData f(*ty); vx_assert(has(f, t, z), "new instances do not depend on released ones");
    vx_reach("end");
}
VX_ENTRY(h_large)
{
    static const unsigned sizes[3] = {34, 130, 260}; unsigned n = pick_n(sizes); T t = big_type((unsigned)vx_pick(11, "shape"), n); S z = zero(t); DynamicType::Ptr ty = build(t); unsigned c = 0;
    { DynamicData x(*ty); put(x, t, ramp(t, n, c)); } DynamicData d(*ty), e(*ty); vx_assert(has(d, t, z), "a new instance holds the default value"); vx_assert(d == e && d.hash() == e.hash(), "new instances are equal");
    if (res(t).k == SEQ) { d.resize(n); for (unsigned i = 0; i < n; ++i) z.sub.push_back(zero(res(t).sub[0])); vx_assert(has(d, t, z), "resizing adds default values"); }
    size_t m = ty->memory_size(); uint8_t* a = new uint8_t[m]; vx_make_symbolic(a, m, "memory"); ty->construct_instance(a); vx_assert(ty->compare_instance(a, (uint8_t*)e.instance_id()) && ty->hash(a) == e.hash(), "an instance constructed over any memory is a new instance"); ty->destroy_instance(a); delete[] a; vx_reach("end");
}
VX_ENTRY(h_bulk)
{
    Bulk b = pick_bulk(); prof().finite = true; DynamicType::Ptr ty = build(b.t); { DynamicData x(*ty); bulk_put(x, b, b.v); } DynamicData d(*ty);
    switch (b.t.k)
    {
        case SEQ: vx_assert(d.size() == 0, "a new sequence is empty"); d.resize(b.n / 2); d.resize(b.n); break;
        case MAP: vx_assert(d.size() == 0, "a new map is empty"); for (unsigned i = 0; i < b.n; i += 4000) { DynamicData k(primitive_type<uint8_t>()); k = uint8_t(i / 4000); d[k]; } break;
        case UNION: d["m0"]; d["m1"]; break;
        case STR: vx_assert(d.value<std::string>().empty(), "a new string is empty"); break;
        case STR16: vx_assert(d.value<std::u16string>().empty(), "a new string is empty"); break;
    }
    if (b.t.k != STR && b.t.k != STR16) vx_assert(bulk_has(d, b, zero(b.e), false), "new elements hold the default value"); vx_reach("end");
}
VX_ENTRY(h_nest)
{
    nest_mode() = true; switch (vx_pick(3, "what")) { case 0: h_new(); break; case 1: h_dirty(); break; default: h_write(); }
}
