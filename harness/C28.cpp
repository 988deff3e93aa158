// Concurrent readers are race free
//! entry h_data : 13 root shapes x 11 contents with arbitrary values, <= 3 elements, strings <= 17; reading through a constant reference: value, members and elements, size, bounds, comparison with a second value, hash, traversal, iteration, union state
//! entry h_copies : the same; copies, copies of parts, conversions to a value, type compatibility of copies
//! entry h_text : 13 root shapes x 11 contents, numbers and characters arbitrary but without floating point values; text dump
//! entry h_ops : every operator and conversion of DynamicData over two values of each of the 18 leaf kinds, one read by value and one by reference
//! entry h_types : type queries, compatibility, traversal and instances of 13 x 11 types
//! entry h_module : lookups in module trees, scopes, traversal and generation of IDL, over a tree of three modules with every kind of declaration, by names with an arbitrary letter
//! assume no reading thread overlaps with a writing one; the pinned standard library's containers and streams keep their own guarantee; accesses guarded by locks, atomic operations or static initialisation are synchronised
//! entry h_nest : h_data, h_copies and h_types on chains of 5 and 17 levels of one kind of container (structure, array, sequence, map, union, alias, bounded sequence; derived structure: 5 and 6) or all of them in turn
#include "xt.h"
#include <memory>
#include <xtypes/idl/generator.hpp>
using namespace xt; using idl::Module;
// reads everything below d
static uint64_t all(ReadableDynamicDataRef d, const T& t)
{
    uint64_t x = 0;
    switch (t.k)
    {
        case STR: return d.value<std::string>().size() + d.size() + d.bounds();
        case WSTR: return d.value<std::wstring>().size() + d.size() + d.bounds();
        case STR16: return d.value<std::u16string>().size() + d.size() + d.bounds();
        case ENUM: return d.value<uint32_t>();
        case ARR: case SEQ: x = d.size() + d.bounds(); for (size_t i = 0; i < d.size(); ++i) x += all(d[i], t.sub[0]); for (ReadableDynamicDataRef e : d) x += nest_mode() ? e.instance_id() : all(e, t.sub[0]); return x;
        case MAP: x = d.size() + d.bounds(); for (ReadableDynamicDataRef e : d) { x += all(e[0], t.sub[0]) + all(e[1], t.sub[1]); x += nest_mode() ? d.at(e[0]).instance_id() : all(d.at(e[0]), t.sub[1]); } return x;
        case ALIAS: return all(d, t.sub[0]);
        case STRUCT: x = d.size(); for (size_t i = 0; i < t.sub.size(); ++i) { x += all(d[mname(i)], t.sub[i]); x += nest_mode() ? d[i].instance_id() : all(d[i], t.sub[i]); } for (auto&& m : d.items()) x += m.member().name().size() + (uint64_t)m.kind(); return x;
        case UNION: { const Member& m = d.current_case(); x = (uint64_t)d.d().template value<int32_t>(); for (size_t i = 0; i < t.sub.size(); ++i) if (m.name() == mname(i)) x += all(d[mname(i)], t.sub[i]); return x; }
        default: prim(t.k, [&](auto y) { typedef decltype(y) X; x = (uint64_t)sizeof(d.value<X>()); });
    }
    return x;
}
static bool plain(const T& t) { bool ok = t.k != F32 && t.k != F64 && t.k != F128; for (auto& s : t.sub) ok &= plain(s); return ok; }
struct Two { DynamicType::Ptr ty; std::unique_ptr<DynamicData> a, b; T t; S s; };
// lower-case text and one-digit numbers
static void calm(const T& t, const S& s)
{
    if (t.k == ALIAS) return calm(t.sub[0], s);
    for (auto c : s.s) vx_assume(c - 'a' < 26u);
    if (t.k < F32) vx_assume(s.lo < 10); if (t.k == C8 || t.k == C16 || t.k == WC) vx_assume(s.lo - 'a' < 26u);
    for (size_t i = 0; i < s.sub.size(); ++i) if (t.k == MAP) { calm(t.sub[0], s.sub[i].sub[0]); calm(t.sub[1], s.sub[i].sub[1]); } else calm(t.sub[t.k == STRUCT ? i : t.k == UNION ? s.act : 0], s.sub[i]);
}
static Two two(const T& t, bool second, bool mild = false)
{ Two r; r.t = t; r.ty = build(t); r.a.reset(new DynamicData(*r.ty)); S s = any(t); r.s = s; if (mild) calm(t, s); put(*r.a, t, s); if (second) { r.b.reset(new DynamicData(*r.ty)); put(*r.b, t, fresh(t, s)); } return r; }
VX_ENTRY(h_data)
{
    T t = pick_type(); prof() = pick_profile(); Two w = two(t, true); const Two& c = w;
    vx_readers([&]() {
        const DynamicData& d = *c.a; uint64_t x = all(d, c.t); x += d.type().name().size() + d.instance_id();
        (void)(d == *c.b); (void)(d != *c.b); (void)(d.cref() == d); (void)d.hash();
        d.for_each([&](const DynamicData::ReadableNode& n) { x += n.deep() + n.from_index() + n.has_parent() + n.type().name().size() + (n.from_member() ? 1 : 0); if (n.has_parent()) x += n.parent().deep(); x += n.data().instance_id(); });
        d.cref().for_each([&](const DynamicData::ReadableNode&) {});
    });
    vx_assert(has(*w.a, t, w.s), "reading leaves the value as it was"); vx_reach("end");
}
VX_ENTRY(h_copies)
{
    T t = pick_type(); prof() = pick_profile(); Two w = two(t, false); const Two& c = w;
    vx_readers([&]() {
        const DynamicData& d = *c.a; DynamicData x(d), y(d.cref()), z(d, *c.ty); DynamicData e(*c.ty); e = d; e = d.cref(); e.ref() = d;
        const T& r = res(c.t); if (r.k == STRUCT) { DynamicData m(d["m1"]), k(d.type()); m = d["m1"]; } else if (c.t.k == SEQ && d.size()) { DynamicData m(d[0]); SequenceType st(static_cast<const SequenceType&>(*c.ty).content_type()); DynamicData q(st); q.push(d[0]); }
    });
    vx_assert(has(*w.a, t, w.s), "reading leaves the value as it was"); vx_reach("end");
}
VX_ENTRY(h_text)
{
    vx_exact_fmt = 1; T t = pick_type(); if (!plain(t)) return; prof().elems = 1; prof().chars = 2; Two w = two(t, false, true); const Two& c = w;
    vx_readers([&]() { const DynamicData& d = *c.a; (void)d.to_string(); (void)d.cref().to_string(); });
    vx_assert(has(*w.a, t, w.s), "reading leaves the value as it was"); vx_reach("end");
}
template<class F> static void quiet(F f) { try { f(); } catch (const std::exception&) { } }
VX_ENTRY(h_ops)
{
    T t = pick_leaf(); prof().chars = 2; Two w = two(t, true); const Two& c = w; unsigned o = (unsigned)vx_pick(7, "ops");
    // integers: no division by zero, no shift out of range
    if (o == 1) { int k = t.k; if (k != BOOL && k < F32) prim(k, [&](auto x) { typedef decltype(x) X; *w.a = X(vx_below<uint8_t>(100, "a")); *w.b = X(1 + vx_below<uint8_t>(3, "b")); }); else if (k == C8) { *w.a = 'b'; *w.b = char(1); } else if (k == C16) { *w.a = u'b'; *w.b = char16_t(1); } else if (k == WC) { *w.a = L'b'; *w.b = wchar_t(1); } else if (k == BOOL) { *w.a = true; *w.b = true; } else if (k == ENUM) { *w.a = uint32_t(6); *w.b = uint32_t(5); } }
    const unsigned op = o;
    vx_readers([&]() {
        const DynamicData& a = *c.a; const DynamicData& b = *c.b; ReadableDynamicDataRef r = b;
        switch (op)
        {
            case 0: quiet([&]() { (void)(a < r); (void)(a > r); (void)(a <= r); (void)(a >= r); }); (void)(a == r); (void)(a != r); quiet([&]() { (void)!a; }); quiet([&]() { (void)(a && r); }); quiet([&]() { (void)(a || r); }); break;
            case 1: quiet([&]() { (void)(a / r); }); quiet([&]() { (void)(a % r); }); quiet([&]() { (void)(a << r); }); quiet([&]() { (void)(a >> r); }); quiet([&]() { (void)(a + r); }); quiet([&]() { (void)(a - r); }); quiet([&]() { (void)(a * r); }); break;
            case 2: quiet([&]() { (void)(a & r); }); quiet([&]() { (void)(a | r); }); quiet([&]() { (void)(a ^ r); }); quiet([&]() { (void)~a; }); break;
            case 3: quiet([&]() { (void)a.cast<bool>(); }); quiet([&]() { (void)a.cast<uint8_t>(); }); quiet([&]() { (void)a.cast<int64_t>(); }); break;
            case 4: quiet([&]() { (void)a.cast<std::string>(); }); quiet([&]() { (void)r.cast<std::string>(); }); break;
            case 5: quiet([&]() { (void)a.cref().value<uint32_t>(); }); quiet([&]() { (void)a.cref().value<std::string>(); }); quiet([&]() { uint16_t v = a; (void)v; }); quiet([&]() { std::string v = r; }); break;
            default: quiet([&]() { (void)a["m0"]; }); quiet([&]() { (void)a[1]; }); quiet([&]() { (void)a.size(); }); quiet([&]() { (void)a.bounds(); }); quiet([&]() { (void)a.d(); }); quiet([&]() { (void)a.current_case(); }); quiet([&]() { (void)r.at(b); }); break;
        }
    });
    vx_reach("end");
}
static uint64_t describe(const DynamicType& d)
{
    uint64_t x = d.name().size() + d.memory_size() + (uint64_t)d.kind() + d.is_primitive_type() + d.is_aggregation_type() + d.is_constructed_type() + d.is_collection_type() + d.is_enumerated_type();
    if (d.kind() == TypeKind::STRUCTURE_TYPE) { auto& s = static_cast<const StructType&>(d); for (size_t i = 0; i < s.members().size(); ++i) x += s.member(i).name().size() + s.member(s.member(i).name()).offset() + s.has_member("m9") + s.member(i).is_key() + describe(s.member(i).type()); if (s.has_parent()) x += s.parent().members().size(); }
    if (d.kind() == TypeKind::UNION_TYPE) { auto& u = static_cast<const UnionType&>(d); for (auto& n : u.get_case_members()) x += u.get_labels(n).size() + u.is_default(n) + describe(u.member(n).type()); x += u.get_default().size() + describe(u.discriminator()); }
    if (d.kind() == TypeKind::ENUMERATION_TYPE) { auto& e = static_cast<const EnumerationType<uint32_t>&>(d); x += e.enumerators().size() + e.value("B") + e.is_allowed_value(5) + e.enumerator(6).size() + e.default_value() + e.has_enumerator("Z"); }
    if (d.kind() == TypeKind::ALIAS_TYPE) { auto& a = static_cast<const AliasType&>(d); x += describe(*a) + describe(a.rget()) + a->name().size(); }
    if (d.is_collection_type() && d.kind() != TypeKind::STRING_TYPE && d.kind() != TypeKind::WSTRING_TYPE && d.kind() != TypeKind::STRING16_TYPE) x += describe(static_cast<const CollectionType&>(d).content_type());
    return x;
}
VX_ENTRY(h_types)
{
    T t = pick_type(); std::unique_ptr<DynamicType::Ptr> p(new DynamicType::Ptr(build(t))), q(new DynamicType::Ptr(build(ali(t)))); const DynamicType &a = **p, &b = **q; const DynamicType::Ptr& cp = *p;
    vx_readers([&]() {
        uint64_t x = describe(a); x += (uint64_t)a.is_compatible(b) + (uint64_t)b.is_compatible(a) + (uint64_t)a.is_compatible(a);
        a.for_each([&](const DynamicType::TypeNode& n) { x += n.deep() + n.from_index() + n.has_parent() + n.type().memory_size() + (n.from_member() ? n.from_member()->name().size() : 0); });
        DynamicType::Ptr c(cp), e(a); DynamicType::Ptr g; g = c; x += (g == cp) + g->name().size(); DynamicData d(a), f(b);
        StructType s("Holder"); s.add_member("m", a); s.add_member("n", SequenceType(b, 3)); AliasType al(a, "Other"); x += describe(al);
    });
    vx_reach("end");
}
VX_ENTRY(h_module)
{
    vx_exact_fmt = 1; std::unique_ptr<Module> root(new Module()); Module& a = root->create_submodule("A"); Module& b = a.create_submodule("B"); Module& m = vx_pick(2, "in") ? b : a;
    StructType s("S"); s.add_member("x", primitive_type<uint8_t>()); s.add_member("y", StringType(4)); EnumerationType<uint32_t> e("E"); e.add_enumerator("A"); e.add_enumerator("B", 5); e.add_enumerator("C");
    UnionType u("U", e); u.add_case_member(std::vector<int32_t>{0}, Member("p", s)); u.add_case_member(std::vector<int32_t>{5}, Member("q", primitive_type<int16_t>()));
    { EnumerationType<uint32_t> ec("E"); ec.add_enumerator("A"); ec.add_enumerator("B", 5); ec.add_enumerator("C"); DynamicData c(primitive_type<int32_t>()); c = int32_t(7); m.structure(StructType(s)); m.enum_32(std::move(ec)); m.union_switch(UnionType(u)); m.create_alias(DynamicType::Ptr(SequenceType(s, 2)), "L"); m.create_constant("K", c); }
    static const char* const forms[5] = {"", "A::", "::A::", "A::B::", "B::"}; std::unique_ptr<std::string> q(new std::string(forms[vx_pick(5, "form")]));
    switch (vx_pick(6, "name")) { case 0: q->push_back('S'); break; case 1: q->push_back('U'); break; case 2: q->push_back('E'); break; case 3: q->push_back('L'); break; case 4: q->push_back('K'); break; default: { char c = vx_any<char>("letter"); vx_assume(c >= 'A' && c <= 'Z'); q->push_back(c); } }
    const Module& from = *(vx_pick(2, "from") ? (const Module*)root.get() : &b); const Module& r = *root; const std::string& n = *q;
    vx_readers([&]() {
        uint64_t x = from.has_symbol(n) + from.has_symbol(n, false) + from.symbol_count(n) + from.name().size() + from.scope().size() + r.has_submodule("A") + r["A"].has_submodule("B") + from.is_const_from_enum(n);
        if (from.has_structure(n)) x += describe(from.structure(n)); if (from.has_union(n)) x += describe(from.union_switch(n)); if (from.has_enum_32(n)) x += describe(from.enum_32(n)); if (from.has_alias(n)) x += describe(from.alias(n)); if (from.has_constant(n)) x += from.constant(n).value<int32_t>();
        quiet([&]() { (void)from.structure(n); });
        r.for_each([&](const Module& y) { x += y.name().size(); }); r.for_each_submodule([&](const Module& y) { x += y.scope().size(); }, true);
        x += r.get_all_types().size() + r.get_all_types(true).size() + idl::generator::module(r).size();
    });
    vx_reach("end");
}
VX_ENTRY(h_nest)
{
    nest_mode() = true; switch (vx_pick(3, "what")) { case 0: h_data(); break; case 1: h_copies(); break; default: h_types(); }
}
