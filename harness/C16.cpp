// Types are values
//! entry h_ptr : 13 root shapes x 11 contents, copied and moved through DynamicType::Ptr in 6 ways, origin destroyed, then described and used with arbitrary values
//! entry h_concrete : copies and moves of 12 concrete types (heap-allocated origin destroyed), described and used
//! entry h_late : structures, unions and enumerations changed (members, cases, enumerators, name) after being copied, contained in 9 ways or instantiated
//! entry h_back : changing a copy does not change its origin
//! entry h_extend : copies can be extended exactly like their origin and their instances work
//! entry h_data : data outlives its type, the types of its parts, and other data of the same type
//! entry h_member : member annotations, names and types are kept by copies of the member and of the structure
//! entry h_large : types of 34 and 130 elements or members (11 shapes), an enumeration and a union of that size, copied and moved in 6 ways, described and used after the origin is gone
//! leaks
//! entry h_share : a structure, union or enumeration held by two pointers (copied in 8 ways) and changed through one of them, or by a pointer and data, a container or a module
//! entry h_nest : h_ptr and h_data on chains of 5 and 17 levels of one kind of container (structure, array, sequence, map, union, alias, bounded sequence; derived structure: 5 and 6) or all of them in turn
#include "xt.h"
#include <memory>
using namespace xt;
static bool is(const DynamicType& d, const T& t)
{
    switch (t.k)
    {
        case STR: return d.kind() == TypeKind::STRING_TYPE && static_cast<const StringType&>(d).bounds() == t.n;
        case WSTR: return d.kind() == TypeKind::WSTRING_TYPE && static_cast<const WStringType&>(d).bounds() == t.n;
        case STR16: return d.kind() == TypeKind::STRING16_TYPE && static_cast<const String16Type&>(d).bounds() == t.n;
        case ENUM: { if (d.kind() != TypeKind::ENUMERATION_TYPE || d.name() != "E" || d.memory_size() != 4) return false; auto& e = static_cast<const EnumerationType<uint32_t>&>(d); return e.enumerators().size() == 3 && e.has_enumerator("A") && e.value("A") == 0 && e.value("B") == 5 && e.value("C") == 6 && e.default_value() == 0; }
        case ARR: { if (d.kind() != TypeKind::ARRAY_TYPE) return false; auto& a = static_cast<const ArrayType&>(d); return a.dimension() == t.n && is(a.content_type(), t.sub[0]); }
        case SEQ: { if (d.kind() != TypeKind::SEQUENCE_TYPE) return false; auto& a = static_cast<const SequenceType&>(d); return a.bounds() == t.n && is(a.content_type(), t.sub[0]); }
        case MAP: { if (d.kind() != TypeKind::MAP_TYPE) return false; auto& a = static_cast<const MapType&>(d); auto& p = static_cast<const PairType&>(a.content_type()); return a.bounds() == t.n && is(p.first(), t.sub[0]) && is(p.second(), t.sub[1]); }
        case ALIAS: return d.kind() == TypeKind::ALIAS_TYPE && d.name() == "Al" && is(static_cast<const AliasType&>(d).get(), t.sub[0]);
        case STRUCT:
        {
            if (d.kind() != TypeKind::STRUCTURE_TYPE || d.name() != "S") return false; auto& s = static_cast<const StructType&>(d);
            if (s.members().size() != t.sub.size() || s.has_parent() != (t.n != 0)) return false; size_t off = 0;
            if (t.n && (s.parent().name() != "P" || s.parent().members().size() != t.n)) return false;
            for (size_t i = 0; i < t.sub.size(); ++i) { const Member& m = s.member(i); if (m.name() != mname(i) || m.offset() != off || !is(m.type(), t.sub[i]) || &s.member(mname(i)) != &m) return false; off += m.type().memory_size(); }
            return d.memory_size() == off;
        }
        case UNION:
        {
            if (d.kind() != TypeKind::UNION_TYPE || d.name() != "U") return false; auto& u = static_cast<const UnionType&>(d);
            if (u.get_case_members().size() != t.sub.size() || u.discriminator().kind() != TypeKind::INT_32_TYPE || u.get_default() != (t.n ? "m0" : "")) return false;
            for (size_t i = 0; i < t.sub.size(); ++i) { auto l = u.get_labels(mname(i)); if (l.size() != 2 || l[0] != int64_t(10 * i) || l[1] != int64_t(10 * i + 1) || !is(u.member(mname(i)).type(), t.sub[i]) || u.is_default(mname(i)) != (t.n && i == 0)) return false; }
            return true;
        }
    }
    bool ok = false; prim(t.k, [&](auto x) { ok = d.kind() == primitive_type<decltype(x)>().kind() && d.memory_size() == sizeof(x); }); return ok;
}
static void use(const DynamicType& d, const T& t)
{
    Profile o = prof(); prof().elems = 1; prof().chars = 2; S s = any(t); prof() = o;
    DynamicData x(d); put(x, t, s); vx_assert(has(x, t, s), "data of the copied type works"); DynamicData y(x); vx_assert(has(y, t, s), "copies of data of the copied type work");
}
VX_ENTRY(h_ptr)
{
    T t = pick_type(); DynamicType::Ptr c; unsigned way = (unsigned)vx_pick(6, "way");
    {
        std::unique_ptr<DynamicType::Ptr> o(new DynamicType::Ptr(build(t)));
        if (way == 0) { DynamicType::Ptr x(*o); c = std::move(x); }
        else if (way == 1) c = *o;
        else if (way == 2) { c = DynamicType::Ptr(StringType(7)); c = *o; }
        else if (way == 3) { DynamicType::Ptr x(**o); c = std::move(x); }
        else if (way == 4) c = std::move(*o);
        else { c = *o; DynamicType::Ptr& self = c; c = self; }
        if (way != 4) vx_assert(is(**o, t), "copying leaves the origin as it was");
    }
    vx_assert(c.get() != nullptr && is(*c, t), "the copy describes the same type after its origin is gone");
    vx_assert(c->is_compatible(*build(t)) == TypeConsistency::EQUALS, "the copy is equal to the type");
    use(*c, t);
    vx_reach("end");
}
template<class X> static void copies(X* o, const T& t)
{
    std::unique_ptr<X> origin(o); unsigned way = (unsigned)vx_pick(3, "way");
    vx_assert(is(*origin, t), "the origin describes the type");
    if (way == 0) { X c(*origin); vx_assert(is(*origin, t), "copying leaves the origin as it was"); origin.reset(); vx_assert(is(c, t), "the copy describes the same type"); use(c, t); }
    else if (way == 1) { X c(std::move(*origin)); origin.reset(); vx_assert(is(c, t), "the moved type describes the same type"); use(c, t); }
    else { std::unique_ptr<X> c(new X(*origin)); X d(*c); c.reset(); origin.reset(); X e(d); vx_assert(is(d, t) && is(e, t), "copies of copies describe the same type"); use(e, t); }
}
VX_ENTRY(h_concrete)
{
    T in = pick_mid(), t;
    switch (vx_pick(8, "type"))
    {
        case 0: { t = st({leaf(U8), in}); StructType* s = new StructType("S"); s->add_member("m0", *build(leaf(U8))); s->add_member("m1", *build(in)); copies(s, t); break; }
        case 1: { t = der(1, {in, leaf(STR)}); std::unique_ptr<StructType> p(new StructType("P")); p->add_member("m0", *build(in)); StructType* s = new StructType("S", p.get()); p.reset(); s->add_member("m1", *build(leaf(STR))); copies(s, t); break; }
        case 2: { t = un({in, leaf(STR)}); bool def = vx_pick(2, "def"); t.n = def; UnionType* u = new UnionType("U", primitive_type<int32_t>()); u->add_case_member(std::vector<int32_t>{0, 1}, "m0", *build(in), def); u->add_case_member(std::vector<int32_t>{10, 11}, "m1", *build(leaf(STR))); copies(u, t); break; }
        case 3: t = seq(in, 3); copies(new SequenceType(*build(in), 3), t); break;
        case 4: t = arr(2, in); copies(new ArrayType(*build(in), 2), t); break;
        case 5: t = map(leaf(U16), in, 3); copies(new MapType(*build(leaf(U16)), *build(in), 3), t); break;
        case 6: t = ali(in); copies(new AliasType(build(in), "Al"), t); break;
        default: if (vx_pick(2, "wide")) { t = leaf(WSTR, 5); copies(new WStringType(5), t); } else { t = leaf(STR, 5); copies(new StringType(5), t); }
    }
    vx_reach("end");
}
static StructType mks() { StructType s("S"); s.add_member("m0", primitive_type<uint8_t>()); s.add_member("m1", StringType()); return s; }
static UnionType mku() { UnionType u("U", primitive_type<int32_t>()); u.add_case_member(std::vector<int32_t>{0, 1}, "m0", StringType()); u.add_case_member(std::vector<int32_t>{10, 11}, "m1", primitive_type<uint8_t>()); return u; }
static void mke(EnumerationType<uint32_t>& e) { e.add_enumerator("A"); e.add_enumerator("B", 5); e.add_enumerator("C"); }
static const T TS = st({leaf(U8), leaf(STR)}), TU = un({leaf(STR), leaf(U8)}), TE = leaf(ENUM);
template<class X, class F> static void late(X& o, const T& t, F change)
{
    S s; { Profile p = prof(); prof().elems = 1; prof().chars = 2; s = any(t); prof() = p; }
    unsigned w = (unsigned)vx_pick(9, "holder");
    if (w == 0) { DynamicType::Ptr c(o); change(o); vx_assert(is(*c, t), "a copy keeps describing the type it copied"); use(*c, t); }
    else if (w == 1) { DynamicData d(o); put(d, t, s); change(o); vx_assert(is(d.type(), t) && has(d, t, s), "data keeps its type and value"); DynamicData e(d); vx_assert(has(e, t, s) && is(e.type(), t), "copies of the data keep its type"); }
    else
    {
        T c; DynamicType::Ptr p;
        switch (w)
        {
            case 2: c = seq(t, 2); p = DynamicType::Ptr(SequenceType(o, 2)); break;
            case 3: c = arr(2, t); p = DynamicType::Ptr(ArrayType(o, 2)); break;
            case 4: c = map(leaf(U8), t); p = DynamicType::Ptr(MapType(primitive_type<uint8_t>(), o)); break;
            case 5: c = ali(t); p = DynamicType::Ptr(AliasType(o, "Al")); break;
            case 6: { c = st({t, leaf(U8)}); StructType h("S"); h.add_member("m0", o); h.add_member("m1", primitive_type<uint8_t>()); p = DynamicType::Ptr(h); break; }
            case 7: { c = un({t}); UnionType h("U", primitive_type<int32_t>()); h.add_case_member(std::vector<int32_t>{0, 1}, "m0", o); p = DynamicType::Ptr(h); break; }
            default: { c = st({leaf(U8), t}); Member m("m1", o); StructType h("S"); h.add_member("m0", primitive_type<uint8_t>()); change(o); h.add_member(m); p = DynamicType::Ptr(h); }
        }
        DynamicData d(*p); if (w != 8) change(o);
        vx_assert(is(*p, c), "a type keeps describing the types it contains"); use(*p, c); vx_assert(is(d.type(), res(c)), "data of a containing type keeps its type");
    }
}
VX_ENTRY(h_late)
{
    unsigned ch = (unsigned)vx_pick(2, "change");
    switch (vx_pick(4, "origin"))
    {
        case 0: { StructType s = mks(); late(s, TS, [&](StructType& x) { if (ch) x.name("Z"); else x.add_member("more", SequenceType(StringType())); }); if (!ch) vx_assert(s.members().size() == 3, "the origin changed"); break; }
        case 1: { UnionType u = mku(); late(u, TU, [&](UnionType& x) { if (ch) x.name("Z"); else x.add_case_member(std::vector<int32_t>{20}, "more", SequenceType(StringType()), true); }); break; }
        case 2: { EnumerationType<uint32_t> e("E"); mke(e); late(e, TE, [&](EnumerationType<uint32_t>& x) { if (ch) x.name("Z"); else x.add_enumerator("D", 9); }); break; }
        default: { StructType p("P"); p.add_member("m0", primitive_type<uint8_t>()); StructType s("S", &p); T t = der(1, {leaf(U8), leaf(STR)}); if (ch) p.name("Z"); else p.add_member("more", StringType()); s.add_member("m1", StringType()); vx_assert(is(s, t), "a derived structure keeps the parent it was given"); use(s, t); }
    }
    vx_reach("end");
}
VX_ENTRY(h_back)
{
    switch (vx_pick(4, "origin"))
    {
        case 0: { StructType s = mks(); DynamicData d(s); StructType c(s); c.add_member("more", StringType()); c.name("Z"); vx_assert(is(s, TS) && is(d.type(), TS), "changing a copy leaves the origin"); use(s, TS); break; }
        case 1: { UnionType u = mku(); DynamicData d(u); UnionType c(u); c.add_case_member(std::vector<int32_t>{20}, "more", primitive_type<double>(), true); vx_assert(is(u, TU) && is(d.type(), TU), "changing a copy leaves the origin"); use(u, TU); break; }
        case 2: { EnumerationType<uint32_t> e("E"); mke(e); DynamicType::Ptr c(e), k(c); DynamicData d(*c); static_cast<EnumerationType<uint32_t>*>(c.operator->())->add_enumerator("D"); vx_assert(is(e, TE) && is(*k, TE), "changing a copy leaves the origin"); use(e, TE); use(*k, TE); break; }
        default: { DynamicType::Ptr a(mks()), b(a); b->name("Z"); static_cast<StructType*>(b.operator->())->add_member("more", primitive_type<double>()); vx_assert(is(*a, TS), "changing a copy leaves the origin"); use(*a, TS); }
    }
    vx_reach("end");
}
VX_ENTRY(h_share)
{
    unsigned o = (unsigned)vx_pick(3, "origin"), way = (unsigned)vx_pick(12, "way"); bool rename = vx_pick(2, "rename"), copied = vx_pick(2, "copied");
    EnumerationType<uint32_t> e("E"); mke(e); StructType s = mks(); UnionType u = mku(); const T& t = o == 0 ? TS : o == 1 ? TU : TE;
    const DynamicType& src = o == 0 ? (const DynamicType&)s : o == 1 ? (const DynamicType&)u : e;
    auto change = [&](DynamicType::Ptr& p) { if (rename) p->name("Z"); else if (o == 0) static_cast<StructType*>(p.operator->())->add_member("more", SequenceType(StringType())); else if (o == 1) static_cast<UnionType*>(p.operator->())->add_case_member(std::vector<int32_t>{20}, "more", primitive_type<double>(), true); else static_cast<EnumerationType<uint32_t>*>(p.operator->())->add_enumerator("D", 9); };
    DynamicType::Ptr a(src), c;
    switch (way)
    {
        case 0: c = a; break; case 1: { DynamicType::Ptr x(a); c = std::move(x); break; } case 2: c = DynamicType::Ptr(*a); break; case 3: c = DynamicType::Ptr(StringType()); c = a; break;
        case 4: { std::vector<DynamicType::Ptr> v(2, a), w(v); w[0] = v[1]; c = w[0]; change(v[1]); break; } case 5: { const DynamicType::Ptr& r = a; DynamicType::Ptr x; x = r; c = x; change(x); break; }
        case 6: { DynamicType::Ptr x; x = a; DynamicType::Ptr y(std::move(x)); c = y; change(y); break; } case 7: { c = a; DynamicType::Ptr x(c); c = a; change(x); break; }
        case 8: { DynamicData d(*a); c = DynamicType::Ptr(d.type()); change(c); vx_assert(is(d.type(), t), "data keeps its type"); use(d.type(), t); c = a; break; }
        case 9: { SequenceType q(*a, 2); c = DynamicType::Ptr(q.content_type()); change(c); vx_assert(is(q, seq(t, 2)), "a container keeps its content type"); c = a; break; }
        case 10: { StructType h("S"); h.add_member("m0", *a); c = DynamicType::Ptr(h.member(0).type()); change(c); vx_assert(is(h, st({t})), "a structure keeps the type of its member"); c = a; break; }
        default: { Member m("m", *a), n(m); c = DynamicType::Ptr(n.type()); change(c); vx_assert(is(m.type(), t) && is(n.type(), t), "a member keeps its type"); c = a; break; }
    }
    change(copied ? c : a); DynamicType::Ptr& kept = copied ? a : c;
    vx_assert(is(*kept, t) && is(src, t), "changing one copy leaves the other"); use(*kept, t);
    vx_reach("end");
}
VX_ENTRY(h_extend)
{
    bool gone = vx_pick(2, "gone"); uint32_t v = vx_any<uint32_t>("v");
    switch (vx_pick(3, "origin"))
    {
        case 0:
        {
            T t = st({leaf(U8), leaf(STR), seq(leaf(STR)), leaf(F64)}); std::unique_ptr<StructType> o(new StructType(mks())); StructType c(*o); if (gone) o.reset();
            c.add_member("m2", SequenceType(StringType())); c.add_member("m3", primitive_type<double>()); vx_assert(is(c, t), "an extended copy has the old and the new members"); use(c, t); vx_assert(vx_throws([&]() { c.add_member("m0", StringType()); }), "names stay unique"); break;
        }
        case 1:
        {
            T t = un({leaf(STR), leaf(U8), leaf(F128)}); std::unique_ptr<UnionType> o(new UnionType(mku())); UnionType c(*o); if (gone) o.reset();
            vx_assert(vx_throws([&]() { c.add_case_member(std::vector<int32_t>{11}, "x", StringType()); }), "labels stay unique");
            c.add_case_member(std::vector<int32_t>{20, 21}, "m2", primitive_type<long double>()); vx_assert(is(c, t), "an extended copy has the old and the new cases"); use(c, t); break;
        }
        default:
        {
            std::unique_ptr<EnumerationType<uint32_t> > o(new EnumerationType<uint32_t>("E")); mke(*o); DynamicType::Ptr p(*o); if (gone) o.reset();
            auto* c = static_cast<EnumerationType<uint32_t>*>(p.operator->());
            bool threw = vx_throws([&]() { c->add_enumerator("D", v); }); vx_assert(threw == (v < 7), "enumerators keep growing in a copy");
            if (!threw) { DynamicData d(*p); d = v; vx_assert(d.value<uint32_t>() == v && c->value("D") == v, "the new enumerator can be used"); bool full = vx_throws([&]() { c->add_enumerator("F"); }); vx_assert(full == (v == 0xffffffffu) && (full || c->value("F") == v + 1), "the next enumerator follows"); }
        }
    }
    vx_reach("end");
}
VX_ENTRY(h_data)
{
    T t = pick_type(); prof().elems = 1; prof().chars = 2; prof().finite = true; S s = any(t); std::unique_ptr<DynamicType::Ptr> o(new DynamicType::Ptr(build(t)));
    std::unique_ptr<DynamicData> a(new DynamicData(**o)); put(*a, t, s); unsigned w = (unsigned)vx_pick(4, "way");
    if (w == 0) { o.reset(); vx_assert(has(*a, t, s), "data outlives its type"); DynamicData b(*a); a.reset(); vx_assert(has(b, t, s), "a copy outlives both"); put(b, t, fresh(t, s)); }
    else if (w == 1) { DynamicData b(std::move(*a)); o.reset(); a.reset(); vx_assert(has(b, t, s), "moved data outlives its origin"); DynamicData c(b.type()); put(c, t, s); vx_assert(has(c, t, s) && c == b, "the type of data can be used to create more"); }
    else if (w == 2) { DynamicData b(*a, a->type()); o.reset(); a.reset(); vx_assert(has(b, t, s), "converted data outlives its origin"); }
    else { DynamicType::Ptr k(a->type()); a.reset(); o.reset(); vx_assert(is(*k, res(t)), "the type of data outlives the data"); use(*k, res(t)); }
    vx_reach("end");
}
VX_ENTRY(h_member)
{
    int32_t id = vx_any<int32_t>("id"); bool key = vx_any<bool>("key"), opt = vx_any<bool>("opt"); T t = pick_mid(); std::unique_ptr<Member> o(new Member("m0", *build(t)));
    vx_assert(!o->has_id() && !o->is_key() && !o->is_optional(), "a new member has no annotations");
    o->id(id).key(key).optional(opt); auto ok = [&](const Member& m) { return m.name() == "m0" && m.get_id() == id && m.has_id() == (id >= 0) && m.is_key() == key && m.is_optional() == opt && is(m.type(), t); };
    vx_assert(ok(*o), "annotations are kept"); Member c(*o); StructType s("S"); s.add_member(*o); s.add_member(Member("m1", StringType())); o->id(id ^ 1).key(!key).optional(!opt); Member moved(std::move(*o)); o.reset();
    vx_assert(ok(c), "a copied member keeps its annotations"); vx_assert(ok(s.member("m0")) && ok(s.member(0)), "a structure keeps the annotations of its members");
    vx_assert(!s.member(1).has_id() && !s.member(1).is_key() && !s.member(1).is_optional(), "members do not share annotations");
    StructType d(s), e("E", &s); DynamicType::Ptr p(s); vx_assert(ok(d.member(0)) && ok(e.member(0)) && ok(static_cast<const StructType&>(*p).member(0)) && ok(e.parent().member(0)), "copies and derived structures keep them");
    vx_assert(moved.is_key() == !key && moved.name() == "m0" && is(moved.type(), t), "a moved member is the member");
    vx_reach("end");
}
VX_ENTRY(h_large)
{
    static const unsigned sizes[3] = {34, 130, 260}; unsigned n = sizes[vx_pick(2, "n")], shape = (unsigned)vx_pick(13, "shape"), way = (unsigned)vx_pick(6, "way");
    auto move = [&](std::unique_ptr<DynamicType::Ptr> o) { DynamicType::Ptr c; if (way == 0) { DynamicType::Ptr x(*o); c = std::move(x); } else if (way == 1) c = *o; else if (way == 2) { c = DynamicType::Ptr(StringType(7)); c = *o; } else if (way == 3) { DynamicType::Ptr x(**o); c = std::move(x); } else if (way == 4) c = std::move(*o); else { StructType s("S"); s.add_member("m0", **o); c = DynamicType::Ptr(s.member("m0").type()); } return c; };
    if (shape == 12)
    {
        EnumerationType<uint32_t> e("E"); for (unsigned i = 0; i < n; ++i) e.add_enumerator(mname(i), i * 3 + 1); DynamicType::Ptr c = move(std::unique_ptr<DynamicType::Ptr>(new DynamicType::Ptr(e))); vx_assert(c->kind() == TypeKind::ENUMERATION_TYPE, "the copy is an enumeration");
        auto& f = static_cast<const EnumerationType<uint32_t>&>(*c); bool ok = f.enumerators().size() == n; for (unsigned i = 0; i < n; ++i) ok &= f.value(mname(i)) == i * 3 + 1; vx_assert(ok, "every enumerator is kept"); uint32_t v = vx_any<uint32_t>("v"); DynamicData d(*c); vx_assert(vx_throws([&]() { d = v; }) == !(v % 3 == 1 && v < n * 3), "the copy accepts the same values"); vx_reach("end"); return;
    }
    T t = shape == 11 ? un({}) : big_type(shape, n); if (shape == 11) { static const int k[3] = {STR, U8, F64}; for (unsigned i = 0; i < n; ++i) t.sub.push_back(leaf(k[i % 3])); t.n = 1; }
    DynamicType::Ptr c = move(std::unique_ptr<DynamicType::Ptr>(new DynamicType::Ptr(build(t)))); vx_assert(is(*c, t), "the copy describes the same type after its origin is gone");
    unsigned k = 0; S s = ramp(t, n, k); prof().elems = 1; prof().chars = 2; if (t.k == UNION) s.sub[0] = any(t.sub[s.act]); else part(t, s, n - 1) = any(child(t, n - 1)); DynamicData x(*c); put(x, t, s); vx_assert(has(x, t, s), "data of the copied type works"); vx_reach("end");
}
VX_ENTRY(h_nest)
{
    nest_mode() = true; switch (vx_pick(2, "what")) { case 0: h_ptr(); break; default: h_data(); }
}
