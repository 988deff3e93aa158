// Structure members: layout, lookup and inheritance
//! entry h_layout : structures of 1..4 members, each any of 8 member types (thorough: 1..5 of 12); members disjoint and inside, name and index reach the same member, one arbitrary member written
//! entry h_alltypes : structures of three members: every pair of 27 member types (all leaves, bounded and unbounded strings and containers, pairs of structures, a union, aliases) and a third small one, with 0..2 of them inherited; layout, lookup, and one member written
//! entry h_names : two member names of length 0..2 with arbitrary characters; the second is accepted exactly when it differs, a rejected one changes nothing
//! entry h_inherit : inheritance chains of depth 1..3 with 0..2 members per level of 6 member types; order, offsets, values through the parent, later changes of the parent
//! entry h_member : member attributes (id, key, optional, type) of every member of a structure, arbitrary id values; members added through every overload
//! entry h_nested : structure in structure in array in structure, two members of arbitrary kinds; every leaf written through one path and read through the other
//! entry h_large : structures of 34, 130 and 260 members, plain or with half of them inherited
//! entry h_wide : sizes and offsets of structures with arrays of any dimension up to 2^32-1 (the outer dimension of two is 65536; in a union or not) of 4 contents
#include "xt.h"
#include <memory>
using namespace xt;
static T pick_m()
{
#ifdef VX_THOROUGH
    unsigned n = 12;
#else
    unsigned n = 8;
#endif
    switch (vx_pick(n, "m"))
    {
        case 0: return leaf(U8); case 1: return leaf(I64); case 2: return leaf(STR); case 3: return seq(leaf(U8)); case 4: return arr(3, leaf(U16));
        case 5: return st({leaf(BOOL), leaf(F64)}); case 6: return map(leaf(U8), leaf(STR)); case 7: return ali(leaf(C16)); case 8: return leaf(F128);
        case 9: { T u = un({leaf(STR), leaf(U8)}); u.n = 1; return u; } case 10: return leaf(WSTR); default: return leaf(ENUM);
    }
}
static T pick_s() { switch (vx_pick(6, "s")) { case 0: return leaf(U8); case 1: return leaf(STR); case 2: return leaf(F32); case 3: return seq(leaf(I16)); case 4: return st({leaf(STR), leaf(U8)}); default: return arr(2, leaf(I32)); } }
static void layout(const StructType& s, size_t n)
{
    size_t total = 0; bool ok = s.members().size() == n;
    for (size_t i = 0; ok && i < n; ++i)
    {
        const Member& a = s.member(i);
        ok &= a.offset() + a.type().memory_size() <= s.memory_size();
        for (size_t j = 0; j < i; ++j) { const Member& b = s.member(j); ok &= a.offset() >= b.offset() + b.type().memory_size() || b.offset() >= a.offset() + a.type().memory_size(); }
        ok &= &s.member(a.name()) == &a && s.has_member(a.name());
        total += a.type().memory_size();
    }
    vx_assert(ok && total <= s.memory_size(), "members are disjoint, inside the structure, and found by name");
}
VX_ENTRY(h_layout)
{
#ifdef VX_THOROUGH
    size_t n = 1 + vx_pick(5, "n");
#else
    size_t n = 1 + vx_pick(4, "n");
#endif
    prof().elems = 1; prof().chars = 1;
    T t = st({}); for (size_t i = 0; i < n; ++i) t.sub.push_back(pick_m());
    DynamicType::Ptr ty = build(t);
    layout(static_cast<const StructType&>(*ty), n);
    DynamicData d(*ty);
    bool same_ref = d.size() == n; for (size_t i = 0; i < n; ++i) same_ref &= d[i].instance_id() == d[mname(i)].instance_id() && d[i].type().kind() == build(res(t.sub[i]))->kind();
    vx_assert(same_ref, "index and name reach the same member, of its declared type");
    size_t w = vx_pick(n, "w");
    S s = zero(t); for (auto& x : t.sub) if (x.k == ENUM) (void)x;
    s.sub[w] = any(t.sub[w]); put(d[w], t.sub[w], s.sub[w]);
    vx_assert(has(d, t, s), "writing one member changes only that member");
    vx_reach("end");
}
static T any_member(const char* n)
{
    unsigned k = (unsigned)vx_pick(27, n);
    static const xt::K leaves[] = {BOOL, I8, U8, I16, U16, I32, U32, I64, U64, F32, F64, F128, C8, C16, WC, ENUM, STR, WSTR, STR16};
    if (k < 19) return leaf(leaves[k]);
    switch (k)
    {
        case 19: return arr(3, leaf(F128)); case 20: return seq(leaf(I32)); case 21: return seq(leaf(STR), 2); case 22: return map(leaf(U8), leaf(I16)); case 23: return st({leaf(U8), leaf(F128), leaf(U8)});
        case 24: { T u = un({leaf(STR), leaf(U8)}); u.n = 1; return u; } case 25: return ali(leaf(I64)); default: return arr(2, leaf(STR));
    }
}
VX_ENTRY(h_alltypes)
{
    prof().elems = 1; prof().chars = 1; prof().finite = true;
    T t = st({any_member("a"), any_member("b"), vx_pick(2, "c") ? leaf(U16) : leaf(F128)}); size_t inherited = vx_pick(3, "inherited");
    StructType p("P"), q("Q");
    for (size_t i = 0; i < inherited; ++i) p.add_member(mname(i), *build(t.sub[i]));
    StructType d1("D", &p); const StructType& s = d1;
    for (size_t i = inherited; i < 3; ++i) d1.add_member(mname(i), *build(t.sub[i]));
    layout(p, inherited); layout(s, 3);
    DynamicData d(s); size_t w = vx_pick(2, "w");
    S v = zero(t); put(d["m2"], t.sub[2], v.sub[2] = any(t.sub[2])); put(d[w], t.sub[w], v.sub[w] = any(t.sub[w]));
    vx_assert(has(d[mname(w)], t.sub[w], v.sub[w]) && has(d[2], t.sub[2], v.sub[2]) && has(d[1 - w], t.sub[1 - w], v.sub[1 - w]), "members hold their own values");
    vx_reach("end");
}
static std::string name(unsigned max) { unsigned n = (unsigned)vx_pick(max + 1, "len"); std::string s; for (unsigned i = 0; i < n; ++i) s.push_back(vx_any<char>("ch")); return s; }
VX_ENTRY(h_names)
{
    std::string a = name(2), b = name(2); bool eq = a == b;
    StructType p("P"), *par = nullptr; bool inherit = vx_pick(2, "inherit");
    p.add_member(a, primitive_type<uint32_t>());
    if (inherit) par = &p;
    StructType s("S", par);
    if (!inherit) s.add_member(a, primitive_type<uint32_t>());
    size_t before = s.memory_size();
    bool threw = vx_throws([&]() { switch (vx_pick(3, "how")) { case 0: s.add_member(b, primitive_type<int16_t>()); break; case 1: s.add_member(Member(b, StringType())); break; default: s.add_member(b, SequenceType(primitive_type<char>())); } });
    vx_assert(threw == eq, "a member name is accepted exactly when it is new");
    vx_assert(s.has_member(a) && s.has_member(b) && s.members().size() == (eq ? 1u : 2u), "exactly the accepted members are declared");
    if (eq) vx_assert(s.memory_size() == before && s.member(0).type().kind() == TypeKind::UINT_32_TYPE, "a rejected member changes nothing");
    else vx_assert(s.member(1).name() == b && s.member(0).name() == a, "members keep their names and order");
    std::string c = name(2); bool known = c == a || c == b;
    vx_assert(s.has_member(c) == known && vx_throws([&]() { s.member(c); }) == !known, "lookup finds exactly the declared names");
    size_t i = vx_any<size_t>("i");
    vx_assert(vx_throws([&]() { s.member(i); }) == !(i < s.members().size()), "lookup by index accepts exactly the declared indexes");
    vx_reach("end");
}
VX_ENTRY(h_inherit)
{
    unsigned depth = 1 + (unsigned)vx_pick(3, "depth"); prof().elems = 1; prof().chars = 1;
    std::vector<std::unique_ptr<StructType>> ty; std::vector<std::vector<T>> own; T t = st({});
    const StructType* parent = nullptr;
    for (unsigned l = 0; l <= depth; ++l)
    {
        ty.emplace_back(new StructType("L" + mname(l), parent));
        unsigned n = (unsigned)vx_pick(depth > 2 ? 2 : 3, "members");
        for (unsigned i = 0; i < n; ++i) { T m = depth > 1 ? (vx_pick(2, "s") ? leaf(STR) : leaf(U16)) : pick_s(); ty.back()->add_member(mname(t.sub.size()), *build(m)); t.sub.push_back(m); }
        parent = ty.back().get();
        layout(*parent, t.sub.size());
    }
    const StructType& last = *ty.back(); const StructType& base = *ty[0];
    vx_assert(last.has_parent() && last.parent().name() == ty[depth - 1]->name() && !base.has_parent(), "the parent is the declared one");
    bool ok = true;
    for (size_t i = 0; i < t.sub.size(); ++i) ok &= last.member(i).name() == mname(i);
    for (size_t i = 0; i < base.members().size(); ++i) ok &= last.member(i).name() == base.member(i).name() && last.member(i).offset() == base.member(i).offset() && last.member(i).type().kind() == base.member(i).type().kind();
    vx_assert(ok, "inherited members come first, in order, at the place the parent has them");
    if (t.sub.empty()) { vx_reach("end"); return; }
    DynamicData d(last); S s = any(t); put(d, t, s);
    vx_assert(has(d, t, s), "all members, inherited or not, hold their values");
    size_t nb = base.members().size();
    if (nb > 1 || (nb == 1 && t.sub.size() == 1))
    {
        DynamicData up(d, base); bool good = up.size() == nb; for (size_t i = 0; i < nb; ++i) good &= has(up[i], t.sub[i], s.sub[i]);
        vx_assert(good, "the parent part holds the same values");
    }
    ty[0]->add_member("late", StringType());
    vx_assert(!last.has_member("late") && last.members().size() == t.sub.size(), "members added to the parent later do not appear");
    vx_assert(has(d, t, s), "the value is unaffected");
    vx_reach("end");
}
VX_ENTRY(h_member)
{
    int32_t id = vx_any<int32_t>("id"); bool k = vx_any<bool>("key"), o = vx_any<bool>("opt");
    StructType s("S");
    StringType str(7); SequenceType q(primitive_type<double>(), 3); Member plain("p", str);
    s.add_member(Member("a", primitive_type<char>()).id(id).key(k).optional(o));
    s.add_member("b", str);
    s.add_member("c", SequenceType(primitive_type<double>(), 3));
    s.add_member(plain);
    s.add_member("e", q);
    const Member& m = s.member("a");
    vx_assert(m.get_id() == id && m.has_id() == (id >= 0) && m.is_key() == k && m.is_optional() == o, "member attributes are kept");
    StructType c(s), dd("D", &s);
    vx_assert(c.member(0).get_id() == id && c.member(0).is_key() == k && c.member(0).is_optional() == o, "member attributes are copied");
    vx_assert(dd.member(0).get_id() == id && dd.member(0).is_key() == k && dd.member(0).is_optional() == o, "member attributes are inherited");
    for (int i = 1; i < 5; ++i) vx_assert(!s.member(i).has_id() && !s.member(i).is_key() && !s.member(i).is_optional(), "members without attributes have none");
    vx_assert(static_cast<const StringType&>(s.member("b").type()).bounds() == 7 && static_cast<const SequenceType&>(s.member("c").type()).bounds() == 3 && s.member("p").type().kind() == TypeKind::STRING_TYPE && s.member("e").type().name() == q.name(), "member types are the given ones");
    layout(s, 5); layout(c, 5); layout(dd, 5);
    StructType mv(std::move(c));
    vx_assert(mv.members().size() == 5 && mv.member(0).get_id() == id && mv.memory_size() == s.memory_size(), "a moved structure keeps its members");
    layout(mv, 5);
    vx_reach("end");
}
VX_ENTRY(h_nested)
{
    T a = pick_s(), b = pick_s(); prof().elems = 1; prof().chars = 1;
    T in = st({leaf(I16), a}), mid = st({leaf(U8), in, b}), t = st({b, arr(2, mid), leaf(STR)});
    DynamicData d(*build(t)); S s = any(t);
    put(d["m0"], b, s.sub[0]); put(d["m2"], leaf(STR), s.sub[2]);
    for (int i = 0; i < 2; ++i)
    {
        S& e = s.sub[1].sub[i];
        put(d[1][i][0], leaf(U8), e.sub[0]); put(d[1][i][1][0], leaf(I16), e.sub[1].sub[0]);
        put(d["m1"][i]["m1"]["m1"], a, e.sub[1].sub[1]); put(d[1][i]["m2"], b, e.sub[2]);
    }
    vx_assert(has(d, t, s), "values written by name or index are read through either");
    S n = any(a); put(d[1][1][1][1], a, n); s.sub[1].sub[1].sub[1].sub[1] = n; DynamicData c(*build(t)); c = d;
    vx_assert(has(d, t, s) && has(c, t, s), "writing a nested member changes only that member");
    vx_reach("end");
}
VX_ENTRY(h_large)
{
    static const unsigned sizes[3] = {34, 130, 260}; unsigned n = pick_n(sizes); T t = big_type(9 + (unsigned)vx_pick(2, "derived"), n);
    DynamicType::Ptr ty = build(t); const StructType& s = static_cast<const StructType&>(*ty); bool ok = s.members().size() == n; size_t end = 0;
    for (unsigned i = 0; ok && i < n; ++i)
    {
        const Member& m = s.member(i); ok &= m.name() == mname(i) && &s.member(mname(i)) == &m && s.has_member(mname(i)) && m.type().kind() == build(t.sub[i])->kind();
        ok &= m.offset() >= end && m.offset() + m.type().memory_size() <= s.memory_size(); end = m.offset() + m.type().memory_size();
    }
    vx_assert(ok && !s.has_member(mname(n)), "members are disjoint, inside the structure, and found by name");
    DynamicData d(*ty); S v = zero(t); unsigned w = 0; switch (vx_pick(4, "w")) { case 0: break; case 1: w = n / 2; break; case 2: w = n - 2; break; default: w = n - 1; }
    prof().elems = 2; prof().chars = 2; v.sub[w] = any(t.sub[w]); if (vx_pick(2, "by")) put(d[w], t.sub[w], v.sub[w]); else put(d[mname(w)], t.sub[w], v.sub[w]);
    vx_assert(has(d, t, v), "writing one member changes only that member");
    size_t q = vx_any<size_t>("q"); vx_assume(q >= n); vx_assert(vx_throws([&]() { d[q]; }) && vx_throws([&]() { d[mname(n)]; }), "other members do not exist"); vx_reach("end");
}
VX_ENTRY(h_wide)
{
    T c; switch (vx_pick(4, "content")) { case 0: c = leaf(U8); break; case 1: c = leaf(U64); break; case 2: c = leaf(STR); break; default: c = st({leaf(U8), leaf(I32)}); }
    uint32_t n = vx_any<uint32_t>("n"), m = 65536; bool two = vx_pick(2, "two"), u = vx_pick(2, "union"), derived = vx_pick(2, "derived"); if (!two) m = vx_any<uint32_t>("m"); vx_assume(n > 0 && m > 0);
    size_t z = build(c)->memory_size(), za = (size_t)n * z, zb = two ? za * m : (size_t)m * z;
    ArrayType a(*build(c), n), b(two ? (const DynamicType&)a : *build(c), m); vx_assert(a.memory_size() == za && b.memory_size() == zb, "an array is as large as its elements together");
    vx_assert(a.dimension() == n && b.dimension() == m, "the dimension is the declared one");
    StructType s("S"); s.add_member("x", primitive_type<uint8_t>()); s.add_member("a", a);
    size_t before = 1 + za, zu = zb;
    StructType r = derived ? StructType("R", &s) : s;
    if (u) { UnionType w("W", primitive_type<uint16_t>()); w.add_case_member(std::vector<uint16_t>{1}, "p", primitive_type<uint8_t>()); w.add_case_member(std::vector<uint16_t>{2}, "q", b); r.add_member("b", w); zu = w.memory_size(); vx_assert(zu >= zb + 2, "a union holds its largest member"); for (size_t i = 1; i < 3; ++i) vx_assert(w.members()[i].offset() >= 2 && w.members()[i].offset() + w.members()[i].type().memory_size() <= zu, "the cases follow the discriminator"); }
    else r.add_member("b", b);
    r.add_member("y", primitive_type<uint64_t>());
    size_t last = 0; bool ok = r.members().size() == 4; const size_t zs[4] = {1, za, zu, 8};
    for (size_t i = 0; ok && i < 4; ++i) { const Member& x = r.members()[i]; ok &= x.offset() >= last && x.type().memory_size() == zs[i]; last = x.offset() + zs[i]; }
    vx_assert(ok && last <= r.memory_size() && r.memory_size() >= before, "members never overlap and fit");
    vx_reach("end");
}
