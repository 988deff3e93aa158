// Misuse is rejected and changes nothing; proper use is accepted
//! entry h_value : reading and writing every C++ type (15 primitive, 3 strings) on data of 24 types
//! entry h_member : access by name (5 names, read and write) and by arbitrary 64-bit index on data of 24 types
//! entry h_kind : 12 operations that exist only for some kinds of data (size, bounds, iterators, discriminator, current case, resize, traversal of members) on data of 24 types
//! entry h_key : map operations with keys and pairs of 6 types on data of 24 types; bounded and full maps
//! entry h_push : push of raw values and of data of 24 x 24 types; bounded and full sequences; resize to an arbitrary 64-bit size
//! entry h_assign : assignment of data of 24 x 24 types through 4 forms
//! entry h_vector : as_vector of 8 C++ types on data of 24 types
//! entry h_union : arbitrary discriminator values, reading members that are not selected
//! entry h_type : misuse of type builders (names, labels, discriminators, defaults, indexes, parents, alias casts): rejected, the type stays usable
//! entry h_nested : a rejected operation on a part leaves the whole as it was
//! leaks
#include "xt.h"
#include <limits>
#include <memory>
using namespace xt;
static T pick24(const char* n)
{
    switch (vx_pick(24, n))
    {
        case 0: return leaf(U8); case 1: return leaf(I32); case 2: return leaf(F64); case 3: return leaf(BOOL); case 4: return leaf(STR); case 5: return leaf(WSTR); case 6: return leaf(STR16, 4); case 7: return leaf(ENUM);
        case 8: return arr(2, leaf(U8)); case 9: return arr(2, arr(2, leaf(I16))); case 10: return seq(leaf(U8)); case 11: return seq(leaf(STR), 2); case 12: return seq(st({leaf(U8), leaf(STR)}), 1); case 13: return map(leaf(U8), leaf(STR)); case 14: return map(leaf(STR), leaf(U8), 2);
        case 15: return st({leaf(U8), leaf(STR)}); case 16: return st({leaf(U8), seq(leaf(U8))}); case 17: return der(1, {leaf(STR), leaf(I32)}); case 18: return un({leaf(U8), leaf(STR)}); case 19: { T u = un({leaf(STR), leaf(I32)}); u.n = 1; return u; }
        case 20: return ali(leaf(I32)); case 21: return ali(seq(leaf(U8), 2)); case 22: return ali(un({leaf(STR), leaf(I32)})); default: return ali(st({leaf(U8), leaf(STR)}));
    }
}
static bool eqt(const T& a, const T& b) { const T &x = res(a), &y = res(b); if (x.k != y.k || x.sub.size() != y.sub.size()) return false; if (x.k != ENUM && x.k != STRUCT && x.n != y.n) return false; for (size_t i = 0; i < x.sub.size(); ++i) if (!eqt(x.sub[i], y.sub[i])) return false; return true; }
static int bytes(int k) { int r = 0; prim(k, [&](auto x) { r = sizeof(x); }); return r; }
template<class F> static void cpp18(int k, F f) { switch (k) { case 15: f(std::string(2, 'a')); break; case 16: f(std::wstring(2, L'b')); break; case 17: f(std::u16string(2, u'c')); break; default: prim(k, f); } }
static int strk(int k) { return k == STR ? 15 : k == WSTR ? 16 : k == STR16 ? 17 : k; }
struct D { T t; S s; std::unique_ptr<DynamicData> d; D(const T& t) : t(t) { prof().elems = 1; prof().chars = 2; s = any(t); d.reset(new DynamicData(*build(t))); put(*d, t, s); } };
template<class F> static void expect(D& x, bool allowed, const char* what, F f)
{
    bool threw = vx_throws(f);
    vx_assert(threw == !allowed, what);
    if (!allowed) vx_assert(has(*x.d, x.t, x.s), "a rejected operation changes nothing");
}
VX_ENTRY(h_value)
{
    D x(pick24("t")); const T& r = res(x.t); int k = (int)vx_pick(18, "as"); bool write = vx_pick(2, "write"); DynamicData& d = *x.d;
    cpp18(k, [&](auto v) {
        typedef decltype(v) X; bool ok = r.k == ENUM ? k <= WC && bytes(k) == 4 && std::is_integral<X>::value : strk(r.k) == k;
        if (!write) { expect(x, ok, "a value is read exactly as its own type", [&]() { const X& got = d.value<X>(); (void)got; }); expect(x, ok, "a value is converted exactly to its own type", [&]() { X got = d; (void)got; }); }
        else { if (r.k == ENUM) ok &= bytes(k) == 4; expect(x, ok, "a value is written exactly as its own type", [&]() { if (vx_pick(2, "how")) d = v; else d.value(v); }); } });
    vx_reach("end");
}
VX_ENTRY(h_member)
{
    D x(pick24("t")); const T& r = res(x.t); DynamicData& d = *x.d; bool agg = r.k == STRUCT || r.k == UNION;
    if (vx_pick(2, "how"))
    {
        static const char* names[5] = {"m0", "m1", "m2", "", "discriminator"}; unsigned i = (unsigned)vx_pick(5, "name"); std::string n(names[i]); unsigned form = (unsigned)vx_pick(4, "form");
        bool ok = agg && i < r.sub.size(), read = form < 2;
        if (r.k == UNION && read) ok &= (int)i == x.s.act;
        switch (form)
        {
            case 0: expect(x, ok, "members are read exactly by their names", [&]() { d.cref()[n]; }); break; case 1: expect(x, ok, "members are read exactly by their names", [&]() { d.get_member(n); }); break;
            case 2: expect(x, ok, "members are accessed exactly by their names", [&]() { d[n]; }); break; default: expect(x, ok, "members are accessed exactly by their names", [&]() { d[n.c_str()]; });
        }
    }
    else
    {
        uint64_t i = vx_any<uint64_t>("index"); uint64_t size = r.k == STRUCT ? r.sub.size() : r.k == ARR ? r.n : r.k == SEQ ? x.s.sub.size() : r.k == STR || r.k == WSTR || r.k == STR16 ? x.s.s.size() : 0;
        if (vx_pick(2, "const")) expect(x, i < size, "elements are accessed exactly by their indexes", [&]() { d.cref()[i]; }); else expect(x, i < size, "elements are accessed exactly by their indexes", [&]() { d[i]; });
        int32_t j = vx_any<int32_t>("int"); expect(x, j >= 0 && (uint64_t)j < size, "negative indexes are rejected", [&]() { d[j]; });
    }
    vx_reach("end");
}
VX_ENTRY(h_kind)
{
    D x(pick24("t")); const T& r = res(x.t); DynamicData& d = *x.d; bool str = r.k == STR || r.k == WSTR || r.k == STR16, coll = str || r.k == ARR || r.k == SEQ || r.k == MAP, agg = r.k == STRUCT || r.k == UNION;
    switch (vx_pick(12, "op"))
    {
        case 0: expect(x, coll || agg, "only collections and aggregations have a size", [&]() { d.size(); }); break;
        case 1: expect(x, coll, "only collections have a bound", [&]() { d.bounds(); }); break;
        case 2: expect(x, coll, "only collections are iterated", [&]() { d.begin(); }); break;
        case 3: expect(x, coll, "only collections are iterated", [&]() { d.end(); }); break;
        case 4: expect(x, coll, "only collections are iterated", [&]() { d.cref().begin(); }); break;
        case 5: expect(x, agg, "only aggregations have items", [&]() { d.items(); }); break;
        case 6: expect(x, agg, "only aggregations have items", [&]() { d.citems(); }); break;
        case 7: expect(x, agg, "only aggregations have items", [&]() { d.cref().items(); }); break;
        case 8: expect(x, r.k == UNION, "only unions have a discriminator", [&]() { d.d(); }); break;
        case 9: expect(x, r.k == UNION, "only unions have a discriminator", [&]() { d.d(int64_t(10 * (r.k == UNION ? x.s.act : 0))); }); break;
        case 10: expect(x, r.k == UNION, "only unions have a current case", [&]() { d.current_case(); }); break;
        default: expect(x, coll, "only collections are iterated", [&]() { d.cref().end(); });
    }
    vx_reach("end");
}
VX_ENTRY(h_key)
{
    D x(pick24("t")); const T& r = res(x.t); DynamicData& d = *x.d; bool full = vx_pick(2, "full");
    if (r.k == MAP && r.n && full) { while (x.s.sub.size() < r.n) { S p; p.sub.push_back(any(r.sub[0])); p.sub.push_back(any(r.sub[1])); for (auto& q : x.s.sub) vx_assume(!same(r.sub[0], p.sub[0], q.sub[0])); x.s.sub.push_back(p); } put(d, x.t, x.s); }
    T kt; switch (vx_pick(6, "key")) { case 0: kt = leaf(U8); break; case 1: kt = leaf(STR); break; case 2: kt = leaf(I8); break; case 3: kt = leaf(U16); break; case 4: kt = leaf(STR, 3); break; default: kt = seq(leaf(U8)); }
    S ks = any(kt); DynamicData k(*build(kt)); put(k, kt, ks); bool right = r.k == MAP && eqt(kt, r.sub[0]), in = false; if (right) for (auto& p : x.s.sub) in |= same(kt, p.sub[0], ks); bool room = r.k == MAP && (!r.n || x.s.sub.size() < r.n);
    switch (vx_pick(6, "op"))
    {
        case 0: expect(x, right && in, "only existing keys are accessed", [&]() { d.at(k); }); break;
        case 1: expect(x, right && in, "only existing keys are accessed", [&]() { d.cref().at(k); }); break;
        case 2: expect(x, right && (in || room), "keys are added only while there is room", [&]() { d[k]; }); break;
        case 3: expect(x, right, "only maps have keys", [&]() { bool h = d.has_key(k); vx_assert(h == in, "has_key tells whether the key exists"); }); break;
        case 4: expect(x, false, "only pairs of the right type are inserted", [&]() { d.insert(k); }); break;
        default:
        {
            bool val = vx_pick(2, "val"); DynamicType::Ptr vt = build(val ? leaf(STR) : leaf(U8)), bt = build(kt); PairType pt(*bt, *vt);
            bool okp = right && res(r.sub[1]).k == (val ? STR : U8); DynamicData p(pt); p[0] = k; bool done = false; expect(x, okp, "only pairs of the right type are inserted", [&]() { done = d.insert(p); });
            if (okp) { vx_assert(done == (!in && room), "a pair is inserted when its key is new and there is room"); if (!done) vx_assert(has(d, x.t, x.s), "a pair that is not inserted changes nothing"); }
        }
    }
    vx_assert(has(k, kt, ks), "keys are not changed");
    vx_reach("end");
}
VX_ENTRY(h_push)
{
    D x(pick24("t")); const T& r = res(x.t); DynamicData& d = *x.d; bool full = vx_pick(2, "full");
    if (r.k == SEQ && r.n && full) { while (x.s.sub.size() < r.n) x.s.sub.push_back(any(r.sub[0])); put(d, x.t, x.s); }
    bool room = r.k == SEQ && (!r.n || x.s.sub.size() < r.n);
    switch (vx_pick(3, "op"))
    {
        case 0: cpp18((int)vx_pick(18, "raw"), [&](auto v) { typedef decltype(v) X; int ck = r.k == SEQ ? res(r.sub[0]).k : NONE_; int k = std::is_same<X, std::string>::value ? STR : std::is_same<X, std::wstring>::value ? WSTR : std::is_same<X, std::u16string>::value ? STR16 : (int)NONE_; bool match = k == ck; if (k == NONE_) for (int i = 0; i < 15; ++i) prim(i, [&](auto y) { if (std::is_same<decltype(y), X>::value) match = ck == i; }); expect(x, match && room, "only values of the content type are pushed", [&]() { d.push(v); }); }); break;
        case 1: { T u = pick24("u"); Profile o = prof(); S us = any(u); prof() = o; DynamicData e(*build(u)); put(e, u, us); expect(x, room && eqt(u, r.sub[0]), "only data of the content type is pushed", [&]() { d.push(e); }); vx_assert(has(e, u, us), "pushed data is not changed"); break; }
        default: { uint64_t n = vx_any<uint64_t>("n"); vx_assume(r.k != SEQ || r.n || n < 3); expect(x, r.k == SEQ && (!r.n || n <= r.n), "sequences are resized only within their bound", [&]() { d.resize(n); }); }
    }
    vx_reach("end");
}
VX_ENTRY(h_assign)
{
    D x(pick24("t")), y(pick24("u")); bool eq = eqt(x.t, y.t); DynamicData &a = *x.d, &b = *y.d;
    if (eq) { vx_reach("end"); return; }
    // types with the same shape and equal classification may be assigned
    if (a.type().is_compatible(b.type()) == TypeConsistency::EQUALS) { vx_reach("end"); return; }
    switch (vx_pick(4, "form")) { case 0: expect(x, false, "data of another type is not assigned", [&]() { a = b; }); break; case 1: expect(x, false, "data of another type is not assigned", [&]() { a.ref() = b.ref(); }); break; case 2: expect(x, false, "data of another type is not assigned", [&]() { a = b.cref(); }); break; default: expect(x, false, "data of another type is not assigned", [&]() { a.ref() = b; }); }
    vx_assert(has(b, y.t, y.s), "the source is not changed");
    vx_reach("end");
}
VX_ENTRY(h_vector)
{
    D x(pick24("t")); const T& r = res(x.t); DynamicData& d = *x.d; int ck = r.k == SEQ || r.k == ARR ? res(r.sub[0]).k : r.k == STR ? C8 : r.k == WSTR ? WC : r.k == STR16 ? C16 : NONE_;
    static const int ks[8] = {U8, I16, F64, C8, WC, C16, 15, 16}; int k = ks[vx_pick(8, "as")];
    cpp18(k, [&](auto v) { typedef decltype(v) X; expect(x, ck != NONE_ && strk(ck) == k && ck != MAP, "only collections of the C++ type give a vector of it", [&]() { std::vector<X> w = d.as_vector<X>(); (void)w; }); });
    vx_assert(has(d, x.t, x.s), "as_vector changes nothing");
    vx_reach("end");
}
VX_ENTRY(h_union)
{
    T u = un({leaf(STR), leaf(I32), st({leaf(U8), leaf(STR)})}); u.n = (uint32_t)vx_pick(2, "default"); bool fresh_ = vx_pick(2, "fresh");
    D x(u); DynamicData& d = *x.d; if (fresh_) { x.d.reset(new DynamicData(*build(u))); x.s = zero(u); }
    int act = x.s.act; DynamicData& e = *x.d; (void)d;
    if (vx_pick(2, "op"))
    {
        int64_t l = vx_any<int64_t>("label"); vx_assume(l >= -0x80000000ll && l < 0x7ffffffell); bool mine = false, other = false; for (int i = 0; i < 3; ++i) if (i != act) other |= l == 10 * i || l == 10 * i + 1; else mine |= l == 10 * i || l == 10 * i + 1;
        bool deflt = u.n && act == 0 && !other; if (act < 0) { if (!other) expect(x, false, "the discriminator takes only labels of a case", [&]() { e.d(l); }); } else expect(x, mine || deflt, "the discriminator takes only labels of the selected case", [&]() { e.d(l); });
    }
    else { int i = (int)vx_pick(3, "member"); expect(x, i == act, "only the selected member is read", [&]() { e.cref()[mname((size_t)i)]; }); expect(x, false, "members are not accessed by index", [&]() { e[(size_t)i]; }); expect(x, false, "the discriminator is not accessed by name", [&]() { e["discriminator"]; }); expect(x, act >= 0, "only a selected case is current", [&]() { e.current_case(); }); }
    vx_reach("end");
}
VX_ENTRY(h_type)
{
    T mid = pick_mid(); DynamicType::Ptr mt = build(mid); prof().elems = 1; prof().chars = 1;
    switch (vx_pick(4, "what"))
    {
        case 0:
        {
            StructType s("S"); s.add_member("m0", *mt); s.add_member("m1", primitive_type<uint8_t>()); T t = st({mid, leaf(U8)}); size_t size = s.memory_size(); uint64_t i = vx_any<uint64_t>("i");
            vx_assert(vx_throws([&]() { s.add_member("m0", primitive_type<double>()); }) && vx_throws([&]() { s.add_member(Member("m1", *mt)); }), "member names are unique");
            vx_assert(vx_throws([&]() { s.member("m2"); }) && vx_throws([&]() { s.member(""); }) && vx_throws([&]() { s.member(i); }) == (i >= 2) && vx_throws([&]() { s.parent(); }), "only existing members and parents are accessed");
            StructType q("Q", &s); vx_assert(vx_throws([&]() { q.add_member("m0", primitive_type<double>()); }) && q.members().size() == 2 && q.parent().name() == "S", "names inherited are taken");
            vx_assert(s.members().size() == 2 && s.memory_size() == size && q.memory_size() == size, "rejected members change nothing"); D x(t); DynamicData d(s), e(q); put(d, t, x.s); put(e, t, x.s); vx_assert(has(d, t, x.s) && has(e, t, x.s), "the type stays usable"); break;
        }
        case 1:
        {
            UnionType u("U", primitive_type<int32_t>()); u.add_case_member(std::vector<int32_t>{0, 1}, "m0", *mt); u.add_case_member(std::vector<int32_t>{10, 11}, "m1", primitive_type<uint8_t>(), true); T t = un({mid, leaf(U8)}); int32_t l = vx_any<int32_t>("l");
            vx_assert(vx_throws([&]() { u.add_case_member(std::vector<int32_t>{2, l}, "m0", primitive_type<uint8_t>()); }), "case names are unique");
            vx_assert(vx_throws([&]() { u.add_case_member(std::vector<int32_t>{}, "m2", primitive_type<uint8_t>()); }), "a case needs a label"); vx_assert(vx_throws([&]() { u.add_case_member(std::vector<int32_t>{5}, "m2", primitive_type<uint8_t>(), true); }), "there is one default case");
            vx_assert(vx_throws([&]() { u.add_case_member(std::vector<int32_t>{5}, "discriminator", primitive_type<uint8_t>()); }), "the name of the discriminator is reserved"); vx_assert(vx_throws([&]() { u.add_case_member(std::vector<int32_t>{5, 11}, "m2", primitive_type<double>()); }), "labels are unique");
            vx_assert(vx_throws([&]() { u.add_case_member(std::vector<std::string>{"x"}, Member("m2", primitive_type<double>())); }), "labels are numbers");
            vx_assert(vx_throws([&]() { u.add_case_member(std::vector<int32_t>{std::numeric_limits<int32_t>::max()}, "m2", primitive_type<double>()); }), "the reserved label is rejected");
            vx_assert(u.get_case_members().size() == 2 && u.get_labels("m0").size() == 2 && u.get_labels("m1").size() == 2 && u.get_labels("m2").empty() && u.get_default() == "m1", "rejected cases change nothing");
            bool taken = l == 0 || l == 1 || l == 10 || l == 11 || l == std::numeric_limits<int32_t>::max(); bool threw = vx_throws([&]() { u.add_case_member(std::vector<int32_t>{l}, "m2", primitive_type<float>()); }); vx_assert(threw == taken, "a label is accepted exactly when it is free");
            D x(t); DynamicData d(u); put(d, t, x.s); vx_assert(has(d, t, x.s), "the type stays usable"); break;
        }
        case 2:
        {
            int k = (int)vx_pick(15, "disc"); bool real = k == F32 || k == F64 || k == F128; bool al = vx_pick(2, "alias"); DynamicType::Ptr dt = build(al ? ali(leaf(k)) : leaf(k)); vx_assert(vx_throws([&]() { UnionType u("U", *dt); }) == real, "a discriminator is an integer, character, boolean or enumeration");
            const T& r = res(mid); vx_assert(vx_throws([&]() { UnionType u("U", *mt); }) == !(r.k <= WC && r.k != F64), "a discriminator is an integer, character, boolean or enumeration"); UnionType ok("U", EnumerationType<uint32_t>("E")); break;
        }
        default:
        {
            AliasType a(mt, "A"); const T& r = mid; vx_assert(vx_throws([&]() { const StructType& s = a; (void)s; }) == (r.k != STRUCT), "an alias gives only its own type"); vx_assert(vx_throws([&]() { const SequenceType& s = a; (void)s; }) == (r.k != SEQ), "an alias gives only its own type"); vx_assert(vx_throws([&]() { const MapType& s = a; (void)s; }) == (r.k != MAP), "an alias gives only its own type");
            EnumerationType<uint8_t> e("E"); e.add_enumerator("A", 3); vx_assert(vx_throws([&]() { e.add_enumerator("A"); }) && vx_throws([&]() { e.add_enumerator("B", 3); }) && vx_throws([&]() { e.value("B"); }) && e.enumerators().size() == 1, "enumerators are unique");
        }
    }
    vx_reach("end");
}
VX_ENTRY(h_nested)
{
    T in = pick24("t"); if (in.k == BOOL) { vx_reach("end"); return; } const T& r = res(in); T t; unsigned w = (unsigned)vx_pick(3, "holder"); prof().elems = 1; prof().chars = 1;
    t = w == 0 ? st({leaf(STR), in, leaf(U8)}) : w == 1 ? arr(2, in) : seq(in); D x(t); if (w == 2) { vx_assert(x.s.sub.size() == 1, "one element"); }
    auto part = [&]() { return w == 0 ? (*x.d)["m1"] : (*x.d)[0]; }; DynamicData wrong(primitive_type<bool>());
    switch (vx_pick(5, "op"))
    {
        case 0: expect(x, false, "data of another type is not assigned", [&]() { part() = wrong; }); break; case 1: expect(x, false, "a value of another type is not written", [&]() { part() = true; }); break;
        case 2: expect(x, r.k == STRUCT, "members are accessed exactly by their names", [&]() { part().cref()["m1"]; if (r.k == UNION) throw std::runtime_error("x"); }); break;
        case 3: expect(x, false, "only data of the content type is pushed", [&]() { part().push(wrong); }); break; default: expect(x, false, "only keys of the right type are used", [&]() { part()[wrong]; });
    }
    vx_assert(has(*x.d, t, x.s), "a rejected operation on a part changes nothing");
    vx_reach("end");
}
