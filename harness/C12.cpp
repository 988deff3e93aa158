// Enumerations: numbering of enumerators, declared values only
//! entry h_table : 8, 16 and 32-bit enumerations; three (thorough: four) declarations, each with any explicit value or without, with a new or an already used name, continued on the type itself, a clone, an alias' target or a member's type
//! entry h_names : names of length 0..2 with arbitrary characters; lookup by name and by value
//! entry h_write : enumeration of three arbitrary values; any value written with the underlying type at the root, through an alias, into a member, array element, sequence element (existing or pushed) or map value
//! entry h_other : any value of every other arithmetic type written to an enumeration of arbitrary values; whatever is accepted is declared
//! entry h_arith : arithmetic and increment results never leave the declared values
//! entry h_cross : enumeration assigned or converted from data of another enumeration or of an integer of the same width
//! entry h_large : enumerations of 34 and 260 enumerators (consecutive, far apart, or with one arbitrary gap); an arbitrary value written
#include "xt.h"
#include <memory>
using namespace xt;
struct Decl { std::string n; uint64_t v; };
template<class X> static void check(const EnumerationType<X>& e, const std::vector<Decl>& r)
{
    bool ok = e.enumerators().size() == r.size();
    for (auto& d : r) ok &= e.has_enumerator(d.n) && e.value(d.n) == (X)d.v && e.enumerator((X)d.v) == d.n && e.is_allowed_value((X)d.v);
    vx_assert(ok, "every enumerator has the declared name and value");
    X v = vx_any<X>("probe"); bool in = false; X low = r.empty() ? X() : (X)r[0].v; for (auto& d : r) in |= v == (X)d.v;
    vx_assert(e.is_allowed_value(v) == in && (in || e.enumerator(v).empty()), "only declared values are allowed");
    vx_assert(!e.has_enumerator("zz") && vx_throws([&]() { e.value("zz"); }), "an undeclared name is rejected");
    if (!r.empty()) { DynamicData d(e); X x = d.value<X>(); bool def = false; for (auto& q : r) def |= x == (X)q.v; vx_assert(def, "the default is a declared value"); (void)low; }
}
template<class X> static void table()
{
#ifdef VX_THOROUGH
    const int N = 4;
#else
    const int N = 3;
#endif
    EnumerationType<X> first("E"); std::vector<Decl> r; bool any = false, full = false; X last = 0; EnumerationType<X>* cur = &first; std::vector<DynamicType::Ptr> keep; StructType holder("H");
    size_t how = vx_pick(4, "how"), when = how == 0 ? 0 : 1 + vx_pick(N - 1, "when");
    for (int i = 0; i < N; ++i)
    {
        if ((size_t)i == when) switch (how)
        {
            case 0: break;
            case 1: keep.push_back(DynamicType::Ptr(*cur)); cur = const_cast<EnumerationType<X>*>(static_cast<const EnumerationType<X>*>(keep.back().get())); break;
            case 2: holder.add_member("e", *cur); cur = const_cast<EnumerationType<X>*>(static_cast<const EnumerationType<X>*>(&holder.member(0).type())); break;
            default: { keep.push_back(DynamicType::Ptr(AliasType(*cur, "A"))); cur = const_cast<EnumerationType<X>*>(static_cast<const EnumerationType<X>*>(&static_cast<const AliasType&>(*keep.back()).get())); }
        }
        size_t nm = vx_pick(r.empty() || (how && (size_t)i != when) ? 1 : 2, "name"); std::string name = nm ? r[0].n : std::string(1, char('p' - i)); bool dup = nm != 0;
        bool threw, valid = !dup && !full; X v;
        if (vx_pick(2, "explicit")) { v = vx_any<X>("v"); valid = valid & (!any | (v > last)); threw = vx_throws([&]() { cur->add_enumerator(name, v); }); }
        else { v = any ? X(last + 1) : X(0); threw = vx_throws([&]() { cur->add_enumerator(name); }); }
        vx_assert(threw == !valid, "an enumerator is accepted exactly when its name is new and its value is greater than the previous ones");
        if (valid) { r.push_back({name, (uint64_t)v}); any = true; last = v; full = v == std::numeric_limits<X>::max(); }
    }
    check(*cur, r);
    vx_reach("end");
}
VX_ENTRY(h_table) { switch (vx_pick(3, "width")) { case 0: table<uint8_t>(); break; case 1: table<uint16_t>(); break; default: table<uint32_t>(); } }
VX_ENTRY(h_names)
{
    auto nm = [](unsigned max) { unsigned n = (unsigned)vx_pick(max + 1, "len"); std::string s; for (unsigned i = 0; i < n; ++i) s.push_back(vx_any<char>("ch")); return s; };
    EnumerationType<uint16_t> e("E"); std::string a = nm(2), b = nm(2), c = nm(2);
    e.add_enumerator(a, 7); bool threw = vx_throws([&]() { e.add_enumerator(b); });
    vx_assert(threw == (a == b), "a name is accepted exactly when it is new");
    bool ka = c == a, kb = c == b && !threw;
    vx_assert(e.has_enumerator(c) == (ka || kb), "exactly the declared names are found");
    if (ka || kb) vx_assert(e.value(c) == (ka ? 7 : 8), "a name has its own value"); else vx_assert(vx_throws([&]() { e.value(c); }), "an undeclared name is rejected");
    vx_assert(e.enumerator(7) == a && e.enumerators().size() == (threw ? 1u : 2u) && (threw || e.enumerator(8) == b), "a value has its own name");
    vx_reach("end");
}
template<class X> static void three(EnumerationType<X>& e, X& a, X& b, X& c)
{
    a = vx_any<X>("a"); b = vx_any<X>("b"); c = vx_any<X>("c"); vx_assume(a < b && b < c);
    e.add_enumerator("B", a); e.add_enumerator("A", b); e.add_enumerator("C", c);
}
template<class X> static void writes()
{
    X a, b, c; EnumerationType<X> e("E"); three(e, a, b, c); X v = vx_any<X>("v"), w = vx_any<X>("w"); bool ok = v == a || v == b || v == c; vx_assume(w == a || w == b || w == c);
    size_t where = vx_pick(7, "where"); DynamicType::Ptr t;
    StructType s("S"); s.add_member("x", primitive_type<uint8_t>()); s.add_member("e", e); s.add_member("y", StringType());
    switch (where) { case 0: t = DynamicType::Ptr(e); break; case 1: t = DynamicType::Ptr(AliasType(e, "A")); break; case 2: t = DynamicType::Ptr(s); break; case 3: t = DynamicType::Ptr(ArrayType(e, 2)); break; case 4: case 5: t = DynamicType::Ptr(SequenceType(e)); break; default: t = DynamicType::Ptr(MapType(primitive_type<uint8_t>(), e)); }
    DynamicData d(*t); DynamicData key(primitive_type<uint8_t>()); key = uint8_t(3);
    if (where == 4) d.resize(2); DynamicData item(e); if (where == 5) { item = w; d.push(item); }
    auto slot = [&]() -> WritableDynamicDataRef { switch (where) { case 0: case 1: return d.ref(); case 2: return d["e"]; case 6: return d[key]; case 5: return d[0]; default: return d[1]; } };
    if (where != 5) slot() = w;
    bool threw = vx_throws([&]() { if (where == 5) { item = v; d.push(item); } else if (vx_pick(2, "how")) slot() = v; else slot().value(v); });
    vx_assert(threw == !ok, "a value is accepted exactly when it is declared");
    if (where == 5) { vx_assert(d.size() == (ok ? 2u : 1u) && d[0].value<X>() == w && (!ok || d[1].value<X>() == v), "a rejected value changes nothing"); }
    else vx_assert(slot().template value<X>() == (ok ? v : w), "a rejected value changes nothing");
    vx_reach("end");
}
VX_ENTRY(h_write) { switch (vx_pick(3, "width")) { case 0: writes<uint8_t>(); break; case 1: writes<uint16_t>(); break; default: writes<uint32_t>(); } }
template<class X> static void other()
{
    X a, b, c; EnumerationType<X> e("E"); three(e, a, b, c); DynamicData d(e); X w = d.value<X>();
    int k = (int)vx_pick(15, "kind");
    prim(k, [&](auto x) { typedef decltype(x) Y; Y y = vx_any<Y>("y");
        bool threw = vx_throws([&]() { d = y; });
        if (std::is_same<X, Y>::value) return;
        if (threw) vx_assert(d.value<X>() == w, "a rejected value changes nothing");
        else if constexpr (std::is_integral<Y>::value && sizeof(X) == sizeof(Y)) { X z; std::memcpy(&z, &y, sizeof z); vx_assert((z == a || z == b || z == c) && d.value<X>() == z, "whatever is accepted is declared"); }
        else vx_assert(false, "a value of a type that does not match the enumeration is rejected"); });
    vx_assert(vx_throws([&]() { d = std::string("A"); }) && vx_throws([&]() { d.value<std::string>(); }), "strings are rejected");
    vx_reach("end");
}
VX_ENTRY(h_other) { switch (vx_pick(3, "width")) { case 0: other<uint8_t>(); break; case 1: other<uint16_t>(); break; default: other<uint32_t>(); } }
VX_ENTRY(h_arith)
{
    uint32_t a, b, c; EnumerationType<uint32_t> e("E"); three(e, a, b, c); DynamicData d(e); uint32_t w = vx_any<uint32_t>("w"), y = vx_any<uint32_t>("y"); vx_assume(w == a || w == b || w == c); d = w;
    DynamicData o(e); o = b;
    vx_throws([&]() { switch (vx_pick(10, "op")) { case 0: ++d; break; case 1: d++; break; case 2: --d; break; case 3: d += y; break; case 4: d -= y; break; case 5: d *= y; break; case 6: d |= y; break; case 7: d ^= y; break; case 8: d += o; break; default: d &= o; } });
    uint32_t x = d.value<uint32_t>();
    vx_assert(x == a || x == b || x == c, "arithmetic never leaves the declared values");
    vx_reach("end");
}
VX_ENTRY(h_cross)
{
    uint32_t a, b, c; EnumerationType<uint32_t> e("E"); three(e, a, b, c); DynamicData d(e);
    uint32_t v = vx_any<uint32_t>("v"); EnumerationType<uint32_t> f("F"); f.add_enumerator("V", v); bool in = v == a || v == b || v == c;
    size_t src = vx_pick(2, "src"); DynamicData x(src ? (const DynamicType&)f : (const DynamicType&)primitive_type<uint32_t>()); x = v;
    switch (vx_pick(3, "how"))
    {
        case 0: vx_throws([&]() { d = x; }); { uint32_t z = d.value<uint32_t>(); vx_assert(z == a || z == b || z == c, "assignment from data of another type leaves a declared value"); } break;
        case 1: vx_throws([&]() { DynamicData n(x, e); uint32_t z = n.value<uint32_t>(); vx_assert(z == a || z == b || z == c, "conversion from data of another type gives a declared value"); }); break;
        default: vx_throws([&]() { SequenceType q(e); DynamicData n(q); n.push(x); uint32_t z = n[0].value<uint32_t>(); vx_assert(z == a || z == b || z == c, "inserting data of another type leaves a declared value"); });
    }
    (void)in;
    vx_reach("end");
}
VX_ENTRY(h_large)
{
    unsigned n = vx_pick(2, "n") ? 260 : 34, form = (unsigned)vx_pick(3, "form"); EnumerationType<uint32_t> e("E"); std::vector<uint32_t> vals; uint32_t gap = form == 2 ? vx_any<uint32_t>("gap") : 0; vx_assume(gap < 0xffff0000u);
    for (unsigned i = 0; i < n; ++i)
    {
        uint32_t v = form == 1 ? i * 1000003u : i + (i >= n / 2 ? gap : 0); bool ex = form == 1 || (form == 2 && i == n / 2) || i % 5 == 0;
        if (ex) e.add_enumerator(mname(i), v); else e.add_enumerator(mname(i)); vals.push_back(v);
    }
    bool ok = e.enumerators().size() == n; for (unsigned i = 0; i < n; ++i) ok &= e.has_enumerator(mname(i)) && e.value(mname(i)) == vals[i];
    vx_assert(ok && !e.has_enumerator(mname(n)), "every enumerator has its value");
    uint32_t x = vx_any<uint32_t>("x"); bool in = false; for (uint32_t v : vals) in |= v == x; DynamicData d(e); d = vals[n - 1];
    bool threw = vx_throws([&]() { d = x; }); vx_assert(threw == !in, "a value is accepted exactly when it is declared");
    vx_assert(vx_same<uint32_t>(d.value<uint32_t>(), threw ? vals[n - 1] : x), "the accepted value is stored, a rejected one changes nothing"); vx_reach("end");
}
