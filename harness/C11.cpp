// Union selection: discriminator, current case and readable member always agree
//! entry h_int32 : int32 discriminator, three members (int64, string, sequence of uint16) with arbitrary labels, no default / a labelled default / a default without labels; two (thorough: three) operations (select and write, discriminator assignment with any value of the type) from the new state
//! entry h_kinds : the 12 integral and character discriminators, an aliased one; two members with arbitrary labels, three default settings; one selection and one discriminator assignment with any 64-bit value
//! entry h_bool : boolean discriminator, every label set and default setting; every history of three operations
//! entry h_enum : 8, 16 and 32-bit enumerations as discriminator (three enumerators, arbitrary gaps); arbitrary discriminator assignments
//! entry h_labels : two cases with two arbitrary 64-bit labels each; accepted exactly when the labels are distinct values of the discriminator; names and defaults unique
//! entry h_many : a case with 1..2 (thorough: 1..4) arbitrary labels and a default; each label selects its own case
//! entry h_string : labels given as text: every decimal, hexadecimal and octal number of 1..2 digits (thorough: 3), with sign; booleans, characters, enumerators, default
//! entry h_copy : a union in any state copied, assigned, converted from an alias and moved; the copy follows its own discriminator
//! entry h_large : unions of 34 and 130 cases (labels ascending, descending or far apart), one discriminator value arbitrary; with and without default
//! assume the label equal to the largest signed value of the discriminator's width is reserved (and its predecessor only marks the state without selection when no case uses it)
#include "xt.h"
#include <memory>
using namespace xt;
typedef std::vector<int64_t> L;
#ifdef VX_THOROUGH
#define VX_DIGITS 3
#define VX_LK 4
#else
#define VX_DIGITS 2
#define VX_LK 2
#endif
struct Ref // reference: what the declaration says
{
    int k = I32; unsigned bytes = 4; bool sign = true; DynamicType::Ptr disc;
    std::vector<T> mem; std::vector<L> lab; int def = -1;
    int64_t norm(int64_t v) const { unsigned sh = 64 - 8 * bytes; return sign ? (int64_t)((uint64_t)v << sh) >> sh : (int64_t)(((uint64_t)v << sh) >> sh); }
    int sel(int64_t v) const { for (size_t i = 0; i < lab.size(); ++i) { bool f = false; for (int64_t x : lab[i]) f |= v == x; if (f) return (int)i; } return def; }
    bool listed(int64_t v) const { bool f = false; for (auto& l : lab) for (int64_t x : l) f |= v == x; return f; }
    bool own(size_t i, int64_t v) const { bool f = false; for (int64_t x : lab[i]) f |= v == x; return f; }
};
static int64_t reserved(const Ref& r) { return (int64_t)(~0ull >> 1 >> (64 - 8 * r.bytes)); }
template<class X> static X val(const X& x) { return x; }
static int64_t disc_of(ReadableDynamicDataRef d, const Ref& r)
{
    int64_t v = 0; ReadableDynamicDataRef x = d.d();
    if (r.k == ENUM) { switch (r.bytes) { case 1: v = x.value<uint8_t>(); break; case 2: v = x.value<uint16_t>(); break; default: v = x.value<uint32_t>(); } return v; }
    if (r.k == BOOL) { uint8_t b; bool t = x.value<bool>(); std::memcpy(&b, &t, 1); return b; }
    prim(r.k, [&](auto y) { typedef decltype(y) X; v = (int64_t)x.template value<X>(); });
    return v;
}
static void setk(Ref& r, int k) { r.k = k; r.disc = build(leaf(k)); prim(k, [&](auto x) { typedef decltype(x) X; r.bytes = sizeof(X); r.sign = X(-1) < X(0) && k != BOOL; }); }
// an arbitrary label of the discriminator, distinct from the previous ones
static int64_t label(const Ref& r) { int64_t v = r.norm(vx_any<int64_t>("label")); vx_assume(v != reserved(r)); vx_assume(!r.listed(v)); return v; }
static UnionType declare(const Ref& r)
{
    UnionType u("U", *r.disc);
    for (size_t i = 0; i < r.mem.size(); ++i) u.add_case_member(r.lab[i], Member(mname(i), *build(r.mem[i])), (int)i == r.def);
    return u;
}
struct St { int act; int64_t d; S v; };
static void agree(ReadableDynamicDataRef d, const Ref& r, const St& s)
{
    int64_t v = disc_of(d, r);
    vx_assert(v == s.d, "the discriminator holds the expected value");
    vx_assert(r.sel(v) == s.act, "the discriminator selects the active member");
    if (s.act < 0) { vx_assert(vx_throws([&]() { d.current_case(); }), "no case is reported when none is selected"); }
    else vx_assert(d.current_case().name() == mname(s.act), "the reported case is the selected member");
    for (size_t i = 0; i < r.mem.size(); ++i)
        if ((int)i == s.act) vx_assert(has(d[mname(i)], r.mem[i], s.v), "the selected member keeps its value");
        else vx_assert(vx_throws([&]() { d[mname(i)]; }), "a member that is not selected is not readable");
}
static void write(DynamicData& d, const Ref& r, St& s, int i)
{
    S v = any(r.mem[i]);
    put(d[mname(i)], r.mem[i], v);
    int64_t now = disc_of(d, r);
    vx_assert(r.own(i, now) || (i == r.def && !r.listed(now)), "writing a member sets one of its labels");
    if (s.act == i) vx_assert(now == s.d, "writing the selected member keeps the discriminator");
    s.act = i; s.d = now; s.v = v;
    agree(d, r, s);
}
// assign a value v of the discriminator type
static void assign(DynamicData& d, const Ref& r, St& s, int64_t v, bool ref)
{
    int c = r.sel(v);
    bool threw;
    if (!ref) threw = vx_throws([&]() { d.d(v); });
    else
    {
        DynamicData x(*r.disc);
        if (r.k == ENUM) { switch (r.bytes) { case 1: x = (uint8_t)v; break; case 2: x = (uint16_t)v; break; default: x = (uint32_t)v; } }
        else prim(r.k, [&](auto y) { typedef decltype(y) X; x = (X)v; });
        threw = vx_throws([&]() { d.d(x); });
    }
    if (c < 0) vx_assert(threw || v == s.d, "a discriminator value that selects no case is rejected");
    else if (s.act >= 0 && c != s.act) vx_assert(threw, "a discriminator value of another member is rejected");
    else { vx_assert(!threw, "a discriminator value of the selected member is accepted"); if (s.act < 0) s.v = zero(r.mem[c]); s.act = c; s.d = v; }
    agree(d, r, s);
}
static St start(DynamicData& d, const Ref& r)
{
    St s; s.act = r.def; s.d = disc_of(d, r); if (s.act >= 0) s.v = zero(r.mem[s.act]);
    vx_assert(r.def >= 0 ? r.own(r.def, s.d) || !r.listed(s.d) : r.k == BOOL || !r.listed(s.d), "a new union selects its default, or nothing");
    if (r.def >= 0 || !r.listed(s.d)) agree(d, r, s);
    return s;
}
static void op(DynamicData& d, const Ref& r, St& s, bool ref)
{
    size_t n = r.mem.size(), o = vx_pick(n + 1, "op");
    if (o < n) write(d, r, s, (int)o);
    else assign(d, r, s, r.norm(vx_any<int64_t>("disc")), ref);
}
// default settings: none, member with labels, member without labels
static void defaults(Ref& r, size_t who)
{
    switch (vx_pick(3, "default")) { case 0: break; case 1: r.def = (int)who; break; default: r.def = (int)who; r.lab[who].clear(); }
}
VX_ENTRY(h_int32)
{
    Ref r; setk(r, I32); prof().elems = 1; prof().chars = 1;
    r.mem = {leaf(I64), leaf(STR), seq(leaf(U16))}; r.lab.resize(3);
    for (int i = 0; i < 3; ++i) r.lab[i].push_back(label(r));
#ifdef VX_THOROUGH
    defaults(r, vx_pick(3, "who"));
#else
    defaults(r, 1);
#endif
    UnionType u = declare(r); DynamicData d(u);
    St s = start(d, r);
    op(d, r, s, true); op(d, r, s, false);
#ifdef VX_THOROUGH
    op(d, r, s, true);
#endif
    vx_reach("end");
}
VX_ENTRY(h_kinds)
{
    static const int ks[12] = {I8, U8, I16, U16, I32, U32, I64, U64, C8, C16, WC, U8};
    size_t p = vx_pick(12, "kind"); Ref r; setk(r, ks[p]); if (p == 11) r.disc = build(ali(ali(leaf(U8))));
    prof().elems = 1; prof().chars = 1;
    r.mem = {leaf(STR), leaf(U16)}; r.lab.resize(2);
    for (int i = 0; i < 2; ++i) r.lab[i].push_back(label(r));
#ifdef VX_THOROUGH
    defaults(r, vx_pick(2, "who"));
#else
    defaults(r, 1);
#endif
    UnionType u = declare(r); DynamicData d(u);
    vx_assert(u.get_labels("m1").size() == r.lab[1].size() && u.get_labels("m0").size() == r.lab[0].size(), "labels belong to their member");
    St s = start(d, r);
    size_t pre = vx_pick(3, "pre"); if (pre < 2) write(d, r, s, (int)pre);
    if (vx_pick(2, "how")) assign(d, r, s, r.norm(vx_any<int64_t>("disc")), true);
    else
    {   // any 64-bit value: those the discriminator cannot hold change nothing
        int64_t v = vx_any<int64_t>("wide"); unsigned sh = 64 - 8 * r.bytes;
        bool fits = v == ((int64_t)((uint64_t)v << sh) >> sh) || v == (int64_t)(((uint64_t)v << sh) >> sh);
        if (fits) assign(d, r, s, r.norm(v), false);
        else { vx_throws([&]() { d.d(v); }); agree(d, r, s); }
    }
    vx_reach("end");
}
VX_ENTRY(h_bool)
{
    Ref r; setk(r, BOOL); r.bytes = 1; prof().chars = 1; prof().elems = 1;
    switch (vx_pick(6, "labels"))
    {
        case 0: r.mem = {leaf(STR)}; r.lab = {L{1}}; break;
        case 1: r.mem = {leaf(STR)}; r.lab = {L{0}}; break;
        case 2: r.mem = {leaf(STR)}; r.lab = {L{0, 1}}; break;
        case 3: r.mem = {leaf(STR), leaf(I16)}; r.lab = {L{0}, L{1}}; break;
        case 4: r.mem = {leaf(STR), leaf(I16)}; r.lab = {L{1}, L{}}; r.def = 1; break;
        default: r.mem = {leaf(STR), leaf(I16)}; r.lab = {L{0}, L{}}; r.def = 1; break;
    }
    if (r.def < 0 && vx_pick(2, "default")) r.def = 0;
    UnionType u = declare(r); DynamicData d(u);
    if (r.def < 0 && r.listed(0) && r.listed(1)) { St s; s.act = -1; write(d, r, s, (int)vx_pick(r.mem.size(), "first")); for (int i = 0; i < 2; ++i) { size_t o = vx_pick(r.mem.size() + 1, "op"); if (o < r.mem.size()) write(d, r, s, (int)o); else assign(d, r, s, vx_any<bool>("disc"), vx_pick(2, "ref")); } vx_reach("full"); return; }
    St s = start(d, r);
    for (int i = 0; i < 3; ++i) { size_t o = vx_pick(r.mem.size() + 1, "op"); if (o < r.mem.size()) write(d, r, s, (int)o); else assign(d, r, s, vx_any<bool>("disc"), vx_pick(2, "ref")); }
    vx_reach("end");
}
template<class X> static void enum_case()
{
    X a = vx_any<X>("a"), b = vx_any<X>("b"), c = vx_any<X>("c"); vx_assume(a < b && b < c && c < std::numeric_limits<X>::max() / 2 - 1);
    EnumerationType<X> e("E"); e.add_enumerator("A", a); e.add_enumerator("B", b); e.add_enumerator("C", c);
    Ref r; r.k = ENUM; r.bytes = sizeof(X); r.sign = false; r.disc = vx_pick(2, "alias") ? DynamicType::Ptr(AliasType(e, "EA")) : DynamicType::Ptr(e); prof().chars = 1;
    r.mem = {leaf(STR), leaf(U16)}; r.lab = {L{(int64_t)b}, L{(int64_t)a}};
    defaults(r, 1);
    UnionType u("U", *r.disc);
    bool str = vx_pick(2, "as_names");
    for (int i = 0; i < 2; ++i)
        if (str) { std::vector<std::string> l; if (!r.lab[i].empty()) l.push_back(i ? "A" : "B"); if (i == r.def) l.push_back("default"); u.add_case_member(l, Member(mname(i), *build(r.mem[i]))); }
        else u.add_case_member(r.lab[i], Member(mname(i), *build(r.mem[i])), i == r.def);
    X bad = vx_any<X>("bad"); vx_assume(bad != a && bad != b && bad != c);
    vx_assert(vx_throws([&]() { UnionType w("W", *r.disc); w.add_case_member(std::vector<int64_t>{(int64_t)bad}, Member("x", StringType())); }), "a label that is not an enumerator is rejected");
    DynamicData d(u); St s = start(d, r);
    size_t pre = vx_pick(3, "pre"); if (pre < 2) write(d, r, s, (int)pre);
    bool ref = vx_pick(2, "ref"); X v = vx_any<X>("disc"); vx_assume(v == a || v == b || v == c);
    assign(d, r, s, (int64_t)v, ref);
    vx_reach("end");
}
VX_ENTRY(h_enum) { switch (vx_pick(3, "width")) { case 0: enum_case<uint8_t>(); break; case 1: enum_case<uint16_t>(); break; default: enum_case<uint32_t>(); } }
VX_ENTRY(h_labels)
{
    static const int ks[4] = {I16, U64, U8, I32}; Ref r; setk(r, ks[vx_pick(VX_LK, "kind")]);
    int64_t x[4]; for (auto& v : x) { v = r.norm(vx_any<int64_t>("label")); vx_assume(v != reserved(r)); }
    vx_assume(x[0] != x[1] && x[2] != x[3]);
    int def = (int)vx_pick(4, "default"); bool clash = x[0] == x[2] || x[0] == x[3] || x[1] == x[2] || x[1] == x[3], two = def == 3, dupname = vx_pick(2, "name");
    UnionType u("U", *r.disc); u.add_case_member(L{x[0], x[1]}, Member("a", StringType()), def == 1 || two);
    bool threw = vx_throws([&]() { u.add_case_member(L{x[2], x[3]}, dupname ? "a" : "b", primitive_type<uint8_t>(), def == 2 || two); });
    vx_assert(threw == (clash || two || dupname), "a case is accepted exactly when its labels and its name are new and it is the only default");
    std::vector<int64_t> l = u.get_labels("a"), m = u.get_labels("b"); bool ok = l.size() == 2;
    for (int64_t y : l) ok &= r.norm(y) == x[0] || r.norm(y) == x[1];
    vx_assert(ok && (threw ? m.empty() : m.size() == 2), "each label belongs to its case");
    vx_assert(u.get_default() == (def == 1 || two ? "a" : def == 2 && !threw ? "b" : ""), "the default case is the declared one");
    vx_assert(u.is_default("a") == (def == 1 || two) && u.is_default("b") == (def == 2 && !threw), "the default case is the declared one");
    vx_assert(u.get_case_members().size() == (threw ? 1u : 2u), "a rejected case changes nothing");
    if (threw) { int64_t z = r.norm(vx_any<int64_t>("after")); vx_assume(z != x[0] && z != x[1] && z != reserved(r)); u.add_case_member(L{z}, Member("c", primitive_type<int64_t>())); DynamicData d(u); d["c"] = int64_t(7); vx_assert(d.current_case().name() == "c" && r.norm(disc_of(d, r)) == z, "a rejected case changes nothing"); }
    vx_reach("end");
}
VX_ENTRY(h_many)
{
    Ref r; setk(r, vx_pick(2, "kind") ? I16 : U64); prof().chars = 1;
#ifdef VX_THOROUGH
    size_t n = 1 + vx_pick(4, "n");
#else
    size_t n = 1 + vx_pick(2, "n");
#endif
    r.mem = {leaf(U8), leaf(STR)}; r.lab.resize(2);
    for (size_t i = 0; i < n; ++i) r.lab[1].push_back(label(r));
    r.lab[0].push_back(label(r));
    if (vx_pick(2, "default")) r.def = 0;
    UnionType u = declare(r); DynamicData d(u); St s = start(d, r);
    write(d, r, s, 1);
    assign(d, r, s, r.norm(vx_any<int64_t>("disc")), true);
    vx_reach("end");
}
VX_ENTRY(h_string)
{
    static const int ks[10] = {I8, U8, I16, U16, I32, U32, I64, U64, BOOL, C8};
    Ref r; setk(r, ks[vx_pick(10, "kind")]); prof().chars = 1;
    std::string t; int64_t v = 0;
    if (r.k == BOOL) { v = (int64_t)vx_pick(2, "b"); t = v ? "TRUE" : "FALSE"; vx_assert(vx_throws([&]() { UnionType w("W", *r.disc); w.add_case_member(std::vector<std::string>{"1"}, Member("x", StringType())); }), "a boolean label is TRUE or FALSE"); }
    else if (r.k == C8) { char c = vx_any<char>("c"); vx_assume(c != '\'' && c > 0 && c < 0x7e); v = c; if (vx_pick(2, "quoted")) { t = "'"; t.push_back(c); t.push_back('\''); } else t.push_back(c); }
    else
    {
        unsigned base = vx_pick(3, "base"), n = 1 + vx_pick(r.bytes == 1 ? 2 : VX_DIGITS, "digits"); bool neg = r.sign && base == 0 && vx_pick(2, "neg");
        if (neg) t = "-"; if (base == 1) t += "0x"; if (base == 2) t += "0"; unsigned bb = base == 0 ? 10 : base == 1 ? 16 : 8;
        for (unsigned i = 0; i < n; ++i) { unsigned char x = vx_any<unsigned char>("digit"); vx_assume(x < bb); if (base == 0 && i == 0 && n > 1) vx_assume(x != 0); v = v * bb + x; t.push_back(x < 10 ? char('0' + x) : char('a' + x - 10)); }
        if (neg) v = -v; v = r.norm(v);
        vx_assume(v != reserved(r));
    }
    r.mem = {leaf(STR), leaf(U16)}; r.lab = {L{v}, L{}}; UnionType u("U", *r.disc);
    if (vx_pick(2, "default")) { u.add_case_member(std::vector<std::string>{t, "default"}, Member("m0", StringType())); r.def = 0; r.mem.pop_back(); r.lab.pop_back(); }
    else { u.add_case_member(std::vector<std::string>{t}, Member("m0", StringType())); u.add_case_member(std::vector<std::string>{"default"}, Member("m1", primitive_type<uint16_t>())); r.def = 1; }
    DynamicData d(u); St s = start(d, r); write(d, r, s, 0); if (r.k == BOOL) assign(d, r, s, (int64_t)vx_any<bool>("db"), true); else assign(d, r, s, v, true);
    vx_reach("end");
}
VX_ENTRY(h_copy)
{
    Ref r; setk(r, I16); prof().elems = 1; prof().chars = 17;
    r.mem = {leaf(STR), seq(leaf(U16)), leaf(F64)}; r.lab = {L{3, -4}, L{200}, L{-30000, 0}};
    defaults(r, 0);
    UnionType u = declare(r); DynamicData d(u); St s = start(d, r); size_t pre = vx_pick(4, "pre"); if (pre < 3) write(d, r, s, (int)pre);
    DynamicType::Ptr al = DynamicType::Ptr(AliasType(u, "UA")); DynamicData target(u); St ts = start(target, r);
    size_t how = vx_pick(5, "how"); if (how > 1 && how < 4) { size_t tp = vx_pick(3, "target"); if (tp < 2) write(target, r, ts, (int)tp); }
    DynamicData* c = &target; std::unique_ptr<DynamicData> own;
    switch (how) { case 0: own.reset(new DynamicData(d)); c = own.get(); break; case 1: own.reset(new DynamicData(d, *al)); c = own.get(); break; case 2: target = d; break; case 3: target.ref() = d.ref(); break; default: { DynamicData t(d); target = std::move(t); } }
    agree(*c, r, s); agree(d, r, s);
    St cs = s; if (vx_pick(2, "then")) assign(*c, r, cs, r.norm(vx_any<int64_t>("disc")), false); else write(*c, r, cs, (int)vx_pick(3, "w"));
    agree(d, r, s);
    vx_reach("end");
}
VX_ENTRY(h_large)
{
    unsigned n = vx_pick(2, "n") ? 130 : 34, form = (unsigned)vx_pick(3, "labels"); bool def = vx_pick(2, "default"); Ref r; r.disc = build(leaf(I32));
    for (unsigned i = 0; i < n; ++i) { r.mem.push_back(leaf(i % 3 == 0 ? I64 : i % 3 == 1 ? STR : U8)); int64_t x = form == 0 ? i : form == 1 ? 1000 - int64_t(i) : (int64_t(i) - 17) * 1000003; r.lab.push_back(L{x, x + (form == 2 ? 1 : 5000)}); }
    if (def) { r.def = (int)(n / 2); }
    DynamicType::Ptr ty(declare(r)); const UnionType& u = static_cast<const UnionType&>(*ty); vx_assert(u.get_case_members().size() == n, "every case is kept"); prof().chars = 2; prof().elems = 1;
    unsigned w = 0; switch (vx_pick(3, "w")) { case 0: break; case 1: w = n / 2; break; default: w = n - 1; }
    DynamicData d(*ty); S v = any(r.mem[w]); put(d[mname(w)], r.mem[w], v); int64_t now = disc_of(d, r);
    vx_assert(r.sel(now) == (int)w && d.current_case().name() == mname(w) && has(d[mname(w)], r.mem[w], v), "writing a member selects it");
    for (unsigned i = 0; i < n; i += 13) if (i != w) vx_assert(vx_throws([&]() { d.cref()[mname(i)]; }), "a member that is not selected is not readable");
    int32_t x = vx_any<int32_t>("disc"); bool own = r.own(w, x) || ((int)w == r.def && !r.listed(x)); vx_assume(x != reserved(r));
    bool threw = vx_throws([&]() { d.d(x); }); vx_assert(threw == !own, "the discriminator accepts exactly the values of the selected case");
    vx_assert(has(d[mname(w)], r.mem[w], v) && (threw ? disc_of(d, r) == now : disc_of(d, r) == x), "the value survives"); vx_reach("end");
}
