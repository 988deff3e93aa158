// Hashes depend on the value only, and small keys never collide
//! entry h_value : two instances with the same value, built directly and through another value/history; 13 root shapes x 11 contents; all values
//! entry h_copy : hash of copies, moved and assigned instances; 13 root shapes x 11 contents
//! entry h_padding : a long double (whose last six bytes are padding) selected in a union, resized into a sequence or stored in a map after other values occupied the memory; all values
//! entry h_inject : two different values of every integer, character, boolean and enumeration kind
//! entry h_large : the hashes of two equal instances of 34, 130 and 260 elements (11 shapes), one of them overwritten before
//! entry h_bulk : the hashes of two equal instances of 64 KiB or more (12 shapes), one of them holding an arbitrary value at one of four places before
//! entry h_nest : h_value and h_copy on chains of 5 and 17 levels of one kind of container (structure, array, sequence, map, union, alias, bounded sequence; derived structure: 5 and 6) or all of them in turn
#include "xt.h"
using namespace xt;
// builds the value in another way: different insertion order, pushes, earlier other contents
static void put2(WritableDynamicDataRef d, const T& t, const S& s)
{
    switch (t.k)
    {
        case STR: d = std::string(17, 'q'); d = str<char>(s.s); break;
        case WSTR: d = std::wstring(17, L'q'); d = str<wchar_t>(s.s); break;
        case STR16: d = std::u16string(17, u'q'); d = str<char16_t>(s.s); break;
        case ARR: for (size_t i = t.n; i-- > 0; ) put2(d[i], t.sub[0], s.sub[i]); break;
        case SEQ: for (size_t i = 0; i < s.sub.size(); ++i) { DynamicData x(*build(t.sub[0])); put2(x, t.sub[0], s.sub[i]); d.push(x); } break;
        case MAP: for (size_t i = s.sub.size(); i-- > 0; ) { DynamicData k(*build(t.sub[0])); put2(k, t.sub[0], s.sub[i].sub[0]); put2(d[k], t.sub[1], s.sub[i].sub[1]); } break;
        case ALIAS: put2(d, t.sub[0], s); break;
        case STRUCT: for (size_t i = t.sub.size(); i-- > 0; ) put2(d[i], t.sub[i], s.sub[i]); break;
        case UNION: for (size_t i = 0; i < t.sub.size(); ++i) if ((int)i != s.act) { S o; o.act = (int)i; o.sub.push_back(any(t.sub[i])); put(d, t, o); } put2(d[mname(s.act)], t.sub[s.act], s.sub[0]); break;
        default: put(d, t, s);
    }
}
VX_ENTRY(h_value)
{
    T t = pick_type(); prof() = pick_profile();
    DynamicType::Ptr ty = build(t);
    DynamicData a(*ty), b(*build(t));
    S s = any(t);
    put(a, t, s);
    put2(b, t, s);
    uint64_t ha = a.hash(), hb = b.hash();
    vx_assert(ha == hb, "equal values have equal hashes, whatever their history");
    vx_assert(a.hash() == ha, "hashing is repeatable");
    vx_reach("end");
}
VX_ENTRY(h_copy)
{
    T t = pick_type(); prof().elems = 2; prof().chars = 2;
    DynamicType::Ptr ty = build(t);
    DynamicData a(*ty);
    S s = any(t);
    put(a, t, s);
    uint64_t h = a.hash();
    switch (vx_pick(4, "form"))
    {
        case 0: { DynamicData c(a); vx_assert(c.hash() == h, "a copy has the same hash"); break; }
        case 1: { DynamicData c(*ty); c = a; vx_assert(c.hash() == h, "an assigned instance has the same hash"); break; }
        case 2: { DynamicData c(std::move(a)); vx_assert(c.hash() == h, "a moved instance has the same hash"); break; }
        default: { DynamicData c(a, *ty); vx_assert(c.hash() == h, "a converted instance of the same type has the same hash"); }
    }
    vx_reach("end");
}
VX_ENTRY(h_inject)
{
    static const int ks[] = {BOOL, I8, U8, I16, U16, I32, U32, I64, U64, C8, C16, WC, ENUM};
    T t = leaf(ks[vx_pick(13, "kind")]);
    DynamicData a(*build(t)), b(*build(t));
    S s = any(t), r = any(t);
    put(a, t, s); put(b, t, r);
    vx_assert((a.hash() == b.hash()) == same(t, s, r), "different small values have different hashes");
    vx_reach("end");
}
VX_ENTRY(h_padding)
{
    T c; switch (vx_pick(3, "content")) { case 0: c = leaf(F128); break; case 1: c = st({leaf(U8), leaf(F128)}); break; default: c = arr(2, leaf(F128)); }
    T t = un({st({leaf(U64), leaf(U64), leaf(U64), leaf(U64)}), c});
    DynamicType::Ptr ty = build(t); DynamicData a(*ty), b(*ty);
    S s = any(c), o; o.act = 0; o.sub.push_back(any(t.sub[0])); S w; w.act = 1; w.sub.push_back(s);
    put(a, t, o); put(b, t, w);
    switch (vx_pick(4, "form"))
    {
        case 0: put(a, t, w); break;
        case 1: a = b; break;
        case 2: a["m1"] = b["m1"]; break;
        default: { DynamicData x(*build(c)); put(x, c, s); a["m1"] = std::move(x); }
    }
    vx_assert(a.hash() == b.hash() && a["m1"].hash() == b["m1"].hash(), "the hash depends on the value only");
    DynamicData m(a), n(*build(seq(t, 2))); n.resize(1); n[0] = a; vx_assert(m.hash() == b.hash() && n[0].hash() == b.hash(), "the hash depends on the value only");
    vx_reach("end");
}
static const unsigned sizes[3] = {34, 130, 260};
VX_ENTRY(h_large)
{
    Big b = pick_big(sizes); prof().elems = 1; prof().chars = 2; DynamicType::Ptr ty = build(b.t); DynamicData x(*ty), y(*ty); S n = b.s; part(b.t, n, b.n / 3) = fresh(child(b.t, b.n / 3), part(b.t, n, b.n / 3));
    put(x, b.t, b.s); put(y, b.t, n); put(y, b.t, b.s); DynamicData z(y);
    uint64_t h = x.hash(); vx_assert(vx_same(h, y.hash()) && vx_same(h, z.hash()), "equal values have equal hashes"); vx_reach("end");
}
VX_ENTRY(h_bulk)
{
    Bulk b = pick_bulk(); prof().finite = true; prof().chars = 2; DynamicType::Ptr ty = build(b.t); DynamicData x(*ty), y(*ty); S w = any(b.e); b.v = bulk_mark(b, 40); bulk_put(x, b, b.v); bulk_put(y, b, w); bulk_put(y, b, b.v); DynamicData z(y);
    uint64_t h = x.hash(); vx_assert(vx_same(h, y.hash()) && vx_same(h, z.hash()), "equal values have equal hashes"); vx_reach("end");
}
VX_ENTRY(h_nest)
{
    nest_mode() = true; switch (vx_pick(2, "what")) { case 0: h_value(); break; default: h_copy(); }
}
