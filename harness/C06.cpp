// Map as a bounded finite map
//! entry h_history : 8 key/value type pairs (integer, string, enum, struct, alias keys) unbounded; 3 operations (thorough: 4) from {assign, insert pair, lookup}; all keys and values
//! entry h_bounded : bound 1..2; 4 operations (thorough: 5); insertion beyond the bound fails and changes nothing
//! entry h_many : integer keys, 5 (thorough: 6) assignments with arbitrary keys in any order, all read back
//! entry h_absent : reading an absent key fails and changes nothing; key of another type is rejected
//! entry h_large : maps of 34, 130 and 260 keys inserted in ascending, descending or mixed order (integer, string, structure keys), unbounded or full; a new or old key (for 34 integer keys any of 40) assigned and looked up afterwards, every key read back
//! entry h_bulk steps=300000000 : maps of 64 KiB or more: 20 values of 4000 bytes, 300 values of 300 bytes, 10 keys of 6600 bytes; one value arbitrary at one of four places, keys in ascending or mixed order
#include "xt.h"
using namespace xt;
#ifdef VX_THOROUGH
enum { NH = 4, NB = 5, NM = 6 };
#else
enum { NH = 3, NB = 4, NM = 5 };
#endif
struct Ref { std::vector<S> k, v; };
static int find(const Ref& m, const T& kt, const S& k) { for (size_t i = 0; i < m.k.size(); ++i) if (same(kt, m.k[i], k)) return (int)i; return -1; }
static void check(DynamicData& d, const T& t, const Ref& m, const char* msg)
{
    S s; for (size_t i = 0; i < m.k.size(); ++i) { S p; p.sub.push_back(m.k[i]); p.sub.push_back(m.v[i]); s.sub.push_back(p); }
    vx_assert(d.size() == m.k.size(), "the size is the number of distinct keys");
    vx_assert(has(d, t, s), msg);
}
// one arbitrary operation on d, mirrored on m
static void op(DynamicData& d, const T& t, Ref& m)
{
    DynamicData k(*build(t.sub[0])); S ks = any(t.sub[0]); put(k, t.sub[0], ks);
    int at = find(m, t.sub[0], ks);
    bool full = t.n && m.k.size() >= t.n;
    switch (vx_pick(3, "op"))
    {
        case 0:
        {
            S v = any(t.sub[1]);
            bool threw = vx_throws([&]() { DynamicData x(*build(t.sub[1])); put(x, t.sub[1], v); d[k] = x; });
            vx_assert(threw == (at < 0 && full), "assigning a key fails exactly when it is new and the map is full");
            if (at >= 0) m.v[at] = v; else if (!full) { m.k.push_back(ks); m.v.push_back(v); }
            break;
        }
        case 1:
        {
            DynamicType::Ptr ty = build(t);
            DynamicData p(static_cast<const MapType&>(*ty).content_type());
            S v = any(t.sub[1]);
            put(p[0], t.sub[0], ks); put(p[1], t.sub[1], v);
            bool ok = d.insert(p);
            vx_assert(ok == (at < 0 && !full), "insert succeeds exactly when the key is new and fits");
            if (ok) { m.k.push_back(ks); m.v.push_back(v); }
            break;
        }
        default:
            vx_assert(d.has_key(k) == (at >= 0), "has_key answers whether the key was inserted");
            if (at >= 0) vx_assert(has(d.at(k), t.sub[1], m.v[at]), "lookup returns the last value written");
            else vx_assert(vx_throws([&]() { d.cref().at(k); }), "reading an absent key fails");
    }
}
static T kv(unsigned n, uint32_t bound = 0)
{
    switch (n)
    {
        case 0: return map(leaf(U16), leaf(I32), bound);
        case 1: return map(leaf(I64), leaf(STR), bound);
        case 2: return map(leaf(STR), leaf(U8), bound);
        case 3: return map(leaf(ENUM), seq(leaf(U8)), bound);
        case 4: return map(ali(leaf(I8)), map(leaf(U8), leaf(STR)), bound);
        case 5: return map(leaf(C16), st({leaf(U8), leaf(STR)}), bound);
        case 6: return map(leaf(BOOL), leaf(F64), bound);
        default: return map(leaf(STR16), un({leaf(STR), leaf(I16)}), bound);
    }
}
VX_ENTRY(h_history)
{
    T t = kv(vx_pick(8, "type")); prof().elems = 1; prof().chars = 1;
    DynamicData d(*build(t)); Ref m;
    for (int i = 0; i < NH; ++i) op(d, t, m);
    check(d, t, m, "the map holds exactly the keys inserted with their last values");
    vx_reach("end");
}
VX_ENTRY(h_bounded)
{
    uint32_t b = 1 + vx_pick(2, "bound");
    T t = kv(vx_pick(3, "type"), b); prof().elems = 1; prof().chars = 1;
    DynamicData d(*build(t)); Ref m;
    for (int i = 0; i < NB; ++i) op(d, t, m);
    check(d, t, m, "a bounded map holds exactly the keys accepted with their last values");
    vx_reach("end");
}
VX_ENTRY(h_many)
{
    T t = map(vx_pick(2, "key") ? leaf(I32) : leaf(U8), leaf(U16));
    DynamicData d(*build(t)); Ref m;
    for (int i = 0; i < NM; ++i)
    {
        DynamicData k(*build(t.sub[0])); S ks = any(t.sub[0]), v = any(t.sub[1]); put(k, t.sub[0], ks);
        int at = find(m, t.sub[0], ks);
        put(d[k], t.sub[1], v);
        if (at >= 0) m.v[at] = v; else { m.k.push_back(ks); m.v.push_back(v); }
    }
    check(d, t, m, "all keys keep their last value, in any insertion order");
    vx_reach("end");
}
VX_ENTRY(h_absent)
{
    T t = kv(vx_pick(3, "type")); prof().chars = 1; prof().elems = 2;
    DynamicData d(*build(t)); S s = any(t); put(d, t, s);
    DynamicData k(*build(t.sub[0])); S ks = any(t.sub[0]); put(k, t.sub[0], ks);
    for (auto& p : s.sub) vx_assume(!same(t.sub[0], p.sub[0], ks));
    vx_assert(vx_throws([&]() { d.cref().at(k); }), "reading an absent key of a readable reference fails");
    vx_assert(vx_throws([&]() { d.at(k); }), "reading an absent key fails");
    vx_assert(!d.has_key(k), "an absent key is not reported");
    DynamicData w(SequenceType(primitive_type<char>()));
    vx_assert(vx_throws([&]() { d[w]; }) && vx_throws([&]() { d.at(w); }) && vx_throws([&]() { d.has_key(w); }), "a key of another type is rejected");
    vx_assert(has(d, t, s), "failed lookups change nothing");
    vx_reach("end");
}
VX_ENTRY(h_large)
{
    static const unsigned sizes[3] = {34, 130, 260}; unsigned n = pick_n(sizes); bool full = vx_pick(2, "full");
    unsigned kk = (unsigned)vx_pick(3, "key"); T kt = kk == 0 ? leaf(I32) : kk == 1 ? leaf(STR) : st({leaf(U16), leaf(STR)}); T t = map(kt, leaf(I64), full ? n : 0);
    DynamicType::Ptr ty = build(t); DynamicData d(*ty); unsigned order = (unsigned)vx_pick(3, "order"); std::vector<S> ks; unsigned c = 0; for (unsigned i = 0; i < n; ++i) ks.push_back(ramp(kt, 0, c));
    auto at = [&](unsigned i) { return order == 0 ? i : order == 1 ? n - 1 - i : (i * 7) % n; };
    for (unsigned i = 0; i < n; ++i) { DynamicData k(*build(kt)); put(k, kt, ks[at(i)]); d[k] = int64_t(at(i)) * 3; }
    vx_assert(d.size() == n, "the size is the number of distinct keys");
    // one more assignment, with an arbitrary key for integers, an old or a new one else
    int64_t v = vx_any<int64_t>("v"); unsigned old = n; DynamicData k(*build(kt)); S s;
    if (kk == 0 && n == 34) { int32_t a = (int32_t)vx_pick(n + 6, "k") - 2; toS(a, s); if (a >= 1 && a <= int32_t(n)) old = (unsigned)a - 1; }
    else if (vx_pick(2, "old")) { old = n - 1 - n / 3; s = ks[old]; } else s = ramp(kt, 0, c);
    put(k, kt, s); vx_assert(d.has_key(k) == (old < n), "exactly the inserted keys are reported");
    bool threw = vx_throws([&]() { d[k] = v; }); vx_assert(threw == (full && old == n), "assigning a key fails exactly when it is new and the map is full");
    vx_assert(d.size() == n + (old == n && !threw), "the size is the number of distinct keys"); if (!threw) vx_assert(vx_same<int64_t>(d.cref().at(k).value<int64_t>(), v), "the new value is read back");
    bool ok = true; for (unsigned i = 0; i < n; ++i) { DynamicData q(*build(kt)); put(q, kt, ks[i]); int64_t w = d.cref().at(q).value<int64_t>(), x = i == old ? v : int64_t(i) * 3; ok &= vx_same(w, x); }
    vx_assert(ok, "every key keeps its last value, in any insertion order"); vx_reach("end");
}
VX_ENTRY(h_bulk)
{
    unsigned n, z; T kt = leaf(U16), vt; switch (vx_pick(3, "shape")) { case 0: n = 20; z = 4000; vt = arr(z, leaf(U8)); break; case 1: n = 300; z = 300; vt = arr(z, leaf(U8)); break; default: n = 10; z = 6600; kt = arr(z, leaf(U8)); vt = leaf(I64); }
    T t = map(kt, vt); DynamicType::Ptr ty = build(t), kty = build(kt); DynamicData d(*ty); bool mixed = vx_pick(2, "mixed"); uint8_t v = vx_any<uint8_t>("v"); unsigned p = 0; switch (vx_pick(4, "at")) { case 0: break; case 1: p = n / 2; break; case 2: p = n - 2; break; default: p = n - 1; }
    auto key = [&](unsigned i) { DynamicData k(*kty); if (kt.k == ARR) k[z - 1] = uint8_t(i); else k = uint16_t(i); return k; };
    auto write = [&](unsigned i, uint8_t x) { DynamicData k = key(i); if (vt.k == ARR) { d[k][z - 1] = x; d[k][0] = uint8_t(i); } else d[k] = int64_t(x); };
    for (unsigned a = 0; a < n; ++a) { unsigned i = mixed ? (a * 7) % n : a; write(i, i == p ? v : uint8_t(i + 1)); }
    bool ok = d.size() == n; for (unsigned i = 0; i < n; ++i) { DynamicData k = key(i); if (!d.has_key(k)) { ok = false; break; } uint8_t w = i == p ? v : uint8_t(i + 1); if (vt.k == ARR) ok &= d.at(k)[z - 1].value<uint8_t>() == w && d.at(k)[0].value<uint8_t>() == uint8_t(i) && d.at(k)[z / 2].value<uint8_t>() == 0; else ok &= d.at(k).value<int64_t>() == w; }
    vx_assert(ok, "every key keeps its last value, in any insertion order"); DynamicData c(d); vx_assert(c == d && c.size() == n && !c.has_key(key(n)), "copies are equal"); vx_reach("end");
}
