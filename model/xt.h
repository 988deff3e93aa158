// Harness library: bounded arbitrary types, arbitrary values, and an independent reference value
// (shadow) that the real DynamicData is compared against through the public API only.
#pragma once
#include <xtypes/xtypes.hpp>
#include <vector>
#include <string>
#include "vx.h"
namespace xt {
using namespace eprosima::xtypes;
enum K { BOOL, I8, U8, I16, U16, I32, U32, I64, U64, F32, F64, F128, C8, C16, WC, STR, WSTR, STR16, ENUM, ARR, SEQ, MAP, STRUCT, UNION, ALIAS, NONE_ };
struct T // type description
{
    int k; uint32_t n = 0; std::vector<T> sub;
    T(int k = U8) : k(k) {}
    T(int k, uint32_t n, std::vector<T> s) : k(k), n(n), sub(s) {}
};
inline T leaf(int k, uint32_t n = 0) { T t(k); t.n = n; return t; }
inline T arr(uint32_t n, T c) { return T(ARR, n, {c}); }
inline T seq(T c, uint32_t b = 0) { return T(SEQ, b, {c}); }
inline T map(T k, T v, uint32_t b = 0) { return T(MAP, b, {k, v}); }
inline T st(std::vector<T> m) { return T(STRUCT, 0, m); }
inline T der(uint32_t inherited, std::vector<T> m) { return T(STRUCT, inherited, m); } // first `inherited` members come from a parent
inline T un(std::vector<T> m) { return T(UNION, 0, m); }
inline T ali(T c) { return T(ALIAS, 0, {c}); }
inline const T& res(const T& t) { return t.k == ALIAS ? res(t.sub[0]) : t; }
inline std::string mname(size_t i) { std::string s("m0"); if (i < 10) { s[1] = char('0' + i); return s; } return "m" + std::to_string(i); }
// dispatch a primitive kind to its C++ type
template<class F> inline void prim(int k, F f)
{
    switch (k)
    {
        case BOOL: f(bool()); break; case I8: f(int8_t()); break; case U8: f(uint8_t()); break; case I16: f(int16_t()); break; case U16: f(uint16_t()); break;
        case I32: f(int32_t()); break; case U32: f(uint32_t()); break; case I64: f(int64_t()); break; case U64: f(uint64_t()); break; case F32: f(float()); break;
        case F64: f(double()); break; case F128: f((long double)0); break; case C8: f(char()); break; case C16: f(char16_t()); break; case WC: f(wchar_t()); break;
    }
}
inline DynamicType::Ptr build(const T& t)
{
    DynamicType::Ptr r;
    switch (t.k)
    {
        case STR: r = DynamicType::Ptr(StringType(t.n)); break;
        case WSTR: r = DynamicType::Ptr(WStringType(t.n)); break;
        case STR16: r = DynamicType::Ptr(String16Type(t.n)); break;
        case ENUM: { EnumerationType<uint32_t> e("E"); e.add_enumerator("A"); e.add_enumerator("B", 5); e.add_enumerator("C"); r = DynamicType::Ptr(e); break; }
        case ARR: r = DynamicType::Ptr(ArrayType(*build(t.sub[0]), t.n)); break;
        case SEQ: r = DynamicType::Ptr(SequenceType(*build(t.sub[0]), t.n)); break;
        case MAP: r = DynamicType::Ptr(MapType(*build(t.sub[0]), *build(t.sub[1]), t.n)); break;
        case ALIAS: r = DynamicType::Ptr(AliasType(build(t.sub[0]), "Al")); break;
        case STRUCT:
        {
            if (!t.n) { StructType s("S"); for (size_t i = 0; i < t.sub.size(); ++i) s.add_member(mname(i), *build(t.sub[i])); r = DynamicType::Ptr(s); break; }
            StructType p("P"); for (size_t i = 0; i < t.n; ++i) p.add_member(mname(i), *build(t.sub[i]));
            StructType s("S", &p); for (size_t i = t.n; i < t.sub.size(); ++i) s.add_member(mname(i), *build(t.sub[i]));
            r = DynamicType::Ptr(s); break;
        }
        case UNION:
        {   // int32 discriminator; member i has labels 10*i and 10*i+1; n != 0: member 0 is the default
            UnionType u("U", primitive_type<int32_t>());
            for (size_t i = 0; i < t.sub.size(); ++i) u.add_case_member(std::vector<int32_t>{int32_t(10 * i), int32_t(10 * i + 1)}, Member(mname(i), *build(t.sub[i])), t.n && i == 0);
            r = DynamicType::Ptr(u); break;
        }
        default: prim(t.k, [&](auto x) { r = DynamicType::Ptr(primitive_type<decltype(x)>()); });
    }
    return r;
}
// ---- reference values
struct S { uint64_t lo = 0, hi = 0; std::u32string s; std::vector<S> sub; int act = -1; };
template<class X> inline void toS(const X& x, S& s) { s.lo = s.hi = 0; if constexpr (std::is_same<X, long double>::value) { std::memcpy(&s.lo, &x, 8); std::memcpy(&s.hi, (const char*)&x + 8, 2); } else std::memcpy(&s.lo, &x, sizeof(X)); }
template<class X> inline X fromS(const S& s) { if constexpr (std::is_same<X, long double>::value) { X x = 0; std::memcpy(&x, &s.lo, 8); std::memcpy((char*)&x + 8, &s.hi, 2); return x; } else if constexpr (std::is_same<X, bool>::value) return s.lo & 1; else { X x; std::memcpy(&x, &s.lo, sizeof(X)); return x; } }
// how many elements / characters the current path uses
struct Profile { unsigned elems = 2, chars = 3; bool finite = false; };
inline Profile& prof() { static Profile p; return p; }
inline bool& nest_mode() { static bool b = false; return b; }
inline Profile pick_profile() { if (nest_mode()) { Profile r; r.elems = 1; r.chars = 2; return r; } static const unsigned c[3] = {0, 3, 17}; unsigned p = vx_pick(3, "profile"); Profile r; r.elems = p == 0 ? 0 : p == 1 ? 1 : 3; r.chars = c[p]; return r; }
inline bool same(const T& t, const S& a, const S& b);
inline S any(const T& t, int depth = 0)
{
    S s;
    switch (t.k)
    {
        case STR: case WSTR: case STR16: { unsigned n = prof().chars; if (t.n && n > t.n) n = t.n; for (unsigned i = 0; i < n; ++i) s.s.push_back(t.k == STR ? (char32_t)vx_any<unsigned char>("c") : t.k == STR16 ? (char32_t)vx_any<char16_t>("c") : (char32_t)vx_any<uint32_t>("c")); break; }
        case ENUM: { static const uint32_t v[3] = {0, 5, 6}; s.lo = v[vx_pick(3, "enum")]; break; }
        case ARR: for (uint32_t i = 0; i < t.n; ++i) s.sub.push_back(any(t.sub[0], depth + 1)); break;
        case SEQ: { unsigned n = prof().elems; if (depth && n > 2) n = 2; if (nest_mode() && n > 1) n = 1; if (t.n && n > t.n) n = t.n; for (unsigned i = 0; i < n; ++i) s.sub.push_back(any(t.sub[0], depth + 1)); break; }
        case MAP: { unsigned n = prof().elems; if (n > 2) n = 2; if (nest_mode() && n > 1) n = 1; if (t.n && n > t.n) n = t.n; for (unsigned i = 0; i < n; ++i) { S p; p.sub.push_back(any(t.sub[0], depth + 1)); p.sub.push_back(any(t.sub[1], depth + 1)); for (unsigned j = 0; j < i; ++j) { vx_assume(!same(t.sub[0], p.sub[0], s.sub[j].sub[0])); } s.sub.push_back(p); } break; }
        case ALIAS: return any(t.sub[0], depth);
        case STRUCT: for (auto& m : t.sub) s.sub.push_back(any(m, depth + 1)); break;
        case UNION: s.act = (int)vx_pick(t.sub.size(), "case"); s.sub.push_back(any(t.sub[s.act], depth + 1)); break;
        default: prim(t.k, [&](auto x) { auto v = vx_any<decltype(x)>("v"); if constexpr (std::is_floating_point<decltype(x)>::value) { if (prof().finite) vx_assume(v == v); } toS(v, s); });
    }
    return s;
}
template<class C> inline std::basic_string<C> str(const std::u32string& s) { std::basic_string<C> r; for (auto c : s) r.push_back((C)c); return r; }
inline void put(WritableDynamicDataRef d, const T& t, const S& s)
{
    switch (t.k)
    {
        case STR: d = str<char>(s.s); break;
        case WSTR: d = str<wchar_t>(s.s); break;
        case STR16: d = str<char16_t>(s.s); break;
        case ENUM: d = (uint32_t)s.lo; break;
        case ARR: for (size_t i = 0; i < t.n; ++i) put(d[i], t.sub[0], s.sub[i]); break;
        case SEQ: d.resize(s.sub.size()); for (size_t i = 0; i < s.sub.size(); ++i) put(d[i], t.sub[0], s.sub[i]); break;
        case MAP: for (auto& p : s.sub) { DynamicData k(*build(t.sub[0])); put(k, t.sub[0], p.sub[0]); put(d[k], t.sub[1], p.sub[1]); } break;
        case ALIAS: put(d, t.sub[0], s); break;
        case STRUCT: for (size_t i = 0; i < t.sub.size(); ++i) put(d[mname(i)], t.sub[i], s.sub[i]); break;
        case UNION: put(d[mname(s.act)], t.sub[s.act], s.sub[0]); break;
        default: prim(t.k, [&](auto x) { d = fromS<decltype(x)>(s); });
    }
}
template<class C> inline bool eqstr(const std::basic_string<C>& a, const std::u32string& b) { if (a.size() != b.size()) return false; std::basic_string<C> w = str<C>(b); return vx_equal(a.data(), w.data(), a.size() * sizeof(C)); }
inline bool has(ReadableDynamicDataRef d, const T& t, const S& s) // does d hold exactly s?
{
    bool ok = true;
    switch (t.k)
    {
        case STR: return eqstr(d.value<std::string>(), s.s);
        case WSTR: return eqstr(d.value<std::wstring>(), s.s);
        case STR16: return eqstr(d.value<std::u16string>(), s.s);
        case ENUM: { uint32_t v = d.value<uint32_t>(), w = (uint32_t)s.lo; return vx_same(v, w); }
        case ARR: if (d.size() != t.n) return false; for (size_t i = 0; i < t.n; ++i) ok &= has(d[i], t.sub[0], s.sub[i]); return ok;
        case SEQ: if (d.size() != s.sub.size()) return false; for (size_t i = 0; i < s.sub.size(); ++i) ok &= has(d[i], t.sub[0], s.sub[i]); return ok;
        case MAP: if (d.size() != s.sub.size()) return false; for (auto& p : s.sub) { DynamicData k(*build(t.sub[0])); put(k, t.sub[0], p.sub[0]); ok &= has(d.at(k), t.sub[1], p.sub[1]); } return ok;
        case ALIAS: return has(d, t.sub[0], s);
        case STRUCT: if (d.size() != t.sub.size()) return false; for (size_t i = 0; i < t.sub.size(); ++i) { ok &= has(d[mname(i)], t.sub[i], s.sub[i]); if (!nest_mode()) ok &= has(d[i], t.sub[i], s.sub[i]); } return ok;
        case UNION: if (s.act < 0) return vx_throws([&]() { d.current_case(); }); return d.current_case().name() == mname(s.act) && has(d[mname(s.act)], t.sub[s.act], s.sub[0]);
        default: prim(t.k, [&](auto x) { typedef decltype(x) X; X v = d.value<X>(), w = fromS<X>(s); ok = vx_same(v, w); });
    }
    return ok;
}
// structural equality of reference values under the C++ equality of the leaves
inline bool same(const T& t, const S& a, const S& b)
{
    bool ok = true;
    switch (t.k)
    {
        case STR: if (a.s.size() != b.s.size()) return false; for (size_t i = 0; i < a.s.size(); ++i) ok &= a.s[i] == b.s[i]; return ok;
        case WSTR: case STR16: if (a.s.size() != b.s.size()) return false; for (size_t i = 0; i < a.s.size(); ++i) ok &= a.s[i] == b.s[i]; return ok;
        case ENUM: return a.lo == b.lo;
        case ALIAS: return same(t.sub[0], a, b);
        case UNION: return a.act == b.act && same(t.sub[a.act], a.sub[0], b.sub[0]);
        case MAP:
        {
            if (a.sub.size() != b.sub.size()) return false;
            for (auto& p : a.sub) { bool f = false; for (auto& q : b.sub) f |= same(t.sub[0], p.sub[0], q.sub[0]) & same(t.sub[1], p.sub[1], q.sub[1]); ok &= f; }
            return ok;
        }
        case ARR: case SEQ: if (a.sub.size() != b.sub.size()) return false; for (size_t i = 0; i < a.sub.size(); ++i) ok &= same(t.sub[0], a.sub[i], b.sub[i]); return ok;
        case STRUCT: for (size_t i = 0; i < t.sub.size(); ++i) ok &= same(t.sub[i], a.sub[i], b.sub[i]); return ok;
        default: prim(t.k, [&](auto x) { typedef decltype(x) X; ok = fromS<X>(a) == fromS<X>(b); });
    }
    return ok;
}
// same shape (sizes, keys, union case) as s, new leaf values
inline S fresh(const T& t, const S& s)
{
    S r;
    switch (t.k)
    {
        case ALIAS: return fresh(t.sub[0], s);
        case UNION: r.act = s.act; if (s.act >= 0) r.sub.push_back(fresh(t.sub[s.act], s.sub[0])); return r;
        case MAP: for (auto& p : s.sub) { S q; q.sub.push_back(p.sub[0]); q.sub.push_back(fresh(t.sub[1], p.sub[1])); r.sub.push_back(q); } return r;
        case ARR: case SEQ: for (auto& e : s.sub) r.sub.push_back(fresh(t.sub[0], e)); return r;
        case STRUCT: for (size_t i = 0; i < t.sub.size(); ++i) r.sub.push_back(fresh(t.sub[i], s.sub[i])); return r;
        default: return any(t);
    }
}
inline S zero(const T& t) // documented default value
{
    S s;
    switch (t.k)
    {
        case ARR: for (uint32_t i = 0; i < t.n; ++i) s.sub.push_back(zero(t.sub[0])); break;
        case ALIAS: return zero(t.sub[0]);
        case STRUCT: for (auto& m : t.sub) s.sub.push_back(zero(m)); break;
        case UNION: if (t.n) { s.act = 0; s.sub.push_back(zero(t.sub[0])); } break;
        default: break;
    }
    return s;
}
// ---- bounded arbitrary types
inline T pick_leaf() // every kind of leaf
{ return leaf((int)vx_pick(19, "leaf")); }
inline T pick_small()
{
    switch (vx_pick(5, "small")) { case 0: return leaf(U8); case 1: return leaf(F64); case 2: return leaf(STR); case 3: return leaf(ENUM); default: return leaf(I64); }
}
inline T pick_mid() // content of a container: leaf or a one-level container
{
    switch (vx_pick(11, "mid"))
    {
        case 0: return leaf(U8); case 1: return leaf(I32); case 2: return leaf(STR); case 3: return leaf(F64);
        case 4: return seq(leaf(STR)); case 5: return seq(leaf(U16), 4); case 6: return st({leaf(U8), leaf(STR)});
        case 7: return un({leaf(STR), leaf(I16)}); case 8: return ali(leaf(STR)); case 9: return arr(2, leaf(STR)); default: return map(leaf(U16), leaf(STR));
    }
}
// chains of 5 and 17 levels (derived structures: 6) of one kind of container or of all of them in turn
inline T pick_nest()
{
    unsigned pat = (unsigned)vx_pick(9, "pattern"), n = vx_pick(2, "depth") ? (pat == 6 ? 6 : 17) : 5; T t;
    switch (vx_pick(3, "leaf")) { case 0: t = leaf(U8); break; case 1: t = leaf(STR); break; default: t = leaf(F64); }
    for (unsigned i = 0; i < n; ++i) switch (pat < 8 ? pat : i % 8)
    {
        case 0: t = st({leaf(U8), t}); break; case 1: t = arr(1, t); break; case 2: t = seq(t); break; case 3: t = map(leaf(U8), t); break;
        case 4: t = un({leaf(I16), t}); break; case 5: t = ali(t); break; case 6: t = der(1, {t, leaf(I16)}); break; default: t = seq(t, 1);
    }
    return t;
}
inline T pick_type()
{
    if (nest_mode()) return pick_nest();
    switch (vx_pick(13, "root"))
    {
        case 0: return pick_leaf();
        case 1: return arr(2, pick_mid());
        case 2: return seq(pick_mid());
        case 3: return seq(pick_mid(), 3);
        case 4: return map(leaf(U16), pick_mid());
        case 5: return map(leaf(I32), pick_mid(), 3);
        case 6: return st({leaf(U8), pick_mid(), leaf(I16)});
        case 7: return un({leaf(U8), pick_mid()});
        case 8: return ali(pick_mid());
        case 9: return ali(ali(st({leaf(BOOL), leaf(WSTR), leaf(F128)})));
        case 10: return st({arr(2, arr(2, leaf(I16))), st({leaf(C8), st({leaf(STR16)})}), ali(seq(leaf(U64)))});
        case 11: { T u = un({pick_mid(), leaf(I64), leaf(STR)}); u.n = 1; return u; }
        default: return der(2, {leaf(U8), pick_mid(), leaf(STR), leaf(F32)});
    }
}
// ---- large instances: n elements, concrete but one
inline S ramp(const T& t, unsigned n, unsigned& c)
{
    S s; ++c;
    switch (t.k)
    {
        case STR: case WSTR: case STR16: if (n) for (unsigned i = 0; i < n; ++i) s.s.push_back('a' + (c + i * 7) % 26); else for (unsigned x = c; x; x /= 26) s.s.push_back('a' + x % 26); break;
        case ENUM: { static const uint32_t v[3] = {0, 5, 6}; s.lo = v[c % 3]; break; }
        case ARR: for (uint32_t i = 0; i < t.n; ++i) s.sub.push_back(ramp(t.sub[0], 0, c)); break;
        case SEQ: for (unsigned i = 0; i < (n ? n : 2); ++i) s.sub.push_back(ramp(t.sub[0], 0, c)); break;
        case MAP: for (unsigned i = 0; i < (n ? n : 2); ++i) { S p; p.sub.push_back(ramp(t.sub[0], 0, c)); p.sub.push_back(ramp(t.sub[1], 0, c)); s.sub.push_back(p); } break;
        case ALIAS: return ramp(t.sub[0], n, c);
        case STRUCT: for (auto& m : t.sub) s.sub.push_back(ramp(m, 0, c)); break;
        case UNION: s.act = (int)(n ? n - 1 : t.sub.size() - 1); s.sub.push_back(ramp(t.sub[s.act], 0, c)); break;
        default: prim(t.k, [&](auto x) { toS((decltype(x))(t.k == BOOL ? c % 2 : c), s); });
    }
    return s;
}
struct Big { T t; S s; unsigned n, pos; };
inline const T& child(const T& t, size_t i) { return t.k == ALIAS ? child(t.sub[0], i) : t.sub[t.k == STRUCT ? i : t.k == MAP ? 1 : 0]; }
inline S& part(const T& t, S& s, size_t i) { return t.k == ALIAS ? part(t.sub[0], s, i) : t.k == MAP ? s.sub[i].sub[1] : s.sub[i]; }
inline unsigned pick_n(const unsigned (&v)[3]) { return v[vx_pick(3, "n")]; }
inline T big_type(unsigned shape, unsigned n)
{
    switch (shape)
    {
        case 0: return arr(n, leaf(I32)); case 1: return arr(n, leaf(STR)); case 2: return seq(leaf(I64)); case 3: return seq(leaf(STR), n); case 4: return seq(st({leaf(U8), leaf(STR)}));
        case 5: return map(leaf(I32), leaf(U8)); case 6: return map(leaf(STR), leaf(I64)); case 7: return map(leaf(U16), seq(leaf(U16)), n); case 8: return ali(seq(leaf(BOOL)));
        default: { static const int k[5] = {U8, STR, I64, F32, C16}; std::vector<T> m; for (unsigned i = 0; i < n; ++i) m.push_back(i % 6 == 5 ? seq(leaf(U16)) : leaf(k[i % 6])); return shape == 9 ? st(m) : der(n / 2, m); }
    }
}
// eleven shapes with n elements or members; the one at pos is arbitrary
inline Big pick_big(const unsigned (&v)[3])
{
    Big b; unsigned shape = (unsigned)vx_pick(11, "shape"); b.n = pick_n(v); b.t = big_type(shape, b.n); unsigned c = 0; b.s = ramp(b.t, b.n, c);
    switch (vx_pick(4, "pos")) { case 0: b.pos = 0; break; case 1: b.pos = b.n / 2; break; case 2: b.pos = b.n - 2; break; default: b.pos = b.n - 1; }
    Profile o = prof(); prof().elems = 1; prof().chars = 2; part(b.t, b.s, b.pos) = any(child(b.t, b.pos)); prof() = o; return b;
}
// ---- bulk instances: 64 KiB or more in one piece of memory; marks at every 1021st element, one arbitrary element
struct Bulk { unsigned shape; T t, e; unsigned n, at; S v; };
inline Bulk pick_bulk()
{
    Bulk b; b.shape = (unsigned)vx_pick(12, "bulk"); b.e = leaf(U8); b.n = 66000;
    switch (b.shape)
    {
        case 0: b.t = seq(b.e); break;
        case 1: b.t = arr(b.n, b.e); break;
        case 2: b.e = leaf(I64); b.n = 8300; b.t = seq(b.e); break;
        case 3: b.e = st({leaf(U16), leaf(STR)}); b.n = 1700; b.t = seq(b.e); break;
        case 4: b.e = leaf(STR); b.n = 2100; b.t = arr(b.n, b.e); break;
        case 5: b.t = arr(264, arr(250, b.e)); break;
        case 6: b.t = map(leaf(U8), arr(4000, b.e)); b.n = 68000; break;
        case 7: b.t = st({leaf(U16), arr(b.n - 1, b.e), b.e, leaf(STR)}); break;
        case 8: b.t = der(2, {leaf(U16), arr(b.n - 1, b.e), b.e, leaf(STR)}); break;
        case 9: b.t = un({leaf(U16), arr(b.n, b.e)}); break;
        case 10: b.e = leaf(C8); b.t = leaf(STR); break;
        default: b.e = leaf(C16); b.n = 33000; b.t = leaf(STR16); break;
    }
    switch (vx_pick(4, "at")) { case 0: b.at = 0; break; case 1: b.at = b.n / 2; break; case 2: b.at = b.n - b.n / 100; break; default: b.at = b.n - 1; }
    Profile o = prof(); prof().chars = 2; prof().finite = true; b.v = any(b.e); prof() = o; return b;
}
template<class F> inline void bulk_spots(const Bulk& b, F f) { for (unsigned i = 5; i < b.n; i += 1021) if (i != b.at) f(i); if (b.at) f(0); if (b.at != b.n - 1) f(b.n - 1); }
inline S bulk_mark(const Bulk& b, unsigned i) { unsigned c = i % 89; return ramp(b.e, b.shape == 3 ? 0 : 2, c); }
template<class R, class F> inline void bulk_elem(R d, const Bulk& b, unsigned i, F f)
{
    switch (b.shape)
    {
        case 5: f(d[i / 250][i % 250]); break;
        case 6: { DynamicData k(primitive_type<uint8_t>()); k = uint8_t(i / 4000); f(d.at(k)[i % 4000]); break; }
        case 7: case 8: if (i < b.n - 1) f(d["m1"][i]); else f(d["m2"]); break;
        case 9: f(d["m1"][i]); break;
        default: f(d[i]);
    }
}
template<class C> inline std::basic_string<C> bulk_text(const Bulk& b, const S& v) { std::basic_string<C> r(b.n, C('.')); bulk_spots(b, [&](unsigned i) { r[i] = C('a' + i % 26); }); r[b.at] = fromS<C>(v); return r; }
inline void bulk_write(DynamicData& d, const Bulk& b, unsigned i, const S& v) { bulk_elem(d.ref(), b, i, [&](auto x) { put(x, b.e, v); }); }
inline void bulk_put(DynamicData& d, const Bulk& b, const S& v)
{
    if (b.shape == 10) { d = bulk_text<char>(b, v); return; } if (b.shape == 11) { d = bulk_text<char16_t>(b, v); return; }
    if (b.t.k == SEQ) d.resize(b.n);
    if (b.shape == 6) for (unsigned i = 0; i < b.n; i += 4000) { DynamicData k(primitive_type<uint8_t>()); k = uint8_t(i / 4000); d[k]; }
    if (b.shape == 9) d.d(int32_t(10));
    bulk_spots(b, [&](unsigned i) { bulk_write(d, b, i, bulk_mark(b, i)); }); bulk_write(d, b, b.at, v);
}
inline bool bulk_has(ReadableDynamicDataRef d, const Bulk& b, const S& v, bool marked = true)
{
    if (b.shape == 10) { std::string x = bulk_text<char>(b, v), y = d.value<std::string>(); return x.size() == y.size() && vx_equal(x.data(), y.data(), x.size()); }
    if (b.shape == 11) { std::u16string x = bulk_text<char16_t>(b, v), y = d.value<std::u16string>(); return x.size() == y.size() && vx_equal((const char*)x.data(), (const char*)y.data(), x.size() * 2); }
    if (b.t.k == SEQ && d.size() != b.n) return false;
    bool ok = true; S z = zero(b.e);
    bulk_elem(d, b, b.at, [&](auto x) { ok &= has(x, b.e, v); });
    bulk_spots(b, [&](unsigned i) { bulk_elem(d, b, i, [&](auto x) { ok &= has(x, b.e, marked ? bulk_mark(b, i) : z); }); if (i > 0 && i != b.at + 1) bulk_elem(d, b, i - 1, [&](auto x) { ok &= has(x, b.e, z); }); });
    return ok;
}
} // namespace xt
