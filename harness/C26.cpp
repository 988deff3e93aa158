// The textual dump shows every node with its value
//! entry h_leaf : every leaf type (floating point excepted) with an arbitrary value, alone and as member of a structure; strings of 0-3 characters of every kind
//! entry h_int : 16, 32 and 64 bit integers with arbitrary values of every number of digits
//! entry h_tree : 16 shapes of nested types (structures, derived ones, arrays, sequences, maps, aliases), sequences and maps of 0-2 elements
//! entry h_names : structures with arbitrary member names and type names; aliases show the type they stand for
//! entry h_union : unions with a selected case, alone and nested
//! entry h_deep : chains of structures, sequences and arrays to depth 6
//! entry h_list : sequences and arrays of up to 12 elements (two-digit indices)
//! entry h_large : structures, sequences and arrays of 34 and 130 elements (three-digit indices), one value arbitrary
//! assume wide text is valid Unicode; floating point values are left out (their formatting is the library's)
#include "xt.h"
using namespace xt;
static bool eq(const std::string& a, const std::string& b) { return a.size() == b.size() && vx_equal(a.data(), b.data(), a.size()); }
static std::string udec(uint64_t v) { std::string s; do { s.insert(s.begin(), char('0' + v % 10)); v /= 10; } while (v); return s; }
static std::string dec(int64_t v) { return v < 0 ? "-" + udec(0 - (uint64_t)v) : udec((uint64_t)v); }
static void utf8(std::string& s, uint32_t c)
{
    if (c < 0x80) s += char(c); else if (c < 0x800) { s += char(0xC0 | c >> 6); s += char(0x80 | (c & 63)); } else if (c < 0x10000) { s += char(0xE0 | c >> 12); s += char(0x80 | (c >> 6 & 63)); s += char(0x80 | (c & 63)); }
    else { s += char(0xF0 | c >> 18); s += char(0x80 | (c >> 12 & 63)); s += char(0x80 | (c >> 6 & 63)); s += char(0x80 | (c & 63)); }
}
static bool scalar(uint32_t c) { return c < 0xD800 || (c > 0xDFFF && c < 0x110000); }
static std::string value(const T& t, const S& s)
{
    switch (t.k)
    {
        case BOOL: return s.lo & 1 ? "1" : "0"; case I8: case U8: case C8: return std::string(1, char(s.lo));
        case I16: return dec(int16_t(s.lo)); case I32: return dec(int32_t(s.lo)); case I64: return dec(int64_t(s.lo)); case U16: case U32: case U64: return udec(s.lo);
        case STR: { std::string r; for (auto c : s.s) r += char(c); return r; }
        case C16: case WC: { std::string r; vx_assume(scalar(uint32_t(s.lo))); utf8(r, uint32_t(s.lo)); return r; }
        default: { std::string r; for (auto c : s.s) { vx_assume(scalar(c)); utf8(r, c); } return r; }
    }
}
struct Line { std::string text; bool exact; std::string type; };
// the lines the dump must have: a pair and a union only have to name their type
static void dump(const T& t0, const S& s, ReadableDynamicDataRef d, const DynamicType& ty0, unsigned deep, const std::string& label, std::vector<Line>& out)
{
    const T& t = res(t0); const DynamicType& ty = ty0.kind() == TypeKind::ALIAS_TYPE ? static_cast<const AliasType&>(ty0).rget() : ty0; std::string head(deep * 4, ' '); if (deep) head += "[" + label + "] ";
    auto child = [&](const T& ct, const S& cs, ReadableDynamicDataRef cd, const DynamicType& cty, const std::string& l) { dump(ct, cs, cd, cty, deep + 1, l, out); };
    switch (t.k)
    {
        case ENUM: out.push_back({head + "Enumeration: <" + static_cast<const DynamicType&>(ty).name() + ">", true, ""}); break;
        case ARR: { out.push_back({head + "<" + static_cast<const DynamicType&>(ty).name() + ">", true, ""}); for (size_t i = 0; i < s.sub.size(); ++i) child(t.sub[0], s.sub[i], d[i], static_cast<const CollectionType&>(ty).content_type(), udec(i)); break; }
        case SEQ: { out.push_back({head + "<" + static_cast<const DynamicType&>(ty).name() + "[" + udec(s.sub.size()) + "]>", true, ""}); for (size_t i = 0; i < s.sub.size(); ++i) child(t.sub[0], s.sub[i], d[i], static_cast<const CollectionType&>(ty).content_type(), udec(i)); break; }
        case MAP:
        {
            out.push_back({head + "<" + static_cast<const DynamicType&>(ty).name() + "[" + udec(s.sub.size()) + "]>", true, ""}); const PairType& p = static_cast<const PairType&>(static_cast<const CollectionType&>(ty).content_type());
            std::vector<ReadableDynamicDataRef> es; d.for_each([&](const DynamicData::ReadableNode& n) { if (n.deep() == 1) es.push_back(n.data()); }); vx_assert(es.size() == s.sub.size(), "the entries of a map are those inserted");
            for (size_t i = 0; i < s.sub.size(); ++i) // in the order in which the data enumerates them
            {
                const S* e = nullptr; for (auto& x : s.sub) if (has(es[i][size_t(0)], t.sub[0], x.sub[0])) e = &x; vx_assert(e != nullptr, "the entries of a map are those inserted");
                out.push_back({std::string(deep * 4 + 4, ' ') + "[" + udec(i) + "] ", false, p.DynamicType::name()}); dump(t.sub[0], e->sub[0], es[i][size_t(0)], p.first(), deep + 2, "0", out); dump(t.sub[1], e->sub[1], es[i][size_t(1)], p.second(), deep + 2, "1", out);
            }
            break;
        }
        case STRUCT: { const AggregationType& a = static_cast<const AggregationType&>(ty); out.push_back({head + "Structure: <" + static_cast<const DynamicType&>(ty).name() + ">", true, ""}); for (size_t i = 0; i < t.sub.size(); ++i) child(t.sub[i], s.sub[i], d[i], a.member(i).type(), a.member(i).name()); break; }
        case UNION:
        {
            const UnionType& u = static_cast<const UnionType&>(ty); out.push_back({head, false, static_cast<const DynamicType&>(ty).name()}); child(t.sub[s.act], s.sub[0], d[mname(s.act)], u.member(mname(s.act)).type(), mname(s.act)); break;
        }
        default: out.push_back({head + "<" + static_cast<const DynamicType&>(ty).name() + ">  " + value(t, s), true, ""});
    }
}
static bool contains(const std::string& a, const std::string& b) { return a.find(b) != std::string::npos; }
static void check(const T& t, const S& s, ReadableDynamicDataRef d, const DynamicType& ty)
{
    std::vector<Line> w; dump(t, s, d, ty, 0, "", w); std::string got = d.to_string(); size_t at = 0;
    for (auto& l : w)
    {
        if (l.exact) { std::string x = l.text + "\n"; vx_assert(got.size() - at >= x.size() && eq(got.substr(at, x.size()), x), "the line of a node shows its place, type and value"); at += x.size(); }
        else { size_t e = got.find('\n', at); vx_assert(e != std::string::npos, "every node has a line"); std::string x = got.substr(at, e - at); vx_assert(x.compare(0, l.text.size(), l.text) == 0 && contains(x.substr(l.text.size()), l.type), "the line of a node shows its place and type"); at = e + 1; }
    }
    vx_assert(at == got.size(), "nothing else is shown"); vx_reach("end");
}
static void go(const T& t) { vx_exact_fmt = 1; DynamicType::Ptr p = build(t); S s = any(t); DynamicData d(*p); put(d, t, s); check(t, s, d, *p); }
static T pick_plain(bool narrow) { static const int k[14] = {BOOL, I8, U8, C8, C16, WC, STR, WSTR, STR16, ENUM, I16, U16, I32, I64}; return leaf(k[vx_pick(narrow ? 10 : 14, "leaf")]); }
VX_ENTRY(h_leaf) { T t = pick_plain(true); prof().chars = vx_pick(t.k == WSTR || t.k == STR16 ? 3 : 4, "chars"); go(vx_pick(2, "in") ? st({t}) : t); }
VX_ENTRY(h_int) { static const int k[6] = {I16, U16, I32, U32, I64, U64}; unsigned i = vx_pick(6, "kind"); T t = leaf(k[i]); vx_exact_fmt = 1; S s;
    if (i < 2) s = any(t); else { static const uint64_t at[8] = {0, 95, 999990, 0x7FFFFFF6, 0x80000000u, 0xFFFFFFF6u, 0x7FFFFFFFFFFFFFF6u, 0x8000000000000000u}; unsigned w = vx_pick(i < 4 ? 6 : 8, "window"); uint8_t x = vx_any<uint8_t>("d"); vx_assume(x < 10); s.lo = at[w] + x; if (i == 4 && w == 5) s.lo = 0xFFFFFFFFFFFFFFF6u + x; if (i == 5 && w == 5) s.lo = 0xFFFFFFFFFFFFFFF6u + x; if (i < 4) s.lo &= 0xFFFFFFFFu; }
    DynamicType::Ptr p = build(t); DynamicData d(*p); put(d, t, s); check(t, s, d, *p); }
VX_ENTRY(h_tree)
{
    prof().elems = vx_pick(3, "elems"); prof().chars = vx_pick(2, "chars"); T b = leaf(C8), e = leaf(ENUM), str = leaf(STR);
    switch (vx_pick(16, "tree"))
    {
        case 0: go(st({b, st({str, b}), b})); break; case 1: go(st({seq(b), b})); break; case 2: go(arr(2, st({b, str}))); break; case 3: go(seq(st({b, e}))); break; case 4: go(map(b, str)); break; case 5: go(st({map(b, st({b})), b})); break;
        case 6: go(arr(2, arr(2, b))); break; case 7: go(seq(seq(b))); break; case 8: go(seq(arr(2, str))); break; case 9: go(arr(2, seq(b))); break; case 10: go(der(2, {b, str, leaf(BOOL), seq(b)})); break; case 11: go(ali(st({ali(b), ali(seq(ali(b)))}))); break;
        case 12: go(st({st({}), b, arr(1, e)})); break; case 13: go(map(b, seq(b))); break; case 14: go(seq(map(b, b))); break; default: go(st({leaf(WSTR), arr(2, leaf(STR16)), ali(ali(leaf(BOOL)))}));
    }
}
VX_ENTRY(h_names)
{
    vx_exact_fmt = 1; auto word = [](unsigned n) { std::string r; for (unsigned i = 0; i < n; ++i) { char c = vx_any<char>("c"); vx_assume(c > ' ' && c < 127 && c != ':' && c != 'x'); r.push_back(c); } return r; };
    std::string n0 = word(1 + vx_pick(2, "n0")), n1 = word(1 + vx_pick(2, "n1")), sn = word(1 + vx_pick(2, "sn")); vx_assume(n0 != n1); StructType s(sn); s.add_member(n0, primitive_type<char>()); StructType q("Q"); q.add_member(n1, AliasType(s, "Al")); q.add_member("x", ArrayType(AliasType(AliasType(s, "Al"), "Bl"), 1));
    T t = st({ali(st({leaf(C8)})), arr(1, ali(ali(st({leaf(C8)}))))}); S v = any(t); DynamicData d(q); d[n1][n0] = char(v.sub[0].sub[0].lo); d["x"][0][n0] = char(v.sub[1].sub[0].sub[0].lo);
    // the array's own name mentions its content's; everything else is checked as usual
    check(t, v, d, q);
}
VX_ENTRY(h_union) { prof().elems = vx_pick(3, "elems"); prof().chars = 1; T u = un({leaf(C8), vx_pick(2, "second") ? seq(leaf(C8)) : st({leaf(BOOL), leaf(STR)})}); switch (vx_pick(3, "in")) { case 0: go(u); break; case 1: go(st({u, leaf(C8)})); break; default: go(arr(2, u)); } }
VX_ENTRY(h_deep) { prof().elems = 1 + vx_pick(2, "elems"); prof().chars = 1; unsigned n = 1 + vx_pick(5, "depth"), k = vx_pick(3, "kind"); T t = leaf(C8); for (unsigned i = 0; i < n; ++i) t = (k + i) % 3 == 0 ? st({t, leaf(BOOL)}) : (k + i) % 3 == 1 ? seq(t, 2) : arr(2, t); go(t); }
VX_ENTRY(h_list) { vx_exact_fmt = 1; bool a = vx_pick(2, "array"); unsigned n = 1 + vx_pick(12, "n"); T t = a ? arr(n, leaf(C8)) : seq(leaf(C8), 20); DynamicType::Ptr p = build(t); DynamicData d(*p); S s; if (!a) d.resize(n); for (unsigned i = 0; i < n; ++i) { S e; char c = vx_any<char>("c"); toS(c, e); s.sub.push_back(e); d[i] = c; } check(t, s, d, *p); }
VX_ENTRY(h_large)
{
    vx_exact_fmt = 1; unsigned n = vx_pick(2, "n") ? 130 : 34; T t; switch (vx_pick(4, "shape")) { case 0: t = arr(n, leaf(C8)); break; case 1: t = seq(leaf(STR), n); break; case 2: t = seq(st({leaf(C8), leaf(U16)})); break; default: { static const int k[4] = {C8, STR, U16, ENUM}; std::vector<T> m; for (unsigned i = 0; i < n; ++i) m.push_back(leaf(k[i % 4])); t = vx_pick(2, "derived") ? der(n / 2, m) : st(m); } }
    unsigned c = 0; S s = ramp(t, n, c); unsigned at = vx_pick(2, "at") ? n - 2 : n / 2; prof().chars = 2; T e = t.sub[t.k == STRUCT ? at : 0]; if (e.k != U16 && !(e.k == STRUCT)) s.sub[at] = any(e); DynamicType::Ptr p = build(t); DynamicData d(*p); put(d, t, s); check(t, s, d, *p);
}
