// Traversal and iterators against a reference list
//! entry h_tree : depth-first traversal of 13 root shapes x 11 contents, three profiles of sizes, all values: every node with depth, parent, index, member, kind and value
//! entry h_stop : traversal stopped by the visitor at every node, with either value
//! entry h_write : every leaf rewritten during a writable traversal
//! entry h_iter : iterators over arrays, sequences, maps and strings of 0..3 elements of 11 contents: reading, writing, prefix and postfix, copies, restarts
//! entry h_items : member iterators over plain and derived structures of 0..4 members: names, kinds, values, writing
//! entry h_types : depth-first traversal of types
//! entry h_deep : trees of three levels of containers
//! entry h_large : depth-first traversal of arrays, sequences, maps and structures of 34 and 130 elements (11 shapes), one of them arbitrary
//! entry h_nest : h_tree, h_stop, h_write and h_types on chains of 5 and 17 levels of one kind of container (structure, array, sequence, map, union, alias, bounded sequence; derived structure: 5 and 6) or all of them in turn
#include "xt.h"
using namespace xt;
struct N { size_t deep; int parent; T t; S* s; size_t ix; std::string mem; bool key; };
static const int PAIR = NONE_; // a pair is T(PAIR, 0, {key, value})
static bool holds(ReadableDynamicDataRef d, const T& t, const S& s) { return t.k == PAIR ? d.size() == 2 && has(d[0], t.sub[0], s.sub[0]) && has(d[1], t.sub[1], s.sub[1]) : has(d, t, s); }
static TypeKind kind(const T& t0)
{
    const T& t = res(t0);
    switch (t.k) { case PAIR: return TypeKind::PAIR_TYPE; case STR: return TypeKind::STRING_TYPE; case WSTR: return TypeKind::WSTRING_TYPE; case STR16: return TypeKind::STRING16_TYPE; case ENUM: return TypeKind::ENUMERATION_TYPE; case ARR: return TypeKind::ARRAY_TYPE; case SEQ: return TypeKind::SEQUENCE_TYPE; case MAP: return TypeKind::MAP_TYPE; case STRUCT: return TypeKind::STRUCTURE_TYPE; case UNION: return TypeKind::UNION_TYPE; }
    TypeKind k = TypeKind::NO_TYPE; prim(t.k, [&](auto x) { k = primitive_type<decltype(x)>().kind(); }); return k;
}
// puts the entries of maps in the order of the data, and notes discriminators
static void order(ReadableDynamicDataRef d, const T& t0, S& s)
{
    const T& t = res(t0);
    switch (t.k)
    {
        case ARR: case SEQ: for (size_t i = 0; i < s.sub.size(); ++i) order(d[i], t.sub[0], s.sub[i]); break;
        case STRUCT: for (size_t i = 0; i < s.sub.size(); ++i) order(d[i], t.sub[i], s.sub[i]); break;
        case UNION: if (s.act >= 0) { int32_t v = d.d().value<int32_t>(); s.lo = (uint64_t)(int64_t)v; order(d[mname(s.act)], t.sub[s.act], s.sub[0]); } break;
        case MAP:
        {
            std::vector<S> r; std::vector<bool> used(s.sub.size(), false);
            for (auto p : d) { bool found = false; for (size_t j = 0; j < s.sub.size() && !found; ++j) if (!used[j] && has(p[0], t.sub[0], s.sub[j].sub[0])) { used[j] = found = true; r.push_back(s.sub[j]); order(p[1], t.sub[1], r.back().sub[1]); } vx_assert(found, "each entry of a map is yielded once"); }
            vx_assert(r.size() == s.sub.size(), "all entries of a map are yielded"); s.sub = r; break;
        }
    }
}
static void list(std::vector<N>& out, const T& t0, S& s, size_t deep, int parent, size_t ix, const std::string& mem, bool key = false)
{
    const T& t = res(t0); int me = (int)out.size(); out.push_back(N{deep, parent, t, &s, ix, mem, key});
    switch (t.k)
    {
        case ARR: case SEQ: for (size_t i = 0; i < s.sub.size(); ++i) list(out, t.sub[0], s.sub[i], deep + 1, me, i, "", key); break;
        case STRUCT: for (size_t i = 0; i < s.sub.size(); ++i) list(out, t.sub[i], s.sub[i], deep + 1, me, i, mname(i), key); break;
        case UNION: if (s.act >= 0) list(out, t.sub[s.act], s.sub[0], deep + 1, me, (size_t)s.lo, mname(s.act), key); break;
        case MAP: for (size_t i = 0; i < s.sub.size(); ++i) list(out, T(PAIR, 0, {t.sub[0], t.sub[1]}), s.sub[i], deep + 1, me, i, "", key); break;
        case PAIR: list(out, t.sub[0], s.sub[0], deep + 1, me, 0, "", true); list(out, t.sub[1], s.sub[1], deep + 1, me, 1, "", key); break;
    }
}
static void visit(const DynamicData::ReadableNode& n, const std::vector<N>& r, size_t i)
{
    vx_assert(i < r.size(), "no node is visited twice"); if (i >= r.size()) return;
    const N& e = r[i];
    vx_assert(n.type().kind() == kind(e.t) && n.data().type().kind() == kind(e.t), "nodes are visited in order");
    vx_assert(n.deep() == e.deep, "nodes report their depth");
    vx_assert(n.has_parent() == (e.parent >= 0), "only the root has no parent");
    if (e.parent >= 0) { const N& p = r[(size_t)e.parent]; vx_assert(n.parent().type().kind() == kind(p.t) && n.parent().deep() == p.deep && holds(n.parent().data(), p.t, *p.s) && n.from_index() == e.ix, "nodes report their parent and index"); if (p.t.k == STRUCT || p.t.k == UNION) vx_assert(n.from_member() != nullptr && n.from_member()->name() == e.mem, "members report their member"); if (p.t.k == ARR || p.t.k == SEQ || p.t.k == MAP) vx_assert(n.from_member() == nullptr, "elements have no member"); }
    else vx_assert(n.from_member() == nullptr && n.from_index() == 0 && vx_throws([&]() { n.parent(); }), "the root has no member");
    vx_assert(holds(n.data(), e.t, *e.s), "nodes give their data");
}
static void walk(DynamicData& d, const T& t, S& s)
{
    order(d, t, s); std::vector<N> r; list(r, t, s, 0, -1, 0, ""); size_t i = 0;
    bool all = d.cref().for_each([&](const DynamicData::ReadableNode& n) { visit(n, r, i); ++i; });
    vx_assert(all && i == r.size(), "every node is visited");
    i = 0; d.for_each([&](DynamicData::WritableNode& n) { vx_assert(i < r.size() && n.type().kind() == kind(r[i].t) && n.deep() == r[i].deep && holds(n.data(), r[i].t, *r[i].s), "a writable traversal visits the same nodes"); ++i; });
    vx_assert(i == r.size(), "a writable traversal visits every node");
    vx_assert(has(d, t, s), "traversing changes nothing");
}
VX_ENTRY(h_tree)
{
    T t = pick_type(); prof() = pick_profile(); if (prof().chars > 3) prof().chars = 1; S s = any(t); DynamicData d(*build(t)); put(d, t, s);
    walk(d, t, s);
    vx_reach("end");
}
VX_ENTRY(h_stop)
{
    T t = pick_type(); prof().elems = 2; prof().chars = 1; S s = any(t); DynamicData d(*build(t)); put(d, t, s); order(d, t, s); std::vector<N> r; list(r, t, s, 0, -1, 0, "");
    size_t stop = vx_pick(r.size(), "stop"), i = 0; bool value = vx_pick(2, "value"), writable = vx_pick(2, "writable"), got;
    if (writable) got = d.for_each([&](DynamicData::WritableNode&) { if (i++ == stop) throw value; }); else got = d.cref().for_each([&](const DynamicData::ReadableNode&) { if (i++ == stop) throw value; });
    vx_assert(got == value && i == stop + 1, "traversal stops when the visitor throws, and gives its value");
    vx_assert(has(d, t, s), "a stopped traversal changes nothing");
    vx_reach("end");
}
VX_ENTRY(h_write)
{
    T t = pick_type(); prof().elems = 2; prof().chars = 1; S s = any(t); DynamicData d(*build(t)); put(d, t, s); order(d, t, s); std::vector<N> r; list(r, t, s, 0, -1, 0, "");
    size_t i = 0; d.for_each([&](DynamicData::WritableNode& n) { if (i < r.size()) { N& e = r[i]; bool leafy = e.t.k <= ENUM; if (leafy && !e.key) { *e.s = e.t.k == ENUM ? [] { S z; z.lo = 5; return z; }() : any(e.t); put(n.data(), e.t, *e.s); } } ++i; });
    vx_assert(has(d, t, s), "values written during a traversal are stored in their node");
    vx_reach("end");
}
VX_ENTRY(h_iter)
{
    T c = pick_mid(), t; size_t w = vx_pick(4, "type"); static const unsigned ns[4] = {0, 1, 2, 3}; unsigned n = ns[vx_pick(4, "n")]; prof().elems = n; prof().chars = n;
    switch (w) { case 0: if (!n) n = 1; t = arr(n, c); break; case 1: t = seq(c); break; case 2: t = map(leaf(U16), c); break; default: { static const int k[3] = {STR, STR16, WSTR}; t = leaf(k[vx_pick(3, "string")]); } }
    prof().chars = w == 3 ? n : 1; S s = any(t); DynamicData d(*build(t)); put(d, t, s); if (w == 2) order(d, t, s); const ReadableDynamicDataRef& cd = d; ReadableDynamicDataRef rd = d.cref();
    size_t size = w == 3 ? s.s.size() : s.sub.size(), i = 0;
    auto elem = [&](ReadableDynamicDataRef x, size_t k) -> bool { if (w == 2) return holds(x, T(PAIR, 0, {t.sub[0], t.sub[1]}), s.sub[k]); if (w < 2) return has(x, c, s.sub[k]); if (t.k == STR) return x.value<char>() == (char)s.s[k]; if (t.k == STR16) return x.value<char16_t>() == (char16_t)s.s[k]; return x.value<wchar_t>() == (wchar_t)s.s[k]; };
    vx_assert(d.size() == size, "the size is the number of elements");
    for (auto x : rd) { vx_assert(i < size && elem(x, i), "iterators yield each element in order"); ++i; } vx_assert(i == size, "iterators yield every element");
    i = 0; for (auto x : d) { vx_assert(i < size && elem(x, i), "writable iterators yield each element in order"); ++i; } vx_assert(i == size, "writable iterators yield every element");
    i = 0; for (auto x : cd) { vx_assert(i < size && elem(x, i), "iterators of constant data yield each element"); ++i; } vx_assert(i == size, "iterators of constant data yield every element");
    i = 0; auto it = rd.begin(); for (; it != rd.end(); ) { auto old = it; vx_assert(old == it && elem(*it, i), "a copied iterator is equal"); if (i % 2) { auto prev = it++; vx_assert(prev == old && elem(*prev, i) && !(prev == it), "postfix increment gives the previous position"); } else { auto& next = ++it; vx_assert(next == it && old != it, "prefix increment gives the next position"); } ++i; }
    vx_assert(i == size && it == rd.end(), "explicit iteration reaches the end"); it = rd.begin(); vx_assert((it == rd.end()) == (size == 0), "an assigned iterator starts again");
    if (w < 2) { i = 0; for (auto x : d) { s.sub[i] = c.k == UNION ? any(c) : fresh(c, s.sub[i]); put(x, c, s.sub[i]); ++i; } }
    if (w == 2) { i = 0; for (auto x : d) { s.sub[i].sub[1] = c.k == UNION ? any(c) : fresh(c, s.sub[i].sub[1]); put(x[1], c, s.sub[i].sub[1]); ++i; } }
    if (w == 3) { i = 0; for (auto x : d) { s.s[i] = U'a' + (char32_t)i; if (t.k == STR) x = (char)s.s[i]; else if (t.k == STR16) x = (char16_t)s.s[i]; else x = (wchar_t)s.s[i]; ++i; } }
    vx_assert(has(d, t, s), "values written through an iterator are stored in their element");
    vx_reach("end");
}
VX_ENTRY(h_items)
{
    T t = st({}); unsigned n = (unsigned)vx_pick(5, "n"); T m = pick_mid(); prof().elems = 1; prof().chars = 1; for (unsigned i = 0; i < n; ++i) t.sub.push_back(i == 1 ? m : i == 2 ? leaf(STR) : leaf(U16)); if (n && vx_pick(2, "derived")) t.n = 1 + n / 2;
    if (t.n > n) t.n = n; S s = any(t); DynamicData d(*build(t)); put(d, t, s); const ReadableDynamicDataRef& cd = d; ReadableDynamicDataRef rd = d.cref(); WritableDynamicDataRef wd = d.ref(); size_t i = 0;
    for (auto&& x : rd.items()) { vx_assert(i < n && x.member().name() == mname(i) && x.kind() == x.member().type().kind() && has(x.data(), t.sub[i], s.sub[i]), "items yield each member in order"); ++i; } vx_assert(i == n, "items yield every member");
    i = 0; for (auto&& x : cd.items()) { vx_assert(i < n && has(x.data(), t.sub[i], s.sub[i]), "items of constant data yield each member"); ++i; } vx_assert(i == n, "items of constant data yield every member");
    i = 0; for (auto&& x : d.citems()) { vx_assert(i < n && x.member().name() == mname(i) && has(x.data(), t.sub[i], s.sub[i]), "constant items yield each member"); ++i; } vx_assert(i == n, "constant items yield every member");
    i = 0; for (auto&& x : wd.items()) { vx_assert(i < n && x.member().name() == mname(i), "writable items yield each member"); s.sub[i] = t.sub[i].k == UNION ? any(t.sub[i]) : fresh(t.sub[i], s.sub[i]); put(x.data(), t.sub[i], s.sub[i]); ++i; } vx_assert(i == n, "writable items yield every member");
    vx_assert(has(d, t, s), "values written through items are stored in their member");
    i = 0; auto b = rd.items(); auto it = b.begin(), e = b.end(); while (it != e) { if (i % 2) { auto p = it++; vx_assert(p != it && (*p).member().name() == mname(i), "postfix increment gives the previous member"); } else { vx_assert((*it).member().name() == mname(i), "members in order"); ++it; } ++i; } vx_assert(i == n, "explicit iteration reaches the end");
    vx_reach("end");
}
struct TN { size_t deep; int parent; T t; size_t ix; std::string mem; };
static void tlist(std::vector<TN>& out, const T& t0, size_t deep, int parent, size_t ix, const std::string& mem)
{
    const T& t = res(t0); int me = (int)out.size(); out.push_back(TN{deep, parent, t, ix, mem});
    switch (t.k)
    {
        case ARR: case SEQ: tlist(out, t.sub[0], deep + 1, me, 0, ""); break;
        case STRUCT: for (size_t i = 0; i < t.sub.size(); ++i) tlist(out, t.sub[i], deep + 1, me, i, mname(i)); break;
        case UNION: tlist(out, leaf(I32), deep + 1, me, 0, "discriminator"); for (size_t i = 0; i < t.sub.size(); ++i) tlist(out, t.sub[i], deep + 1, me, i + 1, mname(i)); break;
        case MAP: tlist(out, T(PAIR, 0, {t.sub[0], t.sub[1]}), deep + 1, me, 0, ""); break;
        case PAIR: tlist(out, t.sub[0], deep + 1, me, 0, ""); tlist(out, t.sub[1], deep + 1, me, 1, ""); break;
    }
}
static TypeKind under(const DynamicType& d) { return d.kind() == TypeKind::ALIAS_TYPE ? static_cast<const AliasType&>(d).rget().kind() : d.kind(); }
VX_ENTRY(h_types)
{
    T t = pick_type(); if (vx_pick(2, "wrap")) t = st({t, seq(t)}); DynamicType::Ptr p = build(t); std::vector<TN> r; tlist(r, t, 0, -1, 0, ""); size_t i = 0;
    bool all = p->for_each([&](const DynamicType::TypeNode& n) {
        vx_assert(i < r.size(), "no type is visited twice"); if (i >= r.size()) return; const TN& e = r[i++];
        vx_assert(under(n.type()) == kind(e.t) && n.deep() == e.deep && n.has_parent() == (e.parent >= 0) && n.from_index() == e.ix, "types are visited in order with depth and index");
        if (e.parent >= 0) { const TN& q = r[(size_t)e.parent]; vx_assert(under(n.parent().type()) == kind(q.t) && n.parent().deep() == q.deep, "types report their parent"); if (q.t.k == STRUCT || q.t.k == UNION) vx_assert(n.from_member() && n.from_member()->name() == e.mem && n.from_member()->type().kind() == n.type().kind(), "types of members report their member"); } });
    vx_assert(all && i == r.size(), "every type is visited");
    size_t stop = vx_pick(r.size() < 4 ? r.size() : 4, "stop"); i = 0; bool v = vx_pick(2, "value"); bool got = p->for_each([&](const DynamicType::TypeNode&) { if (i++ == stop) throw v; }); vx_assert(got == v && i == stop + 1, "traversal of types stops when the visitor throws");
    vx_reach("end");
}
VX_ENTRY(h_deep)
{
    auto lv = [](T c, const char* n) { switch (vx_pick(5, n)) { case 0: return seq(c); case 1: return arr(2, c); case 2: return map(leaf(U8), c); case 3: return st({leaf(U8), c}); default: return un({leaf(U8), c}); } };
    T t = lv(lv(vx_pick(2, "leaf") ? leaf(STR) : leaf(I16), "b"), "c"); if (vx_pick(2, "three")) t = lv(t, "a"); prof().elems = 1; prof().chars = 1; S s = any(t); DynamicData d(*build(t)); put(d, t, s);
    walk(d, t, s);
    vx_reach("end");
}
VX_ENTRY(h_large)
{
    static const unsigned sizes[3] = {34, 34, 130}; Big b = pick_big(sizes); DynamicType::Ptr ty = build(b.t); DynamicData d(*ty); put(d, b.t, b.s); size_t i = 0;
    if (b.t.k != MAP && b.t.k != STRUCT) { const T& e = res(b.t).sub[0]; ReadableDynamicDataRef rd = d.cref(); for (auto x : rd) { vx_assert(i < b.n && has(x, e, b.s.sub[i]), "elements are yielded in order"); ++i; } vx_assert(i == b.n, "every element is yielded"); }
    if (b.t.k == STRUCT) { ReadableDynamicDataRef rd = d.cref(); for (auto x : rd.items()) { vx_assert(i < b.n && x.member().name() == mname(i) && has(x.data(), b.t.sub[i], b.s.sub[i]), "members are yielded in order"); ++i; } vx_assert(i == b.n, "every member is yielded"); }
    order(d, b.t, b.s); std::vector<N> r; list(r, b.t, b.s, 0, -1, 0, ""); i = 0;
    bool all = d.cref().for_each([&](const DynamicData::ReadableNode& n) { vx_assert(i < r.size(), "no node is visited twice"); const N& e = r[i]; vx_assert(n.type().kind() == kind(e.t) && n.deep() == e.deep && (e.parent < 0 || n.from_index() == e.ix) && (e.mem.empty() || n.from_member()->name() == e.mem), "nodes report their place"); if (e.parent >= 0) vx_assert(holds(n.data(), e.t, *e.s), "nodes give their data"); ++i; });
    vx_assert(all && i == r.size(), "every node is visited"); size_t stop = vx_pick(2, "stop") ? r.size() - 1 : r.size() / 2; i = 0; d.for_each([&](const DynamicData::WritableNode&) { if (i == stop) throw true; ++i; }); vx_assert(i == stop, "a traversal stops where the visitor says"); vx_reach("end");
}
VX_ENTRY(h_nest)
{
    nest_mode() = true; switch (vx_pick(4, "what")) { case 0: h_tree(); break; case 1: h_stop(); break; case 2: h_write(); break; default: h_types(); }
}
