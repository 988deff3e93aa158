// Arrays: fixed size, all elements addressable, no aliasing
//! entry h_grid : 1 to 3 dimensions of size 1..3 built directly, nested or mixed; 10 element types; every element written with an arbitrary value, one index tuple rewritten, all read back
//! entry h_index : symbolic 64-bit indexes (and 8/16/32-bit signed and unsigned ones) in 1 and 2 dimensions; accepted exactly inside, the element addressed is the one written
//! entry h_sym : 2x3 (thorough: 3x4) array of each primitive kind, write through a symbolic index tuple changes exactly that element
//! entry h_size : size, bounds, dimension and memory of 1 to 3 dimensions; as_vector; iteration in order
//! entry h_bulk : arrays of 64 KiB or more in 1 to 3 dimensions, directly or nested; two arbitrary values written through index tuples, the first index arbitrary within windows of 3 at four places
//! entry h_dims : 4 to 6 dimensions of size 1 or 2, one of 4 or 5 of size 3, built directly, nested or mixed; integer and string elements; one index tuple rewritten with an arbitrary value, all read back; a copy; index outside one of the dimensions
#include "xt.h"
using namespace xt;
static std::vector<uint32_t> pick_dims()
{
    std::vector<uint32_t> d; unsigned n = 1 + (unsigned)vx_pick(3, "dims");
    for (unsigned i = 0; i < n; ++i) d.push_back(1 + (uint32_t)vx_pick(3, "dim"));
    return d;
}
static T nest(const std::vector<uint32_t>& d, T e) { for (size_t i = d.size(); i-- > 0; ) e = arr(d[i], e); return e; }
static DynamicType::Ptr direct(const std::vector<uint32_t>& d, const T& e) { return DynamicType::Ptr(ArrayType(*build(e), d)); }
static T pick_elem()
{
    switch (vx_pick(10, "elem"))
    {
        case 0: return leaf(U8); case 1: return leaf(I64); case 2: return leaf(F128); case 3: return leaf(BOOL); case 4: return leaf(STR);
        case 5: return st({leaf(U8), leaf(STR)}); case 6: return seq(leaf(U16)); case 7: return ali(leaf(I16)); case 8: return un({leaf(U8), leaf(STR)}); default: return leaf(ENUM);
    }
}
static S* at(S& s, const std::vector<uint32_t>& i) { S* p = &s; for (auto x : i) p = &p->sub[x]; return p; }
VX_ENTRY(h_grid)
{
    std::vector<uint32_t> d = pick_dims(); prof().elems = 1; prof().chars = 1;
    T e = leaf(U16), t; uint32_t total = 1; for (auto x : d) total *= x;
    if (total <= 4) e = pick_elem();
    if (e.k == ENUM && total > 2) e = leaf(C16);
    if (e.k == UNION && total > 2) e = leaf(WSTR);
    t = nest(d, e);
    DynamicData a(vx_pick(2, "ctor") ? *direct(d, e) : *build(t));
    S s = any(t); put(a, t, s);
    std::vector<uint32_t> i; for (auto x : d) i.push_back((uint32_t)vx_pick(x, "i"));
    S* p = at(s, i); *p = e.k == UNION ? any(e) : fresh(e, *p);
    { WritableDynamicDataRef r = a[i[0]]; if (i.size() == 1) put(a[i[0]], e, *p); else if (i.size() == 2) put(a[i[0]][i[1]], e, *p); else put(a[i[0]][i[1]][i[2]], e, *p); }
    vx_assert(has(a, t, s), "every index tuple denotes its own element");
    DynamicData c(a);
    vx_assert(has(c, t, s), "a copied array has the same elements");
    vx_reach("end");
}
template<class I> static void idx(uint32_t n, bool two)
{
    T e = vx_pick(2, "elem") ? leaf(U16) : leaf(STR); prof().chars = 1;
    T t = two ? arr(2, arr(n, e)) : arr(n, e);
    DynamicData d(*build(t)); S s = any(t); put(d, t, s);
    I i = vx_any<I>("i");
    bool in = !(i < 0) && (uint64_t)i < n;
    S* row = two ? &s.sub[1] : &s;
    bool ok = true;
    bool threw = vx_throws([&]() { S want; DynamicData c(two ? d[1][i] : d[i]); uint64_t j = vx_concretize((uint64_t)i); ok = j < n && has(c, e, row->sub[j]); });
    vx_assert(threw == !in, "an index is accepted exactly inside the dimension");
    vx_assert(threw || ok, "the accepted index reads its element");
    bool threw2 = vx_throws([&]() { if (two) d.cref()[1][i]; else d.cref()[i]; });
    vx_assert(threw2 == !in, "an index is accepted exactly inside the dimension (readable)");
    if (in) { uint64_t j = vx_concretize((uint64_t)i); S n2 = fresh(e, row->sub[j]); row->sub[j] = n2; if (two) put(d[1][i], e, n2); else put(d[i], e, n2); }
    vx_assert(has(d, t, s), "exactly the addressed element changes");
}
VX_ENTRY(h_index)
{
    uint32_t n = 1 + (uint32_t)vx_pick(4, "n"); bool two = vx_pick(2, "two");
    switch (vx_pick(8, "type"))
    {
        case 0: idx<int8_t>(n, two); break; case 1: idx<uint8_t>(n, two); break; case 2: idx<int16_t>(n, two); break; case 3: idx<uint16_t>(n, two); break;
        case 4: idx<int32_t>(n, two); break; case 5: idx<uint32_t>(n, two); break; case 6: idx<int64_t>(n, two); break; default: idx<uint64_t>(n, two); break;
    }
    vx_reach("end");
}
VX_ENTRY(h_sym)
{
#ifdef VX_THOROUGH
    const uint32_t N = 3, M = 4;
#else
    const uint32_t N = 2, M = 3;
#endif
    T e = leaf((int)vx_pick(15, "kind"));
    T t = arr(N, arr(M, e)); DynamicData d(*build(t)); S s = any(t); put(d, t, s);
    uint32_t i = vx_below<uint32_t>(N, "i"), j = vx_below<uint32_t>(M, "j");
    S v = any(e); put(d[i][j], e, v);
    bool ok = true;
    prim(e.k, [&](auto x) { typedef decltype(x) X; for (uint32_t p = 0; p < N; ++p) for (uint32_t q = 0; q < M; ++q)
        { X got = d[p][q].template value<X>(), o = fromS<X>(s.sub[p].sub[q]), n = fromS<X>(v); bool hit = (p == i) & (q == j); ok &= (hit & vx_same(got, n)) | (!hit & vx_same(got, o)); } });
    vx_assert(ok, "a write through an index tuple changes exactly that element");
    vx_reach("end");
}
VX_ENTRY(h_size)
{
    std::vector<uint32_t> d = pick_dims(); T e = vx_pick(2, "elem") ? leaf(I32) : leaf(STR); prof().chars = 1;
    DynamicType::Ptr ty = vx_pick(2, "ctor") ? direct(d, e) : build(nest(d, e));
    const DynamicType* p = ty.get(); size_t total = build(e)->memory_size();
    for (auto x : d) { vx_assert(p->kind() == TypeKind::ARRAY_TYPE && static_cast<const ArrayType*>(p)->dimension() == x, "each dimension is the declared one"); p = &static_cast<const ArrayType*>(p)->content_type(); total *= x; }
    vx_assert(p->kind() == build(e)->kind() && ty->memory_size() == total, "the array holds exactly its elements");
    DynamicData a(*ty);
    vx_assert(a.size() == d[0] && a.bounds() == d[0], "size and bound are the first dimension");
    if (d.size() > 1) vx_assert(a[0].size() == d[1], "the inner size is the second dimension");
    if (d.size() == 1)
    {
        T t = arr(d[0], e); S s = any(t); put(a, t, s);
        size_t i = 0; bool ok = true; for (auto&& r : a) { ok &= i < s.sub.size() && has(r, e, s.sub[i]); ++i; }
        vx_assert(ok && i == d[0], "iteration yields each element once, in order");
        if (e.k == I32) { std::vector<int32_t> v = a.as_vector<int32_t>(); ok = v.size() == d[0]; for (i = 0; ok && i < d[0]; ++i) ok &= v[i] == fromS<int32_t>(s.sub[i]); vx_assert(ok, "as_vector returns the elements"); }
    }
    vx_reach("end");
}
VX_ENTRY(h_bulk)
{
    static const std::vector<uint32_t> all[6] = {{66000}, {264, 250}, {41, 40, 42}, {2, 33000}, {33000, 2}, {3, 256, 90}}; const std::vector<uint32_t> d = all[vx_pick(6, "dims")];
    DynamicType::Ptr ty = vx_pick(2, "ctor") ? direct(d, leaf(U8)) : build(nest(d, leaf(U8))); DynamicData a(*ty); uint32_t w = d[0] < 4 ? 1 : 3;
    auto place = [&](const char* n) { switch (vx_pick(4, n)) { case 0: return uint32_t(0); case 1: return d[0] / 2; case 2: return d[0] - d[0] / 8 - w; default: return d[0] - w; } };
    auto get = [&](const std::vector<uint32_t>& i) { ReadableDynamicDataRef r = a.cref(); if (i.size() == 1) return r[i[0]].value<uint8_t>(); if (i.size() == 2) return r[i[0]][i[1]].value<uint8_t>(); return r[i[0]][i[1]][i[2]].value<uint8_t>(); };
    auto set = [&](const std::vector<uint32_t>& i, uint8_t v) { if (i.size() == 1) a[i[0]] = v; else if (i.size() == 2) a[i[0]][i[1]] = v; else a[i[0]][i[1]][i[2]] = v; };
    std::vector<uint32_t> i{place("i") + vx_below<uint32_t>(w, "wi")}, j{place("j")}; for (size_t k = 1; k < d.size(); ++k) { i.push_back(d[k] - 1); j.push_back(vx_pick(2, "last") ? d[k] - 1 : 0); }
    uint8_t v = vx_any<uint8_t>("v"), u = vx_any<uint8_t>("u"); set(i, v); set(j, u); bool hit = true; for (size_t k = 0; k < d.size(); ++k) hit &= i[k] == j[k];
    vx_assert(get(j) == u && get(i) == (hit ? u : v), "the element of an index tuple is read back"); std::vector<uint32_t> z(j); bool ok = true;
    for (uint32_t x = 0; x < d[0]; x += d[0] / 7 + 1) { z[0] = x; bool zi = true, zj = true; for (size_t k = 0; k < d.size(); ++k) { zi &= z[k] == i[k]; zj &= z[k] == j[k]; } ok &= get(z) == (zj ? u : zi ? v : 0); }
    vx_assert(ok, "and no other element is changed"); DynamicData c(a); vx_assert(c == a && a.size() == d[0], "copies are equal"); vx_reach("end");
}

static WritableDynamicDataRef down(WritableDynamicDataRef r, const std::vector<uint32_t>& i, size_t k) { return k == i.size() ? r : down(r[i[k]], i, k + 1); }
VX_ENTRY(h_dims)
{
    unsigned n = 4 + (unsigned)vx_pick(3, "dims"); std::vector<uint32_t> d; unsigned three = n == 6 ? 6 : (unsigned)vx_pick(n + 1, "three"); for (unsigned i = 0; i < n; ++i) d.push_back(i == three ? 3 : i % 2 ? 1 : 2);
    if (vx_pick(2, "swap")) for (auto& x : d) x = x == 3 ? 3 : 3 - x;
    T e = vx_pick(2, "elem") ? leaf(U16) : leaf(STR), t = nest(d, e); DynamicType::Ptr ty; prof().chars = 2;
    switch (vx_pick(3, "ctor"))
    {
        case 0: ty = direct(d, e); break; case 1: ty = build(t); break;
        default: { std::vector<uint32_t> in(d.begin() + 2, d.end()), out(d.begin(), d.begin() + 2); ty = DynamicType::Ptr(ArrayType(*direct(in, e), out)); }
    }
    DynamicData a(*ty); unsigned c = 0; S s = ramp(t, 0, c); put(a, t, s); std::vector<uint32_t> i; for (auto x : d) i.push_back((uint32_t)vx_pick(x, "i"));
    S* p = at(s, i); *p = any(e); put(down(a, i, 0), e, *p); vx_assert(has(a, t, s), "every index tuple denotes its own element");
    DynamicData b(a); vx_assert(has(b, t, s), "a copied array has the same elements");
    unsigned k = (unsigned)vx_pick(n, "dim"); i[k] = d[k] + (uint32_t)vx_pick(2, "over"); vx_assert(vx_throws([&]() { down(a, i, 0); }), "an index is accepted exactly inside the dimension"); vx_assert(has(a, t, s), "a rejected index changes nothing"); vx_reach("end");
}
