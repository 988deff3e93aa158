// Generated IDL declares exactly the given type
//! entry h_struct : a structure whose first member is of any of 37 types (all primitives, strings, enumeration, alias, structure, union, sequences, maps, arrays, nested ones) with bounds and dimensions arbitrary in six windows of ten values (around 1, 100, 255, 2^16, 2^31 and 2^32), arbitrary one-letter names, 1-3 members; directly and from a module
//! entry h_derived : structures with a base structure with 0-2 members of its own and 0-2 inherited ones, directly and from a module
//! entry h_array : arrays of 1-3 dimensions, the first in the same six windows, of 6 element types, as structure members, union members and aliases
//! entry h_union : every discriminator type (also behind an alias); labels: all values of 8 bits, all characters, for wider integers ten arbitrary consecutive values at the ends of the range, at zero, at -9 and at 9990; two cases, one or two arbitrary labels in the first, any default
//! entry h_union_member : a union member of each of the member types, with bounds in those windows
//! entry h_enum : enumerations of 1-4 enumerators with arbitrary one-letter names and arbitrary increasing 32-bit values
//! entry h_alias : aliases of each of the member types, with bounds in those windows, and of other aliases
//! entry h_const : constants of every integer, boolean, character and string type: all values of 8 bits and all characters, wider integers in windows of ten values (ends of the range, zero, -9, 9990), strings of 0-2 characters
//! entry h_module : declarations of every kind in nested modules are written inside the braces of their module
//! entry h_large : structures of 34 and 130 members, plain or half inherited, unions of 34 cases and enumerations of 130 enumerators, one bound, dimension or label arbitrary within a window (34)
//! assume character labels and the text of character and string constants are printable ASCII other than quotes and backslash (the generator writes no escapes), for wide characters also any other character that is not a surrogate: of the whole of Unicode for wchar_t and wstring, of the basic plane for 16-bit characters and strings
//! assume type names contain no arrays inside sequences and maps, which IDL cannot express
#include "xt.h"
#include <xtypes/idl/generator.hpp>
using namespace xt; using idl::Module;
namespace gen = idl::generator;
// one decision per character
static bool idc(char c) { unsigned char u = c; return bool(unsigned((unsigned char)((u | 32) - 'a') < 26) | unsigned((unsigned char)(u - '0') < 10) | unsigned(u == '_')); }
static bool ws(char c) { return bool(unsigned(c == ' ') | unsigned(c == '\n') | unsigned(c == '\t') | unsigned(c == '\r')); }
// the text without layout
static std::string tight(const std::string& s)
{
    std::string r; bool sp = false, last = false;
    for (size_t i = 0; i < s.size(); ++i)
    {
        char c = s[i]; bool id = idc(c); if (!id && ws(c)) { sp = true; continue; }
        if (sp && last && id) r.push_back(' ');
        sp = false; last = id; r.push_back(c);
    }
    return r;
}
static bool eq(const std::string& a, const std::string& b) { return a.size() == b.size() && vx_equal(a.data(), b.data(), a.size()); }
static std::string udec(uint64_t v) { std::string s; do { s.insert(s.begin(), char('0' + v % 10)); v /= 10; } while (v); return s; }
static std::string dec(int64_t v) { return v < 0 ? "-" + udec(0 - (uint64_t)v) : udec((uint64_t)v); }
static std::string letter(const char* n) { char c = vx_any<char>(n); vx_assume(c >= 'F' && c <= 'O'); return std::string(1, c); }
static std::string utf8(uint32_t c) { std::string s; if (c < 0x80) s += char(c); else if (c < 0x800) { s += char(0xC0 | c >> 6); s += char(0x80 | (c & 63)); } else if (c < 0x10000) { s += char(0xE0 | c >> 12); s += char(0x80 | (c >> 6 & 63)); s += char(0x80 | (c & 63)); } else { s += char(0xF0 | c >> 18); s += char(0x80 | (c >> 12 & 63)); s += char(0x80 | (c >> 6 & 63)); s += char(0x80 | (c & 63)); } return s; }
// a character that is no surrogate; wide ones reach to the end of Unicode
template<class X> static bool character(X c) { return uint32_t(c) < (sizeof(X) == 4 ? 0x110000u : 0xFFFEu) && (uint32_t(c) < 0xD800 || uint32_t(c) > 0xDFFF); }
static std::string bnd(uint32_t n, bool first) { return n ? (first ? "<" + udec(n) + ">" : "," + udec(n)) : std::string(); }
static std::string ref(const T& t)
{
    static const char* const p[15] = {"boolean", "int8", "uint8", "int16", "uint16", "int32", "uint32", "int64", "uint64", "float", "double", "long double", "char", "wchar", "wchar"};
    switch (t.k)
    {
        case STR: return "string" + bnd(t.n, true); case WSTR: case STR16: return "wstring" + bnd(t.n, true);
        case ENUM: return "E"; case ALIAS: return "Al"; case STRUCT: return "S"; case UNION: return "U"; case ARR: return ref(t.sub[0]);
        case SEQ: return "sequence<" + ref(t.sub[0]) + bnd(t.n, false) + ">"; case MAP: return "map<" + ref(t.sub[0]) + "," + ref(t.sub[1]) + bnd(t.n, false) + ">";
        default: return p[t.k];
    }
}
static std::string dims(const T& t) { return t.k == ARR ? "[" + udec(t.n) + "]" + dims(t.sub[0]) : std::string(); }
static std::string join(const T& t, const std::string& n) { std::string r = ref(t); return r.back() == '>' ? r + n : r + " " + n; }
static std::string member(const T& t, const std::string& n) { return join(t, n) + dims(t) + ";"; }
// ten consecutive values, at one of six places of the range
static uint32_t window(const char* n) { static const uint32_t at[6] = {1, 95, 250, 65530, 0x7FFFFFFAu, 0xFFFFFFF6u}; uint8_t d = vx_any<uint8_t>(n); vx_assume(d < 10); return at[vx_pick(6, "window")] + d; }
static uint32_t bound(const char* n) { return vx_pick(2, "bounded") ? window(n) : 0; }
static uint32_t dim(const char* n) { return window(n); }
static T member_type()
{
    unsigned k = vx_pick(37, "type"); if (k < 15) return leaf(k);
    uint32_t b = k < 31 ? bound("bound") : 7;
    switch (k)
    {
        case 15: return leaf(STR, b); case 16: return leaf(WSTR, b); case 17: return leaf(STR16, b); case 18: return leaf(ENUM); case 19: return ali(leaf(U8)); case 20: return st({leaf(U8)}); case 21: return un({leaf(U8)});
        case 22: return seq(leaf(I32), b); case 23: return seq(leaf(STR, b), 3); case 24: return seq(seq(leaf(F128)), b); case 25: return seq(leaf(ENUM), b); case 26: return seq(st({leaf(U8)}), b); case 27: return map(leaf(U16), leaf(STR, 5), b); case 28: return map(leaf(STR), seq(leaf(I8), 2), b);
        case 29: return map(leaf(ENUM), ali(leaf(U8)), b); case 30: return seq(un({leaf(U8)}), b);
        case 31: return arr(dim("dim"), leaf(STR, 4)); case 32: return arr(3, arr(2, seq(leaf(I64), 9))); case 33: return arr(2, st({leaf(U8)})); case 34: return arr(2, ali(leaf(U8))); case 35: return seq(map(leaf(I16), un({leaf(U8)})), 6); default: return ali(arr(3, leaf(U8)));
    }
}
static bool uses(const T& t, int k) { if (t.k == k) return true; if (t.k == ALIAS || t.k == STRUCT || t.k == UNION) return false; for (auto& x : t.sub) if (uses(x, k)) return true; return false; }
static void only(const T& t, int k, T& r) { if (t.k == k) r = t; else for (auto& x : t.sub) only(x, k, r); }
// the named types a type refers to
static void declare(Module& m, const T& t)
{
    if (uses(t, ENUM)) { EnumerationType<uint32_t> e("E"); e.add_enumerator("A"); e.add_enumerator("B", 5); e.add_enumerator("C"); m.enum_32(std::move(e)); }
    if (uses(t, ALIAS)) { T a; only(t, ALIAS, a); m.create_alias(build(a.sub[0]), "Al"); }
    if (uses(t, STRUCT)) { StructType s("S"); s.add_member("m0", primitive_type<uint8_t>()); m.structure(std::move(s)); }
    if (uses(t, UNION)) { UnionType u("U", primitive_type<int32_t>()); u.add_case_member(std::vector<int32_t>{0, 1}, Member("m0", primitive_type<uint8_t>())); m.union_switch(std::move(u)); }
}
static std::vector<std::string> declared(const T& t)
{
    std::vector<std::string> r; if (uses(t, ENUM)) r.push_back("enum E{A,B,C};");
    if (uses(t, ALIAS)) { T a; only(t, ALIAS, a); r.push_back("typedef " + join(a.sub[0], "Al") + dims(a.sub[0]) + ";"); }
    if (uses(t, STRUCT)) r.push_back("struct S{uint8 m0;};");
    if (uses(t, UNION)) r.push_back("union U switch(int32){case 0:case 1:uint8 m0;};");
    return r;
}
static std::vector<std::string> split(const std::string& s)
{
    std::vector<std::string> r; std::string c; int depth = 0; bool q = false; char open = 0;
    for (char x : s) { c.push_back(x); if (!q && idc(x)) continue; if (q) { if (x == open) q = false; continue; } if (x == '\'' || x == '"') { q = true; open = x; } else if (x == '{') ++depth; else if (x == '}') --depth; else if (x == ';' && depth == 0) { r.push_back(c); c.clear(); } }
    if (!c.empty()) r.push_back(c);
    return r;
}
// exactly these declarations, in some order
static void holds(const std::string& text, std::vector<std::string> want)
{
    std::vector<std::string> got = split(tight(text)); vx_assert(got.size() == want.size(), "every declaration is written once");
    for (auto& w : want) { bool f = false; for (size_t i = 0; i < got.size() && !f; ++i) if (eq(got[i], w)) { got.erase(got.begin() + i); f = true; } vx_assert(f, "the declaration says exactly what the type is"); }
}
// the text is the same when the caller also asks for the parts
static std::string both(const Module& m) { std::string g = gen::module(m); std::map<std::string, std::string> parts; std::string h = gen::module(m, &parts); vx_assert(eq(g, h), "asking for the declarations one by one does not change the text"); return g; }
VX_ENTRY(h_struct)
{
    vx_exact_fmt = 1; T t = member_type(); unsigned n = vx_pick(3, "members"); std::string nm[3]; nm[0] = letter("n0"); nm[1] = "v1"; nm[2] = "v2";
    StructType s("N"); s.add_member(nm[0], *build(t)); std::string want = "struct N{" + member(t, nm[0]);
    if (n > 0) { s.add_member("v1", StringType(17)); want += "string<17>v1;"; } if (n > 1) { s.add_member("v2", primitive_type<char16_t>()); want += "wchar v2;"; }
    want += "};";
    vx_assert(eq(tight(gen::structure("N", s)), want), "the structure is declared with its members");
    std::string other = letter("as"); std::string w2 = want; w2[7] = other[0]; vx_assert(eq(tight(gen::structure(other, s, nullptr, 2)), w2), "the structure is declared under the given name");
    Module m; declare(m, t); m.structure(s); std::vector<std::string> d = declared(t); d.push_back(want); holds(gen::module(m), d);
    vx_reach("end");
}
VX_ENTRY(h_derived)
{
    vx_exact_fmt = 1; StructType p("P"); unsigned inh = vx_pick(3, "inherited"), own = vx_pick(3, "own"); static const char* const pn[2] = {"p0", "p1"}; static const char* const on[2] = {"o0", "o1"}; std::string pw = "struct P{", w = "struct N:P{";
    for (unsigned i = 0; i < inh; ++i) { int k = (int)vx_pick(15, "k"); prim(k, [&](auto x) { p.add_member(pn[i], primitive_type<decltype(x)>()); }); pw += member(leaf(k), pn[i]); }
    StructType s("N", &p); for (unsigned i = 0; i < own; ++i) { int k = (int)(i ? 3 : vx_pick(15, "k")); prim(k, [&](auto x) { s.add_member(on[i], primitive_type<decltype(x)>()); }); w += member(leaf(k), on[i]); }
    w += "};"; pw += "};"; vx_assert(eq(tight(gen::structure("N", s)), w), "only the structure's own members are declared");
    if (inh + own > 0) { StructType g("Q", &s); g.add_member("q", primitive_type<float>()); vx_assert(eq(tight(gen::structure("Q", g)), "struct Q:N{float q;};"), "the base of a derived structure is its direct base"); }
    Module m; m.structure(p); m.structure(s); holds(both(m), {pw, w});
    vx_reach("end");
}
VX_ENTRY(h_array)
{
    vx_exact_fmt = 1; T t; switch (vx_pick(6, "content")) { case 0: t = leaf(I8); break; case 1: t = leaf(STR, 3); break; case 2: t = leaf(ENUM); break; case 3: t = ali(arr(4, leaf(U8))); break; case 4: t = seq(leaf(I16), 5); break; default: t = leaf(F128); }
    unsigned n = 1 + vx_pick(3, "dims"); T a = t; for (unsigned i = 0; i < n; ++i) { uint32_t d = i == 0 ? dim("d") : i == 1 ? 2 + 11 * vx_pick(2, "d1") : 7; a = arr(d, a); }
    StructType s("N"); s.add_member("b0", primitive_type<bool>()); s.add_member("a", *build(a)); std::string w = "struct N{boolean b0;" + member(a, "a") + "};"; vx_assert(eq(tight(gen::structure("N", s)), w), "arrays are declared with their dimensions in order");
    Module m; declare(m, a); UnionType u("V", primitive_type<bool>()); u.add_case_member(std::vector<bool>{true}, Member("a", *build(a))); m.union_switch(std::move(u)); m.create_alias(build(a), "Ar");
    std::vector<std::string> d = declared(a); d.push_back("union V switch(boolean){case TRUE:" + member(a, "a") + "};"); d.push_back("typedef " + join(a, "Ar") + dims(a) + ";"); holds(gen::module(m), d);
    vx_reach("end");
}
template<class X> static X label(const char* n)
{
    X x = vx_any<X>(n);
    if constexpr (std::is_same<X, char>::value) vx_assume(x > ' ' && x < 127 && x != '\'' && x != '\\' && x != '"');
    else if constexpr (std::is_same<X, char16_t>::value || std::is_same<X, wchar_t>::value) vx_assume(uint32_t(x) > ' ' && uint32_t(x) != 127 && character(x) && (sizeof(X) == 4 || (uint32_t(x) != 0x7FFE && uint32_t(x) != 0x7FFF)) && x != '\'' && x != '\\' && x != '"');
    else if constexpr (!std::is_same<X, bool>::value)
    {   // windows around the ends of the range, zero and one more; all values of the 8-bit types
        constexpr X lo = std::numeric_limits<X>::min(), hi = std::numeric_limits<X>::max(); const X at[5] = {0, std::is_signed<X>::value ? lo : X(hi / 2 + 1), X(hi - 12), X(0 - X(9)), X(sizeof(X) == 1 ? 20 : 9990)};
        if constexpr (sizeof(X) == 1) vx_assume(x < hi - 2 && (std::is_signed<X>::value || (x != hi / 2 && x != hi / 2 - 1))); else { X w = at[vx_pick(5, "window")]; uint8_t d = vx_any<uint8_t>("d"); vx_assume(d < 10); x = X(w + d); if constexpr (!std::is_signed<X>::value) vx_assume(x < hi / 2 - 1 || x > hi / 2); }
    }
    return x;
}
template<class X> static std::string text(X x)
{
    if constexpr (std::is_same<X, bool>::value) return x ? "TRUE" : "FALSE";
    else if constexpr (std::is_same<X, char>::value) return std::string("'") + x + "'";
    else if constexpr (std::is_same<X, char16_t>::value || std::is_same<X, wchar_t>::value) return "L'" + utf8((uint32_t)x) + "'";
    else if constexpr (std::is_signed<X>::value) return dec(x);
    else return udec(x);
}
static void check_union(const DynamicType& disc, const std::string& dn, const T& also, std::vector<int64_t> la, std::vector<std::string> ta, std::vector<std::string> extra, void (*setup)(Module&))
{
    unsigned def = vx_pick(4, "default"); // none, first, second with its label, second without labels
    std::vector<int64_t> first(la.begin(), la.end() - 1), second{la.back()}; if (def == 3) second.clear();
    UnionType u("V", disc); u.add_case_member(first, Member("x", primitive_type<int16_t>()), def == 1); u.add_case_member(second, Member("y", StringType(4)), def >= 2);
    std::string tail = std::string(def == 1 ? "default:" : "") + "int16 x;" + (def == 3 ? "" : "case " + ta.back() + ":") + (def >= 2 ? "default:" : "") + "string<4>y;};", head = "union V switch(" + dn + "){", c0 = "case " + ta[0] + ":", c1 = ta.size() > 2 ? "case " + ta[1] + ":" : "";
    Module m; (void)also; setup(m); m.union_switch(std::move(u)); std::vector<std::string> got = split(tight(gen::module(m))); std::string v; std::vector<std::string> rest; for (auto& g : got) if (g.compare(0, 8, "union V ") == 0) v = g; else rest.push_back(g);
    vx_assert(eq(v, tight(head + c0 + c1 + tail)) || eq(v, tight(head + c1 + c0 + tail)), "the union is declared with its discriminator, labels, default and members"); std::sort(rest.begin(), rest.end()); vx_assert(rest == extra, "and nothing else");
    vx_reach("end");
}
VX_ENTRY(h_union)
{
    vx_exact_fmt = 1; unsigned k = vx_pick(16, "disc");
    if (k < 13)
    {
        static const int kinds[13] = {BOOL, I8, U8, I16, U16, I32, U32, I64, U64, C8, C16, WC, I32}; bool two = k != 0 && k != 12 && vx_pick(2, "two");
        prim(kinds[k], [&](auto z) { typedef decltype(z) X; if constexpr (!std::is_floating_point<X>::value) {
            X a = label<X>("a"), b = two ? X(a + 1) : a, c = X(57); if constexpr (std::is_same<X, bool>::value) c = !a; else vx_assume(c != a && c != b); if (two) { if constexpr (!std::is_same<X, bool>::value) { if constexpr (!std::is_signed<X>::value) vx_assume(a < std::numeric_limits<X>::max() / 2 - 2); if constexpr (std::is_same<X, char>::value || std::is_same<X, char16_t>::value || std::is_same<X, wchar_t>::value) vx_assume(uint32_t(b) < 127 && uint32_t(b) != '\'' && uint32_t(b) != '"' && uint32_t(b) != '\\'); } }
            std::vector<int64_t> l{(int64_t)a}; std::vector<std::string> t{text(a)}; if (two) { l.push_back((int64_t)b); t.push_back(text(b)); } l.push_back((int64_t)c); t.push_back(text(c));
            if (k == 12) check_union(AliasType(primitive_type<X>(), "Al"), "Al", T(), l, t, {"typedef int32 Al;"}, [](Module& m) { m.create_alias(DynamicType::Ptr(primitive_type<int32_t>()), "Al"); });
            else check_union(primitive_type<X>(), ref(leaf(kinds[k])), T(), l, t, {}, [](Module&) { }); } });
    }
    else if (k < 15)
    {
        EnumerationType<uint32_t> e("E"); e.add_enumerator("Bb", 3); e.add_enumerator("Aa", 7); e.add_enumerator("Cc", 0x80000002u); static const uint32_t v[3] = {3, 7, 0x80000002u}; static const char* const n[3] = {"Bb", "Aa", "Cc"}; unsigned i = vx_pick(3, "i"), j = vx_pick(3, "j"); vx_assume(i != j); vx_assume(v[i] != 7 || true);
        if (k == 13) check_union(e, "E", T(), {(int64_t)v[i], (int64_t)v[j]}, {n[i], n[j]}, {"enum E{Bb,Aa,Cc};"}, [](Module& m) { EnumerationType<uint32_t> e("E"); e.add_enumerator("Bb", 3); e.add_enumerator("Aa", 7); e.add_enumerator("Cc", 0x80000002u); m.enum_32(std::move(e)); });
        else check_union(AliasType(e, "Al"), "Al", T(), {(int64_t)v[i], (int64_t)v[j]}, {n[i], n[j]}, {"enum E{Bb,Aa,Cc};", "typedef E Al;"}, [](Module& m) { EnumerationType<uint32_t> e("E"); e.add_enumerator("Bb", 3); e.add_enumerator("Aa", 7); e.add_enumerator("Cc", 0x80000002u); m.create_alias(DynamicType::Ptr(e), "Al"); m.enum_32(std::move(e)); });
    }
    else
    {   // narrow enumerations: their labels are named too
        EnumerationType<uint8_t> e("E8"); e.add_enumerator("Bb", 3); e.add_enumerator("Aa", 200); bool sw = vx_pick(2, "swap"); UnionType u("V", e); u.add_case_member(std::vector<uint8_t>{uint8_t(sw ? 200 : 3)}, Member("x", primitive_type<int16_t>()));
        vx_assert(gen::label_value(u.get_labels("x").at(0), u.discriminator()) == (sw ? "Aa" : "Bb"), "labels of a narrow enumeration are its enumerators");
        EnumerationType<uint16_t> f("E16"); f.add_enumerator("Bb", 300); f.add_enumerator("Aa", 20000); vx_assert(gen::label_value(sw ? 20000 : 300, AliasType(AliasType(f, "G"), "H")) == (sw ? "Aa" : "Bb"), "labels of a narrow enumeration are its enumerators"); vx_reach("end");
    }
}
VX_ENTRY(h_union_member)
{
    vx_exact_fmt = 1; T t = member_type(); std::string n = letter("n"); Module m; declare(m, t); UnionType u("V", primitive_type<char>()); u.add_case_member(std::vector<char>{'a', 'b'}, Member(n, *build(t))); u.add_case_member(std::vector<char>{}, Member("v2", primitive_type<double>()), true); m.union_switch(u);
    std::vector<std::string> d = declared(t); d.push_back("union V switch(char){case'a':case'b':" + member(t, n) + "default:double v2;};"); holds(gen::module(m), d); vx_reach("end");
}
VX_ENTRY(h_enum)
{
    vx_exact_fmt = 1; unsigned n = 1 + vx_pick(4, "n"); EnumerationType<uint32_t> e("N"); uint32_t v = 0; std::vector<std::string> names; std::string w = "enum N{";
    for (unsigned i = 0; i < n; ++i) { uint32_t x = vx_any<uint32_t>("v"); if (i) vx_assume(x > v); v = x; std::string c = letter("c"); for (auto& y : names) vx_assume(y != c); names.push_back(c); e.add_enumerator(c, x); w += (i ? "," : "") + c; }
    w += "};"; vx_assert(eq(tight(gen::enumeration32("N", e)), w), "enumerators are declared in the order of their values"); Module m; m.enum_32(std::move(e)); holds(gen::module(m), {w}); vx_reach("end");
}
VX_ENTRY(h_alias)
{
    vx_exact_fmt = 1; T t = member_type(); std::string n = letter("n"); Module m; declare(m, t); DynamicType::Ptr p = build(t); m.create_alias(build(t), n); std::vector<std::string> d = declared(t); d.push_back("typedef " + join(t, n) + dims(t) + ";");
    if (vx_pick(2, "twice")) { AliasType a(*p, n); m.create_alias(DynamicType::Ptr(a), "Zz"); d.push_back("typedef " + n + " Zz;"); }
    holds(gen::module(m), d); vx_reach("end");
}
VX_ENTRY(h_const)
{
    vx_exact_fmt = 1; unsigned k = vx_pick(17, "kind"); std::string n = letter("n"), w; Module m;
    if (k < 12)
    {
        static const int kinds[12] = {BOOL, I8, U8, I16, U16, I32, U32, I64, U64, C8, C16, WC};
        prim(kinds[k], [&](auto z) { typedef decltype(z) X; if constexpr (!std::is_floating_point<X>::value) { X x;
            if constexpr (std::is_same<X, bool>::value) x = vx_any<bool>("x");
            else if constexpr (std::is_same<X, char>::value || std::is_same<X, char16_t>::value || std::is_same<X, wchar_t>::value) { x = vx_any<X>("x"); vx_assume(uint32_t(x) > ' ' && x != '\'' && x != '"' && x != '\\' && uint32_t(x) != 127); if constexpr (std::is_same<X, char>::value) vx_assume(x > 0); else vx_assume(character(x)); }
            else { constexpr X lo = std::numeric_limits<X>::min(), hi = std::numeric_limits<X>::max(); if constexpr (sizeof(X) == 1) x = vx_any<X>("x"); else { const X at[5] = {0, lo, X(hi - 9), X(0 - X(9)), X(9990)}; uint8_t e = vx_any<uint8_t>("d"); vx_assume(e < 10); x = X(at[vx_pick(5, "window")] + e); } }
            DynamicData d(primitive_type<X>()); d = x; vx_assert(m.create_constant(n, d), "declared"); w = "const " + ref(leaf(kinds[k])) + " " + n + "=" + text(x) + ";"; } });
    }
    else if (k < 15)
    {
        unsigned len = vx_pick(3, "len"); std::u32string s; std::string t; bool wide = k > 12; for (unsigned i = 0; i < len; ++i) { uint32_t c = k == 13 ? vx_any<uint32_t>("c") : wide ? vx_any<char16_t>("c") : vx_any<unsigned char>("c"); vx_assume(c > ' ' && c != '\'' && c != '"' && c != '\\' && c != 127 && (k == 13 ? character(c) : wide ? character(char16_t(c)) : c < 127)); s.push_back(c); t += utf8(c); }
        T ty = leaf(k == 12 ? STR : k == 13 ? WSTR : STR16); DynamicData d(*build(ty)); S v; v.s = s; put(d, ty, v); m.create_constant(n, d); w = "const " + ref(ty) + " " + n + "=" + (wide ? "L\"" : "\"") + t + "\";";
    }
    else if (k == 15) { EnumerationType<uint32_t> e("E"); e.add_enumerator("A", 4); e.add_enumerator("B", 9); DynamicData d(e); bool b = vx_pick(2, "b"); d = uint32_t(b ? 9 : 4); m.create_constant(n, d); m.enum_32(std::move(e)); holds(gen::module(m), {"enum E{A,B};", std::string("const E ") + n + "=" + (b ? "9" : "4") + ";"}); vx_reach("end"); return; }
    else { DynamicData d(primitive_type<int32_t>()); d = vx_any<int32_t>("x"); m.create_constant(n, d, false, true); holds(gen::module(m), {}); vx_reach("end"); return; }
    std::string g = gen::module(m); vx_assert(eq(tight(g), w), "constants are declared with their type and value"); vx_reach("end");
}
VX_ENTRY(h_module)
{
    vx_exact_fmt = 1; Module m; std::string a = "A", b = letter("b"), n = letter("n"); vx_assume(b != n); Module& ma = m.create_submodule(a); Module& mb = ma.create_submodule(b); Module* in[3] = {&m, &ma, &mb}; unsigned w = vx_pick(3, "in"); unsigned k = vx_pick(5, "kind"); std::string d;
    switch (k)
    {
        case 0: { StructType s(n); s.add_member("x", primitive_type<int8_t>()); in[w]->structure(s); d = "struct " + n + "{int8 x;};"; break; }
        case 1: { UnionType u(n, primitive_type<int32_t>()); u.add_case_member(std::vector<int32_t>{-3}, Member("x", primitive_type<int8_t>())); in[w]->union_switch(u); d = "union " + n + " switch(int32){case-3:int8 x;};"; break; }
        case 2: { EnumerationType<uint32_t> e(n); e.add_enumerator("A"); in[w]->enum_32(std::move(e)); d = "enum " + n + "{A};"; break; }
        case 3: { in[w]->create_alias(DynamicType::Ptr(SequenceType(primitive_type<float>(), 3)), n); d = "typedef sequence<float,3>" + n + ";"; break; }
        default: { DynamicData x(primitive_type<uint8_t>()); x = uint8_t(9); in[w]->create_constant(n, x); d = "const uint8 " + n + "=9;"; break; }
    }
    StructType o("O2"); o.add_member("z", primitive_type<bool>()); unsigned w2 = vx_pick(3, "in2"); in[w2]->structure(o); std::string d2 = "struct O2{boolean z;};"; std::vector<std::string> root, ia, ib; (w == 0 ? root : w == 1 ? ia : ib).push_back(d); (w2 == 0 ? root : w2 == 1 ? ia : ib).push_back(d2);
    auto mod = [&](const std::string& text, const std::string& name) { std::string h = "module " + name + "{"; vx_assert(text.size() >= h.size() + 2 && eq(text.substr(0, h.size()), h) && text.substr(text.size() - 2) == "};", "a module is written with its braces"); return text.substr(h.size(), text.size() - h.size() - 2); };
    auto take = [&](std::vector<std::string> got, const std::vector<std::string>& want, const std::string& module_name) { std::string inner; size_t extra = 0; std::vector<bool> seen(want.size(), false); for (auto& g : got) { if (g.compare(0, 7, "module ") == 0) { inner = g; ++extra; continue; } bool f = false; for (size_t i = 0; i < want.size(); ++i) if (!seen[i] && eq(g, want[i])) { seen[i] = true; f = true; break; } vx_assert(f, "declarations are written in their module"); } for (bool x : seen) vx_assert(x, "every declaration of the module is written"); vx_assert(extra == (module_name.empty() ? 0u : 1u), "every module is written once"); return inner; };
    std::string t = take(split(tight(both(m))), root, a); std::string t2 = take(split(mod(t, a)), ia, b); take(split(mod(t2, b)), ib, "");
    vx_reach("end");
}
VX_ENTRY(h_large)
{
    vx_exact_fmt = 1; unsigned n = vx_pick(2, "n") ? 130 : 34; Module m; std::vector<std::string> want;
    switch (vx_pick(4, "what"))
    {
        case 0: case 1:
        {
            bool der = vx_pick(2, "derived"); T t = big_type(der ? 10 : 9, n); unsigned at = vx_pick(2, "at") ? n - 1 : n / 2; t.sub[at] = vx_pick(2, "array") ? arr(n == 34 ? dim("dim") : 4000000000u, leaf(I8)) : seq(leaf(STR, 3), n == 34 ? bound("bound") : 4000000000u); DynamicType::Ptr ty = build(t); StructType s(static_cast<const StructType&>(*ty));
            std::string w = der ? "struct S:P{" : "struct S{", p = "struct P{"; for (unsigned i = 0; i < n; ++i) (i < t.n ? p : w) += member(t.sub[i], mname(i)); w += "};"; p += "};"; vx_assert(eq(tight(gen::structure("S", s)), w), "the structure is declared with its members"); m.structure(s); want.push_back(w);
            if (der) { StructType ps(static_cast<const StructType&>(s.parent())); m.structure(ps); want.push_back(p); } break;
        }
        case 2:
        {
            UnionType u("N", primitive_type<int32_t>()); std::string w = "union N switch(int32){"; n = 34; for (unsigned i = 0; i < n; ++i) { int32_t l = i == 17 ? label<int32_t>("l") : int32_t(i) * 7 + 200; std::vector<int32_t> ls{l}; w += "case " + dec(l) + ":"; if (i != 17) { ls.push_back(int32_t(i) + 1000); w += "case " + udec(i + 1000) + ":"; } u.add_case_member(ls, Member(mname(i), primitive_type<uint8_t>())); w += member(leaf(U8), mname(i)); } w += "};"; m.union_switch(u); want.push_back(tight(w)); break;
        }
        default:
        {
            EnumerationType<uint32_t> e("E"); std::string w = "enum E{"; for (unsigned i = 0; i < n; ++i) { e.add_enumerator(mname(i)); w += (i ? "," : "") + mname(i); } w += "};"; m.enum_32(std::move(e)); want.push_back(w);
        }
    }
    holds(gen::module(m), want); vx_reach("end");
}
