// Generated IDL declares everything before it is used
//! entry h_graph3 : three types, each a structure, union, alias or enumeration with an arbitrary one-letter name, any dependencies between them, each by one of 4 forms (direct, sequence or array, map key and value, base structure / discriminator); in the root module, for the first and last form (thorough: for all) added in either order or referred to by the declared object
//! entry h_graph4 : four types of 5 patterns of kinds, any acyclic dependencies, all orders of their names
//! entry h_graph5 tier=thorough time=800 : five types of 4 patterns of kinds, any acyclic dependencies, 20 orders of their names
//! entry h_modules : three types of 4 patterns of kinds in a chain or a fan, in any modules of root{Ma{Mb},Mc} whose modules do not depend on each other mutually, names in any order, referred to by a separate object with the unscoped name or (fans to one type: thorough only) by the object declared
//! entry h_modules3 tier=thorough time=850 : the same with every combination of kinds
//! entry h_modules4 tier=thorough time=850 : the same with three structures and a union and any acyclic dependencies
//! entry h_tree : three structures in a chain or a fan in any modules of root{Ma{Mb{Md{Me}}},Mc} and of root{Ma{Mb,Md},Mc{Me}} whose modules do not depend on each other mutually, names in 3 (thorough: 6) orders
//! entry h_uses : every way of mentioning a type (12 of them), in a structure, a union and an alias, of a type of each kind
//! entry h_const : constants of enumeration types are declared after them
//! entry h_large : chains, fans and pairs of chains of 12 types in the root module, names in ascending, descending or mixed order
//! assume the modules do not depend on each other mutually and have different names (IDL text with reopened modules is not generated)
#include "xt.h"
#include <functional>
#include <xtypes/idl/generator.hpp>
using namespace xt; using idl::Module;
namespace gen = idl::generator;
static std::string letter(const char* n) { char c = vx_any<char>(n); vx_assume(c >= 'F' && c <= 'O'); return std::string(1, c); }
static bool idc(char c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || (c >= '0' && c <= '9') || c == '_'; }
static bool upper(char c) { return c >= 'A' && c <= 'Z'; }
static std::vector<std::string> tokens(const std::string& s)
{
    std::vector<std::string> r;
    for (size_t i = 0; i < s.size();)
    {
        char c = s[i]; if (c == ' ' || c == '\n') { ++i; continue; }
        if (idc(c) || (c == ':' && i + 1 < s.size() && s[i + 1] == ':')) { std::string t; while (i < s.size()) { if (idc(s[i])) t.push_back(s[i++]); else if (s[i] == ':' && i + 1 < s.size() && s[i + 1] == ':') { t += "::"; i += 2; } else break; } r.push_back(t); }
        else { r.push_back(std::string(1, c)); ++i; }
    }
    return r;
}
struct Decl { std::string full; std::vector<std::string> uses; };
// reads the text as IDL: every use of a type must resolve to a declaration that was already read
static std::vector<Decl> read(const std::string& text)
{
    std::vector<std::string> t = tokens(text), scope; std::vector<Decl> ds; std::vector<std::string> opened; size_t i = 0;
    auto prefix = [&](size_t n) { std::string p; for (size_t k = 0; k < n; ++k) p += scope[k] + "::"; return p; };
    auto declared = [&](const std::string& f) { for (auto& d : ds) if (d.full == f) return true; return false; };
    auto declare = [&](const std::string& n) { std::string f = prefix(scope.size()) + n; vx_assert(!declared(f), "a type is declared only once"); ds.push_back(Decl{f, {}}); return ds.size() - 1; };
    auto use = [&](std::string n, std::vector<std::string>& to) { bool found = false; if (n.compare(0, 2, "::") == 0) { found = declared(n.substr(2)); if (found) to.push_back(n.substr(2)); } else for (size_t k = scope.size() + 1; k-- > 0 && !found;) { std::string f = prefix(k) + n; if (declared(f)) { found = true; to.push_back(f); } } vx_assert(found, "a type is declared before it is used"); };
    auto isty = [&](const std::string& n) { size_t p = n.rfind("::"); return upper(n[p == std::string::npos ? 0 : p + 2]); };
    while (i < t.size())
    {
        if (t[i] == "module") { scope.push_back(t[i + 1]); std::string p = prefix(scope.size()); for (auto& o : opened) vx_assert(o != p, "a module is written once"); opened.push_back(p); vx_assert(t[i + 2] == "{", "a module has braces"); i += 3; }
        else if (t[i] == "}") { vx_assert(!scope.empty(), "braces match"); scope.pop_back(); vx_assert(t[i + 1] == ";", "a module ends with a semicolon"); i += 2; }
        else if (t[i] == "typedef") { size_t e = i + 1; while (t[e] != ";") ++e; size_t n = e - 1; while (t[n] == "]" || t[n] == "[" || t[n - 1] == "[") --n; std::vector<std::string> u; for (size_t k = i + 1; k < n; ++k) if (isty(t[k])) use(t[k], u); ds[declare(t[n])].uses = u; i = e + 1; }
        else if (t[i] == "const") { std::vector<std::string> u; if (isty(t[i + 1])) use(t[i + 1], u); while (t[i] != ";") ++i; ++i; }
        else
        {
            vx_assert(t[i] == "struct" || t[i] == "union" || t[i] == "enum", "only declarations are written"); bool en = t[i] == "enum"; std::string n = t[i + 1]; std::vector<std::string> u; i += 2;
            while (t[i] != "}") { if (!en && isty(t[i])) use(t[i], u); ++i; }
            vx_assert(t[i + 1] == ";", "a declaration ends with a semicolon"); i += 2; ds[declare(n)].uses = u;
        }
    }
    vx_assert(scope.empty(), "every module is closed"); return ds;
}
enum { S_, U_, A_, E_ };
struct N { int kind; std::string name; int mod; std::vector<int> deps; };
static const char* const member_names[4] = {"m0", "m1", "m2", "m3"};
static DynamicType::Ptr wrap(const DynamicType& t, int form)
{
    switch (form) { case 0: return DynamicType::Ptr(t); case 1: return DynamicType::Ptr(SequenceType(t, 4)); case 2: return DynamicType::Ptr(MapType(t, ArrayType(t, 2), 3)); default: return DynamicType::Ptr(ArrayType(SequenceType(SequenceType(t)), 3)); }
}
static std::string full(const std::vector<std::string>& scopes, const N& n) { return (scopes[n.mod].empty() ? "" : scopes[n.mod] + "::") + n.name; }
static DynamicType::Ptr get(Module& m, const N& n) { switch (n.kind) { case S_: return DynamicType::Ptr(m.structure(n.name)); case U_: return DynamicType::Ptr(m.union_switch(n.name)); case A_: return DynamicType::Ptr(m.alias(n.name)); default: return DynamicType::Ptr(m.enum_32(n.name)); } }
// declares the types in the modules; nodes depend on lower numbered ones only
static void check(Module& root, std::vector<Module*> mods, std::vector<std::string> scopes, std::vector<N> g, int form, bool own, bool reverse)
{
    std::vector<DynamicType::Ptr> ty(g.size()); std::vector<std::function<bool()>> add;
    for (size_t i = 0; i < g.size(); ++i)
    {
        N& n = g[i]; Module* m = mods[n.mod];
        switch (n.kind)
        {
            case S_:
            {
                int base = -1; if (form == 3) for (int d : n.deps) if (g[d].kind == S_) base = d;
                std::shared_ptr<StructType> s = base < 0 ? std::make_shared<StructType>(n.name) : std::make_shared<StructType>(n.name, static_cast<const StructType*>(ty[base].get())); std::string pre = "m"; pre += char('0' + i); int c = 0; s->add_member(pre + "z", primitive_type<uint8_t>());
                for (int d : n.deps) if (d != base) s->add_member(pre + char('a' + c++), *wrap(*ty[d], form)); ty[i] = DynamicType::Ptr(*s); add.push_back([=]() { return m->structure(*s); }); break;
            }
            case U_:
            {
                int disc = -1; if (form == 3) for (int d : n.deps) if (g[d].kind == E_) disc = d;
                std::shared_ptr<UnionType> u = disc < 0 ? std::make_shared<UnionType>(n.name, primitive_type<int32_t>()) : std::make_shared<UnionType>(n.name, *ty[disc]); int c = 0; u->add_case_member(std::vector<int32_t>{0}, Member("mz", primitive_type<uint8_t>()));
                for (int d : n.deps) if (d != disc) { ++c; std::vector<int32_t> l; if (disc < 0) l.push_back(c); u->add_case_member(disc >= 0 ? std::vector<int32_t>{c} : l, Member(member_names[c], *wrap(*ty[d], form))); } ty[i] = DynamicType::Ptr(*u); add.push_back([=]() { return m->union_switch(*u); }); break;
            }
            case A_: { std::shared_ptr<AliasType> a = n.deps.empty() ? std::make_shared<AliasType>(primitive_type<uint8_t>(), n.name) : std::make_shared<AliasType>(*wrap(*ty[n.deps[0]], form), n.name); ty[i] = DynamicType::Ptr(*a); add.push_back([=]() { return m->add_alias(*a); }); break; }
            default: { auto fill = [](EnumerationType<uint32_t>& e) { e.add_enumerator("e0"); e.add_enumerator("e1"); e.add_enumerator("e2"); e.add_enumerator("e3"); e.add_enumerator("e4"); }; EnumerationType<uint32_t> e(n.name); fill(e); ty[i] = DynamicType::Ptr(e); std::string nm = n.name; add.push_back([=]() { EnumerationType<uint32_t> e(nm); fill(e); return m->enum_32(std::move(e)); }); }
        }
        if (own) { vx_assert(add[i](), "declared"); ty[i] = get(*m, n); }
    }
    if (!own) for (size_t i = 0; i < g.size(); ++i) vx_assert(add[reverse ? g.size() - 1 - i : i](), "declared");
    std::vector<Decl> ds = read(gen::module(root));
    vx_assert(ds.size() == g.size(), "every type is declared");
    for (auto& n : g)
    {
        std::string f = full(scopes, n); Decl* d = nullptr; for (auto& x : ds) if (x.full == f) d = &x; vx_assert(d != nullptr, "every type is declared in its module");
        std::vector<std::string> want; for (int k : n.deps) want.push_back(full(scopes, g[k])); for (auto& w : want) { bool s = false; for (auto& u : d->uses) s |= u == w; vx_assert(s, "a declaration names the types it uses"); } for (auto& u : d->uses) { bool s = false; for (auto& w : want) s |= u == w; vx_assert(s, "a name in a declaration means the type it stands for"); }
    }
    vx_reach("end");
}
static void edges(std::vector<N>& g) { for (size_t i = 0; i < g.size(); ++i) for (size_t j = 0; j < i; ++j) { if (g[i].kind == E_ || (g[i].kind == A_ && !g[i].deps.empty())) break; if (vx_pick(2, "edge")) g[i].deps.push_back((int)j); } }
static int any_form(const std::vector<N>& g) { for (auto& n : g) if (!n.deps.empty()) return (int)vx_pick(4, "form"); return 0; }
// the text is the same when the caller also asks for the parts
static std::string both(const Module& m) { std::string g = gen::module(m); std::map<std::string, std::string> parts; std::string h = gen::module(m, &parts); vx_assert(g.size() == h.size() && vx_equal(g.data(), h.data(), g.size()), "asking for the declarations one by one does not change the text"); return g; }
#ifdef VX_THOROUGH
static const bool deeper = true;
#else
static const bool deeper = false;
#endif
VX_ENTRY(h_graph3)
{
    vx_exact_fmt = 1; std::vector<N> g; for (int i = 0; i < 3; ++i) { std::string n = letter("name"); for (auto& o : g) vx_assume(o.name != n); g.push_back(N{(int)vx_pick(4, "kind"), n, 0, {}}); } edges(g); int f = any_form(g); bool each = deeper || f == 0 || f == 3, own = each && vx_pick(2, "own"), rev = each && !own && vx_pick(2, "reverse");
    Module root; check(root, {&root}, {""}, g, f, own, rev);
}
static std::vector<std::string> perm(unsigned n, unsigned k) { std::string pool = "GHIJKLM"; pool.resize(n); std::vector<std::string> r; for (unsigned i = n; i > 0; --i) { r.push_back(std::string(1, pool[k % i])); pool.erase(k % i, 1); k /= i; } return r; }
VX_ENTRY(h_graph4)
{
    vx_exact_fmt = 1; static const int pat[5][4] = {{S_, S_, S_, S_}, {E_, A_, S_, U_}, {A_, S_, A_, S_}, {E_, U_, A_, S_}, {A_, A_, U_, A_}}; unsigned p = vx_pick(5, "kinds"); std::vector<std::string> n = perm(4, vx_pick(24, "names")); std::vector<N> g; for (int i = 0; i < 4; ++i) g.push_back(N{pat[p][i], n[i], 0, {}}); edges(g);
    Module root; check(root, {&root}, {""}, g, p == 0 ? 0 : 3, false, p % 2);
}
VX_ENTRY(h_graph5)
{
    vx_exact_fmt = 1; static const int pat[4][5] = {{S_, S_, S_, S_, S_}, {E_, A_, S_, U_, S_}, {A_, S_, A_, S_, U_}, {E_, U_, A_, S_, A_}}; unsigned p = vx_pick(4, "kinds"); std::vector<std::string> n = perm(5, 7 * vx_pick(17, "names")); std::vector<N> g; for (int i = 0; i < 5; ++i) g.push_back(N{pat[p][i], n[i], 0, {}}); edges(g);
    Module root; check(root, {&root}, {""}, g, p % 2 ? 3 : 1, false, p == 2);
}
static void mods(std::vector<N> g, int form, bool own)
{
    Module root; Module& a = root.create_submodule("Ma"); Module& b = a.create_submodule("Mb"); Module& c = root.create_submodule("Mc"); std::vector<Module*> m{&root, &a, &b, &c};
    // what is emitted as a unit at each level: order constraints must be acyclic (units of the root: Ma, Mc and its own types; units of Ma: Mb and its own types)
    int n = (int)g.size(); auto unit0 = [&](int i) { return g[i].mod == 0 ? i : g[i].mod == 3 ? n + 1 : n; }; auto unit1 = [&](int i) { return g[i].mod == 1 ? i : g[i].mod == 2 ? n : -1; };
    for (int level = 0; level < 2; ++level)
    {
        std::vector<std::vector<bool>> r(n + 2, std::vector<bool>(n + 2, false));
        for (int i = 0; i < n; ++i) for (int d : g[i].deps) { int x = level ? unit1(i) : unit0(i), y = level ? unit1(d) : unit0(d); if (x >= 0 && y >= 0 && x != y) r[x][y] = true; }
        for (int k = 0; k < n + 2; ++k) for (int x = 0; x < n + 2; ++x) for (int y = 0; y < n + 2; ++y) if (r[x][k] && r[k][y]) r[x][y] = true;
        bool cycle = false; for (int x = 0; x < n + 2; ++x) cycle = cycle || r[x][x]; vx_assume(!cycle);
    }
    check(root, m, {"", "Ma", "Ma::Mb", "Mc"}, g, form, own, false);
}
static void mods3(const int* k)
{
    vx_exact_fmt = 1; std::vector<std::string> n = perm(3, vx_pick(6, "names")); std::vector<N> g; for (int i = 0; i < 3; ++i) g.push_back(N{k ? k[i] : i == 0 ? (int)vx_pick(4, "kind") : i == 1 ? (int)vx_pick(3, "kind") : (int)vx_pick(2, "kind"), n[i], (int)vx_pick(4, "mod"), {}});
    unsigned shape = vx_pick(3, "shape"); if (shape != 1) g[1].deps.push_back(0); if (shape != 2 || g[2].kind == S_) g[2].deps.push_back(shape == 1 ? 0 : 1); if (shape == 2) g[2].deps.push_back(0); mods(g, shape == 2 ? 3 : 0, (deeper || shape != 1) && vx_pick(2, "own"));
}
VX_ENTRY(h_modules) { static const int pat[4][3] = {{S_, S_, S_}, {E_, U_, S_}, {U_, A_, U_}, {A_, S_, U_}}; mods3(pat[vx_pick(4, "kinds")]); }
VX_ENTRY(h_modules3) { mods3(nullptr); }
VX_ENTRY(h_modules4)
{
    vx_exact_fmt = 1; std::vector<std::string> n = perm(4, vx_pick(24, "names")); std::vector<N> g; for (int i = 0; i < 4; ++i) g.push_back(N{i == 1 ? U_ : S_, n[i], (int)vx_pick(4, "mod"), {}}); edges(g); mods(g, 0, vx_pick(2, "own"));
}
VX_ENTRY(h_tree)
{
    vx_exact_fmt = 1; bool deep = vx_pick(2, "deep"); Module root; Module& a = root.create_submodule("Ma"); Module& b = a.create_submodule("Mb"); Module& c = root.create_submodule("Mc"); Module& d = (deep ? b : a).create_submodule("Md"); Module& e = (deep ? d : c).create_submodule("Me");
    std::vector<Module*> m{&root, &a, &b, &c, &d, &e}; const std::vector<int> up{-1, 0, 1, 0, deep ? 2 : 1, deep ? 4 : 3}; std::vector<std::string> scopes{"", "Ma", "Ma::Mb", "Mc", deep ? "Ma::Mb::Md" : "Ma::Md", deep ? "Ma::Mb::Md::Me" : "Mc::Me"};
    std::vector<std::string> n = perm(3, deeper ? (unsigned)vx_pick(6, "names") : unsigned("\0\5\2"[vx_pick(3, "names")])); std::vector<N> g; for (int i = 0; i < 3; ++i) g.push_back(N{S_, n[i], (int)vx_pick(6, "mod"), {}});
    unsigned shape = vx_pick(3, "shape"); if (shape != 1) g[1].deps.push_back(0); g[2].deps.push_back(shape == 1 ? 0 : 1); if (shape == 2) g[2].deps.push_back(0);
    for (int l = 0; l < 6; ++l) // what is written as a unit in module l: its own types (0..2) and its submodules (3..8)
    {
        auto unit = [&](int i) { int x = g[i].mod; if (x == l) return i; while (x >= 0 && up[x] != l) x = up[x]; return x < 0 ? -1 : 3 + x; }; bool r[9][9] = {};
        for (int i = 0; i < 3; ++i) for (int k : g[i].deps) { int x = unit(i), y = unit(k); if (x >= 0 && y >= 0 && x != y) r[x][y] = true; }
        for (int k = 0; k < 9; ++k) for (int x = 0; x < 9; ++x) for (int y = 0; y < 9; ++y) if (r[x][k] && r[k][y]) r[x][y] = true;
        bool cycle = false; for (int x = 0; x < 9; ++x) cycle |= r[x][x]; vx_assume(!cycle);
    }
    check(root, m, scopes, g, 0, false, false);
}
VX_ENTRY(h_uses)
{
    vx_exact_fmt = 1; int k = (int)vx_pick(4, "kind"); std::string n = letter("n"), o = letter("o"); vx_assume(n != o); Module root; Module& m = vx_pick(2, "in") ? root.create_submodule("Ma") : root; N target{k, n, 0, {}}; DynamicType::Ptr t; bool own = vx_pick(2, "own");
    switch (k)
    {
        case S_: { StructType s(n); s.add_member("x", primitive_type<uint8_t>()); t = DynamicType::Ptr(s); m.structure(s); break; }
        case U_: { UnionType u(n, primitive_type<int32_t>()); u.add_case_member(std::vector<int32_t>{1}, Member("x", primitive_type<uint8_t>())); t = DynamicType::Ptr(u); m.union_switch(u); break; }
        case A_: { AliasType a(StringType(3), n); t = DynamicType::Ptr(a); m.add_alias(a); break; }
        default: { EnumerationType<uint32_t> e(n); e.add_enumerator("e0"); t = DynamicType::Ptr(e); m.enum_32(std::move(e)); }
    }
    if (own) t = get(m, target);
    DynamicType::Ptr w;
    switch (vx_pick(12, "use"))
    {
        case 0: w = t; break; case 1: w = DynamicType::Ptr(SequenceType(*t)); break; case 2: w = DynamicType::Ptr(ArrayType(*t, 3)); break; case 3: w = DynamicType::Ptr(MapType(*t, primitive_type<uint8_t>())); break; case 4: w = DynamicType::Ptr(MapType(StringType(), *t, 4)); break;
        case 5: w = DynamicType::Ptr(SequenceType(SequenceType(*t, 2), 3)); break; case 6: w = DynamicType::Ptr(ArrayType(ArrayType(*t, 2), 3)); break; case 7: w = DynamicType::Ptr(SequenceType(MapType(primitive_type<int8_t>(), SequenceType(*t)))); break; case 8: w = DynamicType::Ptr(ArrayType(SequenceType(*t, 3), 2)); break;
        case 9: w = DynamicType::Ptr(MapType(primitive_type<int16_t>(), MapType(primitive_type<int16_t>(), *t))); break; case 10: w = DynamicType::Ptr(ArrayType(MapType(StringType(3), *t), 2)); break; default: w = DynamicType::Ptr(SequenceType(MapType(*t, *t, 7), 5));
    }
    int by = (int)vx_pick(3, "by");
    switch (by)
    {
        case 0: { StructType s(o); s.add_member("y", primitive_type<uint8_t>()); s.add_member("z", *w); m.structure(s); break; }
        case 1: { UnionType u(o, primitive_type<int32_t>()); u.add_case_member(std::vector<int32_t>{1}, Member("y", primitive_type<uint8_t>())); u.add_case_member(std::vector<int32_t>{2}, Member("z", *w)); m.union_switch(u); break; }
        default: { AliasType a(*w, o); m.add_alias(a); }
    }
    std::vector<Decl> ds = read(both(root)); std::string pre = &m == &root ? "" : "Ma::"; vx_assert(ds.size() == 2, "every type is declared"); vx_assert(ds[0].full == pre + n && ds[1].full == pre + o, "the type used is declared first"); vx_assert(!ds[1].uses.empty() && ds[1].uses[0] == pre + n, "and used by its name"); vx_reach("end");
}
VX_ENTRY(h_const)
{
    vx_exact_fmt = 1; std::string n = letter("n"), c = letter("c"); vx_assume(n != c); Module root; Module& m = vx_pick(2, "in") ? root.create_submodule("Ma") : root; EnumerationType<uint32_t> e(n); e.add_enumerator("e0"); e.add_enumerator("e1", 3); DynamicData d(e); d = uint32_t(vx_pick(2, "v") ? 3 : 0); m.create_constant(c, d); m.enum_32(std::move(e)); std::vector<Decl> ds = read(both(root)); vx_assert(ds.size() == 1, "every type is declared"); vx_reach("end");
}
VX_ENTRY(h_large)
{
    vx_exact_fmt = 1; unsigned n = 12, shape = (unsigned)vx_pick(4, "shape"), order = (unsigned)vx_pick(3, "order"), kinds = (unsigned)vx_pick(3, "kinds"); std::vector<N> g;
    for (unsigned i = 0; i < n; ++i)
    {
        unsigned k = order == 0 ? i : order == 1 ? n - 1 - i : (i * 5 + 3) % n; N x{kinds == 0 ? S_ : kinds == 1 ? (i % 2 ? A_ : U_) : (i % 3 == 0 ? A_ : S_), std::string(1, char('G' + k)), 0, {}};
        if (i) switch (shape) { case 0: x.deps.push_back((int)i - 1); break; case 1: x.deps.push_back((int)(i - 1) / 2); break; case 2: if (i > 1) x.deps.push_back((int)i - 2); break; default: x.deps.push_back((int)i - 1); if (x.kind == S_ && i > 3) { x.deps.push_back((int)i - 3); x.deps.push_back(0); } }
        g.push_back(x);
    }
    Module root; check(root, {&root}, {""}, g, (int)vx_pick(2, "form"), false, vx_pick(2, "reverse"));
}
