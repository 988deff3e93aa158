// Module scopes
//! entry h_resolve : 3 trees of three modules, 4 patterns of module names, a structure and perhaps a second one in any modules, queries from any module by 6 forms of name (unqualified, one or two qualifiers, rooted or not) with an arbitrary one-letter qualifier
//! entry h_resolve2 tier=thorough time=800 : the same with arbitrary components everywhere, the name of a module as the declared name, and a constant as the second declaration
//! entry h_deep : chain of four modules with arbitrary one-letter names, a declaration in any of them, queries from any of them by every absolute path and every suffix of it
//! entry h_kinds : each of the five kinds of declaration with an arbitrary one-letter name in each module of root{A{B},C}; every query form of the interface, from every module
//! entry h_same : the same name declared as two different kinds in the same scope
//! entry h_refuse : redefinition and scoped names, by every overload of every kind: refused without changing the first declaration or the rejected type; replacement replaces
//! entry h_modules : trees of submodules with arbitrary one-letter names: creation, lookup, traversal, scope
//! entry h_all : all types of a tree, with and without scope
//! entry h_large : 34 and 130 declarations of the five kinds spread over a module, its submodule and one below; every one found by an unqualified, a relative and an absolute name, an arbitrary other name not; chains of 34 nested modules
#include "xt.h"
#include <xtypes/idl/Module.hpp>
using namespace xt; using idl::Module;
struct RM { std::string name; RM* outer; Module* m; std::vector<RM*> inner; std::vector<std::pair<std::string, int>> decl;
    RM* in(const std::string& n) { for (auto x : inner) if (x->name == n) return x; return nullptr; }
    bool has(const std::string& n) { if (in(n)) return true; for (auto& d : decl) if (d.first == n) return true; return false; }
    std::string scope() { return !outer ? "" : outer->outer ? outer->scope() + "::" + name : name; } };
static std::vector<RM*>& all() { static std::vector<RM*> v; return v; }
static RM* sub(RM* o, const std::string& n) { Module& m = o->m->create_submodule(n); if (RM* r = o->in(n)) { vx_assert(r->m == &m, "creating a submodule again returns it"); return r; } RM* r = new RM{n, o, &m, {}, {}}; o->inner.push_back(r); all().push_back(r); return r; }
static RM* rootm() { all().clear(); RM* r = new RM{"", nullptr, new Module(), {}, {}}; all().push_back(r); return r; }
static void done() { delete all()[0]->m; for (auto x : all()) delete x; all().clear(); }
// reference: the module that declares the name, and the last component
static RM* find(RM* from, std::string name, std::string& last)
{
    std::vector<std::string> c; bool abs = name.compare(0, 2, "::") == 0; if (abs) name = name.substr(2);
    for (;;) { size_t p = name.find("::"); if (p == std::string::npos) break; c.push_back(name.substr(0, p)); name = name.substr(p + 2); }
    last = name; RM* m = from;
    if (abs) while (m->outer) m = m->outer;
    if (c.empty()) { if (abs) return m->has(last) ? m : nullptr; for (; m; m = m->outer) if (m->has(last)) return m; return nullptr; }
    if (!abs) for (; m && !m->in(c[0]); m = m->outer) { }
    for (auto& x : c) { if (!m) return nullptr; m = m->in(x); }
    return m && m->has(last) ? m : nullptr;
}
enum { KS, KU, KA, KE, KC };
static std::string tag(int id) { return "id" + std::string(1, char('0' + id)); }
static void declare(RM* m, int kind, const std::string& n, int id)
{
    bool ok = false;
    switch (kind)
    {
        case KS: { StructType s(n); s.add_member(tag(id), primitive_type<uint8_t>()); ok = m->m->structure(std::move(s)); break; }
        case KU: { UnionType u(n, primitive_type<int32_t>()); u.add_case_member(std::vector<int32_t>{0}, Member(tag(id), primitive_type<uint8_t>())); ok = m->m->union_switch(std::move(u)); break; }
        case KA: ok = m->m->create_alias(DynamicType::Ptr(StringType(100 + id)), n); break;
        case KE: { EnumerationType<uint32_t> e(n); e.add_enumerator(tag(id)); ok = m->m->enum_32(std::move(e)); break; }
        default: { DynamicData d(primitive_type<int32_t>()); d = int32_t(id); ok = m->m->create_constant(n, d); }
    }
    vx_assert(ok, "a new name is declared"); m->decl.push_back({n, kind * 16 + id});
}
static int found(RM* d, const std::string& n, int kind) { if (!d) return -1; for (auto& x : d->decl) if (x.first == n && x.second / 16 == kind) return x.second % 16; return -1; }
static bool has(const Module& m, int kind, const std::string& q) { switch (kind) { case KS: return m.has_structure(q); case KU: return m.has_union(q); case KA: return m.has_alias(q); case KE: return m.has_enum_32(q); default: return m.has_constant(q); } }
// the entity found is the one declared
static void isit(Module& m, int kind, const std::string& q, int id, const std::string& full)
{
    const Module& c = m;
    switch (kind)
    {
        case KS: vx_assert(m.structure(q).has_member(tag(id)) && &c.structure(q) == &m.structure(q) && m.structure(q).name() == full, "the structure found is the one declared"); break;
        case KU: vx_assert(m.union_switch(q).has_member(tag(id)) && &c.union_switch(q) == &m.union_switch(q) && m.union_switch(q).name() == full, "the union found is the one declared"); break;
        case KA: vx_assert(static_cast<const StringType&>(m.alias(q).get()).bounds() == 100u + id && &c.alias(q) == &m.alias(q) && m.alias(q).name() == full, "the alias found is the one declared"); break;
        case KE: vx_assert(m.enum_32(q).enumerators().count(tag(id)) == 1 && &c.enum_32(q) == &m.enum_32(q) && m.enum_32(q).name() == full, "the enumeration found is the one declared"); break;
        default: { DynamicData d = c.constant(q); vx_assert(d.value<int32_t>() == id, "the constant found is the one declared"); }
    }
}
static void notfound(Module& m, int kind, const std::string& q)
{
    switch (kind) { case KS: vx_assert(vx_throws([&]() { m.structure(q); }), "an unknown structure is rejected"); break; case KU: vx_assert(vx_throws([&]() { m.union_switch(q); }), "an unknown union is rejected"); break;
        case KA: vx_assert(vx_throws([&]() { m.alias(q); }), "an unknown alias is rejected"); break; case KE: vx_assert(vx_throws([&]() { m.enum_32(q); }), "an unknown enumeration is rejected"); break; default: break; }
}
static std::string full(RM* d, const std::string& n) { std::string s = d->scope(); return s.empty() ? n : s + "::" + n; }
static void query(RM* from, int kind, const std::string& q, bool deep = false)
{
    std::string last; RM* d = find(from, q, last); int id = found(d, last, kind);
    vx_assert(has(*from->m, kind, q) == (id >= 0), "a name is found exactly where it is declared");
    if (id >= 0) isit(*from->m, kind, q, id, full(d, last)); else if (deep) notfound(*from->m, kind, q);
}
static std::string letter(const char* n) { char c = vx_any<char>(n); vx_assume(c >= 'A' && c <= 'Z'); return std::string(1, c); }
static std::vector<RM*> tree(unsigned shape, unsigned names)
{
    static const char* const nm[4][3] = {{"A", "B", "C"}, {"A", "A", "B"}, {"A", "B", "A"}, {"B", "A", "A"}};
    RM* r = rootm(); RM *a, *b, *c;
    switch (shape)
    {
        case 0: a = sub(r, nm[names][0]); b = sub(a, nm[names][1]); c = sub(b, nm[names][2]); break;
        case 1: a = sub(r, nm[names][0]); b = sub(a, nm[names][1]); c = sub(r, names == 2 ? "B" : nm[names][2]); break;
        default: a = sub(r, nm[names][0]); b = sub(a, nm[names][1]); c = sub(a, names == 3 ? "C" : nm[names][2]); break;
    }
    (void)b; (void)c; return all();
}
static void resolves(bool deep)
{
    std::vector<RM*> m = tree(vx_pick(3, "shape"), vx_pick(4, "names")); std::string n = deep && vx_pick(2, "declared") ? "B" : "X";
    declare(m[vx_pick(m.size(), "in")], KS, n, 1);
    unsigned second = vx_pick(deep ? 3 : 2, "second"); if (second) { RM* w = m[vx_pick(m.size(), "in2")]; if (found(w, n, KS) < 0) declare(w, second == 1 ? KS : KC, n, 2); }
    RM* from = m[vx_pick(m.size(), "from")]; unsigned form = vx_pick(6, "form"); std::string q = form >= 3 ? "::" : ""; for (unsigned i = 0; i < form % 3; ++i) q += (i && !deep ? std::string(vx_pick(2, "second_q") ? "A" : "B") : letter("q")) + "::"; q += deep ? letter("n") : n;
    query(from, KS, q); vx_reach("end"); done();
}
VX_ENTRY(h_resolve) { resolves(false); }
VX_ENTRY(h_resolve2) { resolves(true); }
VX_ENTRY(h_deep)
{
    RM* r = rootm(); RM* c = r; for (int i = 0; i < 4; ++i) c = sub(c, letter("m")); std::vector<RM*> m = all(); RM* w = m[vx_pick(5, "in")]; declare(w, KS, "s", 1); if (vx_pick(2, "two")) { RM* v = m[vx_pick(5, "in2")]; if (v != w) declare(v, KS, "s", 2); }
    RM* from = m[vx_pick(5, "from")]; unsigned len = vx_pick(5, "len"); bool abs = vx_pick(2, "abs"); unsigned start = abs ? 0 : vx_pick(5 - len, "start");
    std::string q = abs ? "::" : ""; for (unsigned i = start; i < start + len; ++i) q += m[i + 1]->name + "::"; q += "s";
    query(from, KS, q); vx_reach("end"); done();
}
VX_ENTRY(h_kinds)
{
    RM* r = rootm(); RM* a = sub(r, "A"); sub(a, "B"); sub(r, "C"); std::vector<RM*> m = all(); int k = (int)vx_pick(5, "kind"); std::string n = letter("name"); RM* w = m[vx_pick(4, "in")]; vx_assume(!w->in(n)); declare(w, k, n, 3);
    RM* from = m[vx_pick(4, "from")]; static const char* const pre[8] = {"", "::", "A::", "::A::", "A::B::", "B::", "C::", "::C::"}; std::string q = std::string(pre[vx_pick(8, "prefix")]) + letter("q");
    for (int j = 0; j < 5; ++j) query(from, j, q, true);
    std::string last; RM* d = find(from, q, last); int id = found(d, last, k); DynamicType::Ptr p = from->m->type(q);
    vx_assert((p.get() != nullptr) == (id >= 0 && k != KC), "a type is found exactly where it is declared");
    if (p.get() != nullptr) { static const TypeKind tk[4] = {TypeKind::STRUCTURE_TYPE, TypeKind::UNION_TYPE, TypeKind::ALIAS_TYPE, TypeKind::ENUMERATION_TYPE}; vx_assert(p->kind() == tk[k] && p->name() == (q[0] == ':' ? q : full(d, last)), "the type found is the one declared"); isit(*from->m, k, q, 3, full(d, last)); }
    if (q.size() == 1)
    {
        unsigned count = 0; for (RM* x = from; x; x = x->outer) count += x->has(q); bool own = from->has(q);
        vx_assert(from->m->has_symbol(q) == (count > 0) && from->m->has_symbol(q, false) == own && from->m->symbol_count(q) == count, "symbols are counted in the enclosing scopes");
    }
    DynamicType::Ptr pr = from->m->type(q, true); bool any = id >= 0; std::vector<RM*> below = from->inner; for (size_t i = 0; i < below.size(); ++i) { std::string l; if (found(find(below[i], q, l), l, k) >= 0) any = true; for (auto x : below[i]->inner) below.push_back(x); }
    vx_assert((pr.get() != nullptr) == (any && k != KC), "the recursive search looks in every descendant");
    vx_reach("end"); done();
}
VX_ENTRY(h_same)
{
    RM* r = rootm(); RM* a = sub(r, "A"); RM* b = sub(a, "B"); int k = (int)vx_pick(5, "k"), l = (int)vx_pick(5, "l"); vx_assume(k != l); declare(a, k, "X", 1); declare(a, l, "X", 2); if (vx_pick(2, "inner")) { declare(b, k, "X", 4); }
    RM* from = all()[vx_pick(3, "from")]; static const char* const q[4] = {"X", "A::X", "::A::X", "A::B::X"}; std::string n = q[vx_pick(4, "q")]; for (int j = 0; j < 5; ++j) query(from, j, n, true);
    vx_reach("end"); done();
}
VX_ENTRY(h_refuse)
{
    RM* r = rootm(); RM* a = sub(r, "A"); RM* w = vx_pick(2, "in") ? a : r; std::string first = letter("first"), n = vx_pick(2, "scoped") ? letter("p") + "::" + letter("n") : letter("n"); vx_assume(first != "A" && n != "A");
    int k = (int)vx_pick(5, "kind"); declare(w, k, first, 1); bool dup = n == first, scoped = n.size() > 1; Module& m = *w->m; bool ok = false, replace = false; std::string after;
    switch (k)
    {
        case KS: { StructType s(n); s.add_member(tag(2), primitive_type<uint8_t>()); unsigned f = vx_pick(3, "form"); replace = f == 2; ok = f == 0 ? m.structure(s) : m.structure(std::move(s), replace); if (f == 0) after = s.name(); break; }
        case KU: { UnionType u(n, primitive_type<int32_t>()); u.add_case_member(std::vector<int32_t>{0}, Member(tag(2), primitive_type<uint8_t>())); unsigned f = vx_pick(3, "form"); replace = f == 2; ok = f == 0 ? m.union_switch(u) : m.union_switch(std::move(u), replace); if (f == 0) after = u.name(); break; }
        case KA: { AliasType l(StringType(102), n); unsigned f = vx_pick(3, "form"); ok = f == 0 ? m.add_alias(l) : f == 1 ? m.add_alias(std::move(l)) : m.create_alias(DynamicType::Ptr(StringType(102)), n); if (f == 0) after = l.name(); break; }
        case KE: { EnumerationType<uint32_t> e(n); e.add_enumerator(tag(2)); replace = vx_pick(2, "form"); ok = m.enum_32(std::move(e), replace); break; }
        default: { DynamicData d(primitive_type<int32_t>()); d = int32_t(2); replace = vx_pick(2, "form"); bool fe = vx_pick(2, "from_enum"); ok = m.create_constant(n, d, replace, fe); vx_assert(m.is_const_from_enum(n) == (ok && fe), "constants know whether they come from an enumeration"); d = int32_t(7); break; }
    }
    vx_assert(ok == (!scoped && (!dup || replace)), "a name is refused exactly when it is scoped or already declared");
    if (!after.empty()) vx_assert(after == (ok ? full(w, n) : n), "a refused type is not changed");
    if (ok && !dup) isit(m, k, n, 2, full(w, n));
    isit(m, k, first, ok && dup ? 2 : 1, full(w, first));
    if (!ok && scoped) vx_assert(!m.has_symbol(n, false), "a refused name is not declared");
    vx_reach("end"); done();
}
VX_ENTRY(h_modules)
{
    RM* r = rootm(); RM* a = sub(r, letter("a")); RM* b = sub(vx_pick(2, "b_in") ? a : r, letter("b")); sub(vx_pick(2, "c_in") ? a : b, letter("c")); sub(r, letter("d"));
    std::vector<RM*> m = all();
    for (auto x : m) { vx_assert(x->m->name() == x->name && x->m->scope() == x->scope() && x->m->submodule_size() == x->inner.size(), "modules know their names and sizes"); for (auto y : x->inner) { vx_assert(x->m->has_submodule(y->name) && x->m->submodule(y->name).get() == y->m && &(*x->m)[y->name] == y->m, "submodules are found"); } }
    std::string q = letter("q"); for (auto x : m) { vx_assert(x->m->has_submodule(q) == (x->in(q) != nullptr) && (x->m->submodule(q) != nullptr) == (x->in(q) != nullptr), "absent submodules are not found"); if (!x->in(q)) vx_assert(vx_throws([&]() { (*x->m)[q]; }) && x->m->submodule_size() == x->inner.size(), "looking for a submodule does not create it"); }
    std::vector<const Module*> seen; r->m->for_each([&](const Module& x) { seen.push_back(&x); }); vx_assert(seen.size() == m.size() && seen[0] == r->m, "every module is visited"); for (auto x : m) { unsigned c = 0; for (auto y : seen) c += y == x->m; vx_assert(c == 1, "every module is visited once"); }
    size_t n = 0; r->m->for_each_submodule([&](const Module&) { ++n; }, false); vx_assert(n == r->inner.size(), "only direct submodules are visited"); n = 0; r->m->for_each_submodule([&](const Module&) { ++n; }); vx_assert(n == m.size() - 1, "all submodules are visited");
    vx_reach("end"); done();
}
VX_ENTRY(h_all)
{
    RM* r = rootm(); RM* a = sub(r, "A"); sub(a, "B"); std::vector<RM*> m = all(); std::string n[3]; RM* w[3];
    for (int i = 0; i < 3; ++i) { n[i] = i ? letter("n") : "T"; w[i] = m[vx_pick(3, "in")]; vx_assume(!w[i]->has(n[i])); declare(w[i], i == 0 ? KS : i == 1 ? (int)vx_pick(5, "kind") : KE, n[i], i); }
    std::map<std::string, DynamicType::Ptr> s = r->m->get_all_types(true), u = r->m->get_all_types(), t = a->m->get_all_types(true); size_t types = 0, below = 0, distinct = 0;
    for (int i = 0; i < 3; ++i)
    {
        int k = w[i]->decl.empty() ? -1 : -1; for (auto& d : w[i]->decl) if (d.first == n[i]) k = d.second / 16; if (k == KC) { continue; } ++types; if (w[i] != r) ++below;
        bool first = true; for (int j = 0; j < i; ++j) { bool c = false; for (auto& d : w[j]->decl) if (d.first == n[j] && d.second / 16 == KC) c = true; if (!c && n[j] == n[i]) first = false; } distinct += first;
        vx_assert(s.count(full(w[i], n[i])) == 1 && s.at(full(w[i], n[i]))->name() == full(w[i], n[i]), "every type is listed under its qualified name"); vx_assert(u.count(n[i]) == 1, "every type is listed"); vx_assert((t.count(full(w[i], n[i])) == 1) == (w[i] != r), "only the types of a module and its submodules are listed");
    }
    vx_assert(s.size() == types && t.size() == below && u.size() == distinct, "nothing else is listed");
    vx_reach("end"); done();
}
VX_ENTRY(h_large)
{
    RM* r = rootm();
    if (vx_pick(2, "chain"))
    {
        RM* c = r; std::string q; unsigned at = 0; switch (vx_pick(4, "at")) { case 0: break; case 1: at = 1; break; case 2: at = 17; break; default: at = 34; } bool same = vx_pick(2, "same"); for (unsigned i = 0; i < 34; ++i) c = sub(c, same ? "M" : mname(i)); std::vector<RM*> m = all(); declare(m[at], KS, "x", 1); if (vx_pick(2, "outer") && at) declare(m[at - 1], KS, "x", 2);
        for (unsigned i = 1; i <= at; ++i) q += "::" + m[i]->name; q += "::x"; query(m[vx_pick(2, "from") ? 34 : 0], KS, q); query(m[34], KS, "x"); query(m[at], KS, "x"); query(m[at ? at - 1 : 0], KS, "x"); vx_assert(c->m->scope() == c->scope(), "modules know their names and sizes"); vx_reach("end"); done(); return;
    }
    RM* a = sub(r, "A"); RM* b = sub(a, "B"); RM* w[3] = {r, a, b}; unsigned n = vx_pick(2, "n") ? 130 : 34; for (unsigned i = 0; i < n; ++i) declare(w[i % 3], (int)(i % 5), mname(i), (int)(i % 10));
    unsigned q = 0; switch (vx_pick(5, "q")) { case 0: q = 0; break; case 1: q = n / 2; break; case 2: q = n - 3; break; case 3: q = n - 1; break; default: q = n + 5; }
    static const char* const pre[3] = {"::", "::A::", "::A::B::"}; unsigned k = (unsigned)vx_pick(5, "kind"), f = (unsigned)vx_pick(3, "from"); query(w[f], (int)k, mname(q), true); query(w[f], (int)k, pre[q % 3] + mname(q), true); if (f == 0) query(w[f], (int)k, (pre[q % 3] + 2) + mname(q), true);
    std::map<std::string, DynamicType::Ptr> t = r->m->get_all_types(true); size_t types = 0; for (unsigned i = 0; i < n; ++i) types += i % 5 != (unsigned)KC; vx_assert(t.size() == types, "nothing else is listed"); vx_reach("end"); done();
}
