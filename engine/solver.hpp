// xsym: path-constraint solving. Every verdict used to decide a property comes from Z3 (or from
// simplification to a constant); assignments are only used to find satisfying witnesses quickly.
#pragma once
#include "expr.hpp"
#include <z3.h>
#include <signal.h>
#include <sys/time.h>
#include <string.h>
#include <chrono>
#include <memory>
#include <functional>
#include <set>
#include <unordered_set>

typedef std::vector<u128> Model;
enum SatRes { UNSAT = 0, SAT = 1, UNKNOWN = 2 };

struct Solver {
    Z3_context cx;
    std::unordered_map<E, Z3_ast> memo, fmemo, amemo;
    u64 queries = 0, z3_queries = 0, cache_hits = 0, model_hits = 0, unknowns = 0, z3_unsat = 0, z3_sat = 0, abstract_unsat = 0;
    double z3_time = 0;
    unsigned timeout_ms = 30000;
    Z3_sort s32, s64, s80; Z3_ast rne, rtz;
    u64 rng = 0x1234567;
    std::unordered_map<std::string, std::pair<SatRes, std::vector<std::pair<u32, u128>>>> cache;
    std::string dumpdir;

    static void err(Z3_context c, Z3_error_code e) { fprintf(stderr, "z3 error: %s\n", Z3_get_error_msg(c, e)); }
    Solver()
    {
        Z3_config cf = Z3_mk_config();
        cx = Z3_mk_context(cf); Z3_del_config(cf);
        Z3_set_error_handler(cx, err);
        s32 = Z3_mk_fpa_sort_32(cx); s64 = Z3_mk_fpa_sort_64(cx); s80 = Z3_mk_fpa_sort(cx, 15, 64);
        rne = Z3_mk_fpa_rne(cx); rtz = Z3_mk_fpa_rtz(cx);
    }
    // Timeout by an interval timer of this process (z3's own timer threads do not survive fork()).
    static Z3_context& alarmed() { static Z3_context c = nullptr; return c; }
    static void on_alarm(int) { if (alarmed()) Z3_interrupt(alarmed()); }
    Z3_lbool timed_check(Z3_solver s, unsigned ms)
    {
        static bool init = false;
        if (!init) { init = true; struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = on_alarm; sa.sa_flags = SA_RESTART; sigaction(SIGALRM, &sa, nullptr); }
        struct itimerval t; memset(&t, 0, sizeof t);
        t.it_value.tv_sec = ms / 1000; t.it_value.tv_usec = (ms % 1000) * 1000; t.it_interval.tv_sec = 1;
        alarmed() = cx; setitimer(ITIMER_REAL, &t, nullptr);
        Z3_lbool r = Z3_solver_check(cx, s);
        memset(&t, 0, sizeof t); setitimer(ITIMER_REAL, &t, nullptr); alarmed() = nullptr;
        return r;
    }
    Z3_sort bv(unsigned w) { return Z3_mk_bv_sort(cx, w); }
    Z3_ast mkconst(u128 v, unsigned w)
    {
        if (w <= 64) return Z3_mk_unsigned_int64(cx, (u64)v, bv(w));
        return Z3_mk_concat(cx, Z3_mk_unsigned_int64(cx, (u64)(v >> 64), bv(w - 64)), Z3_mk_unsigned_int64(cx, (u64)v, bv(64)));
    }
    Z3_ast b2v(Z3_ast b) { return Z3_mk_ite(cx, b, mkconst(1, 1), mkconst(0, 1)); }
    Z3_ast v2b(Z3_ast v) { return Z3_mk_eq(cx, v, mkconst(1, 1)); }
    Z3_sort fsort(unsigned w) { return w == 32 ? s32 : w == 64 ? s64 : s80; }
    // 80-bit extended <-> (15,64) IEEE: drop / recreate the explicit integer bit (canonical encodings only)
    Z3_ast fp_of(E e, bool ab)
    {
        auto it = fmemo.find(e);
        if (!ab && it != fmemo.end()) return it->second;
        Z3_ast r;
        switch (e->k)
        {
            case K_FADD: r = Z3_mk_fpa_add(cx, rne, fp_of(e->a, ab), fp_of(e->b, ab)); break;
            case K_FSUB: r = Z3_mk_fpa_sub(cx, rne, fp_of(e->a, ab), fp_of(e->b, ab)); break;
            case K_FMUL: r = Z3_mk_fpa_mul(cx, rne, fp_of(e->a, ab), fp_of(e->b, ab)); break;
            case K_FDIV: r = Z3_mk_fpa_div(cx, rne, fp_of(e->a, ab), fp_of(e->b, ab)); break;
            case K_FPCONV: r = Z3_mk_fpa_to_fp_float(cx, rne, fp_of(e->a, ab), fsort(e->w)); break;
            case K_SITOFP: r = Z3_mk_fpa_to_fp_signed(cx, rne, lower(e->a, ab), fsort(e->w)); break;
            case K_UITOFP: r = Z3_mk_fpa_to_fp_unsigned(cx, rne, lower(e->a, ab), fsort(e->w)); break;
            default:
            {
                Z3_ast b = lower(e, ab);
                if (e->w == 80) // sign+exp (16 bits) . integer bit . fraction 63
                    b = Z3_mk_concat(cx, Z3_mk_extract(cx, 79, 64, b), Z3_mk_extract(cx, 62, 0, b));
                r = Z3_mk_fpa_to_fp_bv(cx, b, fsort(e->w));
            }
        }
        if (!ab) { fmemo[e] = r; Z3_inc_ref(cx, r); }
        return r;
    }
    Z3_ast fp_bits(Z3_ast f, unsigned w)
    {
        Z3_ast b = Z3_mk_fpa_to_ieee_bv(cx, f);
        if (w != 80) return b;
        Z3_ast ex = Z3_mk_extract(cx, 77, 63, b);
        Z3_ast isz = Z3_mk_eq(cx, ex, mkconst(0, 15));
        Z3_ast ib = Z3_mk_ite(cx, isz, mkconst(0, 1), mkconst(1, 1));
        return Z3_mk_concat(cx, Z3_mk_extract(cx, 78, 63, b), Z3_mk_concat(cx, ib, Z3_mk_extract(cx, 62, 0, b)));
    }
    Z3_ast lower(E e, bool ab)
    {
        auto& mm = ab && e->heavy ? amemo : memo;
        auto it = mm.find(e);
        if (it != mm.end()) return it->second;
        Z3_ast r;
        bool heavyop = e->k >= K_FADD || ((e->k == K_MUL) && e->w > 16) || (e->k >= K_UDIV && e->k <= K_SREM && e->w > 8);
        if (ab && heavyop)
        {
            char nm[40]; snprintf(nm, 40, "ab%u", e->id);
            r = Z3_mk_const(cx, Z3_mk_string_symbol(cx, nm), bv(e->w));
        }
        else switch (e->k)
        {
            case K_CONST: r = mkconst(e->v, e->w); break;
            case K_VAR: { char nm[40]; snprintf(nm, 40, "v%u", (u32)e->v); r = Z3_mk_const(cx, Z3_mk_string_symbol(cx, nm), bv(e->w)); break; }
            case K_ADD: r = Z3_mk_bvadd(cx, lower(e->a, ab), lower(e->b, ab)); break;
            case K_SUB: r = Z3_mk_bvsub(cx, lower(e->a, ab), lower(e->b, ab)); break;
            case K_MUL: r = Z3_mk_bvmul(cx, lower(e->a, ab), lower(e->b, ab)); break;
            case K_UDIV: r = Z3_mk_bvudiv(cx, lower(e->a, ab), lower(e->b, ab)); break;
            case K_SDIV: r = Z3_mk_bvsdiv(cx, lower(e->a, ab), lower(e->b, ab)); break;
            case K_UREM: r = Z3_mk_bvurem(cx, lower(e->a, ab), lower(e->b, ab)); break;
            case K_SREM: r = Z3_mk_bvsrem(cx, lower(e->a, ab), lower(e->b, ab)); break;
            case K_AND: r = Z3_mk_bvand(cx, lower(e->a, ab), lower(e->b, ab)); break;
            case K_OR: r = Z3_mk_bvor(cx, lower(e->a, ab), lower(e->b, ab)); break;
            case K_XOR: r = Z3_mk_bvxor(cx, lower(e->a, ab), lower(e->b, ab)); break;
            case K_SHL: r = Z3_mk_bvshl(cx, lower(e->a, ab), lower(e->b, ab)); break;
            case K_LSHR: r = Z3_mk_bvlshr(cx, lower(e->a, ab), lower(e->b, ab)); break;
            case K_ASHR: r = Z3_mk_bvashr(cx, lower(e->a, ab), lower(e->b, ab)); break;
            case K_EQ: r = b2v(Z3_mk_eq(cx, lower(e->a, ab), lower(e->b, ab))); break;
            case K_ULT: r = b2v(Z3_mk_bvult(cx, lower(e->a, ab), lower(e->b, ab))); break;
            case K_ULE: r = b2v(Z3_mk_bvule(cx, lower(e->a, ab), lower(e->b, ab))); break;
            case K_SLT: r = b2v(Z3_mk_bvslt(cx, lower(e->a, ab), lower(e->b, ab))); break;
            case K_SLE: r = b2v(Z3_mk_bvsle(cx, lower(e->a, ab), lower(e->b, ab))); break;
            case K_ITE: r = Z3_mk_ite(cx, v2b(lower(e->a, ab)), lower(e->b, ab), lower(e->c, ab)); break;
            case K_ZEXT: r = Z3_mk_zero_ext(cx, e->w - e->a->w, lower(e->a, ab)); break;
            case K_SEXT: r = Z3_mk_sign_ext(cx, e->w - e->a->w, lower(e->a, ab)); break;
            case K_EXTRACT: r = Z3_mk_extract(cx, e->aux + e->w - 1, e->aux, lower(e->a, ab)); break;
            case K_CONCAT: r = Z3_mk_concat(cx, lower(e->a, ab), lower(e->b, ab)); break;
            case K_FOEQ: r = b2v(Z3_mk_fpa_eq(cx, fp_of(e->a, ab), fp_of(e->b, ab))); break;
            case K_FOLT: r = b2v(Z3_mk_fpa_lt(cx, fp_of(e->a, ab), fp_of(e->b, ab))); break;
            case K_FOLE: r = b2v(Z3_mk_fpa_leq(cx, fp_of(e->a, ab), fp_of(e->b, ab))); break;
            case K_FUNO: { Z3_ast o[2] = { Z3_mk_fpa_is_nan(cx, fp_of(e->a, ab)), Z3_mk_fpa_is_nan(cx, fp_of(e->b, ab)) }; r = b2v(Z3_mk_or(cx, 2, o)); break; }
            case K_FPTOSI: r = Z3_mk_fpa_to_sbv(cx, rtz, fp_of(e->a, ab), e->w); break;
            case K_FPTOUI: r = Z3_mk_fpa_to_ubv(cx, rtz, fp_of(e->a, ab), e->w); break;
            default: r = fp_bits(fp_of(e, ab), e->w); break;
        }
        Z3_inc_ref(cx, r);
        mm[e] = r; return r;
    }
    u128 getval(Z3_model m, E var)
    {
        Z3_ast out = nullptr; u64 lo = 0, hi = 0;
        auto g = [&](unsigned h, unsigned l) -> u64 {
            Z3_ast x = h - l + 1 == var->w ? lower(var, false) : Z3_mk_extract(cx, h, l, lower(var, false));
            u64 r = 0;
            if (Z3_model_eval(cx, m, x, true, &out) && out) Z3_get_numeral_uint64(cx, out, &r);
            return r; };
        if (var->w <= 64) return g(var->w - 1, 0);
        lo = g(63, 0); hi = g(var->w - 1, 64);
        return ((u128)hi << 64) | lo;
    }
    SatRes z3check(const std::vector<E>& cs, bool ab, Model* out, const std::vector<u32>& vars, std::unordered_map<u32, E>& varE)
    {
        auto t0 = std::chrono::steady_clock::now();
        bool fp = false; for (E e : cs) fp |= e->fp;
        if (ab) fp = false;
        Z3_solver s = fp ? Z3_mk_solver(cx) : Z3_mk_solver_for_logic(cx, Z3_mk_string_symbol(cx, "QF_BV"));
        Z3_solver_inc_ref(cx, s);
        Z3_params p = Z3_mk_params(cx); Z3_params_inc_ref(cx, p);
        Z3_solver_set_params(cx, s, p);
        for (E e : cs) Z3_solver_assert(cx, s, v2b(lower(e, ab)));
        if (ab)
        {
            // valid lemmas: equality of two abstracted terms is exactly its simplified form
            std::vector<E> ops; std::vector<E> st(cs);
            while (!st.empty())
            {
                E e = st.back(); st.pop_back();
                if (e->w == 1 && (e->k == K_XOR || e->k == K_AND || e->k == K_OR || e->k == K_ITE))
                { st.push_back(e->a); st.push_back(e->b); if (e->k == K_ITE) st.push_back(e->c); }
                else if ((e->k == K_ULT || e->k == K_ULE || e->k == K_SLT || e->k == K_SLE) && e->heavy)
                    for (E o : { e->a, e->b }) if (std::find(ops.begin(), ops.end(), o) == ops.end()) ops.push_back(o);
            }
            if (ops.size() <= 16)
                for (size_t i = 0; i < ops.size(); ++i) for (size_t j = 0; j < i; ++j)
                    if (ops[i]->w == ops[j]->w)
                    {
                        E q = P.mkEq(ops[i], ops[j]);
                        if (q->heavy) continue;
                        Z3_solver_assert(cx, s, Z3_mk_eq(cx, Z3_mk_eq(cx, lower(ops[i], ab), lower(ops[j], ab)), v2b(lower(q, ab))));
                    }
        }
        Z3_lbool r = timed_check(s, ab ? std::min(timeout_ms, 5000u) : timeout_ms);
        ++z3_queries;
        SatRes res = r == Z3_L_TRUE ? SAT : r == Z3_L_FALSE ? UNSAT : UNKNOWN;
        if (res == SAT && !ab && out)
        {
            Z3_model m = Z3_solver_get_model(cx, s);
            Z3_model_inc_ref(cx, m);
            for (u32 v : vars) { if (v >= out->size()) out->resize(v + 1, 0); (*out)[v] = getval(m, varE[v]); }
            Z3_model_dec_ref(cx, m);
        }
        Z3_params_dec_ref(cx, p); Z3_solver_dec_ref(cx, s);
        double dt = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count(); z3_time += dt;
        if (dt > 0.5 && getenv("XSYM_SLOW")) { std::string o; char b[80]; snprintf(b, 80, "SLOW %.2f ab=%d res=%d\n", dt, ab, (int)res); o += b; for (E e : cs) o += "   " + P.str(e, 9) + "\n"; fputs(o.c_str(), stderr); }
        if (res == SAT) z3_sat++; if (res == UNSAT) { z3_unsat++; if (ab) abstract_unsat++; }
        return res;
    }
    // The executor found both sides of these comparisons to be the same term; Z3 confirms that no
    // input makes them differ.
    std::unordered_set<std::string> idseen;
    bool identities(std::vector<E>& d)
    {
        std::sort(d.begin(), d.end(), [](E a, E b) { return a->id < b->id; });
        d.erase(std::unique(d.begin(), d.end()), d.end());
        std::string key; for (E e : d) key.append((const char*)&e->id, 4);
        ++queries;
        if (idseen.count(key)) { ++cache_hits; return true; }
        auto t0 = std::chrono::steady_clock::now();
        Z3_solver s = Z3_mk_simple_solver(cx); Z3_solver_inc_ref(cx, s);
        std::vector<Z3_ast> o; for (E e : d) o.push_back(Z3_mk_not(cx, Z3_mk_eq(cx, lower(e, true), lower(e, true))));
        Z3_solver_assert(cx, s, o.size() == 1 ? o[0] : Z3_mk_or(cx, (unsigned)o.size(), o.data()));
        bool ok = timed_check(s, timeout_ms) == Z3_L_FALSE; ++z3_queries; if (ok) ++z3_unsat;
        Z3_solver_dec_ref(cx, s);
        z3_time += std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
        if (ok) idseen.insert(key);
        return ok;
    }
    u64 rnd() { rng ^= rng << 13; rng ^= rng >> 7; rng ^= rng << 17; return rng; }

    std::vector<E> varexprs; // index -> expr
    static bool inter(const std::vector<u32>& a, const std::vector<u32>& b)
    {
        size_t i = 0, j = 0;
        while (i < a.size() && j < b.size()) { if (a[i] == b[j]) return true; if (a[i] < b[j]) ++i; else ++j; }
        return false;
    }
    // Is (pc && q) satisfiable?  base: a model of pc.  On SAT, out is a model of pc && q.
    SatRes check(const std::vector<E>& pc, E q, const Model& base, Model& out)
    {
        ++queries;
        if (q->k == K_CONST) { if (q->v) { out = base; return SAT; } return UNSAT; }
        if (P.eval(q, base)) { out = base; ++model_hits; return SAT; }
        // slice
        std::vector<u32> vs = *q->vars;
        std::vector<char> in(pc.size(), 0);
        bool ch = true;
        while (ch)
        {
            ch = false;
            for (size_t i = 0; i < pc.size(); ++i)
                if (!in[i] && inter(*pc[i]->vars, vs))
                {
                    in[i] = 1; 
                    if (!std::includes(vs.begin(), vs.end(), pc[i]->vars->begin(), pc[i]->vars->end()))
                    { std::vector<u32> r; std::set_union(vs.begin(), vs.end(), pc[i]->vars->begin(), pc[i]->vars->end(), std::back_inserter(r)); vs.swap(r); ch = true; }
                }
        }
        std::vector<E> cs;
        for (size_t i = 0; i < pc.size(); ++i) if (in[i]) cs.push_back(pc[i]);
        std::sort(cs.begin(), cs.end(), [](E a, E b) { return a->id < b->id; });
        cs.erase(std::unique(cs.begin(), cs.end()), cs.end());
        // direct contradiction / implication
        for (E e : cs) { if (e == q) { /* implied, but model disagrees: impossible */ } if (P.mkNot(e) == q) return UNSAT; }
        std::string key; key.reserve(cs.size() * 4 + 4);
        for (E e : cs) key.append((const char*)&e->id, 4);
        key.append((const char*)&q->id, 4);
        auto it = cache.find(key);
        if (it != cache.end())
        {
            ++cache_hits;
            if (it->second.first == SAT) { out = base; for (auto& p : it->second.second) { if (p.first >= out.size()) out.resize(p.first + 1, 0); out[p.first] = p.second; } }
            return it->second.first;
        }
        cs.push_back(q);
        SatRes r = UNKNOWN;
        bool heavy = false; for (E e : cs) heavy |= e->heavy;
        Model m = base;
        // use the equalities among variables: work on one representative per class
        std::unordered_map<u32, E> rep;
        if (heavy)
        {
            std::vector<E> flat, stk(cs.rbegin(), cs.rend());
            while (!stk.empty()) { E e = stk.back(); stk.pop_back(); if (e->k == K_AND && e->w == 1) { stk.push_back(e->b); stk.push_back(e->a); } else flat.push_back(e); }
            std::function<E(E)> find = [&](E v) -> E { while (v->k == K_VAR) { auto i = rep.find((u32)v->v); if (i == rep.end()) break; v = i->second; } return v; };
            for (E e : flat) if (e->k == K_EQ && (e->a->k == K_VAR || e->b->k == K_VAR) && (e->a->k == K_VAR || e->a->k == K_CONST) && (e->b->k == K_VAR || e->b->k == K_CONST))
            {
                E x = find(e->a), y = find(e->b);
                if (x == y) continue;
                if (x->k == K_CONST) std::swap(x, y);
                if (x->k == K_CONST) { r = UNSAT; break; }
                rep[(u32)x->v] = y;
            }
            if (!rep.empty() && r == UNKNOWN)
            {
                for (auto& p : rep) p.second = find(p.second);
                std::unordered_map<E, E> mm; std::vector<E> n;
                for (E e : flat) { E x = P.subst(e, rep, mm); if (x->k == K_CONST) { if (!x->v) { r = UNSAT; break; } continue; } n.push_back(x); }
                cs.swap(n);
                std::vector<u32> vn; for (u32 v : vs) if (!rep.count(v)) vn.push_back(v);
                vs.swap(vn);
            }
        }
        auto complete = [&](Model& x) { for (auto& p : rep) { u128 v = p.second->k == K_CONST ? p.second->v : p.second->v < x.size() ? x[(size_t)p.second->v] : 0; if (p.first >= x.size()) x.resize(p.first + 1, 0); x[p.first] = v; } };
        if (r == UNKNOWN && cs.empty()) { r = SAT; complete(m); }
        auto guess = [&](int tries)
        {   // witness search by guessing; only ever answers SAT
            std::vector<u32> qv; for (u32 v : *q->vars) if (!rep.count(v)) qv.push_back(v);
            if (qv.empty()) qv = vs;
            if (vs.empty()) return;
            for (int t = 0; t < tries && r != SAT; ++t)
            {
                m = base;
                // mutate one variable of q, a few of the slice, or everything
                std::vector<u32> pick;
                switch (t % 4)
                {
                    case 0: case 1: pick.push_back(qv[rnd() % qv.size()]); break;
                    case 2: for (u32 v : vs) if (rnd() % 3 == 0) pick.push_back(v); break;
                    default: pick = vs;
                }
                for (u32 v : pick)
                {
                    if (v >= m.size()) m.resize(v + 1, 0);
                    E ve = varexprs[v];
                    switch (rnd() % 6)
                    {
                        case 0: m[v] = (rnd() % 4) & maskw(ve->w); break;
                        case 1: m[v] = ((u128)rnd() << 64 | rnd()) & maskw(ve->w); break;
                        case 2: m[v] = (0 - (u128)(rnd() % 4)) & maskw(ve->w); break;
                        case 3: m[v] = (m[v] + 1) & maskw(ve->w); break;
                        case 4: m[v] = rnd() % 256 & maskw(ve->w); break;
                        case 5: break;
                    }
                    if (ve->w == 80) m[v] = l_bits((long double)(int64_t)rnd() / 3);
                }
                bool ok = true; P.newgen();
                for (size_t i = cs.size(); i-- > 0 && ok; ) ok = P.eval_rec(cs[i], m) != 0;
                if (ok) { complete(m); r = SAT; ++model_hits; }
            }
        };
        if (r == UNKNOWN && (heavy || vs.size() <= 4)) guess(heavy ? 60 : 24);
        if (r == UNKNOWN)
        {
            std::unordered_map<u32, E> ve; for (u32 v : vs) ve[v] = varexprs[v];
            if (heavy) { SatRes a = z3check(cs, true, nullptr, vs, ve); if (a == UNSAT) r = UNSAT; else guess(2000); }
            if (r == UNKNOWN)
            {
                m = base; r = z3check(cs, false, &m, vs, ve);
                if (r == SAT)
                {
                    bool ok = true; P.newgen();
                    for (E e : cs) ok = ok && P.eval_rec(e, m) != 0;
                    if (ok) complete(m);
                    if (!ok) { if (getenv("XSYM_DEBUG")) { for (E e : cs) fprintf(stderr, "BADMODEL %s = %d\n", P.str(e).c_str(), (int)P.eval(e, m)); } r = UNKNOWN; }
                }
            }
        }
        if (r == UNKNOWN) { ++unknowns; if (getenv("XSYM_DEBUG")) { fprintf(stderr, "UNKNOWN-QUERY heavy=%d vars=%zu\n", heavy, vs.size()); for (E e : cs) fprintf(stderr, "   %s\n", P.str(e).c_str()); } }
        auto& ce = cache[key]; ce.first = r;
        if (r == SAT) { for (auto& p : rep) vs.push_back(p.first); for (u32 v : vs) ce.second.push_back({v, v < m.size() ? m[v] : 0}); out = m; }
        return r;
    }
};
