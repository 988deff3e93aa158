// xsym: hash-consed bit-vector / IEEE-754 expressions with local simplification.
#pragma once
#include <cstdint>
#include <cstring>
#include <cstdlib>
#include <cmath>
#include <vector>
#include <string>
#include <unordered_map>
#include <algorithm>
#include <cassert>
#include <cstdio>

typedef unsigned __int128 u128;
typedef uint64_t u64;
typedef uint32_t u32;
typedef uint8_t u8;

enum EK : u8 {
    K_CONST, K_VAR,
    K_ADD, K_SUB, K_MUL, K_UDIV, K_SDIV, K_UREM, K_SREM,
    K_AND, K_OR, K_XOR, K_SHL, K_LSHR, K_ASHR,
    K_EQ, K_ULT, K_ULE, K_SLT, K_SLE,
    K_ITE, K_ZEXT, K_SEXT, K_EXTRACT, K_CONCAT,
    K_FADD, K_FSUB, K_FMUL, K_FDIV,
    K_FOEQ, K_FOLT, K_FOLE, K_FUNO,
    K_FPCONV,          // between fp formats (widths 32/64/80)
    K_FPTOSI, K_FPTOUI, K_SITOFP, K_UITOFP
};

struct Expr {
    EK k;
    bool taint;      // depends on uninitialised memory
    bool heavy;      // contains an operation that is expensive for the solver
    bool fp;         // contains a floating point operation
    uint16_t w;
    uint16_t aux;    // extract offset
    u32 id;
    const Expr *a, *b, *c;
    u128 v;          // constant value or variable index
    const std::vector<u32>* vars; // sorted variable indices
    mutable u32 gen = 0;
    mutable u128 val = 0;
};
typedef const Expr* E;

static inline u128 maskw(unsigned w) { return w >= 128 ? ~(u128)0 : (((u128)1 << w) - 1); }

struct VarInfo { std::string name; unsigned w; bool undef; };

// native conversions for evaluation ------------------------------------------------
static inline float bits_f(u128 v) { u32 x = (u32)v; float f; memcpy(&f, &x, 4); return f; }
static inline double bits_d(u128 v) { u64 x = (u64)v; double f; memcpy(&f, &x, 8); return f; }
static inline long double bits_l(u128 v) { long double f = 0; memcpy(&f, &v, 10); return f; }
static inline u128 f_bits(float f) { u32 x; memcpy(&x, &f, 4); return x; }
static inline u128 d_bits(double f) { u64 x; memcpy(&x, &f, 8); return x; }
static inline u128 l_bits(long double f) { u128 x = 0; memcpy(&x, &f, 10); return x; }
static inline long double bits_any(u128 v, unsigned w)
{ return w == 32 ? (long double)bits_f(v) : w == 64 ? (long double)bits_d(v) : bits_l(v); }
static inline int64_t sx(u128 v, unsigned w)
{ u64 x = (u64)v; if (w >= 64) return (int64_t)x; return (int64_t)(x << (64 - w)) >> (64 - w); }
static inline __int128 sx128(u128 v, unsigned w)
{ if (w >= 128) return (__int128)v; return (__int128)(v << (128 - w)) >> (128 - w); }

static inline u128 ev_op(EK k, unsigned w, unsigned aux, u128 a, unsigned aw, u128 b, unsigned bw, u128 c)
{
    u128 m = maskw(w);
    switch (k)
    {
        case K_ADD: return (a + b) & m;
        case K_SUB: return (a - b) & m;
        case K_MUL: return (a * b) & m;
        case K_UDIV: return b == 0 ? m : a / b;
        case K_UREM: return b == 0 ? a : a % b;
        case K_SDIV: { __int128 x = sx128(a, w), y = sx128(b, w); if (y == 0) return x < 0 ? 1 : m;
                       if (y == -1) return (u128)(0 - (u128)x) & m; return (u128)(x / y) & m; }
        case K_SREM: { __int128 x = sx128(a, w), y = sx128(b, w); if (y == 0) return a;
                       if (y == -1) return 0; return (u128)(x % y) & m; }
        case K_AND: return a & b;
        case K_OR: return a | b;
        case K_XOR: return a ^ b;
        case K_SHL: return b >= w ? 0 : (a << (unsigned)b) & m;
        case K_LSHR: return b >= w ? 0 : a >> (unsigned)b;
        case K_ASHR: { __int128 x = sx128(a, w); unsigned s = b >= w ? w - 1 : (unsigned)b; return (u128)(x >> s) & m; }
        case K_EQ: return a == b;
        case K_ULT: return a < b;
        case K_ULE: return a <= b;
        case K_SLT: return sx128(a, aw) < sx128(b, bw);
        case K_SLE: return sx128(a, aw) <= sx128(b, bw);
        case K_ITE: return a ? b : c;
        case K_ZEXT: return a;
        case K_SEXT: return (u128)sx128(a, aw) & m;
        case K_EXTRACT: return (a >> aux) & m;
        case K_CONCAT: return ((a << bw) | b) & m;
        case K_FADD: return w == 32 ? f_bits(bits_f(a) + bits_f(b)) : w == 64 ? d_bits(bits_d(a) + bits_d(b)) : l_bits(bits_l(a) + bits_l(b));
        case K_FSUB: return w == 32 ? f_bits(bits_f(a) - bits_f(b)) : w == 64 ? d_bits(bits_d(a) - bits_d(b)) : l_bits(bits_l(a) - bits_l(b));
        case K_FMUL: return w == 32 ? f_bits(bits_f(a) * bits_f(b)) : w == 64 ? d_bits(bits_d(a) * bits_d(b)) : l_bits(bits_l(a) * bits_l(b));
        case K_FDIV: return w == 32 ? f_bits(bits_f(a) / bits_f(b)) : w == 64 ? d_bits(bits_d(a) / bits_d(b)) : l_bits(bits_l(a) / bits_l(b));
        case K_FOEQ: return bits_any(a, aw) == bits_any(b, bw);
        case K_FOLT: return bits_any(a, aw) < bits_any(b, bw);
        case K_FOLE: return bits_any(a, aw) <= bits_any(b, bw);
        case K_FUNO: { long double x = bits_any(a, aw), y = bits_any(b, bw); return (x != x) || (y != y); }
        case K_FPCONV: { if (aw == w) return a; long double x = bits_any(a, aw);
                         return w == 32 ? (aw == 64 ? f_bits((float)bits_d(a)) : f_bits((float)x))
                              : w == 64 ? d_bits((double)x) : l_bits(x); }
        case K_FPTOSI: { long double x = bits_any(a, aw);
                         if (w <= 32) { if (!(x > -2147483649.0L && x < 2147483648.0L)) return ((u128)0x80000000u) & m; return (u128)(__int128)(int32_t)x & m; }
                         if (!(x >= -9223372036854775808.0L && x < 9223372036854775808.0L)) return ((u128)1 << 63) & m;
                         return (u128)(__int128)(int64_t)x & m; }
        case K_FPTOUI: { long double x = bits_any(a, aw);
                         if (!(x > -9223372036854775808.0L && x < 18446744073709551616.0L)) return ((u128)1 << 63) & m;
                         if (x < 0) return (u128)(__int128)(int64_t)x & m;
                         return (u128)(u64)x & m; }
        case K_SITOFP: { __int128 s = sx128(a, aw); return w == 32 ? f_bits((float)(int64_t)s) : w == 64 ? d_bits((double)(int64_t)s) : l_bits((long double)(int64_t)s); }
        case K_UITOFP: { return w == 32 ? f_bits((float)(u64)a) : w == 64 ? d_bits((double)(u64)a) : l_bits((long double)(u64)a); }
        default: abort();
    }
}

struct Pool {
    std::vector<VarInfo> vars;
    std::vector<Expr*> all;
    std::vector<Expr*> table; // open addressing
    size_t used = 0;
    std::unordered_map<std::string, const std::vector<u32>*> sets;
    const std::vector<u32>* empty;
    u32 curgen = 1;

    Pool() { table.resize(1 << 16, nullptr); empty = new std::vector<u32>(); }

    static u64 hsh(EK k, unsigned w, unsigned aux, E a, E b, E c, u128 v)
    {
        u64 h = (u64)k * 0x9E3779B97F4A7C15ull ^ ((u64)w << 32) ^ aux;
        auto mx = [&](u64 x) { h ^= x + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdull; h ^= h >> 33; };
        mx(a ? a->id + 1 : 0); mx(b ? b->id + 1 : 0); mx(c ? c->id + 1 : 0); mx((u64)v); mx((u64)(v >> 64));
        return h;
    }
    const std::vector<u32>* uni(const std::vector<u32>* x, const std::vector<u32>* y)
    {
        if (x == y || y->empty()) return x;
        if (x->empty()) return y;
        if (std::includes(x->begin(), x->end(), y->begin(), y->end())) return x;
        if (std::includes(y->begin(), y->end(), x->begin(), x->end())) return y;
        std::vector<u32> r; std::set_union(x->begin(), x->end(), y->begin(), y->end(), std::back_inserter(r));
        std::string key((const char*)r.data(), r.size() * 4);
        auto it = sets.find(key);
        if (it != sets.end()) return it->second;
        auto* p = new std::vector<u32>(std::move(r)); sets[key] = p; return p;
    }
    E raw(EK k, unsigned w, unsigned aux, E a, E b, E c, u128 v)
    {
        u64 h = hsh(k, w, aux, a, b, c, v);
        size_t m = table.size() - 1, i = h & m;
        while (table[i])
        {
            Expr* e = table[i];
            if (e->k == k && e->w == w && e->aux == aux && e->a == a && e->b == b && e->c == c && e->v == v) return e;
            i = (i + 1) & m;
        }
        Expr* e = new Expr();
        e->k = k; e->w = w; e->aux = aux; e->a = a; e->b = b; e->c = c; e->v = v; e->id = all.size();
        e->taint = (a && a->taint) || (b && b->taint) || (c && c->taint);
        e->heavy = (a && a->heavy) || (b && b->heavy) || (c && c->heavy);
        e->fp = (a && a->fp) || (b && b->fp) || (c && c->fp) || k >= K_FADD;
        if (k >= K_FADD) e->heavy = true;
        if (k == K_MUL && w > 16) e->heavy = true;
        if ((k == K_UDIV || k == K_SDIV || k == K_UREM || k == K_SREM) && w > 8) e->heavy = true;
        const std::vector<u32>* vs = empty;
        if (k == K_VAR) { auto* p = new std::vector<u32>(1, (u32)v); vs = p; e->taint = vars[(size_t)v].undef; }
        else { if (a) vs = uni(vs, a->vars); if (b) vs = uni(vs, b->vars); if (c) vs = uni(vs, c->vars); }
        e->vars = vs;
        all.push_back(e); table[i] = e;
        if (++used * 2 > table.size())
        {
            std::vector<Expr*> nt(table.size() * 2, nullptr); size_t nm = nt.size() - 1;
            for (Expr* x : table) if (x) { size_t j = hsh(x->k, x->w, x->aux, x->a, x->b, x->c, x->v) & nm; while (nt[j]) j = (j + 1) & nm; nt[j] = x; }
            table.swap(nt);
        }
        return e;
    }
    E cst(u128 v, unsigned w) { return raw(K_CONST, w, 0, 0, 0, 0, v & maskw(w)); }
    E var(const std::string& n, unsigned w, bool undef = false)
    { vars.push_back({n, w, undef}); return raw(K_VAR, w, 0, 0, 0, 0, vars.size() - 1); }

    // evaluation under an assignment -------------------------------------------------
    u128 eval_rec(E e, const std::vector<u128>& m)
    {
        if (e->k == K_CONST) return e->v;
        if (e->gen == curgen) return e->val;
        u128 r;
        if (e->k == K_VAR) r = (size_t)e->v < m.size() ? m[(size_t)e->v] & maskw(e->w) : 0;
        else if (e->k == K_ITE) r = eval_rec(e->a, m) ? eval_rec(e->b, m) : eval_rec(e->c, m);
        else
        {
            u128 a = eval_rec(e->a, m), b = e->b ? eval_rec(e->b, m) : 0;
            r = ev_op(e->k, e->w, e->aux, a, e->a->w, b, e->b ? e->b->w : 0, 0);
        }
        e->gen = curgen; e->val = r; return r;
    }
    void newgen() { ++curgen; }
    u128 eval(E e, const std::vector<u128>& m) { newgen(); return eval_rec(e, m); }

    // builders -----------------------------------------------------------------------
    static bool isC(E e) { return e->k == K_CONST; }
    static bool isC(E e, u128 v) { return e->k == K_CONST && e->v == v; }
    E fold(EK k, unsigned w, unsigned aux, E a, E b, E c)
    { return cst(ev_op(k, w, aux, a->v, a->w, b ? b->v : 0, b ? b->w : 0, c ? c->v : 0), w); }

    E mkNot(E a) { return mkXor(a, cst(maskw(a->w), a->w)); }
    static bool isNot(E e) { return e->k == K_XOR && e->b->k == K_CONST && e->b->v == maskw(e->w); }

    E mkAdd(E a, E b)
    {
        unsigned w = a->w;
        if (isC(a) && isC(b)) return fold(K_ADD, w, 0, a, b, 0);
        if (isC(a)) std::swap(a, b);
        if (isC(b, 0)) return a;
        if (w == 1) return mkXor(a, b);
        if (isC(b) && a->k == K_ADD && isC(a->b)) return mkAdd(a->a, cst(a->b->v + b->v, w));
        if (a->k == K_ADD && isC(a->b)) return mkAdd(mkAdd(a->a, b), a->b);
        if (b->k == K_ADD && isC(b->b)) return mkAdd(mkAdd(a, b->a), b->b);
        if (isC(b) && a->k == K_ITE && isC(a->b) && isC(a->c)) return mkIte(a->a, mkAdd(a->b, b), mkAdd(a->c, b));
        // (x - y) + y -> x
        if (a->k == K_SUB && a->b == b) return a->a;
        if (b->k == K_SUB && b->b == a) return b->a;
        if (!isC(b) && a->id > b->id) std::swap(a, b);
        return raw(K_ADD, w, 0, a, b, 0, 0);
    }
    E mkSub(E a, E b)
    {
        unsigned w = a->w;
        if (isC(a) && isC(b)) return fold(K_SUB, w, 0, a, b, 0);
        if (a == b) return cst(0, w);
        if (isC(b)) return mkAdd(a, cst(0 - b->v, w));
        if (a->k == K_ADD && a->a == b) return a->b;
        if (a->k == K_ADD && a->b == b) return a->a;
        if (a->k == K_ADD && isC(a->b)) return mkAdd(mkSub(a->a, b), a->b);
        if (b->k == K_ADD && isC(b->b)) return mkAdd(mkSub(a, b->a), cst(0 - b->b->v, w));
        return raw(K_SUB, w, 0, a, b, 0, 0);
    }
    E mkMul(E a, E b)
    {
        unsigned w = a->w;
        if (isC(a) && isC(b)) return fold(K_MUL, w, 0, a, b, 0);
        if (isC(a)) std::swap(a, b);
        if (isC(b, 0)) return b;
        if (isC(b, 1)) return a;
        if (isC(b) && b->v && !(b->v & (b->v - 1))) { unsigned s = 0; while (!((b->v >> s) & 1)) s++; return mkShl(a, cst(s, w)); }
        if (isC(b) && a->k == K_MUL && isC(a->b)) return mkMul(a->a, cst(a->b->v * b->v, w));
        if (isC(b) && a->k == K_ITE && isC(a->b) && isC(a->c)) return mkIte(a->a, mkMul(a->b, b), mkMul(a->c, b));
        if (!isC(b) && a->id > b->id) std::swap(a, b);
        return raw(K_MUL, w, 0, a, b, 0, 0);
    }
    E mkDiv(EK k, E a, E b)
    {
        unsigned w = a->w;
        if (isC(a) && isC(b)) return fold(k, w, 0, a, b, 0);
        if (isC(b, 1)) return (k == K_UDIV || k == K_SDIV) ? a : cst(0, w);
        if (isC(b) && b->v && !(b->v & (b->v - 1)))
        {
            unsigned s = 0; while (!((b->v >> s) & 1)) s++;
            if (k == K_UDIV) return mkLShr(a, cst(s, w));
            if (k == K_UREM) return mkAnd(a, cst(b->v - 1, w));
        }
        return raw(k, w, 0, a, b, 0, 0);
    }
    // does bit pattern of e is known zero at and above bit n?
    static unsigned hizero(E e) // number of significant low bits
    {
        if (e->k == K_CONST) { unsigned n = 0; u128 v = e->v; while (v) { n++; v >>= 1; } return n; }
        if (e->k == K_ZEXT) return std::min<unsigned>(e->a->w, hizero(e->a));
        return e->w;
    }
    static unsigned lozero(E e)
    {
        if (e->k == K_CONST) { if (!e->v) return e->w; unsigned n = 0; while (!((e->v >> n) & 1)) n++; return n; }
        if (e->k == K_CONCAT) { unsigned l = lozero(e->b); return l == e->b->w ? l + lozero(e->a) : l; }
        if (e->k == K_ZEXT) { unsigned l = lozero(e->a); return l == e->a->w ? e->w : l; }
        return 0;
    }
    E disjoint(E a, E b) // a|b with disjoint bits, low zero of one covers the other
    {
        unsigned w = a->w;
        for (int t = 0; t < 2; ++t, std::swap(a, b))
        {
            unsigned lz = lozero(a), hs = hizero(b);
            if (lz && lz < w && hs <= lz)
                return mkConcat(mkExtract(a, lz, w - lz), mkExtract(b, 0, lz));
        }
        return nullptr;
    }
    E mkAnd(E a, E b)
    {
        unsigned w = a->w;
        if (isC(a) && isC(b)) return fold(K_AND, w, 0, a, b, 0);
        if (isC(a)) std::swap(a, b);
        if (a == b) return a;
        if (isC(b, 0)) return b;
        if (isC(b, maskw(w))) return a;
        if (isNot(a) && a->a == b) return cst(0, w);
        if (isNot(b) && b->a == a) return cst(0, w);
        if (isC(b))
        {
            if (a->k == K_AND && isC(a->b)) return mkAnd(a->a, cst(a->b->v & b->v, w));
            u128 v = b->v;
            if (v && !(v & (v + 1)))   // low mask
            { unsigned n = 0; while ((v >> n) & 1) n++; return mkZExt(mkExtract(a, 0, n), w); }
            // contiguous mask
            unsigned lz = lozero(b); u128 s = v >> lz;
            if (!(s & (s + 1)))
            {
                unsigned n = 0; while ((s >> n) & 1) n++;
                return mkZExt(mkConcat(mkExtract(a, lz, n), cst(0, lz)), w);
            }
            if (a->k == K_ITE && isC(a->b) && isC(a->c)) return mkIte(a->a, mkAnd(a->b, b), mkAnd(a->c, b));
        }
        if (a->k == K_ZEXT && b->k == K_ZEXT && a->a->w == b->a->w) return mkZExt(mkAnd(a->a, b->a), w);
        if (w == 1)
        {
            if (a->k == K_AND && (a->a == b || a->b == b)) return a;
            if (b->k == K_AND && (b->a == a || b->b == a)) return b;
        }
        if (!isC(b) && a->id > b->id) std::swap(a, b);
        return raw(K_AND, w, 0, a, b, 0, 0);
    }
    E mkOr(E a, E b)
    {
        unsigned w = a->w;
        if (isC(a) && isC(b)) return fold(K_OR, w, 0, a, b, 0);
        if (isC(a)) std::swap(a, b);
        if (a == b) return a;
        if (isC(b, 0)) return a;
        if (isC(b, maskw(w))) return b;
        if (w == 1) return mkNot(mkAnd(mkNot(a), mkNot(b)));
        if (E d = disjoint(a, b)) return d;
        if (a->k == K_CONCAT && b->k == K_CONCAT && a->b->w == b->b->w) return mkConcat(mkOr(a->a, b->a), mkOr(a->b, b->b));
        if (a->k == K_ZEXT && b->k == K_ZEXT && a->a->w == b->a->w) return mkZExt(mkOr(a->a, b->a), w);
        if (!isC(b) && a->id > b->id) std::swap(a, b);
        return raw(K_OR, w, 0, a, b, 0, 0);
    }
    E mkXor(E a, E b)
    {
        unsigned w = a->w;
        if (isC(a) && isC(b)) return fold(K_XOR, w, 0, a, b, 0);
        if (isC(a)) std::swap(a, b);
        if (a == b) return cst(0, w);
        if (isC(b, 0)) return a;
        if (isC(b) && a->k == K_XOR && isC(a->b)) return mkXor(a->a, cst(a->b->v ^ b->v, w));
        if (a->k == K_XOR && isC(a->b)) return mkXor(mkXor(a->a, b), a->b);
        if (b->k == K_XOR && isC(b->b)) return mkXor(mkXor(a, b->a), b->b);
        if (isC(b) && a->k == K_ITE && isC(a->b) && isC(a->c)) return mkIte(a->a, mkXor(a->b, b), mkXor(a->c, b));
        if (w > 1 && !isC(b)) if (E d = disjoint(a, b)) return d;
        if (isC(b) && a->k == K_ZEXT && hizero(b) <= a->a->w) return mkZExt(mkXor(a->a, cst(b->v, a->a->w)), w);
        if (a->k == K_CONCAT && b->k == K_CONCAT && a->b->w == b->b->w) return mkConcat(mkXor(a->a, b->a), mkXor(a->b, b->b));
        if (a->k == K_ZEXT && b->k == K_ZEXT && a->a->w == b->a->w) return mkZExt(mkXor(a->a, b->a), w);
        if (!isC(b) && a->id > b->id) std::swap(a, b);
        return raw(K_XOR, w, 0, a, b, 0, 0);
    }
    E mkShl(E a, E b)
    {
        unsigned w = a->w;
        if (isC(a) && isC(b)) return fold(K_SHL, w, 0, a, b, 0);
        if (isC(b))
        {
            if (b->v == 0) return a;
            if (b->v >= w) return cst(0, w);
            unsigned s = (unsigned)b->v;
            return mkConcat(mkExtract(a, 0, w - s), cst(0, s));
        }
        if (isC(a, 0)) return a;
        return raw(K_SHL, w, 0, a, b, 0, 0);
    }
    E mkLShr(E a, E b)
    {
        unsigned w = a->w;
        if (isC(a) && isC(b)) return fold(K_LSHR, w, 0, a, b, 0);
        if (isC(b))
        {
            if (b->v == 0) return a;
            if (b->v >= w) return cst(0, w);
            unsigned s = (unsigned)b->v;
            return mkZExt(mkExtract(a, s, w - s), w);
        }
        if (isC(a, 0)) return a;
        return raw(K_LSHR, w, 0, a, b, 0, 0);
    }
    E mkAShr(E a, E b)
    {
        unsigned w = a->w;
        if (isC(a) && isC(b)) return fold(K_ASHR, w, 0, a, b, 0);
        if (isC(b))
        {
            if (b->v == 0) return a;
            unsigned s = b->v >= w ? w - 1 : (unsigned)b->v;
            return mkSExt(mkExtract(a, s, w - s), w);
        }
        return raw(K_ASHR, w, 0, a, b, 0, 0);
    }
    E mkZExt(E a, unsigned w)
    {
        if (a->w == w) return a;
        assert(w > a->w);
        if (isC(a)) return cst(a->v, w);
        if (a->k == K_ZEXT) return mkZExt(a->a, w);
        if (a->k == K_ITE && isC(a->b) && isC(a->c)) return mkIte(a->a, cst(a->b->v, w), cst(a->c->v, w));
        return raw(K_ZEXT, w, 0, a, 0, 0, 0);
    }
    E mkSExt(E a, unsigned w)
    {
        if (a->w == w) return a;
        if (isC(a)) return fold(K_SEXT, w, 0, a, 0, 0);
        if (a->k == K_SEXT) return mkSExt(a->a, w);
        if (a->k == K_ZEXT) return mkZExt(a->a, w);
        if (a->k == K_ITE && isC(a->b) && isC(a->c)) return mkIte(a->a, mkSExt(a->b, w), mkSExt(a->c, w));
        return raw(K_SEXT, w, 0, a, 0, 0, 0);
    }
    std::unordered_map<u64, E> exMemo; // the rules below visit shared operands: remember
    E mkExtract(E a, unsigned off, unsigned w)
    {
        assert(off + w <= a->w && w > 0);
        if (w == a->w) return a;
        if (isC(a)) return cst(a->v >> off, w);
        if (a->k != K_AND && a->k != K_OR && a->k != K_XOR && a->k != K_ADD && a->k != K_SUB && a->k != K_MUL && a->k != K_ITE) return extract1(a, off, w);
        u64 key = ((u64)a->id << 16) | (off << 8) | w; auto it = exMemo.find(key); if (it != exMemo.end()) return it->second;
        E r = extract1(a, off, w); exMemo[key] = r; return r;
    }
    E extract1(E a, unsigned off, unsigned w)
    {
        switch (a->k)
        {
            case K_EXTRACT: return mkExtract(a->a, a->aux + off, w);
            case K_CONCAT:
            {
                unsigned lw = a->b->w;
                if (off >= lw) return mkExtract(a->a, off - lw, w);
                if (off + w <= lw) return mkExtract(a->b, off, w);
                return mkConcat(mkExtract(a->a, 0, off + w - lw), mkExtract(a->b, off, lw - off));
            }
            case K_ZEXT:
                if (off >= a->a->w) return cst(0, w);
                if (off + w <= a->a->w) return mkExtract(a->a, off, w);
                return mkZExt(mkExtract(a->a, off, a->a->w - off), w);
            case K_SEXT:
                if (off + w <= a->a->w) return mkExtract(a->a, off, w);
                if (off == 0) return mkSExt(a->a, w);
                break;
            case K_AND: return mkAnd(mkExtract(a->a, off, w), mkExtract(a->b, off, w));
            case K_OR: return mkOr(mkExtract(a->a, off, w), mkExtract(a->b, off, w));
            case K_XOR:
                if (isC(a->b) || off == 0) return mkXor(mkExtract(a->a, off, w), mkExtract(a->b, off, w));
                break;
            case K_ADD: if (off == 0) return mkAdd(mkExtract(a->a, 0, w), mkExtract(a->b, 0, w)); break;
            case K_SUB: if (off == 0) return mkSub(mkExtract(a->a, 0, w), mkExtract(a->b, 0, w)); break;
            case K_MUL: if (off == 0) return mkMul(mkExtract(a->a, 0, w), mkExtract(a->b, 0, w)); break;
            case K_ITE:
                if ((isC(a->b) || isC(a->c)) || off == 0) return mkIte(a->a, mkExtract(a->b, off, w), mkExtract(a->c, off, w));
                break;
            default: break;
        }
        return raw(K_EXTRACT, w, off, a, 0, 0, 0);
    }
    E mkConcat(E hi, E lo)
    {
        unsigned w = hi->w + lo->w;
        assert(w <= 128);
        if (isC(hi) && isC(lo)) return cst((hi->v << lo->w) | lo->v, w);
        if (isC(hi, 0)) return mkZExt(lo, w);
        // adjacency: hi is extract of X right above lo
        if (hi->k == K_EXTRACT)
        {
            E src = hi->a; unsigned off = hi->aux;
            if (off >= lo->w)
            {
                if (lo->k == K_EXTRACT) { if (lo->a == src && lo->aux + lo->w == off) return mkExtract(src, lo->aux, w); }
                else if (off == lo->w || src->k == K_CONCAT || src->k == K_SEXT || src->k == K_ITE || src->k == K_XOR)
                {
                    E t = mkExtract(src, off - lo->w, lo->w);
                    if (t == lo) return mkExtract(src, off - lo->w, w);
                }
                if (lo->k == K_CONCAT && lo->a->k == K_EXTRACT && lo->a->a == src && lo->a->aux + lo->a->w == off)
                    return mkConcat(mkConcat(hi, lo->a), lo->b);
                if (lo->k == K_CONCAT && off >= lo->a->w)
                {
                    E t = mkExtract(src, off - lo->a->w, lo->a->w);
                    if (t == lo->a) { E m = mkExtract(src, off - lo->a->w, hi->w + lo->a->w); if (m->k == K_EXTRACT || m->k==K_SEXT || m->k == K_ITE || m->k==K_VAR) return mkConcat(m, lo->b); }
                }
            }
        }
        if (hi->k == K_ITE && lo->k == K_ITE && hi->a == lo->a) return mkIte(hi->a, mkConcat(hi->b, lo->b), mkConcat(hi->c, lo->c));
        if (hi->k == K_ITE && isC(hi->b) && isC(hi->c) && lo->k == K_CONCAT && lo->a->k == K_ITE && lo->a->a == hi->a)
            return mkConcat(mkConcat(hi, lo->a), lo->b);
        if (isC(hi) && lo->k == K_CONCAT && isC(lo->a)) return mkConcat(cst((hi->v << lo->a->w) | lo->a->v, hi->w + lo->a->w), lo->b);
        if (hi->k == K_ZEXT && false) return nullptr;
        if (hi->k == K_ZEXT) // Concat(ZExt(x), lo) -> ZExt(Concat(x, lo))
            return mkZExt(mkConcat(hi->a, lo), w);
        return raw(K_CONCAT, w, 0, hi, lo, 0, 0);
    }
    E mkIte(E c, E a, E b)
    {
        if (isC(c)) return c->v ? a : b;
        if (a == b) return a;
        if (isNot(c)) { c = c->a; std::swap(a, b); }
        if (a->w == 1)
        {
            if (isC(a) && isC(b)) return a->v ? c : mkNot(c);
            if (isC(a, 0)) return mkAnd(mkNot(c), b);
            if (isC(a, 1)) return mkOr(c, b);
            if (isC(b, 0)) return mkAnd(c, a);
            if (isC(b, 1)) return mkOr(mkNot(c), a);
        }
        if (a->k == K_ITE && a->a == c) a = a->b;
        if (b->k == K_ITE && b->a == c) b = b->c;
        if (a == b) return a;
        // ite(x == k, k, x) -> x
        if (c->k == K_EQ && ((c->a == a && c->b == b) || (c->b == a && c->a == b))) return b;
        if (a->k == K_ZEXT && b->k == K_ZEXT && a->a->w == b->a->w) return mkZExt(mkIte(c, a->a, b->a), a->w);
        return raw(K_ITE, a->w, 0, c, a, b, 0);
    }
    static u128 inv(u128 a, unsigned w) { u128 x = 1; for (int i = 0; i < 8; ++i) x *= 2 - a * x; return x & maskw(w); }
    // recognise x ^ (x >> k)
    static bool xorshift(E e, E& x, unsigned& s)
    {
        if (e->k != K_XOR) return false;
        for (int t = 0; t < 2; ++t)
        {
            E p = t ? e->b : e->a, q = t ? e->a : e->b;
            if (q->k == K_ZEXT && q->a->k == K_EXTRACT && q->a->a == p && q->a->aux + q->a->w == p->w) { x = p; s = q->a->aux; return true; }
        }
        return false;
    }
    E mkEq(E a, E b)
    {
        unsigned w = a->w;
        if (a == b) return cst(1, 1);
        if (isC(a) && isC(b)) return cst(a->v == b->v, 1);
        if (isC(a)) std::swap(a, b);
        if (w == 1) { if (isC(b)) return b->v ? a : mkNot(a); return mkNot(mkXor(a, b)); }
        if (isC(b))
        {
            switch (a->k)
            {
                case K_ZEXT: if (b->v > maskw(a->a->w)) return cst(0, 1); return mkEq(a->a, cst(b->v, a->a->w));
                case K_SEXT: { u128 lo = b->v & maskw(a->a->w); if (((u128)sx128(lo, a->a->w) & maskw(w)) != b->v) return cst(0, 1); return mkEq(a->a, cst(lo, a->a->w)); }
                case K_CONCAT: return mkAnd(mkEq(a->a, cst(b->v >> a->b->w, a->a->w)), mkEq(a->b, cst(b->v, a->b->w)));
                case K_ADD: if (isC(a->b)) return mkEq(a->a, cst(b->v - a->b->v, w)); break;
                case K_SUB: if (isC(a->a)) return mkEq(a->b, cst(a->a->v - b->v, w)); if (b->v == 0) return mkEq(a->a, a->b); break;
                case K_XOR: if (isC(a->b)) return mkEq(a->a, cst(b->v ^ a->b->v, w)); if (b->v == 0) return mkEq(a->a, a->b);
                {
                    E x; unsigned s;
                    if (xorshift(a, x, s)) { u128 y = b->v, r = y; for (unsigned i = 0; i < w / s + 1; ++i) r = y ^ (r >> s); return mkEq(x, cst(r, w)); }
                    break;
                }
                case K_MUL: if (isC(a->b) && (a->b->v & 1)) return mkEq(a->a, cst(b->v * inv(a->b->v, w), w)); break;
                case K_ITE:
                    if (isC(a->b) || isC(a->c)) return mkIte(a->a, mkEq(a->b, b), mkEq(a->c, b));
                    break;
                default: break;
            }
        }
        else
        {
            if (a->k == K_ZEXT && b->k == K_ZEXT)
            { if (a->a->w == b->a->w) return mkEq(a->a, b->a);
              if (a->a->w < b->a->w) return mkEq(mkZExt(a->a, b->a->w), b->a);
              return mkEq(a->a, mkZExt(b->a, a->a->w)); }
            if (a->k == K_SEXT && b->k == K_SEXT && a->a->w == b->a->w) return mkEq(a->a, b->a);
            if (a->k == K_CONCAT && b->k == K_CONCAT && a->b->w == b->b->w) return mkAnd(mkEq(a->a, b->a), mkEq(a->b, b->b));
            if (a->k == K_ADD && b->k == K_ADD && a->b == b->b) return mkEq(a->a, b->a);
            if (a->k == K_ADD && b->k == K_ADD && a->a == b->a) return mkEq(a->b, b->b);
            if (a->k == K_ADD && b->k == K_ADD && isC(a->b) && isC(b->b)) return mkEq(mkAdd(a->a, cst(a->b->v - b->b->v, w)), b->a) ;
            if (a->k == K_MUL && b->k == K_MUL && a->b == b->b && isC(a->b) && (a->b->v & 1)) return mkEq(a->a, b->a);
            { E x, y; unsigned s, t; if (xorshift(a, x, s) && xorshift(b, y, t) && s == t) return mkEq(x, y); }
            if (a->k == K_XOR && b->k == K_XOR && a->b == b->b) return mkEq(a->a, b->a);
            if (a->k == K_XOR && b->k == K_XOR && a->a == b->a) return mkEq(a->b, b->b);
            if (a->id > b->id) std::swap(a, b);
        }
        return raw(K_EQ, 1, 0, a, b, 0, 0);
    }
    E mkUlt(E a, E b)
    {
        unsigned w = a->w;
        if (a == b) return cst(0, 1);
        if (isC(a) && isC(b)) return cst(a->v < b->v, 1);
        if (isC(b, 0)) return cst(0, 1);
        if (isC(a, maskw(w))) return cst(0, 1);
        if (isC(b, 1)) return mkEq(a, cst(0, w));
        if (isC(a, 0)) return mkNot(mkEq(b, a));
        if (w == 1) return mkAnd(mkNot(a), b);
        if (a->k == K_ZEXT && b->k == K_ZEXT)
        {
            unsigned m = std::max(a->a->w, b->a->w);
            return mkUlt(mkZExt(a->a, m), mkZExt(b->a, m));
        }
        if (a->k == K_ZEXT && isC(b)) { if (b->v > maskw(a->a->w)) return cst(1, 1); return mkUlt(a->a, cst(b->v, a->a->w)); }
        if (b->k == K_ZEXT && isC(a)) { if (a->v >= maskw(b->a->w)) return cst(0, 1); return mkUlt(cst(a->v, b->a->w), b->a); }
        if (isC(b) && a->k == K_ITE && isC(a->b) && isC(a->c)) return mkIte(a->a, mkUlt(a->b, b), mkUlt(a->c, b));
        if (isC(a) && b->k == K_ITE && isC(b->b) && isC(b->c)) return mkIte(b->a, mkUlt(a, b->b), mkUlt(a, b->c));
        return raw(K_ULT, 1, 0, a, b, 0, 0);
    }
    E mkUle(E a, E b) { return mkNot(mkUlt(b, a)); }
    E mkSlt(E a, E b)
    {
        unsigned w = a->w;
        if (a == b) return cst(0, 1);
        if (isC(a) && isC(b)) return fold(K_SLT, 1, 0, a, b, 0);
        if (w == 1) return mkAnd(a, mkNot(b));
        if (a->k == K_ZEXT && b->k == K_ZEXT) return mkUlt(a, b);
        if (a->k == K_ZEXT && isC(b)) { if (sx128(b->v, w) < 0) return cst(0, 1); return mkUlt(a, b); }
        if (b->k == K_ZEXT && isC(a)) { if (sx128(a->v, w) < 0) return cst(1, 1); return mkUlt(a, b); }
        if (a->k == K_SEXT && b->k == K_SEXT && a->a->w == b->a->w) return mkSlt(a->a, b->a);
        if (a->k == K_SEXT && isC(b))
        {
            unsigned n = a->a->w; __int128 s = sx128(b->v, w), hi = ((__int128)1 << (n - 1)) - 1, lo = -hi - 1;
            if (s > hi) return cst(1, 1);
            if (s <= lo) return cst(0, 1);
            return mkSlt(a->a, cst(b->v, n));
        }
        if (b->k == K_SEXT && isC(a))
        {
            unsigned n = b->a->w; __int128 s = sx128(a->v, w), hi = ((__int128)1 << (n - 1)) - 1, lo = -hi - 1;
            if (s >= hi) return cst(0, 1);
            if (s < lo) return cst(1, 1);
            return mkSlt(cst(a->v, n), b->a);
        }
        if (isC(b) && a->k == K_ITE && isC(a->b) && isC(a->c)) return mkIte(a->a, mkSlt(a->b, b), mkSlt(a->c, b));
        if (isC(a) && b->k == K_ITE && isC(b->b) && isC(b->c)) return mkIte(b->a, mkSlt(a, b->b), mkSlt(a, b->c));
        return raw(K_SLT, 1, 0, a, b, 0, 0);
    }
    E mkSle(E a, E b) { return mkNot(mkSlt(b, a)); }
    // floating point -------------------------------------------------------------------
    E mkF(EK k, E a, E b)
    {
        if (isC(a) && isC(b)) return fold(k, a->w, 0, a, b, 0);
        if ((k == K_FADD || k == K_FMUL) && a->id > b->id) std::swap(a, b);
        return raw(k, a->w, 0, a, b, 0, 0);
    }
    E mkFCmp(EK k, E a, E b)
    {
        if (isC(a) && isC(b)) return fold(k, 1, 0, a, b, 0);
        // comparisons are invariant under widening conversions
        if (a->k == K_FPCONV && a->w > a->a->w && b->k == K_FPCONV && b->w > b->a->w && a->a->w == b->a->w) return mkFCmp(k, a->a, b->a);
        if ((k == K_FOEQ || k == K_FUNO) && a->id > b->id) std::swap(a, b);
        if (k == K_FUNO && isC(a)) { long double x = bits_any(a->v, a->w); if (x == x) a = b; else return cst(1, 1); }
        if (k == K_FUNO && isC(b)) { long double x = bits_any(b->v, b->w); if (x == x) b = a; else return cst(1, 1); }
        if (k == K_FUNO && a == b && (a->k == K_SITOFP || a->k == K_UITOFP)) return cst(0, 1);
        if ((a->w == 32 || a->w == 64) && !a->fp && !b->fp)
        {   // IEEE comparison of stored values, on their bits
            unsigned w = a->w; u128 sg = (u128)1 << (w - 1), inf = w == 32 ? (u128)0x7f800000u : (u128)0x7ff0000000000000ull;
            E am = mkAnd(a, cst(sg - 1, w)), bm = mkAnd(b, cst(sg - 1, w));
            E uno = mkOr(mkUlt(cst(inf, w), am), mkUlt(cst(inf, w), bm));
            if (k == K_FUNO) return uno;
            E zz = mkAnd(mkEq(am, cst(0, w)), mkEq(bm, cst(0, w))), ord = mkNot(uno);
            E eq = mkOr(mkEq(a, b), zz);
            if (k == K_FOEQ) return mkAnd(ord, eq);
            E sa = mkExtract(a, w - 1, 1), sb = mkExtract(b, w - 1, 1);
            E lt = mkOr(mkAnd(sa, mkNot(sb)), mkOr(mkAnd(mkNot(mkOr(sa, sb)), mkUlt(a, b)), mkAnd(mkAnd(sa, sb), mkUlt(b, a))));
            lt = mkAnd(lt, mkNot(zz));
            return mkAnd(ord, k == K_FOLT ? lt : mkOr(lt, eq));
        }
        return raw(k, 1, 0, a, b, 0, 0);
    }
    E mkFConv(E a, unsigned w)
    {
        if (a->w == w) return a;
        if (isC(a)) return fold(K_FPCONV, w, 0, a, 0, 0);
        // widen then narrow back is the identity (up to NaN quieting, which x86 does not do for non-signalling NaNs)
        if (a->k == K_FPCONV && a->w > a->a->w && w >= a->a->w) { if (w == a->a->w) return a->a; return mkFConv(a->a, w); }
        return raw(K_FPCONV, w, 0, a, 0, 0, 0);
    }
    E mkFToI(EK k, E a, unsigned w)
    {
        if (isC(a)) return fold(k, w, 0, a, 0, 0);
        return raw(k, w, 0, a, 0, 0, 0);
    }
    E mkIToF(EK k, E a, unsigned w)
    {
        if (isC(a)) return fold(k, w, 0, a, 0, 0);
        if (k == K_SITOFP && a->k == K_ZEXT) return mkIToF(K_UITOFP, a->a, w);
        if (k == K_SITOFP && a->k == K_SEXT) return mkIToF(K_SITOFP, a->a, w);
        if (k == K_UITOFP && a->k == K_ZEXT) return mkIToF(K_UITOFP, a->a, w);
        return raw(k, w, 0, a, 0, 0, 0);
    }
    // rebuild e with variables replaced
    E subst(E e, const std::unordered_map<u32, E>& to, std::unordered_map<E, E>& memo)
    {
        if (e->k == K_CONST) return e;
        if (e->k == K_VAR) { auto i = to.find((u32)e->v); return i == to.end() ? e : i->second; }
        auto it = memo.find(e); if (it != memo.end()) return it->second;
        E a = e->a ? subst(e->a, to, memo) : nullptr, b = e->b ? subst(e->b, to, memo) : nullptr, c = e->c ? subst(e->c, to, memo) : nullptr, r = e;
        if (a != e->a || b != e->b || c != e->c) switch (e->k)
        {
            case K_ADD: r = mkAdd(a, b); break;
            case K_SUB: r = mkSub(a, b); break;
            case K_MUL: r = mkMul(a, b); break;
            case K_UDIV: case K_SDIV: case K_UREM: case K_SREM: r = mkDiv(e->k, a, b); break;
            case K_AND: r = mkAnd(a, b); break;
            case K_OR: r = mkOr(a, b); break;
            case K_XOR: r = mkXor(a, b); break;
            case K_SHL: r = mkShl(a, b); break;
            case K_LSHR: r = mkLShr(a, b); break;
            case K_ASHR: r = mkAShr(a, b); break;
            case K_EQ: r = mkEq(a, b); break;
            case K_ULT: r = mkUlt(a, b); break;
            case K_ULE: r = mkUle(a, b); break;
            case K_SLT: r = mkSlt(a, b); break;
            case K_SLE: r = mkSle(a, b); break;
            case K_ITE: r = mkIte(a, b, c); break;
            case K_ZEXT: r = mkZExt(a, e->w); break;
            case K_SEXT: r = mkSExt(a, e->w); break;
            case K_EXTRACT: r = mkExtract(a, e->aux, e->w); break;
            case K_CONCAT: r = mkConcat(a, b); break;
            case K_FADD: case K_FSUB: case K_FMUL: case K_FDIV: r = mkF(e->k, a, b); break;
            case K_FOEQ: case K_FOLT: case K_FOLE: case K_FUNO: r = mkFCmp(e->k, a, b); break;
            case K_FPCONV: r = mkFConv(a, e->w); break;
            case K_FPTOSI: case K_FPTOUI: r = mkFToI(e->k, a, e->w); break;
            case K_SITOFP: case K_UITOFP: r = mkIToF(e->k, a, e->w); break;
            default: abort();
        }
        return memo[e] = r;
    }
    std::string str(E e, int depth = 6)
    {
        static const char* nm[] = {"const","var","add","sub","mul","udiv","sdiv","urem","srem","and","or","xor","shl","lshr","ashr","eq","ult","ule","slt","sle","ite","zext","sext","extract","concat","fadd","fsub","fmul","fdiv","foeq","folt","fole","funo","fpconv","fptosi","fptoui","sitofp","uitofp"};
        char b[80];
        if (e->k == K_CONST) { snprintf(b, 80, "0x%llx:%u", (unsigned long long)e->v, e->w); return b; }
        if (e->k == K_VAR) return vars[(size_t)e->v].name;
        if (depth == 0) return "...";
        std::string s = std::string("(") + nm[e->k];
        snprintf(b, 80, ":%u", e->w); s += b;
        if (e->k == K_EXTRACT) { snprintf(b, 80, "@%u", e->aux); s += b; }
        if (e->a) s += " " + str(e->a, depth - 1);
        if (e->b) s += " " + str(e->b, depth - 1);
        if (e->c) s += " " + str(e->c, depth - 1);
        return s + ")";
    }
};
extern Pool P;
