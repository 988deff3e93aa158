// Operators on data equal the built-in C++ operators
//! entry h_unary : - ~ ! ++ -- (both forms) on all 15 primitive types, the enumeration, strings, a sequence and a structure, all values
//! entry h_logic : && || < > <= >= == != on all primitive types, all pairs of values
//! entry h_arith : + - * / % on all primitive types, all pairs of values with a defined result (64-bit products: factors below 2^31, or one factor up to 3 in magnitude)
//! entry h_bits : & | ^ << >> on all primitive types, all pairs of values with a defined result
//! entry h_compound : the ten compound operators with data on the right: same as operator and assignment, also with itself on the right
//! entry h_cpp : the ten compound operators with a C++ value on the right
//! entry h_mixed : every binary and compound operator with operands of two different types (all pairs of 18 types) is rejected and changes nothing
//! entry h_chain : expressions of three operands, on members of structures and elements of collections
//! assume values for which the C++ operation is undefined (overflow of signed types, division by zero, shifts out of range) are excluded
#include "xt.h"
#include <limits>
using namespace xt;
enum Op { MUL, DIV, REM, ADD, SUB, SHL, SHR, AND, XOR, OR };
template<class X> constexpr bool num() { return std::is_floating_point<X>::value || (std::is_integral<X>::value && !std::is_same<X, bool>::value && !std::is_same<X, char>::value && !std::is_same<X, char16_t>::value && !std::is_same<X, wchar_t>::value); }
template<class X> constexpr bool integer() { return num<X>() && std::is_integral<X>::value; }
template<class X> constexpr bool avail(int op) { return op == MUL || op == DIV || op == ADD || op == SUB ? num<X>() : integer<X>(); }
// the C++ result is defined
template<class X> static void defined(int op, X a, X b)
{
    if constexpr (integer<X>())
    {
        typedef decltype(a + b) P; typedef std::numeric_limits<P> L; P r; P x = a, y = b;
        switch (op)
        {
            case ADD: if (std::is_signed<P>::value) vx_assume(!__builtin_add_overflow(x, y, &r)); break;
            case SUB: if (std::is_signed<P>::value) vx_assume(!__builtin_sub_overflow(x, y, &r)); break;
            case MUL:
                if (!std::is_signed<P>::value || sizeof(X) == 1) break;
                if (sizeof(P) == 4) { int64_t w = int64_t(x) * int64_t(y); vx_assume(w >= int64_t(L::min()) && w <= int64_t(L::max())); }
                else if (vx_pick(2, "large")) vx_assume(int64_t(y) <= 3 && int64_t(y) >= -3 && int64_t(x) <= (INT64_MAX >> 2) && int64_t(x) >= -(INT64_MAX >> 2));
                else vx_assume(int64_t(x) < (1ll << 31) && int64_t(x) > -(1ll << 31) && int64_t(y) < (1ll << 31) && int64_t(y) > -(1ll << 31));
                break;
            case DIV: case REM: vx_assume(y != 0); if (std::is_signed<P>::value) vx_assume(!(x == L::min() && y == P(-1))); break;
            case SHL: vx_assume(!(y < 0) && uint64_t(y) < sizeof(P) * 8); if (std::is_signed<P>::value) vx_assume(!(x < 0) && x <= P(L::max() >> y)); break;
            case SHR: vx_assume(!(y < 0) && uint64_t(y) < sizeof(P) * 8); break;
        }
    }
}
template<class X> static X cpp(int op, X a, X b)
{
    if constexpr (num<X>()) switch (op) { case MUL: return X(a * b); case DIV: return X(a / b); case ADD: return X(a + b); case SUB: return X(a - b); }
    if constexpr (integer<X>()) switch (op) { case REM: return X(a % b); case SHL: return X(a << b); case SHR: return X(a >> b); case AND: return X(a & b); case XOR: return X(a ^ b); case OR: return X(a | b); }
    return X();
}
static DynamicData run(int op, const DynamicData& a, const DynamicData& b)
{
    switch (op) { case MUL: return a * b; case DIV: return a / b; case REM: return a % b; case ADD: return a + b; case SUB: return a - b; case SHL: return a << b; case SHR: return a >> b; case AND: return a & b; case XOR: return a ^ b; default: return a | b; }
}
static DynamicData& eq(int op, DynamicData& a, const DynamicData& b)
{
    switch (op) { case MUL: return a *= b; case DIV: return a /= b; case REM: return a %= b; case ADD: return a += b; case SUB: return a -= b; case SHL: return a <<= b; case SHR: return a >>= b; case AND: return a &= b; case XOR: return a ^= b; default: return a |= b; }
}
template<class X> static X sym(const char* n)
{
    if constexpr (std::is_same<X, long double>::value) { static const long double v[6] = {0, 1, -2.5L, 3e100L, 0.1L, -7}; return v[vx_pick(6, n)]; }
    else { X x = vx_any<X>(n); if constexpr (std::is_floating_point<X>::value) vx_assume(x == x); return x; }
}
template<class X> static bool holds(const ReadableDynamicDataRef& d, X x) { if (d.type().kind() != primitive_type<X>().kind()) return false; X v = d.value<X>(); if constexpr (std::is_floating_point<X>::value) return v != v ? x != x : vx_same(v, x); else return v == x; }
template<class X> static DynamicData mk(X x) { DynamicData d(primitive_type<X>()); d = x; return d; }
template<class F> static void any_prim(F f) { prim((int)vx_pick(15, "type"), f); }
VX_ENTRY(h_unary)
{
    unsigned k = (unsigned)vx_pick(20, "type"), op = (unsigned)vx_pick(7, "op");
    auto go = [&](DynamicData& d) { switch (op) { case 0: { DynamicData r(-d); return DynamicData(r); } case 1: { DynamicData r(~d); return DynamicData(r); } case 2: { DynamicData r(primitive_type<bool>()); r = !d; return DynamicData(r); } case 3: return DynamicData(++d); case 4: return DynamicData(--d); case 5: return DynamicData(d++); default: return DynamicData(d--); } };
    if (k >= 15)
    {
        T t = k == 15 ? leaf(ENUM) : k == 16 ? leaf(STR) : k == 17 ? leaf(WSTR) : k == 18 ? seq(leaf(U8)) : st({leaf(U8), leaf(I8)}); prof().elems = 2; prof().chars = (unsigned)vx_pick(3, "chars"); S s = any(t);
        DynamicData d(*build(t)); put(d, t, s); bool str = k == 16 || k == 17;
        if (op == 2 && str) vx_assert(!d == s.s.empty(), "not of a string tells whether it is empty"); else vx_assert(vx_throws([&]() { go(d); }), "unavailable unary operators are rejected");
        vx_assert(has(d, t, s), "unary operators that are rejected change nothing");
    }
    else prim((int)k, [&](auto z) {
        typedef decltype(z) X; X a = sym<X>("a"); DynamicData d = mk(a);
        bool ok = op == 0 ? num<X>() && std::is_signed<X>::value : op == 1 ? integer<X>() && std::is_signed<X>::value : op == 2 ? std::is_integral<X>::value : integer<X>();
        if (!ok) { vx_assert(vx_throws([&]() { go(d); }), "unavailable unary operators are rejected"); vx_assert(holds(d, a), "unary operators that are rejected change nothing"); return; }
        X r = a;
        if (op == 0) { if (integer<X>() && sizeof(X) >= 4) vx_assume(a != std::numeric_limits<X>::min()); if constexpr (num<X>()) r = X(-a); }
        if constexpr (integer<X>()) { if (op == 1) r = X(~a); if (op == 3 || op == 5) { if (std::is_signed<X>::value) vx_assume(a != std::numeric_limits<X>::max()); r = X(a + 1); } if (op == 4 || op == 6) { if (std::is_signed<X>::value) vx_assume(a != std::numeric_limits<X>::min()); r = X(a - 1); } }
        DynamicData res(go(d));
        if (op == 2) vx_assert(res.value<bool>() == !a, "not equals the C++ operator"); else vx_assert(holds(res, r), "unary operators equal the C++ operators");
        vx_assert(holds(d, op < 3 ? a : r), "increments store the result, other unary operators change nothing"); });
    vx_reach("end");
}
VX_ENTRY(h_logic)
{
    any_prim([](auto z) {
        typedef decltype(z) X; X a = sym<X>("a"), b = sym<X>("b"); DynamicData d = mk(a), e = mk(b);
        switch (vx_pick(8, "op"))
        {
            case 0: vx_assert((d && e) == (a && b), "and equals the C++ operator"); break; case 1: vx_assert((d || e) == (a || b), "or equals the C++ operator"); break;
            case 2: vx_assert((d < e) == (a < b), "less equals the C++ operator"); break; case 3: vx_assert((d > e) == (a > b), "greater equals the C++ operator"); break;
            case 4: vx_assert((d <= e) == (a <= b), "less or equal equals the C++ operator"); break; case 5: vx_assert((d >= e) == (a >= b), "greater or equal equals the C++ operator"); break;
            case 6: vx_assert((d == e) == (a == b), "equality equals the C++ operator"); break; default: vx_assert((d != e) == (a != b), "inequality equals the C++ operator");
        }
        vx_assert(holds(d, a) && holds(e, b), "comparing changes nothing"); });
    vx_reach("end");
}
static void binary(int op)
{
    any_prim([=](auto z) {
        typedef decltype(z) X; X a = sym<X>("a"), b = sym<X>("b"); DynamicData d = mk(a), e = mk(b);
        if (!avail<X>(op)) vx_assert(vx_throws([&]() { run(op, d, e); }), "unavailable operators are rejected");
        else { defined(op, a, b); X want = cpp(op, a, b); DynamicData r(run(op, d, e)); vx_assert(holds(r, want), "the result is that of the C++ operator"); }
        vx_assert(holds(d, a) && holds(e, b), "operators do not change their operands"); });
}
VX_ENTRY(h_arith) { static const int ops[5] = {ADD, SUB, MUL, DIV, REM}; binary(ops[vx_pick(5, "op")]); vx_reach("end"); }
VX_ENTRY(h_bits) { static const int ops[5] = {AND, OR, XOR, SHL, SHR}; binary(ops[vx_pick(5, "op")]); vx_reach("end"); }
VX_ENTRY(h_compound)
{
    int op = (int)vx_pick(10, "op"); bool self = vx_pick(2, "self");
    any_prim([=](auto z) {
        typedef decltype(z) X; X a = sym<X>("a"), b = self ? a : sym<X>("b"); DynamicData d = mk(a), e = mk(b); DynamicData& right = self ? d : e;
        if (!avail<X>(op)) { vx_assert(vx_throws([&]() { eq(op, d, right); }), "unavailable operators are rejected"); vx_assert(holds(d, a), "rejected operators change nothing"); }
        else { defined(op, a, b); X want = cpp(op, a, b); DynamicData& r = eq(op, d, right); vx_assert(&r == &d && holds(d, want), "compound operators store the result of the C++ operator and return it"); }
        vx_assert(holds(e, b), "compound operators do not change their right operand"); });
    vx_reach("end");
}
VX_ENTRY(h_cpp)
{
    int op = (int)vx_pick(10, "op");
    any_prim([=](auto z) {
        typedef decltype(z) X; X a = sym<X>("a"), b = sym<X>("b"); DynamicData d = mk(a); DynamicData* r = &d; bool threw;
        if constexpr (integer<X>()) { defined(op, a, b); X want = cpp(op, a, b); switch (op) { case MUL: r = &(d *= b); break; case DIV: r = &(d /= b); break; case REM: r = &(d %= b); break; case ADD: r = &(d += b); break; case SUB: r = &(d -= b); break; case SHL: r = &(d <<= b); break; case SHR: r = &(d >>= b); break; case AND: r = &(d &= b); break; case XOR: r = &(d ^= b); break; default: r = &(d |= b); } vx_assert(holds(d, want) && r == &d, "compound operators with C++ values store the result of the C++ operator"); }
        else if constexpr (num<X>()) { if (op != MUL && op != DIV && op != ADD && op != SUB) return; X want = cpp(op, a, b); switch (op) { case MUL: r = &(d *= b); break; case DIV: r = &(d /= b); break; case ADD: r = &(d += b); break; default: r = &(d -= b); } vx_assert(holds(d, want) && r == &d, "compound operators with C++ values store the result of the C++ operator"); }
        else { threw = vx_throws([&]() { switch (op) { case ADD: d += b; break; case SUB: d -= b; break; case AND: d &= b; break; case OR: d |= b; break; case XOR: d ^= b; break; default: d *= b; } }); vx_assert(threw && holds(d, a), "compound operators are rejected for characters and booleans"); }
        // a C++ value of another type is rejected
        DynamicData other(primitive_type<X>()); other = a;
        if constexpr (!std::is_same<X, uint16_t>::value) { uint16_t w = 1; vx_assert(vx_throws([&]() { other += w; }) && vx_throws([&]() { other ^= w; }), "values of another type are rejected"); }
        if constexpr (!std::is_same<X, double>::value) { double w = 1; vx_assert(vx_throws([&]() { other -= w; }), "values of another type are rejected"); }
        vx_assert(holds(other, a), "rejected operators change nothing"); });
    vx_reach("end");
}
VX_ENTRY(h_mixed)
{
    auto p = [](const char* n) { unsigned i = (unsigned)vx_pick(18, n); return i < 15 ? leaf((int)i) : i == 15 ? leaf(STR) : i == 16 ? seq(leaf(U8)) : st({leaf(U8), leaf(STR)}); };
    T t = p("t"), u = p("u"); if (t.k == u.k && t.k <= WC) { vx_reach("end"); return; }
    unsigned op = (unsigned)vx_pick(26, "op"); prof().elems = 1; prof().chars = 1; prof().finite = true; S s = any(t), v = any(u);
    DynamicData d(*build(t)), e(*build(u)); put(d, t, s); put(e, u, v);
    // && and || need their right operand only when the left one does not decide
    bool decided = false; if (op == 10 || op == 11) { if (t.k <= WC) prim(t.k, [&](auto x) { bool b = bool(fromS<decltype(x)>(s)); decided = op == 10 ? !b : b; }); }
    bool threw = vx_throws([&]() { if (op < 10) run((int)op, d, e); else switch (op) { case 10: (void)(d && e); break; case 11: (void)(d || e); break; case 12: (void)(d < e); break; case 13: (void)(d > e); break; case 14: (void)(d <= e); break; case 15: (void)(d >= e); break; default: eq((int)op - 16, d, e); } });
    vx_assert(threw || decided, "operators on different types are rejected");
    vx_assert(has(d, t, s) && has(e, u, v), "rejected operators change nothing");
    vx_reach("end");
}
VX_ENTRY(h_chain)
{
    T t = st({leaf(I32), seq(leaf(I32)), leaf(U16)}); int32_t a = vx_any<int32_t>("a"), b = vx_any<int32_t>("b"), c = vx_any<int32_t>("c"); vx_assume(a < 10000 && a > -10000 && b < 10000 && b > -10000 && c < 10000 && c > -10000 && c != 0);
    DynamicData d(*build(t)); d[0] = a; d[1].resize(2); d[1][0] = b; d[1][1] = c; d[2] = uint16_t(7);
    DynamicData x(d[0]), y(d[1][0]), z(d[1][1]);
    DynamicData r1((x + y) * z - x), r2((x - y) / z), r3(x % z + y); vx_assert(holds(r1, (a + b) * c - a) && holds(r2, (a - b) / c) && holds(r3, a % c + b), "expressions equal the C++ expressions");
    x += y; x -= z; ++x; vx_assert(holds(x, a + b - c + 1), "chained compound operators equal the C++ operators");
    d[0] = DynamicData(x * y); vx_assert(holds(d[0], (a + b - c + 1) * b) && holds(d[1][0], b) && holds(d[1][1], c) && holds(d[2], uint16_t(7)), "storing a result changes only its target");
    DynamicData lt(primitive_type<bool>()); lt = x < y; vx_assert(holds(lt, a + b - c + 1 < b), "comparison of computed values");
    vx_reach("end");
}
