// UTF-8 <-> UTF-16
//! entry h_points : texts of 0 to 3 arbitrary code points (4 in the thorough tier), both directions and back
//! entry h_long : texts of 12 to 140 code points of 1 to 4 bytes with one arbitrary code point followed by one of 1 to 4 bytes at every position around the internal buffer size (64 and 128 units, -4 to +2), both directions and back
//! entry h_long2 tier=thorough time=800 : the same with two arbitrary code points, around 64, 128 and 192 units
//! entry h_bytes : 1 to 4 arbitrary bytes (5 in the thorough tier): converted exactly as the standard says, or rejected
//! entry h_units : 1 to 3 arbitrary UTF-16 units (4 in the thorough tier): converted exactly as the standard says, or rejected
//! entry h_tail : truncated or malformed tails (1 to 4 arbitrary bytes, 1 to 2 arbitrary units) after 58 to 66 characters of 1 to 4 bytes
//! assume the conversion facet std::codecvt<char16_t,char,mbstate_t> is a model of libstdc++ 13's (model/include/codecvt_model.h), compared with the real one by the conformance replays
#include "xt.h"
#include <xtypes/StringConversion.hpp>
using namespace xt; using eprosima::code_conversion_tool;
static void enc8(std::string& r, uint32_t c)
{
    if (c < 0x80) r += (char)c;
    else if (c < 0x800) { r += (char)(0xC0 | (c >> 6)); r += (char)(0x80 | (c & 63)); }
    else if (c < 0x10000) { r += (char)(0xE0 | (c >> 12)); r += (char)(0x80 | ((c >> 6) & 63)); r += (char)(0x80 | (c & 63)); }
    else { r += (char)(0xF0 | (c >> 18)); r += (char)(0x80 | ((c >> 12) & 63)); r += (char)(0x80 | ((c >> 6) & 63)); r += (char)(0x80 | (c & 63)); }
}
static void enc16(std::u16string& r, uint32_t c)
{
    if (c < 0x10000) r += (char16_t)c; else { c -= 0x10000; r += (char16_t)(0xD800 + (c >> 10)); r += (char16_t)(0xDC00 + (c & 0x3FF)); }
}
static bool scalar(uint32_t c) { return c < 0xD800 || (c >= 0xE000 && c <= 0x10FFFF); }
// reference decoders, from the well-formedness tables of the Unicode standard; false: malformed
static bool dec8(const std::string& s, std::vector<uint32_t>& r)
{
    for (size_t i = 0; i < s.size();)
    {
        unsigned char a = s[i]; unsigned n = a < 0x80 ? 1 : a >= 0xC2 && a <= 0xDF ? 2 : a >= 0xE0 && a <= 0xEF ? 3 : a >= 0xF0 && a <= 0xF4 ? 4 : 0;
        if (n == 0 || s.size() - i < n) return false;
        uint32_t c = n == 1 ? a : n == 2 ? a & 31 : n == 3 ? a & 15 : a & 7;
        for (unsigned k = 1; k < n; ++k) { unsigned char b = s[i + k]; if ((b & 0xC0) != 0x80) return false; c = c << 6 | (b & 63); }
        if ((n == 3 && c < 0x800) || (n == 4 && c < 0x10000) || !scalar(c)) return false;
        r.push_back(c); i += n;
    }
    return true;
}
static bool dec16(const std::u16string& s, std::vector<uint32_t>& r)
{
    for (size_t i = 0; i < s.size(); ++i)
    {
        uint32_t a = s[i];
        if (a >= 0xDC00 && a <= 0xDFFF) return false;
        if (a >= 0xD800 && a <= 0xDBFF)
        {
            if (i + 1 >= s.size()) return false;
            uint32_t b = s[++i]; if (b < 0xDC00 || b > 0xDFFF) return false;
            a = 0x10000 + ((a - 0xD800) << 10) + (b - 0xDC00);
        }
        r.push_back(a);
    }
    return true;
}
template<class C> static bool eq(const std::basic_string<C>& a, const std::basic_string<C>& b) { return a.size() == b.size() && vx_equal(a.data(), b.data(), a.size() * sizeof(C)); }
static void both(const std::vector<uint32_t>& v)
{
    std::string s; std::u16string u; for (auto c : v) { enc8(s, c); enc16(u, c); }
    std::u16string a = code_conversion_tool<char16_t>(s); vx_assert(eq(a, u), "UTF-8 converts to the UTF-16 of the same code points");
    std::string b = code_conversion_tool<char>(u); vx_assert(eq(b, s), "UTF-16 converts to the UTF-8 of the same code points");
    vx_assert(eq(code_conversion_tool<char16_t>(std::string_view(s)), u) && eq(code_conversion_tool<char>(std::u16string_view(u)), s), "views are converted like strings");
    vx_assert(eq(code_conversion_tool<char>(a), s) && eq(code_conversion_tool<char16_t>(b), u), "converting back returns the original text");
}
static void check8(const std::string& s)
{
    std::vector<uint32_t> v; bool ok = dec8(s, v); std::u16string u, r; for (auto c : v) enc16(u, c);
    bool threw = vx_throws([&]() { r = code_conversion_tool<char16_t>(s); });
    vx_assert(threw == !ok, "malformed UTF-8 is rejected and well-formed UTF-8 is not"); if (ok && !threw) vx_assert(eq(r, u), "UTF-8 converts to the UTF-16 of the same code points");
}
static void check16(const std::u16string& u)
{
    std::vector<uint32_t> v; bool ok = dec16(u, v); std::string s, r; for (auto c : v) enc8(s, c);
    bool threw = vx_throws([&]() { r = code_conversion_tool<char>(u); });
    vx_assert(threw == !ok, "malformed UTF-16 is rejected and well-formed UTF-16 is not"); if (ok && !threw) vx_assert(eq(r, s), "UTF-16 converts to the UTF-8 of the same code points");
}
static uint32_t point(const char* n) { uint32_t c = vx_any<uint32_t>(n); vx_assume(c <= 0x10FFFF && scalar(c)); return c; }
static uint32_t fill(int k, unsigned i) { return k == 0 ? 'a' + i % 26 : k == 1 ? 0x100 + i : k == 2 ? 0x3040 + i : 0x1F300 + i; }
#ifdef VX_THOROUGH
enum { DEEP = 1 };
#else
enum { DEEP = 0 };
#endif
VX_ENTRY(h_points)
{
    unsigned n = vx_pick(4 + DEEP, "n"); std::vector<uint32_t> v; for (unsigned i = 0; i < n; ++i) v.push_back(point("c"));
    both(v); vx_reach("end");
}
static void longs(bool deep)
{
    int k = (int)vx_pick(4, "fill"); unsigned at, tail; std::vector<uint32_t> v;
    unsigned block = 1 + vx_pick(deep ? 3 : 2, "block"); bool bytes = vx_pick(2, "unit"); unsigned w = bytes ? k + 1 : k == 3 ? 2 : 1;
    at = block * 64 / w; unsigned off = vx_pick(7, "off"); at = at + off >= 4 ? at + off - 4 : 0; tail = vx_pick(2, "tail") * 4;
    for (unsigned i = 0; i < at; ++i) v.push_back(fill(k, i));
    v.push_back(point("c")); v.push_back(deep ? point("d") : fill((int)vx_pick(4, "next"), 7)); for (unsigned i = 0; i < tail; ++i) v.push_back(fill((k + 1) % 4, i));
    if (deep) { both(v); vx_reach("end"); return; }
    std::string s; std::u16string u; for (auto c : v) { enc8(s, c); enc16(u, c); }
    vx_assert(eq(code_conversion_tool<char16_t>(s), u), "UTF-8 converts to the UTF-16 of the same code points"); vx_assert(eq(code_conversion_tool<char>(u), s), "UTF-16 converts to the UTF-8 of the same code points");
    vx_reach("end");
}
VX_ENTRY(h_long) { longs(false); }
VX_ENTRY(h_long2) { longs(true); }
VX_ENTRY(h_bytes)
{
    unsigned n = 1 + vx_pick(4 + DEEP, "n"); std::string s; for (unsigned i = 0; i < n; ++i) s += (char)vx_any<unsigned char>("b");
    check8(s); vx_reach("end");
}
VX_ENTRY(h_units)
{
    unsigned n = 1 + vx_pick(3 + DEEP, "n"); std::u16string s; for (unsigned i = 0; i < n; ++i) s += vx_any<char16_t>("u");
    check16(s); vx_reach("end");
}
VX_ENTRY(h_tail)
{
    int k = (int)vx_pick(4, "fill"); bool u = vx_pick(2, "units"); unsigned w = u ? (k == 3 ? 2 : 1) : 1; unsigned n = 58 / w + vx_pick(9, "n");
    if (u) { std::u16string s; for (unsigned i = 0; i < n; ++i) enc16(s, fill(k, i)); unsigned m = 1 + vx_pick(2, "m"); for (unsigned i = 0; i < m; ++i) s += vx_any<char16_t>("u"); check16(s); }
    else { std::string s; for (unsigned i = 0; i < n; ++i) enc8(s, fill(k, i)); unsigned m = 1 + vx_pick(3 + DEEP, "m"); for (unsigned i = 0; i < m; ++i) s += (char)vx_any<unsigned char>("b"); check8(s); }
    vx_reach("end");
}
