// Model of std::codecvt<char16_t,char,mbstate_t> (UTF-8 <-> UTF-16) written after libstdc++ 13
// src/c++11/codecvt.cc; compared with the real facet by harness/native conformance runs.
#pragma once
#include <string>
#include <bits/localefwd.h>
#include <cwchar>
namespace std {
class codecvt_base { public: enum result { ok, partial, error, noconv }; };
class locale { public: locale() {} class facet {}; class id {}; typedef int category; };
template<class I, class X, class S> class codecvt;
namespace vxd {
    static const char32_t incomplete = (char32_t)-2, invalid = (char32_t)-1, maxc = 0x10FFFF;
    inline char32_t read8(const char*& from, const char* end)
    {
        size_t avail = end - from;
        if (avail == 0) return incomplete;
        unsigned char c1 = from[0];
        if (c1 < 0x80) { ++from; return c1; }
        if (c1 < 0xC2) return invalid;
        if (c1 < 0xE0)
        {
            if (avail < 2) return incomplete;
            unsigned char c2 = from[1]; if ((c2 & 0xC0) != 0x80) return invalid;
            char32_t c = (c1 << 6) + c2 - 0x3080; from += 2; return c;
        }
        if (c1 < 0xF0)
        {
            if (avail < 2) return incomplete;
            unsigned char c2 = from[1]; if ((c2 & 0xC0) != 0x80) return invalid;
            if (c1 == 0xE0 && c2 < 0xA0) return invalid;
            if (c1 == 0xED && c2 >= 0xA0) return invalid;
            if (avail < 3) return incomplete;
            unsigned char c3 = from[2]; if ((c3 & 0xC0) != 0x80) return invalid;
            char32_t c = (c1 << 12) + (c2 << 6) + c3 - 0xE2080; from += 3; return c;
        }
        if (c1 < 0xF5)
        {
            if (avail < 2) return incomplete;
            unsigned char c2 = from[1]; if ((c2 & 0xC0) != 0x80) return invalid;
            if (c1 == 0xF0 && c2 < 0x90) return invalid;
            if (c1 == 0xF4 && c2 >= 0x90) return invalid;
            if (avail < 3) return incomplete;
            unsigned char c3 = from[2]; if ((c3 & 0xC0) != 0x80) return invalid;
            if (avail < 4) return incomplete;
            unsigned char c4 = from[3]; if ((c4 & 0xC0) != 0x80) return invalid;
            char32_t c = (c1 << 18) + (c2 << 12) + (c3 << 6) + c4 - 0x3C82080; from += 4; return c;
        }
        return invalid;
    }
}
template<> class codecvt<char16_t, char, mbstate_t> : public codecvt_base
{
public:
    typedef char16_t intern_type; typedef char extern_type; typedef mbstate_t state_type;
    result in(mbstate_t&, const char* from, const char* from_end, const char*& from_next, char16_t* to, char16_t* to_end, char16_t*& to_next) const
    {
        result r = ok;
        while (from != from_end && to != to_end)
        {
            const char* orig = from;
            char32_t c = vxd::read8(from, from_end);
            if (c == vxd::incomplete) { r = partial; break; }
            if (c > vxd::maxc) { r = error; break; }
            if (c < 0x10000) { *to++ = (char16_t)c; }
            else if (to_end - to < 2) { from = orig; r = partial; break; }
            else { *to++ = (char16_t)(0xD7C0 + (c >> 10)); *to++ = (char16_t)(0xDC00 + (c & 0x3FF)); }
        }
        if (r == ok && from != from_end) r = partial;
        from_next = from; to_next = to; return r;
    }
    result out(mbstate_t&, const char16_t* from, const char16_t* from_end, const char16_t*& from_next, char* to, char* to_end, char*& to_next) const
    {
        result r = ok;
        while (from != from_end)
        {
            char32_t c = from[0]; int inc = 1;
            if (c >= 0xD800 && c <= 0xDBFF)
            {
                if (from_end - from < 2) { r = ok; break; }
                char32_t c2 = from[1];
                if (c2 >= 0xDC00 && c2 <= 0xDFFF) { c = (c << 10) + c2 - 0x35FDC00; inc = 2; } else { r = error; break; }
            }
            else if (c >= 0xDC00 && c <= 0xDFFF) { r = error; break; }
            long room = to_end - to;
            if (c < 0x80) { if (room < 1) { r = partial; break; } *to++ = (char)c; }
            else if (c <= 0x7FF) { if (room < 2) { r = partial; break; } *to++ = (char)((c >> 6) + 0xC0); *to++ = (char)((c & 0x3F) + 0x80); }
            else if (c <= 0xFFFF) { if (room < 3) { r = partial; break; } *to++ = (char)((c >> 12) + 0xE0); *to++ = (char)(((c >> 6) & 0x3F) + 0x80); *to++ = (char)((c & 0x3F) + 0x80); }
            else { if (room < 4) { r = partial; break; } *to++ = (char)((c >> 18) + 0xF0); *to++ = (char)(((c >> 12) & 0x3F) + 0x80); *to++ = (char)(((c >> 6) & 0x3F) + 0x80); *to++ = (char)((c & 0x3F) + 0x80); }
            from += inc;
        }
        if (r == ok && from != from_end) r = partial;
        from_next = from; to_next = to; return r;
    }
};
template<class F> inline const F& vx_facet() { static F f; return f; }
template<> inline const codecvt<char16_t, char, mbstate_t>& use_facet(const locale&) { return vx_facet<codecvt<char16_t, char, mbstate_t>>(); }
}
