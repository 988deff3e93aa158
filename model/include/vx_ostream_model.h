// Model of the iostream parts xtypes uses (formatting into a string).  Integers are formatted
// exactly when vx_exact_fmt is set (properties about text); otherwise a *symbolic* integer is
// rendered as '#' so that diagnostics of a rejected operation do not fork on digits.
#pragma once
#include <iosfwd>
#include <string>
#include <string_view>
#include <stdexcept>
#include <exception>
extern "C" { bool vx_is_symbolic(unsigned long long); void vx_unsupported(const char*); extern int vx_exact_fmt; }
namespace std {
class ios_base { public:
    typedef int fmtflags; typedef int openmode; typedef int iostate; typedef int seekdir;
    static constexpr openmode in = 1, out = 2, binary = 4, ate = 8, app = 16, trunc = 32;
    static constexpr iostate goodbit = 0, badbit = 1, eofbit = 2, failbit = 4;
    static constexpr seekdir beg = 0, cur = 1, end = 2;
    static constexpr fmtflags dec = 1, hex = 2, oct = 4, basefield = 7, left = 8, right = 16, internal = 32, adjustfield = 56, boolalpha = 64, showbase = 128, uppercase = 256, showpos = 512, fixed = 1024, scientific = 2048, floatfield = 3072, skipws = 4096, showpoint = 8192, unitbuf = 16384;
    typedef runtime_error failure;
    fmtflags vx_fl = dec | skipws; long vx_width = 0, vx_prec = 6;
    fmtflags flags() const { return vx_fl; } fmtflags flags(fmtflags f) { fmtflags o = vx_fl; vx_fl = f; return o; }
    fmtflags setf(fmtflags f) { fmtflags o = vx_fl; vx_fl |= f; return o; } fmtflags setf(fmtflags f, fmtflags m) { fmtflags o = vx_fl; vx_fl = (vx_fl & ~m) | (f & m); return o; } void unsetf(fmtflags m) { vx_fl &= ~m; }
    long width() const { return vx_width; } long width(long w) { long o = vx_width; vx_width = w; return o; } long precision() const { return vx_prec; } long precision(long p) { long o = vx_prec; vx_prec = p; return o; }
    virtual ~ios_base() {} };
inline ios_base& dec(ios_base& b) { b.setf(ios_base::dec, ios_base::basefield); return b; }
inline ios_base& hex(ios_base& b) { b.setf(ios_base::hex, ios_base::basefield); return b; }
inline ios_base& oct(ios_base& b) { b.setf(ios_base::oct, ios_base::basefield); return b; }
inline ios_base& left(ios_base& b) { b.setf(ios_base::left, ios_base::adjustfield); return b; }
inline ios_base& right(ios_base& b) { b.setf(ios_base::right, ios_base::adjustfield); return b; }
inline ios_base& internal(ios_base& b) { b.setf(ios_base::internal, ios_base::adjustfield); return b; }
inline ios_base& boolalpha(ios_base& b) { b.setf(ios_base::boolalpha); return b; }
inline ios_base& noboolalpha(ios_base& b) { b.unsetf(ios_base::boolalpha); return b; }
inline ios_base& showbase(ios_base& b) { b.setf(ios_base::showbase); return b; }
inline ios_base& noshowbase(ios_base& b) { b.unsetf(ios_base::showbase); return b; }
inline ios_base& showpos(ios_base& b) { b.setf(ios_base::showpos); return b; }
inline ios_base& noshowpos(ios_base& b) { b.unsetf(ios_base::showpos); return b; }
inline ios_base& uppercase(ios_base& b) { b.setf(ios_base::uppercase); return b; }
inline ios_base& nouppercase(ios_base& b) { b.unsetf(ios_base::uppercase); return b; }
inline ios_base& fixed(ios_base& b) { b.setf(ios_base::fixed, ios_base::floatfield); return b; }
inline ios_base& scientific(ios_base& b) { b.setf(ios_base::scientific, ios_base::floatfield); return b; }
inline ios_base& defaultfloat(ios_base& b) { b.unsetf(ios_base::floatfield); return b; }
inline ios_base& skipws(ios_base& b) { b.setf(ios_base::skipws); return b; }
inline ios_base& noskipws(ios_base& b) { b.unsetf(ios_base::skipws); return b; }
template<class C, class T> class basic_ostream;
template<class C, class T> class basic_ios : public ios_base { public: C vx_fill = C(' '); C fill() const { return vx_fill; } C fill(C c) { C o = vx_fill; vx_fill = c; return o; } basic_ios& copyfmt(const basic_ios& o) { vx_fl = o.vx_fl; vx_width = o.vx_width; vx_prec = o.vx_prec; vx_fill = o.vx_fill; return *this; }
    iostate vx_state = 0; bool good() const { return vx_state == 0; } bool eof() const { return vx_state & eofbit; } bool bad() const { return vx_state & badbit; } bool fail() const { return vx_state & (badbit | failbit); } bool operator!() const { return fail(); } explicit operator bool() const { return !fail(); } void clear(iostate s = goodbit) { vx_state = s; } void setstate(iostate s) { vx_state |= s; } iostate rdstate() const { return vx_state; } void exceptions(iostate) {}
    basic_ostream<C, T>* tie() const { return nullptr; } };
template<class C, class T> class basic_ostream : virtual public basic_ios<C, T>
{
public:
    typedef C char_type; typedef T traits_type; typedef basic_ios<C, T> vx_ios;
    std::basic_string<C> vx_buf;
    basic_ostream() {}
    struct vx_streambuf { basic_ostream* o; long in_avail() { return (long)o->vx_buf.size(); } };
    vx_streambuf vx_sb;
    vx_streambuf* rdbuf() { vx_sb.o = this; return &vx_sb; }
    long tellp() { return (long)vx_buf.size(); }
    basic_ostream& put(C c) { vx_buf.push_back(c); return *this; }
    basic_ostream& write(const C* s, long n) { vx_buf.append(s, n); return *this; }
    basic_ostream& flush() { return *this; }
    basic_ostream& operator<<(basic_ostream& (*f)(basic_ostream&)) { return f(*this); }
    basic_ostream& operator<<(basic_ios<C, T>& (*f)(basic_ios<C, T>&)) { f(*this); return *this; }
    basic_ostream& operator<<(ios_base& (*f)(ios_base&)) { f(*this); return *this; }
    basic_ostream& seekp(long p) { vx_buf.resize(p, C(0)); return *this; }
    // text with the padding asked for; prefix: how much of it is sign or base
    basic_ostream& vx_text(const C* s, size_t n, size_t prefix = 0)
    {
        long w = this->vx_width; this->vx_width = 0;
        if (w <= (long)n) { vx_buf.append(s, n); return *this; }
        size_t pad = (size_t)w - n; int a = this->vx_fl & ios_base::adjustfield;
        if (a == ios_base::left) { vx_buf.append(s, n); vx_buf.append(pad, this->vx_fill); }
        else if (a == ios_base::internal) { vx_buf.append(s, prefix); vx_buf.append(pad, this->vx_fill); vx_buf.append(s + prefix, n - prefix); }
        else { vx_buf.append(pad, this->vx_fill); vx_buf.append(s, n); }
        return *this;
    }
    // v: magnitude; u: the same value as unsigned of its own width
    basic_ostream& vx_num(unsigned long long v, bool neg, unsigned long long u, bool sign)
    {
        int f = this->vx_fl, base = f & ios_base::hex ? 16 : f & ios_base::oct ? 8 : 10; if (base != 10) { v = u; neg = false; sign = false; }
        C b[40]; int n = 40; bool zero = v == 0;
        do { unsigned d = (unsigned)(base == 10 ? v % 10 : base == 16 ? v & 15 : v & 7); b[--n] = C(d < 10 ? '0' + d : (f & ios_base::uppercase ? 'A' : 'a') + (d - 10)); v = base == 10 ? v / 10 : base == 16 ? v >> 4 : v >> 3; } while (v);
        int p = n; if ((f & ios_base::showbase) && !zero) { if (base == 16) { b[--n] = C(f & ios_base::uppercase ? 'X' : 'x'); b[--n] = C('0'); } else if (base == 8) { b[--n] = C('0'); p = n; } }
        if (neg) b[--n] = C('-'); else if (sign && (f & ios_base::showpos)) b[--n] = C('+');
        return vx_text(b + n, 40 - n, p - n);
    }
    basic_ostream& vx_hash() { C c = C('#'); return vx_text(&c, 1); }
    basic_ostream& vx_u(unsigned long long v) { if (!vx_exact_fmt && vx_is_symbolic(v)) return vx_hash(); return vx_num(v, false, v, false); }
    basic_ostream& vx_s(long long v, unsigned bits)
    {
        if (!vx_exact_fmt && vx_is_symbolic((unsigned long long)v)) return vx_hash();
        unsigned long long u = (unsigned long long)v & (bits == 64 ? ~0ull : (1ull << bits) - 1);
        return v < 0 ? vx_num(0 - (unsigned long long)v, true, u, true) : vx_num((unsigned long long)v, false, u, true);
    }
    basic_ostream& operator<<(bool v) { if (!(this->vx_fl & ios_base::boolalpha)) return vx_s(v, 32); static const C t[] = {'t', 'r', 'u', 'e'}, f[] = {'f', 'a', 'l', 's', 'e'}; return v ? vx_text(t, 4) : vx_text(f, 5); }
    basic_ostream& operator<<(short v) { return vx_s(v, 16); }
    basic_ostream& operator<<(unsigned short v) { return vx_u(v); }
    basic_ostream& operator<<(int v) { return vx_s(v, 32); }
    basic_ostream& operator<<(unsigned v) { return vx_u(v); }
    basic_ostream& operator<<(long v) { return vx_s(v, 64); }
    basic_ostream& operator<<(unsigned long v) { return vx_u(v); }
    basic_ostream& operator<<(long long v) { return vx_s(v, 64); }
    basic_ostream& operator<<(unsigned long long v) { return vx_u(v); }
    basic_ostream& vx_f() { if (vx_exact_fmt) vx_unsupported("formatting a floating point value"); return vx_hash(); }
    basic_ostream& operator<<(float) { return vx_f(); }
    basic_ostream& operator<<(double) { return vx_f(); }
    basic_ostream& operator<<(long double) { return vx_f(); }
    basic_ostream& operator<<(const void*) { C c = C('@'); return vx_text(&c, 1); }
    basic_ostream& operator<<(nullptr_t) { static const C t[] = {'n', 'u', 'l', 'l', 'p', 't', 'r'}; return vx_text(t, 7); }
};
template<class T> inline basic_ostream<char, T>& operator<<(basic_ostream<char, T>& o, char c) { return o.vx_text(&c, 1); }
template<class T> inline basic_ostream<char, T>& operator<<(basic_ostream<char, T>& o, signed char c) { return o << (char)c; }
template<class T> inline basic_ostream<char, T>& operator<<(basic_ostream<char, T>& o, unsigned char c) { return o << (char)c; }
template<class T> inline basic_ostream<char, T>& operator<<(basic_ostream<char, T>& o, const char* s) { return o.vx_text(s, char_traits<char>::length(s)); }
template<class T> inline basic_ostream<char, T>& operator<<(basic_ostream<char, T>& o, const signed char* s) { return o << (const char*)s; }
template<class T> inline basic_ostream<char, T>& operator<<(basic_ostream<char, T>& o, const unsigned char* s) { return o << (const char*)s; }
template<class A> inline basic_ostream<char>& operator<<(basic_ostream<char>& o, const basic_string<char, char_traits<char>, A>& s) { return o.vx_text(s.data(), s.size()); }
template<class A> inline basic_ostream<wchar_t>& operator<<(basic_ostream<wchar_t>& o, const basic_string<wchar_t, char_traits<wchar_t>, A>& s) { return o.vx_text(s.data(), s.size()); }
inline basic_ostream<char>& operator<<(basic_ostream<char>& o, const basic_string_view<char>& s) { return o.vx_text(s.data(), s.size()); }
inline basic_ostream<wchar_t>& operator<<(basic_ostream<wchar_t>& o, const basic_string_view<wchar_t>& s) { return o.vx_text(s.data(), s.size()); }
template<class T> inline basic_ostream<wchar_t, T>& operator<<(basic_ostream<wchar_t, T>& o, wchar_t c) { return o.vx_text(&c, 1); }
template<class T> inline basic_ostream<wchar_t, T>& operator<<(basic_ostream<wchar_t, T>& o, const wchar_t* s) { return o.vx_text(s, char_traits<wchar_t>::length(s)); }
template<class S, class V, class = typename enable_if<is_base_of<ios_base, S>::value && !is_lvalue_reference<S>::value>::type> inline S&& operator<<(S&& o, const V& v) { o << v; return static_cast<S&&>(o); }
template<class C, class T> inline basic_ostream<C, T>& endl(basic_ostream<C, T>& o) { o.vx_buf.push_back(C('\n')); return o; }
template<class C, class T> inline basic_ostream<C, T>& ends(basic_ostream<C, T>& o) { o.vx_buf.push_back(C(0)); return o; }
template<class C, class T> inline basic_ostream<C, T>& flush(basic_ostream<C, T>& o) { return o; }
template<class C, class T> class basic_istream : virtual public basic_ios<C, T> { };
template<class C, class T> class basic_iostream : public basic_istream<C, T>, public basic_ostream<C, T> { };
_GLIBCXX_BEGIN_NAMESPACE_CXX11
template<class C, class T, class A> class basic_ostringstream : public basic_ostream<C, T>
{ public: typedef basic_string<C, T, A> vx_string; basic_ostringstream() {} explicit basic_ostringstream(ios_base::openmode) {} explicit basic_ostringstream(const vx_string& s, ios_base::openmode m = ios_base::out) { str(s, m); } basic_ostringstream(const basic_ostringstream&) = delete; basic_ostringstream(basic_ostringstream&& o) : basic_ostream<C, T>() { this->vx_buf = std::move(o.vx_buf); this->copyfmt(o); }
  vx_string str() const { return this->vx_buf; } void str(const vx_string& s, ios_base::openmode m = ios_base::ate) { if (!s.empty() && !(m & (ios_base::ate | ios_base::app))) vx_unsupported("overwriting the text of a stream"); this->vx_buf = s; } };
template<class C, class T, class A> class basic_stringstream : public basic_iostream<C, T>
{ public: typedef basic_string<C, T, A> vx_string; basic_stringstream() {} explicit basic_stringstream(ios_base::openmode) {} explicit basic_stringstream(const vx_string& s, ios_base::openmode = ios_base::out) { this->vx_buf = s; } basic_stringstream(const basic_stringstream&) = delete; basic_stringstream(basic_stringstream&& o) { this->vx_buf = std::move(o.vx_buf); this->copyfmt(o); }
  vx_string str() const { return this->vx_buf; } void str(const vx_string& s) { this->vx_buf = s; } };
_GLIBCXX_END_NAMESPACE_CXX11
typedef basic_ios<char> ios; typedef basic_ios<wchar_t> wios;
extern basic_ostream<char> cout, cerr, clog; extern basic_ostream<wchar_t> wcout, wcerr;
}
