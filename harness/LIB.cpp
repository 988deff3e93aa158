// Self-test of the runtime model: library features that edits of the code under test may use (python3 run.py LIB)
//! entry e_list : fixed inputs
//! entry e_umap : fixed inputs
//! entry e_sort : fixed inputs
//! entry e_misc : fixed inputs
//! entry e_str : fixed inputs
//! entry e_stream : fixed inputs
//! entry e_any : fixed inputs
//! entry e_sync : fixed inputs
//! entry e_c : fixed inputs
//! entry e_map : fixed inputs
//! entry e_math : fixed inputs
#include "xt.h"
#include <list>
#include <deque>
#include <set>
#include <map>
#include <unordered_map>
#include <unordered_set>
#include <algorithm>
#include <numeric>
#include <optional>
#include <variant>
#include <any>
#include <typeindex>
#include <tuple>
#include <array>
#include <bitset>
#include <stack>
#include <queue>
#include <functional>
#include <memory>
#include <mutex>
#include <atomic>
#include <charconv>
#include <sstream>
#include <iomanip>
#include <iostream>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <forward_list>
#include <limits>
#include <iterator>
VX_ENTRY(e_list) { std::list<int> l{3, 1, 2}; l.sort(); l.push_front(0); l.remove(2); l.reverse(); std::list<int> m; m.splice(m.begin(), l); vx_assert(m.size() == 3 && m.front() == 3, "l"); m.unique(); std::swap(l, m); std::forward_list<int> f{1, 2}; f.reverse(); vx_assert(f.front() == 2, "f"); vx_reach("end"); }
VX_ENTRY(e_umap) { std::unordered_map<std::string, int> u; for (int i = 0; i < 30; ++i) u[std::string(1, char('a' + i))] = i; vx_assert(u.at("c") == 2 && u.size() == 30, "u"); std::unordered_set<const void*> s; int a, b; s.insert(&a); s.insert(&b); vx_assert(s.count(&a) == 1, "s"); u.erase("a"); u.reserve(100); std::unordered_map<std::string, int> v(u); vx_assert(v == u, "eq"); std::unordered_multimap<int, int> mm; mm.emplace(1, 2); mm.emplace(1, 3); vx_assert(mm.count(1) == 2, "mm"); std::unordered_map<double,int> d; d[1.5]=2; vx_assert(d[1.5]==2,"d"); vx_reach("end"); }
VX_ENTRY(e_sort) { std::vector<int> v; for (int i = 0; i < 40; ++i) v.push_back((i * 7) % 41); std::stable_sort(v.begin(), v.end()); vx_assert(std::is_sorted(v.begin(), v.end()), "s"); std::sort(v.begin(), v.end(), std::greater<int>()); std::rotate(v.begin(), v.begin() + 3, v.end()); std::reverse(v.begin(), v.end()); std::partial_sum(v.begin(), v.end(), v.begin()); vx_assert(std::accumulate(v.begin(), v.end(), 0) != 0, "acc"); std::stable_partition(v.begin(), v.end(), [](int x) { return x % 2; }); std::nth_element(v.begin(), v.begin() + 3, v.end()); std::inplace_merge(v.begin(), v.begin() + 20, v.end()); std::make_heap(v.begin(), v.end()); vx_reach("end"); }
struct Esf : std::enable_shared_from_this<Esf> { int x = 1; };
VX_ENTRY(e_misc) { auto p = std::make_shared<Esf>(); std::weak_ptr<Esf> w = p; vx_assert(w.lock()->shared_from_this()->x == 1, "sp"); auto u = std::make_unique<int[]>(4); u[1] = 2; std::shared_ptr<uint8_t> sp(new uint8_t[4], std::default_delete<uint8_t[]>()); std::shared_ptr<int[]> sa(new int[3]); std::optional<std::string> o("x"); vx_assert(o.has_value() && *o == "x", "o"); std::variant<int, std::string> v("y"); vx_assert(std::get<std::string>(v) == "y", "v"); vx_assert(vx_throws([&] { std::get<int>(v); }), "v"); std::visit([](auto&&) {}, v); std::bitset<8> b(5); vx_assert(b.count() == 2, "b"); std::tuple<int, std::string> t(1, "a"); std::array<int, 3> a{1, 2, 3}; vx_assert(a.at(1) + std::get<0>(t) == 3, "a"); std::deque<int> d; for (int i = 0; i < 300; ++i) d.push_front(i); vx_assert(d.size() == 300 && d.front() == 299, "d"); std::stack<int> s; s.push(1); std::queue<int> q; q.push(2); std::priority_queue<int> pq; pq.push(3); pq.push(5); vx_assert(pq.top() == 5, "pq"); std::function<int(int)> f = [&](int x) { return x + 1; }; vx_assert(f(1) == 2, "f"); auto bb = std::bind(f, std::placeholders::_1); vx_assert(bb(3) == 4, "bb"); std::function<void()> e; vx_assert(vx_throws([&] { e(); }), "e"); std::dynamic_pointer_cast<Esf>(p); std::vector<bool> vb(70, true); vb[3] = false; vx_assert(std::count(vb.begin(), vb.end(), true) == 69, "vb"); vx_assert(vx_throws([&] { std::vector<int>().at(2); }), "at"); vx_reach("end"); }
VX_ENTRY(e_str) { std::string s = "hello::world"; vx_assert(s.find("::") == 5 && s.rfind("o") == 8 && s.find_first_of("lw") == 2 && s.find_last_not_of("dl") == 9, "f"); s.insert(2, "xx"); s.replace(0, 2, "abcdef"); s.erase(1, 2); s.resize(30, ' '); s.reserve(100); s.shrink_to_fit(); std::string_view v(s); vx_assert(v.substr(2).size() == 28, "v"); vx_assert(std::stoi("12") == 12 && std::stol("-3") == -3 && std::stoull("0x1f", nullptr, 16) == 31, "sto"); vx_assert(vx_throws([] { std::stoi("abc"); }), "stoi"); vx_assert(vx_throws([] { std::stoi("99999999999"); }), "stoi range"); char b[20]; auto r = std::to_chars(b, b + 20, 12345); vx_assert(std::string(b, r.ptr) == "12345", "tc"); int x; std::from_chars(b, r.ptr, x); vx_assert(x == 12345, "fc"); std::string t; std::transform(s.begin(), s.end(), std::back_inserter(t), [](unsigned char c) { return std::toupper(c); }); std::wstring w(L"abc"); w += L'd'; vx_assert(w.compare(L"abcd") == 0, "w"); std::u32string u(U"ab"); vx_assert(u.find(U'b') == 1, "u"); std::hash<std::string> h; vx_assert(h("a") == h("a"), "h"); vx_assert(std::string("a\0b", 3).size() == 3, "z"); std::swap(s, t); vx_assert(vx_throws([&] { s.at(1000); }), "at"); vx_assert(vx_throws([&] { s.substr(1000); }), "at"); std::lexicographical_compare(s.begin(), s.end(), t.begin(), t.end()); std::string js = std::string("a") + 'b' + std::to_string(3) + std::to_string(-4l); vx_assert(js == "ab3-4", "js"); vx_reach("end"); }
VX_ENTRY(e_stream) { vx_exact_fmt = 1; std::ostringstream o; o << std::setw(5) << 42 << '|' << std::left << std::setw(4) << 7 << '|' << std::right << std::setfill('0') << std::setw(3) << 5 << std::hex << 255 << std::uppercase << 255 << std::showbase << 255 << std::dec << std::boolalpha << true << std::noboolalpha << true << std::setw(4) << "ab" << std::setw(3) << 'c' << std::string(2, ' ') << std::oct << 8; vx_assert(o.str() == "   42|7   |005ffFF0XFFtrue100ab00c  010", "o"); std::stringstream s("x"); s.str(""); s << "abc" << std::endl; s.clear(); vx_assert(s.str() == "abc\n", "s"); o.width(3); o.fill('*'); std::ostringstream p; p.width(4); p << 1; vx_assert(p.str() == "   1", "p"); std::ostream& os = p; os << "x" << std::flush; std::ostringstream q(std::string("start"), std::ios_base::ate); q << "!"; vx_assert(q.str() == "start!", "q"); std::ostream_iterator<int> it(p, ","); *it = 3; ++it; std::cout << "text" << 3 << std::endl; std::cerr << "x"; p << std::quoted(std::string("a\"b")); vx_assert(!p.fail() && p.good() && !p.bad() && !p.eof() && (bool)p, "st"); p.copyfmt(o); auto fl = p.flags(); p.flags(fl); p.setf(std::ios::hex, std::ios::basefield); p.unsetf(std::ios::hex); p.precision(3); vx_reach("end"); }
VX_ENTRY(e_any) { std::any a = 3; vx_assert(std::any_cast<int>(a) == 3, "a"); a = std::string("x"); vx_assert(std::any_cast<std::string>(&a) != nullptr && std::any_cast<int>(&a) == nullptr, "b"); vx_assert(typeid(int) != typeid(long), "t"); vx_assert(std::type_index(typeid(int)) == std::type_index(typeid(int)), "ti"); vx_assert(typeid(int).hash_code() == typeid(int).hash_code(), "hc"); vx_reach("end"); }
static std::once_flag of;
VX_ENTRY(e_sync) { static std::mutex m; { std::lock_guard<std::mutex> l(m); std::unique_lock<std::mutex> u; } static std::string st = "s"; std::atomic<int> a(1); a.fetch_add(2); vx_assert(a.load() == 3, "a"); std::atomic_flag fl = ATOMIC_FLAG_INIT; fl.test_and_set(); static thread_local std::vector<int> tl; tl.push_back(1); thread_local int q = 4; vx_assert(q + tl[0] == 5, "tl"); std::recursive_mutex rm; rm.lock(); rm.unlock(); vx_reach("end"); }
VX_ENTRY(e_c) { char b[40]; int n = std::snprintf(b, sizeof b, "%d-%s|%5u|%-4d|%04x|%+ld|%lu|%c|%.2s|%%|%#x|%hhu", 3, "x", 7u, 8, 0xabu, 5l, ~0ul, 65, "qwe", 255, 257); volatile int vv = n; vx_assert(std::string(b) == "3-x|    7|8   |00ab|+5|1844674407370955", "sn"); char big[100]; std::snprintf(big, sizeof big, "%d-%s|%5u|%-4d|%04x|%+ld|%lu|%c|%.2s|%%|%#x|%hhu", -vv, "x", 7u, 8, 0xabu, 5l, ~0ul, 65, "qwe", 255, 257); vx_assert(std::string(big) == "-57-x|    7|8   |00ab|+5|18446744073709551615|A|qw|%|0xff|1" || (vx_observe(vv), false), big); n = 3; vx_assert(std::strchr("abc", 'b') && std::strstr("hello", "ll") && std::memchr("abc", 'c', 3) && std::strrchr("abcb", 'b'), "s"); vx_assert(std::memcmp("ab", "ac", 2) < 0, "m"); std::strncpy(b, "abc", 4); std::strcpy(b, "q"); std::strcat(b, "w"); vx_assert(std::strlen(b) == 2, "l"); void* p = std::calloc(3, 4); p = std::realloc(p, 40); std::free(p); vx_assert(std::abs(-3) == 3 && std::labs(-4) == 4, "abs");  vx_assert(std::atoi("12") == 12, "atoi"); int a[4] = {4, 3, 2, 1}; std::qsort(a, 4, 4, [](const void* x, const void* y) { return *(const int*)x - *(const int*)y; }); vx_assert(a[0] == 1, "q"); vx_reach("end"); }
VX_ENTRY(e_map) { std::map<int, std::string> m{{1, "a"}, {2, "b"}, {3, "c"}, {4, "d"}}; auto n = m.extract(2); m.erase(3); m.insert_or_assign(5, "e"); m.try_emplace(6, "f"); m.merge(std::map<int, std::string>{{9, "z"}}); vx_assert(m.size() == 5 && m.lower_bound(2)->first == 4 && m.rbegin()->first == 9, "m"); std::set<std::string> s{"a", "b"}; s.erase("a"); std::multimap<int, int> mm{{1, 1}, {1, 2}}; vx_assert(mm.equal_range(1).first->second == 1, "mm"); std::multiset<int> ms{1, 1}; std::vector<int> a{1, 2, 3}, b{2, 3, 4}, c; std::set_intersection(a.begin(), a.end(), b.begin(), b.end(), std::back_inserter(c)); vx_assert(c.size() == 2, "c"); m.clear(); vx_reach("end"); }
VX_ENTRY(e_math) { double d = vx_any<double>("d"); vx_assume(d == d); vx_assert(std::fabs(d) >= 0, "f"); vx_assert(!std::isnan(d), "n"); vx_assert(std::signbit(-1.0), "sb"); double e = std::floor(2.5) + std::ceil(2.5) + std::trunc(2.7) + std::round(2.4) + std::sqrt(4.0) + std::fmod(7.0, 4.0) + std::pow(2.0, 3.0); vx_assert(e > 0, "e"); vx_assert(std::max(1, 2) == 2 && std::min({3, 1, 2}) == 1 && std::clamp(5, 1, 3) == 3, "mm"); std::fmax(1.0, d); std::isinf(d); std::copysign(1.0, d); long double l = d; vx_assert(l == d, "l"); vx_assert(__builtin_popcount(7) == 3 && __builtin_clz(1) == 31 && __builtin_ctz(8) == 3, "bits"); int32_t r; vx_assert(__builtin_add_overflow(0x7fffffff, 1, &r), "ov"); vx_assert(__builtin_bswap32(1) == 0x1000000, "bs"); vx_reach("end"); }
