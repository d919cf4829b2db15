// Typed targets: canonical text of a value of any supported type
#ifndef TYP_HPP_
#define TYP_HPP_
#include "vh.hpp"
#ifdef VH_CBOR
#   include "cxon/cbor.hxx"
    using FMT = cxon::CBOR<>;
#   define VH_CLS CXON_CBOR_CLS
#   define VH_CLS_MEMBER CXON_CBOR_CLS_MEMBER
#   define VH_ASIS CXON_CBOR_CLS_FIELD_ASIS
#   define VH_NAME CXON_CBOR_CLS_FIELD_NAME
#   define VH_DFLT CXON_CBOR_CLS_FIELD_ASIS_DFLT
#   define VH_SKIP CXON_CBOR_CLS_FIELD_SKIP
#   define VH_ENM CXON_CBOR_ENM
#   define VH_ENM_ASIS CXON_CBOR_ENM_VALUE_ASIS
#   define VH_ENM_NAME CXON_CBOR_ENM_VALUE_NAME
#else
#   include "jfmt.hpp"
#   define VH_CLS CXON_JSON_CLS
#   define VH_CLS_MEMBER CXON_JSON_CLS_MEMBER
#   define VH_ASIS CXON_JSON_CLS_FIELD_ASIS
#   define VH_NAME CXON_JSON_CLS_FIELD_NAME
#   define VH_DFLT CXON_JSON_CLS_FIELD_ASIS_DFLT
#   define VH_SKIP CXON_JSON_CLS_FIELD_SKIP
#   define VH_ENM CXON_JSON_ENM
#   define VH_ENM_ASIS CXON_JSON_ENM_VALUE_ASIS
#   define VH_ENM_NAME CXON_JSON_ENM_VALUE_NAME
#endif
#include "cxon/lib/std/array.hxx"
#include "cxon/lib/std/bitset.hxx"
#include "cxon/lib/std/chrono.hxx"
#include "cxon/lib/std/complex.hxx"
#include "cxon/lib/std/deque.hxx"
#include "cxon/lib/std/forward_list.hxx"
#include "cxon/lib/std/list.hxx"
#include "cxon/lib/std/map.hxx"
#include "cxon/lib/std/memory.hxx"
#include "cxon/lib/std/queue.hxx"
#include "cxon/lib/std/set.hxx"
#include "cxon/lib/std/stack.hxx"
#include "cxon/lib/std/string.hxx"
#include "cxon/lib/std/tuple.hxx"
#include "cxon/lib/std/unordered_map.hxx"
#include "cxon/lib/std/unordered_set.hxx"
#include "cxon/lib/std/utility.hxx"
#include "cxon/lib/std/valarray.hxx"
#include "cxon/lib/std/vector.hxx"
#if __cplusplus >= 201703L
#   include "cxon/lib/std/optional.hxx"
#   include "cxon/lib/std/variant.hxx"
#   include "cxon/lib/std/string_view.hxx"
#endif
#if __cplusplus >= 202002L
#   include "cxon/lib/std/span.hxx"
#endif
#ifdef VH_BOOST
#   include "cxon/lib/boost/container/deque.hxx"
#   include "cxon/lib/boost/container/flat_map.hxx"
#   include "cxon/lib/boost/container/flat_set.hxx"
#   include "cxon/lib/boost/container/list.hxx"
#   include "cxon/lib/boost/container/map.hxx"
#   include "cxon/lib/boost/container/set.hxx"
#   include "cxon/lib/boost/container/slist.hxx"
#   include "cxon/lib/boost/container/small_vector.hxx"
#   include "cxon/lib/boost/container/stable_vector.hxx"
#   include "cxon/lib/boost/container/static_vector.hxx"
#   include "cxon/lib/boost/container/string.hxx"
#   include "cxon/lib/boost/dynamic_bitset.hxx"
#   include "cxon/lib/boost/variant.hxx"
#   include "cxon/lib/boost/variant2.hxx"
#endif

// ------------------------------------------------------------------ enumerations and classes under test
enum E1 { one, two, three, unnamed };
#ifdef VH_CBOR
VH_ENM(E1, VH_ENM_ASIS(one), VH_ENM_ASIS(two), VH_ENM_NAME(300, three))
#else
VH_ENM(E1, VH_ENM_ASIS(one), VH_ENM_ASIS(two), VH_ENM_NAME("III", three))
#endif

struct C1 { // plain members; "skip" is ignored; ab extends a
    int a; std::string ab; std::vector<int> b;
    C1() : a(7), ab(), b() {}
};
VH_CLS(C1, VH_ASIS(a), VH_ASIS(ab), VH_SKIP("skip"), VH_ASIS(b))
struct C2 { // nested classes, renamed member, member function spelling
    C1 in; std::vector<C1> li; double d; bool f;
    C2() : in(), li(), d(0), f(false) {}
    VH_CLS_MEMBER(C2, VH_NAME("inner", in), VH_ASIS(li), VH_ASIS(d), VH_NAME("flag", f))
};
struct C3 { // default conditions
    int a; std::string s; std::map<std::string, int> m; int z;
    C3() : a(0), s(), m(), z(5) {}
};
VH_CLS(C3, VH_DFLT(a, self.a == 0), VH_DFLT(s, self.s.empty()), VH_ASIS(m), VH_DFLT(z, self.z == 5))
struct C4 { // only default conditions and ignored keys
    int x; int y;
    C4() : x(1), y(2) {}
};
VH_CLS(C4, VH_SKIP("i"), VH_DFLT(x, self.x == 1), VH_SKIP("j"), VH_DFLT(y, self.y == 2))
#ifndef VH_CBOR
struct C5 {};           // no members at all
VH_CLS(C5)
#endif
struct C6 { // keys that are not plain
    int a; int b;
    C6() : a(0), b(0) {}
};
#ifndef VH_CBOR
CXON_JSON_CLS_NONTRIVIAL_KEY(C6)
#endif
VH_CLS(C6, VH_NAME("k\"1", a), VH_NAME("\xC3\xA9", b))
struct C7 { // a tree
    int v; std::vector<C7> kids;
    C7() : v(0) {}
    VH_CLS_MEMBER(C7, VH_DFLT(v, self.v == 0), VH_DFLT(kids, self.kids.empty()))
};
struct C8 { // names as long as the reader allows, and one character shorter
    int a; int b;
    C8() : a(0), b(0) {}
};
#define VH_K63 "kkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkk"
VH_CLS(C8, VH_NAME(VH_K63 "k", a), VH_NAME(VH_K63, b))
#ifndef VH_CBOR
struct C9 { // bare at the top level
    int a; std::string s; std::vector<int> l; std::map<std::string, C1> m;
    C9() : a(0), s(), l(), m() {}
};
CXON_JSON_CLS_BARE(C9)
VH_CLS(C9, VH_ASIS(a), VH_NAME("s.x", s), VH_SKIP("skip"), VH_ASIS(l), VH_DFLT(m, self.m.empty()))
CXON_JSON_CLS_TRAITS(C1)
CXON_JSON_CLS_TRAITS(C3)
CXON_JSON_CLS_TRAITS(C4)
#endif

namespace vh {
    template <typename T, typename = void> struct D;
    template <typename T> string dump(T const& t) { return D<T>::f(t); }

    template <typename It> string seqs(It b, It e, bool sort, char open, char close) {
        std::vector<string> v;
        for (; b != e; ++b) v.push_back(dump(*b));
        if (sort) std::sort(v.begin(), v.end());
        string o(1, open); for (size_t i = 0; i < v.size(); ++i) { if (i) o += ' '; o += v[i]; }
        return o + close;
    }
    template <typename It> string prs(It b, It e) {
        std::vector<string> v;
        for (; b != e; ++b) v.push_back(dump(b->first) + ":" + dump(b->second));
        std::sort(v.begin(), v.end());
        string o(1, '{'); for (size_t i = 0; i < v.size(); ++i) { if (i) o += ' '; o += v[i]; }
        return o + '}';
    }
    template <typename T> struct is_chr { static constexpr bool value = std::is_same<T, char>::value || std::is_same<T, char16_t>::value || std::is_same<T, char32_t>::value || std::is_same<T, wchar_t>::value; };
    inline string utf8(uint32_t c) {
        string o;
        if (c < 0x80) o += (char)c;
        else if (c < 0x800) { o += (char)(0xC0 | c >> 6); o += (char)(0x80 | (c & 63)); }
        else if (c < 0x10000) { o += (char)(0xE0 | c >> 12); o += (char)(0x80 | (c >> 6 & 63)); o += (char)(0x80 | (c & 63)); }
        else { o += (char)(0xF0 | c >> 18); o += (char)(0x80 | (c >> 12 & 63)); o += (char)(0x80 | (c >> 6 & 63)); o += (char)(0x80 | (c & 63)); }
        return o;
    }
    template <typename T> struct D<T, typename std::enable_if<std::is_integral<T>::value && !is_chr<T>::value && !std::is_same<T, bool>::value>::type> { static string f(T t) { return "n" + (std::is_signed<T>::value ? num(t) : unum(t)); } };
    template <typename T> struct D<T, typename std::enable_if<is_chr<T>::value>::type> { static string f(T t) { return "s" + hex(utf8((uint32_t)typename std::conditional<sizeof(T) == 1, unsigned char, T>::type(t))); } };
    template <> struct D<bool> { static string f(bool b) { return b ? "true" : "false"; } };
    template <> struct D<double> { static string f(double d) { return "r" + dhex(d); } };
    template <> struct D<float> { static string f(float d) { return "r" + fhex(d); } };
    template <> struct D<std::nullptr_t> { static string f(std::nullptr_t) { return "~"; } };
    template <typename A> struct D<std::basic_string<char, std::char_traits<char>, A>> { static string f(std::basic_string<char, std::char_traits<char>, A> const& s) { return "s" + hex(s.data(), s.size()); } };
    template <> struct D<std::u16string> { static string f(std::u16string const& s) { string o; for (size_t i = 0; i < s.size(); ++i) { uint32_t c = s[i]; if (c >= 0xD800 && c < 0xDC00 && i + 1 < s.size()) { c = 0x10000 + ((c - 0xD800) << 10 | (uint32_t(s[i+1]) - 0xDC00)); ++i; } o += utf8(c); } return "s" + hex(o); } };
    template <> struct D<std::u32string> { static string f(std::u32string const& s) { string o; for (auto c : s) o += utf8(c); return "s" + hex(o); } };
    template <> struct D<char*> { static string f(const char* s) { return s ? "?s" + hex(s, strlen(s)) : string("~"); } };
    template <> struct D<const char*> { static string f(const char* s) { return s ? "?s" + hex(s, strlen(s)) : string("~"); } };
    template <size_t N> struct D<char[N]> { static string f(const char (&s)[N]) { return "s" + hex(s, N); } };
    template <> struct D<E1> { static string f(E1 e) { switch (e) { case one: return "eone"; case two: return "etwo"; case three: return "eIII"; default: return "e?" + num(e); } } };
    template <typename T> struct D<T*, typename std::enable_if<!is_chr<typename std::remove_cv<T>::type>::value>::type> { static string f(T* p) { return p ? "?" + dump(*p) : string("~"); } };
    template <typename T, typename X> struct D<std::unique_ptr<T, X>> { static string f(std::unique_ptr<T, X> const& p) { return p ? "?" + dump(*p) : string("~"); } };
    template <typename T> struct D<std::shared_ptr<T>> { static string f(std::shared_ptr<T> const& p) { return p ? "?" + dump(*p) : string("~"); } };
    template <typename A> struct D<std::vector<bool, A>> { static string f(std::vector<bool, A> const& v) { string o = "["; for (size_t i = 0; i < v.size(); ++i) { if (i) o += ' '; o += v[i] ? "true" : "false"; } return o + "]"; } };
    template <typename T, typename A> struct D<std::vector<T, A>> { static string f(std::vector<T, A> const& v) { return seqs(v.begin(), v.end(), false, '[', ']'); } };
#   define VH_SEQ(C) template <typename T, typename A> struct D<C<T, A>> { static string f(C<T, A> const& v) { return seqs(v.begin(), v.end(), false, '[', ']'); } };
    VH_SEQ(std::deque) VH_SEQ(std::list) VH_SEQ(std::forward_list)
    template <typename T> struct D<std::valarray<T>> { static string f(std::valarray<T> const& v) { return seqs(std::begin(v), std::end(v), false, '[', ']'); } };
    template <typename T, size_t N> struct D<std::array<T, N>> { static string f(std::array<T, N> const& v) { return seqs(v.begin(), v.end(), false, '[', ']'); } };
    template <typename T, size_t N> struct D<T[N], typename std::enable_if<!std::is_same<T, char>::value>::type> { static string f(T const (&v)[N]) { return seqs(v, v + N, false, '[', ']'); } };
    template <typename T, typename C> struct D<std::queue<T, C>> { static string f(std::queue<T, C> q) { std::vector<T> v; while (!q.empty()) { v.push_back(q.front()); q.pop(); } return dump(v); } };
    template <typename T, typename C> struct D<std::stack<T, C>> { static string f(std::stack<T, C> q) { std::vector<T> v; while (!q.empty()) { v.push_back(q.top()); q.pop(); } std::reverse(v.begin(), v.end()); return dump(v); } };
    template <typename T, typename C, typename P> struct D<std::priority_queue<T, C, P>> { static string f(std::priority_queue<T, C, P> q) { std::vector<T> v; while (!q.empty()) { v.push_back(q.top()); q.pop(); } return seqs(v.begin(), v.end(), true, '[', ']'); } };
#   define VH_SET(C) template <typename ...T> struct D<C<T...>> { static string f(C<T...> const& v) { return seqs(v.begin(), v.end(), true, '[', ']'); } };
    VH_SET(std::set) VH_SET(std::multiset) VH_SET(std::unordered_set) VH_SET(std::unordered_multiset)
#   define VH_MAP(C) template <typename ...T> struct D<C<T...>> { static string f(C<T...> const& v) { return prs(v.begin(), v.end()); } };
    VH_MAP(std::map) VH_MAP(std::multimap) VH_MAP(std::unordered_map) VH_MAP(std::unordered_multimap)
    template <size_t N> struct D<std::bitset<N>> { static string f(std::bitset<N> const& b) { return "s" + hex(b.to_string()); } };
    template <typename A, typename B> struct D<std::pair<A, B>> { static string f(std::pair<A, B> const& p) { return "[" + dump(p.first) + " " + dump(p.second) + "]"; } };
    template <typename T> struct D<std::complex<T>> { static string f(std::complex<T> const& p) { return "[" + dump(p.real()) + " " + dump(p.imag()) + "]"; } };
    template <size_t I, size_t N> struct tupd { template <typename T> static void f(string& o, T const& t) { if (I) o += ' '; o += dump(std::get<I>(t)); tupd<I + 1, N>::f(o, t); } };
    template <size_t N> struct tupd<N, N> { template <typename T> static void f(string&, T const&) {} };
    template <typename ...T> struct D<std::tuple<T...>> { static string f(std::tuple<T...> const& t) { string o = "["; tupd<0, sizeof...(T)>::f(o, t); return o + "]"; } };
    template <typename R, typename P> struct D<std::chrono::duration<R, P>> { static string f(std::chrono::duration<R, P> const& d) { return dump(d.count()); } };
    template <typename C, typename U> struct D<std::chrono::time_point<C, U>> { static string f(std::chrono::time_point<C, U> const& d) { return dump(d.time_since_epoch()); } };
#   if __cplusplus >= 201703L
        template <typename T> struct D<std::optional<T>> { static string f(std::optional<T> const& p) { return p ? "?" + dump(*p) : string("~"); } };
        template <> struct D<std::monostate> { static string f(std::monostate) { return "~"; } };
        template <typename ...T> struct D<std::variant<T...>> { static string f(std::variant<T...> const& v) { return "v" + num((long)v.index()) + ":" + std::visit([](auto&& x) { return dump(x); }, v); } };
#   endif
#   if __cplusplus >= 202002L
        template <typename T, size_t N> struct D<std::span<T, N>> { static string f(std::span<T, N> const& v) { return seqs(v.begin(), v.end(), false, '[', ']'); } };
#   endif
#   ifdef VH_BOOST
        VH_SEQ(boost::container::deque) VH_SEQ(boost::container::list) VH_SEQ(boost::container::slist) VH_SEQ(boost::container::stable_vector) VH_SEQ(boost::container::vector)
        template <typename T, size_t N, typename A, typename O> struct D<boost::container::small_vector<T, N, A, O>> { static string f(boost::container::small_vector<T, N, A, O> const& v) { return seqs(v.begin(), v.end(), false, '[', ']'); } };
        template <typename T, size_t N, typename O> struct D<boost::container::static_vector<T, N, O>> { static string f(boost::container::static_vector<T, N, O> const& v) { return seqs(v.begin(), v.end(), false, '[', ']'); } };
        VH_SET(boost::container::set) VH_SET(boost::container::multiset) VH_SET(boost::container::flat_set) VH_SET(boost::container::flat_multiset)
        VH_MAP(boost::container::map) VH_MAP(boost::container::multimap) VH_MAP(boost::container::flat_map) VH_MAP(boost::container::flat_multimap)
        template <> struct D<boost::container::string> { static string f(boost::container::string const& s) { return "s" + hex(s.data(), s.size()); } };
        template <typename B, typename A> struct D<boost::dynamic_bitset<B, A>> { static string f(boost::dynamic_bitset<B, A> const& b) { string s; boost::to_string(b, s); return "s" + hex(s); } };
        template <> struct D<boost::variant2::monostate> { static string f(boost::variant2::monostate) { return "~"; } };
        struct bvis : boost::static_visitor<string> { template <typename T> string operator()(T const& t) const { return dump(t); } };
        template <typename ...T> struct D<boost::variant<T...>> { static string f(boost::variant<T...> const& v) { return "v" + num(v.which()) + ":" + boost::apply_visitor(bvis(), v); } };
        template <typename ...T> struct D<boost::variant2::variant<T...>> { static string f(boost::variant2::variant<T...> const& v) { return "v" + num((long)v.index()) + ":" + boost::variant2::visit(bvis(), v); } };
#   endif
    template <> struct D<C1> { static string f(C1 const& c) { return "(" + dump(c.a) + " " + dump(c.ab) + " skip " + dump(c.b) + ")"; } };
    template <> struct D<C2> { static string f(C2 const& c) { return "(" + dump(c.in) + " " + dump(c.li) + " " + dump(c.d) + " " + dump(c.f) + ")"; } };
    template <> struct D<C3> { static string f(C3 const& c) { return "(" + dump(c.a) + " " + dump(c.s) + " " + dump(c.m) + " " + dump(c.z) + ")"; } };
    template <> struct D<C4> { static string f(C4 const& c) { return "(skip " + dump(c.x) + " skip " + dump(c.y) + ")"; } };
    template <> struct D<C6> { static string f(C6 const& c) { return "(" + dump(c.a) + " " + dump(c.b) + ")"; } };
#ifndef VH_CBOR
    template <> struct D<C5> { static string f(C5 const&) { return "()"; } };
    template <> struct D<C9> { static string f(C9 const& c) { return "(" + dump(c.a) + " " + dump(c.s) + " skip " + dump(c.l) + " " + dump(c.m) + ")"; } };
#endif
    template <> struct D<C8> { static string f(C8 const& c) { return "(" + dump(c.a) + " " + dump(c.b) + ")"; } };
    template <> struct D<C7> { static string f(C7 const& c) { return "(" + dump(c.v) + " " + dump(c.kids) + ")"; } };

    // a target in its initial state
    template <typename T> struct box { T t; box() : t() {} T& get() { return t; } };
    template <typename T, size_t N> struct box<T[N]> { T t[N]; box() { for (auto& x : t) x = T(); } T (&get())[N] { return t; } };
#   if __cplusplus >= 202002L
        template <typename T, size_t N> struct box<std::span<T, N>> { std::vector<T> v; std::span<T, N> t; box() : v(N), t(v.data(), N) {} std::span<T, N>& get() { return t; } };
        // a dynamic span over four elements
        template <typename T> struct box<std::span<T, std::dynamic_extent>> { std::vector<T> v; std::span<T> t; box() : v(4), t(v) {} std::span<T>& get() { return t; } };
#   endif
}
#endif
