// Dynamic values as values: histories of operations (H), pairwise comparison (K), comparison with C++ values (L).
// VH_CBOR: cbor nodes; VH_ORD: order-preserving; VH_AL: 0 std::allocator, 1.. bits of tracking allocator (1 + move*2 + copy*4 + swap*8), 99 pmr; VH_DYN: which alternatives are kept in the heap
#ifndef VH_AL
#   define VH_AL 0
#endif
#ifndef VH_DYN
#   define VH_DYN 0
#endif
#include <cstdlib>
#include <new>
#include <map>
#include <unordered_map>
#include "cxon/json.hxx"
#include "cxon/cbor.hxx"
#include "cxon/lib/node.ordered.hxx"
#if VH_AL == 99
#   include <memory_resource>
#endif
#include "vh.hpp"

// ---- every block of memory is accounted for
static long long live_new = 0;
void* operator new(std::size_t n) { void* p = std::malloc(n ? n : 1); if (!p) throw std::bad_alloc(); ++live_new; return p; }
void operator delete(void* p) noexcept { if (p) --live_new, std::free(p); }
void operator delete(void* p, std::size_t) noexcept { if (p) --live_new, std::free(p); }

struct block { size_t n; int id; };
struct heap {
    std::map<void*, block, std::less<void*>> m; bool bad = false;
    static heap& g() { static heap h; return h; }
    void* get(size_t n, int id) { void* p = std::malloc(n ? n : 1); m[p] = block{n, id}; return p; }
    void put(void* p, size_t n, int id) { auto i = m.find(p); if (i == m.end() || i->second.n != n || i->second.id != id) bad = true; if (i != m.end()) m.erase(i); std::free(p); }
};

template <typename T>
struct talloc {
    static constexpr int F = VH_AL;
    using value_type = T;
    using propagate_on_container_move_assignment = std::integral_constant<bool, (F & 2) != 0>;
    using propagate_on_container_copy_assignment = std::integral_constant<bool, (F & 4) != 0>;
    using propagate_on_container_swap = std::integral_constant<bool, (F & 8) != 0>;
    using is_always_equal = std::false_type;
    int id;
    talloc(int i = 0) noexcept : id(i) {}
    template <typename U> talloc(talloc<U> const& o) noexcept : id(o.id) {}
    T* allocate(size_t n) { return (T*)heap::g().get(n * sizeof(T), id); }
    void deallocate(T* p, size_t n) noexcept { heap::g().put(p, n * sizeof(T), id); }
    template <typename U> bool operator ==(talloc<U> const& o) const noexcept { return id == o.id; }
    template <typename U> bool operator !=(talloc<U> const& o) const noexcept { return id != o.id; }
};
#if VH_AL == 0
    template <typename T> using AL = std::allocator<T>;
    template <typename N> typename N::allocator_type al(int) { return typename N::allocator_type(); }
#elif VH_AL == 99
    struct tres : std::pmr::memory_resource {
        int id; tres(int i) : id(i) {}
        void* do_allocate(size_t n, size_t) override { return heap::g().get(n, id); }
        void do_deallocate(void* p, size_t n, size_t) override { heap::g().put(p, n, id); }
        bool do_is_equal(const std::pmr::memory_resource& o) const noexcept override { return this == &o; }
    };
    static tres R[4] = {tres(0), tres(1), tres(2), tres(3)};
    template <typename T> using AL = std::pmr::polymorphic_allocator<T>;
    template <typename N> typename N::allocator_type al(int i) { return typename N::allocator_type(&R[i]); }
#else
    template <typename T> using AL = talloc<T>;
    template <typename N> typename N::allocator_type al(int i) { return typename N::allocator_type(i); }
#endif

#ifdef VH_CBOR
    namespace X = cxon::cbor;
#   define OBJ map
#   define STR text
#else
    namespace X = cxon::json;
#   define OBJ object
#   define STR string
#endif
#ifdef VH_ORD
    using base_traits = X::ordered_node_traits<AL<char>>;
#else
    using base_traits = X::node_traits<AL<char>>;
#endif
struct traits : base_traits {
    using K = X::node_kind;
#   if VH_DYN == 1
        using dynamic_types = cxon::scalar_sequence<K, K::OBJ, K::array, K::STR, K::real
#       ifdef VH_CBOR
            , K::tag
#       endif
        >;
#   elif VH_DYN == 2
        using dynamic_types = cxon::scalar_sequence<K, K::OBJ
#       ifdef VH_CBOR
            , K::tag
#       endif
        >;
#   endif
};
using node = X::basic_node<traits>;
using obj_t = node::OBJ; using arr_t = node::array; using str_t = node::STR;
using vh::string;

struct bad : std::runtime_error { using std::runtime_error::runtime_error; };

// ---- notation
static double dbits(string const& h) { uint64_t u = strtoull(h.c_str(), 0, 16); double d; memcpy(&d, &u, 8); return d; }
static string upto(const char*& c) { string r; while (*c && *c != ';') r += *c++; if (*c) ++c; return r; }
static str_t mkstr(string const& s, node::allocator_type const& a) { return str_t(s.begin(), s.end(), typename str_t::allocator_type(a)); }
static void mkent(obj_t& o, node&& k, node&& v) {
#   ifdef VH_ORD
        o.push_back(typename obj_t::value_type(std::move(k), std::move(v)));
#   else
        o.emplace(std::move(k), std::move(v));
#   endif
}
static node mk(const char*& c, node::allocator_type const& a) {
    switch (*c++) {
        case 'n': ++c; return node(nullptr, a);
        case 'b': return node(bool(upto(c) == "1"), a);
        case 'u': { node::uint v = strtoull(upto(c).c_str(), 0, 10); return node(v, a); }
        case 'i': { node::sint v = strtoll(upto(c).c_str(), 0, 10); return node(v, a); }
        case 'r': { node::real v = dbits(upto(c)); return node(v, a); }
        case 's': return node(mkstr(vh::unhex(upto(c)), a), a);
        case '[': { node n(a); arr_t& v = n.imbue<arr_t>(); while (*c != ']') v.push_back(mk(c, a)); ++c; return n; }
        case '{': { node n(a); obj_t& v = n.imbue<obj_t>(); while (*c != '}') { node k = mk(c, a); node e = mk(c, a); mkent(v, std::move(k), std::move(e)); } ++c; return n; }
#ifdef VH_CBOR
        case 'U': ++c; return node(node::undefined(), a);
        case 'y': { string s = vh::unhex(upto(c)); return node(node::bytes(s.begin(), s.end(), typename node::bytes::allocator_type(a)), a); }
        case 'p': { node::simple v((unsigned char)atoi(upto(c).c_str())); return node(v, a); }
        case 't': { node::uint g = strtoull(upto(c).c_str(), 0, 10); node v = mk(c, a); return node(node::tag(g, std::move(v)), a); }
#endif
    }
    throw bad("notation");
}
static node mk(string const& s, int id = 0) { const char* c = s.c_str(); return mk(c, al<node>(id)); }

template <typename T> static int one(node& n, string& r) {
    const node& k = n;
    bool is = n.is<T>();
    if (X::is<T>(k) != is || (n.get_if<T>() != nullptr) != is || (k.get_if<T>() != nullptr) != is || (X::get_if<T>(k) != nullptr) != is) r += '!';
    if (is && (&n.get<T>() != n.get_if<T>() || &k.get<T>() != k.get_if<T>() || (const T*)&X::get<T>(n) != k.get_if<T>() || &n.imbue<T>() != n.get_if<T>())) r += '!';
    return is;
}
static void dump(node& n, string& r) {
    int c = one<obj_t>(n, r) + one<arr_t>(n, r) + one<str_t>(n, r) + one<node::real>(n, r) + one<node::sint>(n, r) + one<node::uint>(n, r) + one<node::boolean>(n, r) + one<node::null>(n, r);
#ifdef VH_CBOR
    c += one<node::tag>(n, r) + one<node::bytes>(n, r) + one<node::simple>(n, r) + one<node::undefined>(n, r);
#endif
    if (c != 1) r += "!?";
    switch (n.kind()) {
        case X::node_kind::OBJ: { r += '{'; for (auto& e : n.get<obj_t>()) { dump(const_cast<node&>(e.first), r); dump(e.second, r); } r += '}'; break; }
        case X::node_kind::array: { r += '['; for (auto& e : n.get<arr_t>()) dump(e, r); r += ']'; break; }
        case X::node_kind::STR: { auto& s = n.get<str_t>(); r += "s" + vh::hex(s.data(), s.size()) + ";"; break; }
        case X::node_kind::real: r += "r" + vh::dhex(n.get<node::real>()) + ";"; break;
        case X::node_kind::sint: r += "i" + vh::num(n.get<node::sint>()) + ";"; break;
        case X::node_kind::uint: r += "u" + vh::unum(n.get<node::uint>()) + ";"; break;
        case X::node_kind::boolean: r += n.get<node::boolean>() ? "b1;" : "b0;"; break;
        case X::node_kind::null: r += "n;"; break;
#ifdef VH_CBOR
        case X::node_kind::tag: { auto& t = n.get<node::tag>(); r += "t" + vh::unum(t.tag) + ";"; dump(t.value, r); break; }
        case X::node_kind::bytes: { auto& s = n.get<node::bytes>(); r += "y" + vh::hex(s.data(), s.size()) + ";"; break; }
        case X::node_kind::simple: r += "p" + vh::num((unsigned char)n.get<node::simple>()) + ";"; break;
        case X::node_kind::undefined: r += "U;"; break;
#endif
    }
}

// ---- histories
static node& at(std::vector<node*>& g, string const& p) {
    const char* c = p.c_str(); node* n = g.at(strtoul(c, (char**)&c, 10));
    while (*c == '.') {
        size_t i = strtoul(c + 1, (char**)&c, 10);
        if (n->is<arr_t>()) n = &n->get<arr_t>().at(i - 1);
        else if (n->is<obj_t>()) { auto& o = n->get<obj_t>(); if (i - 1 >= o.size()) throw bad("path"); n = &std::next(o.begin(), (long)i - 1)->second; }
#ifdef VH_CBOR
        else if (n->is<node::tag>()) n = &n->get<node::tag>().value;
#endif
        else throw bad("path");
    }
    return *n;
}
#ifdef VH_CBOR
#   define KINDS(M) M(obj_t, '{') M(arr_t, '[') M(str_t, 's') M(node::real, 'r') M(node::sint, 'i') M(node::uint, 'u') M(node::boolean, 'b') M(node::null, 'n') M(node::tag, 't') M(node::bytes, 'y') M(node::simple, 'p') M(node::undefined, 'U')
#else
#   define KINDS(M) M(obj_t, '{') M(arr_t, '[') M(str_t, 's') M(node::real, 'r') M(node::sint, 'i') M(node::uint, 'u') M(node::boolean, 'b') M(node::null, 'n')
#endif
static void init(node& p, node& v) {
    using il = std::initializer_list<node>;
    std::vector<node> e;
    if (v.is<arr_t>()) for (auto& x : v.get<arr_t>()) e.push_back(x);
    else for (auto& x : v.get<obj_t>()) { node a; a.imbue<arr_t>().push_back(x.first); a.get<arr_t>().push_back(x.second); e.push_back(a); }
    switch (e.size()) {
        case 0: p = il{}; break;
        case 1: p = il{e[0]}; break;
        case 2: p = il{e[0], e[1]}; break;
        case 3: p = il{e[0], e[1], e[2]}; break;
        default: throw bad("init");
    }
}
static void step(std::vector<node*>& g, std::vector<string> const& o) {
    string const& k = o[0]; node& p = at(g, o[1]);
    auto arg = [&]() -> node& { return at(g, o[2]); };
    if (k == "set" || k == "stm" || k == "ctr" || k == "ini") {
        node v = mk(o[2], 3);
        if (k == "ini") init(p, v);
#       define M(T, c) else if (v.is<T>()) { if (k == "set") { const T& x = v.get<T>(); p = x; } else if (k == "stm") p = std::move(v.get<T>()); else { const T& x = v.get<T>(); node t(x); p = t; } }
            KINDS(M)
#       undef M
    }
    else if (k == "imb") { switch (o[2][0]) {
#       define M(T, c) case c: p.imbue<T>(); break;
            KINDS(M)
#       undef M
    } }
    else if (k == "rst") p.reset();
    else if (k == "cpy") { const node& q = arg(); p = q; }
    else if (k == "mov") { node& q = arg(); p = std::move(q); }
    else if (k == "swp") { node& q = arg(); if (p.get_allocator() == q.get_allocator() || p.kind() != q.kind()) p.swap(q); else { node t(std::move(p)); p = std::move(q); q = std::move(t); } }
    else if (k == "cct") { const node& q = arg(); node t(q); p = std::move(t); }
    else if (k == "mct") { node t(std::move(arg())); p = std::move(t); }
    else if (k == "cca") { const node& q = arg(); node t(q, al<node>(3)); p = std::move(t); }
    else if (k == "mca") { node t(std::move(arg()), al<node>(3)); p = t; }
    else if (k == "val") { const node& q = arg();
#       define M(T, c) if (q.is<T>()) { p = q.get<T>(); return; }
            KINDS(M)
#       undef M
    }
    else if (k == "vmv") { node& q = arg();
#       define M(T, c) if (q.is<T>()) { p = std::move(q.get<T>()); return; }
            KINDS(M)
#       undef M
    }
    else if (k == "cst") { const node& q = arg(); p = q.get<str_t>().c_str(); }
    else if (k == "psh") { const node& q = arg(); p.get<arr_t>().push_back(q); }
    else if (k == "psm") { node& q = arg(); p.get<arr_t>().push_back(std::move(q)); }
    else if (k == "wrp") { const node& q = arg(); p = arr_t{q}; }
    else if (k == "pop") p.get<arr_t>().pop_back();
    else if (k == "key") { const node& q = at(g, o[3]); node key = mk("s" + o[2] + ";", 3);
#       ifdef VH_ORD
            auto& m = p.get<obj_t>(); bool had = false;
            for (auto& e : m) if (!had && e.first == key) had = true, e.second = q;
            if (!had) { node c(q); m.push_back(typename obj_t::value_type(std::move(key), std::move(c))); }
#       else
            p.get<obj_t>()[key] = q;
#       endif
    }
    else if (k == "era") { auto& m = p.get<obj_t>(); m.erase(m.begin()); }
#ifdef VH_CBOR
    else if (k == "tag") { const node& q = arg(); p = node::tag(5, q); }
#endif
    else throw bad("op " + k);
}
static std::vector<string> split(string const& s, char c) { std::vector<string> r(1); for (char x : s) { if (x == c) r.emplace_back(); else r.back() += x; } return r; }

static string OP_H(vh::args const& a) {
    string r;
    auto ini = split(a[0], '|'); auto ops = a.size() > 1 && a[1] != "-" ? split(a[1], ',') : std::vector<string>();
    std::vector<std::vector<string>> os; for (auto& o : ops) os.push_back(split(o, ' '));
    heap::g().bad = false; size_t h0 = heap::g().m.size();
    r.reserve(1 << 16); long long n0 = live_new;
    {
        std::vector<node*> g; 
        for (size_t i = 0; i < ini.size(); ++i) g.push_back(new node(mk(ini[i], 1 + (int)i % 2), al<node>(1 + (int)i % 2)));
        try { for (auto& o : os) step(g, o); }
        catch (bad& e) { r = string("BAD ") + e.what(); }
        if (r.empty()) {
            for (size_t i = 0; i < g.size(); ++i) { if (i) r += '|'; dump(*g[i], r); }
            // equality sees the same values, and copies are equal to what they were copied from
            for (size_t i = 0; i < g.size(); ++i) {
                node c(*g[i]); string x, y; dump(c, x); dump(*g[i], y);
                if (x != y) r += "|COPY";
                for (size_t j = 0; j < g.size(); ++j) r += (j ? "" : "|"), r += (*g[i] == *g[j]) ? '=' : '#', r += (*g[i] != *g[j]) == !(*g[i] == *g[j]) ? "" : "!";
            }
        }
        for (auto p : g) delete p;
    }
    long long n1 = live_new;
    if (heap::g().m.size() != h0) r += "|LEAK", heap::g().m.clear();
    else if (VH_AL == 0 && n1 != n0) r += "|LEAK";
    if (heap::g().bad) r += "|BADFREE";
    return r;
}
static string OP_K(vh::args const& a) { // all pairs: '=' equal, '<' less, '.' neither; upper rows follow; then hash classes
    std::vector<node> v; for (auto& s : split(a[0], '|')) v.push_back(mk(s));
    string r;
    for (auto& x : v) {
        for (auto& y : v) {
            bool e = x == y, n = x != y, l = x < y;
            r += e == n ? '!' : e && l ? '?' : e ? '=' : l ? '<' : '.';
        }
        r += ' ';
    }
    r += "|";
    std::map<size_t, int> cls;
    for (auto& x : v) { size_t h = std::hash<node>()(x); node c(x); if (std::hash<node>()(c) != h || cxon::hash<node>()(c) != cxon::hash<node>()(x)) r += "!"; r += vh::num(cls.emplace(h, (int)cls.size()).first->second) + " "; }
    return r;
}
template <typename T> static void lit(string& r, const node& n, T v) {
    bool a = n == v, b = v == n, c = n != v, d = v != n;
    r += (a == b && c == d && a != c) ? (a ? '1' : '0') : '!';
}
static string OP_L(vh::args const& a) { // node compared with C++ values given by the second notation
    node n = mk(a[0]); node w = mk(a[1]); string r;
    const node& k = n;
#   define M(T, c) if (w.is<T>()) lit<T>(r, k, w.get<T>());
        M(obj_t, 0) M(arr_t, 0) M(str_t, 0) M(node::real, 0) M(node::sint, 0) M(node::uint, 0) M(node::boolean, 0) M(node::null, 0)
#       ifdef VH_CBOR
            M(node::tag, 0) M(node::bytes, 0) M(node::simple, 0) M(node::undefined, 0)
#       endif
#   undef M
    if (w.is<node::sint>()) { long long v = w.get<node::sint>(); if (v == (int)v) lit<int>(r, k, (int)v); if (v == (short)v) lit<short>(r, k, (short)v); if (v == (signed char)v) lit<signed char>(r, k, (signed char)v); lit<long>(r, k, (long)v); }
    if (w.is<node::uint>()) { unsigned long long v = w.get<node::uint>(); if (v == (unsigned)v) lit<unsigned>(r, k, (unsigned)v); if (v == (unsigned short)v) lit<unsigned short>(r, k, (unsigned short)v); if (v < 128) lit<unsigned char>(r, k, (unsigned char)v); lit<unsigned long>(r, k, (unsigned long)v); }
    if (w.is<node::real>()) { double v = w.get<node::real>(); if (v == (double)(float)v) lit<float>(r, k, (float)v); }
    if (w.is<str_t>()) { string s(w.get<str_t>().begin(), w.get<str_t>().end()); if (s.find('\0') == string::npos) lit<const char*>(r, k, s.c_str()); }
    return r;
}
static string OP_B(vh::args const& a) { // built from a C++ value of another type: the value and its comparison with what it was built from
    string r; string const& t = a[0]; long long v = atoll(a[1].c_str());
#   define M(N, T) if (t == N) { T x = (T)v; node n(x); node m; m = x; dump(n, r); r += ' '; dump(m, r); r += ' '; lit<T>(r, n, x); }
        M("int", int) M("short", short) M("schar", signed char) M("char", char) M("uchar", unsigned char) M("long", long) M("ushort", unsigned short) M("unsigned", unsigned) M("ulong", unsigned long) M("char16", char16_t) M("char32", char32_t) M("wchar", wchar_t) M("bool", bool)
#   undef M
    return r;
}

static vh::reg _1("H", OP_H), _2("K", OP_K), _3("L", OP_L), _4("B", OP_B);
VH_MAIN
