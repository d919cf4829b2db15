// Storage of pointer targets: every call gets an allocator that keeps a ledger; the target is walked when the call ends
#include "jfmt.hpp"
#include "cxon/cbor.hxx"
#include "cxon/lib/std/string.hxx"
#include "cxon/lib/std/vector.hxx"
#include "cxon/lib/std/deque.hxx"
#include "cxon/lib/std/list.hxx"
#include "cxon/lib/std/map.hxx"
#include "cxon/lib/std/array.hxx"
#include "cxon/lib/std/tuple.hxx"
#include "cxon/lib/std/utility.hxx"
#include "cxon/lib/std/memory.hxx"
#if __cplusplus >= 201703L
#   include "cxon/lib/std/optional.hxx"
#endif
#include <set>
using namespace vh;

// ---------------------------------------------------------------- the ledger
struct ledger {
    struct block { int id; size_t size, n; bool live; int type; };
    std::map<const void*, std::vector<block>> at;
    std::vector<std::pair<const void*, std::vector<block>*>> order;
    std::vector<void*> limbo;           // storage given back is kept until the history ends: no address comes back
    string ev; int last; size_t calls, fail;
    static ledger& g() { static ledger l; return l; }
    void clear() {
        for (auto& a : at) for (auto& b : a.second) if (b.live) ::free((void*)a.first);
        for (auto p : limbo) ::free(p);
        at.clear(); limbo.clear(); ev.clear(); last = 0; calls = 0; fail = 0;
    }
    void say(string const& s) { if (!ev.empty()) ev += ' '; ev += s; }
    static string bl(block const& b) { return num(b.id) + "." + num((long long)b.size) + "." + num((long long)b.n); }
    void* take(size_t size, size_t n, int arena, int type) {
        if (++calls == fail) throw std::bad_alloc();
        void* p = ::malloc(size * n ? size * n : 1);
        memset(p, 0xCD, size * n);
        block b = { ++last, size, n, true, type };
        at[p].push_back(b);
        say((arena == 1 ? "A" : "X") + bl(b));
        return p;
    }
    void give(void* p, size_t size, size_t n, int arena, int type) {
        auto a = at.find(p);
        block b = { 0, size, n, false, type };
        if (a == at.end()) { say("X" + bl(b)); return; }
        block& o = a->second.back();
        b.id = o.id;
        say((arena == 1 && o.live && o.type == type ? "F" : "X") + bl(b));
        if (o.live) { o.live = false; memset(p, 0xDD, o.size * o.n); limbo.push_back(p); }
    }
    block* find(const void* p) { auto a = at.find(p); return a == at.end() ? nullptr : &a->second.back(); }
};
template <typename T> static int type_of() { static char c; static std::map<const void*, int> m; auto r = m.insert(std::make_pair((const void*)&c, (int)m.size() + 1)); (void)r; return (int)(reinterpret_cast<std::uintptr_t>(&c) & 0x7fffffff); }
template <typename T>
    struct al {
        using value_type = T;
        int arena;
        explicit al(int a) : arena(a) {}
        al() : arena(9) {}              // made up, not given to the call
        template <typename U> al(al<U> const& o) : arena(o.arena) {}
        T* allocate(size_t n) { return (T*)ledger::g().take(sizeof(T), n, arena, type_of<T>()); }
        void deallocate(T* p, size_t n) { ledger::g().give(p, sizeof(T), n, arena, type_of<T>()); }
        friend bool operator ==(al const& a, al const& b) { return a.arena == b.arena; }
        friend bool operator !=(al const& a, al const& b) { return !(a == b); }
    };
template <typename T> struct del { void operator()(T* p) const { p->~T(); al<T>(1).deallocate(p, 1); } };
template <> struct del<int> { void operator()(int* p) const { al<int>(1).deallocate(p, 1); } };

// ---------------------------------------------------------------- what is read
struct P2 { int* a; char* b; P2() : a(), b() {} };
struct P3 { std::shared_ptr<int> a; std::unique_ptr<std::vector<int>, del<std::vector<int>>> b; };
struct P4 { int a, b; };
CXON_JSON_CLS(P2, CXON_JSON_CLS_FIELD_ASIS(a), CXON_JSON_CLS_FIELD_ASIS(b))
CXON_CBOR_CLS(P2, CXON_CBOR_CLS_FIELD_ASIS(a), CXON_CBOR_CLS_FIELD_ASIS(b))
CXON_JSON_CLS(P3, CXON_JSON_CLS_FIELD_ASIS(a), CXON_JSON_CLS_FIELD_ASIS(b))
CXON_CBOR_CLS(P3, CXON_CBOR_CLS_FIELD_ASIS(a), CXON_CBOR_CLS_FIELD_ASIS(b))
CXON_JSON_CLS(P4, CXON_JSON_CLS_FIELD_ASIS(a), CXON_JSON_CLS_FIELD_ASIS(b))
CXON_CBOR_CLS(P4, CXON_CBOR_CLS_FIELD_ASIS(a), CXON_CBOR_CLS_FIELD_ASIS(b))

// what pointers point to before: nobody's to write or free
template <typename T> struct before { static T& get() { static T t = T(); return t; } };

// ---------------------------------------------------------------- the walk
struct walker { string own; string raw; bool bad; };
static void holds(walker& w, const void* p, size_t size, bool raw, ledger::block*& b) {
    b = ledger::g().find(p);
    if (!w.own.empty()) w.own += '+';
    if (!b) { w.own += "0." + num((long long)size); return; }
    w.own += num(b->id) + "." + num((long long)size);
    if (raw) { if (!w.raw.empty()) w.raw += '+'; w.raw += num(b->id); }
    if (!b->live) b = nullptr;
}
template <typename T> struct leaf : std::integral_constant<bool, std::is_same<T, char>::value || std::is_same<T, wchar_t>::value || std::is_same<T, char16_t>::value || std::is_same<T, char32_t>::value
#if defined(__cpp_char8_t)
    || std::is_same<T, char8_t>::value
#endif
> {};
static void set(int& i) { i = 0x5A5A; } static void set(P4&) {} static void set(string&) {} static void set(double& d) { d = 1.5; }
static void walk(walker&, int const&, bool) {} static void walk(walker&, double const&, bool) {} static void walk(walker&, P4 const&, bool) {} static void walk(walker&, string const&, bool) {}
template <typename T> void set(T*& p); template <typename T> void walk(walker&, T* const& p, bool raw);
template <typename T> void set(std::vector<T>&) {} template <typename T> void walk(walker& w, std::vector<T> const& c, bool raw);
template <typename T> void set(std::deque<T>&) {} template <typename T> void walk(walker& w, std::deque<T> const& c, bool raw);
template <typename T> void set(std::list<T>&) {} template <typename T> void walk(walker& w, std::list<T> const& c, bool raw);
template <typename K, typename T> void set(std::map<K, T>&) {} template <typename K, typename T> void walk(walker& w, std::map<K, T> const& c, bool raw);
template <typename T, size_t N> void set(T (&a)[N]); template <typename T, size_t N> void walk(walker& w, T const (&a)[N], bool raw);
template <typename T, size_t N> void set(std::array<T, N>& a); template <typename T, size_t N> void walk(walker& w, std::array<T, N> const& a, bool raw);
template <typename A, typename B> void set(std::pair<A, B>& p); template <typename A, typename B> void walk(walker& w, std::pair<A, B> const& p, bool raw);
template <typename A, typename B> void set(std::tuple<A, B>& p); template <typename A, typename B> void walk(walker& w, std::tuple<A, B> const& p, bool raw);
template <typename T, typename D> void set(std::unique_ptr<T, D>&) {} template <typename T, typename D> void walk(walker& w, std::unique_ptr<T, D> const& p, bool raw);
template <typename T> void set(std::shared_ptr<T>&) {} template <typename T> void walk(walker& w, std::shared_ptr<T> const& p, bool raw);
static void set(P2& p); static void walk(walker& w, P2 const& p, bool raw); static void set(P3&) {} static void walk(walker& w, P3 const& p, bool raw);
#if __cplusplus >= 201703L
    template <typename T> void set(std::optional<T>&) {} template <typename T> void walk(walker& w, std::optional<T> const& o, bool raw) { if (o) walk(w, *o, raw); }
#endif
template <typename T> typename std::enable_if<!leaf<T>::value>::type inside(walker& w, T const& t, bool raw) { walk(w, t, raw); }
template <typename T> typename std::enable_if< leaf<T>::value>::type inside(walker&, T const&, bool) {}
template <typename T> void set(T*& p) { p = &before<typename std::remove_const<T>::type>::get(); }
template <typename T> void walk(walker& w, T* const& p, bool raw) {
    if (!p || p == &before<typename std::remove_const<T>::type>::get()) return;
    ledger::block* b; holds(w, p, sizeof(T), raw, b);
    if (b) inside(w, *p, raw);
}
template <typename T> void walk(walker& w, std::vector<T> const& c, bool raw) { for (auto& e : c) walk(w, e, raw); }
template <typename T> void walk(walker& w, std::deque<T> const& c, bool raw) { for (auto& e : c) walk(w, e, raw); }
template <typename T> void walk(walker& w, std::list<T> const& c, bool raw) { for (auto& e : c) walk(w, e, raw); }
template <typename K, typename T> void walk(walker& w, std::map<K, T> const& c, bool raw) { for (auto& e : c) walk(w, e.second, raw); }
template <typename T, size_t N> void set(T (&a)[N]) { for (auto& e : a) set(e); }
template <typename T, size_t N> void walk(walker& w, T const (&a)[N], bool raw) { for (auto& e : a) walk(w, e, raw); }
template <typename T, size_t N> void set(std::array<T, N>& a) { for (auto& e : a) set(e); }
template <typename T, size_t N> void walk(walker& w, std::array<T, N> const& a, bool raw) { for (auto& e : a) walk(w, e, raw); }
template <typename A, typename B> void set(std::pair<A, B>& p) { set(p.first); set(p.second); }
template <typename A, typename B> void walk(walker& w, std::pair<A, B> const& p, bool raw) { walk(w, p.first, raw); walk(w, p.second, raw); }
template <typename A, typename B> void set(std::tuple<A, B>& p) { set(std::get<0>(p)); set(std::get<1>(p)); }
template <typename A, typename B> void walk(walker& w, std::tuple<A, B> const& p, bool raw) { walk(w, std::get<0>(p), raw); walk(w, std::get<1>(p), raw); }
template <typename T, typename D> void walk(walker& w, std::unique_ptr<T, D> const& p, bool raw) { if (p) { ledger::block* b; holds(w, p.get(), sizeof(T), raw, b); if (b) inside(w, *p, raw); } }
template <typename T> void walk(walker& w, std::shared_ptr<T> const& p, bool raw) { if (p) { ledger::block* b; holds(w, p.get(), sizeof(T), raw, b); if (b) inside(w, *p, raw); } }
static void set(P2& p) { set(p.a); set(p.b); }
static void walk(walker& w, P2 const& p, bool raw) { walk(w, p.a, raw); walk(w, p.b, raw); }
static void walk(walker& w, P3 const& p, bool raw) { walk(w, p.a, raw); walk(w, p.b, raw); }
// whether what a plain pointer holds stays: a smart one lets go
template <typename T> struct plain : std::true_type {};

// ---------------------------------------------------------------- one history
template <typename T> struct is_smart : std::false_type {};
template <typename T, typename D> struct is_smart<std::unique_ptr<T, D>> : std::true_type {};
template <typename T> struct is_smart<std::shared_ptr<T>> : std::true_type {};
template <typename T> struct is_smart<std::vector<T>> : is_smart<T> {};
template <typename K, typename T> struct is_smart<std::map<K, T>> : is_smart<T> {};
template <typename A, typename B> struct is_smart<std::pair<A, B>> : is_smart<A> {};
template <> struct is_smart<P3> : std::true_type {};

// input that fails by throwing when a byte is reached
struct boom {};
struct thrower {
    using iterator_category = std::forward_iterator_tag; using value_type = char; using difference_type = std::ptrdiff_t; using pointer = const char*; using reference = const char&;
    const char* p; const char* at;
    thrower(const char* p_ = nullptr, const char* a = nullptr) : p(p_), at(a) {}
    reference operator *() const { if (p == at) throw boom(); return *p; }
    thrower& operator ++() { ++p; return *this; }
    thrower operator ++(int) { thrower o = *this; ++p; return o; }
    bool operator ==(thrower const& o) const { return p == o.p; }
    bool operator !=(thrower const& o) const { return p != o.p; }
};

template <typename X, typename T, typename I>
    string history(I b, I e, size_t fail) {
        auto& l = ledger::g(); l.clear(); l.fail = fail;
        string why;
        {
            T t = T(); set(t);
            int const mark = before<int>::get() = 0x5A5A;
            try {
                auto r = cxon::from_bytes<X>(t, b, e, cxon::json::allocator::set(al<char>(1)));
                why = r ? "read" : "refused";
            }
            catch (std::bad_alloc const&) { why = "bad_alloc"; }
            catch (boom const&) { why = "boom"; }
            l.fail = 0;
            if (before<int>::get() != mark) l.say("Xtouched");
            walker w = { "", "", false };
            walk(w, t, !is_smart<T>::value);
            l.say("E" + w.own);
            why += ' ';
            string raw = w.raw;
            struct later { string raw; ~later() { ledger::g().say("Z" + raw); } };
            (void)sizeof(later);
            why += raw.empty() ? "-" : raw;
        }
        auto s = why.find(' ');
        l.say("Z" + (why.substr(s + 1) == "-" ? string() : why.substr(s + 1)));
        string r = why.substr(0, s) + " " + l.ev;
        l.clear();
        return r;
    }

// N type doc -> history of the call; X type doc -> the different histories of all failing calls
template <typename X, typename T> static string normal(args const& a) {
    string d = unhex(a[1]);
    group g;
    exact<char> x(d); const char* b = x.p;
    g.add("ptr", history<X, T>(b, b + x.n, 0));
    { using it = in_it<char>; it::src q = { x.p, x.n, 0 }; it e; e.s = &q; e.at = x.n; g.add("in", history<X, T>(it(&q), e, 0)); }
    { std::list<char> q(d.begin(), d.end()); g.add("list", history<X, T>(q.cbegin(), q.cend(), 0)); }
    return g.str();
}
template <typename X, typename T> static string faults_(args const& a) {
    string d = unhex(a[1]);
    std::vector<string> seen; string o;
    auto add = [&](string const& r, string const& how) {
        if (std::find(seen.begin(), seen.end(), r) == seen.end()) { seen.push_back(r); o += (o.empty() ? "" : ";") + r + "@" + how; }
    };
    static const unsigned char bad[] = { '!', 0xFF, 0x1C, '"', ']', '}', 0xF6, 0x81, 'n', '\\', 0x00, 0x5F };
    for (size_t n = 0; n < d.size(); ++n) {
        string s = d.substr(0, n);
        { exact<char> x(s); add(history<X, T>((const char*)x.p, (const char*)x.p + x.n, 0), "cut" + num((long long)n)); }
        { std::list<char> q(s.begin(), s.end()); add(history<X, T>(q.cbegin(), q.cend(), 0), "list" + num((long long)n)); }
        for (auto c : bad) { string z = d; z[n] = (char)c; exact<char> x(z); add(history<X, T>((const char*)x.p, (const char*)x.p + x.n, 0), "byte" + num((long long)n) + "=" + num(c)); }
        add(history<X, T>(thrower(d.data(), d.data() + n), thrower(d.data() + d.size()), 0), "throw" + num((long long)n));
    }
    for (size_t k = 1; k < 100; ++k) {
        exact<char> x(d);
        string r = history<X, T>((const char*)x.p, (const char*)x.p + x.n, k);
        if (r.compare(0, 9, "bad_alloc") != 0) break;
        add(r, "alloc" + num((long long)k));
    }
    return o;
}
using JX = cxon::JSON<>; using CX = cxon::CBOR<>;
using fn = string (*)(args const&);
struct entry { fn j, c, fj, fc; };
template <typename T> entry of() { return { normal<JX, T>, normal<CX, T>, faults_<JX, T>, faults_<CX, T> }; }
static std::map<string, entry>& table() {
    static std::map<string, entry> m;
    if (m.empty()) {
#       define TYPE(N, ...) m[N] = of<__VA_ARGS__>();
#       if !defined(VH_CHUNK) || VH_CHUNK == 0
        TYPE("int*", int*) TYPE("int**", int**) TYPE("int***", int***) TYPE("const int*", const int*) TYPE("const int* const*", const int* const*)
        TYPE("string*", string*) TYPE("vector<int>*", std::vector<int>*) TYPE("vector<int>**", std::vector<int>**) TYPE("class*", P4*)
        TYPE("char*", char*) TYPE("const char*", const char*) TYPE("char16_t*", char16_t*) TYPE("char32_t*", char32_t*) TYPE("wchar_t*", wchar_t*) TYPE("const char32_t*", const char32_t*)
#       if defined(__cpp_char8_t)
            TYPE("char8_t*", char8_t*)
#       endif
        TYPE("char**", char**) TYPE("char16_t***", char16_t***) TYPE("const char**", const char**)
#       endif
#       if !defined(VH_CHUNK) || VH_CHUNK == 1
        TYPE("vector<int*>", std::vector<int*>) TYPE("vector<char*>", std::vector<char*>) TYPE("deque<char**>", std::deque<char**>) TYPE("list<char16_t*>", std::list<char16_t*>) TYPE("list<int**>", std::list<int**>)
        TYPE("array<int*>", std::array<int*, 2>) TYPE("array<char*>", std::array<char*, 2>)
        TYPE("pair<int*,char*>", std::pair<int*, char*>) TYPE("tuple<char*,int**>", std::tuple<char*, int**>)
        TYPE("map<string,int*>", std::map<string, int*>) TYPE("map<string,char*>", std::map<string, char*>) TYPE("map<string,vector<char*>>", std::map<string, std::vector<char*>>)
#       endif
#       if !defined(VH_CHUNK) || VH_CHUNK == 2
        TYPE("class", P2) TYPE("class of pointers*", P2*) TYPE("vector<class*>", std::vector<P2*>) TYPE("vector<int*>*", std::vector<int*>*) TYPE("vector<vector<int*>>", std::vector<std::vector<int*>>)
        TYPE("unique<int>", std::unique_ptr<int, del<int>>) TYPE("unique<vector<int>>", std::unique_ptr<std::vector<int>, del<std::vector<int>>>)
        TYPE("shared<int>", std::shared_ptr<int>) TYPE("shared<string>", std::shared_ptr<string>) TYPE("vector<shared<string>>", std::vector<std::shared_ptr<string>>) TYPE("map<string,shared<int>>", std::map<string, std::shared_ptr<int>>)
        TYPE("shared<class>", std::shared_ptr<P3>) TYPE("pair<unique<int>,shared<int>>", std::pair<std::unique_ptr<int, del<int>>, std::shared_ptr<int>>) TYPE("shared<shared<int>>", std::shared_ptr<std::shared_ptr<int>>)
        TYPE("shared<char>", std::shared_ptr<char>) TYPE("shared<char16_t>", std::shared_ptr<char16_t>)
        TYPE("smart class", P3)
        TYPE("shared<int>*", std::shared_ptr<int>*)
#       if __cplusplus >= 201703L
            TYPE("optional<int*>", std::optional<int*>) TYPE("optional<char*>", std::optional<char*>)
#       endif
#       endif
    }
    return m;
}
template <fn entry::*F> static string run(args const& a) { auto e = table().find(a[0]); return e == table().end() ? "NOTYPE" : (e->second.*F)(a); }
static vh::reg _1("J", run<&entry::j>);
static vh::reg _2("C", run<&entry::c>);
static vh::reg _3("XJ", run<&entry::fj>);
static vh::reg _4("XC", run<&entry::fc>);
VH_MAIN
