// Writes values to every kind of destination, bounded ones with every capacity
#ifdef VH_ASSERT
#   undef NDEBUG
#endif
#include "typ.hpp"
#include "cxon/lang/common/cio/io.hxx"
#ifdef VH_CBOR
#   include "cxon/json.hxx"
#endif
#include "cxon/lib/node.ordered.hxx"
#include <array>
using namespace vh;

#ifdef VH_CBOR
    namespace NS = cxon::cbor;
#else
    namespace NS = cxon::json;
#endif
static const unsigned char mark = 0xA5;

// every use is checked: positions within [0, n], writes within [0, n)
template <typename C, typename Tag>
    struct watched {
        struct store { std::vector<C> c; std::vector<bool> w; bool out; };
        using iterator_category = Tag; using value_type = C; using difference_type = std::ptrdiff_t; using pointer = C*; using reference = C&;
        store* s; std::ptrdiff_t i;
        watched(store* s_ = nullptr, std::ptrdiff_t i_ = 0) : s(s_), i(i_) {}
        reference operator *() const {
            static C waste;
            if (i < 0 || i >= (std::ptrdiff_t)s->c.size()) { s->out = true; return waste; }
            return s->c[(size_t)i];
        }
        watched& at(std::ptrdiff_t n) { i = n; if (i < 0 || i > (std::ptrdiff_t)s->c.size()) s->out = true; return *this; }
        watched& operator ++() { return at(i + 1); }
        watched operator ++(int) { watched o = *this; at(i + 1); return o; }
        watched& operator --() { return at(i - 1); }
        watched operator --(int) { watched o = *this; at(i - 1); return o; }
        watched& operator +=(std::ptrdiff_t n) { return at(i + n); }
        watched& operator -=(std::ptrdiff_t n) { return at(i - n); }
        watched operator +(std::ptrdiff_t n) const { watched o = *this; return o.at(i + n); }
        watched operator -(std::ptrdiff_t n) const { watched o = *this; return o.at(i - n); }
        std::ptrdiff_t operator -(watched const& o) const { return i - o.i; }
        reference operator [](std::ptrdiff_t n) const { return *(*this + n); }
        bool operator ==(watched const& o) const { return i == o.i; }
        bool operator !=(watched const& o) const { return i != o.i; }
        bool operator  <(watched const& o) const { return i < o.i; }
        bool operator  >(watched const& o) const { return i > o.i; }
        bool operator <=(watched const& o) const { return i <= o.i; }
        bool operator >=(watched const& o) const { return i >= o.i; }
    };

// an output iterator of one's own
struct counting {
    using iterator_category = std::output_iterator_tag; using value_type = void; using difference_type = std::ptrdiff_t; using pointer = void; using reference = void;
    string* s; size_t at; bool* bad;
    counting& operator *() { return *this; }
    counting& operator ++() { ++at; return *this; }
    counting operator ++(int) { counting o = *this; ++at; return o; }
    counting& operator =(char c) { if (at != s->size()) *bad = true; s->push_back(c); return *this; }
};
// bounded destinations of one's own: telling by what append returns, and by good()
struct limited {
    using value_type = char;
    string s; size_t cap; bool late;
    void push_back(char c) { late = true; (void)c; }
    bool append(char c) { return s.size() < cap && (s.push_back(c), true); }
    template <typename I> auto append(I f, I l) -> decltype(*f, bool()) {
        size_t n = (size_t)std::distance(f, l); return n <= cap - s.size() && (s.append(f, l), true);
    }
    template <typename I> auto append(I f, size_t n) -> decltype(*f, bool()) { I l = f; std::advance(l, (std::ptrdiff_t)n); return append(f, l); }
    bool append(unsigned n, char c) { return n <= cap - s.size() && (s.append(n, c), true); }
    string::iterator begin() { return s.begin(); }
    string::iterator end() { return s.end(); }
};
struct closing {
    using value_type = char;
    string s; size_t cap; bool gone; bool late;
    void push_back(char c) { if (s.size() < cap) s.push_back(c); else gone = true; }
    bool good() const { return !gone; }
    string::iterator begin() { return s.begin(); }
    string::iterator end() { return s.end(); }
};

static string code(bool ok, bool fail, size_t n, size_t same, bool touched) {
    return (ok ? "o" : fail ? "f" : "x") + unum(n) + "," + unum(same) + (touched ? "!" : "");
}
template <typename R> bool failure(R const& r) { return r.ec == NS::write_error::output_failure; }
template <typename C> size_t common(string const& f, const C* p, size_t n) {
    size_t k = 0; while (k < n && k < f.size() && (unsigned char)p[k] == (unsigned char)f[k]) ++k; return k;
}
static std::vector<size_t> caps(size_t n) {
    std::vector<size_t> v;
    if (n <= 80) { for (size_t i = 0; i <= n + 2; ++i) v.push_back(i); return v; }
    for (size_t i = 0; i < 24; ++i) v.push_back(i);
    for (size_t i = 24; i + 24 < n; i += 7) v.push_back(i);
    for (size_t i = n - 24; i <= n + 2; ++i) v.push_back(i);
    return v;
}
template <typename V> string over(string const& f, V each) {
    string r;
    for (size_t c : caps(f.size())) r += unum(c) + ":" + each(c) + " ";
    return r;
}
// containers
template <typename C, typename T> string insertable(string const& f, T& t) {
    return safely([&]() {
        C c; for (char x : { 'a', 'b', 'c' }) c.push_back((typename C::value_type)x);
        auto r = cxon::to_bytes<FMT>(c, t);
        string s; for (auto x : c) s += (char)x;
        bool head = s.compare(0, 3, "abc") == 0 && std::distance(std::begin(c), r.end) == 3;
        s.erase(0, 3);
        return "-1:" + code(!r.ec, failure(r), s.size(), common(f, s.data(), s.size()), !head) + " ";
    });
}
// iterators: what the iterator given back is good for
template <typename It, typename T, typename Get> string iterator(string const& f, It it, T& t, Get get) {
    return safely([&]() {
        auto r = cxon::to_bytes<FMT>(it, t);
        *r.end = 'Z'; ++r.end;
        string s = get();
        bool z = !s.empty() && s.back() == 'Z';
        if (z) s.pop_back();
        return "-1:" + code(!r.ec, failure(r), s.size(), common(f, s.data(), s.size()), !z) + " ";
    });
}
template <typename C, typename T> string pointers(string const& f, T& t) {
    return over(f, [&](size_t cap) {
        return safely([&]() {
            // past the capacity: enough for all of the output, watched; beyond that, ASan's
            std::vector<C> m(32 + cap + f.size() + 32, (C)mark);
            C* b = m.data() + 32;
            auto r = cxon::to_bytes<FMT>(b, b + cap, t);
            bool touched = r.end < b || r.end > b + cap;
            for (size_t i = 0; i < 32; ++i) touched = touched || m[i] != (C)mark;
            for (size_t i = 32 + cap; i < m.size(); ++i) touched = touched || m[i] != (C)mark;
            size_t n = touched ? 0 : size_t(r.end - b);
            return code(!r.ec, failure(r), n, common(f, b, n), touched);
        });
    });
}
template <typename I, typename T> string ranges(string const& f, T& t) {
    return over(f, [&](size_t cap) {
        return safely([&]() {
            typename I::store s = { std::vector<typename I::value_type>(cap, (typename I::value_type)mark), {}, false };
            auto r = cxon::to_bytes<FMT>(I(&s, 0), I(&s, (std::ptrdiff_t)cap), t);
            bool touched = s.out || r.end.i < 0 || r.end.i > (std::ptrdiff_t)cap;
            size_t n = touched ? 0 : (size_t)r.end.i;
            return code(!r.ec, failure(r), n, common(f, s.c.data(), n), touched);
        });
    });
}
template <typename C, typename T> string stored(string const& f, T& t) {
    return over(f, [&](size_t cap) {
        return safely([&]() {
            C m(cap + 4, (typename C::value_type)mark);
            auto b = m.begin(); std::advance(b, 2); auto e = b; std::advance(e, (std::ptrdiff_t)cap);
            auto r = cxon::to_bytes<FMT>(b, e, t);
            std::vector<typename C::value_type> v(m.begin(), m.end());
            size_t n = 0; auto i = b; while (i != r.end && i != m.end()) ++i, ++n;
            bool touched = n > cap || (unsigned char)v[0] != mark || (unsigned char)v[1] != mark || (unsigned char)v[cap + 2] != mark || (unsigned char)v[cap + 3] != mark;
            return code(!r.ec, failure(r), touched ? 0 : n, common(f, v.data() + 2, touched ? 0 : n), touched);
        });
    });
}
template <size_t N, typename T> string buffered(string const& f, T& t) {
    return safely([&]() {
        string s = "abc"; bool bad;
        {   std::array<char, N> b; auto o = cxon::cio::buffered_back_inserter(s, b);
            // by value: what is left in the buffer belongs to the copies
            cxon::write_context<FMT> cx; bad = !cxon::write_value<FMT>(o, t, cx);
        }
        bad = bad || s.compare(0, 3, "abc") != 0; s.erase(0, 3);
        return "-1:" + code(!bad, false, s.size(), common(f, s.data(), s.size()), false) + " ";
    });
}

template <typename T> string all(T& t, unsigned mask) {
    string f; auto w = cxon::to_bytes<FMT>(f, t);
    if (w.ec) return "noput";
    group g;
    if (mask & 1) {
        g.add("string", insertable<string>(f, t));
        g.add("vector<char>", insertable<std::vector<char>>(f, t));
        g.add("vector<uchar>", insertable<std::vector<unsigned char>>(f, t));
        g.add("deque", insertable<std::deque<char>>(f, t));
        g.add("list", insertable<std::list<char>>(f, t));
        { string s; g.add("back_inserter", iterator(f, std::back_inserter(s), t, [&]() { return s; })); }
        { std::vector<unsigned char> s; g.add("back_inserter<uchar>", iterator(f, std::back_inserter(s), t, [&]() { return string(s.begin(), s.end()); })); }
        { std::ostringstream s; g.add("ostreambuf_iterator", iterator(f, std::ostreambuf_iterator<char>(s), t, [&]() { return s.str(); })); }
        { std::ostringstream s; g.add("ostream_iterator", iterator(f, std::ostream_iterator<char>(s), t, [&]() { return s.str(); })); }
        { string s; bool bad = false; counting c = { &s, 0, &bad }; g.add("counting", iterator(f, c, t, [&]() { return bad ? "?" : s; })); }
    }
    if (mask & 2) {
        g.add("char*", pointers<char>(f, t));
        g.add("uchar*", pointers<unsigned char>(f, t));
        g.add("vector<char>::iterator", stored<std::vector<char>>(f, t));
    }
    if (mask & 4) {
        g.add("deque::iterator", stored<std::deque<char>>(f, t));
        g.add("watched", ranges<watched<char, std::random_access_iterator_tag>>(f, t));
#   ifdef VH_FWD
        g.add("list::iterator", stored<std::list<char>>(f, t));
        g.add("forward", ranges<watched<char, std::forward_iterator_tag>>(f, t));
#   endif
    }
    if (mask & 8) {
        g.add("append", over(f, [&](size_t cap) { return safely([&]() {
            limited o = { "", cap, false }; auto r = cxon::to_bytes<FMT>(o, t);
            return code(!r.ec, failure(r), o.s.size(), common(f, o.s.data(), o.s.size()), o.late);
        }); }));
        g.add("good", over(f, [&](size_t cap) { return safely([&]() {
            closing o = { "", cap, false, false }; auto r = cxon::to_bytes<FMT>(o, t);
            return code(!r.ec, failure(r), o.s.size(), common(f, o.s.data(), o.s.size()), false);
        }); }));
#   ifndef VH_CBOR
        g.add("buffered<1>", buffered<1>(f, t));
        g.add("buffered<5>", buffered<5>(f, t));
        g.add("buffered<64>", buffered<64>(f, t));
#   endif
    }
    return unum(f.size()) + "|" + g.str();
}
// S mask type hex
static vh::reg _1("S", [](args const& a) {
    unsigned m = (unsigned)atoi(a[0].c_str()), w = (unsigned)atoi(a[1].c_str()); string s = unhex(a[2]);
#define TYPE(N, ...) if (w == N) return safely([&]() { box<__VA_ARGS__> t; auto r = cxon::from_bytes<FMT>(t.get(), s.data(), s.data() + s.size()); return r ? all(t.get(), m) : string("no"); });
#include VH_LIST
#undef TYPE
    return string("?");
});
VH_MAIN
