// Writes values given by their description, not read from JSON: strings of every width, numbers, dynamic values
#include "jfmt.hpp"
#include "jdump.hpp"
#include "cxon/lib/std/string.hxx"
#include "cxon/lib/std/map.hxx"
#include "cxon/lib/std/vector.hxx"
#include "cxon/lib/std/array.hxx"
#if __cplusplus >= 201703L
#   include "cxon/lib/std/string_view.hxx"
#   include "cxon/lib/std/variant.hxx"
#   include "cxon/lib/std/optional.hxx"
#endif
#include <sstream>
using namespace vh;

template <typename C> std::basic_string<C> units(string const& a) {
    std::basic_string<C> s; if (a == "-") return s;
    size_t i = 0;
    while (i < a.size()) { size_t j = a.find(',', i); if (j == string::npos) j = a.size(); s.push_back((C)strtoul(a.substr(i, j - i).c_str(), nullptr, 16)); i = j + 1; }
    return s;
}
template <typename T, typename ...N> string put(T const& t, N... n) {
    string o; auto w = cxon::to_bytes<FMT>(o, t, n...);
    return w ? "ok " + hex(o) : "err " + hex(o);
}
// T written, read into R: the same?
template <typename R, typename T> string both(T const& t) {
    string o; auto w = cxon::to_bytes<FMT>(o, t);
    if (!w) return "err " + hex(o);
    R r; auto x = cxon::from_bytes<FMT>(r, o.data(), o.data() + o.size());
    return "ok " + hex(o) + (!x ? " noget" : x.end != o.data() + o.size() ? " short" : r == R(t) ? " same" : " differs");
}
template <typename C> string str(group& g, const char* nm, string const& a) {
    using S = std::basic_string<C>;
    S const s = units<C>(a);
    string n(nm);
    g.add("s" + n, safely([&]() { return both<S>(s); }));
    g.add("k" + n, safely([&]() { std::map<S, int> m; m[s] = 1; return both<std::map<S, int>>(m); }));
    g.add("v" + n, safely([&]() { std::vector<S> m; m.push_back(s); m.push_back(S()); m.push_back(s); return both<std::vector<S>>(m); }));
    if (s.find(C(0)) == S::npos) {
        g.add("p" + n, safely([&]() { exact<C> p(s.data(), s.size() + 1); const C* c = p.p; return put(c); }));
    }
#if __cplusplus >= 201703L
    if (sizeof(C) == 1) g.add("w" + n, safely([&]() { exact<C> p(s.data(), s.size()); return put(std::basic_string_view<C>(p.p, p.n)); }));
#endif
    if (s.size() == 1) {
        g.add("c" + n, safely([&]() { return both<C>(s[0]); }));
        g.add("m" + n, safely([&]() { std::map<C, int> m; m[s[0]] = 1; return both<std::map<C, int>>(m); }));
    }
    return g.str();
}
// S utf8 utf16 utf32
static vh::reg _1("S", [](args const& a) {
    group g;
    str<char>(g, "8", a[0]); str<char16_t>(g, "16", a[1]); str<char32_t>(g, "32", a[2]); str<wchar_t>(g, "w", a[2]);
#if defined(__cpp_char8_t)
    str<char8_t>(g, "u", a[0]);
#endif
    string const s = units<char>(a[0]);
    g.add("n8", safely([&]() { cxon::json::node n(s); return both<cxon::json::node>(n); }));
    g.add("o8", safely([&]() { cxon::json::ordered_node n; n.imbue<cxon::json::ordered_node::object>().emplace_back(s, 1u); return both<cxon::json::ordered_node>(n); }));
    return g.str();
});

template <typename T> T parse(string const& s) { std::istringstream i(s); T t; i >> t; return t; }
#define INT(T) if (t == #T) return (sizeof(T) == 1 ? put((T)parse<int>(a[1])) : put(parse<T>(a[1])));
static vh::reg _2("I", [](args const& a) -> string {
    string t = a[0]; for (auto& c : t) if (c == '_') c = ' ';
    INT(signed char) INT(unsigned char) INT(short) INT(unsigned short) INT(int) INT(unsigned) INT(long) INT(unsigned long) INT(long long) INT(unsigned long long)
    if (t == "bool") return put(a[1] == "1");
    return "?";
});
template <typename T, unsigned P> string flt(T t) { return put(t, cxon::json::fp_precision::set<P>()); }
template <typename T> string flts(T t) {
    group g;
    g.add("0", safely([&]() { return both<T>(t); }));
#define P(n) g.add(#n, safely([&]() { return flt<T, n>(t); }));
    P(1) P(2) P(3) P(6) P(7) P(9) P(10) P(15) P(16) P(17) P(18) P(20) P(25) P(30)
#undef P
    g.add("k", safely([&]() { std::map<T, int> m; m[t] = 1; return both<std::map<T, int>>(m); }));
    g.add("v", safely([&]() { std::vector<T> m(2, t); return both<std::vector<T>>(m); }));
    return g.str();
}
static vh::reg _3("F", [](args const& a) -> string {
    unsigned long long u = strtoull(a[1].c_str(), nullptr, 16);
    if (a[0] == "d") { double d; memcpy(&d, &u, 8); return flts(d); }
    uint32_t v = (uint32_t)u; float f; memcpy(&f, &v, 4); return flts(f);
});

// a dynamic value from its events
template <typename N> N node_(std::istringstream& in) {
    string t; in >> t;
    if (t == "null") return N(nullptr);
    if (t == "true") return N(true);
    if (t == "false") return N(false);
    if (t == "[") {
        N n; auto& c = n.template imbue<typename N::array>();
        for (;;) { auto p = in.tellg(); string x; in >> x; if (x == "]") return n; in.seekg(p); c.push_back(node_<N>(in)); }
    }
    if (t == "{") {
        N n; auto& c = n.template imbue<typename N::object>();
        for (;;) {
            auto p = in.tellg(); string x; in >> x; if (x == "}") return n;
            in.seekg(p);
            N k = node_<N>(in), v = node_<N>(in);
            c.insert(c.end(), typename N::object::value_type(std::move(k), std::move(v)));
        }
    }
    if (t[0] == 'k' && t.size() > 1 && !isxdigit(t[1])) { // a key that is not a string
        std::istringstream i(t.substr(1)); return node_<N>(i);
    }
    switch (t[0]) {
        case 's': case 'k': { string s = unhex(t.substr(1)); typename N::string z(s.data(), s.size()); return N(std::move(z)); }
        case 'i': return N((typename N::sint)strtoll(t.c_str() + 1, nullptr, 10));
        case 'u': return N((typename N::uint)strtoull(t.c_str() + 1, nullptr, 10));
        case 'r': { unsigned long long u = strtoull(t.c_str() + 1, nullptr, 16); double d; memcpy(&d, &u, 8); return N(d); }
    }
    return N(string("?" + t).c_str());
}
template <typename N> string nodes(args const& a) {
    return safely([&]() {
        std::istringstream i(a[0]); N n = node_<N>(i);
        string o; auto w = cxon::to_bytes<FMT>(o, n);
        if (!w) return "err " + hex(o);
        N r; auto x = cxon::from_bytes<FMT>(r, o.data(), o.data() + o.size());
        return "ok " + hex(o) + (!x ? " noget" : x.end != o.data() + o.size() ? " short " : " read ") + jdump(r);
    });
}
// maps keyed by values of more than one shape
#if __cplusplus >= 201703L
template <typename K> string keyed(K k) { std::map<K, int> m; m[k] = 1; return both<std::map<K, int>>(m); }
static vh::reg _6("M", [](args const&) {
    group g;
    using IS = std::variant<int, string>; using IB = std::variant<int, bool>; using SD = std::variant<string, double>;
    g.add("variant<int,string>:int", keyed<IS>(IS(5)));      g.add("variant<int,string>:string", keyed<IS>(IS(string("x"))));
    g.add("variant<string,double>:real", keyed<SD>(SD(.5))); g.add("variant<string,double>:string", keyed<SD>(SD(string("x"))));
    g.add("variant<int,bool>:int", keyed<IB>(IB(5)));        g.add("variant<int,bool>:bool", keyed<IB>(IB(true)));
    using OS = std::optional<string>; using OI = std::optional<int>;
    g.add("optional<string>:null", keyed<OS>(OS()));         g.add("optional<string>:value", keyed<OS>(OS("x")));
    g.add("optional<int>:null", keyed<OI>(OI()));            g.add("optional<int>:value", keyed<OI>(OI(5)));
    return g.str();
});
#endif
static vh::reg _4("V", nodes<cxon::json::node>);
static vh::reg _5("W", nodes<cxon::json::ordered_node>);
VH_MAIN
