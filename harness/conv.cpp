// Dynamic values of both kinds from and to both formats
#include "jfmt.hpp"
#include "cxon/cbor.hxx"
#include "cdump.hpp"
using namespace vh;
using CF = cxon::CBOR<>;

// numbers that are not negative are the same whether kept signed or not
static string plain(string s) {
    for (size_t i = 0; i < s.size(); ++i) {
        if (s[i] == 'i' && i + 1 < s.size() && s[i+1] >= '0' && s[i+1] <= '9') s[i] = 'u';
    }
    return s;
}
template <typename N> bool same(N const& a, N const& b) { string x = ndump(a), y = ndump(b); return x == y ? a == b || x.find("nan") != string::npos : plain(x) == plain(y); }

// a value in both formats, and what each reads back as
template <typename N, typename ...P> string both(N const& n, P... p) {
    string c, j, r;
    auto w = cxon::to_bytes<CF>(c, n); r = w ? "c" + hex(c) : "C" + errs(w);
    auto v = cxon::to_bytes<FMT>(j, n, p...); r += v ? " j" + hex(j) : " J" + errs(v);
    if (w) {
        N m; auto q = cxon::from_bytes<CF>(m, c.data(), c.data() + c.size());
        r += !q ? " unreadable" : q.end != c.data() + c.size() ? " rest" : same(m, n) ? " same" : " differs:" + hex(ndump(m));
    }
    else r += " -";
    if (v) {
        N m; auto q = cxon::from_bytes<FMT>(m, j.data(), j.data() + j.size(), p...);
        r += !q ? " unreadable" : q.end != j.data() + j.size() ? " rest" : same(m, n) ? " same" : " differs:" + hex(ndump(m));
    }
    else r += " -";
    return r;
}
template <typename X, typename N, typename ...P> string one(string const& s, P... p) {
    return safely([&]() {
        exact<char> x(s); const char* b = x.p;
        N n; auto r = cxon::from_bytes<X>(n, b, b + x.n, p...);
        if (!r) return "err " + num(r.end - b) + " " + errs(r);
        N m; std::list<char> l(s.begin(), s.end()); auto q = cxon::from_bytes<X>(m, l.cbegin(), l.cend(), p...);
        if (!q || ndump(m) != ndump(n)) return string("UNSTEADY");
        string d = ndump(n); for (auto& c : d) if (c == ' ') c = ',';
        return "ok " + num(r.end - b) + " " + d + " " + both(n, p...);
    });
}
template <typename X, typename ...P> string all(args const& a, P... p) {
    string s = unhex(a[0]);
    return one<X, cxon::json::node>(s, p...) + "|" + one<X, cxon::json::ordered_node>(s, p...) + "|" + one<X, cxon::cbor::node>(s, p...) + "|" + one<X, cxon::cbor::ordered_node>(s, p...);
}
static vh::reg _1("J", [](args const& a) { return all<FMT>(a); });
static vh::reg _2("C", [](args const& a) { return all<CF>(a); });
#ifdef VH_NANS
static vh::reg _3("JN", [](args const& a) { return all<FMT>(a, cxon::node::json::extract_nans::set<true>()); });
#endif
VH_MAIN
