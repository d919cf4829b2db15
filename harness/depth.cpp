// Histories of calls that read or write dynamic values under nesting limits: one after the other,
// one inside another (a call is made while an iterator of an earlier one is advanced), in threads.
// A call: kind:limit:hex[:parent:position], calls are separated by ','
#include "jfmt.hpp"
#include "cxon/cbor.hxx"
#include "cxon/lib/std/vector.hxx"
#include "cxon/lib/std/map.hxx"
#include "cdump.hpp"
#include <thread>
#include <memory>
using namespace vh;
using CF = cxon::CBOR<>;

struct call {
    char kind; unsigned lim; string doc; int parent; size_t at; bool fired; string res;
    std::vector<call*> kids;
    void reach(size_t p) { for (auto k : kids) if (!k->fired && k->at <= p) { k->fired = true; k->exec(); } }
    void exec();
};
// single pass input that makes the calls inside
struct hin {
    using iterator_category = std::input_iterator_tag;
    using value_type = char; using difference_type = std::ptrdiff_t; using pointer = const char*; using reference = const char&;
    call* c; size_t at;
    reference operator *() const { return c->doc[at]; }
    hin& operator ++() { ++at; c->reach(at); return *this; }
    struct proxy { char v; char operator *() const { return v; } };
    proxy operator ++(int) { proxy p = { **this }; ++*this; return p; }
    friend bool operator ==(hin const& a, hin const& b) { return a.at == b.at; }
    friend bool operator !=(hin const& a, hin const& b) { return a.at != b.at; }
};
struct hout {
    using iterator_category = std::output_iterator_tag;
    using value_type = void; using difference_type = std::ptrdiff_t; using pointer = void; using reference = void;
    call* c; size_t* n;
    hout& operator *() { return *this; }
    hout& operator ++() { return *this; }
    hout& operator ++(int) { return *this; }
    hout& operator =(char) { ++*n; c->reach(*n); return *this; }
};
template <typename R> string how(R const& r) { return r ? string("ok") : errs(r); }

template <unsigned D> struct lim_ { template <typename F> static string go(F f) { return f(cxon::node::recursion_depth::set<D>()); } };

template <typename X, typename N> struct rd_ { call& c;
    template <typename P> string operator()(P p) const {
        N n; hin b = { &c, 0 }, e = { &c, c.doc.size() };
        return how(cxon::from_bytes<X>(n, b, e, p));
    }
    string operator()() const { N n; return how(cxon::from_bytes<X>(n, c.doc.data(), c.doc.data() + c.doc.size())); }
};
// part of another type: the guard is the caller's
template <typename X, typename N> struct rdg_ { call& c;
    template <typename P> string operator()(P p) const {
        std::vector<N> n; hin b = { &c, 0 }, e = { &c, c.doc.size() };
        return how(cxon::from_bytes<X>(n, b, e, cxon::node::recursion_guard::set(0), p));
    }
    string operator()() const { std::vector<N> n; return how(cxon::from_bytes<X>(n, c.doc.data(), c.doc.data() + c.doc.size())); }
};
template <typename X, typename Y, typename N> struct wr_ { call& c;
    static bool get(N& n, call& c) { return (bool)cxon::from_bytes<X>(n, c.doc.data(), c.doc.data() + c.doc.size(), cxon::node::recursion_depth::set<100000>()); }
    template <typename P> string operator()(P p) const {
        N n; if (!get(n, c)) return "unread";
        size_t k = 0;
        return how(cxon::to_bytes<Y>(hout{ &c, &k }, n, p));
    }
    string operator()() const { N n; if (!get(n, c)) return "unread"; string o; return how(cxon::to_bytes<Y>(o, n)); }
};
template <typename X, typename Y, typename N> struct wrg_ { call& c;
    template <typename P> string operator()(P p) const {
        std::vector<N> n; if (!cxon::from_bytes<X>(n, c.doc.data(), c.doc.data() + c.doc.size())) return "unread";
        size_t k = 0;
        return how(cxon::to_bytes<Y>(hout{ &c, &k }, n, cxon::node::recursion_guard::set(0), p));
    }
    string operator()() const { std::vector<N> n; if (!cxon::from_bytes<X>(n, c.doc.data(), c.doc.data() + c.doc.size())) return "unread"; string o; return how(cxon::to_bytes<Y>(o, n)); }
};
template <typename F> string with(unsigned d, F f) {
    switch (d) {
        case 0: return f();                 // the limit by default
        case 1: return lim_<1>::go(f);
        case 2: return lim_<2>::go(f);
        case 3: return lim_<3>::go(f);
        case 4: return lim_<4>::go(f);
#ifdef VH_LIMS
        case 5: return lim_<5>::go(f);
        case 9: return lim_<9>::go(f);
        case 63: return lim_<63>::go(f);
        case 65: return lim_<65>::go(f);
        case 200: return lim_<200>::go(f);
#endif
    }
    return "NOLIM";
}
using JN = cxon::json::node; using ON = cxon::json::ordered_node; using CN = cxon::cbor::node;
void call::exec() {
    call& c = *this;
    switch (kind) {
        case 'a': res = with(lim, rd_<FMT, JN>{ c }); break;
        case 'c': res = with(lim, rd_<FMT, CN>{ c }); break;
        case 'd': res = with(lim, rd_<CF, CN>{ c }); break;
        case 'e': res = with(lim, rd_<CF, JN>{ c }); break;
        case 'A': res = with(lim, wr_<FMT, FMT, JN>{ c }); break;
        case 'C': res = with(lim, wr_<FMT, FMT, CN>{ c }); break;
        case 'D': res = with(lim, wr_<CF, CF, CN>{ c }); break;
        case 'E': res = with(lim, wr_<CF, FMT, CN>{ c }); break;
        case 'F': res = with(lim, wr_<FMT, CF, JN>{ c }); break;
#ifndef VH_FEW
        case 'b': res = with(lim, rd_<FMT, ON>{ c }); break;
        case 'g': res = with(lim, rdg_<FMT, JN>{ c }); break;
        case 'h': res = with(lim, rdg_<CF, CN>{ c }); break;
        case 'B': res = with(lim, wr_<FMT, FMT, ON>{ c }); break;
        case 'G': res = with(lim, wrg_<FMT, FMT, JN>{ c }); break;
        case 'H': res = with(lim, wrg_<CF, CF, CN>{ c }); break;
#endif
        default: res = "NOKIND";
    }
}
static string run(string const& s) {
    std::vector<std::unique_ptr<call>> cs;
    size_t o = 0;
    while (o <= s.size()) {
        size_t t = s.find(',', o); if (t == string::npos) t = s.size();
        string w = s.substr(o, t - o); o = t + 1;
        std::vector<string> f; size_t i = 0;
        for (;;) { size_t j = w.find(':', i); f.push_back(w.substr(i, j == string::npos ? j : j - i)); if (j == string::npos) break; i = j + 1; }
        cs.emplace_back(new call{ f[0][0], (unsigned)atoi(f[1].c_str()), unhex(f[2]), f.size() > 3 ? atoi(f[3].c_str()) : -1, f.size() > 4 ? (size_t)atoi(f[4].c_str()) : 0, false, "unfired", {} });
        if (cs.back()->parent >= 0) cs[(size_t)cs.back()->parent]->kids.push_back(cs.back().get());
    }
    for (auto& c : cs) if (c->parent < 0) c->exec();
    string r; for (auto& c : cs) { if (!r.empty()) r += ","; r += c->res; }
    return r;
}
static vh::reg _1("S", [](args const& a) { return run(a[0]); });
// the same in several threads at once, again and again
static vh::reg _2("T", [](args const& a) {
    std::vector<string> rs(a.size() - 1); std::vector<std::thread> ts;
    int n = atoi(a[0].c_str());
    for (size_t i = 1; i < a.size(); ++i)
        ts.emplace_back([&, i]() {
            string f = run(a[i]);
            for (int k = 1; k < n; ++k) { string g = run(a[i]); if (g != f) { f = "unsteady " + f + " then " + g; break; } }
            rs[i - 1] = f;
        });
    for (auto& t : ts) t.join();
    string r; for (auto& x : rs) { if (!r.empty()) r += ';'; r += x; }
    return r;
});
VH_MAIN
