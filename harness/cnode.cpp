// Reads dynamic values from CBOR through every kind of source, and writes them back
#include "cxon/json.hxx"
#include "cxon/cbor.hxx"
#define VH_HEAP
#include "cdump.hpp"
#include "cxon/lib/node.cbor.hxx"
using namespace vh;
using FMT = cxon::CBOR<>;

template <typename N, typename Np>
    struct rd {
        group g; Np np; N last; bool have; size_t len;
        template <typename It, typename P> void operator()(const char* path, It b, It e, P pos) {
            g.add(path, safely([&]() {
                N n; heap::most() = 0;
                auto r = cxon::from_bytes<FMT>(n, b, e, np);
                if (heap::most() > 16384 + 256 * len) return "HEAP " + unum(heap::most());
                if (r) { last = n; have = true; return "ok " + num(pos(r.end)) + " " + ndump(n); }
                return "err " + num(pos(r.end)) + " " + errs(r);
            }));
        }
    };
template <typename N> string wr(N const& n) {
    return safely([&]() {
        string o; auto w = cxon::to_bytes<FMT>(o, n);
        if (!w) return string("err ") + errs(w);
        N m; auto r = cxon::from_bytes<FMT>(m, o.begin(), o.end());
        return "w" + hex(o) + (!r ? " unreadable" : r.end != o.end() ? " rest" : !(n == m) || ndump(n) != ndump(m) ? " differs " + ndump(m) : " same");
    });
}
template <typename N, unsigned D>
    string run(args const& a) {
        auto np = cxon::node::recursion_depth::set<D>();
        string s = unhex(a[1]);
        rd<N, decltype(np)> r = { {}, np, N(), false, s.size() };
        deliver(s, r, (unsigned)atoi(a[0].c_str()));
        if (r.have) r.g.add("written", wr(r.last));
        return r.g.str();
    }
static vh::reg _1("C", run<cxon::cbor::node, 64>);
static vh::reg _2("J", run<cxon::json::node, 64>);
#ifdef VH_DEPTH
static vh::reg _3("C1", run<cxon::cbor::node, 1>);
static vh::reg _4("C2", run<cxon::cbor::node, 2>);
static vh::reg _5("C3", run<cxon::cbor::node, 3>);
static vh::reg _6("J1", run<cxon::json::node, 1>);
static vh::reg _7("J3", run<cxon::json::node, 3>);
#endif
VH_MAIN
