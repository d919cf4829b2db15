// Reads dynamic JSON values from every kind of source
#include "jfmt.hpp"
#include "jdump.hpp"
using namespace vh;

template <typename N, typename Np>
    struct rd {
        group g; Np np;
        template <typename It, typename P> void operator()(const char* path, It b, It e, P pos) {
            g.add(path, safely([&]() {
                N n; auto r = cxon::from_bytes<FMT>(n, b, e, np);
                if (r) return "ok " + num(pos(r.end)) + " " + jdump(n);
                return "err " + num(pos(r.end)) + " " + errs(r);
            }));
        }
    };
template <typename N, unsigned D>
    string run(args const& a) {
        auto np = cxon::node::recursion_depth::set<D>();
        rd<N, decltype(np)> r = { {}, np };
        deliver(unhex(a[1]), r, (unsigned)atoi(a[0].c_str()));
        return r.g.str();
    }
static vh::reg _1("N", run<cxon::json::node, 64>);
static vh::reg _2("O", run<cxon::json::ordered_node, 64>);
#ifdef VH_DEPTH
static vh::reg _3("N1", run<cxon::json::node, 1>);
static vh::reg _4("N2", run<cxon::json::node, 2>);
static vh::reg _5("N3", run<cxon::json::node, 3>);
static vh::reg _6("N4", run<cxon::json::node, 4>);
static vh::reg _7("O3", run<cxon::json::ordered_node, 3>);
#endif
VH_MAIN
