// Reads a document into every type of the list (VH_LIST: a generated file of TYPE(number, type) lines)
#include "typ.hpp"
using namespace vh;

template <typename T>
    struct rd {
        group& g; string nm; string wr; bool done;
        template <typename It, typename P> void operator()(const char* path, It b, It e, P pos) {
            g.add(nm + "/" + path, safely([&]() {
                box<T> t; auto r = cxon::from_bytes<FMT>(t.get(), b, e);
                if (!r) return "err " + num(pos(r.end));
                if (!done) done = true, wr = back(t.get());
                return "ok " + num(pos(r.end)) + " " + dump(t.get());
            }));
        }
        // write it, read what was written
        template <typename U> static string back(U& t) {
            string o; auto w = cxon::to_bytes<FMT>(o, t);
            if (!w) return "noput";
            box<T> u; auto r = cxon::from_bytes<FMT>(u.get(), o.data(), o.data() + o.size());
            string s = r ? (r.end == o.data() + o.size() ? "same" : "short") : "noget";
            if (r && dump(u.get()) != dump(t)) s = "differs:" + dump(u.get());
            return "w" + hex(o) + " " + s;
        }
    };
template <typename T> void go(group& g, const char* nm, string const& s, unsigned mask) {
    rd<T> r = { g, nm, "", false }; deliver(s, r, mask);
    if (r.done) g.add(nm, r.wr);
}
static unsigned long long want = ~0ull;
// R mask hex [set of types]
static vh::reg _1("R", [](args const& a) {
    string s = unhex(a[1]); unsigned m = (unsigned)atoi(a[0].c_str()); group g;
    unsigned long long w = a.size() > 2 ? strtoull(a[2].c_str(), nullptr, 16) : want;
#define TYPE(N, ...) if (w >> N & 1) go<__VA_ARGS__>(g, #N, s, m);
#include VH_LIST
#undef TYPE
    return g.str();
});
// P hex hex [set of types]: the second document into a target that already holds what the first one says
template <typename T> void again(group& g, const char* nm, string const& x, string const& y) {
    g.add(nm, safely([&]() {
        box<T> t; exact<char> p(x), q(y);
        auto r = cxon::from_bytes<FMT>(t.get(), (const char*)p.p, (const char*)p.p + p.n);
        string f = r ? "" : "!";
        auto s = cxon::from_bytes<FMT>(t.get(), (const char*)q.p, (const char*)q.p + q.n);
        return s ? f + "ok " + num(s.end - q.p) + " " + dump(t.get()) : f + "err " + num(s.end - q.p);
    }));
}
static vh::reg _2("P", [](args const& a) {
    string s = unhex(a[0]), t = unhex(a[1]); group g;
    unsigned long long w = a.size() > 2 ? strtoull(a[2].c_str(), nullptr, 16) : want;
#define TYPE(N, ...) if (w >> N & 1) again<__VA_ARGS__>(g, #N, s, t);
#include VH_LIST
#undef TYPE
    return g.str();
});
VH_MAIN
