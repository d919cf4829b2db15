// Pretty-printing: whole texts from and to everything, pieces, values
#include "jfmt.hpp"
#include "cxon/lib/std/string.hxx"
#include "cxon/lib/std/vector.hxx"
#include "cxon/lib/std/map.hxx"
#include "cxon/lib/node.ordered.hxx"
#include "cxon/lang/json/tidy.hxx"
#include <random>
using namespace vh;
using cxon::json::make_indenter;
namespace tidyjson = cxon::json;

static string shown(string const& s) { return hex(s); }
template <typename C> static string shown(C const& c) { return hex(string(c.begin(), c.end())); }

// room for n bytes among marks; what is written and whether the marks are still there
struct room {
    exact<char> x; size_t n;
    room(size_t n_) : x(string(n_, '\xA5')), n(n_) {}
    char* b() { return x.p; }
    char* e() { return x.p + n; }
    string str() const { return string(x.p, n); }
};
template <typename R> static string bounded(R& r, bool ok, size_t full) {
    string s = r.str();
    return ok ? s.size() == full ? hex(s) : hex(s) + " in " + num((long long)full) : "refused";
}

struct src { group& g; unsigned tab; char pad;
        template <typename It, typename P> void operator()(const char* path, It b, It e, P) {
            g.add(string("from ") + path, safely([&]() { return shown(tidyjson::tidy(b, e, tab, pad)); }));
        }
};
// whole: T tab pad hex
static string whole(args const& a) {
    unsigned tab = (unsigned)atoi(a[0].c_str()); char pad = (char)atoi(a[1].c_str()); string doc = unhex(a[2]);
    group g;
    auto const& d = doc;
    string ref;
    g.add("string", safely([&]() { return ref = tidyjson::tidy(d, tab, pad), hex(ref); }));
    src q = { g, tab, pad };
    deliver(d, q, 255);
    g.add("vector", safely([&]() { return shown(tidyjson::tidy<cxon::json::format_traits, std::vector<char>>(d, tab, pad)); }));
    g.add("deque", safely([&]() { return shown(tidyjson::tidy<cxon::json::format_traits, std::deque<char>>(d.begin(), d.end(), tab, pad)); }));
    g.add("list", safely([&]() { return shown(tidyjson::tidy<cxon::json::format_traits, std::list<char>>(std::vector<char>(d.begin(), d.end()), tab, pad)); }));
    g.add("back_inserter", safely([&]() { string o; bool r = tidyjson::tidy(std::back_inserter(o), d, tab, pad); return (r ? "" : "refused ") + hex(o); }));
    g.add("back_inserter deque", safely([&]() { std::deque<char> o; bool r = tidyjson::tidy(std::back_inserter(o), d.begin(), d.end(), tab, pad); return (r ? "" : "refused ") + shown(o); }));
    g.add("stream", safely([&]() { std::ostringstream o; bool r = tidyjson::tidy(std::ostreambuf_iterator<char>(o), d.begin(), d.end(), tab, pad); return (r ? "" : "refused ") + hex(o.str()); }));
    g.add("exact room", safely([&]() { room o(ref.size()); bool r = tidyjson::tidy(o.b(), o.e(), d, tab, pad); return bounded(o, r, ref.size()); }));
    g.add("exact room deque", safely([&]() { std::deque<char> o(ref.size()); bool r = tidyjson::tidy(o.begin(), o.end(), d.begin(), d.end(), tab, pad); return r ? shown(o) : string("refused"); }));
    g.add("more room", safely([&]() { room o(ref.size() + 9); bool r = tidyjson::tidy(o.b(), o.e(), d.data(), d.data() + d.size(), tab, pad);
        string s = o.str(); return r && s.substr(ref.size()) == string(9, '\xA5') ? hex(s.substr(0, ref.size())) : string("refused"); }));
    return g.str();
}
// too little room: B tab pad hex -> how many capacities claimed to be enough or were written wrongly
static string narrow(args const& a) {
    unsigned tab = (unsigned)atoi(a[0].c_str()); char pad = (char)atoi(a[1].c_str()); string doc = unhex(a[2]);
    group g;
    string ref = tidyjson::tidy(doc, tab, pad);
    for (int how = 0; how < 3; ++how) g.add(how == 0 ? "whole" : how == 1 ? "bytes" : "pieces", safely([&]() {
        for (size_t n = 0; n < ref.size(); ++n) {
            room o(n); bool r = true;
            if (how == 0) r = tidyjson::tidy(o.b(), o.e(), doc, tab, pad);
            else {
                auto i = make_indenter(o.b(), o.e(), tab, pad);
                if (how == 1) { for (char c : doc) if (!cxon::cio::poke(i, c)) { r = false; break; } }
                else { for (size_t x = 0; r && x < doc.size(); x += 3) r = cxon::cio::poke(i, doc.data() + x, std::min<size_t>(3, doc.size() - x)); }
            }
            if (r) return "claimed to fit in " + num((long long)n);
            string s = o.str(); size_t w = 0; while (w < n && s[w] == ref[w]) ++w;
            if (s.substr(w) != string(n - w, '\xA5')) return "wrote otherwise in " + num((long long)n) + " " + hex(s);
        }
        return string("refused");
    }));
    return g.str();
}
// pieces: S tab pad hex seed
template <typename F> static void feed(string const& d, std::vector<size_t> const& cut, unsigned how, F&& put) {
    for (size_t i = 0; i + 1 < cut.size(); ++i) put(d, cut[i], cut[i + 1], how >> (i % 8));
}
template <typename I> static bool put(I& i, string const& d, size_t b, size_t e, unsigned how) {
    using cxon::cio::poke;
    string const p = d.substr(b, e - b);
    switch (how % 5) {
        case 0: return poke(i, p.data(), p.size());
        case 1: return poke(i, p.data(), p.data() + p.size());
        case 2: return p.find('\0') == string::npos ? poke(i, p.c_str()) : poke(i, p.data(), p.size());
        case 3: if (!p.empty() && p.find_first_not_of(p[0]) == string::npos) return poke(i, (unsigned)p.size(), p[0]); // fall through
        default: for (char c : p) if (!poke(i, c)) return false; return true;
    }
}
template <typename I> static bool go(I i, string const& d, std::vector<size_t> const& cut, unsigned how) {
    bool ok = true;
    feed(d, cut, how, [&](string const& s, size_t b, size_t e, unsigned h) { ok = ok && put(i, s, b, e, h); });
    return ok;
}
static string pieces(args const& a) {
    unsigned tab = (unsigned)atoi(a[0].c_str()); char pad = (char)atoi(a[1].c_str()); string const d = unhex(a[2]);
    std::mt19937 rnd((unsigned)atoi(a[3].c_str()));
    size_t const n = d.size();
    std::vector<std::vector<size_t>> cuts;
    { std::vector<size_t> all; for (size_t i = 0; i <= n; ++i) all.push_back(i); cuts.push_back(all); }
    cuts.push_back({0, n});
    { std::vector<size_t> runs = {0}; for (size_t i = 1; i < n; ++i) if (d[i] != d[i - 1]) runs.push_back(i); runs.push_back(n); cuts.push_back(runs); }
    if (n <= 40) for (size_t i = 0; i <= n; ++i) cuts.push_back({0, i, n});
    if (n <= 14) for (size_t i = 0; i <= n; ++i) for (size_t j = i; j <= n; ++j) cuts.push_back({0, i, j, n});
    for (int x = 0; x < 12; ++x) { std::vector<size_t> c = {0}; size_t p = 0; while (p < n) { p = std::min(n, p + rnd() % (n / 3 + 3)); c.push_back(p); } cuts.push_back(c); }
    group g; size_t k = 0;
    string ref;
    for (auto const& c : cuts) {
        unsigned how = k < 5 ? (unsigned)(k * 0x11) : (unsigned)rnd();
        string name = "pieces"; for (auto x : c) { if (name.size() > 60) break; name += '.' + num((long long)x); }
        switch (k++ % 5) {
            case 0: g.add((name + " string").c_str(), safely([&]() { string o; bool r = go(make_indenter(o, tab, pad), d, c, how); ref = o; return (r ? "" : "refused ") + hex(o); })); break;
            case 1: g.add((name + " back_inserter").c_str(), safely([&]() { std::vector<char> o; bool r = go(make_indenter(std::back_inserter(o), tab, pad), d, c, how); return (r ? "" : "refused ") + shown(o); })); break;
            case 2: g.add((name + " room").c_str(), safely([&]() { room o(ref.size()); bool r = go(make_indenter(o.b(), o.e(), tab, pad), d, c, how); return bounded(o, r, ref.size()); })); break;
            case 3: g.add((name + " list").c_str(), safely([&]() { std::list<char> o; bool r = go(make_indenter(o, tab, pad), d, c, how); return (r ? "" : "refused ") + shown(o); })); break;
            case 4: g.add((name + " stream").c_str(), safely([&]() { std::ostringstream o; bool r = go(make_indenter(std::ostreambuf_iterator<char>(o), tab, pad), d, c, how); return (r ? "" : "refused ") + hex(o.str()); })); break;
        }
    }
    return g.str();
}
// values: V tab pad hex -> as the text of a value, the text, then the text written through the indenter into everything
template <typename V> static void value(group& g, string& out, unsigned tab, char pad, string const& doc) {
    V v;
    if (!cxon::from_bytes(v, doc)) return;
    string plain; if (!cxon::to_bytes(plain, v)) return;
    g = group();
    string ref;
    g.add("string", safely([&]() { string o; auto r = cxon::to_bytes(make_indenter(o, tab, pad), v); ref = o; return (r ? "" : "refused ") + hex(o); }));
    g.add("deque", safely([&]() { std::deque<char> o; auto r = cxon::to_bytes(make_indenter(o, tab, pad), v); return (r ? "" : "refused ") + shown(o); }));
    g.add("back_inserter", safely([&]() { string o; auto r = cxon::to_bytes(make_indenter(std::back_inserter(o), tab, pad), v); return (r ? "" : "refused ") + hex(o); }));
    g.add("stream", safely([&]() { std::ostringstream o; auto r = cxon::to_bytes(make_indenter(std::ostreambuf_iterator<char>(o), tab, pad), v); return (r ? "" : "refused ") + hex(o.str()); }));
    g.add("room", safely([&]() { room o(ref.size()); auto r = cxon::to_bytes(make_indenter(o.b(), o.e(), tab, pad), v); return bounded(o, (bool)r, ref.size()); }));
    g.add("room deque", safely([&]() { std::deque<char> o(ref.size()); auto r = cxon::to_bytes(make_indenter(o.begin(), o.end(), tab, pad), v); return r ? shown(o) : string("refused"); }));
    string low = safely([&]() {
        for (size_t n = 0, few = ref.size() > 300 ? ref.size() / 40 : 1; n < ref.size(); n += n + 20 + few < ref.size() ? few : 1) { room o(n); if (cxon::to_bytes(make_indenter(o.b(), o.e(), tab, pad), v)) return "claimed to fit in " + num((long long)n); }
        return string("ok");
    });
    if (!out.empty()) out += '|';
    out += hex(plain) + "!" + low + "!" + g.str();
}
static string values(args const& a) {
    unsigned tab = (unsigned)atoi(a[0].c_str()); char pad = (char)atoi(a[1].c_str()); string const d = unhex(a[2]);
    group g; string o;
    value<cxon::json::ordered_node>(g, o, tab, pad, d);
    value<cxon::json::node>(g, o, tab, pad, d);
    value<std::vector<std::u16string>>(g, o, tab, pad, d);
    value<std::map<std::string, std::vector<std::u32string>>>(g, o, tab, pad, d);
    value<std::map<std::wstring, double>>(g, o, tab, pad, d);
    value<std::vector<std::map<char, bool>>>(g, o, tab, pad, d);
    return o.empty() ? "none" : o;
}
static vh::reg _1("T", whole);
static vh::reg _2("B", narrow);
static vh::reg _3("S", pieces);
static vh::reg _4("V", values);
VH_MAIN
