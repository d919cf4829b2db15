// Writes values of a given number of elements as CBOR; reports the first bytes, the size and whether it reads back equal
#include "cxon/json.hxx"
#include "cxon/cbor.hxx"
#include "cdump.hpp"
#include "cxon/lib/node.cbor.hxx"
#include "cxon/lib/std/string.hxx"
#include "cxon/lib/std/vector.hxx"
#include "cxon/lib/std/deque.hxx"
#include "cxon/lib/std/list.hxx"
#include "cxon/lib/std/map.hxx"
#include "cxon/lib/std/set.hxx"
#include "cxon/lib/std/valarray.hxx"
#include "cxon/lib/std/forward_list.hxx"
using namespace vh;
using FMT = cxon::CBOR<>;
template <typename T> string show(T const& t) {
    string o; auto w = cxon::to_bytes<FMT>(o, t);
    if (!w) return "err";
    T u; auto r = cxon::from_bytes<FMT>(u, o.data(), o.data() + o.size());
    string q; for (auto c : o) q.push_back(c);
    return hex(o.substr(0, 9)) + " " + unum(o.size()) + " " + (!r ? "unreadable" : r.end != o.data() + o.size() ? "rest" : u == t ? "same" : "differs");
}
template <typename N> string nodes(string const& k, size_t n) {
    N t;
    if (k == "text")        t = typename N::text(n, 'a');
    else if (k == "bytes")  t = typename N::bytes(n, (unsigned char)0x80);
    else if (k == "array")  t = typename N::array(n, N(nullptr));
    else if (k == "map")    { typename N::map m; for (size_t i = 0; i < n; ++i) cxon::cnt::emplace(m, N((typename N::uint)i), N(nullptr)); t = std::move(m); }
    else if (k == "in")     { typename N::array a(1, N(typename N::text(n, 'b'))); t = std::move(a); }
    else return "?";
    return show(t);
}
static string jnodes(string const& k, size_t n) {
    using N = cxon::json::node;
    N t;
    if (k == "text")        t = N::string(n, 'a');
    else if (k == "array")  t = N::array(n, N(nullptr));
    else if (k == "map")    { N::object m; for (size_t i = 0; i < n; ++i) m.emplace(N((N::uint)i), N(nullptr)); t = std::move(m); }
    else return "?";
    return show(t);
}
static string typed(string const& k, size_t n) {
    if (k == "string")  return show(string(n, 'x'));
    if (k == "chars")   return show(std::vector<char>(n, 'x'));
    if (k == "cdeque")  return show(std::deque<char>(n, 'x'));
    if (k == "uchars")  return show(std::vector<unsigned char>(n, 0xFF));
    if (k == "ulist")   return show(std::list<unsigned char>(n, 1));
    if (k == "schars")  return show(std::vector<signed char>(n, -1));
    if (k == "ints")    return show(std::vector<int>(n, 0));
    if (k == "flist")   return show(std::forward_list<int>(n, 23));
    if (k == "bools")   return show(std::vector<bool>(n, true));
    if (k == "u16")     return show(std::u16string(n, u'\x10'));
    if (k == "u32")     return show(std::u32string(n, U'\x10'));
    if (k == "map")     { std::map<unsigned, bool> m; for (size_t i = 0; i < n; ++i) m[(unsigned)i] = true; return show(m); }
    if (k == "set")     { std::set<unsigned> m; for (size_t i = 0; i < n; ++i) m.insert((unsigned)i); return show(m); }
    if (k == "cstr")    {
        string x(n, 'x'); const char* c = x.c_str(); string o; auto w = cxon::to_bytes<FMT>(o, c);
        if (!w) return "err";
        const char* u = nullptr; auto r = cxon::from_bytes<FMT>(u, o.data(), o.data() + o.size());
        bool s = r && r.end == o.data() + o.size() && u && x == u; ::operator delete(const_cast<char*>(u));
        return hex(o.substr(0, 9)) + " " + unum(o.size()) + " " + (s ? "same" : "differs");
    }
    return "?";
}
// N kind n
static vh::reg _1("N", [](args const& a) { return safely([&]() { return nodes<cxon::cbor::node>(a[0], (size_t)atol(a[1].c_str())); }); });
static vh::reg _2("O", [](args const& a) { return safely([&]() { return nodes<cxon::cbor::ordered_node>(a[0], (size_t)atol(a[1].c_str())); }); });
static vh::reg _3("J", [](args const& a) { return safely([&]() { return jnodes(a[0], (size_t)atol(a[1].c_str())); }); });
static vh::reg _4("T", [](args const& a) { return safely([&]() { return typed(a[0], (size_t)atol(a[1].c_str())); }); });
VH_MAIN
