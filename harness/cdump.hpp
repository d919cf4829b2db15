// Dynamic values of either kind as canonical text (map entries sorted by their text)
#ifndef CDUMP_HPP_
#define CDUMP_HPP_
#include "vh.hpp"
#include "cxon/lib/node.ordered.hxx"
#include <new>
namespace vh {
    // the greatest single request for storage
    struct heap { static size_t& most() { static size_t m = 0; return m; } };

    inline string nanless(double d) { return d != d ? string("rnan") : "r" + dhex(d); }
    template <typename It, typename F> string pairs(It b, It e, F f) {
        std::vector<string> v;
        for (; b != e; ++b) v.push_back(f(b->first) + ":" + f(b->second));
        std::sort(v.begin(), v.end());
        string o = "{"; for (size_t i = 0; i < v.size(); ++i) { if (i) o += ' '; o += v[i]; }
        return o + "}";
    }
    template <typename C, typename F> string list(C const& c, F f) {
        string o = "["; bool first = true;
        for (auto& x : c) { if (!first) o += ' '; first = false; o += f(x); }
        return o + "]";
    }
    template <typename Tr> string ndump(cxon::cbor::basic_node<Tr> const& n) {
        using namespace cxon::cbor;
        using N = cxon::cbor::basic_node<Tr>;
        auto rec = [](N const& x) { return ndump(x); };
        switch (n.kind()) {
            case node_kind::map:        { auto& m = n.template get<typename N::map>(); return pairs(m.begin(), m.end(), rec); }
            case node_kind::array:      return list(n.template get<typename N::array>(), rec);
            case node_kind::tag:        { auto& t = n.template get<typename N::tag>(); return "t" + unum(t.tag) + "(" + ndump(t.value) + ")"; }
            case node_kind::bytes:      { auto& s = n.template get<typename N::bytes>(); return "b" + hex((const char*)s.data(), s.size()); }
            case node_kind::text:       { auto& s = n.template get<typename N::text>(); return "s" + hex(s.data(), s.size()); }
            case node_kind::real:       return nanless(n.template get<typename N::real>());
            case node_kind::sint:       return "i" + num(n.template get<typename N::sint>());
            case node_kind::uint:       return "u" + unum(n.template get<typename N::uint>());
            case node_kind::simple:     return "x" + unum((unsigned char)n.template get<typename N::simple>());
            case node_kind::boolean:    return n.template get<typename N::boolean>() ? "true" : "false";
            case node_kind::null:       return "null";
            case node_kind::undefined:  return "undef";
        }
        return "?KIND";
    }
    template <typename Tr> string ndump(cxon::json::basic_node<Tr> const& n) {
        using namespace cxon::json;
        using N = cxon::json::basic_node<Tr>;
        auto rec = [](N const& x) { return ndump(x); };
        switch (n.kind()) {
            case node_kind::object:     { auto& m = n.template get<typename N::object>(); return pairs(m.begin(), m.end(), rec); }
            case node_kind::array:      return list(n.template get<typename N::array>(), rec);
            case node_kind::string:     { auto& s = n.template get<typename N::string>(); return "s" + hex(s.data(), s.size()); }
            case node_kind::real:       return nanless(n.template get<typename N::real>());
            case node_kind::sint:       return "i" + num(n.template get<typename N::sint>());
            case node_kind::uint:       return "u" + unum(n.template get<typename N::uint>());
            case node_kind::boolean:    return n.template get<typename N::boolean>() ? "true" : "false";
            case node_kind::null:       return "null";
        }
        return "?KIND";
    }
    template <typename R> string errs(R const& r) { return string(r.ec.category().name()) + ":" + num(r.ec.value()); }
}
#ifdef VH_HEAP
    void* operator new(size_t n) { if (n > vh::heap::most()) vh::heap::most() = n; if (n > (size_t(1) << 30)) throw std::bad_alloc(); if (void* p = malloc(n ? n : 1)) return p; throw std::bad_alloc(); }
    void operator delete(void* p) noexcept { free(p); }
    void operator delete(void* p, size_t) noexcept { free(p); }
#endif
#endif
