// Dynamic JSON values as the events of the specification
#ifndef JDUMP_HPP_
#define JDUMP_HPP_
#include "vh.hpp"
#include "cxon/lib/node.ordered.hxx"
namespace vh {
    template <typename N> void jdump(string& o, N const& n, bool key = false) {
        using namespace cxon::json;
        if (!o.empty()) o += ' ';
        switch (n.kind()) {
            case node_kind::object: {
                o += key ? "k{" : "{";
                for (auto& kv : cxon::json::get<typename N::object>(n)) { jdump(o, kv.first, true); jdump(o, kv.second); }
                o += " }"; break;
            }
            case node_kind::array: {
                o += key ? "k[" : "[";
                for (auto& v : cxon::json::get<typename N::array>(n)) jdump(o, v);
                o += " ]"; break;
            }
            case node_kind::string: { auto& s = cxon::json::get<typename N::string>(n); o += key ? 'k' : 's'; o += hex(s.data(), s.size() * sizeof(s[0])); break; }
            case node_kind::real:   { if (key) o += 'k'; o += 'r' + dhex(cxon::json::get<typename N::real>(n)); break; }
            case node_kind::sint:   { if (key) o += 'k'; o += 'i' + num(cxon::json::get<typename N::sint>(n)); break; }
            case node_kind::uint:   { if (key) o += 'k'; o += 'u' + unum(cxon::json::get<typename N::uint>(n)); break; }
            case node_kind::boolean:{ if (key) o += 'k'; o += cxon::json::get<typename N::boolean>(n) ? "true" : "false"; break; }
            case node_kind::null:   { if (key) o += 'k'; o += "null"; break; }
            default: o += "?KIND";
        }
    }
    template <typename N> string jdump(N const& n) { string o; jdump(o, n); return o; }
    template <typename R> string errs(R const& r) { return string(r.ec.category().name()) + ":" + num(r.ec.value()); }
}
#endif
