// Reads JSON strings into string, character and key targets of every width
#include "jfmt.hpp"
#include "jdump.hpp"
#include "cxon/lib/std/string.hxx"
#include "cxon/lib/std/map.hxx"
#include "cxon/lib/std/vector.hxx"
using namespace vh;

template <typename C> string units(const C* p, size_t n) {
    string o; char b[16];
    for (size_t i = 0; i < n; ++i) { snprintf(b, sizeof b, i ? ",%lx" : "%lx", (unsigned long)typename std::make_unsigned<C>::type(p[i])); o += b; }
    return o.empty() ? "-" : o;
}
#if defined(__cpp_char8_t)
template <> string units<char8_t>(const char8_t* p, size_t n) { return units((const unsigned char*)p, n); }
#endif
template <> string units<char16_t>(const char16_t* p, size_t n) { return units((const unsigned short*)p, n); }
template <> string units<char32_t>(const char32_t* p, size_t n) { return units((const unsigned*)p, n); }

template <typename C> string show(std::basic_string<C> const& s) { return units(s.data(), s.size()); }
template <typename C> auto show(C c) -> typename std::enable_if<sizeof(C) <= 4, string>::type { return units(&c, 1); }
template <typename S> string show(std::map<S, int> const& m) {
    if (m.size() != 1) return "?size";
    return show(m.begin()->first) + ":" + num(m.begin()->second);
}
template <typename T> T make() { return T(); }

template <typename T>
    struct rd {
        group& g; string nm;
        template <typename It, typename P> void operator()(const char* path, It b, It e, P pos) {
            g.add(nm + "/" + path, safely([&]() {
                T n = make<T>(); auto r = cxon::from_bytes<FMT>(n, b, e);
                if (r) return "ok " + num(pos(r.end)) + " " + show(n);
                return "err " + num(pos(r.end)) + " " + errs(r);
            }));
        }
    };
template <typename T> void go(group& g, const char* nm, string const& s, unsigned mask) { rd<T> r = { g, nm }; deliver(s, r, mask); }

#ifndef VH_KEYS
static vh::reg _1("S", [](args const& a) {
    string s = unhex(a[1]); unsigned m = (unsigned)atoi(a[0].c_str()); group g;
    go<std::string>(g, "s8", s, m);
    go<std::u16string>(g, "s16", s, m);
    go<std::u32string>(g, "s32", s, m);
    go<std::wstring>(g, "sw", s, m);
    go<char>(g, "c8", s, m);
    go<char16_t>(g, "c16", s, m);
    go<char32_t>(g, "c32", s, m);
    go<wchar_t>(g, "cw", s, m);
#if defined(__cpp_char8_t)
    go<std::u8string>(g, "s8u", s, m);
    go<char8_t>(g, "c8u", s, m);
#endif
    return g.str();
});
#else
static vh::reg _1("K", [](args const& a) {
    string s = unhex(a[1]); unsigned m = (unsigned)atoi(a[0].c_str()); group g;
    go<std::map<std::string, int>>(g, "k8", s, m);
    go<std::map<std::u16string, int>>(g, "k16", s, m);
    go<std::map<std::u32string, int>>(g, "k32", s, m);
    go<std::map<std::wstring, int>>(g, "kw", s, m);
    return g.str();
});
#endif
VH_MAIN
