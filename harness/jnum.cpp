// Reads JSON numbers into every built-in arithmetic type
#include "jfmt.hpp"
#include "jdump.hpp"
#include "cxon/lib/std/vector.hxx"
#include "cxon/lib/std/map.hxx"
#include "cxon/lib/std/string.hxx"
using namespace vh;

inline string show(float v) { return fhex(v); }
inline string show(double v) { return dhex(v); }
inline string show(long double v) { char b[64]; if (v != v) return "nan"; snprintf(b, sizeof b, "%La", v); return b; }
inline string show(bool v) { return v ? "true" : "false"; }
template <typename T> auto show(T v) -> typename std::enable_if<std::is_integral<T>::value, string>::type { return std::is_signed<T>::value ? num((long long)v) : unum((unsigned long long)v); }
template <typename T> string show(std::vector<T> const& v) { string o = "["; for (size_t i = 0; i < v.size(); ++i) o += (i ? "," : "") + show((T)v[i]); return o + "]"; }
template <typename T> string show(std::map<T, int> const& v) { string o = "{"; for (auto& p : v) o += show(p.first) + ";"; return o + "}"; }

template <typename T>
    struct rd {
        group& g; string nm;
        template <typename It, typename P> void operator()(const char* path, It b, It e, P pos) {
            g.add(nm + "/" + path, safely([&]() {
                T n = T(); auto r = cxon::from_bytes<FMT>(n, b, e);
                if (r) return "ok " + num(pos(r.end)) + " " + show(n);
                return "err " + num(pos(r.end)) + " " + errs(r);
            }));
        }
    };
template <typename T> void go(group& g, const char* nm, string const& s, unsigned mask) { rd<T> r = { g, nm }; deliver(s, r, mask); }

#ifndef VH_W
#   define VH_W(T) T
#endif
static vh::reg _1("I", [](args const& a) {
    string s = unhex(a[1]); unsigned m = (unsigned)atoi(a[0].c_str()); group g;
    go<VH_W(signed char)>(g, "i8", s, m);
    go<VH_W(unsigned char)>(g, "u8", s, m);
    go<VH_W(short)>(g, "i16", s, m);
    go<VH_W(unsigned short)>(g, "u16", s, m);
    go<VH_W(int)>(g, "i32", s, m);
    go<VH_W(unsigned)>(g, "u32", s, m);
    go<VH_W(long long)>(g, "i64", s, m);
    go<VH_W(unsigned long long)>(g, "u64", s, m);
    go<VH_W(long)>(g, "i64l", s, m);
    return g.str();
});
static vh::reg _2("F", [](args const& a) {
    string s = unhex(a[1]); unsigned m = (unsigned)atoi(a[0].c_str()); group g;
    go<VH_W(float)>(g, "f32", s, m);
    go<VH_W(double)>(g, "f64", s, m);
    go<VH_W(long double)>(g, "f80", s, m);
    go<VH_W(bool)>(g, "b", s, m);
    return g.str();
});
VH_MAIN
