// Common part of every conformance harness: reads one case per line ("id\top\targ..."), prints "id\tresult".
// Output is flushed when the process is brought down, so the first case without an answer is the culprit.
#ifndef VH_HPP_
#define VH_HPP_
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdint>
#include <string>
#include <vector>
#include <deque>
#include <list>
#include <map>
#include <sstream>
#include <iterator>
#include <exception>
#include <stdexcept>
#include <new>
#include <algorithm>
#include <functional>
#include <unistd.h>
#include <signal.h>

extern "C" void __sanitizer_set_death_callback(void (*)(void)) __attribute__((weak));

namespace vh {

    using std::string;
    using args = std::vector<string>;

    // ---------------------------------------------------------------- output
    struct outbuf {
        static string& b() { static string s; return s; }
        static void flush() {
            string& s = b(); size_t o = 0;
            while (o < s.size()) { ssize_t n = ::write(1, s.data() + o, s.size() - o); if (n <= 0) break; o += (size_t)n; }
            s.clear();
        }
    };
    inline void on_death() { outbuf::flush(); }
    inline void on_signal(int n) {
        outbuf::flush();
        if (n == SIGALRM) { const char m[] = "VH-HANG\n"; (void)!::write(2, m, sizeof(m)-1); ::_exit(98); }
        ::signal(n, SIG_DFL); ::raise(n);
    }

    // ---------------------------------------------------------------- text helpers
    inline int hv(char c) { return c >= '0' && c <= '9' ? c-'0' : c >= 'a' && c <= 'f' ? c-'a'+10 : c >= 'A' && c <= 'F' ? c-'A'+10 : -1; }
    inline string unhex(string const& h) {
        string r; if (h == "-") return r;
        for (size_t i = 0; i + 1 < h.size(); i += 2) r += (char)(hv(h[i])*16 + hv(h[i+1]));
        return r;
    }
    inline string hex(const void* p, size_t n) {
        static const char d[] = "0123456789abcdef"; string r; r.reserve(2*n);
        const unsigned char* c = (const unsigned char*)p;
        for (size_t i = 0; i < n; ++i) { r += d[c[i] >> 4]; r += d[c[i] & 15]; }
        return r;
    }
    inline string hex(string const& s) { return hex(s.data(), s.size()); }
    inline string num(long long v) { return std::to_string(v); }
    inline string unum(unsigned long long v) { return std::to_string(v); }
    inline string dhex(double d) { uint64_t u; memcpy(&u, &d, 8); if (d != d) return u >> 63 ? "-nan" : "nan"; char b[32]; snprintf(b, sizeof b, "%016llx", (unsigned long long)u); return b; }
    inline string fhex(float d) { uint32_t u; memcpy(&u, &d, 4); if (d != d) return u >> 31 ? "-nan" : "nan"; char b[32]; snprintf(b, sizeof b, "%08x", (unsigned)u); return b; }

    // ---------------------------------------------------------------- checked delivery of bytes
    struct faults { bool oob, stale; static faults& g() { static faults f = {false, false}; return f; } static void reset() { g() = faults{false, false}; } };

    // random access, every access checked against the range
    template <typename C>
    struct ra_it {
        using iterator_category = std::random_access_iterator_tag;
        using value_type = C; using difference_type = std::ptrdiff_t; using pointer = const C*; using reference = const C&;
        const C* b; const C* e; const C* c;
        ra_it() : b(nullptr), e(nullptr), c(nullptr) {}
        ra_it(const C* b_, const C* e_, const C* c_) : b(b_), e(e_), c(c_) {}
        reference operator *() const { static const C z = C(0); if (c < b || c >= e) { faults::g().oob = true; return z; } return *c; }
        reference operator [](difference_type n) const { return *(*this + n); }
        pointer operator ->() const { return &**this; }
        ra_it& mv(difference_type n) { if (c + n < b || c + n > e) faults::g().oob = true; c += n; return *this; }
        ra_it& operator ++() { return mv(1); }   ra_it operator ++(int) { ra_it t(*this); mv(1); return t; }
        ra_it& operator --() { return mv(-1); }  ra_it operator --(int) { ra_it t(*this); mv(-1); return t; }
        ra_it& operator +=(difference_type n) { return mv(n); } ra_it& operator -=(difference_type n) { return mv(-n); }
        friend ra_it operator +(ra_it a, difference_type n) { return a.mv(n); } friend ra_it operator +(difference_type n, ra_it a) { return a.mv(n); }
        friend ra_it operator -(ra_it a, difference_type n) { return a.mv(-n); }
        friend difference_type operator -(ra_it const& a, ra_it const& b) { return a.c - b.c; }
        friend bool operator ==(ra_it const& a, ra_it const& b) { return a.c == b.c; } friend bool operator !=(ra_it const& a, ra_it const& b) { return a.c != b.c; }
        friend bool operator <(ra_it const& a, ra_it const& b) { return a.c < b.c; }   friend bool operator >(ra_it const& a, ra_it const& b) { return a.c > b.c; }
        friend bool operator <=(ra_it const& a, ra_it const& b) { return a.c <= b.c; } friend bool operator >=(ra_it const& a, ra_it const& b) { return a.c >= b.c; }
    };
    // single pass: a copy that has been overtaken must not be used again
    template <typename C>
    struct in_it {
        using iterator_category = std::input_iterator_tag;
        using value_type = C; using difference_type = std::ptrdiff_t; using pointer = const C*; using reference = const C&;
        struct src { const C* d; size_t n; size_t p; };
        src* s; size_t at;
        in_it() : s(nullptr), at(size_t(-1)) {}
        explicit in_it(src* s_) : s(s_), at(s_->p) {}
        bool end() const { return s == nullptr || at >= s->n; }
        reference operator *() const {
            static const C z = C(0);
            if (end()) { faults::g().oob = true; return z; }
            if (at != s->p) faults::g().stale = true;
            return s->d[at];
        }
        in_it& operator ++() {
            if (end()) { faults::g().oob = true; return *this; }
            if (at != s->p) faults::g().stale = true;
            s->p = ++at; return *this;
        }
        struct proxy { C v; C operator *() const { return v; } };
        proxy operator ++(int) { proxy p = { **this }; ++*this; return p; }
        friend bool operator ==(in_it const& a, in_it const& b) { return a.end() == b.end() && (a.end() || a.at == b.at); }
        friend bool operator !=(in_it const& a, in_it const& b) { return !(a == b); }
    };

    // an exact-size heap copy of the bytes: reading outside is caught by the address sanitizer
    template <typename C>
    struct exact {
        C* p; size_t n;
        explicit exact(string const& s) : p((C*)malloc(s.size() ? s.size() : 1)), n(s.size()) {
            memcpy(p, s.data(), n);
            if (n == 0) { free(p); p = (C*)malloc(1); poison(); }
        }
        exact(const C* q, size_t k) : p((C*)malloc(k ? k * sizeof(C) : 1)), n(k) {
            memcpy(p, q, k * sizeof(C));
            if (n == 0) { free(p); p = (C*)malloc(1); poison(); }
        }
        void poison();
        ~exact() { unpoison(); free(p); }
        void unpoison();
        exact(exact const&) = delete; exact& operator =(exact const&) = delete;
    };
}
extern "C" { void __asan_poison_memory_region(void const volatile*, size_t) __attribute__((weak)); void __asan_unpoison_memory_region(void const volatile*, size_t) __attribute__((weak)); }
namespace vh {
    template <typename C> void exact<C>::poison() { if (__asan_poison_memory_region) __asan_poison_memory_region(p, 1); }
    template <typename C> void exact<C>::unpoison() { if (n == 0 && __asan_unpoison_memory_region) __asan_unpoison_memory_region(p, 1); }

    // results of the delivery paths, equal ones grouped
    struct group {
        std::vector<std::pair<string, string>> g; // result -> paths
        void add(string const& path, string const& r) {
            for (auto& p : g) if (p.first == r) { p.second += "," + path; return; }
            g.push_back(std::make_pair(r, path));
        }
        string str() const { string o; for (size_t i = 0; i < g.size(); ++i) { if (i) o += " | "; o += g[i].second + "=" + g[i].first; } return o; }
    };
    inline string guard() { string r; if (faults::g().oob) r += "OOB "; if (faults::g().stale) r += "STALE "; return r; }

    template <typename F>
        string safely(F f) {
            faults::reset();
            try { string r = f(); return guard() + r; }
            catch (std::bad_alloc const&) { return guard() + "EXC bad_alloc"; }
            catch (std::length_error const&) { return guard() + "EXC length_error"; }
            catch (std::exception const& e) { return guard() + "EXC " + e.what(); }
            catch (...) { return guard() + "EXC"; }
        }

    // Deliver bytes in every way; F is a functor template: r(begin, end, pos) where pos(it) is the offset of it
    // void operator()(path, b, e, posfn)
#ifndef VH_PATHS
#   define VH_PATHS 255
#endif
    template <typename F>
        void deliver(string const& s, F& f, unsigned mask = ~0u) {
#if VH_PATHS & 1
            if (mask & 1) { exact<char> x(s); const char* b = x.p; f("ptr", b, b + x.n, [b](const char* i) { return (long long)(i - b); }); }
#endif
#if VH_PATHS & 2
            if (mask & 2) { exact<char> x(s); char* b = x.p; f("mptr", b, b + x.n, [b](char* i) { return (long long)(i - b); }); }
#endif
#if VH_PATHS & 4
            if (mask & 4) { exact<char> x(s); const char* b = x.p; using it = ra_it<char>; f("ra", it(b, b + x.n, b), it(b, b + x.n, b + x.n), [b](it i) { return (long long)(i.c - b); }); }
#endif
#if VH_PATHS & 8
            if (mask & 8) { exact<char> x(s); using it = in_it<char>; it::src q = { x.p, x.n, 0 }; it e; e.s = &q; e.at = x.n; f("in", it(&q), e, [](it i) { return (long long)i.at; }); }
#endif
#if VH_PATHS & 16
            if (mask & 16) { std::deque<char> d(s.begin(), s.end()); f("deque", d.cbegin(), d.cend(), [&d](std::deque<char>::const_iterator i) { return (long long)(i - d.cbegin()); }); }
#endif
#if VH_PATHS & 32
            if (mask & 32) { std::list<char> d(s.begin(), s.end()); f("list", d.cbegin(), d.cend(), [&d](std::list<char>::const_iterator i) { return (long long)std::distance(d.cbegin(), i); }); }
#endif
#if VH_PATHS & 64
            if (mask & 64) { std::istringstream d(s); using it = std::istreambuf_iterator<char>; f("stream", it(d), it(), [&d, &s](it i) { if (i == it()) return (long long)s.size(); d.clear(); return (long long)d.tellg(); }); }
#endif
#if VH_PATHS & 128
            if (mask & 128) { std::string d(s); d.shrink_to_fit(); f("str", d.cbegin(), d.cend(), [&d](std::string::const_iterator i) { return (long long)(i - d.cbegin()); }); }
#endif
#if VH_PATHS & 256
            if (mask & 256) { exact<unsigned char> x(s); const unsigned char* b = x.p; f("uptr", b, b + x.n, [b](const unsigned char* i) { return (long long)(i - b); }); }
#endif
        }

    // ---------------------------------------------------------------- main loop
    using op_fn = std::function<string(args const&)>;
    inline std::map<string, op_fn>& ops() { static std::map<string, op_fn> m; return m; }
    struct reg { reg(const char* n, op_fn f) { ops()[n] = f; } };
    inline int main_loop() {
        if (__sanitizer_set_death_callback) __sanitizer_set_death_callback(on_death);
        for (int n : { SIGABRT, SIGALRM, SIGFPE, SIGILL }) ::signal(n, on_signal);
        if (!__sanitizer_set_death_callback) for (int n : { SIGSEGV, SIGBUS }) ::signal(n, on_signal);
        string line; char* lp = nullptr; size_t cap = 0; ssize_t n;
        while ((n = getline(&lp, &cap, stdin)) > 0) {
            if (lp[n-1] == '\n') --n;
            line.assign(lp, (size_t)n);
            args a; size_t o = 0;
            for (;;) { size_t t = line.find('\t', o); a.push_back(line.substr(o, t == string::npos ? t : t - o)); if (t == string::npos) break; o = t + 1; }
            if (a.size() < 2) continue;
            string id = a[0], op = a[1]; a.erase(a.begin(), a.begin() + 2);
            auto f = ops().find(op);
            ::alarm(20);
            string r = f == ops().end() ? string("NOOP ") + op : safely([&]() { return f->second(a); });
            ::alarm(0);
            outbuf::b() += id + "\t" + r + "\n";
            if (outbuf::b().size() > (1u << 16)) outbuf::flush();
        }
        free(lp);
        outbuf::flush();
        return 0;
    }
}
#define VH_MAIN int main() { int r = vh::main_loop(); fflush(stdout); return r; }
#endif
