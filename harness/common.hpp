// Shared helpers of the harnesses: random numbers, case text, statistics output, options.
#ifndef VERIF_COMMON_HPP
#define VERIF_COMMON_HPP
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <sstream>
#include <fstream>
#include <algorithm>
#include <type_traits>
#include <signal.h>
#include <unistd.h>
#include <time.h>

extern "C" void __sanitizer_set_death_callback(void (*)()) __attribute__((weak));
namespace vf {
typedef std::uint64_t u64;
#if defined(__SIZEOF_INT128__)
typedef unsigned __int128 u128;
#else
struct u128 { // what the harnesses use of it
    u64 lo, hi;
    u128() = default;
    template <class T, class = typename std::enable_if<std::is_integral<T>::value || std::is_enum<T>::value>::type> u128(T v) : lo((u64)v), hi(std::is_signed<T>::value && (long long)v < 0 ? ~(u64)0 : 0) {}
    template <class T, class = typename std::enable_if<std::is_integral<T>::value>::type> explicit operator T() const { return (T)lo; }
    explicit operator bool() const { return (lo | hi) != 0; }
    static u128 mk(u64 h, u64 l) { u128 r; r.lo = l; r.hi = h; return r; }
    friend u128 operator&(u128 a, u128 b) { return mk(a.hi & b.hi, a.lo & b.lo); }
    friend u128 operator|(u128 a, u128 b) { return mk(a.hi | b.hi, a.lo | b.lo); }
    friend u128 operator^(u128 a, u128 b) { return mk(a.hi ^ b.hi, a.lo ^ b.lo); }
    friend u128 operator~(u128 a) { return mk(~a.hi, ~a.lo); }
    friend u128 operator+(u128 a, u128 b) { u64 l = a.lo + b.lo; return mk(a.hi + b.hi + (l < a.lo), l); }
    friend u128 operator-(u128 a, u128 b) { return mk(a.hi - b.hi - (a.lo < b.lo), a.lo - b.lo); }
    friend u128 operator<<(u128 a, u64 n) { return n == 0 ? a : n >= 64 ? mk(a.lo << (n - 64), 0) : mk(a.hi << n | a.lo >> (64 - n), a.lo << n); }
    friend u128 operator>>(u128 a, u64 n) { return n == 0 ? a : n >= 64 ? mk(0, a.hi >> (n - 64)) : mk(a.hi >> n, a.lo >> n | a.hi << (64 - n)); }
    friend u128 operator*(u128 a, unsigned n) { u128 r = 0; for (int i = 32; i-- > 0;) { r = r << 1; if (n >> i & 1) r = r + a; } return r; }
    friend unsigned operator%(u128 a, unsigned n) { u64 r = 0; for (int i = 128; i-- > 0;) r = (r << 1 | ((i >= 64 ? a.hi >> (i - 64) : a.lo >> i) & 1)) % n; return (unsigned)r; }
    friend bool operator==(u128 a, u128 b) { return a.lo == b.lo && a.hi == b.hi; }
    friend bool operator!=(u128 a, u128 b) { return !(a == b); }
    friend bool operator<(u128 a, u128 b) { return a.hi != b.hi ? a.hi < b.hi : a.lo < b.lo; }
    friend bool operator>(u128 a, u128 b) { return b < a; }
    friend bool operator<=(u128 a, u128 b) { return !(b < a); }
    friend bool operator>=(u128 a, u128 b) { return !(a < b); }
    u128& operator&=(u128 b) { return *this = *this & b; }
};
#endif

inline u64 splitmix(u64& s) { s += 0x9E3779B97F4A7C15ull; u64 z = s; z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
inline u64 mix(u64 a, u64 b) { u64 s = a * 0xD6E8FEB86659FD93ull + b; splitmix(s); return splitmix(s); }

struct Rng {
    u64 s;
    explicit Rng(u64 seed) : s(seed) { next(); next(); }
    u64 next() { return splitmix(s); }
    u64 below(u64 n) { return n ? next() % n : 0; }
    bool chance(unsigned num, unsigned den) { return below(den) < num; }
};

inline std::string hex128(u128 v) { char b[40]; std::snprintf(b, sizeof b, "%016llx%016llx", (unsigned long long)(u64)(v >> 64), (unsigned long long)(u64)v); const char* p = b; while (*p == '0' && p[1]) ++p; return p; }
inline u128 parse128(const std::string& s) { u128 v = 0; for (size_t i = 0; i < s.size(); ++i) { char c = s[i]; int d = c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : 0; v = (v << 4) | (unsigned)d; } return v; }

inline double wall() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

// A deliberately boundary-heavy 128-bit value
inline u128 gen_bits(Rng& r, unsigned bits) {
    u128 mask = bits >= 128 ? ~(u128)0 : (((u128)1 << bits) - 1);
    u128 v;
    switch (r.below(10)) {
    case 0: v = r.below(4); break;
    case 1: v = ~(u128)0 - r.below(4); break;
    case 2: v = ((u128)1 << (bits - 1)) + r.below(3) - 1; break;          // around min/max
    case 3: v = ((u128)1 << r.below(bits)); break;
    case 4: v = ((u128)1 << r.below(bits)) - 1; break;
    case 5: v = ~((u128)1 << r.below(bits)); break;
    case 6: v = r.below(256); break;
    case 7: v = (u128)(u64)0x5555555555555555ull | ((u128)0x5555555555555555ull << 64); if (r.below(2)) v = ~v; break;
    default: v = ((u128)r.next() << 64) | r.next(); break;
    }
    return v & mask;
}

struct Options {
    u64 seed; u64 cases; double budget; std::string out, replay, replay_out, mode; bool verbose; u64 extra;
    Options() : seed(1), cases(1000), budget(1e9), verbose(false), extra(0) {}
    void parse(int argc, char** argv) {
        for (int i = 1; i < argc; ++i) {
            std::string a = argv[i]; std::string v = i + 1 < argc ? argv[i + 1] : "";
            if (a == "--seed") { seed = strtoull(v.c_str(), 0, 10); ++i; }
            else if (a == "--cases") { cases = strtoull(v.c_str(), 0, 10); ++i; }
            else if (a == "--budget") { budget = atof(v.c_str()); ++i; }
            else if (a == "--out") { out = v; ++i; }
            else if (a == "--replay") { replay = v; ++i; }
            else if (a == "--replay-out") { replay_out = v; ++i; }
            else if (a == "--mode") { mode = v; ++i; }
            else if (a == "--extra") { extra = strtoull(v.c_str(), 0, 10); ++i; }
            else if (a == "-v") verbose = true;
        }
    }
};

inline std::string jesc(const std::string& s) { std::string o; for (size_t i = 0; i < s.size(); ++i) { unsigned char c = s[i]; if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c == '\n') o += "\\n"; else if (c < 32) o += ' '; else o += c; } return o; }

struct Stats {
    u64 evaluations; std::set<u64> distinct; std::map<std::string, u64> classes; std::vector<std::string> samples;
    std::string failure; bool budget_hit;
    Stats() : evaluations(0), budget_hit(false) {}
    void cls(const std::string& k, u64 n = 1) { classes[k] += n; }
    void sample(const std::string& s) { if (samples.size() < 4) samples.push_back(s); }
    void write(const std::string& path) const {
        if (path.empty()) return;
        std::ofstream f(path.c_str());
        f << "{\"evaluations\":" << evaluations << ",\"distinct_nontrivial\":" << distinct.size() << ",\"budget_hit\":" << (budget_hit ? "true" : "false") << ",\"failure\":\"" << jesc(failure) << "\",\"classes\":{";
        bool first = true;
        for (std::map<std::string, u64>::const_iterator i = classes.begin(); i != classes.end(); ++i) { if (!first) f << ","; first = false; f << "\"" << jesc(i->first) << "\":" << i->second; }
        f << "},\"samples\":[";
        for (size_t i = 0; i < samples.size(); ++i) { if (i) f << ","; f << "\"" << jesc(samples[i]) << "\""; }
        f << "]}\n";
    }
};

enum { EXIT_VIOLATION = 10 };
// what a sequential harness decides: 0 results against the model; 1 only the bytes around the object; 2 as 1 with concurrent
// writers of those bytes; 3 only what the sanitizer or memcheck reports
enum { M_MODEL, M_FOOTPRINT, M_NEIGHBOUR, M_UB };
inline int& seq_mode() { static int m = M_MODEL; return m; }

inline std::string slurp(const std::string& p) { std::ifstream f(p.c_str()); std::stringstream ss; ss << f.rdbuf(); return ss.str(); }
inline void spit(const std::string& p, const std::string& s) { if (p.empty()) return; std::ofstream f(p.c_str()); f << s; }

// ---- crash capture: the text of the case being run is kept here and dumped by the signal handler
struct Crash {
    static char* text() { static char buf[1 << 16]; return buf; }
    static std::string& path() { static std::string* p = new std::string; return *p; }
    static std::string& outpath() { static std::string* p = new std::string; return *p; }
    static void set(const std::string& s) { size_t n = s.size() < (1 << 16) - 1 ? s.size() : (1 << 16) - 1; memcpy(text(), s.data(), n); text()[n] = 0; }
    static void handler(int sig) {
        const char m[] = "crash signal in case\n"; ssize_t w = ::write(2, m, sizeof m - 1); (void)w;
        if (FILE* f = fopen(path().c_str(), "w")) { fputs(text(), f); fclose(f); }
        if (FILE* f = fopen(outpath().c_str(), "w")) { fprintf(f, "{\"evaluations\":1,\"distinct_nontrivial\":1,\"budget_hit\":false,\"failure\":\"%s (signal %d)\",\"classes\":{},\"samples\":[]}", sig == SIGALRM ? "a call did not return within 25 s" : sig == 0 ? "sanitizer report" : "crashed", sig); fclose(f); }
        _exit(EXIT_VIOLATION);
    }
    static void died() { handler(0); }
    static void install(const Options& o) {
        path() = o.replay_out; outpath() = o.out;
        if (__sanitizer_set_death_callback) __sanitizer_set_death_callback(&Crash::died);
        static char stack[1 << 16]; stack_t st; memset(&st, 0, sizeof st); st.ss_sp = stack; st.ss_size = sizeof stack; sigaltstack(&st, 0);
        struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = handler; sa.sa_flags = SA_ONSTACK;
        int sigs[] = { SIGALRM, SIGSEGV, SIGBUS, SIGILL, SIGFPE, SIGABRT };
        for (unsigned i = 0; i < sizeof sigs / sizeof *sigs; ++i) sigaction(sigs[i], &sa, 0);
    }
};
} // namespace vf
#endif
