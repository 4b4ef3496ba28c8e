// Objects of many value types and kinds behind one interface, for generated concurrent programs. Values are small codes;
// each type maps a code to a value whose bytes all depend on it, so that a torn or invented value decodes to BAD.
#ifndef VERIF_CONCOBJ_HPP
#define VERIF_CONCOBJ_HPP
#include "common.hpp"
namespace vf {
const unsigned BAD = ~0u;
enum CCode { C_LOAD, C_STORE, C_XCHG, C_CAS, C_CASW, C_ADD, C_SUB, C_WAIT, C_WAITFOR, C_WAITUNTIL, C_N1, C_NALL, C_COUNT };
inline const char* const* cc_names() { static const char* const n[] = { "load", "store", "exchange", "cas_strong", "cas_weak", "fetch_add", "fetch_sub", "wait", "wait_for", "wait_until", "notify_one", "notify_all" }; return n; }
// clocks and duration types of timed waits
enum { K_STEADY, K_SYSTEM, K_CUSTOM, K_SLOW, K_POSIX_MONO, K_POSIX_TAI, K_COARSE, K_THROW, K_COUNT };
inline const char* const* clk_names() { static const char* const n[] = { "steady", "system", "custom", "slow", "posix-monotonic", "posix-tai", "coarse", "throwing" }; return n; }
enum { D_NS, D_US, D_MS, D_S, D_INTMS, D_HOURS, D_FSEC, D_PS, D_COUNT };
inline const char* const* dur_names() { static const char* const n[] = { "ns", "us", "ms", "s", "int-ms", "hours", "double-s", "ps" }; return n; }
struct CArg { int code; unsigned a, b; int mo, fmo; int clk, dur; std::int64_t t; unsigned thr; CArg() : code(0), a(0), b(0), mo(5), fmo(5), clk(0), dur(0), t(0), thr(0) {} };
struct CRes { unsigned v; bool ok; bool timeout, threw; CRes() : v(0), ok(false), timeout(false), threw(false) {} };
// the seconds of a floating point duration, for a time in nanoseconds
inline double fsec(std::int64_t t) { return t == INT64_MAX ? 1e300 : t == INT64_MIN ? -1e300 : (double)((long double)t / 1e9L); }
struct ClockFailed {}; // thrown by the clock of K_THROW
struct CObj {
    std::string type, kind; size_t size, align, vsize; unsigned dom; bool ipc, is_ref, flag, arith, lf, native;
    virtual ~CObj() {}
    virtual void init(void* p, unsigned c) const = 0;            // construct the object in raw memory
    // constructing a reference writes the padding of the referenced object, so for types with padding the references are made
    // here, before the threads run, and copied by op
    virtual void attach(void* p) const { (void)p; }
    virtual void op(void* p, const CArg& a, CRes& r) const = 0;  // one operation through a handle for address p
    virtual unsigned peek(const void* p) const = 0;              // decode the bytes of the value, without any operation
    virtual bool lockfree(void* p) const = 0; virtual bool nativewait(void* p) const = 0;
};
inline std::vector<CObj*>& cobjs() { static std::vector<CObj*>* v = new std::vector<CObj*>; return *v; }
inline CObj* find_cobj(const std::string& type, const std::string& kind) { for (size_t i = 0; i < cobjs().size(); ++i) if (cobjs()[i]->type == type && cobjs()[i]->kind == kind) return cobjs()[i]; return 0; }
inline bool cobj_less(CObj* a, CObj* b) { return a->type != b->type ? a->type < b->type : a->kind < b->kind; }
// what the clocks of timed waits read; supplied by the harness main
struct ClockSource { std::int64_t (*mono)(); std::int64_t (*real)(); bool (*fails)(); };
inline ClockSource& clock_source() { static ClockSource c = { 0, 0, 0 }; return c; }
const std::int64_t COARSE_OFF = 5000000000000000ll; // this clock's epoch is in the future
inline std::int64_t clock_now(int clk) { std::int64_t m = clock_source().mono(); switch (clk) { case K_SYSTEM: return clock_source().real(); case K_CUSTOM: return m / 1000 * 1000 + 777000000000ll; case K_SLOW: return m / 2; case K_COARSE: return m / 1000000000 * 1000000000 - COARSE_OFF; case K_POSIX_TAI: return clock_source().real() + 37000000000ll; default: return m; } }
}
#endif
