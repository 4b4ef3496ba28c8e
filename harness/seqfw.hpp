// Sequential differential testing of one object against a reference model (used by C01, C02, C03, C05, C16).
// A case is: value type, object kind, placement, initial value and a list of operations. Everything random in a
// case is in its text, so a case replays and shrinks as one value.
#ifndef VERIF_SEQFW_HPP
#define VERIF_SEQFW_HPP
#include "seqiface.hpp"
#include <sys/mman.h>
#include <type_traits>
#include <chrono>
#include <new>
#include <limits>
#include <cmath>
#include <pthread.h>
#include <semaphore.h>
#include <valgrind/memcheck.h>
#include <boost/memory_order.hpp>
#include <boost/atomic/atomic.hpp>
#include <boost/atomic/atomic_ref.hpp>
#include <boost/atomic/atomic_flag.hpp>
#include <boost/atomic/ipc_atomic.hpp>
#include <boost/atomic/ipc_atomic_ref.hpp>
#include <boost/atomic/ipc_atomic_flag.hpp>

namespace vf {
struct CatGeneric {}; struct CatBool {}; struct CatEnum {}; struct CatInt {}; struct CatFP {}; struct CatPtr {}; struct CatFlag {};

// ---------------------------------------------------------------- guarded memory
struct Arena {
    unsigned char* page; size_t len;
    Arena() { long ps = 4096; unsigned char* p = (unsigned char*)mmap(0, ps * 3, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
        if (p == MAP_FAILED) { perror("mmap"); _exit(3); } mprotect(p + ps, ps, PROT_READ | PROT_WRITE); page = p + ps; len = ps; }
    static unsigned char canary(size_t i) { return (unsigned char)(0xA5 ^ (i * 37)); }
    void fill() { for (size_t i = 0; i < len; ++i) page[i] = canary(i); }
    // offset for an object of the given size/alignment; place 0 = page end, 1 = page start, otherwise somewhere in between
    size_t offset(unsigned place, size_t size, size_t align) const {
        if (place == 0) return (len - size) / align * align;
        if (place == 1) return 0;
        size_t slots = (len - size) / align; return (place % (slots + 1)) * align;
    }
    // check that nothing outside [off, off+size) changed
    long check(size_t off, size_t size) const {
        static unsigned char ref[4096]; static bool init = false;
        if (!init) { for (size_t i = 0; i < sizeof ref; ++i) ref[i] = canary(i); init = true; }
        if (off && memcmp(page, ref, off) != 0) { for (size_t i = 0; i < off; ++i) if (page[i] != ref[i]) return (long)i - (long)off; }
        size_t e = off + size;
        if (memcmp(page + e, ref + e, len - e) != 0) { for (size_t i = e; i < len; ++i) if (page[i] != ref[i]) return (long)i - (long)off; }
        return 0;
    }
};
// A second thread that keeps rewriting the bytes next to the object and reports any of them changing under it
struct Neighbour {
    unsigned char* lo; unsigned char* hi; unsigned char* olo; unsigned char* ohi; int run; long bad; bool up; sem_t go, done;
    static Neighbour& get() { static Neighbour* n = new Neighbour; return *n; }
    static void* body(void* p) { Neighbour& n = *static_cast<Neighbour*>(p);
        for (;;) {
            while (sem_wait(&n.go) != 0) {}
            unsigned char k = 1; bool first = true;
            do {
                for (int rep = 0; rep < 8; ++rep, ++k) {
                    for (unsigned char* q = n.lo; q < n.hi; ++q) {
                        if (q == n.olo) { q = n.ohi; if (q >= n.hi) break; }
                        volatile unsigned char* vq = q; if (!first && *vq != (unsigned char)(k - 1) && !n.bad) n.bad = (long)(q - n.olo);
                        *vq = k; }
                    first = false; }
            } while (__atomic_load_n(&n.run, __ATOMIC_ACQUIRE));
            sem_post(&n.done); }
        return 0; }
    void start(unsigned char* page, size_t len, unsigned char* o, size_t sz) {
        if (!up) { up = true; sem_init(&go, 0, 0); sem_init(&done, 0, 0); pthread_t t; pthread_create(&t, 0, body, this); pthread_detach(t); }
        olo = o; ohi = o + sz; lo = o - page > 16 ? o - 16 : page; hi = page + len - ohi > 16 ? ohi + 16 : page + len; bad = 0;
        __atomic_store_n(&run, 1, __ATOMIC_RELEASE); sem_post(&go); }
    bool stop(Arena& A) { __atomic_store_n(&run, 0, __ATOMIC_RELEASE); while (sem_wait(&done) != 0) {}
        for (unsigned char* q = lo; q < hi; ++q) if (q < olo || q >= ohi) *q = Arena::canary((size_t)(q - A.page));
        return bad == 0; }
    Neighbour() : lo(), hi(), olo(), ohi(), run(0), bad(0), up(false) {}
};
// under memcheck: make the bytes that are not part of the value undefined
template <class T, class C> inline void undefine_padding(T&, C) {}
template <class T> inline void undefine_padding(T& t, CatFP) { if (sizeof(T) > 8) { VALGRIND_MAKE_MEM_UNDEFINED((unsigned char*)&t + 10, sizeof(T) - 10); } }
inline bool on_valgrind() { static bool v = RUNNING_ON_VALGRIND != 0; return v; }
// 0: objects, 1: operand a, 2: operand b / expected
inline Arena& arena(int k) { static Arena a[3]; return a[k]; }

// ---------------------------------------------------------------- type traits of the model

template <class T> struct TT; // name(), cat, bits, from(u128), eq(a,b), str(a), flip(a,u128)

inline std::string bytes_str(const void* p, size_t n) { std::string s; char b[4]; for (size_t i = 0; i < n; ++i) { snprintf(b, sizeof b, "%02x", ((const unsigned char*)p)[i]); s += b; } return s; }

template <class T, class U> struct TTInt {
    typedef CatInt cat; typedef U U_t; enum { bits = sizeof(T) * 8, nbits = sizeof(T) * 8 - ((T)-1 < (T)0 ? 1 : 0) };
    static T from(u128 v) { return (T)(U)v; }
    static bool eq(const T& a, const T& b) { return a == b; }
    static std::string str(const T& a) { return hex128((u128)(U)a); }
    static T flip(const T& a, u128 r) { return (T)(U)((U)a ^ ((U)1 << (unsigned)(r % bits))); }
    static T neg(const T& a) { return (T)(U)((U)0 - (U)a); }
    static T inv(const T& a) { return (T)(U)~(U)a; }
};
#define VF_INT(T, U, N) template <> struct TT< T > : TTInt< T, U > { static const char* name() { return N; } };
#define VF_ENUM(T, U, N) template <> struct TT< T > : TTInt< T, U > { typedef CatEnum cat; enum { nbits = sizeof(T) * 8 - (std::is_signed<std::underlying_type< T >::type>::value ? 1 : 0) }; static const char* name() { return N; } };

template <class T> struct TTPtr {
    typedef CatPtr cat; enum { bits = sizeof(T) * 8 };
    static T from(u128 v) { return reinterpret_cast<T>((std::uintptr_t)v); }
    static bool eq(const T& a, const T& b) { return a == b; }
    static std::string str(const T& a) { return hex128((u128)reinterpret_cast<std::uintptr_t>(a)); }
    static T flip(const T& a, u128 r) { return reinterpret_cast<T>(reinterpret_cast<std::uintptr_t>(a) ^ ((std::uintptr_t)1 << (unsigned)(r % bits))); }
    static T neg(const T& a) { return reinterpret_cast<T>((std::uintptr_t)0 - reinterpret_cast<std::uintptr_t>(a)); }
    static T inv(const T& a) { return reinterpret_cast<T>(~reinterpret_cast<std::uintptr_t>(a)); }
};
#define VF_PTR(T, N) template <> struct TT< T > : TTPtr< T > { static const char* name() { return N; } };
#define VF_GPTR(T, N) template <> struct TT< T > : TTPtr< T > { typedef CatGeneric cat; static const char* name() { return N; } };

// user-defined types without padding: all bytes are value bytes
template <class T> struct TTBytes {
    typedef CatGeneric cat; enum { bits = sizeof(T) >= 16 ? 128 : sizeof(T) * 8 };
    static T from(u128 v) {
        T t; unsigned char b[sizeof(T)]; 
        for (size_t i = 0; i < sizeof(T); ++i) b[i] = i < 16 ? (unsigned char)(v >> (8 * i)) : (unsigned char)mix((u64)v ^ (u64)(v >> 64), i / 3);
        if (sizeof(T) > 16 && v == 0) memset(b, 0, sizeof b); 
        memcpy((void*)&t, b, sizeof(T)); return t; }
    static bool eq(const T& a, const T& b) { return memcmp(&a, &b, sizeof(T)) == 0; }
    static std::string str(const T& a) { return bytes_str(&a, sizeof(T)); }
    static T flip(const T& a, u128 r) { T t = a; unsigned bit = (unsigned)(r % (sizeof(T) * 8)); ((unsigned char*)(void*)&t)[bit / 8] ^= (unsigned char)(1u << (bit % 8)); return t; }
    static T neg(const T& a) { return a; }
    static T inv(const T& a) { T t = a; for (size_t i = 0; i < sizeof(T); ++i) ((unsigned char*)(void*)&t)[i] ^= 0xff; return t; }
};
#define VF_BYTES(T, N) template <> struct TT< T > : TTBytes< T > { static const char* name() { return N; } };

// ---------------------------------------------------------------- results
// equality of value representations; M::eq is the weaker relation used for results (any NaN equals any NaN)
template <class T> inline bool same_rep(const T& a, const T& b, CatFP) { return TT<T>::same(a, b); }
template <class T, class C> inline bool same_rep(const T& a, const T& b, C) { return TT<T>::eq(a, b); }
template <class T> inline bool same(const T& a, const T& b) { return same_rep(a, b, typename TT<T>::cat()); }
template <class T> inline void resync_nan(T& st, const T& now, CatFP) { if (TT<T>::nan(st) && TT<T>::nan(now)) st = now; }
template <class T, class C> inline void resync_nan(T&, const T&, C) {}
template <class T> struct Res { T v; T e; bool b; bool hv, he, hb; Res() : v(), e(), b(false), hv(false), he(false), hb(false) {} };

// ---------------------------------------------------------------- applying operations
#define VF_NOARG
#define VF_C ,
// relaxed, default, run-time order
#define VF_X(R, F, A) switch (op.ord) { case 0: R o.F(A boost::memory_order_relaxed); break; case 2: R o.F(A VF_RT); break; default: R o.F(A boost::memory_order_seq_cst); break; }
#define VF_XV(R, F, A) switch (op.ord) { case 0: R o.F(A VF_C boost::memory_order_relaxed); break; case 1: R o.F(A); break; case 2: R o.F(A VF_C VF_RT); break; case 3: R o.F(A VF_C boost::memory_order_acq_rel); break; default: R o.F(A VF_C boost::memory_order_seq_cst); break; }
#define VF_XN(R, F) switch (op.ord) { case 0: R o.F(boost::memory_order_relaxed); break; case 1: R o.F(); break; case 2: R o.F(VF_RT); break; case 3: R o.F(boost::memory_order_acq_rel); break; default: R o.F(boost::memory_order_seq_cst); break; }
struct OwnClock { typedef std::chrono::nanoseconds duration; typedef duration::rep rep; typedef duration::period period; typedef std::chrono::time_point<OwnClock> time_point; static const bool is_steady = true; static time_point now() noexcept { return time_point(std::chrono::duration_cast<duration>(std::chrono::steady_clock::now().time_since_epoch())); } };
inline boost::memory_order& rt_order_ref() { static boost::memory_order o = boost::memory_order_seq_cst; return o; }
#if defined(VF_CONC)
#define VF_RT vf_order(op.rt)
inline boost::memory_order vf_order(int m) { switch (m) { case 0: return boost::memory_order_relaxed; case 1: return boost::memory_order_consume; case 2: return boost::memory_order_acquire; case 3: return boost::memory_order_release; case 4: return boost::memory_order_acq_rel; default: return boost::memory_order_seq_cst; } }
#else
inline boost::memory_order rt_order() { return rt_order_ref(); }
#define VF_RT rt_order()
#endif

// operand is a run-time value or one of a few compile-time constants
#define VF_K(R, F, TY) switch (op.csel) { \
    case 1: R o.F(static_cast< TY >(1)); break; \
    case 2: R o.F(static_cast< TY >(-1)); break; \
    case 3: R o.F(static_cast< TY >(0)); break; \
    case 4: R o.F(static_cast< TY >(0x5a)); break; \
    case 5: R o.F(static_cast< TY >(2)); break; \
    default: VF_XV(R, F, a); break; }
inline u128 const_operand(int csel) { switch (csel) { case 1: return 1; case 2: return ~(u128)0; case 3: return 0; case 4: return 0x5a; default: return 2; } }

template <class T, class O> struct Apply {
    typedef TT<T> M;
    static bool generic(O& o, const Op& op, const T& a, T& b, Res<T>& r) {
        switch (op.code) {
        case O_STORE:
            switch (op.ord) { case 0: o.store(a, boost::memory_order_relaxed); break; case 1: o.store(a); break; case 2: o.store(a, VF_RT); break; case 3: o.store(a, boost::memory_order_release); break; default: o.store(a, boost::memory_order_seq_cst); }
            return true;
        case O_LOAD:
            r.hv = true;
            switch (op.ord) { case 0: r.v = o.load(boost::memory_order_relaxed); break; case 1: r.v = o.load(); break; case 2: r.v = o.load(VF_RT); break; case 3: r.v = o.load(boost::memory_order_acquire); break; default: r.v = o.load(boost::memory_order_consume); }
            return true;
        case O_XCHG: r.hv = true; VF_XV(r.v =, exchange, a); return true;
        case O_CAS_S1: r.hb = r.he = true;
            switch (op.ord) { case 0: r.b = o.compare_exchange_strong(b, a, boost::memory_order_relaxed); break; case 1: r.b = o.compare_exchange_strong(b, a); break; case 2: r.b = o.compare_exchange_strong(b, a, VF_RT); break; case 3: r.b = o.compare_exchange_strong(b, a, boost::memory_order_acq_rel); break; default: r.b = o.compare_exchange_strong(b, a, boost::memory_order_release); }
            r.e = b; return true;
        case O_CAS_W1: r.hb = r.he = true;
            switch (op.ord) { case 0: r.b = o.compare_exchange_weak(b, a, boost::memory_order_relaxed); break; case 1: r.b = o.compare_exchange_weak(b, a); break; case 2: r.b = o.compare_exchange_weak(b, a, VF_RT); break; case 3: r.b = o.compare_exchange_weak(b, a, boost::memory_order_acq_rel); break; default: r.b = o.compare_exchange_weak(b, a, boost::memory_order_release); }
            r.e = b; return true;
        case O_CAS_S2: r.hb = r.he = true;
            switch (op.ord) { case 0: r.b = o.compare_exchange_strong(b, a, boost::memory_order_release, boost::memory_order_relaxed); break; case 1: r.b = o.compare_exchange_strong(b, a, boost::memory_order_seq_cst, boost::memory_order_acquire); break; case 2: r.b = o.compare_exchange_strong(b, a, VF_RT, boost::memory_order_relaxed); break; case 3: r.b = o.compare_exchange_strong(b, a, boost::memory_order_acquire, boost::memory_order_acquire); break; default: r.b = o.compare_exchange_strong(b, a, boost::memory_order_seq_cst, boost::memory_order_seq_cst); }
            r.e = b; return true;
        case O_CAS_W2: r.hb = r.he = true;
            switch (op.ord) { case 0: r.b = o.compare_exchange_weak(b, a, boost::memory_order_release, boost::memory_order_relaxed); break; case 1: r.b = o.compare_exchange_weak(b, a, boost::memory_order_seq_cst, boost::memory_order_acquire); break; case 2: r.b = o.compare_exchange_weak(b, a, VF_RT, boost::memory_order_relaxed); break; case 3: r.b = o.compare_exchange_weak(b, a, boost::memory_order_acquire, boost::memory_order_acquire); break; default: r.b = o.compare_exchange_weak(b, a, boost::memory_order_seq_cst, boost::memory_order_seq_cst); }
            r.e = b; return true;
        case O_ASSIGN: r.hv = true; r.v = (o = a); return true;
        case O_CONV: { r.hv = true; T t = o; r.v = t; return true; }
        case O_WAITDIFF: r.hv = true; // b differs from the current value
            switch (op.ord) { case 0: r.v = o.wait(b, boost::memory_order_relaxed); break; case 3: r.v = o.wait(b, boost::memory_order_acquire); break; default: r.v = o.wait(b); }
            return true;
        case O_WAITFOR: { r.hv = r.hb = true;
            boost::atomics::wait_result<T> w;
            switch (op.ord) {
            case 0: w = o.wait_until(b, std::chrono::steady_clock::time_point()); break;
            case 1: w = o.wait_for(b, std::chrono::seconds(1000)); break;
            case 2: w = o.wait_for(b, std::chrono::milliseconds(500000), VF_RT); break;
            case 3: w = o.wait_until(b, std::chrono::system_clock::now() + std::chrono::seconds(1000), VF_RT); break;
            default: w = o.wait_until(b, OwnClock::now() + std::chrono::seconds(1000), VF_RT); break; }
            r.v = w.value; r.b = !!w.timeout;
            return true; }
        case O_VALUE: { r.hv = true; T t; memcpy((void*)&t, (const void*)&const_cast<T const&>(o.value()), sizeof(T)); r.v = t; return true; }
        default: return false;
        }
    }
    static bool bits(O& o, const Op& op, const T& a, unsigned n, Res<T>& r) {
        switch (op.code) {
        case O_FETCH_AND: r.hv = true; VF_K(r.v =, fetch_and, T); return true;
        case O_FETCH_OR: r.hv = true; VF_K(r.v =, fetch_or, T); return true;
        case O_FETCH_XOR: r.hv = true; VF_K(r.v =, fetch_xor, T); return true;
        case O_FETCH_COMPL: r.hv = true; VF_XN(r.v =, fetch_complement); return true;
        case O_BIT_AND: r.hv = true; VF_K(r.v =, bitwise_and, T); return true;
        case O_BIT_OR: r.hv = true; VF_K(r.v =, bitwise_or, T); return true;
        case O_BIT_XOR: r.hv = true; VF_K(r.v =, bitwise_xor, T); return true;
        case O_BIT_COMPL: r.hv = true; VF_XN(r.v =, bitwise_complement); return true;
        case O_OPQ_AND: VF_K(, opaque_and, T); return true;
        case O_OPQ_OR: VF_K(, opaque_or, T); return true;
        case O_OPQ_XOR: VF_K(, opaque_xor, T); return true;
        case O_OPQ_COMPL: VF_XN(, opaque_complement); return true;
        case O_AND_TEST: r.hb = true; VF_K(r.b =, and_and_test, T); return true;
        case O_OR_TEST: r.hb = true; VF_K(r.b =, or_and_test, T); return true;
        case O_XOR_TEST: r.hb = true; VF_K(r.b =, xor_and_test, T); return true;
        case O_COMPL_TEST: r.hb = true; VF_XN(r.b =, complement_and_test); return true;
        case O_BTS: r.hb = true; if (op.csel == 1) r.b = o.bit_test_and_set(1u); else if (op.csel == 5) r.b = o.bit_test_and_set(sizeof(T) * 8u - 2u); else { VF_XV(r.b =, bit_test_and_set, n); } return true;
        case O_BTR: r.hb = true; if (op.csel == 1) r.b = o.bit_test_and_reset(1u); else if (op.csel == 5) r.b = o.bit_test_and_reset(sizeof(T) * 8u - 2u); else { VF_XV(r.b =, bit_test_and_reset, n); } return true;
        case O_BTC: r.hb = true; if (op.csel == 1) r.b = o.bit_test_and_complement(1u); else if (op.csel == 5) r.b = o.bit_test_and_complement(sizeof(T) * 8u - 2u); else { VF_XV(r.b =, bit_test_and_complement, n); } return true;
        case O_OPR_AND: r.hv = true; r.v = (o &= a); return true;
        case O_OPR_OR: r.hv = true; r.v = (o |= a); return true;
        case O_OPR_XOR: r.hv = true; r.v = (o ^= a); return true;
        default: return false;
        }
    }
    template <class D> static bool arith(O& o, const Op& op, const D& a, Res<T>& r) {
        switch (op.code) {
        case O_FETCH_ADD: r.hv = true; VF_K(r.v =, fetch_add, D); return true;
        case O_FETCH_SUB: r.hv = true; VF_K(r.v =, fetch_sub, D); return true;
        case O_ADD: r.hv = true; VF_K(r.v =, add, D); return true;
        case O_SUB: r.hv = true; VF_K(r.v =, sub, D); return true;
        case O_OPQ_ADD: VF_K(, opaque_add, D); return true;
        case O_OPQ_SUB: VF_K(, opaque_sub, D); return true;
        case O_OPR_ADD: r.hv = true; r.v = (o += a); return true;
        case O_OPR_SUB: r.hv = true; r.v = (o -= a); return true;
        default: return false;
        }
    }
    template <class D> static bool arith_test(O& o, const Op& op, const D& a, Res<T>& r) {
        switch (op.code) {
        case O_ADD_TEST: r.hb = true; VF_K(r.b =, add_and_test, D); return true;
        case O_SUB_TEST: r.hb = true; VF_K(r.b =, sub_and_test, D); return true;
        case O_PREINC: r.hv = true; r.v = ++o; return true;
        case O_PREDEC: r.hv = true; r.v = --o; return true;
        case O_POSTINC: r.hv = true; r.v = o++; return true;
        case O_POSTDEC: r.hv = true; r.v = o--; return true;
        default: return false;
        }
    }
    static bool neg(O& o, const Op& op, Res<T>& r) {
        switch (op.code) {
        case O_FETCH_NEG: r.hv = true; VF_XN(r.v =, fetch_negate); return true;
        case O_NEG: r.hv = true; VF_XN(r.v =, negate); return true;
        case O_OPQ_NEG: VF_XN(, opaque_negate); return true;
        default: return false;
        }
    }
    static bool neg_test(O& o, const Op& op, Res<T>& r) {
        if (op.code != O_NEG_TEST) return false;
        r.hb = true; VF_XN(r.b =, negate_and_test); return true;
    }
    static std::ptrdiff_t diff(u128 raw) { std::ptrdiff_t d = (std::ptrdiff_t)(u64)raw; return d; }
    // dispatch by category
    static void run(O& o, const Op& op, const T& a, T& b, Res<T>& r, CatGeneric) { generic(o, op, a, b, r); }
    static void run(O& o, const Op& op, const T& a, T& b, Res<T>& r, CatBool) { generic(o, op, a, b, r); }
    static void run(O& o, const Op& op, const T& a, T& b, Res<T>& r, CatEnum) { generic(o, op, a, b, r) || bits(o, op, a, (unsigned)(op.a % M::nbits), r); }
    static void run(O& o, const Op& op, const T& a, T& b, Res<T>& r, CatInt) { generic(o, op, a, b, r) || bits(o, op, a, (unsigned)(op.a % M::nbits), r) || arith<T>(o, op, a, r) || arith_test<T>(o, op, a, r) || neg(o, op, r) || neg_test(o, op, r); }
    static void run(O& o, const Op& op, const T& a, T& b, Res<T>& r, CatFP) { generic(o, op, a, b, r) || arith<T>(o, op, a, r) || neg(o, op, r); }
    static void run(O& o, const Op& op, const T& a, T& b, Res<T>& r, CatPtr) { generic(o, op, a, b, r) || arith<std::ptrdiff_t>(o, op, diff(op.a), r) || arith_test<std::ptrdiff_t>(o, op, diff(op.a), r); }
};

// ---------------------------------------------------------------- the model
template <class T> struct Model {
    typedef TT<T> M;
    static bool generic(const Op& op, T& st, const T& a, const T& b, Res<T>& r) {
        switch (op.code) {
        case O_STORE: st = a; return true;
        case O_LOAD: case O_CONV: case O_VALUE: r.hv = true; r.v = st; return true;
        case O_XCHG: r.hv = true; r.v = st; st = a; return true;
        case O_CAS_S1: case O_CAS_S2: case O_CAS_W1: case O_CAS_W2: r.hb = r.he = true; r.e = st; r.b = same(st, b); if (r.b) st = a; return true;
        case O_ASSIGN: r.hv = true; r.v = a; st = a; return true;
        case O_WAITDIFF: r.hv = true; r.v = st; return true;
        case O_WAITFOR: r.hv = r.hb = true; r.v = st; r.b = false; return true;
        default: return false;
        }
    }
    template <class U> static bool bits(const Op& op, U& s, U a, unsigned n, Res<U>& r) {
        U old = s, one = 1;
        switch (op.code) {
        case O_FETCH_AND: s = (U)(s & a); r.hv = true; r.v = old; return true;
        case O_FETCH_OR: s = (U)(s | a); r.hv = true; r.v = old; return true;
        case O_FETCH_XOR: s = (U)(s ^ a); r.hv = true; r.v = old; return true;
        case O_FETCH_COMPL: s = (U)~s; r.hv = true; r.v = old; return true;
        case O_BIT_AND: case O_OPR_AND: s = (U)(s & a); r.hv = true; r.v = s; return true;
        case O_BIT_OR: case O_OPR_OR: s = (U)(s | a); r.hv = true; r.v = s; return true;
        case O_BIT_XOR: case O_OPR_XOR: s = (U)(s ^ a); r.hv = true; r.v = s; return true;
        case O_BIT_COMPL: s = (U)~s; r.hv = true; r.v = s; return true;
        case O_OPQ_AND: s = (U)(s & a); return true;
        case O_OPQ_OR: s = (U)(s | a); return true;
        case O_OPQ_XOR: s = (U)(s ^ a); return true;
        case O_OPQ_COMPL: s = (U)~s; return true;
        case O_AND_TEST: s = (U)(s & a); r.hb = true; r.b = s != 0; return true;
        case O_OR_TEST: s = (U)(s | a); r.hb = true; r.b = s != 0; return true;
        case O_XOR_TEST: s = (U)(s ^ a); r.hb = true; r.b = s != 0; return true;
        case O_COMPL_TEST: s = (U)~s; r.hb = true; r.b = s != 0; return true;
        case O_BTS: case O_BTR: case O_BTC: {
            if (op.csel == 1) n = 1; else if (op.csel == 5) n = sizeof(U) * 8 - 2;
            U m = (U)(one << n); r.hb = true; r.b = (s & m) != 0;
            s = op.code == O_BTS ? (U)(s | m) : op.code == O_BTR ? (U)(s & (U)~m) : (U)(s ^ m); return true; }
        default: return false;
        }
    }
    template <class U> static bool arith(const Op& op, U& s, U a, U unit, Res<U>& r) {
        U old = s;
        switch (op.code) {
        case O_FETCH_ADD: s = (U)(s + a); r.hv = true; r.v = old; return true;
        case O_FETCH_SUB: s = (U)(s - a); r.hv = true; r.v = old; return true;
        case O_ADD: case O_OPR_ADD: s = (U)(s + a); r.hv = true; r.v = s; return true;
        case O_SUB: case O_OPR_SUB: s = (U)(s - a); r.hv = true; r.v = s; return true;
        case O_OPQ_ADD: s = (U)(s + a); return true;
        case O_OPQ_SUB: s = (U)(s - a); return true;
        case O_ADD_TEST: s = (U)(s + a); r.hb = true; r.b = s != 0; return true;
        case O_SUB_TEST: s = (U)(s - a); r.hb = true; r.b = s != 0; return true;
        case O_PREINC: s = (U)(s + unit); r.hv = true; r.v = s; return true;
        case O_PREDEC: s = (U)(s - unit); r.hv = true; r.v = s; return true;
        case O_POSTINC: s = (U)(s + unit); r.hv = true; r.v = old; return true;
        case O_POSTDEC: s = (U)(s - unit); r.hv = true; r.v = old; return true;
        case O_FETCH_NEG: s = (U)((U)0 - s); r.hv = true; r.v = old; return true;
        case O_NEG: s = (U)((U)0 - s); r.hv = true; r.v = s; return true;
        case O_OPQ_NEG: s = (U)((U)0 - s); return true;
        case O_NEG_TEST: s = (U)((U)0 - s); r.hb = true; r.b = s != 0; return true;
        default: return false;
        }
    }
    template <class U> static void conv(const Res<U>& u, Res<T>& r) { r.hv = u.hv; r.hb = u.hb; r.b = u.b; if (u.hv) r.v = (T)u.v; }
    static void run(const Op& op, T& st, const T& a, const T& b, Res<T>& r, CatGeneric) { generic(op, st, a, b, r); }
    static void run(const Op& op, T& st, const T& a, const T& b, Res<T>& r, CatBool) { generic(op, st, a, b, r); }
    static void run(const Op& op, T& st, const T& a, const T& b, Res<T>& r, CatEnum) {
        typedef typename M::U_t U; if (generic(op, st, a, b, r)) return;
        U s = (U)st; Res<U> u; bits<U>(op, s, op.csel && has_const(op.code) ? (U)const_operand(op.csel) : (U)a, (unsigned)(op.a % M::nbits), u); st = (T)s; conv(u, r); }
    static bool has_const(int code) { return code != O_OPR_AND && code != O_OPR_OR && code != O_OPR_XOR && code != O_OPR_ADD && code != O_OPR_SUB; }
    static void run(const Op& op, T& st, const T& a, const T& b, Res<T>& r, CatInt) {
        typedef typename M::U_t U; if (generic(op, st, a, b, r)) return;
        U s = (U)st, av = op.csel && has_const(op.code) ? (U)const_operand(op.csel) : (U)a; Res<U> u;
        bits<U>(op, s, av, (unsigned)(op.a % M::nbits), u) || arith<U>(op, s, av, (U)1, u); st = (T)s; conv(u, r); }
    static void run(const Op& op, T& st, const T& a, const T& b, Res<T>& r, CatFP) {
        if (generic(op, st, a, b, r)) return;
        volatile T s = st, av = op.csel && has_const(op.code) ? fpconst(op.csel) : a; volatile T res;
        switch (op.code) {
        case O_FETCH_ADD: res = s + av; r.hv = true; r.v = st; st = res; break;
        case O_FETCH_SUB: res = s - av; r.hv = true; r.v = st; st = res; break;
        case O_ADD: case O_OPR_ADD: res = s + av; r.hv = true; r.v = res; st = res; break;
        case O_SUB: case O_OPR_SUB: res = s - av; r.hv = true; r.v = res; st = res; break;
        case O_OPQ_ADD: res = s + av; st = res; break;
        case O_OPQ_SUB: res = s - av; st = res; break;
        case O_FETCH_NEG: res = -s; r.hv = true; r.v = st; st = res; break;
        case O_NEG: res = -s; r.hv = true; r.v = res; st = res; break;
        case O_OPQ_NEG: res = -s; st = res; break;
        default: break;
        } }
    static T fpconst(int csel) { switch (csel) { case 1: return (T)1; case 2: return (T)-1; case 3: return (T)0; case 4: return (T)0x5a; default: return (T)2; } }
    static void run(const Op& op, T& st, const T& a, const T& b, Res<T>& r, CatPtr) {
        if (generic(op, st, a, b, r)) return;
        typedef std::uintptr_t U; const U es = sizeof(*(T)0);
        U s = (U)reinterpret_cast<std::uintptr_t>(st), av = (op.csel && has_const(op.code) ? (U)const_operand(op.csel) : (U)op.a) * es; Res<U> u;
        arith<U>(op, s, av, es, u); st = reinterpret_cast<T>((std::uintptr_t)s); r.hv = u.hv; r.hb = u.hb; r.b = u.b; if (u.hv) r.v = reinterpret_cast<T>((std::uintptr_t)u.v); }
};

inline void ops_of(std::vector<int>& v, CatGeneric) { for (int i = O_STORE; i <= O_VALUE; ++i) v.push_back(i); }
inline void ops_of(std::vector<int>& v, CatBool) { ops_of(v, CatGeneric()); }
inline void ops_of(std::vector<int>& v, CatEnum) { for (int i = O_STORE; i <= O_OPR_XOR; ++i) v.push_back(i); }
inline void ops_of(std::vector<int>& v, CatInt) { for (int i = O_STORE; i <= O_OPR_SUB; ++i) v.push_back(i); }
inline void ops_of(std::vector<int>& v, CatFP) { ops_of(v, CatGeneric()); int k[] = { O_FETCH_ADD, O_FETCH_SUB, O_FETCH_NEG, O_ADD, O_SUB, O_NEG, O_OPQ_ADD, O_OPQ_SUB, O_OPQ_NEG, O_OPR_ADD, O_OPR_SUB }; v.insert(v.end(), k, k + sizeof k / sizeof *k); }
inline void ops_of(std::vector<int>& v, CatPtr) { ops_of(v, CatGeneric()); int k[] = { O_FETCH_ADD, O_FETCH_SUB, O_ADD, O_SUB, O_OPQ_ADD, O_OPQ_SUB, O_ADD_TEST, O_SUB_TEST, O_PREINC, O_PREDEC, O_POSTINC, O_POSTDEC, O_OPR_ADD, O_OPR_SUB }; v.insert(v.end(), k, k + sizeof k / sizeof *k); }

// ---------------------------------------------------------------- object kinds
struct KA { static const char* name() { return "atomic"; } };
struct KR { static const char* name() { return "atomic_ref"; } };
struct KIA { static const char* name() { return "ipc_atomic"; } };
struct KIR { static const char* name() { return "ipc_atomic_ref"; } };
template <class T, class K> struct Kind;
template <class T, class AT> struct KindOwn {
    typedef AT obj; enum { size = sizeof(AT), align = alignof(AT) };
    static obj* create(void* p, const T& v) { return new (p) obj(v); }
    static obj* create2(void* p, const T&) { return static_cast<obj*>(p); }
    static void destroy(obj*) {}
};
template <class T, class RT> struct KindRef {
    typedef RT obj; enum { size = sizeof(T), align = RT::required_alignment };
    static obj* create(void* p, const T& v) { memcpy(p, (const void*)&v, sizeof(T)); return new obj(*static_cast<T*>(p)); }
    static obj* create2(void* p, const T&) { return new obj(*static_cast<T*>(p)); } // another reference to the same object
    static void destroy(obj* o) { delete o; }
};
template <class T> struct Kind<T, KA> : KindOwn<T, boost::atomic<T> > {};
template <class T> struct Kind<T, KIA> : KindOwn<T, boost::ipc_atomic<T> > {};
template <class T> struct Kind<T, KR> : KindRef<T, boost::atomic_ref<T> > {};
template <class T> struct Kind<T, KIR> : KindRef<T, boost::ipc_atomic_ref<T> > {};

// ---------------------------------------------------------------- runners
template <class T> inline T pick_operand(int sel, u128 raw, const T& st) {
    typedef TT<T> M;
    switch (sel) { case S_STATE: return st; case S_NEG: return M::neg(st); case S_NOT: return M::inv(st); case S_FLIP: return M::flip(st, raw); default: return M::from(raw); }
}

template <class T, class K> struct RunnerT : Runner {
    typedef TT<T> M; typedef Kind<T, K> KD; typedef typename KD::obj obj;
    RunnerT() { ops_of(ops, typename M::cat()); type = M::name(); kind = K::name(); bits = M::bits; is_ref = (KD::size == sizeof(T) && (std::is_same<K, KR>::value || std::is_same<K, KIR>::value)); }
    bool run(const Case& c, std::string& why, Stats* stats) {
        Arena& A = arena(0); Arena& P = arena(1); Arena& Q = arena(2);
        A.fill();
        size_t off = A.offset(c.place, KD::size, KD::align);
        unsigned char* mem = A.page + off;
        T state = M::from(c.init);
        obj* o1 = KD::create(mem, state);
        obj* o2 = is_ref ? KD::create2(mem, state) : o1;
        const int mode = seq_mode(); bool ok = true; bool nontrivial = false;
        const size_t poff = P.offset(c.place & 1 ? 0 : 2 + c.place / 2, sizeof(T), alignof(T)), qoff = Q.offset(c.place & 2 ? 0 : 3 + c.place / 2, sizeof(T), alignof(T));
        if (mode == M_NEIGHBOUR) Neighbour::get().start(A.page, A.len, mem, KD::size);
        for (size_t i = 0; i < c.ops.size() && ok; ++i) {
            const Op& op = c.ops[i];
            obj& o = (i & 1) ? *o2 : *o1;
            P.fill(); Q.fill();
            T& a = *new (P.page + poff) T(pick_operand<T>(op.asel, op.a, state));
            T& b = *new (Q.page + qoff) T(pick_operand<T>(op.bsel, op.b, state));
            if ((op.code == O_WAITDIFF || op.code == O_WAITFOR) && same(b, state)) { b = M::flip(state, op.b); if (same(b, state)) continue; }
            T a0 = a, b0 = b; T before = state;
            Res<T> want, got;
            Model<T>::run(op, state, a0, b0, want, typename M::cat());
            bool is_cas = op.code >= O_CAS_S1 && op.code <= O_CAS_W2;
            rt_order_ref() = (op.a & 4) ? boost::memory_order_relaxed : boost::memory_order_seq_cst;
            if (on_valgrind()) { undefine_padding(a, typename M::cat()); undefine_padding(b, typename M::cat()); }
            std::string what;
            if (mode == M_NEIGHBOUR) {
                for (int rep = 0; rep < 200; ++rep) { b = b0; Apply<T, obj>::run(o, op, a, b, got, typename M::cat()); if (op.code == O_WAITDIFF || op.code == O_WAITFOR) break; }
                state = o.load(boost::memory_order_relaxed); if (!M::eq(before, state)) nontrivial = true;
                if (stats) stats->cls(std::string("op:") + op_names()[op.code]);
                continue;
            }
            Apply<T, obj>::run(o, op, a, b, got, typename M::cat());
            if (mode == M_MODEL) {
                if (op.code == O_CAS_W1 || op.code == O_CAS_W2) { if (want.b && !got.b) { want.b = false; state = before; } } // spurious failure is allowed
                if (want.hv != got.hv || want.hb != got.hb || want.he != got.he) what = "harness: operation not dispatched";
                else if (want.hv && !M::eq(want.v, got.v)) what = "returned " + M::str(got.v) + ", expected " + M::str(want.v);
                else if (want.hb && want.b != got.b) what = std::string("returned ") + (got.b ? "true" : "false") + ", expected " + (want.b ? "true" : "false");
                else if (want.he && !M::eq(want.e, got.e)) what = "expected argument became " + M::str(got.e) + ", should be " + M::str(want.e);
                if (what.empty()) { T now = o.load(boost::memory_order_relaxed); if (!M::eq(now, state)) what = "object became " + M::str(now) + ", expected " + M::str(state); }
                if (what.empty() && is_ref) { T now = ((i & 1) ? *o1 : *o2).load(); if (!M::eq(now, state)) what = "other reference sees " + M::str(now) + ", expected " + M::str(state); }
            }
            else state = o.load(boost::memory_order_relaxed);
            if (what.empty() && mode != M_UB) {
                long d;
                if ((d = A.check(off, KD::size))) what = "byte at offset " + std::to_string(d) + " from the object was modified";
                else if ((d = P.check(poff, sizeof(T)))) what = "byte at offset " + std::to_string(d) + " from the operand was modified";
                else if ((d = Q.check(qoff, sizeof(T)))) what = "byte at offset " + std::to_string(d) + " from the expected argument was modified";
                else if (!M::eq(a, a0)) what = "operand argument was modified";
                else if (!is_cas && !M::eq(b, b0)) what = "second argument was modified";
            }
            if (!what.empty()) {
                ok = false;
                why = "boost " + kind + "<" + type + "> step " + std::to_string(i) + " " + op_names()[op.code] + " on " + M::str(before) + " with " + M::str(a0) + (is_cas ? " expecting " + M::str(b0) : std::string()) + (op.csel ? " const operand " + hex128(const_operand(op.csel)) : std::string()) + ": " + what;
            }
            if (!M::eq(before, state)) nontrivial = true;
            if (ok) resync_nan(state, o.load(boost::memory_order_relaxed), typename M::cat());
            if (stats) { stats->cls(std::string("op:") + op_names()[op.code]); if (is_cas) stats->cls(want.b ? "cas:success" : "cas:failure"); if (op.csel) stats->cls("operand:constant"); }
        }
        if (mode == M_NEIGHBOUR && !Neighbour::get().stop(A)) { ok = false; why = "boost " + kind + "<" + type + ">: a write of another thread to the byte at offset " + std::to_string(Neighbour::get().bad) + " from the object was undone by an operation"; }
        if (stats) { stats->cls("kind:" + kind); stats->cls("type:" + type); if (nontrivial && !c.ops.empty()) stats->cls("case:state-changed"); }
        last_nontrivial = nontrivial;
        KD::destroy(o1); if (is_ref) KD::destroy(o2);
        return ok;
    }
    bool last_nontrivial;
};

#if !defined(VF_CONC)
template <class T, bool LF> struct RegIpc { static void a() {} static void r() {} };
template <class T> struct RegIpc<T, true> { static void a() { runners().push_back(new RunnerT<T, KIA>()); } static void r() { runners().push_back(new RunnerT<T, KIR>()); } };
template <class T> struct Reg {
    Reg() {
        runners().push_back(new RunnerT<T, KA>());
        runners().push_back(new RunnerT<T, KR>());
#if !defined(VF_NO_IPC)
        RegIpc<T, boost::ipc_atomic<T>::is_always_lock_free>::a();
        RegIpc<T, boost::ipc_atomic_ref<T>::is_always_lock_free>::r();
#endif
    }
};
#define VF_REG(T) static vf::Reg< T > BOOST_JOIN(vf_reg_, __LINE__)
#else
#define VF_REG(T) static vf::CReg< T > BOOST_JOIN(vf_reg_, __LINE__)
#endif
} // namespace vf
#if defined(VF_CONC)
#include "conc.hpp"
#endif
#endif
