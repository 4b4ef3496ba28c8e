// The types of the concurrent harnesses; VF_SET selects a subset so that sets compile in parallel.
#include "concobj.hpp"
#include <chrono>
#include <new>
#include <type_traits>
#include <boost/atomic/posix_clock_traits_fwd.hpp>
namespace vf {
inline timespec to_ts(long long n) { timespec s; long long q = n / 1000000000; n %= 1000000000; if (n < 0) { n += 1000000000; --q; } if (sizeof(s.tv_sec) < 8 && q > 0x7fffffffll) { q = 0x7fffffff; n = 999999999; } if (sizeof(s.tv_sec) < 8 && q < -0x7fffffffll) { q = -0x7fffffff; n = 0; } s.tv_sec = q; s.tv_nsec = n; return s; }
template <int K> struct VClock { typedef std::chrono::nanoseconds duration; typedef duration::rep rep; typedef duration::period period; typedef std::chrono::time_point<VClock> time_point; static const bool is_steady = false;
    static time_point now() noexcept { return time_point(duration(clock_now(K))); } };
// a clock that counts whole seconds, and one whose reading may fail
template <> struct VClock<K_COARSE> { typedef std::chrono::seconds duration; typedef duration::rep rep; typedef duration::period period; typedef std::chrono::time_point<VClock> time_point; static const bool is_steady = false;
    static time_point now() noexcept { return time_point(duration(clock_now(K_COARSE) / 1000000000)); } };
template <> struct VClock<K_THROW> { typedef std::chrono::nanoseconds duration; typedef duration::rep rep; typedef duration::period period; typedef std::chrono::time_point<VClock> time_point; static const bool is_steady = false;
    static time_point now() { if (clock_source().fails && clock_source().fails()) throw ClockFailed(); return time_point(duration(clock_now(K_THROW))); } };
}
namespace boost { namespace atomics {
template <> struct posix_clock_traits<vf::VClock<vf::K_POSIX_MONO> > { static constexpr clockid_t clock_id = CLOCK_MONOTONIC;
    static timespec to_timespec(vf::VClock<vf::K_POSIX_MONO>::time_point t) noexcept { long long n = t.time_since_epoch().count(); return vf:: to_ts(n); } };
template <> struct posix_clock_traits<vf::VClock<vf::K_POSIX_TAI> > { static constexpr clockid_t clock_id = CLOCK_TAI;
    static timespec to_timespec(vf::VClock<vf::K_POSIX_TAI>::time_point t) noexcept { long long n = t.time_since_epoch().count(); return vf:: to_ts(n); } };
} }
#include <boost/atomic/atomic.hpp>
#include <boost/atomic/atomic_ref.hpp>
#include <boost/atomic/atomic_flag.hpp>
#include <boost/atomic/ipc_atomic.hpp>
#include <boost/atomic/ipc_atomic_ref.hpp>
#include <boost/atomic/ipc_atomic_flag.hpp>
#ifndef VF_SET
#define VF_SET 1
#endif
namespace ct {
enum class e32 : unsigned { z }; enum class e16 : short { z };
template <unsigned N> struct by { unsigned char c[N]; };
struct w3 { unsigned a, b, c; }; struct l2 { unsigned long a, b; }; struct l3 { unsigned long a, b, c; }; struct i2 { unsigned a, b; };
}
namespace vf {
namespace {
struct CI { enum { arith = 1 }; }; struct CN { enum { arith = 0 }; };
template <class T> struct Cod;
template <class T, class U> struct CodU { enum { arith = 1, dom = 200 }; static U k() { return (U)((U)~(U)0 / (U)255); }
    static T enc(unsigned c) { return (T)(U)(k() * (U)c); } static unsigned dec(const T& t) { U u = (U)t; if (u % k()) return BAD; U q = u / k(); return q < 256 ? (unsigned)q : BAD; } };
template <> struct Cod<unsigned char> : CodU<unsigned char, unsigned char> {}; template <> struct Cod<signed char> : CodU<signed char, unsigned char> {};
template <> struct Cod<unsigned short> : CodU<unsigned short, unsigned short> {}; template <> struct Cod<unsigned> : CodU<unsigned, unsigned> {}; template <> struct Cod<int> : CodU<int, unsigned> {};
template <> struct Cod<unsigned long> : CodU<unsigned long, unsigned long> {}; template <> struct Cod<long long> : CodU<long long, unsigned long long> {}; 
#if defined(__SIZEOF_INT128__)
template <> struct Cod<u128> : CodU<u128, u128> {};
#else
template <> struct Cod<unsigned long long> : CodU<unsigned long long, unsigned long long> {};
#endif
template <> struct Cod<ct::e32> : CodU<ct::e32, unsigned> { enum { arith = 0 }; }; template <> struct Cod<ct::e16> : CodU<ct::e16, unsigned short> { enum { arith = 0 }; };
template <> struct Cod<bool> { enum { arith = 0, dom = 2 }; static bool enc(unsigned c) { return c & 1; } static unsigned dec(const bool& b) { unsigned char x; memcpy(&x, &b, 1); return x < 2 ? x : BAD; } };
template <class T> struct CodF { enum { arith = 1, dom = 200 }; static T enc(unsigned c) { return (T)c; } static unsigned dec(const T& t) { for (unsigned i = 0; i < 256; ++i) if (t == (T)i) return i; return BAD; } };
template <> struct Cod<float> : CodF<float> {}; template <> struct Cod<double> : CodF<double> {}; template <> struct Cod<long double> : CodF<long double> {};
static int ptr_base[256];
template <> struct Cod<int*> { enum { arith = 1, dom = 200 }; static int* enc(unsigned c) { return ptr_base + c; } static unsigned dec(int* const& p) { long d = p - ptr_base; return d >= 0 && d < 256 ? (unsigned)d : BAD; } };
template <class T> struct CodB { enum { arith = 0, dom = 200 }; static T enc(unsigned c) { T t; unsigned char* b = (unsigned char*)(void*)&t; for (size_t i = 0; i < sizeof(T); ++i) b[i] = (unsigned char)(c + i * 31); return t; }
    static unsigned dec(const T& t) { const unsigned char* b = (const unsigned char*)(const void*)&t; for (size_t i = 1; i < sizeof(T); ++i) if (b[i] != (unsigned char)(b[0] + i * 31)) return BAD; return b[0]; } };
template <unsigned N> struct Cod<ct::by<N> > : CodB<ct::by<N> > {}; template <> struct Cod<ct::w3> : CodB<ct::w3> {}; template <> struct Cod<ct::l2> : CodB<ct::l2> {}; template <> struct Cod<ct::l3> : CodB<ct::l3> {}; template <> struct Cod<ct::i2> : CodB<ct::i2> {};
inline boost::memory_order mo(int m) { switch (m) { case 0: return boost::memory_order_relaxed; case 1: return boost::memory_order_consume; case 2: return boost::memory_order_acquire; case 3: return boost::memory_order_release; case 4: return boost::memory_order_acq_rel; default: return boost::memory_order_seq_cst; } }

template <class T, class O> void arith_op(O& o, const CArg& a, CRes& r, std::true_type) { if (a.code == C_ADD) r.v = Cod<T>::dec(o.fetch_add(Cod<T>::enc(a.a), mo(a.mo))); else r.v = Cod<T>::dec(o.fetch_sub(Cod<T>::enc(a.a), mo(a.mo))); }
template <class T, class O> void arith_op(O&, const CArg&, CRes&, std::false_type) {}
template <class O> void arith_ptr(O& o, const CArg& a, CRes& r) { if (a.code == C_ADD) r.v = Cod<int*>::dec(o.fetch_add((std::ptrdiff_t)a.a, mo(a.mo))); else r.v = Cod<int*>::dec(o.fetch_sub((std::ptrdiff_t)a.a, mo(a.mo))); }
template <class T> struct Ar { template <class O> static void go(O& o, const CArg& a, CRes& r) { arith_op<T>(o, a, r, std::integral_constant<bool, (Cod<T>::arith != 0)>()); } };
template <> struct Ar<int*> { template <class O> static void go(O& o, const CArg& a, CRes& r) { arith_ptr(o, a, r); } };

template <class V, class O> boost::atomics::wait_result<V> wfor(O& o, const V& old, const CArg& a) {
    namespace ch = std::chrono;
    switch (a.dur) {
    case D_US: return o.wait_for(old, ch::microseconds(a.t), mo(a.mo));
    case D_MS: return o.wait_for(old, ch::milliseconds(a.t), mo(a.mo));
    case D_S: return o.wait_for(old, ch::seconds(a.t), mo(a.mo));
    case D_INTMS: return o.wait_for(old, ch::duration<int, std::milli>((int)a.t), mo(a.mo));
    case D_HOURS: return o.wait_for(old, ch::hours(a.t), mo(a.mo));
    case D_FSEC: return o.wait_for(old, ch::duration<double>(fsec(a.t)), mo(a.mo));
    case D_PS: return o.wait_for(old, ch::duration<std::int64_t, std::pico>(a.t), mo(a.mo));
    default: return o.wait_for(old, ch::nanoseconds(a.t), mo(a.mo)); }
}
template <class V, class O> boost::atomics::wait_result<V> wuntil_(O& o, const V& old, const CArg& a) { // a.t: nanoseconds on the clock, or a count of a.dur for the two standard clocks
    namespace ch = std::chrono;
    switch (a.clk) {
    case K_SYSTEM:
        switch (a.dur) { case D_US: return o.wait_until(old, ch::time_point<ch::system_clock, ch::microseconds>(ch::microseconds(a.t)), mo(a.mo)); case D_S: return o.wait_until(old, ch::time_point<ch::system_clock, ch::seconds>(ch::seconds(a.t)), mo(a.mo)); case D_HOURS: return o.wait_until(old, ch::time_point<ch::system_clock, ch::hours>(ch::hours(a.t)), mo(a.mo));
        default: return o.wait_until(old, ch::system_clock::time_point(ch::nanoseconds(a.t)), mo(a.mo)); }
    case K_CUSTOM: return o.wait_until(old, VClock<K_CUSTOM>::time_point(ch::nanoseconds(a.t)), mo(a.mo));
    case K_SLOW: return o.wait_until(old, VClock<K_SLOW>::time_point(ch::nanoseconds(a.t)), mo(a.mo));
    case K_POSIX_MONO: return o.wait_until(old, VClock<K_POSIX_MONO>::time_point(ch::nanoseconds(a.t)), mo(a.mo));
    case K_COARSE: return o.wait_until(old, VClock<K_COARSE>::time_point(ch::seconds(a.t)), mo(a.mo));
    case K_THROW: return o.wait_until(old, VClock<K_THROW>::time_point(ch::nanoseconds(a.t)), mo(a.mo));
    case K_POSIX_TAI: return o.wait_until(old, VClock<K_POSIX_TAI>::time_point(ch::nanoseconds(a.t)), mo(a.mo));
    default:
        switch (a.dur) { case D_MS: return o.wait_until(old, ch::time_point<ch::steady_clock, ch::milliseconds>(ch::milliseconds(a.t)), mo(a.mo));
        case D_FSEC: return o.wait_until(old, ch::time_point<ch::steady_clock, ch::duration<double> >(ch::duration<double>(fsec(a.t))), mo(a.mo));
        case D_PS: return o.wait_until(old, ch::time_point<ch::steady_clock, ch::duration<std::int64_t, std::pico> >(ch::duration<std::int64_t, std::pico>(a.t)), mo(a.mo));
        default: return o.wait_until(old, ch::steady_clock::time_point(ch::nanoseconds(a.t)), mo(a.mo)); } }
}
template <class V, class O> boost::atomics::wait_result<V> wuntil(O& o, const V& old, const CArg& a, CRes& r) {
    if (a.clk != K_THROW) return wuntil_<V>(o, old, a);
    try { return wuntil_<V>(o, old, a); } catch (ClockFailed&) {}
    r.threw = true; boost::atomics::wait_result<V> w = boost::atomics::wait_result<V>(); w.value = old; return w;
}
template <class T, class O> void apply(O& o, const CArg& a, CRes& r) {
    typedef Cod<T> C;
    switch (a.code) {
    case C_LOAD: r.v = C::dec(o.load(mo(a.mo))); break;
    case C_STORE: o.store(C::enc(a.a), mo(a.mo)); break;
    case C_XCHG: r.v = C::dec(o.exchange(C::enc(a.a), mo(a.mo))); break;
    case C_CAS: { T e = C::enc(a.b); r.ok = o.compare_exchange_strong(e, C::enc(a.a), mo(a.mo), mo(a.fmo)); r.v = C::dec(e); break; }
    case C_CASW: { T e = C::enc(a.b); r.ok = o.compare_exchange_weak(e, C::enc(a.a), mo(a.mo), mo(a.fmo)); r.v = C::dec(e); break; }
    case C_ADD: case C_SUB: Ar<T>::go(o, a, r); break;
    case C_WAIT: r.v = C::dec(o.wait(C::enc(a.b), mo(a.mo))); break;
    case C_WAITFOR: { boost::atomics::wait_result<T> w = wfor<T>(o, C::enc(a.b), a); r.v = C::dec(w.value); r.timeout = !!w.timeout; break; }
    case C_WAITUNTIL: { boost::atomics::wait_result<T> w = wuntil<T>(o, C::enc(a.b), a, r); r.v = C::dec(w.value); r.timeout = !!w.timeout; break; }
    case C_N1: o.notify_one(); break;
    case C_NALL: o.notify_all(); break;
    }
}
template <class T, class A> struct Own : CObj {
    Own(const char* t, const char* k, bool i) { type = t; kind = k; size = sizeof(A); align = alignof(A); vsize = sizeof(T) > 8 && std::is_floating_point<T>::value ? 10 : sizeof(T); dom = Cod<T>::dom; ipc = i; is_ref = flag = false; arith = Cod<T>::arith; lf = A::is_always_lock_free; native = A::always_has_native_wait_notify; }
    void init(void* p, unsigned c) const { new (p) A(Cod<T>::enc(c)); }
    void op(void* p, const CArg& a, CRes& r) const { apply<T>(*static_cast<A*>(p), a, r); }
    unsigned peek(const void* p) const { T t = T(); memcpy((void*)&t, p, vsize); return Cod<T>::dec(t); }
    bool lockfree(void* p) const { return static_cast<A*>(p)->is_lock_free(); } bool nativewait(void* p) const { return static_cast<A*>(p)->has_native_wait_notify(); }
};
template <class T, class A> struct Ref : CObj {
    Ref(const char* t, const char* k, bool i) { type = t; kind = k; size = sizeof(T); align = A::required_alignment; vsize = sizeof(T) > 8 && std::is_floating_point<T>::value ? 10 : sizeof(T); dom = Cod<T>::dom; ipc = i; is_ref = true; flag = false; arith = Cod<T>::arith; lf = A::is_always_lock_free; native = A::always_has_native_wait_notify; }
    void init(void* p, unsigned c) const { T t = Cod<T>::enc(c); memcpy(p, (void*)&t, sizeof(T)); }
    enum { PAD = std::is_floating_point<T>::value && sizeof(T) > 8 }; mutable std::map<void*, A> made;
    void attach(void* p) const { if (PAD) { A o(*static_cast<T*>(p)); if (!made.count(p)) made.insert(std::make_pair(p, o)); } }
    void op(void* p, const CArg& a, CRes& r) const {
        if (PAD) { typename std::map<void*, A>::iterator i = made.find(p); if (i != made.end()) { A o(i->second); apply<T>(o, a, r); return; } }
        A o(*static_cast<T*>(p)); apply<T>(o, a, r); }
    unsigned peek(const void* p) const { T t = T(); memcpy((void*)&t, p, vsize); return Cod<T>::dec(t); }
    bool lockfree(void* p) const { A o(*static_cast<T*>(p)); return o.is_lock_free(); } bool nativewait(void* p) const { A o(*static_cast<T*>(p)); return o.has_native_wait_notify(); }
};
template <class F> struct Flag : CObj {
    Flag(const char* k, bool i) { type = "flag"; kind = k; size = sizeof(F); align = alignof(F); vsize = sizeof(F); dom = 2; ipc = i; is_ref = false; flag = true; arith = false; lf = F::is_always_lock_free; native = F::always_has_native_wait_notify; }
    void init(void* p, unsigned c) const { F* f = new (p) F(); if (c) f->test_and_set(boost::memory_order_relaxed); }
    void op(void* p, const CArg& a, CRes& r) const { F& f = *static_cast<F*>(p);
        switch (a.code) {
        case C_LOAD: r.v = f.test(mo(a.mo)); break;
        case C_STORE: f.clear(mo(a.mo)); break;
        case C_XCHG: r.v = f.test_and_set(mo(a.mo)); break;
        case C_WAIT: r.v = f.wait(a.b & 1, mo(a.mo)); break;
        case C_WAITFOR: { boost::atomics::wait_result<bool> w = wfor<bool>(f, (a.b & 1) != 0, a); r.v = w.value; r.timeout = !!w.timeout; break; }
        case C_WAITUNTIL: { boost::atomics::wait_result<bool> w = wuntil<bool>(f, (a.b & 1) != 0, a, r); r.v = w.value; r.timeout = !!w.timeout; break; }
        case C_N1: f.notify_one(); break;
        case C_NALL: f.notify_all(); break; } }
    unsigned peek(const void* p) const { const unsigned char* b = (const unsigned char*)p; unsigned v = 0; for (size_t i = 0; i < vsize; ++i) if (b[i]) v = 1; return v; }
    bool lockfree(void* p) const { return static_cast<F*>(p)->is_lock_free(); } bool nativewait(void* p) const { return static_cast<F*>(p)->has_native_wait_notify(); }
};
template <class T, bool L> struct RI { static void a(const char*) {} static void r(const char*) {} };
template <class T> struct RI<T, true> { static void a(const char* n) { cobjs().push_back(new Own<T, boost::ipc_atomic<T> >(n, "ipc_atomic", true)); } };
template <class T, bool L> struct RR { static void r(const char*) {} };
template <class T> struct RR<T, true> { static void r(const char* n) { cobjs().push_back(new Ref<T, boost::ipc_atomic_ref<T> >(n, "ipc_atomic_ref", true)); } };
template <class T> struct Reg { Reg(const char* n) {
    cobjs().push_back(new Own<T, boost::atomic<T> >(n, "atomic", false)); cobjs().push_back(new Ref<T, boost::atomic_ref<T> >(n, "atomic_ref", false));
    RI<T, boost::ipc_atomic<T>::is_always_lock_free>::a(n); RR<T, boost::ipc_atomic_ref<T>::is_always_lock_free>::r(n); } };
#if VF_SET == 1
Reg<unsigned char> r1("u8"); Reg<unsigned short> r2("u16"); Reg<unsigned> r3("u32"); 
#if defined(__SIZEOF_INT128__)
Reg<unsigned long> r4("u64"); Reg<u128> r5("u128");
#else
Reg<unsigned long long> r4("u64"); Reg<unsigned long> r5("ulong");
#endif
#elif VF_SET == 2
Reg<bool> r1("bool"); Reg<ct::e32> r2("enum32"); Reg<int*> r3("ptr"); Reg<float> r4("float"); Reg<long double> r5("ldouble");
struct RegFlag { RegFlag() { cobjs().push_back(new Flag<boost::atomic_flag>("atomic_flag", false)); if (boost::ipc_atomic_flag::is_always_lock_free) reg<boost::ipc_atomic_flag>(std::integral_constant<bool, boost::ipc_atomic_flag::is_always_lock_free>()); }
    template <class F> void reg(std::true_type) { cobjs().push_back(new Flag<F>("ipc_atomic_flag", true)); } template <class F> void reg(std::false_type) {} } rf;
#elif VF_SET == 3
Reg<ct::by<3> > r1("s3"); Reg<ct::by<5> > r2("s5"); Reg<ct::w3> r3("s12"); Reg<ct::l3> r4("s24"); Reg<ct::i2> r5("s8"); Reg<ct::l2> r6("s16"); Reg<double> r7("double"); Reg<ct::e16> r8("enum16");
#endif
}
}
