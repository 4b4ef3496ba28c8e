// Compiler-level ordering: a trap raised next to an operation runs a handler in the same thread. Writes before an operation
// with release semantics have to be in memory when the handler after it looks; reads after one with acquire semantics have
// to see what the handler before it wrote. The trap itself tells the compiler only that it may change the atomic object.
#include "common.hpp"
#include <boost/atomic/atomic.hpp>
#include <boost/atomic/atomic_ref.hpp>
#include <boost/atomic/atomic_flag.hpp>
#include <boost/atomic/fences.hpp>
#include <csignal>
using namespace vf;
typedef boost::memory_order MO;
extern "C" { u64 sig_data; u64 sig_seen; u64 sig_next; volatile int sig_mode; volatile int sig_hits; }
static void handler(int) { if (sig_mode == 0) sig_data = sig_next; else sig_seen = sig_data; sig_hits = sig_hits + 1; }
namespace {
volatile u64 sink;
template <class R> inline __attribute__((always_inline)) void use(const R& r) { u64 v = 0; __builtin_memcpy(&v, &r, sizeof(r) < 8 ? sizeof(r) : 8); sink = v; }
struct Probe { std::string name; bool acq; bool (*fn)(u64, std::string&); };
std::vector<Probe>& probes() { static std::vector<Probe>* p = new std::vector<Probe>; return *p; }
#define TRAP(x) __asm__ __volatile__("int3" : "+m"(x))
template <class S> struct P {
    typedef typename S::obj obj;
    // the object has an address the compiler knows: it cannot be thought to overlap sig_data
    static unsigned char mem[128] __attribute__((aligned(64)));
    static __attribute__((noinline)) void acq(u64* a, u64* b, typename S::val v) { obj& x = *reinterpret_cast<obj*>(mem); u64 p = sig_data; TRAP(x); S::go(x, v); u64 q = sig_data; *a = p; *b = q; }
    static __attribute__((noinline)) void rel(u64 k, typename S::val v) { obj& x = *reinterpret_cast<obj*>(mem); sig_data = k; S::go(x, v); TRAP(x); sig_data = k + 1; }
    static bool run_acq(u64 k, std::string& why) { memset(mem, 0, sizeof mem); new (mem) obj(); u64 a, b; sig_mode = 0; sig_data = k; sig_next = k * 3 + 1; sig_hits = 0; acq(&a, &b, S::value(k)); if (sig_hits == 1 && b == k * 3 + 1) return true; std::ostringstream s; s << "data read after " << S::name() << " is stale: a signal handler that ran before the operation had changed it (" << a << " then " << b << ", not " << k * 3 + 1 << ")"; why = s.str(); return false; }
    static bool run_rel(u64 k, std::string& why) { memset(mem, 0, sizeof mem); new (mem) obj(); sig_mode = 1; sig_data = k + 7; sig_seen = 0; sig_hits = 0; rel(k, S::value(k)); if (sig_hits == 1 && sig_seen == k) return true; std::ostringstream s; s << "data written before " << S::name() << " is not in memory after it (found " << sig_seen << ", not " << k << ")"; why = s.str(); return false; }
    static void add() { if (S::m == boost::memory_order_acquire || S::m == boost::memory_order_acq_rel || S::m == boost::memory_order_seq_cst) if (S::can_acq) { Probe p = { std::string(S::name()) + "/acquire", true, run_acq }; probes().push_back(p); }
        if (S::m == boost::memory_order_release || S::m == boost::memory_order_acq_rel || S::m == boost::memory_order_seq_cst) if (S::can_rel) { Probe p = { std::string(S::name()) + "/release", false, run_rel }; probes().push_back(p); } }
};
template <class S> unsigned char P<S>::mem[128];
template <MO M> const char* mname() { return M == boost::memory_order_acquire ? "acquire" : M == boost::memory_order_release ? "release" : M == boost::memory_order_acq_rel ? "acq_rel" : "seq_cst"; }
template <class T> struct TN; 
#define NAME_(T, N) template <> struct TN<T> { static const char* n() { return N; } };
struct s16 { u64 a, b; }; struct s3 { char c[3]; };
NAME_(unsigned char, "uchar") NAME_(short, "short") NAME_(unsigned, "uint") NAME_(unsigned long, "ulong") NAME_(u128, "uint128") NAME_(int*, "int*") NAME_(bool, "bool") NAME_(float, "float") NAME_(double, "double") NAME_(long double, "ldouble") NAME_(s16, "s16") NAME_(s3, "s3")
template <class T> T mk(u64 k) { T t; memset((void*)&t, 0, sizeof t); memcpy((void*)&t, &k, sizeof t < 8 ? sizeof t : 8); return t; }
template <> bool mk<bool>(u64 k) { return k & 1; } template <> float mk<float>(u64 k) { return (float)(k & 0xffff); } template <> double mk<double>(u64 k) { return (double)(k & 0xffff); } template <> long double mk<long double>(u64 k) { return (long double)(k & 0xffff); }
template <class T> struct Own { typedef boost::atomic<T> obj; typedef boost::atomic<T>& use; static const char* n() { return "atomic"; } static use get(obj& x) { return x; } };
template <class T> struct Holder { alignas(64) T v; Holder() : v() {} };
template <class T> struct Ref { typedef Holder<T> obj; static const char* n() { return "atomic_ref"; } static inline __attribute__((always_inline)) boost::atomic_ref<T> get(obj& x) { return boost::atomic_ref<T>(x.v); } };
// one structure per operation
#define OP(ID, A, R, EXPR) template <class T, class K, MO M> struct ID { typedef typename K::obj obj; typedef T val; enum { can_acq = A, can_rel = R }; static const MO m = M; \
    static const char* name() { static std::string s = std::string(K::n()) + "<" + TN<T>::n() + ">::" #ID "(" + mname<M>() + ")"; return s.c_str(); } static T value(u64 k) { return mk<T>(k); } \
    static inline __attribute__((always_inline)) void go(obj& o, const T& v) { auto&& x = K::get(o); (void)v; EXPR; } };
OP(store, 0, 1, x.store(v, M)) OP(load, 1, 0, use(x.load(M))) OP(exchange, 1, 1, use(x.exchange(v, M))) OP(wait, 1, 0, use(x.wait(mk<T>(3), M)))
OP(cas_strong, 1, 1, T e = T(); use(x.compare_exchange_strong(e, v, M))) OP(cas_weak, 1, 1, T e = T(); use(x.compare_exchange_weak(e, v, M))) OP(cas_fail, 1, 0, T e = mk<T>(1); use(x.compare_exchange_strong(e, v, M)); use(e))
OP(cas_strong2, 1, 1, T e = T(); use(x.compare_exchange_strong(e, v, M, boost::memory_order_relaxed))) OP(cas_weak2, 1, 1, T e = T(); use(x.compare_exchange_weak(e, v, M, boost::memory_order_relaxed)))
#define RMW(ID) OP(ID, 1, 1, use(x.ID(v, M)))
#define RMWV(ID) OP(ID, 1, 1, x.ID(v, M))
#define RMWN(ID) OP(ID, 1, 1, use(x.ID(M)))
#define RMWK(ID, F) OP(ID, 1, 1, use(x.F(T(1), M)))
RMW(fetch_add) RMW(fetch_sub) RMW(fetch_and) RMW(fetch_or) RMW(fetch_xor) RMW(add) RMW(sub) RMW(bitwise_and) RMW(bitwise_or) RMW(bitwise_xor) RMWV(opaque_add) RMWV(opaque_sub) RMWV(opaque_and) RMWV(opaque_or) RMWV(opaque_xor)
RMW(add_and_test) RMW(sub_and_test) RMW(and_and_test) RMW(or_and_test) RMW(xor_and_test) RMWN(fetch_negate) RMWN(fetch_complement) RMWN(negate) RMWN(bitwise_complement) RMWN(negate_and_test) RMWN(complement_and_test)
OP(opaque_negate, 1, 1, x.opaque_negate(M)) OP(opaque_complement, 1, 1, x.opaque_complement(M)) OP(bit_test_and_set, 1, 1, use(x.bit_test_and_set(5u, M))) OP(bit_test_and_reset, 1, 1, use(x.bit_test_and_reset(5u, M))) OP(bit_test_and_complement, 1, 1, use(x.bit_test_and_complement(5u, M)))
OP(bit_test_and_set_v, 1, 1, use(x.bit_test_and_set((unsigned)v & 7u, M))) OP(bit_test_and_reset_v, 1, 1, use(x.bit_test_and_reset((unsigned)v & 7u, M))) OP(bit_test_and_complement_v, 1, 1, use(x.bit_test_and_complement((unsigned)v & 7u, M)))
RMWK(fetch_add_1, fetch_add) RMWK(opaque_add_1_, add) OP(opaque_add_1, 1, 1, x.opaque_add(T(1), M)) OP(opaque_sub_1, 1, 1, x.opaque_sub(T(1), M)) RMWK(add_and_test_1, add_and_test) RMWK(sub_and_test_1, sub_and_test)
OP(padd, 1, 1, use(x.fetch_add((std::ptrdiff_t)(u64)v, M))) OP(psub, 1, 1, use(x.fetch_sub((std::ptrdiff_t)(u64)v, M))) OP(popadd, 1, 1, x.opaque_add((std::ptrdiff_t)(u64)v, M)) OP(popsub, 1, 1, x.opaque_sub((std::ptrdiff_t)(u64)v, M)) OP(paddt, 1, 1, use(x.add_and_test((std::ptrdiff_t)(u64)v, M))) OP(psubt, 1, 1, use(x.sub_and_test((std::ptrdiff_t)(u64)v, M)))
#define A_ boost::memory_order_acquire
#define R_ boost::memory_order_release
#define X_ boost::memory_order_acq_rel
#define S_ boost::memory_order_seq_cst
#define RW(ID) P<ID<T, K, X_> >::add(); P<ID<T, K, S_> >::add(); P<ID<T, K, A_> >::add(); P<ID<T, K, R_> >::add();
template <class T, class K> void generic() { P<store<T, K, R_> >::add(); P<store<T, K, S_> >::add(); P<load<T, K, A_> >::add(); P<load<T, K, S_> >::add(); P<wait<T, K, A_> >::add(); P<wait<T, K, S_> >::add(); RW(exchange) RW(cas_strong) RW(cas_weak) P<cas_fail<T, K, X_> >::add(); P<cas_fail<T, K, S_> >::add(); P<cas_fail<T, K, A_> >::add(); RW(cas_strong2) RW(cas_weak2) }
template <class T, class K> void ints() { generic<T, K>(); RW(fetch_add) RW(fetch_sub) RW(fetch_and) RW(fetch_or) RW(fetch_xor) RW(add) RW(sub) RW(bitwise_and) RW(bitwise_or) RW(bitwise_xor) RW(opaque_add) RW(opaque_sub) RW(opaque_and) RW(opaque_or) RW(opaque_xor)
    RW(add_and_test) RW(sub_and_test) RW(and_and_test) RW(or_and_test) RW(xor_and_test) RW(fetch_negate) RW(fetch_complement) RW(negate) RW(bitwise_complement) RW(negate_and_test) RW(complement_and_test) RW(opaque_negate) RW(opaque_complement) RW(bit_test_and_set) RW(bit_test_and_reset) RW(bit_test_and_complement)
    RW(bit_test_and_set_v) RW(bit_test_and_reset_v) RW(bit_test_and_complement_v) RW(fetch_add_1) RW(opaque_add_1) RW(opaque_sub_1) RW(add_and_test_1) RW(sub_and_test_1) }
template <class T, class K> void fps() { generic<T, K>(); RW(fetch_add) RW(fetch_sub) RW(add) RW(sub) RW(opaque_add) RW(opaque_sub) RW(fetch_negate) RW(negate) RW(opaque_negate) }
template <class T, class K> void ptrs() { generic<T, K>(); RW(padd) RW(psub) RW(popadd) RW(popsub) RW(paddt) RW(psubt) }
struct Flag { typedef boost::atomic_flag obj; };
#define FOP(ID, A, R, EXPR) template <MO M> struct f_##ID { typedef boost::atomic_flag obj; typedef bool val; enum { can_acq = A, can_rel = R }; static const MO m = M; static const char* name() { static std::string s = std::string("atomic_flag::" #ID "(") + mname<M>() + ")"; return s.c_str(); } static bool value(u64) { return true; } static inline __attribute__((always_inline)) void go(obj& x, bool v) { (void)v; EXPR; } };
FOP(test_and_set, 1, 1, use(x.test_and_set(M))) FOP(clear, 0, 1, x.clear(M)) FOP(test, 1, 0, use(x.test(M))) FOP(wait, 1, 0, use(x.wait(true, M)))
#define FENCE(ID) template <MO M> struct ID##_s { typedef boost::atomic<unsigned> obj; typedef unsigned val; enum { can_acq = 1, can_rel = 1 }; static const MO m = M; static const char* name() { static std::string s = std::string(#ID "(") + mname<M>() + ")"; return s.c_str(); } static unsigned value(u64 k) { return (unsigned)k; } static inline __attribute__((always_inline)) void go(obj&, unsigned) { boost::ID(M); } };
FENCE(atomic_thread_fence) FENCE(atomic_signal_fence)
void add_all() {
#if VF_SET == 1
    ints<unsigned char, Own<unsigned char> >(); ints<short, Ref<short> >(); generic<bool, Own<bool> >(); generic<s3, Own<s3> >();
    P<f_test_and_set<X_> >::add(); P<f_test_and_set<S_> >::add(); P<f_test_and_set<A_> >::add(); P<f_test_and_set<R_> >::add(); P<f_clear<R_> >::add(); P<f_clear<S_> >::add(); P<f_test<A_> >::add(); P<f_test<S_> >::add(); P<f_wait<A_> >::add(); P<f_wait<S_> >::add();
    P<atomic_thread_fence_s<A_> >::add(); P<atomic_thread_fence_s<R_> >::add(); P<atomic_thread_fence_s<X_> >::add(); P<atomic_thread_fence_s<S_> >::add(); P<atomic_signal_fence_s<A_> >::add(); P<atomic_signal_fence_s<R_> >::add(); P<atomic_signal_fence_s<X_> >::add(); P<atomic_signal_fence_s<S_> >::add();
#elif VF_SET == 2
    ints<unsigned, Own<unsigned> >(); fps<float, Own<float> >(); fps<double, Ref<double> >(); fps<long double, Own<long double> >(); ptrs<int*, Own<int*> >();
#elif VF_SET == 3
    ints<unsigned long, Ref<unsigned long> >(); ints<short, Own<short> >();
#else
    ints<u128, Own<u128> >(); generic<s16, Ref<s16> >();
#endif
}
}
int main(int argc, char** argv) {
    Options o; o.parse(argc, argv); Crash::install(o); Stats st; struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = handler; sigaction(SIGTRAP, &sa, 0);
    add_all(); std::string why;
    if (!o.replay.empty()) { std::istringstream in(slurp(o.replay)); u64 k; std::string name; in >> k; std::getline(in, name); name = name.substr(1); for (size_t i = 0; i < probes().size(); ++i) if (probes()[i].name == name) { if (probes()[i].fn(k, why)) { printf("holds\n"); return 0; } printf("%s\n", why.c_str()); return EXIT_VIOLATION; } fprintf(stderr, "no such probe in this build\n"); return 3; }
    Rng r(o.seed); u64 n = o.cases; if (n < probes().size()) n = probes().size();
    for (u64 i = 0; i < n; ++i) { Probe& p = probes()[i < probes().size() ? i : r.below(probes().size())]; u64 k = 2 + (i < probes().size() ? i * 2 : r.below(1000000) * 2); if (k % 256 == 3 || k % 65536 == 3) ++k; std::ostringstream t; t << k << " " << p.name; Crash::set(t.str()); ++st.evaluations; st.cls(p.acq ? "acquire side" : "release side"); st.distinct.insert(std::hash<std::string>()(t.str())); if (st.samples.size() < 2 && i % 97 == 11) st.sample(t.str());
        if (!p.fn(k, why)) { st.failure = why; spit(o.replay_out, t.str()); st.write(o.out); fprintf(stderr, "%s\n", why.c_str()); return EXIT_VIOLATION; } }
    st.write(o.out); return 0;
}
