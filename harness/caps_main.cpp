// One randomly generated configuration: what the macros, constants and queries say about each type must agree, and whatever
// is reported as lock-free has to link without the compiled library and stay atomic through two mappings of the same memory.
#include "common.hpp"
#include <boost/atomic.hpp>
#include <boost/atomic/ipc_atomic.hpp>
#include <boost/atomic/ipc_atomic_ref.hpp>
#include <boost/atomic/ipc_atomic_flag.hpp>
#include <pthread.h>
#include <sys/mman.h>
#include <type_traits>
#ifndef VF_TYPES
#define VF_TYPES 0ull
#endif
using namespace vf;
namespace {
Stats st; std::string only;
std::vector<std::string> bad;
void fact(bool ok, const std::string& what) {
    ++st.evaluations; st.distinct.insert(std::hash<std::string>()(what));
    if (!ok && (only.empty() || only == what)) bad.push_back(what);
}
#define OBS(x) static_cast<int>(x)
std::string num(long long v) { std::ostringstream s; s << v; return s.str(); }

template <class T> std::string tname();
#define TYPES_BASIC(F) F(0, bool, "bool") F(1, char, "char") F(2, signed char, "signed char") F(3, unsigned char, "unsigned char") F(4, char16_t, "char16_t") F(5, char32_t, "char32_t") F(6, wchar_t, "wchar_t") \
    F(7, short, "short") F(8, unsigned short, "unsigned short") F(9, int, "int") F(10, unsigned, "unsigned") F(11, long, "long") F(12, unsigned long, "unsigned long") F(13, long long, "long long") F(14, unsigned long long, "unsigned long long") \
    F(15, float, "float") F(16, double, "double") F(17, long double, "long double") F(18, int*, "int*") F(19, void*, "void*") F(20, E8, "enum class : uint8") F(21, E64, "enum : uint64") \
    F(22, B<1>, "struct of 1 byte") F(23, B<2>, "struct of 2 bytes") F(24, B<4>, "struct of 4 bytes") F(25, B<8>, "struct of 8 bytes") F(26, B<16>, "struct of 16 bytes") F(27, U<3>, "unaligned struct of 3 bytes") F(28, U<12>, "unaligned struct of 12 bytes") F(29, U<32>, "struct of 32 bytes") \
    F(30, fn_ptr, "function pointer") F(31, mem_ptr, "member pointer") F(32, U<6>, "unaligned struct of 6 bytes") F(33, const char* const*, "const char* const*")
enum class E8 : unsigned char { a }; enum E64 : unsigned long long { e64_a };
template <unsigned N> struct alignas(N) B { unsigned char b[N]; };
template <unsigned N> struct U { unsigned char b[N]; };
struct S_ { int m; }; typedef int S_::*mem_ptr; typedef void (*fn_ptr)();
#if defined(__SIZEOF_INT128__)
__extension__ typedef __int128 i128_t; __extension__ typedef unsigned __int128 u128_t;
#define TYPES_128(F) F(34, i128_t, "int128") F(35, u128_t, "uint128")
#else
#define TYPES_128(F)
#endif
#if defined(__cpp_char8_t) && __cpp_char8_t >= 201811
#define TYPES_C8(F) F(36, char8_t, "char8_t")
#else
#define TYPES_C8(F)
#endif
#define ALL_TYPES(F) TYPES_BASIC(F) TYPES_128(F) TYPES_C8(F)
#define TN_(i, T, n) template <> std::string tname<T>() { return n; }
ALL_TYPES(TN_)

// ---------------------------------------------------------------- reports of one type
template <class T> struct Rep {
    typedef boost::atomic<T> A; typedef boost::atomic_ref<T> R; typedef boost::ipc_atomic<T> I; typedef boost::ipc_atomic_ref<T> IR;
    static void run() {
        const std::string n = tname<T>() + ": ";
        // used as constant expressions
        constexpr bool al = A::is_always_lock_free, rl = R::is_always_lock_free, il = I::is_always_lock_free, irl = IR::is_always_lock_free;
        constexpr bool aw = A::always_has_native_wait_notify, rw = R::always_has_native_wait_notify, iw = I::always_has_native_wait_notify, irw = IR::always_has_native_wait_notify;
        constexpr std::size_t ra = R::required_alignment, ira = IR::required_alignment;
        static A a{}; static I i{}; alignas(ra < 64 ? 64 : ra) static T t = T(); R r(t); 
        alignas(ira < 64 ? 64 : ira) static T t2 = T(); IR ir(t2);
        st.cls(al ? "types reported lock-free" : "types reported lock-based");
        fact(al == a.is_lock_free(), n + "atomic is_lock_free() agrees with is_always_lock_free"); fact(rl == r.is_lock_free(), n + "atomic_ref is_lock_free() agrees with is_always_lock_free");
        fact(il == i.is_lock_free(), n + "ipc_atomic is_lock_free() agrees with is_always_lock_free"); fact(irl == ir.is_lock_free(), n + "ipc_atomic_ref is_lock_free() agrees with is_always_lock_free");
        fact(al == il, n + "atomic and ipc_atomic are lock-free alike"); fact(rl == irl, n + "atomic_ref and ipc_atomic_ref are lock-free alike");
        fact(!rl || al, n + "lock-free references imply lock-free objects");
        fact(!aw || a.has_native_wait_notify(), n + "atomic always_has_native_wait_notify implies has_native_wait_notify()"); fact(!rw || r.has_native_wait_notify(), n + "atomic_ref always_has_native_wait_notify implies has_native_wait_notify()");
        fact(!iw || i.has_native_wait_notify(), n + "ipc_atomic always_has_native_wait_notify implies has_native_wait_notify()"); fact(!irw || ir.has_native_wait_notify(), n + "ipc_atomic_ref always_has_native_wait_notify implies has_native_wait_notify()");
        fact(!iw || il, n + "native inter-process waiting implies lock-free"); fact(!irw || irl, n + "native inter-process waiting on references implies lock-free");
        fact((ra & (ra - 1)) == 0 && ra >= alignof(T), n + "required_alignment is a power of two no less than natural"); fact((ira & (ira - 1)) == 0 && ira >= alignof(T), n + "ipc required_alignment is a power of two no less than natural");
        fact(alignof(A) >= alignof(T) && alignof(I) >= alignof(T), n + "objects are aligned at least as their value"); fact(sizeof(A) >= sizeof(T) && sizeof(I) >= sizeof(T), n + "objects are at least as large as their value");
        if (al) fact(sizeof(A) == alignof(A) || alignof(A) >= sizeof(T), n + "lock-free objects are aligned to their size");
        const volatile A& va = a; fact(va.is_lock_free() == a.is_lock_free() && va.has_native_wait_notify() == a.has_native_wait_notify(), n + "queries work on const volatile objects");
#if defined(BOOST_ATOMIC_FORCE_FALLBACK)
        fact(!al && !rl && !il && !irl, n + "nothing is lock-free when locks are forced");
        fact(!iw && !irw, n + "nothing waits natively between processes when locks are forced");
#endif
    }
};
template <class T, int Macro, int Wait, int IpcWait> void agree(const char* m) {
    const std::string n = std::string(m) + " (" + tname<T>() + "): ";
    typedef boost::atomic<T> A; typedef boost::ipc_atomic<T> I; static A a{}; static I i{};
    fact(Macro >= 0 && Macro <= 2, n + "lock-free macro is 0, 1 or 2"); fact((Macro == 2) == A::is_always_lock_free, n + "lock-free macro is 2 exactly when is_always_lock_free"); fact(Macro != 0 || !a.is_lock_free(), n + "lock-free macro 0 means objects are not lock-free");
    fact(Wait >= 0 && Wait <= 2, n + "native wait macro is 0, 1 or 2"); fact((Wait == 2) == A::always_has_native_wait_notify, n + "native wait macro is 2 exactly when always_has_native_wait_notify"); fact(Wait != 0 || !a.has_native_wait_notify(), n + "native wait macro 0 means no native waiting");
    fact(IpcWait >= 0 && IpcWait <= 2, n + "native ipc wait macro is 0, 1 or 2"); fact((IpcWait == 2) == I::always_has_native_wait_notify, n + "native ipc wait macro is 2 exactly when always_has_native_wait_notify"); fact(IpcWait != 0 || !i.has_native_wait_notify(), n + "native ipc wait macro 0 means no native waiting");
}
#define AGREE(T, N) agree<T, BOOST_ATOMIC_##N##_LOCK_FREE, BOOST_ATOMIC_HAS_NATIVE_##N##_WAIT_NOTIFY, BOOST_ATOMIC_HAS_NATIVE_##N##_IPC_WAIT_NOTIFY>(#N);
template <class F, class M> void agree_flag(const char* k, const M& macro, int wait) {
    static F f; std::string n = std::string(k) + ": "; fact((macro == 2) == F::is_always_lock_free, n + "lock-free macro is 2 exactly when is_always_lock_free"); fact(f.is_lock_free() == F::is_always_lock_free, n + "is_lock_free() agrees with is_always_lock_free");
    fact((wait == 2) == F::always_has_native_wait_notify, n + "native wait macro is 2 exactly when always_has_native_wait_notify"); fact(!F::always_has_native_wait_notify || f.has_native_wait_notify(), n + "always_has_native_wait_notify implies has_native_wait_notify()"); fact(wait != 0 || !f.has_native_wait_notify(), n + "native wait macro 0 means no native waiting");
}
template <class A, class B_> void alike() { fact(+boost::atomic<A>::is_always_lock_free == +boost::atomic<B_>::is_always_lock_free && +boost::atomic<A>::always_has_native_wait_notify == +boost::atomic<B_>::always_has_native_wait_notify && +boost::ipc_atomic<A>::always_has_native_wait_notify == +boost::ipc_atomic<B_>::always_has_native_wait_notify, tname<A>() + " and " + tname<B_>() + " have the same reports"); }

// ---------------------------------------------------------------- operations that may not need the library
// volatile, so that nothing is folded away
template <class A, class T> void ops_generic(A& x, T v) {
    typedef boost::memory_order MO; const MO R = boost::memory_order_relaxed, AC = boost::memory_order_acquire, S = boost::memory_order_seq_cst;
    T e = x.load(); x.store(v); x.store(v, boost::memory_order_release); e = x.load(AC); e = x.exchange(v); e = x.exchange(v, R); (void)x.compare_exchange_strong(e, v); (void)x.compare_exchange_weak(e, v); (void)x.compare_exchange_strong(e, v, S, R); (void)x.compare_exchange_weak(e, v, AC, R); x = v; e = x; (void)e;
}
struct c_gen {}; struct c_int {}; struct c_enum {}; struct c_fp {}; struct c_ptr {};
template <class T> struct cat { typedef typename std::conditional<std::is_same<T, bool>::value, c_gen, typename std::conditional<std::is_integral<T>::value, c_int, typename std::conditional<std::is_enum<T>::value, c_enum,
#if defined(BOOST_ATOMIC_NO_FLOATING_POINT)
    c_gen
#else
    typename std::conditional<std::is_floating_point<T>::value, c_fp, c_gen>::type
#endif
    >::type>::type>::type type; };
#if defined(__SIZEOF_INT128__)
template <> struct cat<i128_t> { typedef c_int type; }; template <> struct cat<u128_t> { typedef c_int type; };
#endif
template <> struct cat<int*> { typedef c_ptr type; }; template <> struct cat<const char* const*> { typedef c_ptr type; };
template <class A, class T> void ops_more(A&, T, c_gen) {}
template <class A, class T> void ops_bits(A& x, T v) {
    (void)x.fetch_and(v); (void)x.fetch_or(v); (void)x.fetch_xor(v); (void)x.fetch_complement(); (void)x.bitwise_and(v); (void)x.bitwise_or(v); (void)x.bitwise_xor(v); (void)x.bitwise_complement(); x.opaque_and(v); x.opaque_or(v); x.opaque_xor(v); x.opaque_complement();
    (void)x.and_and_test(v); (void)x.or_and_test(v); (void)x.xor_and_test(v); (void)x.complement_and_test(); (void)x.bit_test_and_set(3); (void)x.bit_test_and_reset(3); (void)x.bit_test_and_complement(3); x &= v; x |= v; x ^= v;
}
template <class A, class T, class D> void ops_add(A& x, T, D d) { (void)x.fetch_add(d); (void)x.fetch_sub(d); (void)x.add(d); (void)x.sub(d); x.opaque_add(d); x.opaque_sub(d); x += d; x -= d; }
template <class A, class T> void ops_more(A& x, T v, c_enum) { ops_bits(x, v); }
template <class A, class T> void ops_more(A& x, T v, c_int) { ops_bits(x, v); ops_add(x, v, v); (void)x.fetch_negate(); (void)x.negate(); x.opaque_negate(); (void)x.add_and_test(v); (void)x.sub_and_test(v); (void)x.negate_and_test(); ++x; x++; --x; x--; (void)x.fetch_add(T(1)); x.opaque_sub(T(1)); (void)x.sub_and_test(T(1)); }
template <class A, class T> void ops_more(A& x, T v, c_fp) { ops_add(x, v, v); (void)x.fetch_negate(); (void)x.negate(); x.opaque_negate(); }
template <class A, class T> void ops_more(A& x, T v, c_ptr) { ops_add(x, v, (std::ptrdiff_t)2); ++x; x++; --x; x--; (void)x.add_and_test(1); (void)x.sub_and_test(1); }
struct far_clock { typedef std::chrono::milliseconds duration; typedef duration::rep rep; typedef duration::period period; typedef std::chrono::time_point<far_clock> time_point; static constexpr bool is_steady = false; static time_point now() { return time_point(duration(7)); } };
// every value differs from the one waited for, so none of these blocks
template <class A, class T> void ops_wait(A& x, T other) { (void)x.wait(other); x.notify_one(); x.notify_all(); (void)x.wait_for(other, std::chrono::milliseconds(1)); (void)x.wait_until(other, std::chrono::steady_clock::now()); (void)x.wait_until(other, std::chrono::system_clock::now()); (void)x.wait_until(other, far_clock::now()); }
template <class T> T mk(unsigned char k) { T t; memset((void*)&t, 0, sizeof t); unsigned char* p = reinterpret_cast<unsigned char*>(&t); p[0] = k; return t; }
template <> bool mk<bool>(unsigned char k) { return k & 1; } template <> float mk<float>(unsigned char k) { return k; } template <> double mk<double>(unsigned char k) { return k; } template <> long double mk<long double>(unsigned char k) { return k; }

// ---------------------------------------------------------------- two mappings of the same page
unsigned char *map1, *map2;
struct Job { unsigned char* at; unsigned n, id, op, kind; std::vector<u64> got; u64 sum; pthread_barrier_t* bar; };
// a counter kept in the value: exact for every type
template <class T, bool Fp = std::is_floating_point<T>::value> struct Ctr { static u64 get(const T& t) { u64 v = 0; memcpy(&v, &t, sizeof t < 4 ? sizeof t : 4); return v & mask(); } static T put(u64 c) { c &= mask(); T t; memset((void*)&t, 0, sizeof t); memcpy((void*)&t, &c, sizeof t < 4 ? sizeof t : 4); return t; } static u64 mask() { return std::is_same<T, bool>::value ? 1 : sizeof(T) == 1 ? 0xff : sizeof(T) < 4 ? 0xffff : 0xffffffffu; } };
template <class T> struct Ctr<T, true> { static u64 get(const T& t) { return (u64)t; } static T put(u64 c) { return (T)(c & mask()); } static u64 mask() { return 0xfffff; } };
template <class A, class T> void work_generic(A& x, Job& j) {
    typedef Ctr<T> C;
    for (unsigned i = 0; i < j.n; ++i) {
        if (j.op == 0) { T e = x.load(boost::memory_order_relaxed); while (!x.compare_exchange_weak(e, C::put(C::get(e) + 1))) {} }
        else if (j.op == 1) { T e = x.load(); while (!x.compare_exchange_strong(e, C::put(C::get(e) + 1))) {} }
        else { u64 tok = (2 * i + j.id + 1) & C::mask(); T g = x.exchange(C::put(tok)); j.sum += C::get(g); j.sum -= tok; }
    }
}
template <class A, class T> bool work_more(A& x, Job& j, c_int) { for (unsigned i = 0; i < j.n; ++i) { if (j.op == 3) (void)x.fetch_add((T)1); else if (j.op == 4) x.opaque_add((T)1); else if (j.op == 5) { (void)x.add_and_test((T)3); (void)x.sub((T)2); } else { (void)x.bit_test_and_complement(sizeof(T) * 8 - 1); (void)x.bit_test_and_complement(sizeof(T) * 8 - 1); x++; } } return true; }
template <class A, class T> bool work_more(A& x, Job& j, c_fp) { for (unsigned i = 0; i < j.n; ++i) { if (j.op == 3) (void)x.fetch_add((T)1); else if (j.op == 4) x.opaque_add((T)1); else { (void)x.add((T)3); (void)x.sub((T)2); } } return true; }
template <class A, class T, class C> bool work_more(A&, Job&, C) { return false; }
template <class A, class T> void work(A& x, Job& j) { if (j.op < 3 || !work_more<A, T>(x, j, typename cat<T>::type())) { if (j.op > 2) j.op = 0; work_generic<A, T>(x, j); } }
template <class T, bool Lf> struct RefWork { static void run(Job&) {} };
template <class T> struct RefWork<T, true> { static void run(Job& j) { if (j.kind == 1) { boost::atomic_ref<T> r(*reinterpret_cast<T*>(j.at)); work<boost::atomic_ref<T>, T>(r, j); } else { boost::ipc_atomic_ref<T> r(*reinterpret_cast<T*>(j.at)); work<boost::ipc_atomic_ref<T>, T>(r, j); } } };
template <class T> struct Dbl {
    static void* thread(void* p) {
        Job& j = *static_cast<Job*>(p); pthread_barrier_wait(j.bar);
        if (j.kind == 0) work<boost::atomic<T>, T>(*reinterpret_cast<boost::atomic<T>*>(j.at), j); else if (j.kind == 2) work<boost::ipc_atomic<T>, T>(*reinterpret_cast<boost::ipc_atomic<T>*>(j.at), j); else RefWork<T, boost::atomic_ref<T>::is_always_lock_free>::run(j);
        return 0;
    }
    static void run(Rng& r, const std::string& what) {
        unsigned op = r.below(7), kind = r.below(2) * 2 + (boost::atomic_ref<T>::is_always_lock_free ? r.below(2) : 0), n = 300 + r.below(1500); size_t off = r.below(60) * 64; pthread_barrier_t bar; pthread_barrier_init(&bar, 0, 2);
        memset(map1, 0, 4096); Job j[2] = { { map1 + off, n, 0, op, kind, {}, 0, &bar }, { map2 + off, n, 1, op, kind, {}, 0, &bar } };
        pthread_t t[2]; for (int i = 0; i < 2; ++i) pthread_create(&t[i], 0, thread, &j[i]); for (int i = 0; i < 2; ++i) pthread_join(t[i], 0); pthread_barrier_destroy(&bar);
        boost::atomic<T>& x = *reinterpret_cast<boost::atomic<T>*>(map1 + off); u64 end = Ctr<T>::get(x.load()), m = Ctr<T>::mask(); st.cls("concurrent runs through two mappings");
        std::string w = tname<T>() + ": " + what; ++st.evaluations; st.distinct.insert(mix(std::hash<std::string>()(w), op * 4 + kind));
        bool ok = op == 2 ? ((j[0].sum + j[1].sum + end) & m) == 0 : end == ((2 * (u64)n) & m);
        if (!ok) bad.push_back(w + " (operation " + num(op) + ", kind " + num(kind) + ", final " + num((long long)end) + " of " + num(2 * n) + ")");
    }
};
// instantiated only for what is reported lock-free; a wait only where reported native, or between processes
template <class T, bool Lf> struct Link { static void run(Rng&) {} };
template <class A, class T, bool Native> struct LinkWait { static void run(A& x) { ops_wait(x, mk<T>(1)); } }; template <class A, class T> struct LinkWait<A, T, false> { static void run(A&) {} };
template <class T> struct LinkRef { static void run(unsigned char* p) { typedef boost::atomic_ref<T> R; typedef boost::ipc_atomic_ref<T> IR; memset(p, 0, 64); R x(*reinterpret_cast<T*>(p)); ops_generic(x, mk<T>(1)); ops_more(x, mk<T>(1), typename cat<T>::type()); x.store(mk<T>(0)); LinkWait<R, T, R::always_has_native_wait_notify>::run(x); IR y(*reinterpret_cast<T*>(p)); ops_generic(y, mk<T>(1)); ops_more(y, mk<T>(1), typename cat<T>::type()); y.store(mk<T>(0)); LinkWait<IR, T, true>::run(y); } };
struct NoRef { static void run(unsigned char*) {} };
template <class T> struct Link<T, true> { static void run(Rng& r) {
    typedef boost::atomic<T> A; typedef boost::ipc_atomic<T> I; A& a = *new (map1) A(); ops_generic(a, mk<T>(1)); ops_more(a, mk<T>(1), typename cat<T>::type()); a.store(mk<T>(0)); LinkWait<A, T, A::always_has_native_wait_notify>::run(a);
    I& i = *new (map1) I(); ops_generic(i, mk<T>(1)); ops_more(i, mk<T>(1), typename cat<T>::type()); i.store(mk<T>(0)); LinkWait<I, T, true>::run(i);
    std::conditional<boost::atomic_ref<T>::is_always_lock_free, LinkRef<T>, NoRef>::type::run(map1); st.cls("types whose operations were linked without the library"); ++st.evaluations;
    for (int k = 0; k < 4; ++k) Dbl<T>::run(r, "stays atomic through two mappings"); } };
template <class F, bool Lf, bool Native> struct LinkFlag { static void run() { static F f; (void)f.test(); (void)f.test_and_set(); f.clear(); LinkWait2(f, std::integral_constant<bool, Native>()); } static void LinkWait2(F& f, std::true_type) { (void)f.wait(true); f.notify_one(); f.notify_all(); (void)f.wait_for(true, std::chrono::milliseconds(1)); } static void LinkWait2(F&, std::false_type) {} };
template <class F, bool N> struct LinkFlag<F, false, N> { static void run() {} };
template <int V> struct LinkFence { static void run() { boost::atomic_thread_fence(boost::memory_order_seq_cst); boost::atomic_thread_fence(boost::memory_order_release); } }; template <> struct LinkFence<0> { static void run() {} }; template <> struct LinkFence<1> { static void run() {} };
template <int V> struct LinkSig { static void run() { boost::atomic_signal_fence(boost::memory_order_seq_cst); boost::atomic_signal_fence(boost::memory_order_acquire); } }; template <> struct LinkSig<0> { static void run() {} }; template <> struct LinkSig<1> { static void run() {} };
}
int main(int argc, char** argv) {
    Options o; o.parse(argc, argv); Crash::install(o); alarm(120);
    if (!o.replay.empty()) { only = ""; }
    int fd = memfd_create("caps", 0); if (fd < 0 || ftruncate(fd, 4096)) return 3;
    map1 = static_cast<unsigned char*>(mmap(0, 4096, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0)); map2 = static_cast<unsigned char*>(mmap(0, 4096, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0));
    if (map1 == MAP_FAILED || map2 == MAP_FAILED) return 3;
    Crash::set("a crash while the reports of this configuration were compared");
#define REP(i, T, n) Rep<T>::run();
    ALL_TYPES(REP)
    AGREE(bool, BOOL) AGREE(char, CHAR) AGREE(signed char, CHAR) AGREE(unsigned char, CHAR) AGREE(char16_t, CHAR16_T) AGREE(char32_t, CHAR32_T) AGREE(wchar_t, WCHAR_T) AGREE(short, SHORT) AGREE(unsigned short, SHORT) AGREE(int, INT) AGREE(unsigned, INT) AGREE(long, LONG) AGREE(unsigned long, LONG) AGREE(long long, LLONG) AGREE(unsigned long long, LLONG)
    AGREE(int*, POINTER) AGREE(void*, POINTER) AGREE(int*, ADDRESS) AGREE(void*, ADDRESS) AGREE(const char* const*, POINTER) AGREE(B<1>, INT8) AGREE(B<2>, INT16) AGREE(B<4>, INT32) AGREE(B<8>, INT64) AGREE(B<16>, INT128) AGREE(E8, INT8) AGREE(E64, INT64)
#if defined(__SIZEOF_INT128__)
    AGREE(i128_t, INT128) AGREE(u128_t, INT128) alike<i128_t, u128_t>();
#endif
#if defined(__cpp_char8_t) && __cpp_char8_t >= 201811
    AGREE(char8_t, CHAR8_T) alike<char8_t, unsigned char>();
#endif
#if !defined(BOOST_ATOMIC_NO_FLOATING_POINT)
    AGREE(float, FLOAT) AGREE(double, DOUBLE) AGREE(long double, LONG_DOUBLE)
#else
#if defined(BOOST_ATOMIC_FLOAT_LOCK_FREE) || defined(BOOST_ATOMIC_DOUBLE_LOCK_FREE) || defined(BOOST_ATOMIC_LONG_DOUBLE_LOCK_FREE) || defined(BOOST_ATOMIC_HAS_NATIVE_FLOAT_WAIT_NOTIFY) || defined(BOOST_ATOMIC_HAS_NATIVE_DOUBLE_WAIT_NOTIFY) || defined(BOOST_ATOMIC_HAS_NATIVE_LONG_DOUBLE_WAIT_NOTIFY) || defined(BOOST_ATOMIC_HAS_NATIVE_FLOAT_IPC_WAIT_NOTIFY) || defined(BOOST_ATOMIC_HAS_NATIVE_DOUBLE_IPC_WAIT_NOTIFY) || defined(BOOST_ATOMIC_HAS_NATIVE_LONG_DOUBLE_IPC_WAIT_NOTIFY)
    fact(false, "no floating point macro is defined when floating point support is disabled");
#else
    fact(true, "no floating point macro is defined when floating point support is disabled");
#endif
#endif
    alike<signed char, unsigned char>(); alike<char, unsigned char>(); alike<short, unsigned short>(); alike<int, unsigned>(); alike<long, unsigned long>(); alike<long long, unsigned long long>(); alike<int*, const char* const*>(); alike<int*, void*>(); alike<char32_t, unsigned>(); alike<char16_t, unsigned short>();
    agree_flag<boost::atomic_flag>("atomic_flag", BOOST_ATOMIC_FLAG_LOCK_FREE, BOOST_ATOMIC_HAS_NATIVE_FLAG_WAIT_NOTIFY); agree_flag<boost::ipc_atomic_flag>("ipc_atomic_flag", BOOST_ATOMIC_FLAG_LOCK_FREE, BOOST_ATOMIC_HAS_NATIVE_FLAG_IPC_WAIT_NOTIFY);
    fact(+BOOST_ATOMIC_THREAD_FENCE >= 0 && +BOOST_ATOMIC_THREAD_FENCE <= 2 && +BOOST_ATOMIC_SIGNAL_FENCE >= 0 && +BOOST_ATOMIC_SIGNAL_FENCE <= 2, "fence macros are 0, 1 or 2");
#if BOOST_ATOMIC_INT8_LOCK_FREE == 2 || BOOST_ATOMIC_INT16_LOCK_FREE == 2 || BOOST_ATOMIC_INT32_LOCK_FREE == 2 || BOOST_ATOMIC_INT64_LOCK_FREE == 2
    typedef boost::atomic_unsigned_lock_free UL; typedef boost::atomic_signed_lock_free SL;
    fact(UL::is_always_lock_free && SL::is_always_lock_free && std::is_unsigned<UL::value_type>::value && std::is_signed<SL::value_type>::value && std::is_integral<UL::value_type>::value && std::is_integral<SL::value_type>::value, "atomic_(un)signed_lock_free are lock-free integers of that signedness");
    fact(UL::always_has_native_wait_notify == (BOOST_ATOMIC_HAS_NATIVE_INT8_WAIT_NOTIFY == 2 && BOOST_ATOMIC_INT8_LOCK_FREE == 2 || BOOST_ATOMIC_HAS_NATIVE_INT16_WAIT_NOTIFY == 2 && BOOST_ATOMIC_INT16_LOCK_FREE == 2 || BOOST_ATOMIC_HAS_NATIVE_INT32_WAIT_NOTIFY == 2 && BOOST_ATOMIC_INT32_LOCK_FREE == 2 || BOOST_ATOMIC_HAS_NATIVE_INT64_WAIT_NOTIFY == 2 && BOOST_ATOMIC_INT64_LOCK_FREE == 2), "atomic_unsigned_lock_free waits natively when any lock-free integer does");
    fact(+UL::always_has_native_wait_notify == +SL::always_has_native_wait_notify, "atomic_signed_lock_free waits like atomic_unsigned_lock_free");
#endif
    Rng r(o.seed); Crash::set("a crash or hang in an operation reported lock-free");
#define LINK(i, T, n) Link<T, ((VF_TYPES) >> i & 1) && boost::atomic<T>::is_always_lock_free>::run(r);
    ALL_TYPES(LINK)
    LinkFlag<boost::atomic_flag, boost::atomic_flag::is_always_lock_free, boost::atomic_flag::always_has_native_wait_notify>::run(); LinkFlag<boost::ipc_atomic_flag, boost::ipc_atomic_flag::is_always_lock_free, true>::run();
    LinkFence<BOOST_ATOMIC_THREAD_FENCE>::run(); LinkSig<BOOST_ATOMIC_SIGNAL_FENCE>::run();
    if (!bad.empty()) { std::ostringstream s; for (size_t i = 0; i < bad.size() && i < 6; ++i) s << (i ? "; " : "does not hold: ") << bad[i]; st.failure = s.str(); spit(o.replay_out, s.str()); st.write(o.out); fprintf(stderr, "%s\n", s.str().c_str()); return EXIT_VIOLATION; }
    st.write(o.out); return 0;
}
