"""Generated construction and placement programs for C14. A program defines value types and, for each, objects of every
kind in generated places and states what their first value, address and neighbourhood must be."""

PRE = r'''#include <boost/atomic.hpp>
#include <boost/atomic/ipc_atomic.hpp>
#include <boost/atomic/ipc_atomic_ref.hpp>
#include <boost/atomic/ipc_atomic_flag.hpp>
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <new>
#include <type_traits>
#include <utility>
typedef std::uint64_t u64;
static int bad = 0, total = 0; static const char* cur = "";
static void fact(bool ok, const char* what) { ++total; if (!ok) { if (bad < 40) { std::printf("FACT %s: %s\n", cur, what); std::fflush(stdout); } ++bad; } }
static u64 mix(u64 x) { x += 0x9e3779b97f4a7c15ull; x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull; x = (x ^ (x >> 27)) * 0x94d049bb133111ebull; return x ^ (x >> 31); }
static int pool_[64]; struct Pm { int a, b, c; int f() { return 1; } int g() { return 2; } }; static int fn0() { return 0; } static int fn1(int) { return 1; }
template <class T> T bits(u64 x) { T t; std::memcpy(&t, &x, sizeof t < sizeof x ? sizeof t : sizeof x); return t; }
// the k-th value of a scalar
template <class T> struct Sc { static T mk(u64 k) { return (T)mix(k); } static bool eq(T a, T b) { return a == b; } };
template <> struct Sc<bool> { static bool mk(u64 k) { return mix(k) & 1; } static bool eq(bool a, bool b) { return a == b; } };
template <> struct Sc<float> { static float mk(u64 k) { return k % 5 == 0 ? -0.0f : k % 5 == 1 ? __builtin_nanf("") : (float)(std::int32_t)mix(k) / 8; } static bool eq(float a, float b) { return std::memcmp(&a, &b, 4) == 0; } };
template <> struct Sc<double> { static double mk(u64 k) { return k % 5 == 0 ? -0.0 : k % 5 == 1 ? __builtin_nan("") : (double)(std::int64_t)mix(k) / 8; } static bool eq(double a, double b) { return std::memcmp(&a, &b, 8) == 0; } };
template <> struct Sc<long double> { static long double mk(u64 k) { long double x = k % 5 == 0 ? -0.0l : k % 5 == 1 ? __builtin_nanl("") : (long double)(std::int64_t)mix(k) / 8; __asm__ __volatile__("" : "+m"(x)); return x; /* gcc 13 takes the padding of a constant for zero and drops clearing it */ } static bool eq(long double a, long double b) { return std::memcmp(&a, &b, 10) == 0; } };
template <class T> struct Sc<T*> { static T* mk(u64 k) { return k % 4 == 0 ? (T*)0 : (T*)(void*)(pool_ + mix(k) % 60); } static bool eq(T* a, T* b) { return a == b; } };
template <class R, class... A> struct Sc<R (*)(A...)> { typedef R (*F)(A...); static F mk(u64 k) { return k % 3 == 0 ? (F)0 : k % 3 == 1 ? (F)&fn0 : (F)&fn1; } static bool eq(F a, F b) { return a == b; } };
template <> struct Sc<int Pm::*> { static int Pm::* mk(u64 k) { return k % 4 == 0 ? (int Pm::*)0 : k % 4 == 1 ? &Pm::a : k % 4 == 2 ? &Pm::b : &Pm::c; } static bool eq(int Pm::* a, int Pm::* b) { return a == b; } };
template <> struct Sc<int (Pm::*)()> { typedef int (Pm::*F)(); static F mk(u64 k) { return k % 3 == 0 ? (F)0 : k % 3 == 1 ? &Pm::f : &Pm::g; } static bool eq(F a, F b) { return a == b; } };
template <class T, std::size_t N> struct Sc<T[N]> { static bool eq(T const (&a)[N], T const (&b)[N]) { for (std::size_t i = 0; i < N; ++i) if (!Sc<T>::eq(a[i], b[i])) return false; return true; } };
template <class T, std::size_t N> void mkm(T (&a)[N], u64 k) { for (std::size_t i = 0; i < N; ++i) a[i] = Sc<T>::mk(mix(k) + i); }
template <class T> void mkm(T& a, u64 k) { a = Sc<T>::mk(k); }
template <class T> struct V { static T mk(u64 k) { return Sc<T>::mk(k); } static bool eq(T const& a, T const& b) { return Sc<T>::eq(a, b); } };
#ifdef BOOST_ATOMIC_NO_CLEAR_PADDING
#ifdef BOOST_ATOMIC_NO_FLOATING_POINT
template <class T> struct one_rep { static const bool value = __has_unique_object_representations(T); };
#else
template <class T> struct one_rep { static const bool value = __has_unique_object_representations(T) || std::is_floating_point<T>::value; };
#endif
#else
template <class T> struct one_rep { static const bool value = !std::is_union<T>::value; };
#endif
// gcc 13 clears bits of the value in some types with arrays of padded elements; such types tell nothing about the library
template <class T> bool compiler_ok() {
#if defined(__has_builtin)
#if __has_builtin(__builtin_clear_padding)
    for (u64 k = 0; k < 4; ++k) { alignas(T) unsigned char b[sizeof(T)]; std::memset(b, 0xff, sizeof b); T* p = ::new ((void*)b) T(V<T>::mk(k)); __builtin_clear_padding(p); if (!V<T>::eq(*p, V<T>::mk(k))) return false; }
#endif
#endif
    return true; }
template <class T> T dirty(u64 k, int fill) { // a value whose padding is not clear
    union U { T t; unsigned char b[sizeof(T)]; U() {} } u; std::memset(u.b, fill, sizeof u.b); T v = V<T>::mk(k); std::memset(u.b, fill, sizeof u.b); ::new (&u.t) T(v); return u.t; }
inline std::size_t pow2(std::size_t n) { std::size_t p = 1; while (p < n) p *= 2; return p; }
static const std::size_t G = 64;
template <std::size_t N, std::size_t Al> struct Buf { alignas(Al < 64 ? 64 : Al) unsigned char b[N]; int fill; void set(int f) { fill = f; std::memset(b, f, N); } bool clean(std::size_t from, std::size_t to) const { for (std::size_t i = 0; i < N; ++i) if ((i < from || i >= to) && b[i] != (unsigned char)fill) return false; return true; } };
inline bool aligned(const volatile void* p, std::size_t a) { return ((std::uintptr_t)p & (a - 1)) == 0; }

template <class A, class T> void address(A& a, bool lf) {
    const char* p = (const char*)&a; const char* v = (const char*)&a.value();
    fact(v >= p && v + sizeof(T) <= p + sizeof(A), "value() lies inside the object");
    fact(aligned(v, alignof(T)), "value() is aligned for the value type");
    if (lf) fact(aligned(v, pow2(sizeof(T)) < 16 ? pow2(sizeof(T)) : 16), "a lock-free object is aligned for the operations of its size");
    if (lf && boost::atomic_ref<T>::is_always_lock_free) fact(aligned(v, boost::atomic_ref<T>::required_alignment), "the value is aligned as references to it require");
    const A& c = a; volatile A& o = a; const volatile A& cv = a; fact((const volatile void*)&c.value() == v && (const volatile void*)&o.value() == v && (const volatile void*)&cv.value() == v, "value() of a qualified object denotes the same value");
}
template <class A, class T> bool holds(A& a, T const& want) { T got = a.load(); T v2 = a.value(); T v3 = static_cast<const volatile A&>(a).load(boost::memory_order_relaxed); return V<T>::eq(got, want) && V<T>::eq(v2, want) && V<T>::eq(v3, want); }
template <class A, class T> void cas(A& a, u64 k, u64 k2) { // the value it starts with is comparable with an equal one
    if (!one_rep<T>::value) return;
    T e = dirty<T>(k, 0x3c), d = dirty<T>(k2, 0xc3); bool r = a.compare_exchange_strong(e, d); fact(r, "compare_exchange_strong with the initial value succeeds"); fact(!r || V<T>::eq(a.load(), V<T>::mk(k2)), "compare_exchange_strong stored the desired value"); }
struct tag_default {}; 
template <class A, class T> struct Member { char c; A a; unsigned char d; A arr[3]; unsigned char e; };
template <class A> struct Derived : A { unsigned char x; Derived() : x(0x5a) {} template <class T> explicit Derived(T const& v) : A(v), x(0x5a) {} };
static const int fills[] = { 0, 0xff, 0xa5, 0x01 };
template <class A, class T> void built(u64 seed, int rounds) {
    if (!compiler_ok<T>()) return;
    const bool lf = A::is_always_lock_free; static Buf<2 * G + 4 * sizeof(A) + alignof(A), alignof(A)> b;
    fact(std::is_same<typename A::value_type, T>::value, "value_type"); fact(alignof(A) >= alignof(T), "the alignment is at least that of the value type"); fact(sizeof(A) >= sizeof(T), "the size is at least that of the value type");
    if (lf) fact(sizeof(A) >= pow2(sizeof(T)), "the size is that of a lock-free storage");
    for (int r = 0; r < rounds; ++r) {
        int f = fills[r & 3]; u64 k = mix(seed + r) % 1000003, k2 = k + 1 + mix(k) % 5; std::size_t off = (G + alignof(A) - 1) / alignof(A) * alignof(A) + alignof(A) * (r % 3);
        A* p = (A*)(b.b + off);
        b.set(f); p = ::new ((void*)p) A; fact(b.clean(off, off + sizeof(A)), "default construction writes only the object"); fact(holds(*p, T()), "A default-constructed object holds a value-initialized value"); address<A, T>(*p, lf); { T s = V<T>::mk(k); p->store(s); fact(holds(*p, s), "the stored value is the value"); } p->~A();
        b.set(f); p = ::new ((void*)p) A(); fact(holds(*p, T()), "A value-initialized object holds a value-initialized value"); p->~A();
        b.set(f); p = ::new ((void*)p) A{}; fact(holds(*p, T()), "A {}-initialized object holds a value-initialized value"); p->~A();
        T v = dirty<T>(k, r & 1 ? 0x77 : 0x88);
        b.set(f); p = ::new ((void*)p) A(v); fact(b.clean(off, off + sizeof(A)), "construction writes only the object"); fact(holds(*p, V<T>::mk(k)), "an object holds the value it was constructed from"); address<A, T>(*p, lf); cas<A, T>(*p, k, k2); fact(b.clean(off, off + sizeof(A)), "operations write only the object"); p->~A();
        b.set(f); p = ::new ((void*)p) A{v}; fact(holds(*p, V<T>::mk(k)), "an object holds the value in its braces"); { T o = p->exchange(V<T>::mk(k2)); fact(V<T>::eq(o, V<T>::mk(k)), "exchange returns the initial value"); } p->~A();
#if __cplusplus >= 201703L
        { A q = v; fact(holds(q, V<T>::mk(k)), "an object holds the value it was copy-initialized from"); cas<A, T>(q, k, k2); }
#endif
        { A au; A av(v); volatile char pad = 0; (void)pad; fact(holds(au, T()) && holds(av, V<T>::mk(k)), "automatic objects hold their initial values"); address<A, T>(au, lf); address<A, T>(av, lf); T w = V<T>::mk(k2); fact(V<T>::eq((av = w), w) && holds(av, w), "assignment stores"); }
        { static Member<A, T> sm; static bool used = false; Member<A, T> m; Member<A, T>* h = 0;
#if !defined(__cpp_aligned_new)
          if (alignof(Member<A, T>) <= 16)
#endif
          h = new Member<A, T>;
          Member<A, T>* ms[] = { &sm, &m, h };
          for (int j = 0; j < 3; ++j) if (ms[j]) { Member<A, T>& x = *ms[j]; x.c = 0x11; x.d = 0x22; x.e = 0x33; if (j || !used) fact(holds(x.a, T()) && holds(x.arr[0], T()) && holds(x.arr[2], T()), "members and array elements hold their initial values"); address<A, T>(x.a, lf); for (int i = 0; i < 3; ++i) address<A, T>(x.arr[i], lf);
            x.a.store(V<T>::mk(k)); for (int i = 0; i < 3; ++i) x.arr[i].store(V<T>::mk(k + 7 + i)); x.arr[1].exchange(V<T>::mk(k2)); fact(holds(x.a, V<T>::mk(k)) && holds(x.arr[0], V<T>::mk(k + 7)) && holds(x.arr[1], V<T>::mk(k2)) && holds(x.arr[2], V<T>::mk(k + 9)), "operations on one element leave the others alone"); fact(x.c == 0x11 && x.d == 0x22 && x.e == 0x33, "operations leave the neighbours alone"); }
          used = true; delete h; }
        { Derived<A> d; Derived<A> dv(v); fact(holds(static_cast<A&>(d), T()) && holds(static_cast<A&>(dv), V<T>::mk(k)), "base class subobjects hold their initial values"); d.x = 0x5b; static_cast<A&>(d).store(V<T>::mk(k)); static_cast<A&>(d).exchange(v); if (one_rep<T>::value) { T e = v; static_cast<A&>(d).compare_exchange_strong(e, V<T>::mk(k2)); } fact(d.x == 0x5b, "operations on a base class subobject leave the derived class alone"); }
    }
}
template <class R, class T> void refs(u64 seed, int rounds) {
    if (!compiler_ok<T>()) return;
    const std::size_t ra = R::required_alignment; static Buf<2 * G + 3 * sizeof(T) + 4 * R::required_alignment, R::required_alignment> b;
    fact(ra >= alignof(T), "required_alignment is at least natural"); fact((ra & (ra - 1)) == 0, "required_alignment is a power of two"); if (R::is_always_lock_free) fact(ra >= (sizeof(T) < 16 ? sizeof(T) : 16), "required_alignment suffices for lock-free operations");
    for (int r = 0; r < rounds; ++r) {
        u64 k = mix(seed + r) % 1000003, k2 = k + 1 + mix(k) % 5; std::size_t off = (G + ra - 1) / ra * ra + ra * (r % 3); b.set(fills[r & 3]); T v = dirty<T>(k, 0x99); T* o = ::new ((void*)(b.b + off)) T(v);
        R x(*o); fact(&x.value() == o, "a reference refers to the object it was made from"); fact(V<T>::eq(*o, V<T>::mk(k)), "making a reference keeps the value"); fact(b.clean(off, off + sizeof(T)), "making a reference writes only the object");
        fact(V<T>::eq(x.load(), V<T>::mk(k)), "a reference loads the value of the object"); R y(x); fact(&y.value() == o, "a copy refers to the same object");
        if (one_rep<T>::value) { T e = dirty<T>(k, 0x3c), d = dirty<T>(k2, 0xc3); bool s = y.compare_exchange_strong(e, d); fact(s && V<T>::eq(*o, V<T>::mk(k2)), "compare_exchange_strong with the value of the object succeeds"); } else x.store(V<T>::mk(k2));
        fact(V<T>::eq(x.exchange(V<T>::mk(k)), V<T>::mk(k2)) && V<T>::eq(*o, V<T>::mk(k)), "operations apply to the object"); fact(b.clean(off, off + sizeof(T)), "operations write only the object");
    }
}
'''
# known finding member-pointer-in-class: a class whose value-initialized representation is not all zero bits
PROBE = PRE + r'''
struct W { int Pm::* p; long x; };
int main() { cur = "boost::atomic<W>, struct W { int Pm::* p; long x; };"; unsigned char b[sizeof(boost::atomic<W>) + 64]; std::memset(b, 0, sizeof b); void* v = b; boost::atomic<W>* a = ::new ((void*)(((std::uintptr_t)v + 15) / 16 * 16)) boost::atomic<W>; W w = a->load();
    fact(w.x == 0, "the other members of a default-constructed object are value-initialized"); fact(w.p == W().p, "a pointer to data member in a default-constructed object is null"); std::printf("TOTAL %d\n", total); return bad ? 10 : 0; }
'''
INTS = ["char", "signed char", "unsigned char", "char16_t", "char32_t", "wchar_t", "short", "unsigned short", "int", "unsigned", "long", "unsigned long", "long long", "unsigned long long", "bool"]
MEMS = ["char", "unsigned char", "short", "unsigned short", "int", "unsigned", "long", "bool", "float", "double", "long double", "void*", "int*", "const char*", "int (Pm::*)()", "wchar_t"]


class Type:
    def __init__(self, name, decl="", spec="", cdef=False, cval=None, throws=False):
        self.name, self.decl, self.spec = name, decl, spec
        self.cdef = cdef        # default construction is constant initialization
        self.cval = cval        # a constant expression from which construction is constant initialization
        self.throws = throws


def members_spec(n, ms, base=None):
    mk = "".join("mkm(t.%s, k * 31 + %d); " % (m, i) for i, m in enumerate(ms)) if True else ""
    eq = " && ".join("Sc<decltype(T::%s)>::eq(a.%s, b.%s)" % (m, m, m) for m in ms) or "true"
    return "template <> struct V<%s> { typedef %s T; static T mk(u64 k) { (void)k; T t = T(); %sreturn t; } static bool eq(T const& a, T const& b) { (void)a; (void)b; return %s; } };" % (n, n, mk, eq)


def decl_member(t, name, arr=""):
    if t == "int (Pm::*)()":
        return "int (Pm::*%s)();" % name
    return "%s %s%s;" % (t, name, arr)


def lit(r, t):
    if t == "bool":
        return r.choice(["true", "false"])
    n = {"char": 7, "signed char": 7, "unsigned char": 8, "char16_t": 16, "short": 15, "unsigned short": 16, "std::uint8_t": 8, "std::int16_t": 15, "std::uint16_t": 16}.get(t, 31)
    return "(%s)%d" % (t, r.randrange(1, 1 << n))


def gen_type(r, n, flags):
    gnu = any(f.startswith("-std=gnu") for f in flags)
    k = r.randrange(20)
    S = "S%d" % n
    if k < 4:
        t = r.choice(INTS + (["__int128", "unsigned __int128"] if gnu and "-m32" not in flags else []))
        return Type(t, cdef=True, cval=lit(r, t))
    if k == 4:
        t = r.choice(["float", "double", "long double"]); t = "double" if t == "long double" and "-m32" in flags else t
        return Type(t, cdef=True, cval=None if t == "long double" or "-DBOOST_ATOMIC_NO_FLOATING_POINT" in flags else r.choice(["1.5f", "-0.0f", "3.25f"]))
    if k == 5:
        u = r.choice(["", "unsigned char", "short", "unsigned", "long", "unsigned long long", "bool"])
        c = r.choice(["", "class "]); E = "E%d" % n
        return Type(E, "enum %s%s%s { e%d_a = 1, e%d_b = 0 };" % (c, E, " : " + u if u else "", n, n), "template <> struct Sc<%s> { static %s mk(u64 k) { return (%s)(mix(k) & 1); } static bool eq(%s a, %s b) { return a == b; } };" % ((E,) * 5), cdef=True, cval="%s::e%d_a" % (E, n))
    if k == 6:
        t = r.choice(["int*", "void*", "const double*", "int**", "volatile char*"])
        return Type("T%d" % n, "typedef %s T%d;" % (t, n), cdef=True)
    if k == 7:
        t = r.choice(["int (*%s)()", "int (*%s)(int)", "int Pm::*%s", "int (Pm::*%s)()"])
        return Type("T%d" % n, "typedef %s;" % (t % ("T%d" % n)), cdef="*%s)(" in t)
    if k < 10: # plain structures, mostly with padding
        ms, d = [], []
        for i in range(r.randint(1, 5)):
            t = r.choice(MEMS); t = "double" if t == "long double" and "-m32" in flags else t # gcc 13 copies such a structure member by member there, and loses the cleared padding
            arr = r.choice(["", "", "", "[%d]" % r.randint(1, 5)]) if "Pm" not in t else ""
            ms.append("m%d" % i); d.append(decl_member(t, "m%d" % i, arr))
        return Type(S, "struct %s { %s };" % (S, " ".join(d)), members_spec(S, ms), cdef=True)
    if k < 12: # bytes of any size
        b = r.choice(list(range(1, 20)) + [24, 31, 32, 33, 40, 64, 100])
        al = r.choice(["", "", "", "alignas(2) ", "alignas(8) ", "alignas(16) ", "alignas(32) ", "alignas(64) ", "alignas(128) "])
        return Type(S, "struct %s%s { unsigned char m0[%d]; };" % (al, S, b), members_spec(S, ["m0"]), cdef=True)
    if k == 12: # without padding and of a lock-free size: constant initialization from a value
        parts = r.choice([["unsigned char"] * 2, ["short", "unsigned char", "unsigned char"], ["int", "short", "short"], ["unsigned", "int"], ["unsigned char"] * 4, ["long" if "-m32" not in flags else "short", "int" if "-m32" not in flags else "short", "unsigned"], ["unsigned long", "long"], ["bool"], ["int"]])
        ms = ["m%d" % i for i in range(len(parts))]
        size = sum({"unsigned char": 1, "bool": 1, "short": 2, "int": 4, "unsigned": 4, "long": 8, "unsigned long": 8}[p] for p in parts)
        return Type(S, "struct %s { %s };" % (S, " ".join(decl_member(t, m) for t, m in zip(parts, ms))), members_spec(S, ms), cdef=True, cval="%s{%s}" % (S, ", ".join(lit(r, t) for t in parts)))
    if k < 15: # default constructors that do something
        parts = [r.choice(["char", "short", "int", "unsigned", "long", "bool", "void*"]) for _ in range(r.randint(1, 4))]
        ms = ["m%d" % i for i in range(len(parts))]
        init = [("m%d" % i, lit(r, t) if t != "void*" else "nullptr") for i, t in enumerate(parts)]
        how = r.randrange(4)
        body = " ".join(decl_member(t, m) for t, m in zip(parts, ms))
        if how == 0:
            d = "struct %s { %s constexpr %s() noexcept : %s {} };" % (S, body, S, ", ".join("%s(%s)" % x for x in init))
        elif how == 1:
            d = "struct %s { %s };" % (S, " ".join("%s %s = %s;" % (t, m, x[1]) for t, m, x in zip(parts, ms, init)))
        elif how == 2:
            d = "static int count%d; struct %s { %s %s() noexcept : %s { ++count%d; } };" % (n, S, body, S, ", ".join("%s(%s)" % x for x in init), n)
        else:
            d = "static bool raise%d; struct %s { %s %s() noexcept(false) : %s { if (raise%d) throw 1; } };" % (n, S, body, S, ", ".join("%s(%s)" % x for x in init), n)
        if "-fno-exceptions" in flags and how == 3:
            d = d.replace("throw 1", "(void)0")
        return Type(S, d, members_spec(S, ms), throws=how == 3 and "-fno-exceptions" not in flags)
    if k == 15: # bit fields
        w, ms = [], []
        mk, eq = "", []
        for i in range(r.randint(1, 4)):
            t = r.choice(["unsigned", "int", "unsigned char", "unsigned long"]); b = r.randint(1, 7); w.append("%s m%d : %d;" % (t, i, b)); mk += "t.m%d = (%s)(mix(k + %d) & %d); " % (i, t, i, (1 << (b - 1)) - 1 if b > 1 else 0); eq.append("a.m%d == b.m%d" % (i, i))
        return Type(S, "struct %s { %s };" % (S, " ".join(w)), "template <> struct V<%s> { typedef %s T; static T mk(u64 k) { T t = T(); (void)k; %sreturn t; } static bool eq(T const& a, T const& b) { return %s; } };" % (S, S, mk, " && ".join(eq)), cdef=True)
    if k == 16: # members in the tail padding of a base
        return Type(S, "struct B%d { B%d() noexcept : p(3), q(4) {} %s p; char q; }; struct %s : B%d { %s() noexcept : x(5) {} char x; };" % (n, n, r.choice(["int", "long", "short", "double"]), S, n, S), members_spec(S, ["p", "q", "x"]))
    if k == 17:
        return Type(S, "struct %s {};" % S, members_spec(S, []), cdef=True)
    if k == 18:
        a, b = r.choice([("unsigned", "int"), ("unsigned short", "short"), ("long", "unsigned long"), ("unsigned char", "signed char"), ("unsigned", "char")])
        return Type(S, "union %s { %s m0; %s m1; };" % (S, a, b), members_spec(S, ["m0"]), cdef=True)
    inner = [r.choice(["char", "int", "short", "double"]) for _ in range(2)]
    return Type(S, "struct I%d { %s a; %s b; }; struct %s { I%d m0[%d]; char m1; };" % (n, inner[0], inner[1], S, n, r.randint(1, 3)),
                "template <> struct Sc<I%d> { static I%d mk(u64 k) { I%d i = I%d(); mkm(i.a, k); mkm(i.b, k + 1); return i; } static bool eq(I%d const& x, I%d const& y) { return Sc<%s>::eq(x.a, y.a) && Sc<%s>::eq(x.b, y.b); } };\n" % ((n,) * 6 + tuple(inner)) + members_spec(S, ["m0", "m1"]), cdef=True)


def program(types, seed, rounds):
    src = PRE
    early, late, glob, body = [], [], [], []
    for i, t in enumerate(types):
        src += "%s\n%s\n" % (t.decl, t.spec)
        for K in ("atomic", "ipc_atomic"):
            lock = "ipc_ok<boost::ipc_atomic<%s> >" % t.name
            A = "boost::%s<%s >" % (K, t.name)
            call = 'cur = "%s"; built<%s, %s>(%du, %d);' % (A, A, t.name, seed + i, rounds)
            body.append((K, A, t, call, i))
        for K in ("atomic_ref", "ipc_atomic_ref"):
            A = "boost::%s<%s >" % (K, t.name)
            body.append((K, A, t, 'cur = "%s"; refs<%s, %s>(%du, %d);' % (A, A, t.name, seed + i, rounds), i))
        if t.cdef:
            glob.append("static boost::atomic<%s > gd%d;" % (t.name, i)); early.append("gd%d.store(V<%s >::mk(%d));" % (i, t.name, seed + 3)); late.append('cur = "boost::atomic<%s >"; fact(!compiler_ok<%s >() || holds(gd%d, V<%s >::mk(%d)), "a static default-constructed object keeps what was stored before dynamic initialization");' % (t.name, t.name, i, t.name, seed + 3))
        if t.cval:
            glob.append("static boost::atomic<%s > gv%d(%s);" % (t.name, i, t.cval)); early.append("ev%d = gv%d.load(); gv%d.store(V<%s >::mk(%d));" % (i, i, i, t.name, seed + 4)); glob.append("static %s ev%d;" % (t.name, i))
            late.append('cur = "boost::atomic<%s >"; { %s w = %s; fact(V<%s >::eq(ev%d, w), "a static object holds its constant initial value before dynamic initialization"); fact(holds(gv%d, V<%s >::mk(%d)), "a static object with a constant initial value keeps what was stored before dynamic initialization"); }' % (t.name, t.name, t.cval, t.name, i, i, t.name, seed + 4))
    src += "#ifndef BOOST_ATOMIC_FORCE_FALLBACK\ntypedef boost::ipc_atomic_flag ipc_flag;\n#else\ntypedef boost::atomic_flag ipc_flag; // inter-process flags that are not lock-free have no operations\n#endif\nstatic boost::atomic_flag f1, f2 = BOOST_ATOMIC_FLAG_INIT; static ipc_flag f3, f4 = BOOST_ATOMIC_FLAG_INIT; static bool ef;\n" + "\n".join(glob) + "\n"
    src += "static struct Early { int x; } early_; __attribute__((constructor(101))) static void use_early() { ef = f1.test() || f2.test() || f3.test() || f4.test(); f1.test_and_set(); f2.test_and_set(); f3.test_and_set(); f4.test_and_set();\n%s\n}\n" % "\n".join(early)
    src += "template <class A, bool B> struct on_ { template <class F> static void run(F f) { f(A()); } }; template <class A> struct tag_ { typedef A type; };\n"
    # inter-process objects that are not lock-free must not be operated on at all
    src += '''template <class A, class T, bool LF> struct go { static void obj(u64 s, int r) { built<A, T>(s, r); } static void ref(u64 s, int r) { refs<A, T>(s, r); } };
template <class A, class T> struct go<A, T, false> { static void obj(u64, int) {} static void ref(u64, int) {} };
'''
    for j, (K, A, t, call, i) in enumerate(body):
        if K.startswith("ipc"):
            call = 'cur = "%s"; go<%s, %s, %s::is_always_lock_free>::%s(%du, %d);' % (A, A, t.name, A, "ref" if K.endswith("ref") else "obj", seed + i, rounds)
        src += "static void t%d() { %s }\n" % (j, call)
    for i, t in enumerate(types):
        if t.throws:
            late.append('cur = "boost::atomic<%s >"; raise%s = true; { bool caught = false; try { boost::atomic<%s > a; (void)a; } catch (int) { caught = true; } fact(caught, "an exception of the default constructor of the value type gets through"); } raise%s = false;' % (t.name, t.name[1:], t.name, t.name[1:]))
    src += 'int main() { cur = "flag"; fact(!ef, "static flags are clear before dynamic initialization"); fact(f1.test() && f2.test() && f3.test() && f4.test(), "static flags keep what was stored before dynamic initialization"); { int b[8]; for (int i = 0; i < 4; ++i) { std::memset(b, fills[i], sizeof b); boost::atomic_flag* p = ::new ((void*)b) boost::atomic_flag; fact(!p->test(), "a flag is clear initially"); ipc_flag* q = ::new ((void*)(b + 4)) ipc_flag(); fact(!q->test(), "a flag is clear initially"); } }\n%s\n%s\nstd::printf("TOTAL %%d\\n", total); return bad ? 10 : 0; }\n' % ("\n".join(late), " ".join("t%d();" % j for j in range(len(body))))
    return src
