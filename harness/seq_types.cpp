// The value types of the sequential harness; VF_SET selects a subset so that sets compile in parallel.
#include "seqfw.hpp"
namespace ty {
enum class e8 : std::uint8_t { z }; enum class es16 : std::int16_t { z }; enum e32 : unsigned { e32z }; enum class es32 : int { z }; enum class e64 : std::uint64_t { z }; enum class es64 : std::int64_t { z };
struct s12 { char c[12]; }; struct s24 { long l[3]; }; struct s1 { char c; };
struct s7 { char c[7]; };
}
namespace vf {
VF_INT(signed char, std::uint8_t, "schar") VF_INT(unsigned char, std::uint8_t, "uchar") VF_INT(char, std::uint8_t, "char")
VF_INT(short, std::uint16_t, "short") VF_INT(unsigned short, std::uint16_t, "ushort") VF_INT(char16_t, std::uint16_t, "char16")
VF_INT(int, std::uint32_t, "int") VF_INT(unsigned, std::uint32_t, "uint") VF_INT(char32_t, std::uint32_t, "char32") VF_INT(wchar_t, std::uint32_t, "wchar")
VF_INT(long, unsigned long, "long") VF_INT(unsigned long, unsigned long, "ulong") VF_INT(long long, std::uint64_t, "llong") VF_INT(unsigned long long, std::uint64_t, "ullong")
#if defined(__SIZEOF_INT128__)
typedef __int128 i128;
VF_INT(i128, u128, "int128") VF_INT(u128, u128, "uint128")
#endif
VF_ENUM(ty::e8, std::uint8_t, "enum:u8") VF_ENUM(ty::es16, std::uint16_t, "enum:s16") VF_ENUM(ty::e32, std::uint32_t, "enum:u32") VF_ENUM(ty::es32, std::uint32_t, "enum:s32") VF_ENUM(ty::e64, std::uint64_t, "enum:u64") VF_ENUM(ty::es64, std::uint64_t, "enum:s64")
VF_PTR(char*, "char*") VF_PTR(const int*, "const int*") VF_PTR(ty::s12*, "s12*") VF_PTR(ty::s24*, "s24*") VF_PTR(void**, "void**") VF_PTR(volatile short*, "volatile short*") VF_PTR(ty::s7 const*, "s7 const*")
VF_GPTR(void*, "void*") VF_GPTR(const void*, "const void*")
typedef void (*fptr)(int); VF_GPTR(fptr, "fptr")
typedef int ty::s1::*mptr; VF_BYTES(mptr, "mptr")
typedef void (ty::s1::*mfptr)(); VF_BYTES(mfptr, "mfptr")
template <> struct TT<bool> { typedef CatBool cat; enum { bits = 1 };
    static const char* name() { return "bool"; } static bool from(u128 v) { return (v & 1) != 0; } static bool eq(bool a, bool b) { return a == b; }
    static std::string str(bool a) { return a ? "true" : "false"; } static bool flip(bool a, u128) { return !a; } static bool neg(bool a) { return a; } static bool inv(bool a) { return !a; } };

template <class T, unsigned VB> struct TTFP {
    typedef CatFP cat; enum { bits = sizeof(T) > 8 ? 128 : sizeof(T) * 8 };
    static T pat(u128 v, bool garbage) { // any bit pattern; long double: only canonical encodings
        T t; unsigned char b[sizeof(T)]; memset(b, garbage ? 0xC3 ^ (int)(v & 0x3c) : 0, sizeof b);
        if (sizeof(T) > 8) { u64 man = (u64)v; unsigned e = (unsigned)(v >> 64) & 0x7fff; unsigned sgn = (unsigned)(v >> 100) & 1; if (e == 0) man &= ~(1ull << 63); else man |= 1ull << 63; if (e == 0x7fff && man != (1ull << 63)) man |= 1ull << 62; e |= sgn << 15; memcpy(b, &man, 8); memcpy(b + 8, &e, 2); }
        else { u64 w = (u64)v; if (sizeof(T) == 4) { if ((w & 0x7f800000u) == 0x7f800000u && (w & 0x7fffffu)) w |= 0x400000u; } else if ((w & 0x7ff0000000000000ull) == 0x7ff0000000000000ull && (w & 0xfffffffffffffull)) w |= 0x8000000000000ull; memcpy(b, &w, sizeof(T)); }
        memcpy((void*)&t, b, sizeof(T)); return t; }
    static T from(u128 v) {
        switch ((unsigned)(v >> 3) % 12) {
        case 0: return std::numeric_limits<T>::infinity(); case 1: return -std::numeric_limits<T>::infinity(); case 2: return std::numeric_limits<T>::quiet_NaN();
        case 3: return (T)0; case 4: return -(T)0.0; case 5: return std::numeric_limits<T>::denorm_min() * (T)(int)(v & 7); case 6: return std::numeric_limits<T>::max();
        case 7: return (T)(int)(v & 0xffff) / (T)8; case 8: return -(T)(int)(v & 0xff) * (T)0.1L; case 9: return std::numeric_limits<T>::min() * (T)(1 + (int)(v & 3)) / (T)3;
        default: return pat(v, true); } }
    static bool nan(const T& a) { return a != a; }
    static bool eq(const T& a, const T& b) { if (nan(a) || nan(b)) return nan(a) && nan(b); return memcmp(&a, &b, VB) == 0; }
    static bool same(const T& a, const T& b) { return memcmp(&a, &b, VB) == 0; }
    static std::string str(const T& a) { return bytes_str(&a, VB); }
    static T flip(const T& a, u128 r) { T t = a; if (sizeof(T) > 8) { ((unsigned char*)&t)[(unsigned)(r % 7)] ^= (unsigned char)(1u << ((unsigned)(r >> 8) % 8)); if ((r >> 16) % 3 == 0) { t = a; ((unsigned char*)&t)[9] ^= 0x80; } } else { unsigned bit = (unsigned)(r % (sizeof(T) * 8)); ((unsigned char*)&t)[bit / 8] ^= (unsigned char)(1u << (bit % 8)); } if (nan(t)) return (T)1; return t; }
    static T neg(const T& a) { return -a; } static T inv(const T& a) { return -a; }
};
template <> struct TT<float> : TTFP<float, 4> { static const char* name() { return "float"; } };
template <> struct TT<double> : TTFP<double, 8> { static const char* name() { return "double"; } };
template <> struct TT<long double> : TTFP<long double, 10> { static const char* name() { return "long double"; } };
}
namespace ty {
template <unsigned N> struct by { unsigned char c[N]; };
struct i2 { int a, b; }; struct q2 { long a, b; }; struct h3 { short a, b, c; }; struct i3 { int a[3]; }; struct q3 { long a[3]; };
struct ctor { int a; short b, c; ctor() : a(1), b(2), c(3) {} };           // not trivially default constructible
// with padding
struct pad_ci { char c; int i; }; struct pad_cs { char c; short s; }; struct pad_ic { int i; char c; }; struct pad_qc { long q; char c; }; struct pad_scq { short s; char c; long q; };
struct pad_cqc { char a; long q; char b; }; struct alignas(16) pad_a16 { int i; }; struct pad_bf { unsigned a : 5; unsigned b : 9; unsigned : 0; unsigned char c; };
struct nest { pad_cs p; char d; };
struct alignas(32) al32 { char c[32]; };
}
namespace vf {
#define VF_BY(N) VF_BYTES(ty::by<N>, "bytes" #N)
VF_BY(1) VF_BY(2) VF_BY(3) VF_BY(4) VF_BY(5) VF_BY(6) VF_BY(7) VF_BY(8) VF_BY(9) VF_BY(11) VF_BY(12) VF_BY(13) VF_BY(15) VF_BY(16) VF_BY(17) VF_BY(24) VF_BY(31) VF_BY(33) VF_BY(64) VF_BY(80)
VF_BYTES(ty::i2, "int2") VF_BYTES(ty::q2, "long2") VF_BYTES(ty::h3, "short3") VF_BYTES(ty::i3, "int3") VF_BYTES(ty::q3, "long3") VF_BYTES(ty::ctor, "ctor") VF_BYTES(ty::al32, "align32")
// padded types are built over garbage bytes, compared member by member
template <class T> struct TTPad {
    typedef CatGeneric cat; enum { bits = 128 };
    static T blank(u128 v) { T t; memset((void*)&t, 0x11 * ((int)(v >> 120) & 15) ^ 0x69, sizeof t); if (on_valgrind()) { VALGRIND_MAKE_MEM_UNDEFINED(&t, sizeof t); } return t; }
};
#define VF_PAD(T, N, INIT, EQ, STR, FLIP) template <> struct TT< T > : TTPad< T > { static const char* name() { return N; } \
    static T from(u128 v) { T t = blank(v); INIT; return t; } static bool eq(const T& x, const T& y) { return EQ; } \
    static std::string str(const T& x) { std::ostringstream o; o << STR; return o.str(); } \
    static T flip(const T& x, u128 r) { T t; memcpy((void*)&t, (const void*)&x, sizeof t); (void)r; FLIP; return t; } static T neg(const T& x) { return regarb(x); } static T inv(const T& x) { return regarb(x); } \
    static T regarb(const T& x) { T t = blank(((u128)5 << 120)); copy(t, x); return t; } static void copy(T& t, const T& x); };
VF_PAD(ty::pad_ci, "pad_ci", (t.c = (char)v, t.i = (int)(v >> 8)), x.c == y.c && x.i == y.i, (int)x.c << "," << x.i, (r & 1 ? (void)(t.c ^= 1) : (void)(t.i ^= 1 << (r % 31))))
inline void TT<ty::pad_ci>::copy(ty::pad_ci& t, const ty::pad_ci& x) { t.c = x.c; t.i = x.i; }
VF_PAD(ty::pad_cs, "pad_cs", (t.c = (char)v, t.s = (short)(v >> 8)), x.c == y.c && x.s == y.s, (int)x.c << "," << x.s, (r & 1 ? (void)(t.c ^= 4) : (void)(t.s ^= 8)))
inline void TT<ty::pad_cs>::copy(ty::pad_cs& t, const ty::pad_cs& x) { t.c = x.c; t.s = x.s; }
VF_PAD(ty::pad_ic, "pad_ic", (t.i = (int)v, t.c = (char)(v >> 32)), x.c == y.c && x.i == y.i, (int)x.c << "," << x.i, (r & 1 ? (void)(t.c ^= 1) : (void)(t.i ^= 1 << (r % 31))))
inline void TT<ty::pad_ic>::copy(ty::pad_ic& t, const ty::pad_ic& x) { t.c = x.c; t.i = x.i; }
VF_PAD(ty::pad_qc, "pad_qc", (t.q = (long)v, t.c = (char)(v >> 64)), x.c == y.c && x.q == y.q, (int)x.c << "," << x.q, (r & 1 ? (void)(t.c ^= 1) : (void)(t.q ^= 1l << (r % (8 * sizeof(long) - 1)))))
inline void TT<ty::pad_qc>::copy(ty::pad_qc& t, const ty::pad_qc& x) { t.c = x.c; t.q = x.q; }
VF_PAD(ty::pad_scq, "pad_scq", (t.s = (short)v, t.c = (char)(v >> 16), t.q = (long)(v >> 32)), x.c == y.c && x.q == y.q && x.s == y.s, x.s << "," << (int)x.c << "," << x.q, (r & 1 ? (void)(t.c ^= 1) : r & 2 ? (void)(t.s ^= 64) : (void)(t.q ^= 1l << (r % (8 * sizeof(long) - 1)))))
inline void TT<ty::pad_scq>::copy(ty::pad_scq& t, const ty::pad_scq& x) { t.s = x.s; t.c = x.c; t.q = x.q; }
VF_PAD(ty::pad_cqc, "pad_cqc", (t.a = (char)v, t.b = (char)(v >> 16), t.q = (long)(v >> 32)), x.a == y.a && x.q == y.q && x.b == y.b, (int)x.a << "," << x.q << "," << (int)x.b, (r & 1 ? (void)(t.a ^= 1) : r & 2 ? (void)(t.b ^= 64) : (void)(t.q ^= 1l << (r % (8 * sizeof(long) - 1)))))
inline void TT<ty::pad_cqc>::copy(ty::pad_cqc& t, const ty::pad_cqc& x) { t.a = x.a; t.q = x.q; t.b = x.b; }
VF_PAD(ty::pad_a16, "pad_a16", (t.i = (int)v), x.i == y.i, x.i, (void)(t.i ^= 1 << (r % 31)))
inline void TT<ty::pad_a16>::copy(ty::pad_a16& t, const ty::pad_a16& x) { t.i = x.i; }
VF_PAD(ty::pad_bf, "pad_bf", (t.a = (unsigned)v & 31, t.b = (unsigned)(v >> 8) & 511, t.c = (unsigned char)(v >> 20)), x.a == y.a && x.b == y.b && x.c == y.c, x.a << "," << x.b << "," << (int)x.c, (r & 1 ? (void)(t.a = (t.a ^ 1) & 31) : r & 2 ? (void)(t.b = (t.b ^ 256) & 511) : (void)(t.c ^= 32)))
inline void TT<ty::pad_bf>::copy(ty::pad_bf& t, const ty::pad_bf& x) { t.a = x.a; t.b = x.b; t.c = x.c; }
VF_PAD(ty::nest, "nest", (t.p.c = (char)v, t.p.s = (short)(v >> 8), t.d = (char)(v >> 24)), x.p.c == y.p.c && x.p.s == y.p.s && x.d == y.d, (int)x.p.c << "," << x.p.s << "," << (int)x.d, (r & 1 ? (void)(t.p.c ^= 1) : r & 2 ? (void)(t.d ^= 2) : (void)(t.p.s ^= 1)))
inline void TT<ty::nest>::copy(ty::nest& t, const ty::nest& x) { t.p.c = x.p.c; t.p.s = x.p.s; t.d = x.d; }
}
#if !defined(VF_CONC)
namespace vf {
// ---- atomic_flag
template <class F> struct RunnerFlag : Runner {
    RunnerFlag(const char* k) { int c[] = { O_TAS, O_CLEAR, O_TEST, O_WAITDIFF, O_WAITFOR }; ops.assign(c, c + 5); type = "flag"; kind = k; bits = 1; }
    bool run(const Case& c, std::string& why, Stats* stats) {
        Arena& A = arena(0); A.fill(); size_t off = A.offset(c.place, sizeof(F), alignof(F)); F& o = *new (A.page + off) F(); bool s = false, ok = true, changed = false;
        if (o.test()) { why = "flag: not clear after construction"; return false; }
        for (size_t i = 0; i < c.ops.size() && ok; ++i) { const Op& op = c.ops[i]; bool want = false, got = false, before = s; std::string extra;
            switch (op.code) {
            case O_TAS: want = s; s = true; VF_XN(got =, test_and_set); break;
            case O_CLEAR: s = false; switch (op.ord) { case 0: o.clear(boost::memory_order_relaxed); break; case 1: o.clear(); break; case 2: o.clear(VF_RT); break; case 3: o.clear(boost::memory_order_release); break; default: o.clear(boost::memory_order_seq_cst); } break;
            case O_TEST: want = s; switch (op.ord) { case 0: got = o.test(boost::memory_order_relaxed); break; case 1: got = o.test(); break; case 2: got = o.test(VF_RT); break; default: got = o.test(boost::memory_order_acquire); } break;
            case O_WAITDIFF: want = s; got = op.ord ? o.wait(!s) : o.wait(!s, boost::memory_order_relaxed); break;
            case O_WAITFOR: { want = s; boost::atomics::wait_result<bool> w = op.ord & 1 ? o.wait_for(!s, std::chrono::seconds(1000)) : o.wait_until(!s, std::chrono::steady_clock::time_point()); got = w.value; if (w.timeout) extra = "reported a timeout although the value differs"; break; }
            }
            if (seq_mode() != M_MODEL) { extra.clear(); want = got; s = o.test(boost::memory_order_relaxed); }
            if (want != got) extra = std::string("returned ") + (got ? "true" : "false");
            if (extra.empty() && o.test(boost::memory_order_relaxed) != s) extra = "state is wrong afterwards";
            long d; if (extra.empty() && (d = A.check(off, sizeof(F)))) extra = "byte at offset " + std::to_string(d) + " was modified";
            if (!extra.empty()) { ok = false; why = kind + " step " + std::to_string(i) + " " + op_names()[op.code] + " with flag " + (before ? "set" : "clear") + ": " + extra; }
            if (before != s) changed = true;
            if (stats) stats->cls(std::string("op:") + op_names()[op.code]);
        }
        if (stats) { stats->cls("type:flag"); if (changed) stats->cls("case:state-changed"); }
        return ok;
    }
};
}
#endif
#define B(N) VF_REG(ty::by<N>)
#if VF_SET == 1 // small integers
VF_REG(signed char); 
VF_REG(unsigned char);
VF_REG(short);
VF_REG(unsigned short);
#elif VF_SET == 2
#if !defined(__x86_64__)
VF_REG(long long);
VF_REG(unsigned long long);
#endif
VF_REG(int);
VF_REG(unsigned);
VF_REG(long);
VF_REG(unsigned long);
#elif VF_SET == 3
#if defined(__SIZEOF_INT128__)
VF_REG(vf::i128);
VF_REG(vf::u128);
#endif
VF_REG(bool);
VF_REG(ty::e8);
VF_REG(ty::es16);
VF_REG(ty::es32);
VF_REG(ty::e64);
VF_REG(ty::es64);
struct RegF { RegF() { vf::runners().push_back(new vf::RunnerFlag<boost::atomic_flag>("atomic_flag"));
#if !defined(VF_NO_IPC)
 vf::runners().push_back(new vf::RunnerFlag<boost::ipc_atomic_flag>("ipc_atomic_flag"));
#endif
} } static regf;
#elif VF_SET == 4
VF_REG(char*);
VF_REG(const int*);
VF_REG(ty::s12*);
VF_REG(ty::s24*);
VF_REG(volatile short*);
VF_REG(void*);
VF_REG(vf::fptr);
VF_REG(vf::mptr);
VF_REG(vf::mfptr);
#elif VF_SET == 5 // further spellings of the same representations
VF_REG(char);
VF_REG(char16_t);
VF_REG(char32_t);
VF_REG(wchar_t);
VF_REG(long long);
VF_REG(unsigned long long);
VF_REG(ty::e32);
VF_REG(void**);
VF_REG(ty::s7 const*);
VF_REG(const void*);
#elif VF_SET == 10
VF_REG(float);
VF_REG(double);
VF_REG(long double);
#elif VF_SET == 20
B(1); 
B(2);
B(3);
B(4);
B(5);
B(6);
B(7);
B(8);
B(9);
B(11);
B(12);
#elif VF_SET == 21
B(13);
B(15);
B(16);
B(17);
B(24);
B(31);
B(33);
B(64);
B(80);
VF_REG(ty::al32);
#elif VF_SET == 22
VF_REG(ty::i2);
VF_REG(ty::q2);
VF_REG(ty::h3);
VF_REG(ty::i3);
VF_REG(ty::q3);
VF_REG(ty::ctor);
#if !defined(BOOST_ATOMIC_NO_CLEAR_PADDING)
VF_REG(ty::pad_ci);
VF_REG(ty::pad_cs);
VF_REG(ty::pad_ic);
VF_REG(ty::pad_qc);
VF_REG(ty::pad_scq);
VF_REG(ty::pad_cqc);
VF_REG(ty::pad_a16);
VF_REG(ty::pad_bf);
VF_REG(ty::nest);
#endif
#elif VF_SET == 30 // concurrent harness
VF_REG(unsigned char);
VF_REG(short);
VF_REG(unsigned);
#elif VF_SET == 31
#if defined(__SIZEOF_INT128__)
VF_REG(long);
VF_REG(vf::u128);
#else
VF_REG(long long);
#endif
#elif VF_SET == 32
VF_REG(bool);
VF_REG(ty::es16);
VF_REG(const int*);
VF_REG(float);
VF_REG(long double);
#elif VF_SET == 33
B(3);
B(5);
B(12);
B(16);
B(24);
VF_REG(ty::i2);
VF_REG(double);
#if !defined(BOOST_ATOMIC_NO_CLEAR_PADDING)
VF_REG(ty::pad_ci);
VF_REG(ty::pad_qc);
#endif
struct RegF { RegF() { vf::concs().push_back(new vf::ConcFlag<boost::atomic_flag>("atomic_flag"));
#if defined(VF_CONC_IPC) && BOOST_ATOMIC_FLAG_LOCK_FREE == 2
 vf::concs().push_back(new vf::ConcFlag<boost::ipc_atomic_flag>("ipc_atomic_flag"));
#endif
} } static regf;
#endif
