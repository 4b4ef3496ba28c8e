"""Generated interface programs for C13: every line states whether one use of one kind of object is documented, what type
it has and that it does not throw. The tables come from doc/atomic.qbk, not from the headers."""

PRE = r'''#include <boost/atomic.hpp>
#include <boost/atomic/ipc_atomic.hpp>
#include <boost/atomic/ipc_atomic_ref.hpp>
#include <boost/atomic/ipc_atomic_flag.hpp>
#include <chrono>
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <string>
#include <type_traits>
#include <utility>
using std::declval;
typedef std::chrono::steady_clock Clk;
struct none {};
template <class T> struct ty { typedef T type; };
template <class T> T val() noexcept;
static int bad = 0, total = 0;
template <class Got, class Want> void ret(const char* what) { if (!std::is_same<Got, Want>::value) { std::printf("FACT %s has another result type than documented\n", what); ++bad; } }
template <class N, class X, class V, class D, class R, bool Avail> struct chk { // expected to be available
    template <class G> static void more(ty<G>, const char* what, bool ne) { ret<G, R>(what); if (ne && !N::template ne<X, V, D>()) { std::printf("FACT %s may throw\n", what); ++bad; } }
    static void more(ty<none>, const char* what, bool) { std::printf("FACT %s is not available\n", what); ++bad; }
    static void run(const char* what, bool ne) { ++total; more(decltype(N::template t<X, V, D>(0))(), what, ne); }
};
template <class N, class X, class V, class D, class R> struct chk<N, X, V, D, R, false> {
    template <class G> static void more(ty<G>, const char* what) { std::printf("FACT %s is accepted although the documentation excludes it\n", what); ++bad; }
    static void more(ty<none>, const char*) {}
    static void run(const char* what, bool) { ++total; more(decltype(N::template t<X, V, D>(0))(), what); }
};
static void fact(bool ok, const char* what) { ++total; if (!ok) { std::printf("FACT %s does not hold\n", what); ++bad; } }
#define DET(N, ...) struct N { template <class X, class V, class D> static ty<decltype(__VA_ARGS__)> t(int); template <class X, class V, class D> static ty<none> t(...); template <class X, class V, class D> static constexpr bool ne() { return noexcept(__VA_ARGS__); } };
#define x_ declval<X>()
#define MO boost::memory_order_seq_cst
'''
GENERIC, INT, ENUM, FP, PTR = "generic", "integer", "enum", "floating point", "pointer"
ALL = (GENERIC, INT, ENUM, FP, PTR)
ARITH = (INT, FP, PTR)
BITS = (INT, ENUM)
# name, expression, kinds that have it, result (V value, B bool, O void), modifies the object
OPS = []


def op(name, expr, kinds, res, mod, timed=False):
    OPS.append((name, expr, kinds, res, mod, timed))


for o in ("", "MO"):
    c = ", MO" if o else ""
    t = "_o" if o else ""
    op("load" + t, "x_.load(%s)" % o, ALL, "V", False)
    op("store" + t, "x_.store(val<V>()%s)" % c, ALL, "O", True)
    op("exchange" + t, "x_.exchange(val<V>()%s)" % c, ALL, "V", True)
    for w in ("weak", "strong"):
        op("cas_%s%s" % (w, t), "x_.compare_exchange_%s(val<V&>(), val<V>()%s)" % (w, c), ALL, "B", True)
    op("wait" + t, "x_.wait(val<V>()%s)" % c, ALL, "V", False)
    op("wait_for" + t, "x_.wait_for(val<V>(), std::chrono::milliseconds(1)%s)" % c, ALL, "W", False, True)
    op("wait_until" + t, "x_.wait_until(val<V>(), val<Clk::time_point>()%s)" % c, ALL, "W", False, True)
    for n in ("add", "sub"):
        op("fetch_" + n + t, "x_.fetch_%s(val<D>()%s)" % (n, c), ARITH, "V", True)
        op(n + t, "x_.%s(val<D>()%s)" % (n, c), ARITH, "V", True)
        op("opaque_" + n + t, "x_.opaque_%s(val<D>()%s)" % (n, c), ARITH, "O", True)
        op(n + "_and_test" + t, "x_.%s_and_test(val<D>()%s)" % (n, c), (INT, PTR), "B", True)
    for n in ("and", "or", "xor"):
        op("fetch_" + n + t, "x_.fetch_%s(val<D>()%s)" % (n, c), BITS, "V", True)
        op("bitwise_" + n + t, "x_.bitwise_%s(val<D>()%s)" % (n, c), BITS, "V", True)
        op("opaque_" + n + t, "x_.opaque_%s(val<D>()%s)" % (n, c), BITS, "O", True)
        op(n + "_and_test" + t, "x_.%s_and_test(val<D>()%s)" % (n, c), BITS, "B", True)
    for n, pre, ks, tk in (("negate", "", (INT, FP), (INT,)), ("complement", "bitwise_", BITS, BITS)):
        op("fetch_" + n + t, "x_.fetch_%s(%s)" % (n, o), ks, "V", True)
        op(n + t, "x_.%s%s(%s)" % (pre, n, o), ks, "V", True)
        op("opaque_" + n + t, "x_.opaque_%s(%s)" % (n, o), ks, "O", True)
        op(n + "_and_test" + t, "x_.%s_and_test(%s)" % (n, o), tk, "B", True)
    for n in ("set", "reset", "complement"):
        op("bit_test_and_" + n + t, "x_.bit_test_and_%s(0u%s)" % (n, c), BITS, "B", True)
for w in ("weak", "strong"):
    op("cas_%s_oo" % w, "x_.compare_exchange_%s(val<V&>(), val<V>(), MO, MO)" % w, ALL, "B", True)
op("assign", "x_ = val<V>()", ALL, "V", True)
op("convert", "x_.operator V()", ALL, "V", False)
op("cast", "static_cast<V>(x_)", ALL, "V", False)
for n, s in (("inc", "++x_"), ("dec", "--x_"), ("postinc", "x_++"), ("postdec", "x_--")):
    op(n, s, (INT, PTR), "V", True)
op("plus_eq", "x_ += val<D>()", ARITH, "V", True)
op("minus_eq", "x_ -= val<D>()", ARITH, "V", True)
for n, s in (("and", "&"), ("or", "|"), ("xor", "^")):
    op(n + "_eq", "x_ %s= val<D>()" % s, BITS, "V", True)
op("is_lock_free", "x_.is_lock_free()", ALL, "B", False)
op("has_native_wait_notify", "x_.has_native_wait_notify()", ALL, "B", False)
op("notify_one", "x_.notify_one()", ALL, "O", None)
op("notify_all", "x_.notify_all()", ALL, "O", None)
# never documented, for any kind
NEVER = [("cas_rvalue_expected", "x_.compare_exchange_strong(val<V>(), val<V>())"), ("cas_const_expected", "x_.compare_exchange_weak(val<const V&>(), val<V>())"),
         ("times_eq", "x_ *= val<D>()"), ("div_eq", "x_ /= val<D>()"), ("mod_eq", "x_ %= val<D>()"), ("shl_eq", "x_ <<= 1"), ("shr_eq", "x_ >>= 1"),
         ("store_nothing", "x_.store()"), ("load_value", "x_.load(val<V>())"), ("copy_assign", "x_ = x_")]
OPMAP = {o[0]: o for o in OPS}
KINDS = {"atomic": ("boost::atomic<%s>", False), "ipc_atomic": ("boost::ipc_atomic<%s>", False), "atomic_ref": ("boost::atomic_ref<%s>", True), "ipc_atomic_ref": ("boost::ipc_atomic_ref<%s>", True)}
INTS = ["char", "signed char", "unsigned char", "char16_t", "char32_t", "wchar_t", "short", "unsigned short", "int", "unsigned", "long", "unsigned long", "long long", "unsigned long long",
        "std::int8_t", "std::uint16_t", "std::int32_t", "std::uint64_t", "std::size_t", "std::ptrdiff_t", "std::uintptr_t", "std::intmax_t"]


class Type:
    def __init__(self, name, cat, decl="", diff=None, sizeof=None, default=True):
        self.name, self.cat, self.decl, self.diff = name, cat, decl, diff or name
        self.default = default


def gen_struct(r, n):
    ms = []
    for i in range(r.randint(1, 5)):
        t = r.choice(["char", "short", "int", "long", "float", "double", "void*", "unsigned char", "bool"])
        ms.append("%s m%d%s;" % (t, i, r.choice(["", "", "[%d]" % r.randint(1, 5)])))
    extra = r.choice(["", "", "", "operator int() const { return 1; }", "S%d& operator+=(S%d const&) { return *this; } S%d& operator&=(S%d const&) { return *this; } S%d& operator++() { return *this; }" % ((n,) * 5),
                      "constexpr S%d() noexcept : m0() {} explicit constexpr S%d(int) noexcept : m0() {}" % (n, n) if "[" not in ms[0] and len(ms) == 1 else "", "private: int hidden; public:" if r.random() < 0.5 else "",
                      "bool operator==(S%d const&) const { return true; }" % n, "typedef S%d difference_type; typedef int value_type;" % n])
    return Type("S%d" % n, GENERIC, "struct S%d { %s %s };" % (n, " ".join(ms), extra))


def gen_type(r, n, flags):
    k = r.randrange(12)
    gnu = any(f.startswith("-std=gnu") for f in flags)
    nofp = "-DBOOST_ATOMIC_NO_FLOATING_POINT" in flags
    if k < 3:
        return Type(r.choice(INTS + (["__int128", "unsigned __int128"] if gnu and "-m32" not in flags else [])), INT)
    if k == 3:
        return Type(r.choice(["float", "double", "long double"]), GENERIC if nofp else FP)
    if k < 6:
        u = r.choice(["", "unsigned char", "signed char", "short", "unsigned short", "int", "unsigned", "long", "unsigned long long", "bool", "char16_t"])
        c = r.choice(["", "class "])
        ops = r.choice(["", "", "inline E%d operator|(E%d a, E%d) { return a; } inline E%d& operator|=(E%d& a, E%d) { return a; } inline E%d& operator++(E%d& a) { return a; } inline E%d operator~(E%d a) { return a; }" % ((n,) * 10)])
        return Type("E%d" % n, ENUM, "enum %sE%d%s { e%d_a, e%d_b = 1 }; %s" % (c, n, " : " + u if u else "", n, n, ops))
    if k < 8:
        b = r.choice(["int*", "char*", "const double*", "volatile short*", "void**", "P%d*", "const P%d* const*", "long double*", "PA%d*", "bool*", "PE%d*"])
        b = b % n if "%" in b else b
        return Type("T%d" % n, PTR, "struct P%d { int a; char b[%d]; }; typedef int PA%d[%d]; enum class PE%d : short {}; typedef %s T%d;" % (n, r.randint(1, 40), n, r.randint(1, 7), n, b, n), "std::ptrdiff_t")
    if k == 8:
        b = r.choice(["void*", "const void*", "volatile void*", "const volatile void*", "void (*%s)()", "int (*%s)(int, ...)", "int P%d::*%%s" % n, "void (P%d::*%%s)(int) const" % n] + (["void (*%s)() noexcept"] if any(v in f for f in flags for v in ("++17", "++20", "++23")) else []))
        return Type("T%d" % n, GENERIC, "struct P%d { int a; }; typedef %s;" % (n, b % ("T%d" % n) if "%s" in b else b + " T%d" % n), "std::ptrdiff_t")
    if k == 9:
        return Type(r.choice(["bool", "bool", "std::nullptr_t"]), GENERIC)
    return gen_struct(r, n)


def fact_lines(r, t, kind, density):
    """(detector names used, lines)"""
    pat, isref = KINDS[kind]
    K = pat % t.name
    used, out = {}, []
    for quals in ("", "const", "volatile", "const volatile"):
        if isref and "volatile" in quals:
            continue
        X = "%s %s&" % (K, quals)
        for name, expr, kinds, res, mod, timed in OPS:
            if r.random() > density:
                continue
            avail = t.cat in kinds
            if not isref and quals.startswith("const") and mod:
                avail = False
            if not isref and quals.startswith("const") and mod is None: # whether notifying counts as modifying is not documented
                continue
            if name in ("plus_eq", "minus_eq", "and_eq", "or_eq", "xor_eq", "inc", "dec", "postinc", "postdec") and not avail and t.decl and ("operator" in t.decl): # the value's own operators may apply to a converted copy
                continue
            if name == "cast" and "volatile" in quals: # finding the conversion is the language's business
                continue
            R = {"V": t.name, "B": "bool", "O": "void", "W": "boost::atomics::wait_result<%s >" % t.name}[res]
            used[name] = expr
            out.append('chk<N_%s, %s, %s, %s, %s, %s>::run("%s %s: %s", %s);' % (name, X, t.name, t.diff, R, "true" if avail else "false", quals + " " + K, "(" + t.cat + ")", expr.replace('"', ''), "false" if timed else "true"))
        for name, expr in NEVER:
            if r.random() > density or quals or name == "copy_assign" and isref: # copying through a qualified object converts first
                continue
            if "operator" in t.decl:
                continue
            used[name] = expr
            out.append('chk<N_%s, %s, %s, %s, void, false>::run("%s (%s): %s", false);' % (name, X, t.name, t.diff, quals + " " + K, t.cat, expr))
    k = lambda s: out.append('fact(%s, "%s (%s): %s");' % (s.replace("%K", K).replace("%V", t.name), K, t.cat, s.replace("%K", K).replace("%V", t.name).replace('"', '')))
    k("std::is_same<%K::value_type, %V>::value")
    k("!std::is_assignable<%K&, %K const&>::value"); k("!std::is_assignable<%K&, %K&&>::value")
    k("std::is_same<decltype(%K::is_always_lock_free), const bool>::value"); k("std::is_same<decltype(%K::always_has_native_wait_notify), const bool>::value")
    k("std::is_destructible<%K>::value && std::is_trivially_destructible<%K>::value")
    k("std::is_convertible<%K const&, %V>::value")
    if isref:
        k("!std::is_default_constructible<%K>::value"); k("std::is_copy_constructible<%K>::value && std::is_nothrow_copy_constructible<%K>::value")
        k("std::is_constructible<%K, %V&>::value && std::is_nothrow_constructible<%K, %V&>::value"); k("!std::is_constructible<%K, %V const&>::value"); k("!std::is_constructible<%K, %V&&>::value"); k("!std::is_convertible<%V&, %K>::value")
        k("std::is_same<decltype(%K::required_alignment), const std::size_t>::value"); k("%K::required_alignment >= alignof(%V)")
        mk = "boost::make_ipc_atomic_ref" if kind.startswith("ipc") else "boost::make_atomic_ref"
        k("std::is_same<decltype(" + mk + "(declval<%V&>())), %K>::value"); k("noexcept(" + mk + "(declval<%V&>()))")
        out.append("#if __cplusplus >= 201703L")
        k("std::is_same<decltype(" + ("boost::ipc_atomic_ref" if kind.startswith("ipc") else "boost::atomic_ref") + "(declval<%V&>())), %K>::value")
        out.append("#endif")
    else:
        k("!std::is_copy_constructible<%K>::value && !std::is_move_constructible<%K>::value"); k("!std::is_constructible<%K, %K&>::value")
        k("std::is_constructible<%K, %V>::value && std::is_nothrow_constructible<%K, %V>::value")
        k("std::is_default_constructible<%K>::value && std::is_nothrow_default_constructible<%K>::value")
        k("std::is_same<decltype(declval<%K&>().value()), %V&>::value"); k("noexcept(declval<%K&>().value())")
        out.append("#if __cplusplus >= 201703L")
        k("std::is_convertible<%V, %K>::value")
        out.append("#endif")
    return used, out


def use_lines(r, t, kind, lockfree_only):
    """statements that instantiate every documented operation once"""
    pat, isref = KINDS[kind]
    out = []
    for name, expr, kinds, res, mod, timed in OPS:
        if t.cat in kinds and name != "convert" and r.random() < 0.5:
            e = expr.replace("x_", "x").replace("MO", r.choice(["boost::memory_order_relaxed", "boost::memory_order_seq_cst"])).replace("val<V&>()", "e").replace("val<V>()", "v").replace("val<D>()", "d").replace("static_cast<V>", "static_cast<%s>" % t.name).replace("val<Clk::time_point>()", "Clk::now()")
            out.append("(void)(%s);" % e)
    r.shuffle(out)
    return out


ALIASES = {"char": "char", "uchar": "unsigned char", "schar": "signed char", "ushort": "unsigned short", "short": "short", "uint": "unsigned int", "int": "int", "ulong": "unsigned long", "long": "long", "ullong": "unsigned long long", "llong": "long long",
           "address": "void*", "bool": "bool", "wchar_t": "wchar_t", "char16_t": "char16_t", "char32_t": "char32_t", "size_t": "std::size_t", "ptrdiff_t": "std::ptrdiff_t", "intptr_t": "std::intptr_t", "uintptr_t": "std::uintptr_t", "intmax_t": "std::intmax_t", "uintmax_t": "std::uintmax_t"}
for _k in ("", "_least", "_fast"):
    for _b in (8, 16, 32, 64):
        for _u in ("int", "uint"):
            ALIASES["%s%s%d_t" % (_u, _k, _b)] = "std::%s%s%d_t" % (_u, _k, _b)


def fixed_lines(flags):
    out = []
    f = lambda s: out.append('fact(%s, "%s");' % (s, s))
    for a, t in sorted(ALIASES.items()):
        f("std::is_same<boost::atomic_%s, boost::atomic<%s> >::value" % (a, t))
    out.append("#if defined(__cpp_char8_t) && __cpp_char8_t >= 201811")
    f("std::is_same<boost::atomic_char8_t, boost::atomic<char8_t> >::value")
    out.append("#endif")
    for F in ("boost::atomic_flag", "boost::ipc_atomic_flag"):
        f("!std::is_copy_constructible<%s>::value && !std::is_copy_assignable<%s>::value && !std::is_move_constructible<%s>::value" % (F, F, F))
        f("std::is_nothrow_default_constructible<%s>::value" % F)
        for e, t in (("test()", "bool"), ("test(MO)", "bool"), ("test_and_set()", "bool"), ("test_and_set(MO)", "bool"), ("clear()", "void"), ("clear(MO)", "void"), ("wait(true)", "bool"), ("wait(true, MO)", "bool"), ("notify_one()", "void"), ("notify_all()", "void"), ("is_lock_free()", "bool"), ("has_native_wait_notify()", "bool")):
            f("std::is_same<decltype(declval<%s&>().%s), %s>::value && noexcept(declval<%s&>().%s)" % (F, e, t, F, e))
        f("std::is_same<decltype(declval<%s&>().wait_for(true, std::chrono::seconds(1))), boost::atomics::wait_result<bool> >::value" % F)
        f("std::is_same<decltype(declval<%s&>().wait_until(true, Clk::now(), MO)), boost::atomics::wait_result<bool> >::value" % F)
        f("std::is_same<decltype(%s::is_always_lock_free), const bool>::value && std::is_same<decltype(%s::always_has_native_wait_notify), const bool>::value" % (F, F))
        f("std::is_same<decltype(declval<%s const&>().test()), bool>::value" % F)
    for fe in ("atomic_thread_fence", "atomic_signal_fence"):
        f("std::is_same<decltype(boost::%s(MO)), void>::value && noexcept(boost::%s(MO))" % (fe, fe))
    for o in ("relaxed", "consume", "acquire", "release", "acq_rel", "seq_cst"):
        f("std::is_same<decltype(boost::memory_order_%s), const boost::memory_order>::value || std::is_same<decltype(boost::memory_order_%s), boost::memory_order>::value" % (o, o))
        f("boost::memory_order::%s == boost::memory_order_%s" % (o, o))
    f("std::is_same<decltype(boost::atomics::wait_result<int>().value), int>::value && std::is_convertible<decltype(boost::atomics::wait_result<int>().timeout), bool>::value")
    return out


def program(types, facts, uses, fixed):
    used = {}
    body = []
    for u, ls in facts:
        used.update(u)
        body.append("static void g%d() {\n%s\n}" % (len(body), "\n".join(ls)))
    src = PRE
    for n, e in used.items():
        src += "DET(N_%s, %s)\n" % (n, e)
    src += "\n".join(t.decl for t in types if t.decl) + "\n" + "\n".join(body) + "\n"
    for i, (t, kind, ls) in enumerate(uses):
        src += "void u%d(%s& x, %s v, %s d) { %s e = v; (void)d; (void)e;\n%s\n}\n" % (i, KINDS[kind][0] % t.name, t.name, t.diff, t.name, "\n".join(ls))
    if fixed:
        body.append(""); src += "static void g%d() {\n#ifndef BOOST_ATOMIC_FORCE_FALLBACK\nboost::atomic_flag f_ = BOOST_ATOMIC_FLAG_INIT; static boost::ipc_atomic_flag f2_ = BOOST_ATOMIC_FLAG_INIT; fact(!f_.test(), \"BOOST_ATOMIC_FLAG_INIT initializes to clear\"); (void)f2_;\n#endif\n%s\n}\n" % (len(body) - 1, "\n".join(fixed))
    src += "int main() { %s std::printf(\"TOTAL %%d\\n\", total); return bad ? 10 : 0; }\n" % " ".join("g%d();" % i for i in range(len(body)))
    return src


# ---------------------------------------------------------------- uses that must be rejected although overload resolution finds them
def negative(r, n):
    """(what, program with the use, same program without it)"""
    pre = PRE
    k = r.randrange(4)
    if k == 0: # not trivially copyable
        d = r.choice(["struct N { N(); N(const N&); int a; };", "struct N { ~N(); int a; };", "struct N { virtual void f(); int a; };", "struct N { N& operator=(const N&); int a; };", "#include <string>\ntypedef std::string N;", "struct B0 { int a; }; struct N : virtual B0 { int b; };", "struct M0 { M0(const M0&); int a; }; struct N { M0 m[2]; };", "#include <vector>\ntypedef std::vector<int> N;", "struct N { N(N&&) noexcept; int a; };"])
        kind = r.choice(sorted(KINDS))
        bad = "%s* volatile p_ = 0; unsigned f_() { return sizeof(%s); }" % (KINDS[kind][0] % "N", KINDS[kind][0] % "N")
        return "%s of a type that is not trivially copyable (%s)" % (kind, d), pre + d + "\n" + bad + "\n", pre + d + "\nunsigned f_() { return sizeof(N); }\n"
    if k == 1: # incomplete
        kind = r.choice(sorted(KINDS))
        return "%s of an incomplete type" % kind, pre + "struct N;\nunsigned f_() { return sizeof(%s); }\n" % (KINDS[kind][0] % "N"), pre + "struct N { int a; };\nunsigned f_() { return sizeof(%s); }\n" % (KINDS[kind][0] % "N")
    # inter-process operations that are not lock-free
    size, kind = r.choice([(17, "ipc_atomic"), (24, "ipc_atomic"), (40, "ipc_atomic"), (3, "ipc_atomic_ref"), (5, "ipc_atomic_ref"), (12, "ipc_atomic_ref"), (33, "ipc_atomic_ref"), (7, "ipc_atomic_ref")])
    ops = [o for o in OPS if GENERIC in o[2] and o[0] not in ("is_lock_free", "has_native_wait_notify", "convert", "cast")]
    o = r.choice(ops)
    e = o[1].replace("x_", "x").replace("MO", "boost::memory_order_seq_cst").replace("val<V&>()", "e").replace("val<V>()", "v").replace("val<Clk::time_point>()", "Clk::now()")
    decl = "struct N { unsigned char b[%d]; };\nvoid f_(%s& x, N& e, N v) { (void)x.is_lock_free(); (void)x.has_native_wait_notify(); (void)e; (void)v;\n%%s\n}\n" % (size, KINDS[kind][0] % "N")
    return "%s on an %s object that is not lock-free (%d bytes)" % (e, kind, size), pre + decl % ("(void)(%s);" % e), pre + decl % ""


# ---------------------------------------------------------------- public headers, alone and in any order, in several translation units
MACROS = ["FLAG", "BOOL", "CHAR", "CHAR8_T", "CHAR16_T", "CHAR32_T", "WCHAR_T", "SHORT", "INT", "LONG", "LLONG", "ADDRESS", "POINTER", "INT8", "INT16", "INT32", "INT64", "INT128"]
HEADER_USES = {
    "boost/memory_order.hpp": ["boost::memory_order o = boost::memory_order_release; bad(o != boost::memory_order::release, \"memory_order::release\")",
                               "bad(boost::memory_order::relaxed == boost::memory_order::seq_cst || boost::memory_order_acquire == boost::memory_order_acq_rel || boost::memory_order::consume != boost::memory_order_consume, \"values of memory_order\")"],
    "boost/atomic/capabilities.hpp": ["int lf[] = { %s }; for (unsigned i = 0; i < sizeof lf / sizeof *lf; ++i) bad(lf[i] < 0 || lf[i] > 2, \"a lock-free macro is 0, 1 or 2\")" % ", ".join("BOOST_ATOMIC_%s_LOCK_FREE" % m for m in MACROS),
                                      "int hf[] = { BOOST_ATOMIC_THREAD_FENCE, BOOST_ATOMIC_SIGNAL_FENCE, %s }; for (unsigned i = 0; i < sizeof hf / sizeof *hf; ++i) bad(hf[i] < 0 || hf[i] > 2, \"a capability macro is 0, 1 or 2\")" % ", ".join("BOOST_ATOMIC_HAS_NATIVE_%s_WAIT_NOTIFY, BOOST_ATOMIC_HAS_NATIVE_%s_IPC_WAIT_NOTIFY" % (m, m) for m in MACROS)],
    "boost/atomic/atomic.hpp": ["boost::atomic<@int@> a(5); bad(a.exchange(7, boost::memory_order_relaxed) != 5 || a.load() != 7, \"boost::atomic\")",
                                "static boost::atomic_@alias@ b(3); bad(b.fetch_add(2) != (b.load() == 5 ? 3 : 0), \"an alias of boost::atomic\"); b.store(3)",
                                "struct S { short a; char b[3]; char c; } s = { 1, { 2, 3, 4 }, 5 }; boost::atomic<S> c(s); bad(c.load().b[2] != 4, \"boost::atomic of a structure\")",
                                "boost::atomic<@int@> w(1); bad(w.wait(2) != 1, \"wait\"); w.notify_one(); w.notify_all()",
                                "boost::atomic<@int@> u(1); boost::atomics::wait_result<@int@> r = u.wait_for(1, std::chrono::microseconds(50)); bad(r.value != 1 || !r.timeout, \"wait_for\")",
                                "boost::atomic<const char*> p(\"xy\"); bad(*++p != 'y', \"pointer arithmetic\")"],
    "boost/atomic/atomic_ref.hpp": ["@int@ x = 5; boost::atomic_ref<@int@> r(x); bad(++r != 6 || x != 6, \"boost::atomic_ref\")", "@int@ y = 9; bad(boost::make_atomic_ref(y).load(boost::memory_order_acquire) != 9, \"make_atomic_ref\")",
                                    "@int@ z = 1; boost::atomic_ref<@int@> v(z); boost::atomics::wait_result<@int@> q = v.wait_until(1, std::chrono::@clock@::now() - std::chrono::seconds(1)); bad(!q.timeout, \"wait_until\")"],
    "boost/atomic/atomic_flag.hpp": ["static boost::atomic_flag f = BOOST_ATOMIC_FLAG_INIT; bad(f.test_and_set(boost::memory_order_acquire), \"boost::atomic_flag\"); f.clear(); f.notify_all()", "boost::atomic_flag g; bad(g.test() || g.wait(true), \"boost::atomic_flag\")",
                                     "boost::atomic_flag h; bad(!h.wait_for(false, std::chrono::nanoseconds(1)).timeout, \"wait_for of a flag\")"],
    "boost/atomic/ipc_atomic.hpp": ["boost::ipc_atomic<@int@> a(5); bad(a.exchange(7) != 5 || a.load() != 7, \"boost::ipc_atomic\")", "boost::ipc_atomic<@int@> w(1); bad(w.wait(2) != 1, \"wait of boost::ipc_atomic\"); w.notify_one()"],
    "boost/atomic/ipc_atomic_ref.hpp": ["@int@ x = 5; boost::ipc_atomic_ref<@int@> r(x); bad(--r != 4 || x != 4, \"boost::ipc_atomic_ref\")", "@int@ y = 9; bad(boost::make_ipc_atomic_ref(y).load() != 9, \"make_ipc_atomic_ref\")"],
    "boost/atomic/ipc_atomic_flag.hpp": ["boost::ipc_atomic_flag f; bad(f.test_and_set() || !f.test(), \"boost::ipc_atomic_flag\"); f.clear()"],
    "boost/atomic/fences.hpp": ["boost::atomic_thread_fence(boost::memory_order_@order@)", "boost::atomic_signal_fence(boost::memory_order_@order@)"],
    "boost/atomic/thread_pause.hpp": ["boost::atomics::thread_pause()"],
    "boost/atomic/wait_result.hpp": ["boost::atomics::wait_result<@int@> r; bad(r.value != 0 || r.timeout, \"a default-constructed wait_result\")", "boost::atomics::wait_result<@int@> r(4, true); bad(r.value != 4 || !r.timeout, \"wait_result\")"],
    "boost/atomic/posix_clock_traits_fwd.hpp": [],
}
BY_ALL = {"boost/atomic.hpp": [h for h in HEADER_USES]}
CLOCKS = r'''#include <time.h>
struct base_clock {};
struct Clk@N@ : base_clock { typedef std::chrono::nanoseconds duration; typedef duration::rep rep; typedef duration::period period; typedef std::chrono::time_point<Clk@N@> time_point; static const bool is_steady = true; static time_point now() noexcept { return time_point(std::chrono::duration_cast<duration>(std::chrono::steady_clock::now().time_since_epoch())); } };
namespace boost { namespace atomics {
template <class C> struct posix_clock_traits<C, typename std::enable_if<std::is_base_of<base_clock, C>::value>::type> { static constexpr clockid_t clock_id = CLOCK_MONOTONIC;
    static timespec to_timespec(typename C::time_point t) noexcept { ++@ns@::converted; timespec s; s.tv_sec = t.time_since_epoch().count() / 1000000000; s.tv_nsec = t.time_since_epoch().count() % 1000000000; return s; } };
} }
'''


def headers(r, lockfree):
    """(source, facts): one file, compiled as two translation units (-DTU=1, -DTU=2), each with public headers of its own"""
    out, total = [], 0
    for tu in (1, 2):
        hs = r.sample(sorted(HEADER_USES) + ["boost/atomic.hpp"], r.choice([1, 1, 2, 3, 5]))
        if r.random() < 0.3:
            hs += [r.choice(hs)]
        L = ["#%s TU == %d" % ("if" if tu == 1 else "else", tu)]
        L += ["#include <%s>" % h for h in hs]
        L += ["#include <chrono>", "#include <cstdio>", "#include <type_traits>", "namespace part%d {" % tu, "int converted = 0; inline int& fails() { static int n = 0; return n; }",
              'inline void bad(bool b, const char* what) { if (b) { ++fails(); std::printf("FACT %s of TU %d does not work\\n", what); } }' % ("%s", tu), "}"]
        have = [h for x in hs for h in BY_ALL.get(x, [x])]
        posix = "boost/atomic/posix_clock_traits_fwd.hpp" in have and "boost/atomic/atomic.hpp" in have and not r.random() < 0.3
        if posix:
            L.append(CLOCKS.replace("@N@", str(tu)).replace("@ns@", "part%d" % tu))
        L.append("int run%d() { using namespace part%d;" % (tu, tu))
        for h in dict.fromkeys(have):
            for u in HEADER_USES[h]:
                if h.startswith("boost/atomic/ipc") and not lockfree:
                    continue
                if r.random() < 0.8:
                    u = u.replace("@int@", r.choice(["int", "unsigned", "long", "short", "signed char", "unsigned long long"])).replace("@alias@", r.choice(["int", "uint", "long", "short", "llong", "int8_t", "uint16_t", "int_least32_t", "uint_fast64_t", "size_t", "ptrdiff_t", "intmax_t", "uintptr_t"])) \
                        .replace("@clock@", r.choice(["steady_clock", "system_clock", "high_resolution_clock"])).replace("@order@", r.choice(["relaxed", "consume", "acquire", "release", "acq_rel", "seq_cst"]))
                    L.append("    { %s; }" % u); total += 1
        if posix:
            L.append('    { boost::atomic<int> a(1); bad(!a.wait_until(1, Clk%d::now() - std::chrono::seconds(1)).timeout, "wait_until on a clock of the user"); bad(a.wait_until(0, Clk%d::now() + std::chrono::seconds(100)).timeout, "wait_until on a clock of the user"); }' % (tu, tu)); total += 1
        L.append("    return fails(); }")
        if tu == 1:
            L.append("int run2(); int main() { return run1() + run2() ? 10 : 0; }")
        out += L
    return "\n".join(out) + "\n#endif\n", total
