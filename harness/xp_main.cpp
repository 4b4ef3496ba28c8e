// Generated scenarios of waiting, notifying and modifying on the real kernel, with real threads (mode threads) or with real
// processes that map the shared memory at addresses of their own (mode procs; inter-process kinds only).
#include "concobj.hpp"
#include <atomic>
#include <chrono>
#include <errno.h>
#include <fcntl.h>
#include <pthread.h>
#include <sched.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/syscall.h>
#include <sys/wait.h>
using namespace vf;
namespace {
const int W = 4; const size_t AREA = 16384;
enum { X_EXCH, X_CAS, X_LOCK, X_TURN, X_NOTIFY, X_TIMEOUT, X_SUM, X_COUNT };
const char* const xnames[] = { "exchange", "cas", "lock", "turns", "notify", "timeout", "sum" };
struct Case { int obj, scen, nw, n, form, clk, all, place, delay, order; unsigned init; u64 seed; };
struct Out { unsigned tok[64]; unsigned nt; int bad; char why[200]; int timeouts; };
struct Ctl { Case c; std::atomic<unsigned> go, attached, done, start, fin, entered; std::atomic<int> quit; Out out[W]; long plain, plain2; };
Ctl* ctl; char* base_; int fd_; bool procs_; pid_t pids[W]; pthread_t thr[W];
std::int64_t ns(clockid_t c) { timespec t; clock_gettime(c, &t); return t.tv_sec * 1000000000ll + t.tv_nsec; }
std::int64_t mono() { return ns(CLOCK_MONOTONIC); } std::int64_t real() { return ns(CLOCK_REALTIME); }
void relax(unsigned& k) { if (++k > 200) { k = 0; sched_yield(); } else __builtin_ia32_pause(); }
std::string to_text(const Case& c) { std::ostringstream o; const CObj& b = *cobjs()[c.obj]; o << "type " << b.type << "\nkind " << b.kind << "\nscenario " << xnames[c.scen] << "\nargs " << c.nw << " " << c.n << " " << c.form << " " << c.clk << " " << c.all << " " << c.place << " " << c.delay << " " << c.order << " " << c.init << " " << c.seed << "\n"; return o.str(); }
bool from_text(const std::string& s, Case& c) { std::istringstream in(s); std::string k, type, kind, sc; while (in >> k) { if (k == "type") in >> type; else if (k == "kind") in >> kind; else if (k == "scenario") in >> sc; else if (k == "args") in >> c.nw >> c.n >> c.form >> c.clk >> c.all >> c.place >> c.delay >> c.order >> c.init >> c.seed; }
    for (int i = 0; i < X_COUNT; ++i) if (sc == xnames[i]) c.scen = i; for (size_t i = 0; i < cobjs().size(); ++i) if (cobjs()[i]->type == type && cobjs()[i]->kind == kind) { c.obj = (int)i; return true; } return false; }
bool far_deadline(const Case& c) { return c.scen == X_TIMEOUT && (c.seed >> 9 & 3) == 0; }
struct Bad { std::string w; };
void fail(const std::string& w) { throw Bad{w}; }
const int rel_[] = { 3, 4, 5 }, acq_[] = { 2, 5, 1 };
struct Run {
    const Case& c; const CObj& b; void* p; int t; Rng r; Out& o;
    Run(const Case& c_, void* p_, int t_) : c(c_), b(*cobjs()[c_.obj]), p(p_), t(t_), r(mix(c_.seed, t_)), o(ctl->out[t_]) {}
    CRes op(int code, unsigned a = 0, unsigned exp = 0, int mo = 5) { CArg g; g.code = code; g.a = a; g.b = exp; g.mo = mo; g.fmo = mo == 4 || mo == 2 ? 2 : mo == 5 ? 5 : 0; CRes q; b.op(p, g, q); val(q); return q; }
    void val(const CRes& q) { if (q.v == BAD) fail("a value that no thread ever stored is returned"); }
    unsigned load(int mo = 5) { return op(C_LOAD, 0, 0, mo).v; }
    // one wait; long ones must not time out
    CRes wait(unsigned old, int form, std::int64_t lim) {
        CArg g; g.b = old; g.mo = acq_[r.below(2)]; CRes q; g.clk = K_STEADY; g.dur = D_NS; int clk = c.clk; std::int64_t t0 = mono(), r0 = real();
        if (lim == 100000000000ll && r.chance(1, 3)) lim = 2000000000000000000ll; // a deadline beyond what 32 bits of seconds can express
        if (form == 0) g.code = C_WAIT; else if (form == 1) { g.code = C_WAITFOR; static const int d[] = { D_NS, D_US, D_MS, D_FSEC }; g.dur = d[r.below(4)]; g.t = g.dur == D_US ? (lim + 999) / 1000 : g.dur == D_MS ? (lim + 999999) / 1000000 : lim; }
        else { g.code = C_WAITUNTIL; g.clk = clk; g.t = clock_now(clk) + lim; if (clk == K_COARSE) { g.t = clock_now(clk) / 1000000000 + (lim + 999999999) / 1000000000; } }
        b.op(p, g, q); std::int64_t t1 = mono(), adj = (real() - r0) - (t1 - t0); bool adjusted = adj > 100000 || adj < -100000; val(q);
        if (q.timeout) { ++o.timeouts; if (form == 0) fail("an untimed wait reports a timeout"); if (q.v != old) fail("a timeout is reported with a value that differs from the awaited one");
            bool early = form != 1 && clk == K_SYSTEM && adjusted ? false : form == 1 ? t1 - t0 < lim : clock_now(clk) < (clk == K_COARSE ? g.t * 1000000000 : g.t); if (early) fail("a timeout is reported before the deadline"); }
        else if (q.v == old) fail("a wait returns the awaited value without a timeout");
        return q; }
    void set(unsigned v) { // any kind of modification that stores v; the caller is the only modifier
        if (b.flag) { if (v) op(C_XCHG, 1, 0, rel_[r.below(3)] == 3 ? 3 : 5); else op(C_STORE, 0, 0, 3); return; }
        switch (r.below(3)) { case 0: op(C_STORE, v, 0, r.chance(1, 2) ? 3 : 5); break; case 1: op(C_XCHG, v, 0, rel_[r.below(3)]); break; default: { unsigned cur = load(0); CRes q = op(C_CAS, v, cur, rel_[r.below(3)]); if (!q.ok) fail("a compare-exchange fails although the value is the expected one"); } } }
    void pause() { unsigned d = (unsigned)r.below(c.delay + 1); if (d > 20 && r.chance(1, 3)) usleep(d); else for (volatile unsigned i = 0; i < d * 10; ++i) {} }
    void go() {
        switch (c.scen) {
        case X_EXCH: for (int i = 0; i < c.n; ++i) { o.tok[o.nt++] = op(C_XCHG, 1 + c.init + t * c.n + i).v; if (r.chance(1, 4)) pause(); } break;
        case X_CAS: for (int i = 0; i < c.n; ++i) { unsigned e = load(r.chance(1, 2) ? 0 : 5); for (;;) { CRes q = op(r.chance(1, 2) ? C_CAS : C_CASW, (e + 1) % b.dom, e, r.chance(1, 2) ? 5 : 0); if (q.ok) break; e = q.v; } } break;
        case X_SUM: for (int i = 0; i < c.n; ++i) { unsigned k = 1 + (unsigned)r.below(5); int mo = r.chance(1, 2) ? 0 : 5; op2(C_ADD, k, mo); op2(C_SUB, k, mo); } break;
        case X_LOCK: for (int i = 0; i < c.n; ++i) { while (op(C_XCHG, 1, 0, r.chance(1, 2) ? 2 : 5).v) { bool sh = r.chance(1, 6) && c.form; wait(1, sh ? 1 : c.form, sh ? r.below(200000) : 100000000000ll); }
                long x = ctl->plain; if (r.chance(1, 4)) pause(); ctl->plain = x + 1; ctl->plain2 = x + 1; op(C_STORE, 0, 0, r.chance(1, 2) ? 3 : 5); if (c.all) op(C_NALL); else op(C_N1); } break;
        case X_TURN: { unsigned v = load(r.chance(1, 2) ? 2 : 5); unsigned m = b.dom / c.nw * c.nw; for (int i = 0; i < c.n; ++i) { while (v % c.nw != (unsigned)t) { CRes q = wait(v, c.form, r.chance(1, 8) ? r.below(300000) : 100000000000ll); v = q.v; if (q.timeout) v = load(2); }
                if (ctl->plain != ctl->plain2) fail("plain data written before a store is not visible after the wait that observed it"); ctl->plain += 1; if (r.chance(1, 4)) pause(); ctl->plain2 += 1; unsigned nv = (v + 1) % m; set(nv); op(C_NALL); v = nv; } break; }
        case X_NOTIFY: if (t < c.nw - 1) { ctl->entered.fetch_add(1); CRes q = wait(c.init, c.form, 100000000000ll); if (q.timeout) fail("a wait timed out although the value changed and a notification followed"); if (q.v != (c.init + 1) % b.dom) fail("a wait returns a value that the object never held"); }
            else { unsigned k = 0; while (ctl->entered.load() < (unsigned)c.nw - 1) relax(k); pause(); if (r.chance(1, 3)) { if (r.chance(1, 2)) op(C_NALL); else op(C_N1); pause(); } set((c.init + 1) % b.dom); if (c.all) op(C_NALL); else for (int i = 0; i < c.nw - 1; ++i) { op(C_N1); if (r.chance(1, 4)) pause(); } } break;
        case X_TIMEOUT: { const bool far = far_deadline(c); // a deadline decades away and a value that does change: no timeout may be reported
            if (t < c.nw - 1) { std::int64_t lim = far ? (r.chance(1, 2) ? 2000000000000000000ll : 100000000000ll) : r.chance(1, 6) ? -(std::int64_t)(r.below(4000) * 1000000000000000ull) : (std::int64_t)r.below(c.delay * 2000 + 1);
                CRes q = wait(c.init, c.form ? c.form : 1, lim); if (far && q.timeout) fail("a timed wait reports a timeout long before its deadline"); if (!far && !q.timeout) fail("a timed wait returns without a timeout although the value never changed"); }
            else { for (int i = 0; i < c.n; ++i) { pause(); if (r.chance(1, 2)) op(C_N1); else op(C_NALL); }
                if (far) { set((c.init + 1) % b.dom); while (ctl->fin.load() < (unsigned)c.nw - 1) { op(C_NALL); usleep(300); } } } break; }
        }
    }
    void op2(int code, unsigned a, int mo) { CArg g; g.code = code; g.a = a; g.mo = mo; CRes q; b.op(p, g, q); val(q); }
};
void work(int t, char* base) {
    unsigned gen_ = 0;
    for (;;) { unsigned k = 0; while (ctl->go.load(std::memory_order_acquire) == gen_) { if (ctl->quit.load()) return; relax(k); } ++gen_;
        const Case c = ctl->c; const CObj& b = *cobjs()[c.obj]; void* p = base + 256 + (size_t)c.place * b.align;
        if (t < c.nw) { if (procs_ || t == 0) b.attach(p); ctl->attached.fetch_add(1); k = 0; while (ctl->start.load(std::memory_order_acquire) != gen_) relax(k);
            try { Run(c, p, t).go(); } catch (Bad& e) { ctl->out[t].bad = 1; snprintf(ctl->out[t].why, sizeof ctl->out[t].why, "%s", e.w.c_str()); }
            ctl->fin.fetch_add(1); }
        ctl->done.fetch_add(1, std::memory_order_release); }
}
void* thread_main(void* a) { work((int)(long)a, base_); return 0; }
void start_workers() {
    if (!procs_) { for (long t = 0; t < W; ++t) if (pthread_create(&thr[t], 0, thread_main, (void*)t)) _exit(3); return; }
    for (int t = 0; t < W; ++t) { pid_t p = fork(); if (p < 0) _exit(3); if (p) { pids[t] = p; continue; }
        prctl(PR_SET_PDEATHSIG, SIGKILL); for (int s = 1; s < 32; ++s) if (s != SIGKILL && s != SIGSTOP) signal(s, SIG_DFL);
        munmap(base_, AREA); void* pad = mmap(0, 4096 * (3 + 5 * t), PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); (void)pad;
        char* m = (char*)mmap(0, AREA, PROT_READ | PROT_WRITE, MAP_SHARED, fd_, 0); if (m == (char*)MAP_FAILED) _exit(3);
        work(t, m); _exit(0); }
}
void stop_workers() { ctl->quit.store(1); for (int t = 0; procs_ && t < W; ++t) kill(pids[t], SIGKILL); }
bool died() { if (!procs_) return false; int st; for (int t = 0; t < W; ++t) if (pids[t] && waitpid(pids[t], &st, WNOHANG) == pids[t]) { pids[t] = 0; return true; } return false; }
const double STUCK = 30; // s, not counting pauses of the whole machine
struct Clock { double last, sum; Clock() : last(wall()), sum(0) {} double operator()() { double n = wall(); sum += n - last < 0.1 ? n - last : 0.1; last = n; return sum; } };
bool check(const Case& c, std::string& why) {
    Crash::set(to_text(c)); const CObj& b = *cobjs()[c.obj]; std::string name = b.kind + "<" + b.type + ">, " + xnames[c.scen] + ": "; memset(base_, 0xa5, AREA); char* p = base_ + 256 + (size_t)c.place * b.align; b.init(p, c.scen == X_LOCK || c.scen == X_TURN ? 0 : c.init);
    ctl->c = c; memset(ctl->out, 0, sizeof ctl->out); ctl->plain = ctl->plain2 = 0; ctl->attached = 0; ctl->done = 0; ctl->fin = 0; ctl->entered = 0; unsigned g = ctl->go.load() + 1; ctl->go.store(g, std::memory_order_release);
    unsigned k = 0; Clock el; while (ctl->attached.load() < (unsigned)c.nw) { relax(k); if (el() > STUCK) _exit(3); if (died()) { why = name + "a process crashed"; return false; } } ctl->start.store(g, std::memory_order_release);
    unsigned n = 0; while (ctl->done.load(std::memory_order_acquire) < (unsigned)W) { if (++n > 2000) usleep(200); else relax(k);
        if (n % 256 == 0) { double past = el(); if (died()) { why = name + "a process crashed"; return false; }
            for (int t = 0; t < c.nw; ++t) if (ctl->out[t].bad && past > 2) { why = name + ctl->out[t].why; return false; }
            if (past > STUCK) { std::ostringstream o; o << name << c.nw - (int)ctl->fin.load() << " of " << c.nw << (procs_ ? " processes" : " threads") << " are still blocked or running after " << STUCK << " s"; why = o.str(); return false; } } }
    for (int t = 0; t < c.nw; ++t) if (ctl->out[t].bad) { why = name + ctl->out[t].why; return false; }
    unsigned fv = b.peek(p); if (fv == BAD) { why = name + "the final value was never stored"; return false; }
    if (c.scen == X_EXCH) { std::vector<unsigned> in(1, c.init), out(1, fv); for (int t = 0; t < c.nw; ++t) for (int i = 0; i < c.n; ++i) { in.push_back(1 + c.init + t * c.n + i); out.push_back(ctl->out[t].tok[i]); } std::sort(in.begin(), in.end()); std::sort(out.begin(), out.end()); if (in != out) { why = name + "exchanged values were lost or duplicated"; return false; } }
    if (c.scen == X_CAS && fv != (c.init + c.nw * c.n) % b.dom) { why = name + "increments by compare-exchange were lost"; return false; }
    if (c.scen == X_SUM && fv != c.init) { why = name + "additions or subtractions were lost"; return false; }
    if (c.scen == X_LOCK && (fv || ctl->plain != (long)c.nw * c.n || ctl->plain2 != ctl->plain)) { why = name + "a lock made of the object let two owners in"; return false; }
    if (c.scen == X_TURN && (ctl->plain != (long)c.nw * c.n || fv != (unsigned)(c.nw * c.n) % (b.dom / c.nw * c.nw))) { why = name + "turns were lost"; return false; }
    if ((c.scen == X_TIMEOUT && !far_deadline(c) && fv != c.init) || ((c.scen == X_NOTIFY || far_deadline(c)) && fv != (c.init + 1) % b.dom)) { why = name + "the final value is wrong"; return false; }
    return true;
}
Case gen(u64 seed, u64 i, u64 scens) {
    Rng r(seed); Case c; c.obj = (int)(i % cobjs().size()); const CObj& b = *cobjs()[c.obj]; c.seed = r.next(); c.nw = 2 + (int)r.below(3); c.form = (int)r.below(3); static const int ck[] = { K_STEADY, K_SYSTEM, K_CUSTOM, K_POSIX_MONO, K_COARSE }; c.all = (int)r.below(2); c.place = (int)r.below(16); c.order = 0;
    do c.scen = (int)r.below(X_COUNT); while (!(scens >> c.scen & 1) || (c.scen == X_EXCH && b.dom < 100) || (c.scen == X_CAS && b.flag) || (c.scen == X_SUM && (!b.arith || b.flag)));
    if (c.scen == X_TURN && b.dom == 2) c.nw = 2; c.delay = r.chance(1, 4) ? 400 : r.chance(1, 2) ? 5 : 50; c.clk = ck[r.below(4)]; if (c.scen != X_TIMEOUT && r.chance(1, 6)) c.clk = K_COARSE;
    c.n = c.scen == X_TURN ? 1 + (int)r.below(30) : c.scen == X_TIMEOUT ? 1 + (int)r.below(60) : 1 + (int)r.below(40); c.init = (unsigned)r.below(b.dom < 20 ? b.dom : 20); if (c.scen == X_SUM) c.init = 30; return c;
}
std::int64_t cmono() { return mono(); } std::int64_t creal() { return real(); } bool cfails() { return false; }
}
int main(int argc, char** argv) {
    Options o; o.parse(argc, argv); Crash::install(o); Stats st; std::string why; procs_ = o.mode == "procs"; clock_source().mono = cmono; clock_source().real = creal; clock_source().fails = cfails;
    std::sort(cobjs().begin(), cobjs().end(), cobj_less); if (procs_) { std::vector<CObj*> v; for (size_t i = 0; i < cobjs().size(); ++i) if (cobjs()[i]->ipc) v.push_back(cobjs()[i]); cobjs().swap(v); }
    if (cobjs().empty()) { fprintf(stderr, "no objects\n"); return 3; }
    ctl = new (mmap(0, sizeof(Ctl), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0)) Ctl(); ctl->go = 0; ctl->quit = 0; ctl->start = 0;
    fd_ = (int)syscall(SYS_memfd_create, "xp", 0); if (fd_ < 0 || ftruncate(fd_, AREA)) return 3; base_ = (char*)mmap(0, AREA, PROT_READ | PROT_WRITE, MAP_SHARED, fd_, 0); if (base_ == (char*)MAP_FAILED) return 3;
    Case rc; bool rep = !o.replay.empty(); if (rep && !from_text(slurp(o.replay), rc)) { fprintf(stderr, "type or kind of the case is not in this build\n"); return 3; }
    start_workers(); bool ok = true; double t0 = wall();
    if (rep) { while (ok && wall() - t0 < 20) ok = check(rc, why); stop_workers(); printf("%s\n", ok ? "holds" : why.c_str()); fflush(0); _exit(ok ? 0 : EXIT_VIOLATION); }
    for (u64 i = 0; i < o.cases && ok; ++i) {
        if (wall() - t0 > o.budget) { st.budget_hit = true; break; }
        Case c = gen(mix(o.seed, i), i, o.extra ? o.extra : ~0ull); ++st.evaluations; ok = check(c, why); const CObj& b = *cobjs()[c.obj]; st.cls("type:" + b.type); st.cls("kind:" + b.kind); st.cls(std::string("real kernel, ") + (procs_ ? "processes: " : "threads: ") + xnames[c.scen]);
        if (ok && (c.scen != X_TIMEOUT || far_deadline(c) || ctl->out[0].timeouts)) { std::string t = to_text(c); u64 h = 0; for (size_t k = 0; k < t.size(); ++k) h = h * 1099511628211ull + (unsigned char)t[k]; st.distinct.insert(h); if (st.samples.size() < 2 && i % 7 == 3) st.sample(t); }
        if (!ok) { st.failure = why; spit(o.replay_out, to_text(c)); }
    }
    st.write(o.out); stop_workers(); if (!ok) fprintf(stderr, "%s\n", why.c_str()); fflush(0); _exit(ok ? 0 : EXIT_VIOLATION);
}
