#include "eng.hpp"
#include <cxxabi.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <linux/futex.h>
#include <pthread.h>
#include <dlfcn.h>
#include <errno.h>
#include <time.h>
#include <unordered_map>
#include <deque>
#include <climits>
#include <new>
#include <cstdarg>

#ifndef FUTEX_CMD_MASK
#define FUTEX_CMD_MASK ~(FUTEX_PRIVATE_FLAG | FUTEX_CLOCK_REALTIME)
#endif
extern "C" {
void eng_switch(void** save, void* to);
extern char __start_lpd[] __attribute__((weak)); extern char __stop_lpd[] __attribute__((weak));
extern char __start_lpb[] __attribute__((weak)); extern char __stop_lpb[] __attribute__((weak));
extern char __start_lpr[] __attribute__((weak)); extern char __stop_lpr[] __attribute__((weak));
void __real_free(void*); int __real_posix_memalign(void**, size_t, size_t); void* __real_malloc(size_t); void* __real_calloc(size_t, size_t); void* __real_realloc(void*, size_t); void* __real_aligned_alloc(size_t, size_t);
int __real_atexit(void (*)()); void* __real_memcpy(void*, const void*, size_t); void* __real_memset(void*, int, size_t); void* __real_memmove(void*, const void*, size_t); int __real_memcmp(const void*, const void*, size_t);
}
__asm__(
    ".text\n.globl eng_switch\n.type eng_switch,@function\neng_switch:\n"
    "push %rbp\npush %rbx\npush %r12\npush %r13\npush %r14\npush %r15\n"
    "mov %rsp,(%rdi)\nmov %rsi,%rsp\n"
    "pop %r15\npop %r14\npop %r13\npop %r12\npop %rbx\npop %rbp\nret\n.size eng_switch,.-eng_switch\n");

namespace eng {
namespace {
typedef std::uintptr_t up;
struct VC { unsigned c[MAXF]; VC() { memset(c, 0, sizeof c); } void join(const VC& o) { for (int i = 0; i < MAXF; ++i) if (o.c[i] > c[i]) c[i] = o.c[i]; } };
struct Pend { up a; unsigned n; u128 v; VC snap; bool rmw; };
struct EhGlobals { void* caught; unsigned uncaught; }; // what the C++ run time keeps per thread; here each fiber is a thread
EhGlobals& eh_globals() { return *(EhGlobals*)(void*)abi::__cxa_get_globals(); }
enum FState { READY, BLOCKED, DONE };
enum BKind { B_FUTEX, B_SLEEP, B_MUTEX, B_COND };
struct Fiber {
    int id, proc; void* sp; char* stack; FState st; const std::function<void()>* body; VC C, Fr, A; std::deque<Pend> sb;
    BKind bk; up key; bool priv; i64 deadline; bool dl_real; int wake; // wake: 0 woken, else errno
    up mutex; const char* what; bool in_op, nolp; int inside; unsigned nblocks; int err; unsigned prio; int trap; EhGlobals eh;
};
const size_t STK = 128 * 1024, HEAP = 1 << 20;
struct Block { size_t n; bool freed; int by; };
struct Cell { int wt; unsigned wc; int at; unsigned ac; unsigned r[MAXF]; unsigned ar[MAXF]; Cell() : wt(-1), wc(0), at(-1), ac(0) { memset(r, 0, sizeof r); memset(ar, 0, sizeof ar); } };
struct Mut { int owner; VC vc; Mut() : owner(-1) {} };
struct Eng {
    Fiber f[MAXF]; int nf; Fiber* cur; void* main_sp; Cfg cfg; vf::Rng rng; Result res; bool running, fair, abort;
    i64 mono, real_off, mono0, real0, passed;
    std::unordered_map<up, VC> sync; std::unordered_map<up, Cell> shadow; std::unordered_map<up, Mut> mutexes; std::unordered_map<up, int> conds;
    std::map<up, Block> blocks; char* heap; size_t heap_used; size_t live; std::vector<void (*)()> exits;
    std::vector<std::pair<up, size_t> > regions; struct Alias { up p; size_t n; up canon; }; std::vector<Alias> aliases;
    struct Watch { const char* p; size_t n; std::vector<Seen> h; }; std::vector<Watch> watches; std::vector<std::pair<i64, i64> > offs;
    std::vector<unsigned> changes; unsigned lowprio; unsigned spur_left;
    std::vector<char> snap[3]; bool snapped; int ops;
    Eng() : nf(0), cur(0), main_sp(0), rng(1), running(false), fair(false), abort(false), mono0(1000000000000ll), real0(1600000000000000000ll), heap_used(0), live(0), snapped(false), ops(0) {
        memset((void*)&f, 0, 0);
        for (int i = 0; i < MAXF; ++i) { f[i].id = i; f[i].stack = (char*)mmap(0, STK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); }
        heap = (char*)mmap(0, HEAP, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); }
};
Eng& E() { static Eng* e = new Eng; return *e; }
Eng* g = 0;
inline bool on() { return g && g->cur && g->cur->in_op && !g->cur->inside && !g->abort; }
struct In { Fiber* f; In() : f(g ? g->cur : 0) { if (f) ++f->inside; } ~In() { if (f) --f->inside; } }; // the engine itself is not instrumented

up canon(up a) { for (size_t i = 0; i < g->aliases.size(); ++i) if (a - g->aliases[i].p < g->aliases[i].n) return a - g->aliases[i].p + g->aliases[i].canon; return a; }
bool in_lp(up a) { return (a >= (up)__start_lpd && a < (up)__stop_lpd) || (a >= (up)__start_lpb && a < (up)__stop_lpb) || (a >= (up)__start_lpr && a < (up)__stop_lpr); }
bool in_heap(up a) { return a - (up)g->heap < HEAP; }
bool interesting(up a) { for (size_t i = 0; i < g->regions.size(); ++i) if (a - g->regions[i].first < g->regions[i].second) return true; return in_lp(a) || in_heap(a); }

void to_main() { Fiber* f = g->cur; int e = errno; eng_switch(&f->sp, g->main_sp); errno = e; }
void set_err(const std::string& s) { if (g->res.error.empty()) { g->res.error = s; } g->abort = true; if (g->cur) { g->cur->st = DONE; to_main(); } }

void heap_check(up a, size_t n) {
    if (g->cur->nolp && (in_lp(a) || in_heap(a))) { set_err("an inter-process operation uses process-private state of the library, during " + std::string(g->cur->what)); return; }
    if (!in_heap(a)) return;
    std::map<up, Block>::iterator i = g->blocks.upper_bound(a);
    if (i != g->blocks.begin()) { --i; if (a + n <= i->first + i->second.n) { if (i->second.freed) set_err("access to memory of the library after it was freed, during " + std::string(g->cur->what)); return; } }
    set_err("access outside the memory the library allocated, during " + std::string(g->cur->what));
}
// kind: 0 plain read, 1 plain write, 2 atomic read, 3 atomic write
void race_check(up a0, size_t n, int kind) {
    if (!g->cfg.races) return;
    Fiber& f = *g->cur; int t = f.id;
    for (size_t k = 0; k < n; ++k) {
        Cell& c = g->shadow[a0 + k]; const char* bad = 0; int who = -1;
        if (kind == 0 || kind == 1) { // plain: conflicts with unordered plain and atomic writes
            if (c.wt >= 0 && c.wt != t && c.wc > f.C.c[c.wt]) { bad = "a plain write"; who = c.wt; }
            if (c.at >= 0 && c.at != t && c.ac > f.C.c[c.at]) { bad = "an atomic write"; who = c.at; }
        } else if (c.wt >= 0 && c.wt != t && c.wc > f.C.c[c.wt]) { bad = "a plain write"; who = c.wt; }
        if (kind & 1) for (int i = 0; i < g->nf; ++i) if (i != t) { if (c.r[i] > f.C.c[i]) { bad = "a plain read"; who = i; } if (kind == 1 && c.ar[i] > f.C.c[i]) { bad = "an atomic read"; who = i; } }
        if (bad) { char b[256]; snprintf(b, sizeof b, "data race: %s by thread %d (%s) is not ordered after %s of the same byte by thread %d", kind == 0 ? "a plain read" : kind == 1 ? "a plain write" : kind == 2 ? "an atomic read" : "an atomic write", t, f.what, bad, who); set_err(b); return; }
        unsigned now = f.C.c[t] + 1;
        if (kind == 0) c.r[t] = now; else if (kind == 2) c.ar[t] = now; else if (kind == 1) { c.wt = t; c.wc = now; } else { c.at = t; c.ac = now; }
    }
}
// a fiber's own component is its epoch: accesses are stamped C[t]+1 and become visible to others once C[t] was raised and released
void bump(Fiber& f) { f.C.c[f.id]++; }

bool trace_on() { static int t = -1; if (t < 0) t = getenv("ENG_TRACE") ? 1 : 0; return t != 0; }
void trace(const char* w, up a, unsigned n, u128 v) { if (trace_on()) fprintf(stderr, "%5u T%d %-12s %s %lx/%u = %lx\n", g->res.steps, g->cur->id, g->cur->what, w, (unsigned long)a, n, (unsigned long)v); }
u128 mem_load(up a, unsigned n) { u128 v = 0; switch (n) { case 1: return *(volatile unsigned char*)a; case 2: return *(volatile std::uint16_t*)a; case 4: return *(volatile std::uint32_t*)a; case 8: return *(volatile std::uint64_t*)a; default: __real_memcpy(&v, (void*)a, n); return v; } }
void mem_store(up a, unsigned n, u128 v) { switch (n) { case 1: *(volatile unsigned char*)a = (unsigned char)v; break; case 2: *(volatile std::uint16_t*)a = (std::uint16_t)v; break; case 4: *(volatile std::uint32_t*)a = (std::uint32_t)v; break; case 8: *(volatile std::uint64_t*)a = (std::uint64_t)v; break; default: __real_memcpy((void*)a, &v, n); } }

bool overlap(up a, size_t n, up b, size_t m) { return a < b + m && b < a + n; }
void force_pending(up a, size_t n, int except);
void sample();
void commit_front(Fiber& f) { Pend p = f.sb.front(); f.sb.pop_front(); if (!p.rmw) force_pending(p.a, p.n, f.id); mem_store(p.a, p.n, p.v); if (!g->watches.empty()) sample(); VC& s = g->sync[canon(p.a)]; if (p.rmw) s.join(p.snap); else s = p.snap; }
void drain(Fiber& f) { while (!f.sb.empty()) commit_front(f); }
void force_pending(up a, size_t n, int except) { up ca = canon(a); for (int i = 0; i < g->nf; ++i) if (i != except && !g->f[i].sb.empty() && g->f[i].sb.front().rmw && overlap(canon(g->f[i].sb.front().a), g->f[i].sb.front().n, ca, n)) commit_front(g->f[i]); }

void make_ready(Fiber& f, int wake) { if (getenv("ENG_TRACE")) fprintf(stderr, "        -> T%d ready (%d)\n", f.id, wake); f.st = READY; f.wake = wake; f.deadline = -1; }
i64 mono_deadline(const Fiber& f) { return f.dl_real ? f.deadline - g->real_off : f.deadline; }
void expire() { for (int i = 0; i < g->nf; ++i) { Fiber& f = g->f[i]; if (f.st == BLOCKED && f.deadline >= 0 && mono_deadline(f) <= g->mono) { ++g->res.timeouts; make_ready(f, ETIMEDOUT); } } }

void sample() { for (size_t i = 0; i < g->watches.size(); ++i) { Eng::Watch& w = g->watches[i]; if (memcmp(w.h.back().bytes.data(), w.p, w.n) != 0) { Seen x = { g->res.steps, std::string(w.p, w.n) }; w.h.push_back(x); } } }
void point(bool yielding = false) {
    Fiber& f = *g->cur; vf::Rng& r = g->rng; Cfg& c = g->cfg;
    unsigned s = ++g->res.steps; if (!g->watches.empty()) sample();
    if ((s & 127) == 0) g->res.tlog.push_back(std::make_pair(s, g->mono));
    if (s > c.max_steps) { g->fair = true; if (s > 3 * c.max_steps) { g->abort = true; g->res.status = S_LIVELOCK; to_main(); } }
    if (c.tso) { if (r.below(3) == 0 || g->fair) { int k = (int)r.below(g->nf); if (!g->f[k].sb.empty()) commit_front(g->f[k]); } }
    if (c.tick && r.below(c.tick) == 0) { g->mono += (i64)r.below((u64)c.tickmax) + 1; expire(); }
    if (c.jumps && r.below(200) == 0) { g->real_off += (i64)r.below(4000000000ull) - 2000000000ll; g->offs.push_back(std::make_pair(g->mono, g->real_off)); expire(); }
    if (g->spur_left && r.below(24) == 0) { int k = (int)r.below(g->nf); Fiber& b = g->f[k]; if (b.st == BLOCKED && (b.bk == B_FUTEX || b.bk == B_COND)) { --g->spur_left; ++g->res.spurious; make_ready(b, b.bk == B_FUTEX && r.below(2) ? EINTR : 0); } }
    bool sw;
    if (g->fair) sw = true;
    else if (c.strat == 0) sw = yielding || r.below(64) < c.sw;
    else { for (size_t i = 0; i < g->changes.size(); ++i) if (g->changes[i] == s) f.prio = g->lowprio--; if (yielding) f.prio = g->lowprio--; sw = true; }
    if (sw) to_main();
}
Fiber* pick() {
    int ready[MAXF], n = 0; for (int i = 0; i < g->nf; ++i) if (g->f[i].st == READY) ready[n++] = i;
    if (!n) return 0;
    if (g->fair) { static int last = 0; for (int k = 1; k <= g->nf; ++k) { int i = (last + k) % g->nf; if (g->f[i].st == READY) { last = i; return &g->f[i]; } } }
    if (g->cfg.strat == 0) return &g->f[ready[g->rng.below(n)]];
    Fiber* b = 0; for (int k = 0; k < n; ++k) if (!b || g->f[ready[k]].prio > b->prio) b = &g->f[ready[k]]; return b;
}
void entry() { Fiber* f = g->cur; (*f->body)(); f->in_op = false; drain(*f); f->st = DONE; to_main(); __builtin_trap(); }

int block(BKind k, up key, bool priv, i64 deadline, bool dl_real, up mutex = 0) {
    Fiber& f = *g->cur; ++g->res.blocks; ++f.nblocks;
    f.st = BLOCKED; f.bk = k; f.key = key; f.priv = priv; f.deadline = deadline; f.dl_real = dl_real; f.mutex = mutex; f.wake = 0;
    if (g->spur_left && (k == B_FUTEX || k == B_COND) && g->rng.below(6) == 0) { --g->spur_left; ++g->res.spurious; make_ready(f, k == B_FUTEX && g->rng.below(2) ? EINTR : 0); }
    if (f.st == BLOCKED && deadline >= 0 && mono_deadline(f) <= g->mono) make_ready(f, ETIMEDOUT);
    to_main(); return f.wake;
}
void wake_key_filter(std::vector<int>& v, BKind k, up key, bool priv, int proc) { for (int i = 0; i < g->nf; ++i) { Fiber& f = g->f[i]; if (f.st == BLOCKED && f.bk == k && f.key == key && f.priv == priv && (!priv || f.proc == proc)) v.push_back(i); } for (size_t i = v.size(); i > 1; --i) std::swap(v[i - 1], v[g->rng.below(i)]); }
up fkey(up a, bool priv) { return priv ? a : canon(a); }
} // namespace

Cfg Cfg::random(u64 seed) { Cfg c; vf::Rng r(vf::mix(seed, 77)); c.seed = seed; c.strat = r.below(3) == 0; static const unsigned sws[] = { 64, 32, 16, 8, 4, 2 }; c.sw = sws[r.below(6)]; c.depth = 1 + (int)r.below(4); c.len = 40u << r.below(5); return c; }

void restore_library() { Eng& e = E();
    char* st[3] = { __start_lpd, __start_lpb, __start_lpr }; char* en[3] = { __stop_lpd, __stop_lpb, __stop_lpr };
    for (int k = 0; k < 3; ++k) if (st[k] && en[k] > st[k]) { if (!e.snapped) e.snap[k].assign(st[k], en[k]); else if (memcmp(st[k], e.snap[k].data(), e.snap[k].size()) != 0) __real_memcpy(st[k], e.snap[k].data(), e.snap[k].size()); }
    e.snapped = true; }
Result run(const std::vector<std::function<void()> >& bodies, const Cfg& cfg, const std::vector<int>* proc) {
    Eng& e = E(); g = &e; e.cfg = cfg; e.rng = vf::Rng(vf::mix(cfg.seed, 1234567)); e.res = Result(); e.res.status = S_DONE; e.nf = (int)bodies.size(); e.cur = 0; e.fair = e.abort = false;
    restore_library();
    e.sync.clear(); e.shadow.clear(); e.mutexes.clear(); e.conds.clear(); e.blocks.clear(); __real_memset(e.heap, 0xdb, e.heap_used); e.heap_used = 0; e.live = 0; e.exits.clear();
    e.mono = e.mono0; e.passed = 0; e.real_off = e.real0 - e.mono0; e.spur_left = cfg.spurious; e.lowprio = 1000;
    e.offs.clear(); e.offs.push_back(std::make_pair(e.mono, e.real_off));
    e.changes.clear(); for (int i = 0; i < cfg.depth; ++i) e.changes.push_back(1 + (unsigned)e.rng.below(cfg.len));
    for (int i = 0; i < e.nf; ++i) { Fiber& f = e.f[i]; f.proc = proc ? (*proc)[i] : 0; f.st = READY; f.body = &bodies[i]; f.C = f.Fr = f.A = VC(); f.sb.clear(); f.deadline = -1; f.what = "start"; f.in_op = f.nolp = false; f.inside = 0; f.nblocks = 0; f.err = 0; f.eh = EhGlobals(); f.prio = 2000 + (unsigned)e.rng.below(1000) * 8 + i;
        void** sp = (void**)(f.stack + STK - 64); *--sp = 0; *--sp = (void*)&entry; for (int k = 0; k < 6; ++k) *--sp = 0; f.sp = sp; }
    e.running = true; Fiber* last = 0;
    for (;;) {
        Fiber* f = pick();
        if (!f) { i64 best = -1; for (int i = 0; i < e.nf; ++i) if (e.f[i].st == BLOCKED && e.f[i].deadline >= 0 && (best < 0 || mono_deadline(e.f[i]) < best)) best = mono_deadline(e.f[i]);
            if (best < 0) break;
            if (best > e.mono) e.mono = best; if (cfg.tick) e.mono += (i64)e.rng.below(50000);
            if (++e.res.steps > 3 * cfg.max_steps) { e.res.status = S_LIVELOCK; break; }
            expire(); continue; }
        if (f != last) ++e.res.switches; last = f;
        EhGlobals eh = eh_globals(); e.cur = f; errno = f->err; eh_globals() = f->eh; eng_switch(&e.main_sp, f->sp); f->err = errno; e.cur = 0; f->eh = eh_globals(); eh_globals() = eh;
        if (e.abort) break;
    }
    if (!e.abort && e.res.status == S_DONE) for (int i = 0; i < e.nf; ++i) if (e.f[i].st != DONE) e.res.status = S_QUIESCENT;
    for (int i = 0; i < e.nf; ++i) e.res.waiting.push_back(e.f[i].st == BLOCKED);
    for (int i = 0; i < e.nf; ++i) if (e.f[i].st != DONE) { e.res.blocked.push_back(i); e.res.where.push_back(e.f[i].what); }
    for (int i = 0; i < e.nf; ++i) if (!e.abort) drain(e.f[i]);
    e.res.end_time = e.mono; e.res.passed = e.passed; e.res.live_allocs = e.live; e.running = false;
    // process exit: the library releases what it holds
    if (e.res.status == S_DONE && e.res.error.empty()) { Fiber fake = Fiber(); (void)fake; e.nf = 1; e.cfg.races = false; e.cfg.tso = false; e.cfg.tick = 0; e.cfg.spurious = 0; e.spur_left = 0; e.cfg.failmask = 0; e.cfg.failall = false;
        std::vector<void (*)()> ex = e.exits; std::function<void()> body = [ex]() { op_begin("process exit"); for (size_t i = ex.size(); i-- > 0;) ex[i](); op_end(); };
        Fiber& f = e.f[0]; f.proc = 0; f.st = READY; f.body = &body; f.sb.clear(); f.deadline = -1; f.in_op = f.nolp = false; f.inside = 0; f.nblocks = 0; void** sp = (void**)(f.stack + STK - 64); *--sp = 0; *--sp = (void*)&entry; for (int k = 0; k < 6; ++k) *--sp = 0; f.sp = sp;
        unsigned s0 = e.res.steps; e.res.steps = 0;
        while (f.st == READY && !e.abort) { e.cur = &f; eng_switch(&e.main_sp, f.sp); e.cur = 0; }
        e.res.steps = s0; if (f.st != DONE && e.res.error.empty()) e.res.error = "the library blocks at process exit";
        if (e.abort && e.res.status == S_LIVELOCK) { e.res.status = S_DONE; e.res.error = "the library does not finish at process exit"; }
    }
    e.res.live_at_end = e.live; g = &e; e.cur = 0;
    return e.res;
}
void op_begin(const char* w) { In in; g->cur->what = w; g->cur->in_op = true; point(); }
void op_end() { if (g->abort) return; In in; g->cur->in_op = true; point(); g->cur->in_op = false; }
void quiet(bool v) { g->cur->inside += v ? 1 : -1; }
unsigned step() { return g->res.steps; }
i64 now() { return g->mono; }
i64 now_real() { return g->mono + g->real_off; }
void set_start_time(i64 m, i64 r) { Eng& e = E(); e.mono0 = m; e.real0 = r; }
i64 advanced() { return g->passed; }
void advance(i64 ns) { g->mono += ns; g->passed += ns; expire(); }
void yield_point() { In in; bool s = g->cur->in_op; g->cur->in_op = true; point(true); g->cur->in_op = s; }
void block_until_steps() { In in; block(B_SLEEP, 0, true, g->mono + 1000, false); }
void plain_write(void* p, size_t n) { In in; bool s = g->cur->in_op; g->cur->in_op = true; point(); race_check(canon((up)p), n, 1); g->cur->in_op = s; }
void plain_read(const void* p, size_t n) { In in; bool s = g->cur->in_op; g->cur->in_op = true; point(); race_check(canon((up)p), n, 0); g->cur->in_op = s; }
void add_region(void* p, size_t n) { Eng& e = E(); g = &e; e.regions.push_back(std::make_pair((up)p, n)); }
void add_alias(void* p, size_t n, void* c) { Eng& e = E(); g = &e; Eng::Alias a = { (up)p, n, (up)c }; e.aliases.push_back(a); }
void clear_regions() { Eng& e = E(); g = &e; restore_library(); e.regions.clear(); e.aliases.clear(); e.watches.clear(); }
int add_watch(const void* p, size_t n) { Eng& e = E(); g = &e; Eng::Watch w; w.p = (const char*)p; w.n = n; Seen x = { 0, std::string(w.p, n) }; w.h.push_back(x); e.watches.push_back(w); return (int)e.watches.size() - 1; }
const std::vector<Seen>& history(int w) { return g->watches[w].h; }
i64 max_real_since(i64 t) { i64 m = g->mono + g->real_off; for (size_t i = 0; i < g->offs.size(); ++i) { i64 end = i + 1 < g->offs.size() ? g->offs[i + 1].first : g->mono; if (end >= t && end + g->offs[i].second > m) m = end + g->offs[i].second; } return m; }
unsigned blocks_of(int i) { return g->f[i].nblocks; }
bool is_blocked(int i) { return g->f[i].st == BLOCKED; }
void forbid_library_state(bool v) { g->cur->nolp = v; }
void fail(const std::string& why) { In in; set_err(why); }
int self() { return g->cur->id; }
bool in_fiber() { return g && g->cur; }
} // namespace eng

using namespace eng;
// ------------------------------------------------------------------------------------------------ instrumentation
static inline void plain(void* p, size_t n, int kind) {
    if (!on()) return; up a = (up)p; if (!interesting(a)) return; In in;
    heap_check(a, n); point(); trace(kind & 1 ? "write" : "read", a, (unsigned)n, n <= 8 ? mem_load(a, n > 4 ? 8 : n > 2 ? 4 : n) : 0);
    Fiber& f = *g->cur; if (!f.sb.empty()) for (size_t i = 0; i < f.sb.size(); ++i) if (overlap(canon(f.sb[i].a), f.sb[i].n, canon(a), n)) { drain(f); break; }
    if ((kind & 1) && g->cfg.tso) force_pending(a, n, f.id);
    race_check(canon(a), n, kind);
    if (kind == 2) { std::unordered_map<up, VC>::iterator i = g->sync.find(canon(a)); if (i != g->sync.end()) f.A.join(i->second); } // volatile accesses are the relaxed operations of old compilers
    else if (kind == 3) { drain(f); g->sync[canon(a)] = f.Fr; }
}
extern "C" {
void __tsan_init() {} void __tsan_func_entry(void*) {} void __tsan_func_exit() {}
void __tsan_vptr_update(void**, void*) {} void __tsan_vptr_read(void**) {}
#define PL(n) void __tsan_read##n(void* p) { plain(p, n, 0); } void __tsan_write##n(void* p) { plain(p, n, 1); } void __tsan_unaligned_read##n(void* p) { plain(p, n, 0); } void __tsan_unaligned_write##n(void* p) { plain(p, n, 1); } \
    void __tsan_volatile_read##n(void* p) { plain(p, n, 2); } void __tsan_volatile_write##n(void* p) { plain(p, n, 3); } void __tsan_unaligned_volatile_read##n(void* p) { plain(p, n, 2); } void __tsan_unaligned_volatile_write##n(void* p) { plain(p, n, 3); } void __tsan_read_write##n(void* p) { plain(p, n, 0); plain(p, n, 1); } void __tsan_unaligned_read_write##n(void* p) { plain(p, n, 0); plain(p, n, 1); }
PL(1) PL(2) PL(4) PL(8) PL(16)
void __tsan_read_range(void* p, size_t n) { plain(p, n, 0); } void __tsan_write_range(void* p, size_t n) { plain(p, n, 1); }
void __tsan_acquire(void* p) { if (on()) { In in; g->cur->C.join(g->sync[canon((up)p)]); } }
void __tsan_release(void* p) { if (on()) { In in; bump(*g->cur); g->sync[canon((up)p)].join(g->cur->C); } }
void __tsan_atomic_signal_fence(int) {}
void __tsan_atomic_thread_fence(int mo) {
    if (!on()) { __atomic_thread_fence(__ATOMIC_SEQ_CST); return; }
    In in; point(); Fiber& f = *g->cur; if (mo == 5) drain(f);
    if (mo != 0 && mo != 3) f.C.join(f.A);
    if (mo >= 3) { bump(f); f.Fr = f.C; }
}
}
static inline bool is_acq(int mo) { return mo == 1 || mo == 2 || mo == 4 || mo == 5; }
static inline bool is_rel(int mo) { return mo >= 3; }
static VC rel_snap(Fiber& f, int mo) { if (is_rel(mo)) { bump(f); return f.C; } return f.Fr; }
static void acq(Fiber& f, up a, int mo) { std::unordered_map<up, VC>::iterator i = g->sync.find(canon(a)); if (i == g->sync.end()) return; f.A.join(i->second); if (is_acq(mo)) f.C.join(i->second); }
static u128 at_load(up a, unsigned n, int mo) { In in;
    point(); heap_check(a, n); Fiber& f = *g->cur;
    if (g->cfg.tso && !f.sb.empty()) {
        if (mo == 5 && g->cfg.scheme == 1) drain(f);
        for (size_t i = f.sb.size(); i-- > 0;) if (overlap(canon(f.sb[i].a), f.sb[i].n, canon(a), n)) { if (canon(f.sb[i].a) == canon(a) && f.sb[i].n == n) { ++g->res.forwarded; race_check(canon(a), n, 2); f.A.join(f.sb[i].snap); return f.sb[i].v; } drain(f); break; }
    }
    race_check(canon(a), n, 2); u128 v = mem_load(a, n); trace("load", a, n, v); acq(f, a, mo); return v;
}
static void at_store(up a, unsigned n, u128 v, int mo) { In in;
    point(); trace("store", a, n, v); heap_check(a, n); Fiber& f = *g->cur; race_check(canon(a), n, 3); Pend p; p.a = a; p.n = n; p.v = v; p.snap = rel_snap(f, mo); p.rmw = false;
    f.sb.push_back(p); if (!g->cfg.tso || (mo == 5 && g->cfg.scheme == 0)) drain(f);
}
static u128 rmw_begin(up a, unsigned n) { In in; point(); heap_check(a, n); Fiber& f = *g->cur; drain(f); force_pending(a, n, f.id); return mem_load(a, n); }
static void rmw_end(up a, unsigned n, u128 v, int mo) { In in; trace("rmw", a, n, v);
    Fiber& f = *g->cur; race_check(canon(a), n, 3); acq(f, a, mo); Pend p; p.a = a; p.n = n; p.v = v; p.snap = rel_snap(f, mo); p.rmw = true;
    f.sb.push_back(p); if (!g->cfg.tso || (mo == 5 && g->cfg.scheme == 0)) drain(f);
}
static bool at_cas(up a, unsigned n, u128* e, u128 d, int smo, int fmo, bool weak) { In in;
    u128 v = rmw_begin(a, n);
    if (v == *e && !(weak && g->rng.below(16) == 0)) { rmw_end(a, n, d, smo); return true; }
    race_check(canon(a), n, 2); acq(*g->cur, a, fmo); *e = v; return false;
}
#define AT(N, T) extern "C" { \
T __tsan_atomic##N##_load(const volatile T* p, int mo) { if (!on()) return *p; return (T)at_load((up)p, sizeof(T), mo); } \
void __tsan_atomic##N##_store(volatile T* p, T v, int mo) { if (!on()) { *p = v; return; } at_store((up)p, sizeof(T), v, mo); } \
T __tsan_atomic##N##_exchange(volatile T* p, T v, int mo) { if (!on()) { T o = *p; *p = v; return o; } T o = (T)rmw_begin((up)p, sizeof(T)); rmw_end((up)p, sizeof(T), v, mo); return o; } \
T __tsan_atomic##N##_fetch_add(volatile T* p, T v, int mo) { if (!on()) { T o = *p; *p = (T)(o + v); return o; } T o = (T)rmw_begin((up)p, sizeof(T)); rmw_end((up)p, sizeof(T), (T)(o + v), mo); return o; } \
T __tsan_atomic##N##_fetch_sub(volatile T* p, T v, int mo) { if (!on()) { T o = *p; *p = (T)(o - v); return o; } T o = (T)rmw_begin((up)p, sizeof(T)); rmw_end((up)p, sizeof(T), (T)(o - v), mo); return o; } \
T __tsan_atomic##N##_fetch_and(volatile T* p, T v, int mo) { if (!on()) { T o = *p; *p = (T)(o & v); return o; } T o = (T)rmw_begin((up)p, sizeof(T)); rmw_end((up)p, sizeof(T), (T)(o & v), mo); return o; } \
T __tsan_atomic##N##_fetch_or(volatile T* p, T v, int mo) { if (!on()) { T o = *p; *p = (T)(o | v); return o; } T o = (T)rmw_begin((up)p, sizeof(T)); rmw_end((up)p, sizeof(T), (T)(o | v), mo); return o; } \
T __tsan_atomic##N##_fetch_xor(volatile T* p, T v, int mo) { if (!on()) { T o = *p; *p = (T)(o ^ v); return o; } T o = (T)rmw_begin((up)p, sizeof(T)); rmw_end((up)p, sizeof(T), (T)(o ^ v), mo); return o; } \
T __tsan_atomic##N##_fetch_nand(volatile T* p, T v, int mo) { if (!on()) { T o = *p; *p = (T)~(o & v); return o; } T o = (T)rmw_begin((up)p, sizeof(T)); rmw_end((up)p, sizeof(T), (T)~(o & v), mo); return o; } \
int __tsan_atomic##N##_compare_exchange_strong(volatile T* p, T* c, T v, int mo, int fmo) { if (!on()) { if (*p == *c) { *p = v; return 1; } *c = *p; return 0; } u128 e = *c; bool r = at_cas((up)p, sizeof(T), &e, v, mo, fmo, false); *c = (T)e; return r; } \
int __tsan_atomic##N##_compare_exchange_weak(volatile T* p, T* c, T v, int mo, int fmo) { if (!on()) { if (*p == *c) { *p = v; return 1; } *c = *p; return 0; } u128 e = *c; bool r = at_cas((up)p, sizeof(T), &e, v, mo, fmo, true); *c = (T)e; return r; } \
T __tsan_atomic##N##_compare_exchange_val(volatile T* p, T c, T v, int mo, int fmo) { if (!on()) { T o = *p; if (o == c) *p = v; return o; } u128 e = c; at_cas((up)p, sizeof(T), &e, v, mo, fmo, false); return (T)e; } }
AT(8, std::uint8_t) AT(16, std::uint16_t) AT(32, std::uint32_t) AT(64, std::uint64_t) AT(128, u128)

// ------------------------------------------------------------------------------------------------ memory functions of the code under test
extern "C" {
void* __wrap_memcpy(void* d, const void* s, size_t n) { if (on() && n) { plain((void*)s, n, 0); plain(d, n, 1); } return __real_memcpy(d, s, n); }
void* __wrap_memmove(void* d, const void* s, size_t n) { if (on() && n) { plain((void*)s, n, 0); plain(d, n, 1); } return __real_memmove(d, s, n); }
void* __wrap_memset(void* d, int c, size_t n) { if (on() && n) plain(d, n, 1); return __real_memset(d, c, n); }
int __wrap_memcmp(const void* a, const void* b, size_t n) { if (on() && n) { plain((void*)a, n, 0); plain((void*)b, n, 0); } return __real_memcmp(a, b, n); }
static void* lp_alloc(size_t n, size_t al) { In in;
    unsigned k = g->res.allocs++; if (g->cfg.failall || (k < 64 && (g->cfg.failmask >> k & 1))) { ++g->res.failed_allocs; errno = ENOMEM; return 0; }
    size_t o = (g->heap_used + 32 + al - 1) / al * al; if (o + n + 32 > HEAP) { set_err("library allocated more than 1 MiB"); return 0; }
    g->heap_used = o + n; up a = (up)g->heap + o; __real_memset((void*)a, 0xcd, n); Block b = { n, false, g->cur->id }; g->blocks[a] = b; ++g->live; if (g->live > g->res.peak_allocs) g->res.peak_allocs = g->live; return (void*)a; }
static void lp_free(void* p) { In in; if (!p) return; std::map<up, Block>::iterator i = g->blocks.find((up)p); if (i == g->blocks.end() || i->second.freed) { set_err("the library freed something it had not allocated, or freed it twice"); return; }
    if (g->cfg.races && g->running) race_check((up)p, i->second.n, 1); i->second.freed = true; __real_memset(p, 0xdd, i->second.n); --g->live; }
void* __wrap_malloc(size_t n) { return on() ? lp_alloc(n, 16) : __real_malloc(n); }
void* __wrap_calloc(size_t a, size_t b) { if (!on()) return __real_calloc(a, b); void* p = lp_alloc(a * b, 16); if (p) __real_memset(p, 0, a * b); return p; }
void* __wrap_realloc(void* p, size_t n) { if (!on()) return __real_realloc(p, n); void* q = lp_alloc(n, 16); if (q && p) { size_t m = g->blocks[(up)p].n; __real_memcpy(q, p, m < n ? m : n); lp_free(p); } return q; }
void* __wrap_aligned_alloc(size_t al, size_t n) { return on() ? lp_alloc(n, al) : __real_aligned_alloc(al, n); }
int __wrap_posix_memalign(void** r, size_t al, size_t n) { if (!on()) return __real_posix_memalign(r, al, n); void* p = lp_alloc(n, al); if (!p) return ENOMEM; *r = p; return 0; }
void __wrap_free(void* p) { if (g && in_heap((up)p)) { if (on()) lp_free(p); return; } __real_free(p); }
int __wrap_atexit(void (*fn)()) { if (on()) { In in; g->exits.push_back(fn); return 0; } return __real_atexit(fn); }
}
void* operator new(size_t n, std::nothrow_t const&) noexcept { return on() ? lp_alloc(n, 16) : __real_malloc(n ? n : 1); }
void* operator new(size_t n) { if (on()) { void* p = lp_alloc(n, 16); if (!p) throw std::bad_alloc(); return p; } void* p = __real_malloc(n ? n : 1); if (!p) throw std::bad_alloc(); return p; }
void* operator new[](size_t n, std::nothrow_t const&) noexcept { return on() ? lp_alloc(n, 16) : __real_malloc(n ? n : 1); }
void* operator new[](size_t n) { return operator new(n); }
void operator delete(void* p) noexcept { __wrap_free(p); }
void operator delete(void* p, size_t) noexcept { __wrap_free(p); }
void operator delete(void* p, std::nothrow_t const&) noexcept { __wrap_free(p); }
void operator delete[](void* p) noexcept { __wrap_free(p); }
void operator delete[](void* p, size_t) noexcept { __wrap_free(p); }

// ------------------------------------------------------------------------------------------------ kernel and clocks
static bool ts_ok(const timespec* t) { return t->tv_sec >= 0 && t->tv_nsec >= 0 && t->tv_nsec < 1000000000; }
static const i64 NEVER = -2; // deadlines beyond this are never reached
static i64 ts_ns(const timespec* t) { if (t->tv_sec > 6000000000ll) return NEVER; return t->tv_sec * 1000000000ll + t->tv_nsec; }
static long model_futex(up a, int op, unsigned v1, const timespec* ts, up a2, unsigned v3, up val2) { In in;
    Fiber& f = *g->cur; drain(f); point(); trace("futex", a, (unsigned)op, v1); // a system call is a full barrier for its caller
    int cmd = op & FUTEX_CMD_MASK; bool priv = (op & FUTEX_PRIVATE_FLAG) != 0; up key = fkey(a, priv);
    if (a & 3) { errno = EINVAL; return -1; }
    switch (cmd) {
    case FUTEX_WAIT: case FUTEX_WAIT_BITSET: {
        i64 dl = -1; bool real = (op & FUTEX_CLOCK_REALTIME) != 0;
        if (ts) { if (!ts_ok(ts)) { errno = EINVAL; return -1; } dl = ts_ns(ts); if (cmd == FUTEX_WAIT && dl != NEVER) dl += real ? now_real() : g->mono; }
        if (cmd == FUTEX_WAIT_BITSET && v3 == 0) { errno = EINVAL; return -1; }
        force_pending(a, 4, f.id);
        if (*(volatile unsigned*)a != v1) { errno = EAGAIN; return -1; }
        int w = block(B_FUTEX, key, priv, dl, real);
        if (w) { errno = w; return -1; } return 0; }
    case FUTEX_WAKE: case FUTEX_WAKE_BITSET: {
        std::vector<int> v; wake_key_filter(v, B_FUTEX, key, priv, f.proc); unsigned n = 0; for (size_t i = 0; i < v.size() && n < v1; ++i, ++n) make_ready(g->f[v[i]], 0); g->res.wakes += n; return n; }
    case FUTEX_CMP_REQUEUE: if (*(volatile unsigned*)a != v3) { errno = EAGAIN; return -1; } // fallthrough
    case FUTEX_REQUEUE: {
        std::vector<int> v; wake_key_filter(v, B_FUTEX, key, priv, f.proc); unsigned n = 0, m = 0, lim = (unsigned)val2; size_t i = 0;
        if ((int)v1 < 0 || (int)lim < 0) { errno = EINVAL; return -1; }
        for (; i < v.size() && n < v1; ++i, ++n) make_ready(g->f[v[i]], 0);
        for (; i < v.size() && m < lim; ++i, ++m) g->f[v[i]].key = fkey(a2, priv);
        g->res.wakes += n; g->res.requeues += m; return n + (cmd == FUTEX_CMP_REQUEUE ? m : 0); }
    }
    errno = ENOSYS; return -1;
}
extern "C" {
typedef long (*syscall_fn)(long, ...);
long syscall(long n, ...) noexcept {
    va_list ap; va_start(ap, n); long a[6]; for (int i = 0; i < 6; ++i) a[i] = va_arg(ap, long); va_end(ap);
    if (on() && n == SYS_futex) return model_futex((up)a[0], (int)a[1], (unsigned)a[2], (const timespec*)a[3], (up)a[4], (unsigned)a[5], (up)a[3]);
    static syscall_fn real = (syscall_fn)dlsym(RTLD_NEXT, "syscall"); return real(n, a[0], a[1], a[2], a[3], a[4], a[5]);
}
static int real_clock(clockid_t c, timespec* t) { return (int)((syscall_fn)dlsym(RTLD_NEXT, "syscall"))(SYS_clock_gettime, (long)c, t); }
int clock_gettime(clockid_t c, timespec* t) noexcept {
    if (!on()) return real_clock(c, t);
    In in;
    point(); i64 v;
    switch (c) { case CLOCK_MONOTONIC: case CLOCK_MONOTONIC_RAW: case CLOCK_MONOTONIC_COARSE: case CLOCK_BOOTTIME: v = g->mono; break; case CLOCK_REALTIME: case CLOCK_REALTIME_COARSE: v = now_real(); break;
    case CLOCK_TAI: v = now_real() + 37000000000ll; break; default: errno = EINVAL; return -1; }
    t->tv_sec = v / 1000000000; t->tv_nsec = v % 1000000000; if (t->tv_nsec < 0) { t->tv_nsec += 1000000000; --t->tv_sec; }
    g->mono += (i64)g->rng.below(40); expire(); return 0;
}
static int vsleep(i64 ns) { In in; drain(*g->cur); block(B_SLEEP, 0, true, g->mono + (ns < 0 ? 0 : ns), false); return 0; }
int nanosleep(const timespec* t, timespec* r) { if (on()) { if (!ts_ok(t)) { errno = EINVAL; return -1; } i64 n = ts_ns(t); return vsleep(n == NEVER ? 4000000000000000000ll : n); } return (int)((syscall_fn)dlsym(RTLD_NEXT, "syscall"))(SYS_nanosleep, t, r); }
int clock_nanosleep(clockid_t c, int fl, const timespec* t, timespec* r) { if (on()) { i64 n = ts_ns(t); if (n == NEVER) n = 4000000000000000000ll; else if (fl & TIMER_ABSTIME) n -= c == CLOCK_REALTIME ? now_real() : g->mono; return vsleep(n); } return (int)((syscall_fn)dlsym(RTLD_NEXT, "syscall"))(SYS_clock_nanosleep, (long)c, (long)fl, t, r) ? errno : 0; }
int usleep(useconds_t u) { if (on()) return vsleep((i64)u * 1000); timespec t = { (time_t)(u / 1000000), (long)(u % 1000000) * 1000 }; return nanosleep(&t, 0); }
int sched_yield() noexcept { if (on()) { In in; drain(*g->cur); point(true); return 0; } return (int)((syscall_fn)dlsym(RTLD_NEXT, "syscall"))(SYS_sched_yield); }

// ---- initialization of function-local statics, which another fiber may reach while it is in progress
int __cxa_guard_acquire(long long* gp) { char* p = (char*)gp;
    if (!on()) { if (*p) return 0; p[1] = 1; return 1; }
    In in; point(); while (p[1] && !*p) point(true); if (*p) { g->cur->C.join(g->sync[(up)p]); return 0; } p[1] = 1; return 1; }
void __cxa_guard_release(long long* gp) { char* p = (char*)gp; *p = 1; p[1] = 0; if (on()) { In in; bump(*g->cur); g->sync[(up)p].join(g->cur->C); point(); } }
void __cxa_guard_abort(long long* gp) { char* p = (char*)gp; p[1] = 0; }

// ---- pthread mutex and condition variable
#define REAL(name) static auto real = (decltype(&name))dlsym(RTLD_NEXT, #name)
static void model_lock(up m) { for (;;) { Mut& x = g->mutexes[m]; if (x.owner < 0) { x.owner = g->cur->id; g->cur->C.join(x.vc); return; } if (x.owner == g->cur->id) set_err("a mutex is locked twice by one thread"); block(B_MUTEX, m, true, -1, false); } }
static void model_unlock(up m) { Mut& x = g->mutexes[m]; if (x.owner != g->cur->id) { set_err("a mutex is unlocked by a thread that does not hold it"); return; } bump(*g->cur); x.vc = g->cur->C; x.owner = -1; std::vector<int> v; wake_key_filter(v, B_MUTEX, m, true, g->cur->proc); for (size_t i = 0; i < v.size(); ++i) make_ready(g->f[v[i]], 0); }
int pthread_mutex_lock(pthread_mutex_t* m) noexcept { if (on()) { In in; drain(*g->cur); point(); model_lock((up)m); return 0; } REAL(pthread_mutex_lock); return real(m); }
int pthread_mutex_trylock(pthread_mutex_t* m) noexcept { if (on()) { In in; drain(*g->cur); point(); Mut& x = g->mutexes[(up)m]; if (x.owner >= 0) return EBUSY; x.owner = g->cur->id; g->cur->C.join(x.vc); return 0; } REAL(pthread_mutex_trylock); return real(m); }
int pthread_mutex_unlock(pthread_mutex_t* m) noexcept { if (on()) { In in; drain(*g->cur); point(); model_unlock((up)m); return 0; } REAL(pthread_mutex_unlock); return real(m); }
int pthread_cond_init(pthread_cond_t* c, const pthread_condattr_t* a) noexcept { if (on()) { In in; clockid_t k = CLOCK_REALTIME; if (a) pthread_condattr_getclock(a, &k); g->conds[(up)c] = (int)k; return 0; } REAL(pthread_cond_init); return real(c, a); }
int pthread_cond_destroy(pthread_cond_t* c) noexcept { if (on()) { In in; std::vector<int> v; wake_key_filter(v, B_COND, (up)c, true, g->cur->proc); if (!v.empty()) set_err("a condition variable is destroyed while threads wait on it"); g->conds.erase((up)c); return 0; } REAL(pthread_cond_destroy); return real(c); }
static int model_cwait(pthread_cond_t* c, pthread_mutex_t* m, const timespec* t, int clk) { In in;
    drain(*g->cur); point(); if (!g->conds.count((up)c)) { set_err("wait on a condition variable that does not exist"); return EINVAL; }
    if (t && (t->tv_nsec < 0 || t->tv_nsec >= 1000000000)) return EINVAL;
    model_unlock((up)m); i64 dl = t ? (t->tv_sec < 0 ? 0 : ts_ns(t)) : -1; int w = block(B_COND, (up)c, true, dl, clk == CLOCK_REALTIME); model_lock((up)m); return w == ETIMEDOUT ? ETIMEDOUT : 0; }
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) { if (on()) return model_cwait(c, m, 0, 0); REAL(pthread_cond_wait); return real(c, m); }
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const timespec* t) { if (on()) return model_cwait(c, m, t, g->conds.count((up)c) ? g->conds[(up)c] : 0); REAL(pthread_cond_timedwait); return real(c, m, t); }
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t k, const timespec* t) { if (on()) return model_cwait(c, m, t, (int)k); REAL(pthread_cond_clockwait); return real(c, m, k, t); }
static int model_signal(up c, unsigned n) { In in; drain(*g->cur); point(); if (!g->conds.count(c)) { set_err("signal of a condition variable that does not exist"); return EINVAL; } std::vector<int> v; wake_key_filter(v, B_COND, c, true, g->cur->proc); for (size_t i = 0; i < v.size() && i < n; ++i) { make_ready(g->f[v[i]], 0); ++g->res.wakes; } return 0; }
int pthread_cond_signal(pthread_cond_t* c) noexcept { if (on()) return model_signal((up)c, 1); REAL(pthread_cond_signal); return real(c); }
int pthread_cond_broadcast(pthread_cond_t* c) noexcept { if (on()) return model_signal((up)c, MAXF); REAL(pthread_cond_broadcast); return real(c); }
}
