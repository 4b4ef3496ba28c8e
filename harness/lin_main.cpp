// Generated programs of operations of several threads on one object; every run's results must be those of some
// one-at-a-time execution. Runs under the engine, or with VF_NATIVE on real threads.
#include "conc.hpp"
#if !defined(VF_NATIVE)
#include "eng.hpp"
#else
#include <pthread.h>
#include <sched.h>
#include <atomic>
#endif
#include <sys/mman.h>
using namespace vf;
namespace {
struct Prog { int c; CProg p; unsigned place; 
#if !defined(VF_NATIVE)
    eng::Cfg cfg;
#endif
};
const size_t AR = 8192; char* arena_;
std::string to_text(const Prog& p) {
    std::ostringstream o; Conc* c = concs()[p.c]; o << "type " << c->type << "\nkind " << c->kind << "\ninit " << hex128(p.p.init) << "\nplace " << p.place << "\n";
#if !defined(VF_NATIVE)
    const eng::Cfg& g = p.cfg; o << "cfg " << g.seed << " " << g.strat << " " << g.sw << " " << g.depth << " " << g.len << " " << g.tso << " " << g.scheme << " " << g.races << " " << g.max_steps << "\n";
#endif
    for (size_t t = 0; t < p.p.th.size(); ++t) { o << "thread\n"; for (size_t i = 0; i < p.p.th[t].size(); ++i) { const Op& q = p.p.th[t][i]; o << "op " << op_names()[q.code] << " " << q.ord << " " << q.csel << " " << sel_names()[q.asel] << " " << hex128(q.a) << " " << sel_names()[q.bsel] << " " << hex128(q.b) << "\n"; } }
    return o.str();
}
bool from_text(const std::string& s, Prog& p) {
    std::istringstream in(s); std::string line, type, kind; p = Prog();
    while (std::getline(in, line)) { std::istringstream l(line); std::string k; l >> k;
        if (k == "type") { type = line.substr(5); } else if (k == "kind") l >> kind; else if (k == "init") { l >> k; p.p.init = parse128(k); } else if (k == "place") l >> p.place; else if (k == "thread") p.p.th.push_back(std::vector<Op>());
#if !defined(VF_NATIVE)
        else if (k == "cfg") l >> p.cfg.seed >> p.cfg.strat >> p.cfg.sw >> p.cfg.depth >> p.cfg.len >> p.cfg.tso >> p.cfg.scheme >> p.cfg.races >> p.cfg.max_steps;
#endif
        else if (k == "op") { std::string n, as, av, bs, bv; Op q; l >> n >> q.ord >> q.csel >> as >> av >> bs >> bv; q.a = parse128(av); q.b = parse128(bv);
            for (int i = 0; i < O_COUNT; ++i) if (n == op_names()[i]) q.code = i;
            for (int i = 0; i < S_COUNT; ++i) { if (as == sel_names()[i]) q.asel = i; if (bs == sel_names()[i]) q.bsel = i; } if (p.p.th.empty()) return false; p.p.th.back().push_back(q); } }
    for (size_t i = 0; i < concs().size(); ++i) if (concs()[i]->type == type && concs()[i]->kind == kind) { p.c = (int)i; return !p.p.th.empty(); }
    return false;
}
Op gen_op(Rng& r, const Conc& c, int focus) {
    Op p; do p.code = focus >= 0 && r.chance(1, 2) ? focus : c.ops[r.below(c.ops.size())]; while (p.code == O_WAITDIFF || p.code == O_WAITFOR);
    if (r.chance(1, 8)) { static const int k[] = { O_CAS_S1, O_CAS_S2, O_CAS_W1, O_CAS_W2, O_LOAD, O_STORE }; p.code = k[r.below(6)]; if (std::find(c.ops.begin(), c.ops.end(), p.code) == c.ops.end()) p.code = c.ops[0]; }
    p.ord = (int)r.below(5); p.csel = r.chance(1, 3) ? 1 + (int)r.below(5) : 0; p.asel = r.chance(1, 5) ? (int)r.below(S_COUNT) : S_RAW;
    p.a = r.chance(1, 2) ? gen_bits(r, c.bits < 64 ? c.bits : 128) : (u128)1 << r.below(c.bits); p.bsel = r.chance(3, 4) ? S_STATE : r.chance(1, 2) ? S_FLIP : (int)r.below(S_COUNT); p.b = gen_bits(r, 128); return p;
}
Prog gen(u64 seed, u64 i) {
    Rng r(seed); Prog p; p.c = (int)(i % concs().size()); const Conc& c = *concs()[p.c]; p.place = (unsigned)r.below(64); p.p.init = r.chance(1, 2) ? gen_bits(r, c.bits) : r.below(4);
    unsigned nt = 2 + (unsigned)r.below(r.chance(1, 3) ? 3 : 2); int focus = r.chance(1, 2) ? c.ops[r.below(c.ops.size())] : -1; if (focus == O_WAITDIFF || focus == O_WAITFOR) focus = -1; unsigned mx = nt > 3 ? 2 : 4;
    for (unsigned t = 0; t < nt; ++t) { std::vector<Op> v; unsigned n = 1 + (unsigned)r.below(mx); for (unsigned k = 0; k < n; ++k) v.push_back(gen_op(r, c, focus)); p.p.th.push_back(v); }
    // values the others install make a compare-exchange interesting
    for (unsigned t = 0; t < nt; ++t) for (size_t k = 0; k < p.p.th[t].size(); ++k) { Op& o = p.p.th[t][k]; if (o.code >= O_CAS_S1 && o.code <= O_CAS_W2 && r.chance(1, 3)) { const std::vector<Op>& v = p.p.th[r.below(nt)]; const Op& q = v[r.below(v.size())]; o.bsel = q.asel; o.b = q.a; } }
#if !defined(VF_NATIVE)
    p.cfg = eng::Cfg::random(r.next()); p.cfg.max_steps = 4000; p.cfg.len = 10u << r.below(5); p.cfg.races = !c.lock_free;
#if defined(VF_TSO)
    p.cfg.tso = r.chance(1, 2); p.cfg.scheme = (int)r.below(2);
#endif
#endif
    return p;
}
char* place(const Prog& p) { const Conc& c = *concs()[p.c]; return arena_ + 1024 + (size_t)p.place * 64 % 4096 + (p.place / 7 % 8) * c.align % 1024 / c.align * c.align; }
#if !defined(VF_NATIVE)
bool check(const Prog& p, std::string& why, bool* nt = 0) {
    Crash::set(to_text(p)); memset(arena_, 0, AR); eng::clear_regions(); eng::add_region(arena_, AR); Conc::Job* j = concs()[p.c]->job(p.p); j->start(place(p));
    std::vector<std::function<void()> > b; for (size_t t = 0; t < p.p.th.size(); ++t) b.push_back([&p, j, t]() { for (size_t i = 0; i < p.p.th[t].size(); ++i) { eng::op_begin(op_names()[p.p.th[t][i].code]); j->exec((int)t, (int)i); eng::op_end(); } });
    eng::Result r = eng::run(b, p.cfg); bool ok = true;
    if (nt) *nt = r.switches >= 3 && j->contended();
    if (!r.error.empty()) { why = concs()[p.c]->kind + "<" + concs()[p.c]->type + ">: " + r.error; ok = false; }
    else if (r.status != eng::S_DONE) { why = concs()[p.c]->kind + "<" + concs()[p.c]->type + ">: operations do not finish (" + (r.where.empty() ? "" : r.where[0]) + ")"; ok = false; }
    else ok = j->explain(why);
    delete j; return ok;
}
bool still(Prog& p, unsigned tries) { u64 s = p.cfg.seed; std::string w; for (unsigned k = 0; k < tries; ++k) { p.cfg.seed = k ? mix(s, k) : s; if (!check(p, w)) return true; } p.cfg.seed = s; return false; }
const unsigned TRIES = 100;
#else
// real threads: every round runs the program on a fresh object; the threads meet before each round
struct Shared { std::atomic<unsigned> go, ready; std::atomic<int> quit; int n; const Prog* p; std::vector<Conc::Job*> jobs; unsigned rounds; std::atomic<unsigned> round_in[8]; Shared() : go(0), ready(0), quit(0), n(0), p(0), rounds(0) {} } S;
const int NT = 4; const unsigned ROUNDS = 48;
void relax(unsigned& k) { __builtin_ia32_pause(); if (++k > 2000) { k = 0; sched_yield(); } }
void* worker(void* a) { int t = (int)(long)a; unsigned gen_ = 0;
    for (;;) { unsigned k = 0; while (S.go.load(std::memory_order_acquire) == gen_) { if (S.quit.load()) return 0; relax(k); } ++gen_;
        if (t < S.n) for (unsigned r = 0; r < S.rounds; ++r) { S.round_in[t].store(r + 1, std::memory_order_release); k = 0; for (int q = 0; q < S.n; ++q) while (S.round_in[q].load(std::memory_order_acquire) < r + 1) relax(k);
            Conc::Job* j = S.jobs[r]; size_t n = S.p->p.th[t].size(); for (size_t i = 0; i < n; ++i) j->exec(t, (int)i); }
        S.ready.fetch_add(1, std::memory_order_release); } }
pthread_t threads[NT];
void start_threads() { for (long t = 0; t < NT; ++t) if (pthread_create(&threads[t], 0, worker, (void*)t)) _exit(3); }
char* pool_; 
// where in a cache line the object begins: half of the time as far across the end of the line as its alignment allows
size_t line_offset(const Prog& p) { const Conc& c = *concs()[p.c]; return p.place & 1 ? (64 - c.size % 64 / 2 + c.align - 1) / c.align * c.align % 64 : (place(p) - arena_) % 64 / c.align * c.align; }
bool check(const Prog& p, std::string& why, bool* nt = 0, unsigned reps = 1) {
    Crash::set(to_text(p)); const Conc& c = *concs()[p.c]; size_t step = (c.size + c.align + 63) / 64 * 64 + (c.size > 64 ? 64 : 0); bool ok = true;
    if (p.p.th.size() > (size_t)NT) return true;
    for (unsigned rep = 0; rep < reps && ok; ++rep) {
        S.p = &p; S.n = (int)p.p.th.size(); S.rounds = ROUNDS; S.jobs.clear(); for (unsigned r = 0; r < ROUNDS; ++r) { S.jobs.push_back(concs()[p.c]->job(p.p)); S.jobs[r]->start(pool_ + 256 + line_offset(p) + r * step); }
        for (int t = 0; t < 8; ++t) S.round_in[t].store(0); S.ready.store(0); S.go.fetch_add(1, std::memory_order_release); unsigned k = 0; while (S.ready.load(std::memory_order_acquire) != (unsigned)NT) relax(k);
        if (nt) *nt = S.jobs[0]->contended();
        for (unsigned r = 0; r < ROUNDS; ++r) { if (ok && !S.jobs[r]->explain(why)) ok = false; delete S.jobs[r]; }
    }
    return ok;
}
const unsigned TRIES = 400;
bool still(Prog& p, unsigned tries) { std::string w; return !check(p, w, 0, tries); }
#endif
Prog shrink(Prog p) {
    bool progress = true; int rounds = 0; double t0 = wall();
    while (progress && rounds++ < 10 && wall() - t0 < 30) { progress = false; alarm(60);
        for (size_t t = 0; t < p.p.th.size() && p.p.th.size() > 1;) { Prog q = p; q.p.th.erase(q.p.th.begin() + t); if (still(q, TRIES)) { p = q; progress = true; } else ++t; }
        for (size_t t = 0; t < p.p.th.size(); ++t) for (size_t i = 0; i < p.p.th[t].size() && p.p.th[t].size() > 1;) { Prog q = p; q.p.th[t].erase(q.p.th[t].begin() + i); if (still(q, TRIES)) { p = q; progress = true; } else ++i; }
        if (p.p.init) { Prog q = p; q.p.init = 0; if (still(q, TRIES)) { p = q; progress = true; } }
        for (size_t t = 0; t < p.p.th.size(); ++t) for (size_t i = 0; i < p.p.th[t].size(); ++i) for (int k = 0; k < 4; ++k) { Prog q = p; Op& o = q.p.th[t][i]; switch (k) { case 0: if (o.a <= 1) continue; o.a = 1; break; case 1: if (!o.csel) continue; o.csel = 0; break; case 2: if (o.asel == S_RAW) continue; o.asel = S_RAW; break; case 3: if (o.ord == 1) continue; o.ord = 1; break; } if (still(q, TRIES)) { p = q; progress = true; } } }
    return p;
}
}
int main(int argc, char** argv) {
    Options o; o.parse(argc, argv); Crash::install(o); Stats st; std::string why;
    std::sort(concs().begin(), concs().end(), [](Conc* a, Conc* b) { return a->type != b->type ? a->type < b->type : a->kind < b->kind; });
    arena_ = (char*)mmap(0, AR, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
#if defined(VF_NATIVE)
    pool_ = (char*)mmap(0, 1 << 18, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); start_threads();
#endif
    if (!o.replay.empty()) {
        Prog p; if (!from_text(slurp(o.replay), p)) { fprintf(stderr, "type or kind of the case is not in this build\n"); return 3; } alarm(100);
#if defined(VF_NATIVE)
        double t0 = wall(); bool ok = true; while (ok && wall() - t0 < 20) ok = check(p, why, 0, 50);
#else
        bool ok = check(p, why);
#endif
        if (ok) { printf("holds\n"); return 0; } printf("%s\n", why.c_str()); fflush(0); _exit(EXIT_VIOLATION);
    }
    double t0 = wall();
    for (u64 i = 0; i < o.cases; ++i) {
        if ((i & 31) == 0) { alarm(25); if (wall() - t0 > o.budget) { st.budget_hit = true; break; } }
        Prog p = gen(mix(o.seed, i), i); ++st.evaluations; bool nt = false; bool ok = check(p, why, &nt);
        st.cls("type:" + concs()[p.c]->type); st.cls("kind:" + concs()[p.c]->kind); for (size_t t = 0; t < p.p.th.size(); ++t) for (size_t k = 0; k < p.p.th[t].size(); ++k) st.cls(std::string("op:") + op_names()[p.p.th[t][k].code]);
        if (nt) { std::string t = to_text(p); u64 h = 0; for (size_t k = 0; k < t.size(); ++k) h = h * 1099511628211ull + (unsigned char)t[k]; st.distinct.insert(h); if (st.samples.size() < 2 && i % 5 == 2) st.sample(t); }
        if (!ok) { Prog s = shrink(p); std::string w;
#if defined(VF_NATIVE)
            w = why; for (unsigned k = 0; k < 200; ++k) { std::string x; if (!check(s, x)) { w = x; break; } }
#else
            check(s, w); if (w.empty()) { s = p; check(s, w); }
#endif
            st.failure = w; spit(o.replay_out, to_text(s)); st.write(o.out); fprintf(stderr, "%s\n", w.c_str()); fflush(0); _exit(EXIT_VIOLATION); }
    }
    st.write(o.out); fflush(0); _exit(0);
}
