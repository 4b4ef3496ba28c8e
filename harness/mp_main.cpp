// Generated programs of operations with all memory orders, fences and plain writes. Mode mp: whenever an operation with
// acquire semantics has provably read from one with release semantics, the plain data written before the latter is read and
// has to be ordered (the engine's race detector is the oracle). Mode sc: programs whose accesses are all sequentially
// consistent, or all separated by such fences, have to behave as some interleaving of the threads.
#include "conc.hpp"
#if !defined(VF_NATIVE)
#include "eng.hpp"
#else
#include <pthread.h>
#include <sched.h>
#include <atomic>
#endif
#include <sys/mman.h>
using namespace vf;
namespace {
enum { I_OP, I_FENCE, I_NOTIFY };
struct Item { int k, obj; Op op; Item() : k(I_OP), obj(0) {} };
struct Prog { std::vector<int> c; std::vector<u128> init; std::vector<unsigned> place; std::vector<std::vector<Item> > th;
#if !defined(VF_NATIVE)
    eng::Cfg cfg;
#endif
};
bool sc_mode = false; const size_t AR = 16384; char* arena_;
enum { RLX, CON, ACQ, REL, AR_, SC };
struct Ord { int s, f; };
bool reads_only(int c) { return c == O_LOAD || c == O_CONV || c == O_TEST || c == O_WAITDIFF || c == O_WAITFOR; }
bool stores_only(int c) { return c == O_STORE || c == O_ASSIGN || c == O_CLEAR; }
bool operator_form(int c) { return c == O_ASSIGN || c == O_CONV || (c >= O_OPR_AND && c <= O_OPR_XOR) || (c >= O_PREINC && c <= O_OPR_SUB); }
bool takes_const(int c) { return (c >= O_FETCH_AND && c <= O_FETCH_XOR) || (c >= O_BIT_AND && c <= O_BIT_XOR) || (c >= O_OPQ_AND && c <= O_OPQ_XOR) || (c >= O_AND_TEST && c <= O_XOR_TEST) || c == O_FETCH_ADD || c == O_FETCH_SUB || c == O_ADD || c == O_SUB || c == O_OPQ_ADD || c == O_OPQ_SUB || c == O_ADD_TEST || c == O_SUB_TEST; }
int derived(int s) { return s == AR_ ? ACQ : s == REL ? RLX : s; }
// the order (of the successful form) and the failure order an operation of the sequential framework is invoked with
Ord order_of(const Op& o) {
    Ord r = { SC, SC };
    if (operator_form(o.code)) return r;
    if (takes_const(o.code) && o.csel) return r;
    if ((o.code == O_BTS || o.code == O_BTR || o.code == O_BTC) && (o.csel == 1 || o.csel == 5)) return r;
    switch (o.code) {
    case O_STORE: case O_CLEAR: { static const int k[] = { RLX, SC, -1, REL, SC }; r.s = k[o.ord]; break; }
    case O_LOAD: { static const int k[] = { RLX, SC, -1, ACQ, CON }; r.s = k[o.ord]; break; }
    case O_TEST: { static const int k[] = { RLX, SC, -1, ACQ, SC }; r.s = k[o.ord]; break; }
    case O_CAS_S1: case O_CAS_W1: { static const int k[] = { RLX, SC, -1, AR_, REL }; r.s = k[o.ord] < 0 ? o.rt : k[o.ord]; r.f = derived(r.s); return r; }
    case O_CAS_S2: case O_CAS_W2: { static const int k[] = { REL, SC, -1, ACQ, SC }; static const int f[] = { RLX, ACQ, RLX, ACQ, SC }; r.s = k[o.ord] < 0 ? o.rt : k[o.ord]; r.f = f[o.ord]; return r; }
    case O_WAITDIFF: r.s = o.ord == 0 ? RLX : o.ord == 3 ? ACQ : SC; break;
    case O_WAITFOR: r.s = o.ord < 2 ? SC : o.rt; break;
    default: { static const int k[] = { RLX, SC, -1, AR_, SC }; r.s = k[o.ord]; }
    }
    if (r.s < 0) r.s = o.rt; r.f = r.s; return r;
}
int fence_order(const Op& o) { return o.rt == 6 ? SC : o.rt == 7 ? ACQ : o.rt == 8 ? REL : o.rt; }
bool acquires(int m) { return m == ACQ || m == AR_ || m == SC; } bool releases(int m) { return m == REL || m == AR_ || m == SC; }

std::string to_text(const Prog& p) {
    std::ostringstream o; for (size_t i = 0; i < p.c.size(); ++i) o << "object " << concs()[p.c[i]]->kind << " " << hex128(p.init[i]) << " " << p.place[i] << " " << concs()[p.c[i]]->type << "\n";
#if !defined(VF_NATIVE)
    const eng::Cfg& g = p.cfg; o << "cfg " << g.seed << " " << g.strat << " " << g.sw << " " << g.depth << " " << g.len << " " << g.tso << " " << g.scheme << " " << g.races << " " << g.max_steps << "\n";
#endif
    for (size_t t = 0; t < p.th.size(); ++t) { o << "thread\n"; for (size_t i = 0; i < p.th[t].size(); ++i) { const Item& m = p.th[t][i]; const Op& q = m.op;
        if (m.k == I_FENCE) o << "fence " << q.rt << "\n"; else if (m.k == I_NOTIFY) o << "notify " << m.obj << "\n";
        else o << "op " << m.obj << " " << op_names()[q.code] << " " << q.ord << " " << q.rt << " " << q.csel << " " << sel_names()[q.asel] << " " << hex128(q.a) << " " << sel_names()[q.bsel] << " " << hex128(q.b) << "\n"; } }
    return o.str();
}
bool from_text(const std::string& s, Prog& p) {
    std::istringstream in(s); std::string line; p = Prog();
    while (std::getline(in, line)) { std::istringstream l(line); std::string k; l >> k;
        if (k == "object") { std::string kind, init, type; unsigned pl; l >> kind >> init >> pl; std::getline(l, type); if (!type.empty()) type = type.substr(1); int f = -1; for (size_t i = 0; i < concs().size(); ++i) if (concs()[i]->type == type && concs()[i]->kind == kind) f = (int)i; if (f < 0) return false; p.c.push_back(f); p.init.push_back(parse128(init)); p.place.push_back(pl); }
        else if (k == "thread") p.th.push_back(std::vector<Item>());
#if !defined(VF_NATIVE)
        else if (k == "cfg") l >> p.cfg.seed >> p.cfg.strat >> p.cfg.sw >> p.cfg.depth >> p.cfg.len >> p.cfg.tso >> p.cfg.scheme >> p.cfg.races >> p.cfg.max_steps;
#endif
        else if (k == "fence" || k == "notify" || k == "op") { Item m; if (p.th.empty()) return false;
            if (k == "fence") { m.k = I_FENCE; l >> m.op.rt; } else if (k == "notify") { m.k = I_NOTIFY; l >> m.obj; }
            else { std::string n, as, av, bs, bv; l >> m.obj >> n >> m.op.ord >> m.op.rt >> m.op.csel >> as >> av >> bs >> bv; m.op.a = parse128(av); m.op.b = parse128(bv);
                for (int i = 0; i < O_COUNT; ++i) if (n == op_names()[i]) m.op.code = i;
                for (int i = 0; i < S_COUNT; ++i) { if (as == sel_names()[i]) m.op.asel = i; if (bs == sel_names()[i]) m.op.bsel = i; } }
            if (m.obj < 0 || m.obj >= (int)p.c.size()) return false; p.th.back().push_back(m); } }
    return !p.th.empty() && !p.c.empty();
}
int pick_order(Rng& r, int code) { // a run-time order the operation permits
    if (stores_only(code)) { static const int k[] = { RLX, REL, SC }; return k[r.below(3)]; }
    if (reads_only(code)) { static const int k[] = { RLX, CON, ACQ, SC }; return k[r.below(4)]; }
    return (int)r.below(6);
}
int focus_op = -1;
Item gen_op(Rng& r, const Prog& p, int t, bool waits) {
    Item m; m.obj = (int)r.below(p.c.size()); const Conc& c = *concs()[p.c[m.obj]]; Op& q = m.op; unsigned s = (unsigned)r.below(10);
    if (s < 3) { static const int k[] = { O_STORE, O_LOAD, O_CAS_S1, O_CAS_W2, O_XCHG, O_CLEAR, O_TEST, O_TAS }; q.code = k[r.below(8)]; if (std::find(c.ops.begin(), c.ops.end(), q.code) == c.ops.end()) q.code = c.ops[r.below(c.ops.size())]; } else q.code = c.ops[r.below(c.ops.size())];
    if (m.obj == 0 && focus_op >= 0 && r.chance(1, 2)) q.code = focus_op;
    if (q.code == O_WAITDIFF || q.code == O_WAITFOR) { if (!waits) q.code = c.type == "flag" ? O_TEST : O_LOAD; }
    q.ord = (int)r.below(5); q.rt = pick_order(r, q.code); if ((q.code == O_CAS_S2 || q.code == O_CAS_W2) && q.rt == CON) q.rt = ACQ;
    if (sc_mode) { static const int k[] = { 1, 1, 2 }; q.ord = k[r.below(3)]; q.rt = SC; if ((q.code == O_CAS_S2 || q.code == O_CAS_W2)) q.ord = 4; if (q.code == O_WAITDIFF) q.ord = 1; }
    q.csel = r.chance(1, 5) ? 1 + (int)r.below(5) : 0; q.asel = r.chance(1, 6) ? (int)r.below(S_COUNT) : S_RAW; q.a = r.chance(1, 3) ? gen_bits(r, c.bits < 64 ? c.bits : 128) : (u128)(1 + t) << r.below(c.bits);
    q.bsel = r.chance(3, 4) ? S_STATE : r.chance(1, 2) ? S_FLIP : (int)r.below(S_COUNT); q.b = gen_bits(r, 128); return m;
}
bool usable(const Conc& c) {
#if defined(VF_ASM16) // 16-byte operations are inline assembly the engine does not see
    if (c.lock_free && c.size > 8) return false;
#endif
    (void)c; return true;
}
Prog gen(u64 seed, u64 n) {
    Rng r(seed); Prog p; unsigned no = sc_mode ? 2 : r.chance(1, 3) ? 2 : 1; std::vector<int> ok; for (size_t i = 0; i < concs().size(); ++i) if (usable(*concs()[i])) ok.push_back((int)i);
    for (unsigned i = 0; i < no; ++i) { p.c.push_back(i ? ok[r.below(ok.size())] : ok[n % ok.size()]); p.init.push_back(r.chance(2, 3) ? 0 : gen_bits(r, concs()[p.c[i]]->bits)); p.place.push_back((unsigned)r.below(64)); }
    const std::vector<int>& fo = concs()[p.c[0]]->ops; focus_op = fo[n / ok.size() % fo.size()];
    unsigned nt = sc_mode ? 2 + (unsigned)r.below(r.chance(1, 4) ? 3 : 1) : 2 + (unsigned)r.below(2); bool waits = !sc_mode && (focus_op == O_WAITDIFF || focus_op == O_WAITFOR || r.chance(1, 4)), fenced = sc_mode && r.chance(1, 3); if (sc_mode && fenced) nt = 2;
    for (unsigned t = 0; t < nt; ++t) { std::vector<Item> v; unsigned n = sc_mode ? nt > 2 ? 2 + (unsigned)r.below(2) : 2 + (unsigned)r.below(3) : 1 + (unsigned)r.below(4);
        for (unsigned k = 0; k < n; ++k) {
            if (fenced) { if (k) { Item f; f.k = I_FENCE; f.op.rt = r.chance(1, 2) ? SC : 6; v.push_back(f); } Item m = gen_op(r, p, t, false); m.op.ord = r.chance(1, 2) ? 0 : (int)r.below(5); m.op.rt = pick_order(r, m.op.code); if ((m.op.code == O_CAS_S2 || m.op.code == O_CAS_W2) && m.op.rt == CON) m.op.rt = ACQ; v.push_back(m); continue; }
            if (!sc_mode && r.chance(1, 4)) { Item f; f.k = I_FENCE; f.op.rt = 1 + (int)r.below(8); v.push_back(f); }
            if (sc_mode && r.chance(1, 12)) { Item f; f.k = I_FENCE; f.op.rt = (int)r.below(9); v.push_back(f); }
            Item m = gen_op(r, p, t, waits); v.push_back(m); if (waits && !reads_only(m.op.code)) { Item w; w.k = I_NOTIFY; w.obj = m.obj; v.push_back(w); }
            if (!sc_mode && r.chance(1, 4)) { Item f; f.k = I_FENCE; f.op.rt = 1 + (int)r.below(8); v.push_back(f); } }
        p.th.push_back(v); }
    for (unsigned t = 0; t < nt; ++t) for (size_t k = 0; k < p.th[t].size(); ++k) { Item& m = p.th[t][k]; if (m.k == I_OP && is_cas(m.op.code) && r.chance(1, 2)) { const std::vector<Item>& v = p.th[r.below(nt)]; const Item& q = v[r.below(v.size())]; if (q.k == I_OP) { m.op.bsel = q.op.asel; m.op.b = q.op.a; } } }
#if !defined(VF_NATIVE)
    p.cfg = eng::Cfg::random(r.next()); p.cfg.max_steps = 4000; p.cfg.len = 10u << r.below(5); p.cfg.races = true; p.cfg.tso = false;
    if (sc_mode) { p.cfg.races = false; p.cfg.tso = true; p.cfg.scheme = (int)r.below(2); }
#endif
    return p;
}
char* place(const Prog& p, size_t i) { const Conc& c = *concs()[p.c[i]]; return arena_ + 1024 + i * 6144 + (size_t)p.place[i] * 64 % 4096 + (p.place[i] / 7 % 8) * c.align % 1024 / c.align * c.align; }

// one execution: items mapped onto the jobs of the objects
struct Exec {
    const Prog& p; std::vector<Conc::Job*> job; std::vector<std::vector<int> > idx; // idx[t][k]: number of item k among thread t's operations on its object
    Exec(const Prog& q) : p(q) {
        std::vector<CProg> cp(p.c.size()); for (size_t o = 0; o < p.c.size(); ++o) { cp[o].init = p.init[o]; cp[o].th.resize(p.th.size()); }
        idx.resize(p.th.size()); for (size_t t = 0; t < p.th.size(); ++t) for (size_t k = 0; k < p.th[t].size(); ++k) { const Item& m = p.th[t][k]; idx[t].push_back(m.k == I_OP ? (int)cp[m.obj].th[t].size() : -1); if (m.k == I_OP) cp[m.obj].th[t].push_back(m.op); }
        for (size_t o = 0; o < p.c.size(); ++o) job.push_back(concs()[p.c[o]]->job(cp[o])); }
    ~Exec() { for (size_t o = 0; o < job.size(); ++o) delete job[o]; }
    std::string str() { std::ostringstream s; for (size_t o = 0; o < p.c.size(); ++o) s << "object " << o << " is " << concs()[p.c[o]]->kind << "<" << concs()[p.c[o]]->type << "> starting at " << hex128(p.init[o]) << "; "; for (size_t t = 0; t < p.th.size(); ++t) { s << "thread " << t << ":"; for (size_t k = 0; k < p.th[t].size(); ++k) { const Item& m = p.th[t][k]; if (m.k == I_FENCE) s << " fence(" << fence_order(m.op) << ")"; else if (m.k == I_OP) s << " [" << m.obj << "] " << job[m.obj]->describe((int)t, idx[t][k]) << ";"; } } return s.str(); }
    // the joint search of mode sc
    std::set<std::string> dead;
    bool go(std::vector<int>& pos, std::vector<int>& st) {
        std::string key; for (size_t t = 0; t < pos.size(); ++t) { while (pos[t] < (int)p.th[t].size() && p.th[t][pos[t]].k != I_OP) ++pos[t]; key += (char)pos[t]; } for (size_t o = 0; o < st.size(); ++o) { key += (char)(st[o] & 0xff); key += (char)(st[o] >> 8); }
        bool end = true; for (size_t t = 0; t < pos.size(); ++t) if (pos[t] < (int)p.th[t].size()) end = false;
        if (end) { for (size_t o = 0; o < st.size(); ++o) if (!job[o]->is_final(st[o])) return false; return true; }
        if (!dead.insert(key).second) return false;
        for (size_t t = 0; t < pos.size(); ++t) if (pos[t] < (int)p.th[t].size()) { const Item& m = p.th[t][pos[t]]; bool w; int n = job[m.obj]->next(st[m.obj], (int)t, idx[t][pos[t]], true, false, w); if (n < 0) continue;
            std::vector<int> q = pos, s = st; ++q[t]; s[m.obj] = n; if (go(q, s)) return true; }
        return false; }
    bool explain(std::string& why) { std::vector<int> pos(p.th.size(), 0), st; for (size_t o = 0; o < job.size(); ++o) st.push_back(job[o]->first()); dead.clear(); if (go(pos, st)) return true; why = "no interleaving of the sequentially consistent threads explains the results: " + str(); for (size_t o = 0; o < job.size(); ++o) why += " object " + std::string(1, (char)(48 + o)) + " finally " + job[o]->final_str(); return false; }
};
bool interesting_sc(const Prog& p) { // both threads modify one object and then access the other
    unsigned n = 0; for (size_t t = 0; t < p.th.size(); ++t) { unsigned w = 0, both = 0; for (size_t k = 0; k < p.th[t].size(); ++k) { const Item& m = p.th[t][k]; if (m.k != I_OP) continue; if (w & ~(1u << m.obj)) both = 1; if (!reads_only(m.op.code)) w |= 1u << m.obj; } n += both; } return n >= 2; }
#if !defined(VF_NATIVE)
unsigned total_syncs = 0;
struct Run : Exec {
    typedef std::vector<unsigned> K; // per thread: how many of its operations' plain writes are known
    enum { MAXI = 32 }; char* cells; std::vector<K> know, pend, relf; std::vector<std::vector<K> > rel; std::vector<std::vector<int> > beg, fin; int clock; unsigned syncs, steps;
    Run(const Prog& q, char* c) : Exec(q), cells(c), clock(0), syncs(0) { size_t n = p.th.size(); know.assign(n, K(n, 0)); pend = relf = know; rel.resize(n); beg.resize(n); fin.resize(n); for (size_t t = 0; t < n; ++t) { rel[t].assign(p.th[t].size(), K(n, 0)); beg[t].assign(p.th[t].size(), 0); fin[t].assign(p.th[t].size(), 0); } }
    char* cell(size_t t, unsigned k) { return cells + (t * MAXI + k) * 8; }
    static void join(K& a, const K& b) { for (size_t i = 0; i < a.size(); ++i) if (b[i] > a[i]) a[i] = b[i]; }
    void learn(size_t t, const K& n) { for (size_t u = 0; u < n.size(); ++u) { unsigned from = know[t][u]; if (u == t || n[u] <= from) continue; know[t][u] = n[u]; ++syncs; for (unsigned k = from; k < n[u]; ++k) if (p.th[u][k].k == I_OP) eng::plain_read(cell(u, k), 8); } }
    // the operations every explanation of the results has B read from (heads of the release sequences it reads)
    struct S { int t, k; }; int bt, bk, bo; std::set<std::pair<int, int> > must; bool first; bool b_wrote; unsigned budget;
    typedef std::vector<std::pair<int, int> > Chain;
    void dfs(std::vector<int>& pos, int st, Chain& chain, bool placed, const Chain& seen, bool bw) {
        if (!budget) return; --budget;
        // which operations may come next
        bool all = true; int lim = 1 << 30; for (size_t t = 0; t < pos.size(); ++t) { for (size_t k = pos[t]; k < p.th[t].size(); ++k) { const Item& m = p.th[t][k]; if (m.k == I_OP && m.obj == bo && fin[t][k]) { all = false; if (fin[t][k] < lim) lim = fin[t][k]; } } }
        if (placed && all) { std::set<std::pair<int, int> > s(seen.begin(), seen.end()); if (first) { must = s; b_wrote = bw; first = false; } else { std::set<std::pair<int, int> > r; std::set_intersection(must.begin(), must.end(), s.begin(), s.end(), std::inserter(r, r.end())); must.swap(r); } return; }
        for (size_t t = 0; t < pos.size(); ++t) { int k = pos[t]; while (k < (int)p.th[t].size() && !(p.th[t][k].k == I_OP && p.th[t][k].obj == bo)) ++k; if (k >= (int)p.th[t].size() || !beg[t][k] || beg[t][k] > lim) continue;
            bool known = fin[t][k] != 0; int c = p.th[t][k].op.code;
            for (int sp = 0; sp < (!known && is_weak(c) ? 2 : 1); ++sp) { bool w = false; int n = job[bo]->next(st, (int)t, idx[t][k], known, sp != 0, w); if (n < 0) continue; bool isb = (int)t == bt && k == bk;
                Chain ch = chain; if (w) { if (stores_only(c)) ch.clear(); ch.push_back(std::make_pair((int)t, k)); }
                int old = pos[t]; pos[t] = k + 1; dfs(pos, n, ch, placed || isb, isb ? chain : seen, isb ? w : bw); pos[t] = old; } }
    }
    void read_done(size_t t, size_t k) {
        const Item& m = p.th[t][k]; if (stores_only(m.op.code)) return; bt = (int)t; bk = (int)k; bo = m.obj; must.clear(); first = true; b_wrote = false; budget = 3000; std::vector<int> pos(p.th.size(), 0); Chain ch, none; dfs(pos, job[bo]->first(), ch, false, none, false); if (!budget || first) return;
        Ord o = order_of(m.op); int mo = is_cas(m.op.code) && !b_wrote ? o.f : o.s; K n(p.th.size(), 0);
        for (std::set<std::pair<int, int> >::iterator i = must.begin(); i != must.end(); ++i) if (i->first != (int)t) join(n, rel[i->first][i->second]);
        join(pend[t], n); if (acquires(mo)) learn(t, n); }
    void thread(size_t t) {
        for (size_t k = 0; k < p.th[t].size(); ++k) { const Item& m = p.th[t][k];
            if (m.k == I_NOTIFY) { eng::op_begin("notify_all"); job[m.obj]->notify((int)t, true); eng::op_end(); continue; }
            if (m.k == I_FENCE) { int o = fence_order(m.op); eng::op_begin("fence"); fences().thread(m.op.rt); eng::op_end(); if (acquires(o)) learn(t, pend[t]); if (releases(o)) relf[t] = know[t]; continue; }
            eng::plain_write(cell(t, (unsigned)k), 8); know[t][t] = (unsigned)k + 1; Ord o = order_of(m.op); rel[t][k] = releases(o.s) ? know[t] : relf[t];
            if (k) { } beg[t][k] = ++clock; eng::op_begin(op_names()[m.op.code]); job[m.obj]->exec((int)t, idx[t][k]); eng::op_end(); fin[t][k] = ++clock; read_done(t, k); } }
};
bool check(const Prog& p, std::string& why, bool* nt = 0) {
    Crash::set(to_text(p)); memset(arena_, 0, AR); eng::clear_regions(); eng::add_region(arena_, AR); Run r(p, arena_ + AR - 8 * Run::MAXI * 8); for (size_t o = 0; o < p.c.size(); ++o) r.job[o]->start(place(p, o));
    std::vector<std::function<void()> > b; for (size_t t = 0; t < p.th.size(); ++t) b.push_back([&r, t]() { if (sc_mode) { for (size_t k = 0; k < r.p.th[t].size(); ++k) { const Item& m = r.p.th[t][k]; eng::op_begin(m.k == I_FENCE ? "fence" : op_names()[m.op.code]); if (m.k == I_FENCE) fences().thread(m.op.rt); else r.job[m.obj]->exec((int)t, r.idx[t][k]); eng::op_end(); } } else r.thread(t); });
    eng::Result e = eng::run(b, p.cfg); if (nt) *nt = sc_mode ? interesting_sc(p) && e.switches >= 2 : r.syncs > 0; total_syncs += r.syncs;
    if (!e.error.empty()) { why = e.error + " in " + r.str(); return false; }
    if (e.status != eng::S_DONE) { if (sc_mode) { why = "operations do not finish"; return false; } return true; }
    return !sc_mode || r.explain(why);
}
bool still(Prog& p, unsigned tries) { u64 s = p.cfg.seed; std::string w; for (unsigned k = 0; k < tries; ++k) { p.cfg.seed = k ? mix(s, k) : s; if (!check(p, w)) return true; } p.cfg.seed = s; return false; }
const unsigned TRIES = 100;
#else
struct Shared { std::atomic<unsigned> go, ready; int n; const Prog* p; std::vector<Exec*> ex; unsigned rounds; std::atomic<unsigned> round_in[8]; Shared() : go(0), ready(0), n(0), p(0), rounds(0) {} } S;
const int NT = 4; const unsigned ROUNDS = 64;
void relax(unsigned& k) { __builtin_ia32_pause(); if (++k > 2000) { k = 0; sched_yield(); } }
void* worker(void* a) { int t = (int)(long)a; unsigned gen_ = 0;
    for (;;) { unsigned k = 0; while (S.go.load(std::memory_order_acquire) == gen_) relax(k); ++gen_;
        if (t < S.n) for (unsigned r = 0; r < S.rounds; ++r) { S.round_in[t].store(r + 1, std::memory_order_release); k = 0; for (int q = 0; q < S.n; ++q) while (S.round_in[q].load(std::memory_order_acquire) < r + 1) relax(k);
            Exec& x = *S.ex[r]; const std::vector<Item>& v = S.p->th[t]; for (size_t i = 0; i < v.size(); ++i) { if (v[i].k == I_FENCE) fences().thread(v[i].op.rt); else x.job[v[i].obj]->exec(t, x.idx[t][i]); } }
        S.ready.fetch_add(1, std::memory_order_release); } }
pthread_t threads[NT]; void start_threads() { for (long t = 0; t < NT; ++t) if (pthread_create(&threads[t], 0, worker, (void*)t)) _exit(3); }
char* pool_;
bool check(const Prog& p, std::string& why, bool* nt = 0, unsigned reps = 1) {
    Crash::set(to_text(p)); bool ok = true; if (p.th.size() > (size_t)NT) return true;
    for (unsigned rep = 0; rep < reps && ok; ++rep) { S.p = &p; S.n = (int)p.th.size(); S.rounds = ROUNDS;
        for (unsigned r = 0; r < ROUNDS; ++r) { S.ex.push_back(new Exec(p)); for (size_t o = 0; o < p.c.size(); ++o) S.ex[r]->job[o]->start(pool_ + (r * 2 + o) * 512); }
        for (int t = 0; t < 8; ++t) S.round_in[t].store(0); S.ready.store(0); S.go.fetch_add(1, std::memory_order_release); unsigned k = 0; while (S.ready.load(std::memory_order_acquire) != (unsigned)NT) relax(k);
        for (unsigned r = 0; r < ROUNDS; ++r) { if (ok && !S.ex[r]->explain(why)) ok = false; delete S.ex[r]; } S.ex.clear(); }
    if (nt) *nt = interesting_sc(p); return ok;
}
const unsigned TRIES = 400; bool still(Prog& p, unsigned tries) { std::string w; return !check(p, w, 0, tries); }
#endif
Prog shrink(Prog p) {
    bool progress = true; int rounds = 0; double t0 = wall();
    while (progress && rounds++ < 10 && wall() - t0 < 30) { progress = false; alarm(60);
        for (size_t t = 0; t < p.th.size() && p.th.size() > 1;) { Prog q = p; q.th.erase(q.th.begin() + t); if (still(q, TRIES)) { p = q; progress = true; } else ++t; }
        for (size_t t = 0; t < p.th.size(); ++t) for (size_t i = 0; i < p.th[t].size() && p.th[t].size() > 1;) { if (sc_mode && p.th[t][i].k == I_FENCE) { ++i; continue; } Prog q = p; q.th[t].erase(q.th[t].begin() + i); if (sc_mode && i < q.th[t].size() && q.th[t][i].k == I_FENCE) q.th[t].erase(q.th[t].begin() + i); if (still(q, TRIES)) { p = q; progress = true; } else ++i; }
        for (size_t t = 0; t < p.th.size(); ++t) for (size_t i = 0; i < p.th[t].size(); ++i) for (int k = 0; k < 3; ++k) { Prog q = p; Op& o = q.th[t][i].op; switch (k) { case 0: if (o.a <= 1) continue; o.a = 1; break; case 1: if (!o.csel || takes_const(o.code)) continue; o.csel = 0; break; case 2: if (o.asel == S_RAW) continue; o.asel = S_RAW; break; } if (still(q, TRIES)) { p = q; progress = true; } } }
    return p;
}
}
int main(int argc, char** argv) {
    Options o; o.parse(argc, argv); Crash::install(o); Stats st; std::string why; sc_mode = o.mode == "sc";
#if defined(VF_NATIVE)
    sc_mode = true;
#endif
    std::sort(concs().begin(), concs().end(), [](Conc* a, Conc* b) { return a->type != b->type ? a->type < b->type : a->kind < b->kind; });
    arena_ = (char*)mmap(0, AR, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
#if defined(VF_NATIVE)
    pool_ = (char*)mmap(0, 1 << 18, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); start_threads();
#endif
    if (!o.replay.empty()) {
        Prog p; if (!from_text(slurp(o.replay), p)) { fprintf(stderr, "type or kind of the case is not in this build\n"); return 3; } alarm(100);
#if defined(VF_NATIVE)
        double t0 = wall(); bool ok = true; while (ok && wall() - t0 < 20) ok = check(p, why, 0, 50);
#else
        bool ok = check(p, why);
#endif
        if (ok) { printf("holds\n"); fflush(0); _exit(0); } printf("%s\n", why.c_str()); fflush(0); _exit(EXIT_VIOLATION);
    }
    double t0 = wall();
    for (u64 i = 0; i < o.cases; ++i) {
        if ((i & 31) == 0) { alarm(25); if (wall() - t0 > o.budget) { st.budget_hit = true; break; } }
        Prog p = gen(mix(o.seed, i), i + o.seed % 1000003 * 977); ++st.evaluations; bool nt = false; bool ok = check(p, why, &nt);
        for (size_t k = 0; k < p.c.size(); ++k) st.cls("type:" + concs()[p.c[k]]->type); for (size_t t = 0; t < p.th.size(); ++t) for (size_t k = 0; k < p.th[t].size(); ++k) { const Item& m = p.th[t][k]; if (m.k == I_OP) st.cls(std::string("op:") + op_names()[m.op.code]); else if (m.k == I_FENCE) st.cls("fence"); }
        if (nt) { std::string t = to_text(p); u64 h = 0; for (size_t k = 0; k < t.size(); ++k) h = h * 1099511628211ull + (unsigned char)t[k]; st.distinct.insert(h); if (st.samples.size() < 2 && i % 5 == 2) st.sample(t); }
        if (!ok) { Prog s = shrink(p); std::string w;
#if defined(VF_NATIVE)
            w = why; for (unsigned k = 0; k < 200; ++k) { std::string x; if (!check(s, x)) { w = x; break; } }
#else
            check(s, w); if (w.empty()) { s = p; check(s, w); }
#endif
            st.failure = w; spit(o.replay_out, to_text(s)); st.write(o.out); fprintf(stderr, "%s\n", w.c_str()); fflush(0); _exit(EXIT_VIOLATION); }
    }
    st.write(o.out); fflush(0); _exit(0);
}
