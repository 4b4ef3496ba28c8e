// Generated programs of waiting, changing and notifying threads over shared objects, run under the engine.
// Modes select the generator's emphasis and the oracle that decides: wake, value, timed, ipc, oom, pool.
#include "eng.hpp"
#include "concobj.hpp"
#include <sys/mman.h>
#include <climits>
#include <cmath>
using namespace vf;
using eng::i64;
namespace {
enum { X_YIELD = C_COUNT, X_PASS, X_END };
const char* xname(int c) { return c < C_COUNT ? cc_names()[c] : c == X_YIELD ? "yield" : "pass"; }
enum { T_REL, T_MIN, T_MAX, T_EPOCH, T_ABS };
struct WOp { CArg a; int obj; int tm; WOp() : obj(0), tm(0) {} };
struct WObj { int c; unsigned init; unsigned slot; };
struct Prog { std::vector<WObj> objs; std::vector<std::vector<WOp> > th; std::vector<int> proc; eng::Cfg cfg; i64 mono, real; };
std::string mode;
const size_t AR = 1 << 16; char* ar[2];
void setup_arena() { int fd = memfd_create("verif", 0); if (fd < 0 || ftruncate(fd, AR)) _exit(3); for (int i = 0; i < 2; ++i) { ar[i] = (char*)mmap(0, AR, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0); if (ar[i] == MAP_FAILED) _exit(3); } }

std::string to_text(const Prog& p) {
    std::ostringstream o; const eng::Cfg& c = p.cfg;
    o << "cfg " << c.seed << " " << c.strat << " " << c.sw << " " << c.depth << " " << c.len << " " << c.tso << " " << c.scheme << " " << c.spurious << " " << c.tick << " " << c.tickmax << " " << c.jumps << " " << c.races << " " << c.failmask << " " << c.failall << " " << c.max_steps << " " << p.mono << " " << p.real << "\n";
    for (size_t i = 0; i < p.objs.size(); ++i) o << "obj " << cobjs()[p.objs[i].c]->type << " " << cobjs()[p.objs[i].c]->kind << " " << p.objs[i].init << " " << p.objs[i].slot << "\n";
    for (size_t t = 0; t < p.th.size(); ++t) { o << "thread " << p.proc[t] << "\n"; for (size_t i = 0; i < p.th[t].size(); ++i) { const WOp& w = p.th[t][i]; o << "op " << xname(w.a.code) << " " << w.obj << " " << w.a.a << " " << w.a.b << " " << w.a.mo << " " << w.a.fmo; if (w.a.code == C_WAITFOR || w.a.code == C_WAITUNTIL) o << " " << clk_names()[w.a.clk] << " " << dur_names()[w.a.dur] << " " << w.tm << " " << w.a.t << " " << w.a.thr; o << "\n"; } }
    return o.str();
}
bool from_text(const std::string& s, Prog& p) {
    std::istringstream in(s); std::string k; p = Prog(); eng::Cfg& c = p.cfg;
    while (in >> k) {
        if (k == "cfg") in >> c.seed >> c.strat >> c.sw >> c.depth >> c.len >> c.tso >> c.scheme >> c.spurious >> c.tick >> c.tickmax >> c.jumps >> c.races >> c.failmask >> c.failall >> c.max_steps >> p.mono >> p.real;
        else if (k == "obj") { WObj o; std::string t, kd; in >> t >> kd >> o.init >> o.slot; o.c = -1; for (size_t i = 0; i < cobjs().size(); ++i) if (cobjs()[i]->type == t && cobjs()[i]->kind == kd) o.c = (int)i; if (o.c < 0) return false; p.objs.push_back(o); }
        else if (k == "thread") { int pr; in >> pr; p.proc.push_back(pr); p.th.push_back(std::vector<WOp>()); }
        else if (k == "op") { WOp w; std::string n; in >> n >> w.obj >> w.a.a >> w.a.b >> w.a.mo >> w.a.fmo; for (int i = 0; i < X_END; ++i) if (n == xname(i)) w.a.code = i;
            if (w.a.code == C_WAITFOR || w.a.code == C_WAITUNTIL) { std::string cl, d; in >> cl >> d >> w.tm >> w.a.t >> w.a.thr; for (int i = 0; i < K_COUNT; ++i) if (cl == clk_names()[i]) w.a.clk = i; for (int i = 0; i < D_COUNT; ++i) if (d == dur_names()[i]) w.a.dur = i; }
            if (p.th.empty()) return false; p.th.back().push_back(w); }
    }
    return !p.th.empty() && !p.objs.empty();
}
i64 unit(int d) { switch (d) { case D_US: return 1000; case D_MS: case D_INTMS: return 1000000; case D_S: return 1000000000ll; case D_HOURS: return 3600ll * 1000000000ll; default: return 1; } }


struct Rec { int th, idx; const WOp* w; bool begun, done; unsigned b, e, nb; i64 pb, pe, mb, me, cb, ce, dl; bool tinf; CRes r; std::vector<Rec*> blocked, open; Rec() : th(0), idx(0), w(0), begun(false), done(false), b(0), e(0), nb(0), pb(0), pe(0), mb(0), me(0), cb(0), ce(0), dl(0), tinf(false) {} };
struct Verdict { bool bad; std::string cls, why; Verdict() : bad(false) {} };
struct Run { eng::Result res; std::vector<std::vector<Rec> > recs; std::vector<std::vector<std::pair<unsigned, unsigned> > > hist; Verdict v; bool nontriv; Run() : nontriv(false) {} };
const i64 SLACK = 100000000, FAR = 4000000000000000000ll;

void set_bad(Run& R, const std::string& cls, const std::string& why) { // does this class decide the property being checked?
    bool mine = cls == "memory" || (mode == "wake" && (cls == "lost" || cls == "one")) || (mode == "value" && cls == "value") || (mode == "timed" && cls == "time") || ((mode == "ipc" || mode == "oom") && cls != "leak") || (mode == "pool" && (cls == "lost" || cls == "stuck" || cls == "one"));
    if (cls == "leak") mine = mode == "oom";
    if (R.v.bad || !mine) return; R.v.bad = true; R.v.cls = cls; R.v.why = why;
}
bool is_wait(int c) { return c >= C_WAIT && c <= C_WAITUNTIL; }
std::string opdesc(const Prog& p, const Rec& r) { const WOp& w = *r.w; std::ostringstream o; o << "thread " << r.th << " " << xname(w.a.code) << "(" << (is_wait(w.a.code) ? w.a.b : w.a.a) << ") on object " << w.obj << " (" << cobjs()[p.objs[w.obj].c]->kind << "<" << cobjs()[p.objs[w.obj].c]->type << ">)"; return o.str(); }

i64 limited(__int128 v) { return v > LLONG_MAX ? LLONG_MAX : v < LLONG_MIN ? LLONG_MIN : (i64)v; }
// the count that stands for the wanted time, base plus w.a.t ns, in the unit of the duration type; returns the time that count means, plus off
i64 timeout_arg(CArg& x, const WOp& w, int dur, i64 base, i64 off) {
    __int128 t = (__int128)base + w.a.t;
    if (dur == D_FSEC) { x.t = w.tm == T_MAX ? LLONG_MAX : w.tm == T_MIN ? LLONG_MIN : w.tm == T_EPOCH ? 0 : limited(t); double f = fsec(x.t); return f > 1e10 ? LLONG_MAX : f < -1e10 ? LLONG_MIN : limited((__int128)std::floor((long double)f * 1e9L) + off); }
    i64 lo = dur == D_INTMS ? INT_MIN : LLONG_MIN, hi = dur == D_INTMS ? INT_MAX : LLONG_MAX, u = unit(dur);
    if (w.tm == T_MAX) x.t = hi; else if (w.tm == T_MIN) x.t = lo; else if (w.tm == T_EPOCH) x.t = 0;
    else { __int128 c = dur == D_PS ? t * 1000 + (t & 1) : t / u; x.t = c > hi ? hi : c < lo ? lo : (i64)c; }
    if (dur == D_PS) return limited((__int128)(x.t / 1000 + (x.t % 1000 > 0)) + off);
    return limited((__int128)x.t * u + off);
}
// how many more readings of the throwing clock succeed in each thread's current wait, plus one; 0: all; -1: it has thrown
int* throw_in() { static int t[eng::MAXF]; return t; }
bool clock_fails() { int& n = throw_in()[eng::self()]; if (n <= 0 || --n) return false; n = -1; return true; }
void execute(const Prog& p, Run& R) {
    R = Run(); memset(ar[0], 0, AR); eng::clear_regions(); eng::add_region(ar[0], AR); eng::add_region(ar[1], AR); eng::add_alias(ar[1], AR, ar[0]); eng::set_start_time(p.mono, p.real);
    std::vector<char*> addr; for (size_t i = 0; i < p.objs.size(); ++i) { CObj* c = cobjs()[p.objs[i].c]; char* a = ar[0] + p.objs[i].slot; c->init(a, p.objs[i].init % c->dom); c->attach(a); if (c->ipc) c->attach(ar[1] + p.objs[i].slot); addr.push_back(a); }
    for (size_t i = 0; i < p.objs.size(); ++i) eng::add_watch(addr[i], cobjs()[p.objs[i].c]->vsize);
    R.recs.resize(p.th.size()); std::vector<std::function<void()> > bodies; for (size_t t = 0; t < p.th.size(); ++t) R.recs[t].resize(p.th[t].size());
    std::vector<Rec*> cur(p.th.size(), (Rec*)0);
    for (size_t t = 0; t < p.th.size(); ++t) bodies.push_back([&p, &R, &addr, &cur, t]() {
        for (size_t i = 0; i < p.th[t].size(); ++i) {
            const WOp& w = p.th[t][i]; Rec& r = R.recs[t][i]; r.th = (int)t; r.idx = (int)i; r.w = &w;
            if (w.a.code >= C_COUNT) { r.begun = true; if (w.a.code == X_YIELD) for (unsigned k = 0; k < w.a.a; ++k) eng::yield_point(); else eng::advance((i64)w.a.a * 1000); r.done = true; continue; }
            CObj* c = cobjs()[p.objs[w.obj].c]; char* a = addr[w.obj]; if (c->ipc && p.proc[t]) a = ar[1] + (a - ar[0]);
            CArg x = w.a; x.a %= 200; x.b %= c->dom;
            if (c->ipc) eng::forbid_library_state(true);
            eng::op_begin(xname(x.code)); r.begun = true; r.b = eng::step(); r.mb = eng::now(); r.pb = eng::advanced(); r.nb = eng::blocks_of((int)t); cur[t] = &r;
            if (x.code == C_WAITFOR) { r.cb = r.mb; r.dl = timeout_arg(x, w, x.dur, 0, r.cb); }
            else if (x.code == C_WAITUNTIL) {
                r.cb = clock_now(x.clk); int d = D_NS;
                if (x.clk == K_COARSE) d = D_S; else if (x.clk == K_SYSTEM && (x.dur == D_US || x.dur == D_S || x.dur == D_HOURS)) d = x.dur; else if (x.clk == K_STEADY && (x.dur == D_MS || x.dur == D_FSEC || x.dur == D_PS)) d = x.dur;
                r.dl = timeout_arg(x, w, d, r.cb, 0); throw_in()[t] = x.clk == K_THROW ? x.thr : 0;
            }
            if (x.code == C_N1) { eng::Quiet quiet; for (size_t q = 0; q < p.th.size(); ++q) if (cur[q] && !cur[q]->done && is_wait(cur[q]->w->a.code) && cur[q]->w->obj == w.obj ){ r.open.push_back(cur[q]); if (eng::is_blocked((int)q)) r.blocked.push_back(cur[q]); } }
            c->op(a, x, r.r); if (throw_in()[t] < 0 && !r.r.threw) eng::fail("the exception of the clock does not leave the wait"); throw_in()[t] = 0;
            r.me = eng::now(); r.pe = eng::advanced(); r.nb = eng::blocks_of((int)t) - r.nb; if (x.code == C_WAITFOR) r.ce = r.me; else if (x.code == C_WAITUNTIL) r.ce = x.clk == K_SYSTEM ? eng::max_real_since(r.mb) : x.clk == K_POSIX_TAI ? eng::max_real_since(r.mb) + 37000000000ll : clock_now(x.clk);
            eng::op_end(); r.e = eng::step(); r.done = true;
            if (c->ipc) eng::forbid_library_state(false);
        } });
    R.res = eng::run(bodies, p.cfg, &p.proc);
    for (size_t i = 0; i < p.objs.size(); ++i) { R.hist.push_back(std::vector<std::pair<unsigned, unsigned> >()); const std::vector<eng::Seen>& h = eng::history((int)i); char buf[64] __attribute__((aligned(16))); 
        for (size_t k = 0; k < h.size(); ++k) { memset(buf, 0, sizeof buf); memcpy(buf, h[k].bytes.data(), h[k].bytes.size()); unsigned v = cobjs()[p.objs[i].c]->peek(buf); if (v != BAD && (R.hist[i].empty() || R.hist[i].back().second != v)) R.hist[i].push_back(std::make_pair(h[k].step, v)); } }
}
typedef std::vector<std::pair<unsigned, unsigned> > Hist;
// step since which the value has been different from v until step e (0 if always), or ~0u if it equals v at e
unsigned left_at(const Hist& h, unsigned v, unsigned e) { unsigned at = 0; bool eq = false; for (size_t i = 0; i < h.size() && h[i].first <= e; ++i) { if (h[i].second == v) eq = true; else { if (eq) at = h[i].first; eq = false; } } return eq ? ~0u : at; }
bool held(const Hist& h, unsigned v, unsigned b, unsigned e) { for (size_t i = 0; i < h.size(); ++i) if (h[i].second == v && h[i].first <= e && (i + 1 == h.size() || h[i + 1].first >= b)) return true; return false; }

void judge(const Prog& p, Run& R) {
    const eng::Result& res = R.res; const eng::Cfg& cfg = p.cfg;
    if (!res.error.empty()) { set_bad(R, "memory", res.error); return; }
    i64 real_off = p.real - p.mono;
    for (size_t t = 0; t < R.recs.size(); ++t) for (size_t i = 0; i < R.recs[t].size(); ++i) {
        Rec& r = R.recs[t][i]; if (!r.begun || r.w->a.code >= C_COUNT) continue; const Hist& h = R.hist[r.w->obj]; CObj* c = cobjs()[p.objs[r.w->obj].c]; int code = r.w->a.code; unsigned old = r.w->a.b % c->dom;
        if (!is_wait(code)) { if (!r.done && (res.status != eng::S_LIVELOCK || res.steps - r.b >= cfg.max_steps)) set_bad(R, "stuck", opdesc(p, r) + " does not return: every thread " + (res.status == eng::S_LIVELOCK ? "runs but it makes no progress" : "is blocked")); continue; }
        bool timed = code != C_WAIT, jumpy = cfg.jumps && code == C_WAITUNTIL && (r.w->a.clk == K_SYSTEM || r.w->a.clk == K_POSIX_TAI);
        // deadline on the virtual monotonic clock
        __int128 dm = r.dl; if (code == C_WAITUNTIL) switch (r.w->a.clk) { case K_SYSTEM: dm -= real_off; break; case K_CUSTOM: dm -= 777000000000ll - 1000; break; case K_SLOW: dm = dm * 2 + 2; break; case K_COARSE: dm += COARSE_OFF + 1000000000; break; case K_POSIX_TAI: dm -= real_off + 37000000000ll; break; }
        bool far = dm > FAR; i64 dmono = far ? FAR : dm < -FAR ? -FAR : (i64)dm;
        for (size_t q = 0; q < R.recs.size(); ++q) for (size_t k = 0; k < R.recs[q].size(); ++k) { const Rec& n = R.recs[q][k]; if ((int)q != r.th && n.begun && n.w->a.code < C_COUNT && !is_wait(n.w->a.code) && n.w->a.code != C_LOAD && n.w->obj == r.w->obj && (!r.done || n.b < r.e) && n.e > r.b) R.nontriv = true; }
        if (timed && r.done && r.r.timeout) R.nontriv = true;
        if (r.done && r.r.threw) { R.nontriv = true; continue; }
        if (r.done) {
            if (r.r.v == BAD) set_bad(R, "value", opdesc(p, r) + " returned a value the object never had");
            else {
                if (!timed && r.r.v == old) set_bad(R, "value", opdesc(p, r) + " returned although the value it returns equals the awaited one");
                if (timed && r.r.timeout && r.r.v != old) set_bad(R, "time", opdesc(p, r) + " reports a timeout together with a different value");
                if (timed && !r.r.timeout && r.r.v == old) set_bad(R, "time", opdesc(p, r) + " returned the awaited value without reporting a timeout");
                bool own = false; if (cfg.tso) for (int k = 0; k < r.idx; ++k) { const Rec& n = R.recs[t][k]; if (n.w && n.w->a.code < C_COUNT && !is_wait(n.w->a.code) && n.w->obj == r.w->obj) own = true; } // may read its own delayed store
                if (!own && !held(h, r.r.v, r.b, r.e)) set_bad(R, "value", opdesc(p, r) + " returned " + std::to_string(r.r.v) + ", which the object did not hold during the call");
            }
            if (timed && r.r.timeout && r.ce < r.dl) set_bad(R, "time", opdesc(p, r) + " reports a timeout " + std::to_string((double)r.dl - (double)r.ce) + " ns before its deadline");
            if (timed && !cfg.tick && !jumpy) { i64 lim = dmono > r.mb ? dmono : r.mb; if (r.me > lim + SLACK + (r.pe - r.pb)) set_bad(R, "time", opdesc(p, r) + " returned " + std::to_string(r.me - lim) + " ns after " + (dmono > r.mb ? "its deadline" : "it was called with a deadline in the past")); }
            if (timed && !cfg.tick && r.r.v != BAD && r.r.v != old) { unsigned at = left_at(h, old, r.e); if (at != ~0u) {
                if (at <= r.b && r.me > r.mb + SLACK + (r.pe - r.pb)) set_bad(R, "value", opdesc(p, r) + " blocked although the value already differed when it was called");
                for (size_t q = 0; q < R.recs.size(); ++q) for (size_t k = 0; k < R.recs[q].size(); ++k) { const Rec& n = R.recs[q][k]; if (n.done && n.w->a.code == C_NALL && n.w->obj == r.w->obj && n.b >= at && n.e <= r.e && r.me > (n.me > r.mb ? n.me : r.mb) + SLACK + (r.pe - r.pb)) set_bad(R, "lost", opdesc(p, r) + " returned only " + std::to_string(r.me - n.me) + " ns after " + opdesc(p, n) + ", which came after the change"); } } }
            continue;
        }
        // not returned
        const bool ended = res.status != eng::S_LIVELOCK; const unsigned enough = cfg.max_steps; // threads that poll without end: has it had enough turns?
        if (!ended && res.steps - r.b < enough) continue;
        if (timed && !far && !jumpy && res.end_time > (dmono > r.mb ? dmono : r.mb) + SLACK + (res.passed - r.pb) && !cfg.tick) set_bad(R, "time", opdesc(p, r) + " does not return although its deadline has passed");
        if (timed && !far && !jumpy && !ended && !cfg.tick && !res.waiting[r.th]) { i64 lim = (dmono > r.mb ? dmono : r.mb) + (res.passed - r.pb); // the time may stand still at the deadline
            for (size_t k = 0; k < res.tlog.size(); ++k) if (res.tlog[k].first > r.b && (res.tlog[k].second > lim + SLACK || (res.tlog[k].second >= lim && res.end_time == res.tlog[k].second))) {
                if (res.steps - res.tlog[k].first >= enough) set_bad(R, "time", opdesc(p, r) + " does not return although its deadline passed " + std::to_string(res.steps - res.tlog[k].first) + " steps ago");
                break; } }
        if (timed && !far && res.status == eng::S_QUIESCENT) set_bad(R, "time", opdesc(p, r) + " blocks without a timeout");
        unsigned at = left_at(h, old, ~0u); if (at == ~0u) continue;
        if (at <= r.b) set_bad(R, "value", opdesc(p, r) + " does not return although the value differed when it was called and ever since");
        if (at <= r.b) set_bad(R, "lost", opdesc(p, r) + " does not return although the value differed when it was called and ever since");
        for (size_t q = 0; q < R.recs.size(); ++q) for (size_t k = 0; k < R.recs[q].size(); ++k) { const Rec& n = R.recs[q][k]; if (n.done && n.w->a.code == C_NALL && n.w->obj == r.w->obj && n.b >= at && (ended || res.steps - n.e >= enough)) set_bad(R, "lost", opdesc(p, r) + " never returns although the value changed and " + opdesc(p, n) + " came after the change"); }
    }
    // notify_one: each one issued after the last relevant change releases a blocked thread
    for (size_t o = 0; o < p.objs.size(); ++o) {
        unsigned since = 0; bool ok = true; unsigned dom = cobjs()[p.objs[o].c]->dom;
        for (size_t t = 0; t < R.recs.size(); ++t) for (size_t i = 0; i < R.recs[t].size(); ++i) { const Rec& r = R.recs[t][i]; if (!r.begun || r.w->a.code >= C_COUNT || r.w->obj != (int)o || !is_wait(r.w->a.code)) continue; unsigned at = left_at(R.hist[o], r.w->a.b % dom, ~0u); if (r.done && r.e < since) continue; if (at == ~0u) { if (!r.done) ok = false; else if (r.e > since) since = r.e + 1; } else if (at > since) since = at; }
        if (!ok) continue;
        const Rec* first = 0; unsigned n = 0; for (size_t t = 0; t < R.recs.size(); ++t) for (size_t i = 0; i < R.recs[t].size(); ++i) { const Rec& r = R.recs[t][i]; if (r.done && r.w->a.code == C_N1 && r.w->obj == (int)o && r.b >= since) { ++n; if (!first || r.b < first->b) first = &r; } }
        if (!first) continue; if (res.status == eng::S_LIVELOCK) { unsigned last = 0; for (size_t t = 0; t < R.recs.size(); ++t) for (size_t i = 0; i < R.recs[t].size(); ++i) { const Rec& r = R.recs[t][i]; if (r.done && r.w->a.code == C_N1 && r.w->obj == (int)o && r.e > last) last = r.e; } if (last < since) last = since; if (res.steps - last < cfg.max_steps) continue; }
        unsigned bl = 0, ret = 0; for (size_t i = 0; i < first->blocked.size(); ++i) ++bl; for (size_t i = 0; i < first->open.size(); ++i) if (first->open[i]->done && first->open[i]->nb) ++ret;
        if (bl && ret < (n < bl ? n : bl)) set_bad(R, "one", std::to_string(n) + " notify_one on object " + std::to_string(o) + " after the change, " + std::to_string(bl) + " threads were blocked on it, " + std::to_string(ret) + " returned");
    }
    if (res.status == eng::S_DONE && res.live_at_end) set_bad(R, "leak", std::to_string(res.live_at_end) + " blocks of memory are not released at process exit");
    size_t bound = p.objs.size() * 2 + p.th.size() + 1; if (res.peak_allocs > bound) set_bad(R, "leak", std::to_string(res.peak_allocs) + " blocks of memory are held at once for waiting on " + std::to_string(p.objs.size()) + " objects by " + std::to_string(p.th.size()) + " threads");
    for (size_t o = 0; o < p.objs.size(); ++o) { CObj* c = cobjs()[p.objs[o].c]; if (c->peek(ar[0] + p.objs[o].slot) == BAD && res.status != eng::S_LIVELOCK) set_bad(R, "stuck", "object " + std::to_string(o) + " holds a value that was never written to it"); }
}

// ---------------------------------------------------------------- generation
const int casmo[][2] = { { 0, 0 }, { 3, 0 }, { 2, 2 }, { 4, 2 }, { 5, 5 }, { 5, 2 }, { 4, 0 }, { 5, 0 } };
WOp change(Rng& r, int obj, const CObj* c, unsigned from, unsigned to) {
    WOp w; w.obj = obj; w.a.a = to; w.a.b = from; static const int st[] = { 0, 3, 5 };
    if (c->flag) { w.a.code = to & 1 ? C_XCHG : C_STORE; w.a.mo = st[r.below(3)]; return w; }
    switch (r.below(c->arith && to > from ? 5 : 4)) {
    case 0: w.a.code = C_XCHG; w.a.mo = (int)r.below(6); break;
    case 1: { w.a.code = C_CAS; int k = (int)r.below(8); w.a.mo = casmo[k][0]; w.a.fmo = casmo[k][1]; break; }
    case 4: w.a.code = C_ADD; w.a.a = to - from; w.a.mo = (int)r.below(6); break;
    default: w.a.code = C_STORE; w.a.mo = st[r.below(3)]; }
    return w;
}
WOp notify(Rng& r, int obj, bool one) { (void)r; WOp w; w.obj = obj; w.a.code = one ? C_N1 : C_NALL; return w; }
void timing(Rng& r, WOp& w, bool farish, int startish) {
    (void)startish; w.tm = T_REL;
    if (w.a.code == C_WAITFOR) w.a.dur = r.chance(1, 2) ? D_NS : (int)r.below(D_COUNT); else { w.a.clk = (int)r.below(K_COUNT); if (r.chance(2, 3)) w.a.thr = 1 + (unsigned)r.below(3); w.a.dur = r.chance(1, 2) ? D_NS : (int)r.below(D_COUNT); }
    if (farish) { w.a.t = 3600000000000ll * (1 + (i64)r.below(100)); return; }
    static const i64 k[] = { 0, 1, -1, 999, 1000, 1000000, 999999999, 1000000000, 1000000001, 2500000000ll, -1000000000, 60000000000ll, -3600000000000ll, 5000000, 86400000000000ll, 3600000000000000ll, 123456789 };
    w.a.t = k[r.below(sizeof k / sizeof *k)]; if (r.chance(1, 3)) w.a.t = (i64)r.below(4000000000ull) - 500000000; if (r.chance(1, 8)) w.a.t += (i64)r.below(2000) - 1000;
    if (r.chance(1, 14)) w.tm = 1 + (int)r.below(3);
}
WOp waiting(Rng& r, int obj, unsigned old, unsigned timed_pct, bool farish) {
    WOp w; w.obj = obj; w.a.b = old; static const int ld[] = { 0, 1, 2, 5 }; w.a.mo = ld[r.below(4)]; w.a.code = C_WAIT;
    if (r.below(100) < timed_pct) { w.a.code = r.below(2) ? C_WAITFOR : C_WAITUNTIL; timing(r, w, farish, 0); } return w;
}
void pause(Rng& r, std::vector<WOp>& t) { if (r.chance(1, 2)) { WOp w; w.a.code = X_YIELD; w.a.a = 1 + (unsigned)r.below(8); t.push_back(w); } }
std::vector<int> usable;
#ifdef VF_BIG
const unsigned CROWD_NUM = 2, CROWD_DEN = 3;
#else
const unsigned CROWD_NUM = 1, CROWD_DEN = 60;
#endif
// many objects waited on at once: the library's tables grow, shrink and are searched beyond their first entries
void crowd(Rng& r, Prog& p, bool ipc, unsigned tp, bool farish) {
    unsigned cap = eng::MAXF - 2, nobj = r.chance(1, 4) ? 2 + (unsigned)r.below(cap - 1) : cap / 2 + 1 + (unsigned)r.below(cap / 2), nch = 1 + (unsigned)r.below(2); p.cfg.max_steps = 12000;
    if (r.chance(1, 3)) p.cfg.failmask = p.cfg.failmask ? 1ull << r.below(40) : 0;
    unsigned slot = 64 * (unsigned)r.below(64), gap = r.chance(1, 2) ? 0 : 8 * (unsigned)r.below(80); int base = usable[r.below(usable.size())]; bool mixed = r.chance(1, 3);
    for (unsigned i = 0; i < nobj; ++i) { WObj o; o.c = mixed ? usable[r.below(usable.size())] : base; CObj* d = cobjs()[o.c]; o.init = (unsigned)r.below(2); slot = (slot + (unsigned)d->align - 1) / (unsigned)d->align * (unsigned)d->align; o.slot = slot; slot += (unsigned)d->size + gap; p.objs.push_back(o); }
    std::vector<int> perm; for (unsigned i = 0; i < nobj; ++i) perm.push_back((int)i); for (unsigned i = nobj; i > 1; --i) std::swap(perm[i - 1], perm[r.below(i)]);
    bool again = r.chance(1, 2); unsigned nw = r.chance(1, 3) ? nobj + (unsigned)r.below(eng::MAXF - nch - nobj + 1) : nobj; if (nw + nch > eng::MAXF) nw = eng::MAXF - nch;
    std::vector<std::vector<WOp> > ch(nch);
    for (unsigned k = 0; k < nch; ++k) { WOp w; w.a.code = X_YIELD; w.a.a = (unsigned)r.below(r.chance(1, 3) ? 6 : 50); ch[k].push_back(w); }
    std::vector<unsigned> other(nobj);
    for (unsigned i = 0; i < nobj; ++i) { const WObj& o = p.objs[i]; CObj* d = cobjs()[o.c]; other[i] = d->dom == 2 ? 1 - o.init : o.init + 1 + (unsigned)r.below(2); }
    std::vector<unsigned> owner(nobj); for (unsigned i = 0; i < nobj; ++i) owner[i] = (unsigned)r.below(nch);
    for (int round = 0; round < (again ? 2 : 1); ++round) for (unsigned i = 0; i < nobj; ++i) { int ob = perm[i]; CObj* d = cobjs()[p.objs[ob].c]; std::vector<WOp>& v = ch[owner[ob]]; unsigned init = p.objs[ob].init;
        v.push_back(change(r, ob, d, round ? other[ob] : init, round ? init : other[ob])); v.push_back(notify(r, ob, r.chance(1, 4))); if (r.chance(1, 4)) pause(r, v); if (round == 0 && i + 1 == nobj) { WOp w; w.a.code = X_YIELD; w.a.a = (unsigned)r.below(50); v.push_back(w); } }
    for (unsigned i = 0; i < nw; ++i) { int ob = i < nobj ? (int)i : (int)r.below(nobj); std::vector<WOp> v; v.push_back(waiting(r, ob, p.objs[ob].init, tp / 2, farish)); if (again && r.chance(3, 4)) { int o2 = r.chance(2, 3) ? ob : (int)r.below(nobj); v.push_back(waiting(r, o2, other[o2], tp / 2, farish)); } p.th.push_back(v); p.proc.push_back(ipc ? (int)r.below(2) : 0); }
    for (unsigned k = 0; k < nch; ++k) { p.th.push_back(ch[k]); p.proc.push_back(ipc ? (int)r.below(2) : 0); }
}
Prog gen(u64 seed) {
    Rng r(seed); Prog p; eng::Cfg& c = p.cfg; c = eng::Cfg::random(r.next()); c.max_steps = 5000;
    bool timed = mode == "timed" || (mode == "ub" && r.chance(1, 3)), ipc = mode == "ipc", oom = mode == "oom" || (mode == "ub" && r.chance(1, 2)), pool = mode == "pool" || mode == "ub", value = mode == "value";
    p.mono = 1000000000000ll + (r.chance(1, 3) ? 999999990 : (i64)r.below(1000000000)); p.real = 1600000000000000000ll + (i64)r.below(2000000000);
    if (timed && r.chance(1, 10)) p.mono = (i64)r.below(3000000000ull);
    c.races = pool || oom || ipc; if (mode == "ub" && timed) pool = oom = false;
#ifdef VF_TSO
    c.tso = r.chance(1, 2); c.scheme = (int)r.below(2);
#endif
    c.spurious = value || timed ? (unsigned)r.below(5) : r.chance(1, 4) ? (unsigned)r.below(4) : 0;
    if (timed && r.chance(1, 3)) { c.tick = 3 + (unsigned)r.below(30); c.tickmax = r.below(2) ? 1000000 : 1000000000; } if (timed && r.chance(1, 4)) c.jumps = true;
    if (oom) { c.failall = r.chance(1, 5); c.failmask = r.chance(1, 6) ? 0 : r.chance(1, 2) ? 1ull << r.below(8) : r.next() & r.next(); }
    if (r.chance(CROWD_NUM, CROWD_DEN)) { crowd(r, p, ipc, timed ? 85 : oom ? 40 : 25, mode == "wake" || pool || (!timed && r.chance(1, 2)) || ipc); return p; }
    unsigned nobj = 1 + (unsigned)r.below(pool ? 4 : value ? 3 : 2); if (pool && nobj < 2) nobj = 2;
    unsigned slot = 64 * (unsigned)r.below(64);
    for (unsigned i = 0; i < nobj; ++i) { WObj o; o.c = usable[r.below(usable.size())]; if (i && r.chance(1, 3)) o.c = p.objs[0].c; CObj* d = cobjs()[o.c]; o.init = (unsigned)r.below(2); slot = (slot + (unsigned)d->align - 1) / (unsigned)d->align * (unsigned)d->align; o.slot = slot; slot += (unsigned)d->size; if (r.chance(1, 3)) slot += 64 * (unsigned)r.below(100); p.objs.push_back(o); }
    unsigned nt = 2 + (unsigned)r.below(r.chance(1, 4) ? 5 : 3); unsigned tp = timed ? 85 : oom ? 40 : 25; bool farish = mode == "wake" || pool || (!timed && r.chance(1, 2)) || ipc;
    for (unsigned t = 0; t < nt; ++t) {
        std::vector<WOp> v; p.proc.push_back(ipc ? (int)(r.below(4) != 0 ? t & 1 : r.below(2)) : 0);
        unsigned role = t == 0 ? 0 : t == 1 ? 1 : (unsigned)r.below(3);
        unsigned rounds = 1 + (unsigned)r.below(role == 0 ? 3 : 2); if (oom && r.chance(1, 3)) rounds += (unsigned)r.below(8);
        for (unsigned k = 0; k < rounds; ++k) {
            int ob = (int)r.below(nobj); if (r.chance(1, 2)) ob = 0; CObj* d = cobjs()[p.objs[ob].c]; unsigned init = p.objs[ob].init, other = d->dom == 2 ? 1 - init : init + 1 + (unsigned)r.below(2);
            if (role == 0) { pause(r, v); v.push_back(waiting(r, ob, r.chance(4, 5) ? (k && r.chance(1, 2) ? other : init) : (unsigned)r.below(3), tp, farish)); }
            else if (role == 1) {
                pause(r, v);
                if (value && r.chance(1, 3)) { v.push_back(notify(r, (int)r.below(nobj), r.below(2) != 0)); continue; }
                if (timed && r.chance(1, 2)) { WOp w; w.a.code = X_PASS; w.a.a = r.below(2) ? (unsigned)r.below(2000000) : (unsigned)r.below(3000); v.push_back(w); }
                unsigned from = k ? other : init, to = k && r.chance(2, 3) ? init : other; if (k && d->dom > 2 && r.chance(1, 2)) to = init + 3; v.push_back(change(r, ob, d, from, to));
                if (value && r.chance(1, 3)) v.push_back(change(r, ob, d, other, init));
                if (r.chance(1, 8)) pause(r, v);
                if (!r.chance(1, 10)) { bool one = r.chance(2, 5); v.push_back(notify(r, ob, one)); if (one && r.chance(1, 3)) v.push_back(notify(r, ob, true)); }
            } else switch (r.below(5)) {
                case 0: v.push_back(waiting(r, ob, init, tp, farish)); break;
                case 1: v.push_back(change(r, ob, d, init, other)); break;
                case 2: v.push_back(notify(r, ob, r.below(2) != 0)); break;
                case 3: { WOp w; w.obj = ob; w.a.code = C_LOAD; w.a.mo = 5; v.push_back(w); break; }
                default: v.push_back(change(r, ob, d, other, init)); if (r.below(2)) v.push_back(notify(r, ob, false)); }
        }
        if (role == 1 && r.chance(1, 2) && !value) for (unsigned o = 0; o < nobj; ++o) { CObj* d = cobjs()[p.objs[o].c]; unsigned fin = d->dom == 2 ? (unsigned)r.below(2) : 7; if (d->dom > 2) { WOp w; w.obj = (int)o; w.a.code = C_STORE; w.a.a = fin; w.a.mo = 5; v.push_back(w); } else v.push_back(change(r, (int)o, d, 1 - fin, fin)); v.push_back(notify(r, (int)o, false)); }
        p.th.push_back(v);
    }
    return p;
}
bool check(const Prog& p, Run& R) { Crash::set(to_text(p)); execute(p, R); judge(p, R); return !R.v.bad; }
bool still(Prog& p, const std::string& cls, unsigned tries) { u64 s0 = p.cfg.seed; for (unsigned k = 0; k < tries; ++k) { p.cfg.seed = k ? mix(s0, k) : s0; Run R; if (!check(p, R) && R.v.cls == cls) return true; } p.cfg.seed = s0; return false; }
Prog shrink(Prog p, const std::string& cls) {
    bool progress = true; int rounds = 0; double t0 = wall();
    while (progress && rounds++ < 12 && wall() - t0 < 40) {
        progress = false; alarm(60);
        for (size_t t = 0; t < p.th.size() && p.th.size() > 1;) { Prog q = p; q.th.erase(q.th.begin() + t); q.proc.erase(q.proc.begin() + t); if (still(q, cls, 60)) { p = q; progress = true; } else ++t; }
        for (size_t t = 0; t < p.th.size(); ++t) for (size_t i = 0; i < p.th[t].size();) { Prog q = p; q.th[t].erase(q.th[t].begin() + i); if (still(q, cls, 60)) { p = q; progress = true; } else ++i; }
        for (size_t o = 0; o < p.objs.size() && p.objs.size() > 1;) { bool used = false; for (size_t t = 0; t < p.th.size(); ++t) for (size_t i = 0; i < p.th[t].size(); ++i) if (p.th[t][i].a.code < C_COUNT && p.th[t][i].obj == (int)o) used = true; if (used) { ++o; continue; }
            Prog q = p; q.objs.erase(q.objs.begin() + o); for (size_t t = 0; t < q.th.size(); ++t) for (size_t i = 0; i < q.th[t].size(); ++i) if (q.th[t][i].obj > (int)o) --q.th[t][i].obj; if (still(q, cls, 20)) { p = q; progress = true; } else ++o; }
        for (int k = 0; k < 6; ++k) { Prog q = p; switch (k) { case 0: q.cfg.spurious = 0; break; case 1: q.cfg.tick = 0; break; case 2: q.cfg.jumps = false; break; case 3: q.cfg.tso = false; break; case 4: q.cfg.failmask &= q.cfg.failmask - 1; break; case 5: q.cfg.failall = false; break; }
            if (to_text(q) != to_text(p) && still(q, cls, 60)) { p = q; progress = true; } }
        for (size_t t = 0; t < p.th.size(); ++t) for (size_t i = 0; i < p.th[t].size(); ++i) if (p.th[t][i].a.code == X_YIELD && p.th[t][i].a.a > 1) { Prog q = p; q.th[t][i].a.a = 1; if (still(q, cls, 30)) { p = q; progress = true; } }
    }
    return p;
}
}
int main(int argc, char** argv) {
    Options o; o.parse(argc, argv); Crash::install(o); Stats st; mode = o.mode.empty() ? "wake" : o.mode; setup_arena();
    clock_source().mono = eng::now; clock_source().real = eng::now_real; clock_source().fails = clock_fails;
    std::sort(cobjs().begin(), cobjs().end(), cobj_less);
    for (size_t i = 0; i < cobjs().size(); ++i) if (cobjs()[i]->ipc == (mode == "ipc") || (cobjs()[i]->ipc && (mode == "timed" || mode == "value" || mode == "wake"))) usable.push_back((int)i);
    if (mode == "pool" || mode == "oom" || mode == "ub") { std::vector<int> v; for (size_t i = 0; i < usable.size(); ++i) { v.push_back(usable[i]); if (!cobjs()[usable[i]]->native) { v.push_back(usable[i]); v.push_back(usable[i]); } } usable = v; }
    if (usable.empty()) { st.write(o.out); return 0; }
    if (!o.replay.empty()) {
        Prog p; if (!from_text(slurp(o.replay), p)) { fprintf(stderr, "type or kind of the case is not in this build\n"); return 3; }
        Run R; alarm(25); bool ok = check(p, R); if (o.verbose) printf("status %d steps %u blocked %zu\n", R.res.status, R.res.steps, R.res.blocked.size());
        if (ok) { printf("holds\n"); return 0; } printf("%s\n", R.v.why.c_str()); return EXIT_VIOLATION;
    }
    double t0 = wall();
    for (u64 i = 0; i < o.cases; ++i) {
        if ((i & 63) == 0) { alarm(25); if (wall() - t0 > o.budget) { st.budget_hit = true; break; } }
        Prog p = gen(mix(o.seed, i)); ++st.evaluations; Run R; bool ok = check(p, R);
        st.cls(R.res.status == eng::S_DONE ? "end:completed" : R.res.status == eng::S_QUIESCENT ? "end:blocked" : "end:polling");
        if (R.res.blocks) st.cls("with blocking"); if (R.res.requeues) st.cls("with requeue"); if (R.res.spurious) st.cls("with spurious wakeup"); if (R.res.timeouts) st.cls("with timeout"); if (R.res.failed_allocs) st.cls("with failed allocation"); for (size_t t = 0; t < R.recs.size(); ++t) for (size_t k = 0; k < R.recs[t].size(); ++k) if (R.recs[t][k].r.threw) { st.cls("with an exception from a clock"); t = R.recs.size() - 1; break; } if (p.cfg.tso) st.cls("with delayed stores");
        if (R.nontriv) { Prog q = p; q.cfg = eng::Cfg(); std::string t = to_text(q); u64 h = p.cfg.seed; for (size_t k = 0; k < t.size(); ++k) h = h * 1099511628211ull + (unsigned char)t[k]; st.distinct.insert(h); if (st.samples.size() < 2 && i % 5 == 2) st.sample(to_text(p)); }
        if (!ok) { std::string cls = R.v.cls; Prog s = shrink(p, cls); Run Q; check(s, Q); if (!Q.v.bad) { s = p; check(s, Q); } st.failure = Q.v.why; spit(o.replay_out, to_text(s)); st.write(o.out); fprintf(stderr, "%s\n", Q.v.why.c_str()); return EXIT_VIOLATION; }
    }
    st.write(o.out); return 0;
}
