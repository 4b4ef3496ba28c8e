// Typed operations on one object from several threads, with the reference model of the sequential harness and a search for
// a one-at-a-time execution that explains the results. Included by seqfw.hpp when VF_CONC is defined.
#ifndef VERIF_CONC_HPP
#define VERIF_CONC_HPP
#include "seqiface.hpp"
#if defined(VF_CONC)
#include <boost/atomic/fences.hpp>
#endif
namespace vf {
struct CProg { u128 init; std::vector<std::vector<Op> > th; };
struct Conc {
    std::vector<int> ops; std::string type, kind; unsigned bits; bool is_ref, is_fp, lock_free; size_t size, align;
    Conc() : bits(0), is_ref(false), is_fp(false), lock_free(true), size(0), align(0) {}
    virtual ~Conc() {}
    // a Job is one execution: object at mem, arguments prepared, a handle for every thread
    struct Job { virtual ~Job() {} virtual void start(void* mem) = 0; virtual void exec(int th, int i) = 0; virtual bool explain(std::string& why) = 0; virtual bool contended() = 0;
        // the model, one operation at a time: number of the state after operation i of thread th in state st, or -1 if it cannot
        // happen there; known: it has to give the recorded result; spurious: a weak compare-exchange fails
        virtual int first() = 0; virtual int next(int st, int th, int i, bool known, bool spurious, bool& wrote) = 0; virtual bool is_final(int st) = 0; virtual std::string final_str() = 0; virtual void notify(int th, bool all) = 0; virtual std::string describe(int th, int i) = 0; };
    virtual Job* job(const CProg& p) = 0;
};
struct Fences { void (*thread)(int); void (*signal)(int); }; inline Fences& fences() { static Fences f = { 0, 0 }; return f; }
inline bool is_cas(int c) { return c >= O_CAS_S1 && c <= O_CAS_W2; } inline bool is_weak(int c) { return c == O_CAS_W1 || c == O_CAS_W2; }
inline std::vector<Conc*>& concs() { static std::vector<Conc*>* r = new std::vector<Conc*>; return *r; }

#if defined(VF_CONC)
inline u128 fp_plain(u128 v, bool fp) { return fp ? ((((v >> 3) & 0xfff) * 12 + 7) << 3) | (v & 7) | (((v >> 4) & 0x1fff) << 48) : v; }
template <class T, class K> struct ConcT : Conc {
    typedef TT<T> M; typedef Kind<T, K> KD; typedef typename KD::obj obj;
    ConcT() { std::vector<int> v; ops_of(v, typename M::cat()); for (size_t i = 0; i < v.size(); ++i) if (v[i] != O_VALUE) ops.push_back(v[i]);
        type = M::name(); kind = K::name(); bits = M::bits; is_fp = std::is_same<typename M::cat, CatFP>::value; size = KD::size; align = KD::align; lock_free = obj::is_always_lock_free; is_ref = std::is_same<K, KR>::value || std::is_same<K, KIR>::value; }
    struct Rec { T a, b0, b; Res<T> r; };
    struct J : Job {
        CProg p; T init, fin; std::vector<std::vector<Rec> > rec; std::vector<obj*> h; bool ref, fp; std::string tn;
        J(const CProg& q, const Conc& c) : p(q), init(), fin(), ref(c.is_ref), fp(c.is_fp), tn(c.kind + "<" + c.type + ">"), have_fin(false) { rec.resize(p.th.size());
            init = M::from(fp_plain(p.init, fp)); for (size_t t = 0; t < p.th.size(); ++t) { rec[t].resize(p.th[t].size()); for (size_t i = 0; i < p.th[t].size(); ++i) { const Op& o = p.th[t][i]; Rec& r = rec[t][i]; r.a = pick_operand<T>(o.asel, fp_plain(o.a, fp), init); r.b0 = pick_operand<T>(o.bsel, fp_plain(o.b, fp), init); } } }
        ~J() { drop(); }
        void drop() { if (ref) for (size_t i = 0; i < h.size(); ++i) KD::destroy(h[i]); h.clear(); }
        void start(void* mem) { drop(); h.push_back(KD::create(mem, init)); for (size_t t = 0; t < p.th.size(); ++t) h.push_back(ref ? KD::create2(mem, init) : h[0]);
            for (size_t t = 0; t < rec.size(); ++t) for (size_t i = 0; i < rec[t].size(); ++i) { rec[t][i].b = rec[t][i].b0; rec[t][i].r = Res<T>(); } }
        void exec(int t, int i) { Rec& r = rec[t][i]; Apply<T, obj>::run(*h[t + 1], p.th[t][i], r.a, r.b, r.r, typename M::cat()); }
        static bool fits(const Res<T>& w, const Res<T>& g, bool weak) {
            if (w.hv && !M::eq(w.v, g.v)) return false; if (w.hb && w.b != g.b && !(weak && w.b && !g.b)) return false; if (w.he && !M::eq(w.e, g.e)) return false; return true; }
        bool contended() { unsigned n = 0; for (size_t t = 0; t < p.th.size(); ++t) { bool w = false; for (size_t i = 0; i < p.th[t].size(); ++i) if (p.th[t][i].code != O_LOAD && p.th[t][i].code != O_CONV) w = true; n += w; } return n >= 2; }
        std::vector<T> states; std::map<std::string, int> ids; bool have_fin;
        int intern(const T& v) { std::string k = M::str(v); std::map<std::string, int>::iterator i = ids.find(k); if (i != ids.end()) return i->second; int n = (int)states.size(); states.push_back(v); ids[k] = n; return n; }
        int first() { return intern(init); }
        int next(int st, int t, int i, bool known, bool spurious, bool& wrote) {
            const Op& o = p.th[t][i]; const Rec& r = rec[t][i]; T s = states[st]; Res<T> w; Model<T>::run(o, s, r.a, r.b0, w, typename M::cat()); wrote = o.code != O_LOAD && o.code != O_CONV && o.code != O_WAITDIFF && o.code != O_WAITFOR;
            if (o.code == O_WAITDIFF && same(r.b0, T(states[st]))) return -1;
            if (o.code == O_WAITFOR) { bool eq = same(r.b0, T(states[st])); if (known && r.r.b != eq) return -1; w.b = eq; }
            if (is_cas(o.code)) { bool weak = is_weak(o.code); if (known) { if (!fits(w, r.r, weak)) return -1; if (w.b && !r.r.b) { s = states[st]; w.b = false; } } else if (weak && w.b && spurious) { s = states[st]; w.b = false; } wrote = w.b; }
            else if (known && !fits(w, r.r, false)) return -1;
            return intern(s); }
        bool is_final(int st) { fin = h[0]->load(boost::memory_order_seq_cst); return M::eq(states[st], fin); }
        std::string final_str() { fin = h[0]->load(boost::memory_order_seq_cst); return M::str(fin); }
        void notify(int t, bool all) { if (all) h[t + 1]->notify_all(); else h[t + 1]->notify_one(); }
        std::string describe(int t, int i) { const Op& op = p.th[t][i]; const Rec& r = rec[t][i]; std::ostringstream s; s << op_names()[op.code] << "(" << (op.csel ? "const " + hex128(const_operand(op.csel)) : M::str(r.a)) << ")"; if (is_cas(op.code)) s << " expecting " << M::str(r.b0); if (op.code == O_WAITDIFF || op.code == O_WAITFOR) s << " from " << M::str(r.b0); s << " ->"; if (r.r.hv) s << " " << M::str(r.r.v); if (r.r.hb) s << (r.r.b ? " true" : " false"); if (r.r.he) s << " seen " << M::str(r.r.e); return s.str(); }
        std::set<std::string> dead; 
        bool go(std::vector<unsigned char>& pos, const T& st) {
            bool end = true; for (size_t t = 0; t < pos.size(); ++t) if (pos[t] < p.th[t].size()) end = false;
            if (end) return M::eq(st, fin);
            std::string key((const char*)pos.data(), pos.size()); key += M::str(st); if (dead.count(key)) return false;
            for (size_t t = 0; t < pos.size(); ++t) if (pos[t] < p.th[t].size()) {
                const Op& o = p.th[t][pos[t]]; const Rec& r = rec[t][pos[t]]; T s = st; Res<T> w; Model<T>::run(o, s, r.a, r.b0, w, typename M::cat()); bool weak = o.code == O_CAS_W1 || o.code == O_CAS_W2;
                if (w.hv != r.r.hv || w.hb != r.r.hb || w.he != r.r.he || !fits(w, r.r, weak)) continue;
                if (weak && w.b && !r.r.b) s = st;
                ++pos[t]; bool ok = go(pos, s); --pos[t]; if (ok) return true; }
            dead.insert(key); return false; }
        bool explain(std::string& why) {
            obj& o = *h[0]; fin = o.load(boost::memory_order_seq_cst); dead.clear(); std::vector<unsigned char> pos(p.th.size(), 0); if (go(pos, init)) return true;
            std::ostringstream s; s << tn << " starting at " << M::str(init) << ": no one-at-a-time order explains";
            for (size_t t = 0; t < p.th.size(); ++t) { s << "; thread " << t << ":"; for (size_t i = 0; i < p.th[t].size(); ++i) s << " " << describe((int)t, (int)i); }
            s << "; final value " << M::str(fin); why = s.str(); return false; }
    };
    Job* job(const CProg& p) { return new J(p, *this); }
};
template <class F> struct ConcFlag : Conc {
    ConcFlag(const char* k) { ops.push_back(O_TAS); ops.push_back(O_CLEAR); ops.push_back(O_TEST); ops.push_back(O_WAITDIFF); ops.push_back(O_WAITFOR); type = "flag"; kind = k; bits = 1; size = sizeof(F); align = alignof(F); lock_free = F::is_always_lock_free; }
    struct J : Job {
        CProg p; std::vector<std::vector<char> > r; F* f; bool fin; J(const CProg& q) : p(q), f(0), fin(false) { r.resize(p.th.size()); for (size_t t = 0; t < r.size(); ++t) r[t].resize(p.th[t].size()); }
        void start(void* mem) { f = new (mem) F(); if (p.init & 1) f->test_and_set(); }
        void exec(int t, int i) { const Op& op = p.th[t][i]; F& o = *f; bool got = false; bool tmo = false;
            switch (op.code) { case O_TAS: VF_XN(got =, test_and_set); break;
            case O_CLEAR: switch (op.ord) { case 0: o.clear(boost::memory_order_relaxed); break; case 2: o.clear(VF_RT); break; case 3: o.clear(boost::memory_order_release); break; default: o.clear(); } break;
            case O_WAITDIFF: switch (op.ord) { case 0: got = o.wait((op.b & 1) != 0, boost::memory_order_relaxed); break; case 3: got = o.wait((op.b & 1) != 0, boost::memory_order_acquire); break; default: got = o.wait((op.b & 1) != 0); } break;
            case O_WAITFOR: { boost::atomics::wait_result<bool> w; bool b = (op.b & 1) != 0; switch (op.ord) { case 0: w = o.wait_until(b, std::chrono::steady_clock::time_point()); break; case 1: w = o.wait_for(b, std::chrono::seconds(1000)); break; case 2: w = o.wait_for(b, std::chrono::milliseconds(500000), VF_RT); break;
                case 3: w = o.wait_until(b, std::chrono::system_clock::now() + std::chrono::seconds(1000), VF_RT); break; default: w = o.wait_until(b, OwnClock::now() + std::chrono::seconds(1000), VF_RT); break; } got = w.value; tmo = !!w.timeout; break; }
            default: switch (op.ord) { case 0: got = o.test(boost::memory_order_relaxed); break; case 2: got = o.test(VF_RT); break; case 3: got = o.test(boost::memory_order_acquire); break; default: got = o.test(); } }
            r[t][i] = got; (void)tmo; }
        int first() { return (int)(p.init & 1); }
        int next(int st, int t, int i, bool known, bool, bool& wrote) { const Op& o = p.th[t][i]; wrote = o.code == O_TAS || o.code == O_CLEAR; if (known && o.code != O_CLEAR && (r[t][i] != 0) != (st != 0)) return -1; if (o.code == O_WAITDIFF && ((o.b & 1) != 0) == (st != 0)) return -1; return o.code == O_TAS ? 1 : o.code == O_CLEAR ? 0 : st; }
        bool is_final(int st) { return f->test() == (st != 0); }
        std::string final_str() { return f->test() ? "1" : "0"; }
        void notify(int, bool all) { if (all) f->notify_all(); else f->notify_one(); }
        std::string describe(int t, int i) { return std::string(op_names()[p.th[t][i].code]) + " -> " + (r[t][i] ? "1" : "0"); }
        bool contended() { return p.th.size() > 1; }
        bool go(std::vector<unsigned char>& pos, bool st) { bool end = true;
            for (size_t t = 0; t < pos.size(); ++t) if (pos[t] < p.th[t].size()) { end = false; int c = p.th[t][pos[t]].code; bool got = r[t][pos[t]] != 0; if (c != O_CLEAR && got != st) continue; ++pos[t]; bool ok = go(pos, c == O_TAS ? true : c == O_CLEAR ? false : st); --pos[t]; if (ok) return true; }
            return end && st == fin; }
        bool explain(std::string& why) { fin = f->test(); std::vector<unsigned char> pos(p.th.size(), 0); if (go(pos, (p.init & 1) != 0)) return true; std::ostringstream s; s << "flag starting " << ((p.init & 1) ? "set" : "clear") << ": no one-at-a-time order explains"; for (size_t t = 0; t < p.th.size(); ++t) { s << "; thread " << t << ":"; for (size_t i = 0; i < p.th[t].size(); ++i) s << " " << op_names()[p.th[t][i].code] << "->" << (r[t][i] ? 1 : 0); } s << "; finally " << fin; why = s.str(); return false; }
    };
    Job* job(const CProg& p) { return new J(p); }
};
struct RegFences { static void th(int m) { switch (m) { case 6: boost::atomic_thread_fence(boost::memory_order_seq_cst); break; case 7: boost::atomic_thread_fence(boost::memory_order_acquire); break; case 8: boost::atomic_thread_fence(boost::memory_order_release); break; default: boost::atomic_thread_fence(vf_order(m)); } } static void sg(int m) { boost::atomic_signal_fence(vf_order(m)); } RegFences() { fences().thread = th; fences().signal = sg; } };
static RegFences reg_fences;
template <class T, bool LF> struct CRegIpc { static void a() {} static void r() {} };
template <class T> struct CRegIpc<T, true> { static void a() { concs().push_back(new ConcT<T, KIA>()); } static void r() { concs().push_back(new ConcT<T, KIR>()); } };
template <class T> struct CReg {
    CReg() { concs().push_back(new ConcT<T, KA>()); concs().push_back(new ConcT<T, KR>());
#if defined(VF_CONC_IPC)
        CRegIpc<T, boost::ipc_atomic<T>::is_always_lock_free>::a(); CRegIpc<T, boost::ipc_atomic_ref<T>::is_always_lock_free>::r();
#endif
    } };
#endif
}
#endif
