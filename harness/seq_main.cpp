// Generator, shrinker and main of the sequential differential harness. Uses nothing of Boost.Atomic itself.
#include "seqiface.hpp"
using namespace vf;
static std::string to_text(const Case& c) {
    Runner* r = runners()[c.runner]; std::ostringstream o;
    o << "type " << r->type << "\nkind " << r->kind << "\ninit " << hex128(c.init) << "\nplace " << c.place << "\n";
    for (size_t i = 0; i < c.ops.size(); ++i) { const Op& p = c.ops[i]; o << "op " << op_names()[p.code] << " " << p.ord << " " << p.csel << " " << sel_names()[p.asel] << " " << hex128(p.a) << " " << sel_names()[p.bsel] << " " << hex128(p.b) << "\n"; }
    return o.str();
}
static bool from_text(const std::string& s, Case& c) {
    std::istringstream in(s); std::string k, type, kind; c = Case();
    while (in >> k) {
        if (k == "type") in >> type; else if (k == "kind") in >> kind;
        else if (k == "init") { in >> k; c.init = parse128(k); } else if (k == "place") in >> c.place;
        else if (k == "op") { std::string n, as, av, bs, bv; Op p; in >> n >> p.ord >> p.csel >> as >> av >> bs >> bv; p.a = parse128(av); p.b = parse128(bv);
            for (int i = 0; i < O_COUNT; ++i) { if (n == op_names()[i]) p.code = i; }
            for (int i = 0; i < S_COUNT; ++i) { if (as == sel_names()[i]) p.asel = i; if (bs == sel_names()[i]) p.bsel = i; } c.ops.push_back(p); }
    }
    for (size_t i = 0; i < runners().size(); ++i) if (runners()[i]->type == type && runners()[i]->kind == kind) { c.runner = (int)i; return true; }
    return false;
}
static Case gen(Rng& r, int runner) {
    Case c; c.runner = runner; Runner* R = runners()[runner];
    c.init = gen_bits(r, R->bits); c.place = r.chance(1, 4) ? 0 : r.chance(1, 4) ? 1 : (unsigned)r.below(4000) + 2;
    unsigned n = 1 + (unsigned)r.below(r.chance(1, 4) ? 24 : 6);
    for (unsigned i = 0; i < n; ++i) {
        Op p; p.code = R->ops[r.below(R->ops.size())];
        if (r.chance(1, 8)) { static const int cas[] = { O_CAS_S1, O_CAS_S2, O_CAS_W1, O_CAS_W2 }; p.code = cas[r.below(4)]; if (std::find(R->ops.begin(), R->ops.end(), p.code) == R->ops.end()) p.code = R->ops[0]; }
        p.ord = (int)r.below(5); p.csel = r.chance(1, 3) ? 1 + (int)r.below(5) : 0;
        p.asel = r.chance(1, 3) ? (int)r.below(S_COUNT) : S_RAW; p.a = gen_bits(r, R->bits < 64 ? R->bits : 128);
        p.bsel = r.chance(1, 2) ? S_STATE : r.chance(1, 2) ? S_FLIP : (int)r.below(S_COUNT); p.b = gen_bits(r, 128);
        c.ops.push_back(p);
    }
    return c;
}
static bool holds(const Case& c, std::string& why, Stats* st = 0) { static unsigned n = 0; if ((n++ & (seq_mode() == M_NEIGHBOUR ? 0 : 63)) == 0) alarm(25); Crash::set(to_text(c)); return runners()[c.runner]->run(c, why, st); }
static Case shrink(Case c) {
    std::string why; bool progress = true; int rounds = 0;
    while (progress && rounds++ < 50) {
        progress = false;
        for (size_t chunk = c.ops.size() ? c.ops.size() : 1; chunk >= 1; chunk /= 2)
            for (size_t i = 0; i + chunk <= c.ops.size();) { Case d = c; d.ops.erase(d.ops.begin() + i, d.ops.begin() + i + chunk); if (!d.ops.empty() && !holds(d, why)) { c = d; progress = true; } else ++i; }
        if (c.init) { static const u128 t[] = { 0, 1, 2 }; for (int k = 0; k < 3; ++k) { Case d = c; d.init = t[k]; if (d.init < c.init && !holds(d, why)) { c = d; progress = true; break; } } }
        if (c.place) { Case d = c; d.place = 0; if (!holds(d, why)) { c = d; progress = true; } }
        for (size_t i = 0; i < c.ops.size(); ++i)
            for (int k = 0; k < 9; ++k) { Case d = c; Op& p = d.ops[i]; const Op q = p;
                switch (k) { case 0: p.a = 0; break; case 1: p.a = 1; break; case 2: p.asel = S_RAW; break; case 3: p.csel = 0; break; case 4: p.b = 0; break; case 5: p.bsel = S_STATE; break; case 6: p.ord = 1; break; case 7: p.a &= 0xff; break; case 8: p.b &= 0xff; break; }
                if (!(p.a == q.a && p.asel == q.asel && p.csel == q.csel && p.b == q.b && p.bsel == q.bsel && p.ord == q.ord) && (k != 1 || q.a > 1) && !holds(d, why)) { c = d; progress = true; } }
    }
    return c;
}
int main(int argc, char** argv) {
    Options o; o.parse(argc, argv); Crash::install(o); Stats st; seq_mode() = o.mode == "footprint" ? M_FOOTPRINT : o.mode == "neighbour" ? M_NEIGHBOUR : o.mode == "ub" ? M_UB : M_MODEL; std::string why;
    std::sort(runners().begin(), runners().end(), [](Runner* a, Runner* b) { return a->type != b->type ? a->type < b->type : a->kind < b->kind; });
    if (!o.replay.empty()) {
        Case c; if (!from_text(slurp(o.replay), c)) { fprintf(stderr, "type or kind of the case is not in this build\n"); return 3; }
        if (holds(c, why)) { printf("holds\n"); return 0; }
        printf("%s\n", why.c_str()); return EXIT_VIOLATION;
    }
    double t0 = wall(); size_t nr = runners().size();
    for (u64 i = 0; i < o.cases; ++i) {
        if ((i & 15) == 0 && wall() - t0 > o.budget) { st.budget_hit = true; break; }
        Rng r(mix(o.seed, i)); Case c = gen(r, (int)(i % nr));
        ++st.evaluations; u64 changed = st.classes["case:state-changed"];
        bool ok = holds(c, why, &st);
        if (st.classes["case:state-changed"] != changed && c.ops.size() >= 2) { u64 h = 0; std::string t = to_text(c); for (size_t k = 0; k < t.size(); ++k) h = h * 1099511628211ull + (unsigned char)t[k]; st.distinct.insert(h); if (st.samples.size() < 3 && i % 7 == 3) st.sample(t); }
        if (!ok) {
            Case s = shrink(c); why.clear(); holds(s, why); st.failure = why; spit(o.replay_out, to_text(s)); st.write(o.out);
            fprintf(stderr, "%s\n", why.c_str()); return EXIT_VIOLATION;
        }
    }
    st.cls("runners", nr); st.write(o.out); return 0;
}
