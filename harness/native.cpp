// The native query engine (query_native): joins of triple patterns, on every small graph, against a naive evaluation.
#include "kbutil.h"
#include <trident/sparql/plan.h>
#include <trident/sparql/query.h>
#include <trident/sparql/sparqloperators.h>
#include <trident/iterators/tupleiterators.h>
#include <trident/kb/updater.h>
using namespace std; using namespace kbu;
static string termName(int64_t i) { return "<http://x/t" + to_string(i) + ">"; }
struct Pos { int var; int64_t term; };
typedef array<Pos, 3> P;
typedef vector<int64_t> Tuple_;
static vector<T3> g; // sorted by subject
static string show(const vector<P> &q, const vector<int> &proj) {
    string s = "SELECT"; for (int v : proj) s += vh::fmt(" ?%d", v);
    s += " {"; for (auto &p : q) { for (auto &x : p) s += x.var >= 0 ? vh::fmt(" ?%d", x.var) : vh::fmt(" %ld", (long) x.term); s += " ."; }
    return s + " }";
}
static string show(const vector<Tuple_> &r) { string s; int n = 0; for (auto &x : r) { if (n++ > 12) { s += vh::fmt("... %zu", r.size()); break; } s += "("; for (auto v : x) s += to_string(v) + " "; s += ")"; } return s.empty() ? "nothing" : s; }
static vector<Tuple_> ref(const vector<P> &q, int nv) {
    vector<Tuple_> r = {Tuple_(nv, -1)};
    for (auto &p : q) {
        vector<Tuple_> m;
        for (auto &x : r) { int64_t sv = p[0].var < 0 ? p[0].term : x[p[0].var]; auto lo = g.begin(), hi = g.end(); if (sv >= 0) { lo = lower_bound(g.begin(), g.end(), T3{{sv, -1, -1}}); hi = lower_bound(g.begin(), g.end(), T3{{sv + 1, -1, -1}}); } for (auto ti = lo; ti != hi; ++ti) { auto &t = *ti;
            Tuple_ y = x; bool ok = true;
            for (int k = 0; k < 3 && ok; ++k) { if (p[k].var < 0) ok = p[k].term == t[k]; else if (y[p[k].var] < 0) y[p[k].var] = t[k]; else ok = y[p[k].var] == t[k]; }
            if (ok) m.push_back(y);
        } }
        r.swap(m); if (r.size() > 400000) return r;
    }
    return r;
}
static vector<Tuple_> engine(Querier *q, const vector<P> &ps, const vector<int> &proj, int type) {
    vector<Pattern *> pats; vector<Filter *> fs; vector<string> pr;
    auto nm = [](int v) { return "v" + to_string(v); };
    for (int v : proj) pr.push_back(nm(v));
    for (auto &p : ps) {
        Pattern *x = new Pattern;
        if (p[0].var >= 0) x->addVar(0, nm(p[0].var)); else x->subject(p[0].term);
        if (p[1].var >= 0) x->addVar(1, nm(p[1].var)); else x->predicate(p[1].term);
        if (p[2].var >= 0) x->addVar(2, nm(p[2].var)); else x->object(p[2].term);
        pats.push_back(x); fs.push_back(NULL);
    }
    vector<Tuple_> r;
    if (type == 9) {
        vector<shared_ptr<SPARQLOperator>> ch; for (auto x : pats) ch.push_back(shared_ptr<SPARQLOperator>(new KBScan(q, x)));
        TridentHashJoin hj(ch, pr);
        TupleIterator *it = hj.getIterator(); size_t n = it->getTupleSize();
        while (it->hasNext()) { it->next(); Tuple_ x; for (size_t i = 0; i < n; ++i) x.push_back(it->getElementAt(i)); r.push_back(x); }
        hj.releaseIterator(it);
        for (auto x : pats) delete x;
        return r;
    }
    Query query(pats, fs, pr);
    TridentQueryPlan plan(q); plan.create(query, type);
    TupleIterator *it = plan.getIterator();
    size_t n = it->getTupleSize();
    while (it->hasNext()) { it->next(); Tuple_ x; for (size_t i = 0; i < n; ++i) x.push_back(it->getElementAt(i)); r.push_back(x); if (r.size() > 200000) vh::fail("no end"); }
    plan.releaseIterator(it);
    return r;
}
static map<string, pair<int, string>> bad; static bool collect;
static void check(Querier *q, const vector<P> &ps, const vector<int> &proj, int nv, int type) {
    vector<Tuple_> want, got;
    const vector<Tuple_> rs = ref(ps, nv);
    if (rs.size() > 20000) return;
    for (auto &x : rs) { Tuple_ y; for (int v : proj) y.push_back(x[v]); want.push_back(y); }
    if (getenv("NATIVEV")) fprintf(stderr, "%s %d over %s\n", show(ps, proj).c_str(), type, kbu::show(g).c_str());
    try { got = engine(q, ps, proj, type); } catch (int e) { got = {{-777}}; }
    vh::add("evaluations");
    sort(want.begin(), want.end()); sort(got.begin(), got.end());
    vh::outcome(vh::hashs(show(want)));
    if (want == got) return;
    string m = show(ps, proj) + (type == 9 ? " hash join" : type ? " unoptimised" : "") + " gives " + show(got) + " instead of " + show(want) + " over " + kbu::show(g);
    if (!collect) vh::fail(m);
    auto &b = bad[show(ps, proj)]; if (!b.first++) b.second = m;
}
// every pattern shares one or two variables with the ones before it
static bool hashable(const vector<P> &q) {
    set<int> seen;
    for (size_t i = 0; i < q.size(); ++i) {
        int j = 0; for (auto &x : q[i]) if (x.var >= 0 && seen.count(x.var)) j++;
        if (i && (j < 1 || j > 2)) return false;
        for (auto &x : q[i]) if (x.var >= 0) seen.insert(x.var);
        if (!i && seen.empty()) return false;
    }
    return q.size() > 1;
}
static void plans(Querier *q, const vector<P> &ps, int nv) {
    vector<int> all; for (int v = 0; v < nv; ++v) all.push_back(v);
    bool h = hashable(ps);
    check(q, ps, all, nv, 0); check(q, ps, all, nv, 2); if (h) check(q, ps, all, nv, 9);
    if (nv > 1 && ps.size() > 1) {
        check(q, ps, {nv - 1}, nv, 0); if (h) check(q, ps, {nv - 1}, nv, 9);
        reverse(all.begin(), all.end()); check(q, ps, all, nv, 0); if (h) check(q, ps, all, nv, 9);
    }
}
static void pats(int n, int nodes, int preds, int nv0, vector<P> &cur, const function<void(const vector<P> &, int)> &f) {
    if (!n) { f(cur, nv0); return; }
    auto each = [&](int nv, bool node, int lim, const function<void(Pos, int)> &h) { if (node || preds < 0) for (int v = 0; v <= nv; ++v) h(Pos{v, -1}, max(nv, v + 1)); for (int c = 0; c < lim; ++c) h(Pos{-1, node ? c : 2 + c}, nv); };
    each(nv0, true, nodes, [&](Pos s, int n1) { each(n1, false, abs(preds), [&](Pos p, int n2) { each(n2, true, nodes, [&](Pos o, int n3) { if ((s.var >= 0 && (s.var == p.var || s.var == o.var)) || (p.var >= 0 && p.var == o.var)) return; cur.push_back(P{{s, p, o}}); pats(n - 1, nodes, preds, n3, cur, f); cur.pop_back(); }); }); });
}
void explore() {
    Logger::setMinLevel(100);
    collect = vh::arg("collect") == "1";
    string mode = vh::arg("mode", "small");
    int step = atoi((vh::thorough ? vh::arg("tstep", "1") : vh::arg("step", "1")).c_str()), n = atoi(vh::arg("n", "2").c_str()), nodes = atoi(vh::arg("nodes", "1").c_str()), preds = atoi(vh::arg("preds", "2").c_str());
    vector<T3> u; for (int s = 0; s < 2; ++s) for (int p = 2; p < 4; ++p) for (int o = 0; o < 2; ++o) u.push_back(T3{{s, p, o}});
    if (mode == "small") for (int m = 1; m < 1 << u.size(); m += step) vh::runCase([&] { return vh::fmt("small %d", m); }, [&] {
        g.clear(); for (size_t i = 0; i < u.size(); ++i) if (m >> i & 1) g.push_back(u[i]); sort(g.begin(), g.end());
        Spec sp; sp.g = g; sp.dict = defDict(4);
        KBConfig c; KB kb(load(sp).c_str(), true, false, true, c); Querier *q = kb.query();
        vector<P> cur;
        pats(n, nodes, preds, 0, cur, [&](const vector<P> &ps, int nv) {
            if (!nv) return;
            plans(q, ps, nv);
        });
        delete q; vh::wipeAll();
    });
    // the same graph reached by an update: half of it added, or the rest of a full graph removed
    if (mode == "upd") for (int m = 1; m < 1 << u.size(); m += step) for (int del = 0; del < 2; ++del) vh::runCase([&] { return vh::fmt("upd %d %d", m, del); }, [&] {
        g.clear(); vector<T3> base, up;
        for (size_t i = 0; i < u.size(); ++i) if (m >> i & 1) { g.push_back(u[i]); if (!del) (g.size() % 2 ? base : up).push_back(u[i]); } else if (del) up.push_back(u[i]);
        if (del) base = u;
        if (up.empty()) return;
        sort(g.begin(), g.end());
        Spec sp; sp.g = base; sp.dict = defDict(4);
        string dir = load(sp), f = vh::newDir() + "/up.nt";
        { ofstream o(f); for (auto &t : up) o << termName(t[0]) << " " << termName(t[1]) << " " << termName(t[2]) << " .\n"; }
        { Updater x; x.creatediffupdate(del ? DiffIndex::TypeUpdate::DELETE_df : DiffIndex::TypeUpdate::ADDITION_df, dir, f); }
        KBConfig c; KB kb(dir.c_str(), true, false, true, c); Querier *q = kb.query();
        vector<P> cur;
        pats(n, nodes, preds, 0, cur, [&](const vector<P> &ps, int nv) { if (nv) plans(q, ps, nv); });
        delete q; vh::wipeAll();
    });
    // larger graphs: pseudo-random ones and dense ones, loaded under several configurations
    if (mode == "big") for (int m = 0; m < 24; ++m) vh::runCase([&] { return vh::fmt("big %d", m); }, [&] {
        int nn = (m % 6 == 0) ? 8 : (m % 6 == 1) ? 20 : (m % 6 == 2) ? 45 : (m % 6 == 3) ? 70 : (m % 6 == 4) ? 12 : 150, np = m % 2 + 1;
        g.clear(); uint64_t h = vh::mix(77, m);
        for (int s = 0; s < nn; ++s) for (int o = 0; o < nn; ++o) for (int p = 0; p < np; ++p) {
            h = vh::mix(h, s * 1000 + o);
            bool in = m % 6 == 4 ? true : m % 6 == 5 ? s < 2 || o == 3 : h % nn < 2 + (s % 7 == 0) * 6;
            if (in) g.push_back(T3{{s, nn + p, o}});
        }
        sort(g.begin(), g.end());
        Spec sp; sp.g = g; sp.dict = defDict(nn + np);
        if (m / 6 == 1) sp.p.aggrIndices = true;
        if (m / 6 == 2) { sp.p.thresholdSkipTable = 20; sp.p.canSkipTables = true; sp.p.enableFixedStrat = true; sp.p.fixedStrat = FIXEDSTRAT5; }
        if (m / 6 == 3) { sp.p.enableFixedStrat = true; sp.p.fixedStrat = FIXEDSTRAT7; }
        KBConfig c; KB kb(load(sp).c_str(), true, false, true, c); Querier *q = kb.query();
        vector<P> cur; int k = 0;
        pats(n, nodes, 1, 0, cur, [&](const vector<P> &ps0, int nv) {
            if (!nv || k++ % step) return;
            vector<P> ps = ps0; for (auto &p : ps) { if (p[1].var < 0) p[1].term = nn + (nv + (&p - &ps[0])) % np; }
            long est = 1; set<int> seen; // bound the size of the answer
            for (auto &p : ps) { int b = 0; for (int j : {0, 2}) b += p[j].var < 0 || seen.count(p[j].var); est *= b == 0 ? (long) g.size() : b == 1 ? (long) g.size() / nn + 1 : 1; for (auto &x : p) if (x.var >= 0) seen.insert(x.var); }
            if (est > 20000) return;
            plans(q, ps, nv);
        });
        delete q; vh::wipeAll();
    });
    if (collect) { printf("%zu bad\n", bad.size()); int k = 0; for (auto &b : bad) if (k++ < 60) printf("%d %s\n", b.second.first, b.second.second.c_str()); fflush(stdout); }
}
