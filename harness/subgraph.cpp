// Subgraph embeddings: every group of at least a given size is described by the mean and the variance of its
// members' embeddings, is stored and read back, and queries are answered from the nearest groups.
#include "kbutil.h"
#include <trident/ml/subgraphhandler.h>
#include <trident/ml/embeddings.h>
using namespace std; using namespace kbu; using vh::fmt;
typedef vector<double> V;
struct Grp { int t; int64_t ent, rel; vector<int64_t> mem; V avg, var; };
static vector<T3> g; static int dim; static vector<V> E, R;
static vector<Grp> groups(uint64_t mincard) {
    vector<Grp> r;
    for (int t = 0; t < 2; ++t) {
        map<pair<int64_t, int64_t>, vector<int64_t>> m;
        for (auto &x : g) m[{t ? x[0] : x[2], x[1]}].push_back(t ? x[2] : x[0]);
        for (auto &p : m) {
            if (p.second.size() <= mincard) continue;
            Grp q{t, p.first.first, p.first.second, p.second, V(dim, 0), V(dim, 0)};
            for (int i = 0; i < dim; ++i) {
                for (auto e : q.mem) q.avg[i] += E[e][i];
                q.avg[i] /= q.mem.size();
                for (auto e : q.mem) q.var[i] += (E[e][i] - q.avg[i]) * (E[e][i] - q.avg[i]);
                if (q.mem.size() > 1) q.var[i] /= q.mem.size() - 1;
            }
            r.push_back(q);
        }
    }
    return r;
}
static double dist(const Grp &q, const V &e, DIST d) {
    double r = 0;
    for (int i = 0; i < dim; ++i) {
        double x = fabs(e[i] - q.avg[i]);
        r += d == L1 ? x : d == L3 ? fabs(q.var[i] - x * x) : d == L4 ? q.var[i] - x : q.var[i] != 0 ? x / q.var[i] : x;
    }
    return r;
}
static bool near(double a, double b) { return fabs(a - b) <= 1e-6 * (1 + fabs(a) + fabs(b)); }
static void storeModel(const string &d, const vector<V> &m) {
    Embeddings<double> e(m.size(), dim);
    for (size_t i = 0; i < m.size(); ++i) for (int j = 0; j < dim; ++j) e.getRaw()[i * dim + j] = m[i][j];
    e.store(d, false, 1);
}
// the groups nearest to e, other than that of the query; false if the order is not determined
static bool nearest(const vector<Grp> &gs, int t, int64_t ent, int64_t rel, const V &e, size_t k, bool var, DIST second, vector<int> &out) {
    vector<pair<double, int>> d; out.clear();
    for (size_t i = 0; i < gs.size(); ++i) if (!(gs[i].t == t && gs[i].ent == ent && gs[i].rel == rel)) d.push_back({dist(gs[i], e, L1), (int) i});
    sort(d.begin(), d.end());
    for (size_t i = 1; i < d.size() && i <= k; ++i) if (near(d[i - 1].first, d[i].first)) return false;
    if (d.size() > k) d.resize(k);
    if (var) {
        for (auto &x : d) x.first = dist(gs[x.second], e, second);
        sort(d.begin(), d.end());
        for (size_t i = 1; i < d.size(); ++i) if (near(d[i - 1].first, d[i].first)) return false;
    }
    for (auto &x : d) out.push_back(x.second);
    return true;
}
static void one(const string &dir, KB &kb, const string &work, bool var, uint64_t mincard, bool answers, int nodes, const vector<int64_t> &preds) {
    string f = work + "/sub", type = var ? "var" : "avg";
    { SubgraphHandler h; h.create(kb, type, work, f, mincard); }
    unique_ptr<Subgraphs<double>> s; if (var) s.reset(new VarSubgraphs<double>(0.75)); else s.reset(new AvgSubgraphs<double>());
    s->loadFromFile(f);
    vector<Grp> want = groups(mincard); string what = fmt("%s groups of more than %ld over ", type.c_str(), (long) mincard) + kbu::show(g);
    if (s->getNSubgraphs() != want.size()) vh::fail(fmt("%ld instead of %zu ", (long) s->getNSubgraphs(), want.size()) + what);
    map<tuple<int, int64_t, int64_t>, int> idx; for (size_t i = 0; i < want.size(); ++i) idx[make_tuple(want[i].t, want[i].ent, want[i].rel)] = i;
    Querier *q = kb.query(); set<int> seen; vector<int> ref;
    for (size_t i = 0; i < want.size(); ++i) {
        auto &m = s->getMeta(i); int t = m.t == Subgraphs<double>::SP;
        auto it = idx.find(make_tuple(t, (int64_t) m.ent, (int64_t) m.rel));
        if (it == idx.end() || !seen.insert(it->second).second) vh::fail(fmt("group %d of %ld,%ld is not one of the ", t, (long) m.ent, (long) m.rel) + what);
        auto &w = want[it->second]; ref.push_back(it->second);
        if (m.size != w.mem.size() || m.id != i) vh::fail(fmt("group of %ld,%ld has size %ld and number %ld of the ", (long) m.ent, (long) m.rel, (long) m.size, (long) m.id) + what);
        for (int k = 0; k < dim * 2 + 2; ++k) {
            V e(dim, 0.0); if (k < dim * 2) e[k / 2] = k & 1 ? 0.5 : -0.25; else if (k == dim * 2 + 1) for (auto &x : e) x = 0.3;
            for (int d = L1; d <= L5; ++d) {
                if (d == L2 || (d == L1) == var) { if (d != L1) continue; }
                if (!var && d != L1) continue;
                double v = d == L1 ? s->l1(q, i, e.data(), dim) : d == L3 ? s->l3(q, i, e.data(), dim) : d == L4 ? s->l3NoSquare(q, i, e.data(), dim) : s->l3Div(q, i, e.data(), dim);
                if (!near(v, dist(w, e, (DIST) d))) vh::fail(fmt("distance %d of group %d %ld,%ld is %g instead of %g of the ", d, t, (long) m.ent, (long) m.rel, v, dist(w, e, (DIST) d)) + what);
                vh::add("evaluations");
            }
        }
    }
    delete q;
    if (!answers) return;
    // queries: every triple of the vocabulary
    vector<T3> test; for (int h = 0; h < nodes; ++h) for (auto p : preds) for (int t = 0; t < nodes; ++t) test.push_back(T3{{h, p, t}});
    { ofstream o(work + "/test"); for (auto &x : test) for (auto v : x) o.write((char *) &v, 8); }
    vector<Grp> gs; for (int i : ref) gs.push_back(want[i]); // in the order in which they are stored
    // how the number of groups is chosen: by the caller, per query in the test file, or per relation in a file
    { ofstream o(work + "/dyn"); int i = 0; for (auto &x : test) { o << x[0] << " " << x[1] << " " << x[2] << " " << i % 5 << " " << i / 5 % 6 << "\n"; i++; } }
    static const size_t KS[] = {1, 3, 5, 10, 50, 50};
    { ofstream o(work + "/ks"); int i = 0; for (auto p : preds) { o << p << " " << (i ? -1 : 2) << " " << (i ? 3 : 40) << "\n"; i++; } }
    const int nmodes = 11; // 0-3: findAnswers, 4-7: evaluate with 1, 2, 3, 50; 8: findAnswers per query; 9: evaluate per query; 10: evaluate per relation
    for (int md = 0; md < nmodes; ++md) for (DIST second : {L3, L4, L5}) {
        if (!var && second != L3) continue;
        size_t fixedk = md < 8 ? KS[0] * (md % 4 == 3 ? 50 : md % 4 + 1) : 0;
        { streambuf *o = cout.rdbuf(); ostringstream sink; cout.rdbuf(sink.rdbuf());
          try { SubgraphHandler h;
            string tf = work + (md == 8 || md == 9 ? "/dyn" : "/test"), fm = md == 8 || md == 9 ? "dynamicK" : "python";
            if (md < 4 || md == 8) h.findAnswers(kb, "transe", work, f, type, tf, fm, md == 8 ? 7 : fixedk, 0.75, work + "/log", second);
            else h.evaluate(kb, "transe", work, f, type, tf, fm, md == 9 ? (uint64_t) -1 : md == 10 ? (uint64_t) -2 : fixedk, 0.75, work + "/log", second, work + "/ks", "");
          } catch (...) { cout.rdbuf(o); throw; }
          cout.rdbuf(o); }
        ifstream in(work + "/log"); string line; getline(in, line); size_t n = 0;
        while (getline(in, line)) {
            if (n >= test.size()) vh::fail("more answers than queries");
            auto &x = test[n++];
            for (int t = 0; t < 2; ++t) {
                int64_t ent = t ? x[0] : x[2], ans = t ? x[2] : x[0];
                V e(dim); for (int i = 0; i < dim; ++i) e[i] = t ? E[ent][i] + R[x[1]][i] : E[ent][i] - R[x[1]][i];
                size_t k = md < 8 ? fixedk : md < 10 ? KS[t ? (n - 1) / 5 % 6 : (n - 1) % 5] : x[1] == preds[0] ? (t ? 10 : 2) : (t ? 3 : 10);
                vector<int> ord; if (!nearest(gs, t, ent, x[1], e, k, var, second, ord)) { vh::add("undetermined"); continue; }
                long found = -1, size = 0; for (size_t i = 0; i < ord.size(); ++i) { size += gs[ord[i]].mem.size(); if (found < 0 && count(gs[ord[i]].mem.begin(), gs[ord[i]].mem.end(), ans)) found = i; }
                // columns: triple, foundH, foundT, sizeH, sizeT, then type, relation and entity of both groups
                vector<string> c; { istringstream is(line); string y; while (getline(is, y, '\t')) c.push_back(y); }
                if (c.size() != 11) vh::fail("a line of the log has other columns: " + line);
                string id = found < 0 ? "N.A. N.A. N.A." : fmt("%d %ld %ld", gs[ord[found]].t, (long) gs[ord[found]].rel, (long) gs[ord[found]].ent);
                if (c[0] != fmt("%ld %ld %ld", (long) x[0], (long) x[1], (long) x[2]) || c[1 + t] != to_string(found) || c[3 + t] != to_string(size) || (found < 0 ? c[5 + 3 * t] != "N.A." : c[6 + 3 * t] != to_string(gs[ord[found]].rel) || c[7 + 3 * t] != to_string(gs[ord[found]].ent)))
                    vh::fail(fmt("the %s of the query is searched in the %zu nearest %s: expected place %ld of %ld candidates (%s), log says ", t ? "tail" : "head", k, what.c_str(), found, size, id.c_str()) + line);
                vh::outcome(vh::mix(vh::mix(found + 2, size), k)); vh::add("evaluations");
            }
        }
        if (n != test.size()) vh::fail(fmt("%zu answers to %zu queries", n, test.size()));
    }
}
static void model(int n, int salt) {
    E.assign(n, V(dim)); R = E; uint64_t h = vh::mix(salt, dim);
    for (int i = 0; i < n; ++i) for (int j = 0; j < dim; ++j) { h = vh::mix(h, i * 7 + j); E[i][j] = (double) (h % 2001) / 1000 - 1; h = vh::mix(h, 5); R[i][j] = (double) (h % 2001) / 1000 - 1; }
}
static void graph(int n, const vector<int64_t> &preds, int nodes, uint64_t maxcard) {
    sort(g.begin(), g.end());
    string work = vh::newDir(); if (chdir(work.c_str())) vh::fail("chdir");
    storeModel(work + "/E", E); storeModel(work + "/R", R);
    Spec sp; sp.g = g; sp.dict = defDict(n); string dir = load(sp);
    KBConfig c; KB kb(dir.c_str(), true, false, true, c);
    for (int var = 0; var < 2; ++var) for (uint64_t mc = 0; mc <= maxcard; ++mc) one(dir, kb, work, var, mc, mc < 2, nodes, preds);
    vh::wipeAll();
}
void explore() {
    Logger::setMinLevel(100);
    int step = atoi((vh::thorough ? vh::arg("tstep", "1") : vh::arg("step", "1")).c_str());
    vector<T3> u; for (int s = 0; s < 3; ++s) for (int o = 0; o < 3; ++o) u.push_back(T3{{s, 3, o}});
    for (int m = 1; m < 512; m += step) for (int d = 1; d <= 2; ++d) vh::runCase([&] { return fmt("graph %d, %d dimensions", m, d); }, [&] {
        dim = d; model(5, 1); g.clear();
        for (size_t i = 0; i < u.size(); ++i) { if (m >> i & 1) g.push_back(u[i]); if ((m * 5 >> i) & 1) g.push_back(T3{{u[i][0], 4, u[i][2]}}); }
        graph(5, {3, 4}, 3, 3);
    });
    for (int m = 0; m < (vh::thorough ? 24 : 6); ++m) vh::runCase([&] { return fmt("larger graph %d", m); }, [&] {
        int n = 6 + m % 6 * 5; dim = 3 + m % 3; model(n + 2, m + 10); g.clear(); uint64_t h = vh::mix(3, m);
        for (int s = 0; s < n; ++s) for (int o = 0; o < n; ++o) { h = vh::mix(h, s * 100 + o); if (h % n < 3 || s == 1 || o == n - 1) g.push_back(T3{{s, n + (int) (h >> 20) % 2, o}}); }
        graph(n + 2, {n, n + 1}, n, 4);
    });
}
