// Graphs loaded for analytics: the node/edge views of a directed or undirected graph, and the analytical tasks run
// through Analytics::run, against the graph that was given to the loader.
#include "kbutil.h"
#include <snap/analytics.h>
#include <snap/directed.h>
#include <snap/undirected.h>
#include <zlib.h>
#include <cmath>
using namespace std;
using namespace kbu;
typedef vector<pair<int64_t, int64_t>> Edges;
struct Conf { bool undirected; int how; bool dict; int threads; }; // how: 0 pairs of numbers, 1 SNAP file
static string showE(const Edges &e) { string s; for (size_t i = 0; i < e.size() && i < 30; ++i) s += vh::fmt("%ld>%ld ", (long) e[i].first, (long) e[i].second); if (e.size() > 30) s += "..."; return s; }
struct G {
    int64_t n = 0; bool und = false; vector<string> name;
    vector<vector<int64_t>> out, in; set<pair<int64_t, int64_t>> arcs;
    void make(const Edges &es, bool u) {
        und = u; n = 0;
        for (auto &e : es) n = max(n, max(e.first, e.second) + 1);
        for (auto &e : es) { arcs.insert(e); if (u) arcs.insert({e.second, e.first}); }
        out.resize(n); in.resize(n);
        for (auto &a : arcs) out[a.first].push_back(a.second);
        for (int64_t i = 0; i < n; ++i) for (auto o : out[i]) in[o].push_back(i);
    }
};
// loads the graph; fills g with what must be there (nodes renumbered for SNAP files)
static string loadG(const Edges &es, const Conf &c, G &g) {
    string b = vh::newDir();
    ParamsLoad p; p.sample = false; p.kbDir = b + "/kb"; p.tmpDir = b + "/tmp";
    p.parallelThreads = c.threads; p.maxReadingThreads = c.threads;
    p.graphTransformation = c.undirected ? "undirected" : "unlabeled";
    Edges mine = es;
    {
        ofstream o(b + "/in");
        if (c.how == 1) {
            o << "# a graph\n#\n";
            map<int64_t, int64_t> num;
            for (auto &e : mine) {
                o << e.first << (e.first & 1 ? "\t" : " ") << e.second << "\n";
                for (int64_t *x : {&e.first, &e.second}) {
                    if (!num.count(*x)) { int64_t k = num.size(); num[*x] = k; g.name.push_back(to_string(*x)); }
                    *x = num[*x];
                }
            }
        } else for (auto &e : mine) o << e.first << " " << e.second << "\n";
    }
    g.make(mine, c.undirected);
    p.triplesInputDir = b + "/in"; p.inputformat = c.how == 1 ? "snap" : "rdf"; p.inputCompressed = true;
    if (c.how == 0 && c.dict) {
        ofstream d(b + "/dict");
        vector<string> v = defDict(g.n);
        for (size_t i = 0; i < v.size(); ++i) d << i << " " << v[i].size() << " " << v[i] << "\n";
        p.dictDir = b + "/dict"; g.name = v;
    }
    if (c.how == 0 && !c.dict) p.storeDicts = false;
    Loader l; l.load(p);
    return p.kbDir;
}
template <class GR> static void view(KB *kb, const G &g) {
    GR gr(kb);
    if (gr.GetNodes() != g.n) vh::fail(vh::fmt("%ld nodes, not %ld", (long) gr.GetNodes(), (long) g.n));
    if (!g.und && gr.GetEdges() != (int64_t) g.arcs.size()) vh::fail(vh::fmt("%ld edges, not %zu", (long) gr.GetEdges(), g.arcs.size()));
    vector<int64_t> ids; gr.GetNIdV(ids);
    if (gr.IsNode(-1) || gr.IsNode(g.n) || !gr.IsNode(0) || !gr.IsNode(g.n - 1)) vh::fail("IsNode is wrong");
    int64_t k = 0;
    auto it = gr.BegNI();
    for (; it < gr.EndNI(); it++, ++k) {
        auto direct = gr.GetNI(k);
        if (!(direct == it)) vh::fail(vh::fmt("node %ld found at another place", (long) k));
        if (it.GetId() != k || ids.at(k) != k) vh::fail(vh::fmt("node number %ld has id %ld", (long) k, (long) it.GetId()));
        auto &o = g.out[k], &i = g.in[k];
        if (getenv("GV")) { fprintf(stderr, "node %ld out:", (long) k); for (int64_t j = 0; j < it.GetOutDeg(); ++j) fprintf(stderr, " %ld", (long) it.GetOutNId(j)); fprintf(stderr, "\n"); }
        if (it.GetOutDeg() != (int64_t) o.size() || it.GetInDeg() != (int64_t) i.size()) vh::fail(vh::fmt("node %ld: degrees %ld/%ld, not %zu/%zu", (long) k, (long) it.GetOutDeg(), (long) it.GetInDeg(), o.size(), i.size()));
        if (it.GetDeg() != (int64_t) (g.und ? o.size() : o.size() + i.size())) vh::fail("wrong degree");
        for (size_t j = 0; j < o.size(); ++j) if (it.GetOutNId(j) != o[j]) vh::fail(vh::fmt("node %ld: successor %zu is %ld, not %ld", (long) k, j, (long) it.GetOutNId(j), (long) o[j]));
        for (size_t j = 0; j < i.size(); ++j) if (it.GetInNId(j) != i[j]) vh::fail(vh::fmt("node %ld: predecessor %zu is %ld, not %ld", (long) k, j, (long) it.GetInNId(j), (long) i[j]));
        if (g.und) { for (size_t j = 0; j < o.size(); ++j) if (it.GetNbrNId(j) != o[j]) vh::fail("wrong neighbour"); }
        else for (size_t j = 0; j < o.size() + i.size(); ++j) if (it.GetNbrNId(j) != (j < i.size() ? i[j] : o[j - i.size()])) vh::fail("wrong neighbour");
    }
    if (k != g.n) vh::fail(vh::fmt("%ld nodes visited, not %ld", (long) k, (long) g.n));
}
// ---- the tasks, by their definitions
struct Out { bool has = false; double val = 0; vector<vector<double>> row; vector<string> text; };
static Out parse(const string &path, int fields, const G &g) {
    Out r; string all; char buf[4096]; int k;
    gzFile f = gzopen(path.c_str(), "rb"); if (!f) vh::fail("no output file");
    while ((k = gzread(f, buf, sizeof buf)) > 0) all.append(buf, k);
    gzclose(f);
    istringstream is(all); string line; bool first = true;
    while (getline(is, line)) {
        if (line.compare(0, 8, "OUTPUT: ") == 0) { r.has = true; r.val = stod(line.substr(8)); continue; }
        if (line.compare(0, 7, "NODE_ID") == 0) { first = false; continue; }
        istringstream ls(line); string w; vector<double> v; int64_t id;
        ls >> id; if (id != (int64_t) r.row.size()) vh::fail("output lines out of order: " + line);
        for (int i = 0; i < fields; ++i) { double d; string t; ls >> t; d = stod(t); v.push_back(d); }
        ls >> w; r.row.push_back(v); r.text.push_back(w);
    }
    if (fields && (int64_t) r.row.size() != g.n) vh::fail(vh::fmt("%zu output lines for %ld nodes", r.row.size(), (long) g.n));
    if (fields && g.name.size()) for (int64_t i = 0; i < g.n; ++i) if (r.text[i] != g.name[i]) vh::fail(vh::fmt("node %ld is called '%s', not '%s'", (long) i, r.text[i].c_str(), g.name[i].c_str()));
    return r;
}
static void near(const string &what, double got, double want, double tol) {
    if (!(fabs(got - want) <= tol * max(1.0, fabs(want)))) vh::fail(vh::fmt("%s is %.8g, not %.8g", what.c_str(), got, want));
}
static void nears(const string &task, const Out &o, int f, const vector<double> &want, double tol) {
    for (size_t i = 0; i < want.size(); ++i) near(vh::fmt("%s of node %zu", task.c_str(), i), o.row[i][f], want[i], tol);
}
static vector<int64_t> bfs(const G &g, int64_t s, bool both) {
    vector<int64_t> d(g.n, -1), q = {s}; d[s] = 0;
    for (size_t h = 0; h < q.size(); ++h) {
        for (auto w : g.out[q[h]]) if (d[w] < 0) { d[w] = d[q[h]] + 1; q.push_back(w); }
        if (both) for (auto w : g.in[q[h]]) if (d[w] < 0) { d[w] = d[q[h]] + 1; q.push_back(w); }
    }
    return d;
}
static vector<set<int64_t>> nbrs(const G &g) {
    vector<set<int64_t>> r(g.n);
    for (auto &a : g.arcs) if (a.first != a.second) { r[a.first].insert(a.second); r[a.second].insert(a.first); }
    return r;
}
static vector<double> pagerank(const G &g, double C, double eps, int it) {
    vector<double> r(g.n, 1.0 / g.n);
    while (it-- > 0) {
        vector<double> t(g.n, 0.0); double sum = 0, diff = 0;
        for (auto &a : g.arcs) t[a.second] += C * r[a.first] / g.out[a.first].size();
        for (double x : t) sum += x;
        for (int64_t i = 0; i < g.n; ++i) { t[i] += (1 - sum) / g.n; diff += fabs(t[i] - r[i]); }
        r = t;
        if (diff < eps) break;
    }
    return r;
}
static void unit(vector<double> &v) { double s = 0; for (double x : v) s += x * x; s = sqrt(s); for (double &x : v) x /= s; }
static void hits(const G &g, int it, vector<double> &hub, vector<double> &auth) {
    hub.assign(g.n, 1); auth.assign(g.n, 1);
    while (it-- > 0) {
        vector<double> a(g.n, 0.0), h(g.n, 0.0);
        for (auto &e : g.arcs) a[e.second] += hub[e.first];
        unit(a);
        for (auto &e : g.arcs) h[e.first] += a[e.second];
        unit(h); hub = h; auth = a;
    }
    unit(hub); unit(auth);
}
static vector<double> between(const G &g) { // sum over ordered pairs (s,t) of the share of shortest paths through v
    vector<vector<int64_t>> d(g.n); vector<vector<double>> sig(g.n, vector<double>(g.n, 0.0));
    for (int64_t s = 0; s < g.n; ++s) {
        d[s] = bfs(g, s, false); sig[s][s] = 1;
        vector<int64_t> ord; for (int64_t i = 0; i < g.n; ++i) if (d[s][i] >= 0) ord.push_back(i);
        sort(ord.begin(), ord.end(), [&](int64_t a, int64_t b) { return d[s][a] < d[s][b]; });
        for (auto v : ord) for (auto w : g.out[v]) if (d[s][w] == d[s][v] + 1) sig[s][w] += sig[s][v];
    }
    vector<double> r(g.n, 0.0);
    for (int64_t s = 0; s < g.n; ++s) for (int64_t t = 0; t < g.n; ++t) if (t != s && d[s][t] >= 0)
        for (int64_t v = 0; v < g.n; ++v) if (v != s && v != t && d[s][v] >= 0 && d[v][t] >= 0 && d[s][v] + d[v][t] == d[s][t]) r[v] += sig[s][v] * sig[v][t] / sig[s][t];
    return r;
}
static vector<string> TASKS;
static void tasks(KB &kb, const G &g, const string &dir) {
    auto nb = nbrs(g);
    vector<double> cc(g.n, 0.0), hub, auth; double tri = 0, avg = 0;
    for (int64_t i = 0; i < g.n; ++i) {
        double links = 0, k = nb[i].size();
        for (auto a : nb[i]) for (auto b : nb[i]) if (a < b && nb[a].count(b)) links++;
        tri += links; if (k > 1) cc[i] = links / (k * (k - 1) / 2);
        avg += cc[i];
    }
    tri /= 3; avg /= g.n;
    int n = 0;
    auto run = [&](const string &task, const string &params, int fields) {
        string f = dir + "/out" + to_string(n++);
        Analytics::run(kb, task, f, params);
        vh::add("transitions");
        return parse(f, fields, g);
    };
    for (auto &t : TASKS) {
        string err = "";
        if (t == "pagerank") {
            nears(t, run(t, "maxiter=15;eps=0;C=0.85", 1), 0, pagerank(g, 0.85, 0, 15), 2e-6);
            nears(t, run(t, "maxiter=30;eps=0.0512345;C=0.6", 1), 0, pagerank(g, 0.6, 0.0512345, 30), 2e-6);
        } else if (t == "hits") {
            hits(g, 4, hub, auth);
            Out o = run(t, "maxiter=4", 2); nears("hub score", o, 0, hub, 1e-4); nears("authority score", o, 1, auth, 1e-4);
        } else if (t == "betcentr") nears(t, run(t, "nodefrac=1.0", 1), 0, between(g), 1e-4);
        else if (t == "clustcoef") nears(t, run(t, "", 1), 0, cc, 1e-4);
        else if (t == "avg_clustcoef") near(t, run(t, "samplen=-1", 0).val, avg, 1e-4);
        else if (t == "triads") near(t, run(t, "samplen=-1", 0).val, tri, 0);
        else if (t == "triangles") near(t, run(t, "", 0).val, tri, 0);
        else if (t == "diameter") {
            int64_t dm = 0; for (int64_t s = 0; s < g.n; ++s) for (auto x : bfs(g, s, false)) dm = max(dm, x);
            near(t, run(t, vh::fmt("testnodes=%ld", (long) g.n), 0).val, dm, 0);
            near(t, run(t, "testnodes=-1", 0).val, dm, 0);
        } else if (t == "maxwcc" || t == "maxscc") {
            double best = 0;
            vector<vector<int64_t>> d; for (int64_t s = 0; s < g.n; ++s) d.push_back(bfs(g, s, t == "maxwcc"));
            for (int64_t s = 0; s < g.n; ++s) { double k = 0; for (int64_t x = 0; x < g.n; ++x) if (d[s][x] >= 0 && d[x][s] >= 0) k++; best = max(best, k); }
            near(t, run(t, "", 0).val, best / g.n, 1e-5);
        } else if (t == "bfs") {
            for (int64_t s = 0; s < g.n; ++s) if (g.n <= 6 || g.out[s].size() + g.in[s].size()) {
                auto d = bfs(g, s, true);
                for (int64_t x = 0; x < g.n; ++x) if (g.n <= 6 || g.out[x].size() + g.in[x].size())
                    near(vh::fmt("distance %ld-%ld", (long) s, (long) x), run(t, vh::fmt("src=%ld;dst=%ld", (long) s, (long) x), 0).val, d[x], 0);
            }
        } else vh::fail("no such task in the harness: " + t);
    }
}
static string MODE;
static void one(const Edges &es, const Conf &c) {
    vh::runCase([&] { return vh::fmt("%s %s %s threads=%d: ", c.undirected ? "undirected" : "directed", c.how ? "snap-file" : "pairs", c.dict ? "dict" : "nodict", c.threads) + showE(es); }, [&] {
        G g; string dir = loadG(es, c, g);
        Open o(dir, c.dict || c.how == 1);
        if (o.kb->getGraphType() != (c.undirected ? GraphType::UNDIRECTED : GraphType::DIRECTED)) vh::fail("wrong type of graph");
        if (MODE == "view") { if (c.undirected) view<Trident_UTNGraph>(o.kb.get(), g); else view<Trident_TNGraph>(o.kb.get(), g); }
        else tasks(*o.kb, g, dir + "/..");
        vh::outcome(vh::hashs(showE(es)));
        vh::wipe(dir.substr(0, dir.size() - 3));
    });
    vh::add("states"); vh::add("transitions");
}
// every graph over the given nodes
static void all(const vector<int64_t> &ids, const Conf &c, bool loops, int64_t step, int64_t off) {
    Edges pairs;
    for (size_t i = 0; i < ids.size(); ++i) for (size_t j = 0; j < ids.size(); ++j) if ((loops || i != j) && (!c.undirected || i <= j)) pairs.push_back({ids[i], ids[j]});
    for (int64_t m = 1; m < (1LL << pairs.size()); ++m) {
        if ((m * 2654435761ULL >> 7) % step != (uint64_t) off % step) continue;
        Edges e;
        for (size_t k = 0; k < pairs.size(); ++k) if (m >> k & 1) { auto p = pairs[k]; if (c.undirected && (m ^ k) & 1) swap(p.first, p.second); e.push_back(p); if (c.undirected && (m + k) % 5 == 0) e.push_back({p.second, p.first}); if (m % 7 == 0) e.push_back(p); }
        if (m % 3 == 0) reverse(e.begin(), e.end());
        one(e, c);
    }
}
void explore() {
    Logger::setMinLevel(100);
    cout.setstate(ios::failbit);
    MODE = vh::arg("mode", "view");
    string tl = vh::arg("tasks", "pagerank,hits,betcentr,clustcoef,avg_clustcoef,triads,triangles,diameter,maxwcc,maxscc,bfs");
    { istringstream is(tl); string w; while (getline(is, w, ',')) TASKS.push_back(w); }
    int step = atoi(vh::arg("step", "1").c_str());
    bool T = vh::thorough;
    for (int und = 0; und < 2; ++und) {
        if (MODE == "view") {
            for (int how = 0; how < 2; ++how) {
                Conf c = {(bool) und, how, how == 1, 1};
                for (auto &ids : vector<vector<int64_t>>{{0, 1, 2}, {0, 2, 5}, {127, 128, 130}, {255, 256, 0}, {65535, 65536, 7}}) if (how == 0 || ids[0] < 60000) all(ids, c, true, ids[0] > 60000 ? step * 16 : step, 0);
                c.dict = true; c.threads = 2;
                all({0, 1, 2, 3}, c, und, T ? 1 : und ? 2 * step : 16 * step, how);
            }
            // wide nodes: the lists of neighbours are long and of every width
            for (int64_t k : {100, 255, 256, 257, 300, 1000}) for (int64_t base : {0, 1, 250, 65000}) for (int kind = 0; kind < 3; ++kind) {
                Edges e;
                for (int64_t i = 0; i < k; ++i) { if (kind != 1) e.push_back({base, base + i}); if (kind != 0) e.push_back({base + i, base + (kind == 2 ? (i * 7) % k : 3)}); }
                one(e, Conf{(bool) und, 0, false, 1}); one(e, Conf{(bool) und, 1, true, 2});
            }
        } else {
            Conf c = {(bool) und, 0, true, 1};
            all({0, 1, 2}, c, true, 1, 0);
            all({0, 1, 2, 3}, c, und, T || und ? 1 : 3 * step, 0);
            if (und) all({0, 1, 2, 3, 4}, c, false, T ? 1 : 2 * step, 0);
            else if (T) all({0, 1, 2, 3}, c, true, 37, 0);
            all({1, 127, 128, 130}, c, und, (und ? 4 : 64) * (T ? 1 : step), 0);
            all({0, 255, 256, 258}, c, und, (und ? 4 : 64) * (T ? 1 : step), 0);
            c.how = 1; all({7, 3, 900}, c, true, T ? 1 : 4, 0);
        }
    }
}
