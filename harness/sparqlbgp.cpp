// Basic graph patterns: every query of up to N triple patterns against every graph, compared with the definition
// (all assignments of terms to variables that make every pattern a stored triple).
#include "sparqlref.h"
#include <trident/kb/updater.h>
#include <set>
using namespace std;
using namespace kbu;
static vector<string> mk() { vector<string> t = {"<a>", "<b>", "<c>", "\"l\"", "<z>"}; for (int i = 5; i < 60; ++i) t.push_back("<n" + to_string(i) + ">"); return t; }
static const vector<string> TERM = mk(); // the fifth is not in the dictionary
struct Pos { int var; int term; };
typedef vector<Pos> Q; // 3 per pattern
static string text(const Q &q, const vector<int> &proj, const string &mod) {
    string s = "SELECT " + mod;
    if (proj.empty()) s += "* ";
    for (int v : proj) s += "?v" + to_string(v) + " ";
    s += "WHERE { ";
    for (size_t i = 0; i < q.size(); ++i) {
        s += q[i].var >= 0 ? "?v" + to_string(q[i].var) : TERM[q[i].term];
        s += i % 3 == 2 ? " . " : " ";
    }
    return s + "}";
}
static vector<sq::Row> eval(const Q &q, int nvars, const vector<T3> &g, const vector<int> &proj, bool distinct) {
    vector<sq::Row> r;
    vector<int64_t> b(nvars, -1);
    function<void(size_t)> rec = [&](size_t i) {
        if (i == q.size()) { sq::Row w; for (int v : proj) w.push_back(TERM[b[v]]); r.push_back(w); return; }
        for (auto &t : g) {
            vector<int64_t> old = b; bool ok = true;
            for (int k = 0; k < 3 && ok; ++k) {
                const Pos &p = q[i + k];
                if (p.var < 0) ok = t[k] == p.term;
                else if (b[p.var] < 0) b[p.var] = t[k];
                else ok = b[p.var] == t[k];
            }
            if (ok) rec(i + 3);
            b = old;
        }
    };
    rec(0);
    sort(r.begin(), r.end());
    if (distinct) r.erase(unique(r.begin(), r.end()), r.end());
    return r;
}
static bool collect = false;
static map<string, pair<int, string>> bad;
static void one(KB &kb, const Q &q, int nvars, const vector<T3> &g) {
    vector<int> all; for (int v = 0; v < nvars; ++v) all.push_back(v);
    vector<vector<int>> projs = {all};
    if (nvars > 1) { projs.push_back({0}); projs.push_back({nvars - 1, 0}); }
    for (auto &proj : projs) for (int d = 0; d < 2; ++d) {
        string qs = text(q, proj, d ? "DISTINCT " : "");
        vector<sq::Row> e = eval(q, nvars, g, proj, d);
        string err; sq::Res r;
        try { r = sq::run(kb, qs); } catch (int x) { err = "exception"; }
        sort(r.rows.begin(), r.rows.end());
        vh::add("evaluations");
        vh::outcome(vh::mix(vh::hashs(sq::show(e)), nvars));
        if (err == "" && r.rows == e) continue;
        string m = qs + " gives " + (err != "" ? err : sq::show(r.rows)) + " instead of " + sq::show(e);
        if (!collect) vh::fail(m);
        auto &x = bad[qs]; if (!x.first++) x.second = m + " over " + show(g);
    }
}
// all queries of np patterns over the given constants, up to renaming of variables
static void queries(int np, const function<void(const Q &, int)> &f, const vector<int> &so, const vector<int> &pr, bool varPred = true, int maxv = 99) {
    Q q;
    function<void(int)> rec = [&](int nv) {
        if ((int) q.size() == 3 * np) { if (nv) f(q, nv); return; }
        int k = q.size() % 3;
        if (k != 1 || varPred) for (int v = 0; v <= nv && v < maxv; ++v) { q.push_back(Pos{v, -1}); rec(max(nv, v + 1)); q.pop_back(); }
        for (int t : k == 1 ? pr : so) { q.push_back(Pos{-1, t}); rec(nv); q.pop_back(); }
    };
    rec(0);
}
static void dict(Spec &sp, size_t n) { for (size_t i = 0; i < n; ++i) sp.dict.push_back(i == 4 ? "<y>" : TERM[i]); }
static vector<T3> sub(int m) { vector<T3> g; for (int i = 0; i < 8; ++i) if (m >> i & 1) g.push_back(T3{{(i >> 2) & 1, (i >> 1) & 1, i & 1}}); return g; }
static void over(const string &what, Spec sp, const vector<T3> &g, const function<void(KB &)> &f) {
    vh::runCase([&] { return what + show(g); }, [&] {
        string path = load(sp);
        KBConfig c; KB kb(path.c_str(), true, false, true, c);
        f(kb);
    });
    vh::wipeAll();
}
static void upd(const string &path, bool del, const vector<T3> &u) {
    string f = vh::newDir();
    { ofstream o(f + "/update.nt"); for (auto &t : u) o << TERM[t[0]] << " " << TERM[t[1]] << " " << TERM[t[2]] << " .\n"; }
    Updater up;
    up.creatediffupdate(del ? DiffIndex::TypeUpdate::DELETE_df : DiffIndex::TypeUpdate::ADDITION_df, path, f + "/update.nt");
}
// graphs with so many nodes that the tables of the operators grow and their entries collide
static void wide() {
    typedef vector<array<int, 3>> B; // a pattern: variable, number of the predicate, variable
    struct Qw { string name; B b; int nv; vector<int> proj; bool distinct; };
    vector<Qw> qs = {
        {"chain", {{{0, 0, 1}}, {{1, 1, 2}}, {{2, 2, 3}}}, 4, {0, 1, 2, 3}, false}, {"ends of a chain", {{{0, 0, 1}}, {{1, 1, 2}}, {{2, 2, 3}}}, 4, {3, 0}, false},
        {"last of a chain", {{{0, 0, 1}}, {{1, 1, 2}}, {{2, 2, 3}}}, 4, {3}, false}, {"different ends", {{{0, 0, 1}}, {{1, 1, 2}}, {{2, 2, 3}}}, 4, {0, 3}, true}, {"different middles", {{{0, 0, 1}}, {{1, 1, 2}}}, 3, {1}, true},
        {"different ends of one", {{{0, 0, 1}}}, 2, {0, 1}, true}, {"different pairs", {{{0, 0, 1}}, {{1, 1, 2}}}, 3, {2, 0}, true}, {"different triples", {{{0, 0, 1}}, {{1, 1, 2}}}, 3, {2, 0, 1}, true},
        {"cycle", {{{0, 0, 1}}, {{1, 1, 2}}, {{2, 2, 0}}}, 3, {0, 1, 2}, false}, {"two links", {{{0, 0, 1}}, {{0, 1, 1}}}, 2, {0, 1}, false}, {"there and back", {{{0, 0, 1}}, {{1, 1, 0}}}, 2, {1}, false},
        {"tree", {{{0, 0, 1}}, {{0, 1, 2}}, {{1, 2, 3}}}, 4, {2, 3}, false}, {"common target", {{{0, 0, 2}}, {{1, 1, 2}}}, 3, {0, 1}, false}, {"target and chain", {{{0, 0, 2}}, {{1, 1, 2}}, {{1, 2, 3}}}, 4, {0, 3}, true}};
    vector<int> ns = {60, 130, 700, 1500, 3100}; if (vh::thorough) ns = {5, 31, 50, 52, 64, 103, 130, 257, 410, 700, 1023, 1100, 1500, 2100, 3100, 5000, 9000};
    for (int n0 : ns) for (int fam = 0; fam < 7; ++fam) for (int rev = 0; rev < 2; ++rev) {
        int n = n0; set<T3> st; static const int F[7][3] = {{0, 0, 0}, {1, 0, 2}, {2, 1, 0}, {3, 0, 2}, {4, 0, 2}, {4, 4, 2}, {2, 4, 4}};
        for (int p = 0; p < 3; ++p) for (int i = 0; i < n; ++i) {
            int f = F[fam][p]; auto e = [&](int a, int b) { if (rev) swap(a, b); st.insert(T3{{3 + a, p, 3 + b}}); };
            if (f == 0) e(i, (i * 5 + p) % n); if (f == 1) e(i, i / 2); if (f == 2) { e(i, (i * 3 + p) % n); e(i, (i + 7) % n); } if (f == 4 && i % 10 == 0) { e(i, i / 50); if (i % 20 == 0) e(i, i / 50 + 3); } if (f == 3) { e(i, i % 1024); if (i % 4 == 0) e(i, (i + 1024) % n); }
        }
        if (n == 60 && fam == 6) { // pairs of values that hash alike
            n = 32900; st.clear(); for (int a = 3; a < 40; ++a) for (int b = 10; b < 14; ++b) for (int p = 0; p < 3; ++p) { st.insert(T3{{a, p, b}}); st.insert(T3{{b, p, a}}); st.insert(T3{{a, p, b ^ 32768}}); st.insert(T3{{b ^ 32768, p, a}}); }
        }
        vector<T3> g(st.begin(), st.end());
        Spec sp; sp.g = g; for (int i = 0; i < n + 3; ++i) sp.dict.push_back("<w" + to_string(i) + ">");
        vh::runCase([&] { return vh::fmt("%d nodes, family %d%s", n, fam, rev ? " reversed" : ""); }, [&] {
            string path = load(sp); KBConfig c; KB kb(path.c_str(), true, false, true, c);
            vector<vector<vector<int>>> out(3, vector<vector<int>>(n + 3)), in = out;
            for (auto &t : g) { out[t[1]][t[0]].push_back(t[2]); in[t[1]][t[2]].push_back(t[0]); }
            for (auto &q : qs) {
                vector<vector<int>> rows = {vector<int>(q.nv, -1)}; size_t most = vh::thorough ? 400000 : 60000;
                for (auto &b : q.b) {
                    vector<vector<int>> next;
                    for (auto &r : rows) {
                        auto add = [&](int x, int y) { auto w = r; w[b[0]] = x; if (b[0] == b[2] && x != y) return; w[b[2]] = y; next.push_back(w); };
                        int x = r[b[0]], y = r[b[2]];
                        if (x >= 0) { for (int o : out[b[1]][x]) if (y < 0 || y == o) add(x, o); }
                        else if (y >= 0) { for (int i : in[b[1]][y]) add(i, y); }
                        else for (int k = 0; k < n + 3; ++k) for (int o : out[b[1]][k]) add(k, o);
                        if (next.size() > most) break;
                    }
                    rows.swap(next);
                }
                if (rows.size() > most) continue;
                vector<sq::Row> want; for (auto &r : rows) { sq::Row w; for (int v : q.proj) w.push_back(sp.dict[r[v]]); want.push_back(w); }
                sort(want.begin(), want.end()); if (q.distinct) want.erase(unique(want.begin(), want.end()), want.end());
                string text = q.distinct ? "SELECT DISTINCT" : "SELECT"; for (int v : q.proj) text += " ?v" + to_string(v);
                text += " WHERE {"; for (auto &b : q.b) text += vh::fmt(" ?v%d <w%d> ?v%d .", b[0], b[1], b[2]); text += " }";
                sq::Res r = sq::run(kb, text); sort(r.rows.begin(), r.rows.end());
                vh::add("evaluations"); vh::outcome(vh::mix(vh::hashs(text), vh::mix(want.size(), n)));
                if (r.rows == want) continue;
                vector<sq::Row> miss, more; set_difference(want.begin(), want.end(), r.rows.begin(), r.rows.end(), back_inserter(miss)); set_difference(r.rows.begin(), r.rows.end(), want.begin(), want.end(), back_inserter(more));
                miss.resize(min<size_t>(miss.size(), 5)); more.resize(min<size_t>(more.size(), 5));
                vh::fail(q.name + ": " + text + vh::fmt(" has %zu rows instead of %zu; missing ", r.rows.size(), want.size()) + sq::show(miss) + ", wrong " + sq::show(more));
            }
        });
        vh::wipeAll();
    }
}
void explore() {
    Logger::setMinLevel(100);
    if (vh::arg("mode") == "wide") { wide(); return; }
    collect = vh::arg("collect") == "1";
    string mode = vh::arg("mode", "pats");
    int np = atoi(vh::arg("patterns", "2").c_str()), step = atoi((vh::thorough ? vh::arg("tstep", "1") : vh::arg("step", "1")).c_str());
    if (mode == "pats" || mode == "absent" || mode == "three" || mode == "config") for (int m = 1; m < 256; m += step) {
        vector<T3> g = sub(m);
        vector<pair<string, function<void(Spec &)>>> cfgs = {{"", [](Spec &) {}}};
        if (mode == "config") {
            cfgs.clear();
            for (int n : {3, 4}) for (int a = 0; a < 2; ++a) cfgs.push_back({vh::fmt("indices %d aggregate %d ", n, a), [=](Spec &s) { s.p.nindices = n; s.p.aggrIndices = a; }});
            cfgs.push_back({"aggregate ", [=](Spec &s) { s.p.aggrIndices = true; }});
            cfgs.push_back({"skip tables ", [=](Spec &s) { s.p.canSkipTables = true; s.p.thresholdSkipTable = 2; }});
        }
        // every triple stands for ten: the POS (PSO) tables are references into the OPS (SPO) tables
        if (mode == "config") for (int k : {0, 2}) for (int n : {3, 6}) {
            if (m % 3 != k / 2 && !vh::thorough) continue;
            Spec sp; sp.p.aggrIndices = true; sp.p.nindices = n; dict(sp, 40);
            vector<T3> b;
            for (auto &x : g) for (int i = 0; i < 10; ++i) { T3 y = x; if (i) y[k] += 4 + 2 * i; b.push_back(y); }
            sort(b.begin(), b.end());
            sp.g = b;
            over(vh::fmt("references %d indices %d ", k, n), sp, b, [&](KB &kb) {
                auto f = [&](const Q &q, int nv) { one(kb, q, nv, b); };
                queries(1, f, {0, 1, 6}, {0, 1});
                queries(2, f, {0, 6}, {0, 1}, false, 3);
            });
        }
        for (auto &cf : cfgs) {
            Spec sp; sp.g = g; dict(sp, 4); cf.second(sp);
            over(cf.first, sp, g, [&](KB &kb) {
                auto f = [&](const Q &q, int nv) { one(kb, q, nv, g); };
                if (mode == "pats" || mode == "config") queries(np, f, {0, 1}, {0, 1});
                else if (mode == "absent") { queries(1, f, {0, 2, 3, 4}, {0, 2, 4}); queries(2, f, {0, 3, 4}, {0, 4}, true, 3); }
                else queries(3, f, {0}, {0, 1}, false, 4);
            });
        }
    }
    if (mode == "update") for (int m = 1; m < 256; m += step) for (int u : {1, 6, 40, 129, 90, 255}) for (int del = 0; del < 3; ++del) {
        // added only, removed only, added and then another set removed
        vector<T3> g = sub(m), a = sub(u), r = sub(u ^ 0x5a);
        int want = del == 0 ? (m | u) : del == 1 ? (m & ~u) : ((m | u) & ~(u ^ 0x5a));
        if (!want) continue;
        vector<T3> w = sub(want);
        vh::runCase([&] { return vh::fmt("%s update %d of ", show(g).c_str(), del) + show(a); }, [&] {
            Spec sp; sp.g = g; dict(sp, 4);
            string path = load(sp);
            upd(path, del == 1, a);
            if (del == 2 && r.size()) upd(path, true, r);
            KBConfig c; KB kb(path.c_str(), true, false, true, c);
            queries(np, [&](const Q &q, int nv) { one(kb, q, nv, w); }, {0, 1}, {0, 1});
        });
        vh::wipeAll();
    }
    if (mode == "shape") {
        // larger graphs: chains, stars, cycles, cliques and their combinations
        for (int kind = 0; kind < 6; ++kind) for (int n : {3, 8, 20}) for (int k2 = 0; k2 < 3; ++k2) {
            set<T3> s;
            auto e = [&](int a, int p, int b) { s.insert(T3{{5 + a, p, 5 + b}}); };
            for (int i = 0; i < n; ++i) {
                if (kind == 0) e(i, 0, i + 1);
                if (kind == 1) e(0, 0, i + 1);
                if (kind == 2) e(i + 1, 0, 0);
                if (kind == 3) e(i, 0, (i + 1) % n);
                if (kind == 4 && n < 20) for (int j = 0; j < n; ++j) e(i, 0, j);
                if (kind == 5) { e(i, 0, i / 2); e(i, 0, n - i); }
                if (k2 == 1) e(i, 1, (i * 7 + 3) % n);
                if (k2 == 2) { e(i, 1, i); if (i % 3 == 0) e(i, 1, 0); }
            }
            if (s.empty()) continue;
            vector<T3> g(s.begin(), s.end());
            Spec sp; sp.g = g; dict(sp, 40);
            over("", sp, g, [&](KB &kb) {
                auto f = [&](const Q &q, int nv) { one(kb, q, nv, g); };
                queries(1, f, {5, 6, 0}, {0, 1});
                queries(2, f, {5, 8}, {0, 1}, vh::thorough || g.size() < 12, vh::thorough || g.size() < 12 ? 99 : 3);
                if (g.size() < 12 || vh::thorough) queries(3, f, {5}, {0, 1}, false, 3);
            });
        }
    }
    if (collect) { printf("%zu bad\n", bad.size()); int n = 0; for (auto &b : bad) if (n++ < 40) printf("%d %s\n", b.second.first, b.second.second.c_str()); }
}
