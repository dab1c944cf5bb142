// Every pattern over every permutation of a freshly loaded KB against the set of triples.
#include "kbcheck.h"
using namespace std;
using namespace kbu;
using namespace kbc;
struct Cfg { string name; function<void(Spec &)> set; };
static vector<T3> unify(vector<T3> g) { sort(g.begin(), g.end()); g.erase(unique(g.begin(), g.end()), g.end()); return g; }
static void one(const string &name, const vector<T3> &in, const function<void(Spec &)> &set, const vector<int64_t> &dom, int64_t nterms) {
    vh::runCase([&] { return name + " " + show(in); }, [&] {
        Spec sp; sp.g = in; sp.dict = defDict(nterms);
        set(sp);
        string kb = load(sp);
        Open k(kb);
        vector<T3> g = unify(in);
        if ((int64_t) k.q->getInputSize() != (int64_t) g.size()) vh::fail(vh::fmt("input size %ld for %ld triples", (long) k.q->getInputSize(), (long) g.size()));
        checkPatterns(k.q.get(), g, dom);
    });
    vh::wipeAll();
}
static vector<Cfg> configs() {
    vector<Cfg> r;
    for (int n : {1, 3, 4, 6}) r.push_back({"nindices=" + to_string(n), [=](Spec &s) { s.p.nindices = n; }});
    for (int n : {3, 4, 6}) for (int aggr = 0; aggr < 2; ++aggr) for (int fs = 0; fs < 4; ++fs) for (int skip = 0; skip < 3; ++skip)
        r.push_back({vh::fmt("nindices=%d aggr=%d fixedstrat=%d skip=%d", n, aggr, fs ? fs + 4 : 0, skip), [=](Spec &s) {
            s.p.nindices = n; s.p.aggrIndices = aggr;
            if (fs) { s.p.enableFixedStrat = true; s.p.fixedStrat = fs == 1 ? FIXEDSTRAT5 : fs == 2 ? FIXEDSTRAT6 : FIXEDSTRAT7; }
            if (skip) { s.p.canSkipTables = true; s.p.thresholdSkipTable = skip == 1 ? 1 : 20; }
        }});
    for (int t : {2, 4, 8}) for (int n : {3, 6}) r.push_back({vh::fmt("threads=%d nindices=%d", t, n), [=](Spec &s) { s.p.parallelThreads = t; s.p.maxReadingThreads = t / 2; s.p.nindices = n; }});
    r.push_back({"flatTree", [](Spec &s) { s.p.flatTree = true; }});
    r.push_back({"plainlist", [](Spec &s) { s.p.storePlainList = true; }});
    r.push_back({"blocks", [](Spec &s) { s.p.createIndicesInBlocks = true; s.p.parallelThreads = 2; }});
    r.push_back({"sample", [](Spec &s) { s.p.sample = true; s.p.sampleRate = 0.5; }});
    return r;
}

// Patterns relevant for a larger graph: every combination of values that occur in one of the probes (or -1)
static void checkProbes(Querier *q, const vector<T3> &g, const vector<T3> &probes) {
    set<array<int64_t, 4>> done;
    for (auto &t : probes) for (int m = 0; m < 8; ++m) for (int idx = 0; idx < 6; ++idx) {
        int64_t v[3]; for (int k = 0; k < 3; ++k) v[k] = m >> k & 1 ? t[k] : -1;
        bool var = false, ok = true;
        for (int k = 0; k < 3; ++k) { if (v[ORD[idx][k]] < 0) var = true; else if (var) ok = false; }
        if (!ok || !done.insert(array<int64_t, 4>{{(int64_t) idx, v[0], v[1], v[2]}}).second) continue;
        PairItr *it = q->getIterator(idx, v[0], v[1], v[2]);
        vector<T3> got;
        if (it->getTypeItr() != EMPTY_ITR) { got = drain(it); q->releaseItr(it); }
        vector<T3> e = expect(g, idx, v[0], v[1], v[2]);
        vh::add("evaluations");
        vh::outcome(vh::mix(vh::hashs(show(e)), idx));
        if (got != e) vh::fail(vh::fmt("getIterator(%d,%ld,%ld,%ld) gives %zu rows instead of %zu; ", idx, (long) v[0], (long) v[1], (long) v[2], got.size(), e.size()) + (e.size() < 40 ? show(got) + " instead of " + show(e) : ""));
    }
}
static void shape(const string &name, const vector<T3> &in, const function<void(Spec &)> &set) {
    vh::runCase([&] { return name; }, [&] {
        Spec sp; sp.g = in; sp.dict = defDict(3);
        set(sp);
        string kb = load(sp);
        Open k(kb);
        vector<T3> g = unify(in);
        vector<T3> probes;
        for (size_t i : {size_t(0), g.size() / 3, g.size() / 2, g.size() - 1}) probes.push_back(g[i]);
        for (size_t i = 1; i < g.size(); ++i) if (g[i][0] != g[i - 1][0] && probes.size() < 12) { probes.push_back(g[i - 1]); probes.push_back(g[i]); }
        T3 t = g[g.size() / 2]; t[2]++; probes.push_back(t); t[1]++; probes.push_back(t); t[0]++; probes.push_back(t);
        checkProbes(k.q.get(), g, probes);
    });
    vh::wipeAll();
}
void explore() {
    Logger::setMinLevel(100);
    string mode = vh::arg("mode", "small");
    if (mode == "small") {
        for (int m = 0; m < 256; ++m) {
            vector<T3> g;
            for (int i = 0; i < 8; ++i) if (m >> i & 1) g.push_back(T3{{(i >> 2) & 1, (i >> 1) & 1, i & 1}});
            one("default", g, [](Spec &) {}, {-1, 0, 1, 2}, 3);
        }
    }
    if (mode == "config") {
        auto cs = configs();
        string onlyc = vh::arg("cfg");
        for (auto &c : cs) { if (onlyc.size() && c.name != onlyc) continue;
        for (int m = 1; m < 256; ++m) {
            if (!vh::thorough && __builtin_popcount(m) > 3 && __builtin_popcount(m) < 7) continue;
            vector<T3> g;
            for (int i = 0; i < 8; ++i) if (m >> i & 1) g.push_back(T3{{(i >> 2) & 1, (i >> 1) & 1, i & 1}});
            one(c.name, g, c.set, {-1, 0, 1, 2}, 3);
        } }
    }
    if (mode == "shape") {
        // one subject table: n1 first terms with n2 second terms each, the ids of each column scaled to a byte width
        vector<int64_t> bases = {0, 250, 65530, (1LL << 24) - 3, (1LL << 31) - 3, (1LL << 32) - 3, (1LL << 39) - 3, (1LL << 40) - 700};
        for (int n1 : {1, 2, 3, 9, 10, 40}) for (int n2 : {1, 2, 3, 11, 255, 256, 300})
            for (size_t b1 = 0; b1 < bases.size(); ++b1) for (size_t b2 = 0; b2 < bases.size(); ++b2) {
                if (!vh::thorough && b1 != b2 && (b1 && b2 && b1 != 4 && b2 != 6)) continue;
                vector<T3> g;
                for (int i = 0; i < n1; ++i) for (int j = 0; j < n2; ++j) g.push_back(T3{{bases[b1 ? b1 - 1 : 0] / 2 + 5, bases[b1] + i, bases[b2] + 2 * j}});
                for (int i = 0; i < 3; ++i) g.push_back(T3{{bases[b1 ? b1 - 1 : 0] / 2 + 6 + i, bases[b1] + i, bases[b2] + 1}});
                shape(vh::fmt("shape n1=%d n2=%d base1=%ld base2=%ld", n1, n2, (long) bases[b1], (long) bases[b2]), g, [](Spec &) {});
            }
    }    if (mode == "groups") {
        // one subject table: every sequence of group sizes around the width boundaries of the counters, after a
        // number of single-element groups, in every layout
        vector<int> al = {1, 2, 255, 256, 257};
        vector<vector<int>> seqs;
        for (int a : al) { seqs.push_back({a}); for (int b : al) { seqs.push_back({a, b}); for (int c : al) if (vh::thorough || c == 1 || c >= 256) seqs.push_back({a, b, c}); } }
        seqs.push_back({1, 65535}); seqs.push_back({1, 65536}); seqs.push_back({65536, 1}); seqs.push_back({2, 65537, 3});
        for (auto &sq : seqs) for (int pre : {0, 12, 300}) for (int fs = 0; fs < 4; ++fs) for (int w = 0; w < 3; ++w) {
            bool big = false; for (int x : sq) if (x > 60000) big = true;
            if (big && (w || pre == 12) && !vh::thorough) continue;
            int64_t b1 = w == 1 ? 70000 : w == 2 ? 1LL << 33 : 10, b2 = w == 2 ? 1LL << 34 : w == 1 ? 200 : 3;
            vector<T3> g; int64_t v = b1;
            for (int i = 0; i < pre; ++i) g.push_back(T3{{5, v++, b2 + i % 3}});
            for (int n : sq) { for (int j = 0; j < n; ++j) g.push_back(T3{{5, v, b2 + j}}); v++; }
            shape(vh::fmt("groups of %s after %d single ones, fixedstrat=%d width=%d", [&] { string r; for (int x : sq) r += to_string(x) + " "; return r; }().c_str(), pre, fs ? fs + 4 : 0, w), g, [=](Spec &s) {
                if (fs) { s.p.enableFixedStrat = true; s.p.fixedStrat = fs == 1 ? FIXEDSTRAT5 : fs == 2 ? FIXEDSTRAT6 : FIXEDSTRAT7; }
            });
        }
    }
}
