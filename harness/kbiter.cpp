// Operation sequences on the iterators of a freshly loaded KB.
#include "iterx.h"
using namespace std;
using namespace kbu;
struct Cfg { string name; function<void(Spec &)> set; };
// tables beyond the thresholds of the binary searches: from several positions, every target
static void large(const vector<Cfg> &cs) {
    struct S { int n1, n2; };
    // axis: the permutation in whose order the table is laid out (POS and PSO tables may be references into other tables)
    for (int axis : {0, 2, 5}) for (auto &c : cs) for (S z : {S{1, 70}, S{70, 1}, S{12, 12}, S{2, 100}, S{100, 2}, S{3, 300}}) for (int64_t base : {0L, 300L, 70000L}) {
        if (c.name.compare(0, 8, "nindices") == 0) continue;
        if (axis && c.name.compare(0, 4, "aggr") && (c.name != "default" || base)) continue;
        if (axis && base == 300 && !vh::thorough) continue;
        auto place = [&](int64_t a, int64_t b, int64_t d) { T3 t; t[ORD[axis][0]] = a; t[ORD[axis][1]] = b; t[ORD[axis][2]] = d; return t; };
        vector<T3> g = {place(1, 1, 1), place(3, 1, 1)};
        for (int i = 0; i < z.n1; ++i) for (int j = 0; j < z.n2; ++j) g.push_back(place(2, base + 2 * i + 1, 2 * j + 1));
        sort(g.begin(), g.end());
        vh::runCase([&] { return c.name + vh::fmt(" table of %d x %d from %ld", z.n1, z.n2, (long) base) + (axis ? axis == 2 ? " (POS)" : " (PSO)" : ""); }, [&] {
            Spec sp; sp.g = g; sp.dict = defDict(5);
            c.set(sp);
            string kb = load(sp);
            Open k(kb);
            Querier *q = k.q.get();
            const int perms[2] = {axis, axis == 0 ? 3 : axis == 2 ? 5 : 2};
            for (int perm : perms) for (int bound = 0; bound < 2; ++bound) for (int ign = 0; ign < 2; ++ign) {
                if (bound && ign) continue;
                vector<T3> all;
                for (auto &t : g) if (t[ORD[perm][0]] == 2) all.push_back(T3{{2, t[ORD[perm][1]], t[ORD[perm][2]]}});
                sort(all.begin(), all.end());
                set<int64_t> f, s2; for (auto &t : all) { f.insert(t[1]); s2.insert(t[2]); }
                vector<int64_t> firsts(f.begin(), f.end()), b = {-1};
                if (bound) b = {firsts[0], firsts[firsts.size() / 2], firsts.back()};
                for (int64_t bv : b) {
                    vector<T3> rows;
                    for (auto &t : all) if (bv < 0 || t[1] == bv) {
                        if (!ign) rows.push_back(t);
                        else if (rows.empty() || rows.back()[1] != t[1]) rows.push_back(T3{{2, t[1], 1}}); else rows.back()[2]++;
                    }
                    int64_t n = rows.size();
                    set<int64_t> ps = {1, 2, n / 2, n - 1, n};
                    for (int64_t p0 : ps) if (p0 >= 1 && p0 <= n) for (int64_t c1 : f) for (int d1 = -1; d1 < 2; ++d1) for (int64_t c2 : s2) for (int d2 = -1; d2 < (ign ? 0 : 2); ++d2) {
                        if (d1 && f.size() * s2.size() > 200 && c2 != *s2.begin() && c2 != *s2.rbegin()) continue;
                        if (ign && c2 != *s2.begin()) continue;
                        int64_t t1 = c1 + d1, t2 = ign ? 0 : c2 + d2;
                        int64_t v[3] = {-1, -1, -1}; v[ORD[perm][0]] = 2; v[ORD[perm][1]] = bv;
                        PairItr *it = q->getIterator(perm, v[0], v[1], v[2]);
                        if (ign) it->ignoreSecondColumn();
                        for (int64_t i = 0; i < p0; ++i) { if (!it->hasNext()) vh::fail("iterator too short"); it->next(); }
                        if (it->getValue1() != rows[p0 - 1][1] || (!ign && it->getValue2() != rows[p0 - 1][2])) vh::fail("wrong row");
                        it->moveto(t1, t2);
                        int64_t j = p0 - 1;
                        while (j < n && (rows[j][1] < t1 || (!ign && rows[j][1] == t1 && rows[j][2] < t2))) j++;
                        for (int64_t e = j; e <= n && e < j + 3; ++e) {
                            bool h = it->hasNext();
                            if (h != (e < n)) vh::fail(vh::fmt("perm %d bound %ld ignore %d: from row %ld moveto(%ld,%ld): hasNext()=%d before row %ld of %ld", perm, (long) bv, ign, (long) p0, (long) t1, (long) t2, (int) h, (long) e, (long) n));
                            if (!h) break;
                            it->next();
                            if (it->getValue1() != rows[e][1] || (!ign && it->getValue2() != rows[e][2])) vh::fail(vh::fmt("perm %d bound %ld ignore %d: from row %ld moveto(%ld,%ld): row (%ld,%ld) instead of (%ld,%ld)", perm, (long) bv, ign, (long) p0, (long) t1, (long) t2, (long) it->getValue1(), (long) it->getValue2(), (long) rows[e][1], (long) rows[e][2]));
                        }
                        vh::add("states"); vh::add("transitions", p0 + 1);
                        vh::outcome(vh::mix(vh::mix(j, n), perm * 4 + bound * 2 + ign));
                        q->releaseItr(it);
                    }
                }
            }
        });
        vh::wipeAll();
    }
}
// Key lists: all sequences of next, getCount, mark, reset and gotoKey
static void termLists(const string &what, function<PairItr *()> get, function<void(PairItr *)> put, const vector<pair<int64_t, int64_t>> &rows, int depth) {
    string seq;
    function<void()> rec = [&] {
        PairItr *it = get();
        if (it->getTypeItr() == EMPTY_ITR) { if (rows.size()) vh::fail(what + " is empty"); return; }
        int64_t pos = -1, mark = -1; bool at = false, end = false, ok = true;
        size_t from = 0; // the next key
        bool gto = it->getTypeItr() == TERM_ITR;
        auto next = [&] {
            bool h = it->hasNext();
            if (h != (from < rows.size())) vh::fail(what + " " + seq + vh::fmt(": hasNext() says %d at key %zu of %zu", (int) h, from, rows.size()));
            if (!h) { end = true; return; }
            it->next();
            pos = from++; at = true;
            if (it->getKey() != rows[pos].first) vh::fail(what + " " + seq + vh::fmt(": key %ld instead of %ld", (long) it->getKey(), (long) rows[pos].first));
        };
        for (char c : seq) {
            vh::add("transitions");
            if (c == 'N') { next(); if (end) { ok = false; break; } }
            else if (c == 'C') {
                if (!at) { ok = false; break; }
                int64_t n = it->getCount();
                if (n != rows[pos].second) vh::fail(what + " " + seq + vh::fmt(": count of key %ld is %ld instead of %ld", (long) rows[pos].first, (long) n, (long) rows[pos].second));
            } else if (c == 'M') { if (!at) { ok = false; break; } it->mark(); mark = pos; }
            else if (c == 'R') { if (mark < 0) { ok = false; break; } it->reset(0); pos = mark; from = mark + 1; at = true;
                if (it->getKey() != rows[pos].first) vh::fail(what + " " + seq + ": the key after reset differs from the marked one"); }
            else { // gotoKey
                if (!gto || !at || c - '0' <= rows[pos].first) { ok = false; break; }
                it->gotoKey(c - '0'); at = false;
                while (from < rows.size() && rows[from].first < c - '0') from++;
            }
        }
        if (ok) { while (!end) next(); vh::add("states"); }
        put(it);
        if (!ok || (int) seq.size() == depth) return;
        for (char c : {'N', 'C', 'M', 'R', '1', '2', '3', '4', '5'}) { seq.push_back(c); rec(); seq.pop_back(); }
    };
    rec();
}
void explore() {
    Logger::setMinLevel(100);
    string mode = vh::arg("mode", "plain");
    vector<Cfg> cs = {{"default", [](Spec &) {}}, {"column", [](Spec &s) { s.p.enableFixedStrat = true; s.p.fixedStrat = FIXEDSTRAT5; }}, {"row", [](Spec &s) { s.p.enableFixedStrat = true; s.p.fixedStrat = FIXEDSTRAT6; }},
        {"cluster", [](Spec &s) { s.p.enableFixedStrat = true; s.p.fixedStrat = FIXEDSTRAT7; }}, {"nindices=3", [](Spec &s) { s.p.nindices = 3; }}, {"skip", [](Spec &s) { s.p.canSkipTables = true; }}, {"aggr", [](Spec &s) { s.p.aggrIndices = true; }},
        {"aggr skip", [](Spec &s) { s.p.aggrIndices = true; s.p.canSkipTables = true; }}, {"nindices=1", [](Spec &s) { s.p.nindices = 1; }}, {"nindices=4 aggr", [](Spec &s) { s.p.nindices = 4; s.p.aggrIndices = true; }},
        // groups of at least nine pairs: the POS (PSO) tables hold references into the OPS (SPO) tables
        {"references s", [](Spec &s) { s.p.aggrIndices = true; }}, {"references o", [](Spec &s) { s.p.aggrIndices = true; }}};
    if (mode == "large") { large(cs); return; }
    for (auto &c : cs) for (int m = 1; m < 64; ++m) {
        if (vh::arg("cfg") != "" && vh::arg("cfg") != c.name) continue;
        vector<T3> g = {T3{{0, 1, 1}}, T3{{0, 1, 3}}, T3{{4, 1, 0}}, T3{{4, 3, 1}}};
        for (int i = 0; i < 6; ++i) if (m >> i & 1) g.push_back(T3{{2, 1 + i / 2, (i & 1) * 2 + 1}});
        if (c.name[0] == 'r') {
            if (!vh::thorough && m % 3) continue;
            bool s = c.name == "references s";
            if (mode == "terms") continue;
            vector<T3> b;
            for (auto &t : g) for (int i = 0; i < 9; ++i) { T3 u = s ? T3{{t[1] + 5 * i, 2 - t[0] / 2, t[2]}} : T3{{t[2], 2 - t[0] / 2, t[1] + 5 * i}}; b.push_back(u); }
            sort(b.begin(), b.end()); b.erase(unique(b.begin(), b.end()), b.end());
            g = b;
        }
        vh::runCase([&] { return c.name + " " + show(g); }, [&] {
            Spec sp; sp.g = g; sp.dict = defDict(5);
            c.set(sp);
            string kb = load(sp);
            Open k(kb);
            Querier *q = k.q.get();
            if (mode == "terms") {
                for (int idx = 0; idx < 6; ++idx) {
                    map<int64_t, int64_t> n; for (auto &t : g) n[t[ORD[idx][0]]]++;
                    vector<pair<int64_t, int64_t>> rows(n.begin(), n.end());
                    vh::outcome(vh::fmt("%zu %d", rows.size(), idx));
                    termLists(vh::fmt("getTermList(%d)", idx), [&] { return q->getTermList(idx); }, [&](PairItr *i) { q->releaseItr(i); }, rows, vh::thorough ? 7 : 6);
                }
                return;
            }
            for (int idx = 0; idx < 6; ++idx) for (int64_t k0 : {-1, 0, 2, 1}) for (int64_t k1 : {-1, 1, 2}) {
                if (c.name[0] == 'r' && idx != 2 && idx != 5) continue;
                if (k0 < 0 && k1 >= 0) continue;
                if (idx == 4 && c.name[0] == 'x') continue;
                int64_t v[3] = {-1, -1, -1};
                v[ORD[idx][0]] = k0; v[ORD[idx][1]] = k1;
                vector<T3> rows;
                for (auto &t : g) if (match(t, v[0], v[1], v[2])) rows.push_back(T3{{t[ORD[idx][0]], t[ORD[idx][1]], t[ORD[idx][2]]}});
                sort(rows.begin(), rows.end());
                iterx::Mk mk{[&] { return q->getIterator(idx, v[0], v[1], v[2]); }, [&](PairItr *i) { q->releaseItr(i); }};
                iterx::Opts o;
                for (int64_t a = 0; a < 5; ++a) for (int64_t b : {0, 1, 2, 4}) if ((a == 1 || a == 2 || b == 0 || b == 2) && (k1 < 0 || a == k1)) o.to.push_back(make_pair(a, b));
                if (k0 < 0) { o.keys = {1, 2, 3, 4, 5}; o.maxNext = 2; }
                string what = vh::fmt("getIterator(%d,%ld,%ld,%ld)", idx, (long) v[0], (long) v[1], (long) v[2]);
                if (mode == "ignore") {
                    if (k1 >= 0) continue;
                    o.ignore = true;
                    vector<T3> r2;
                    for (auto &t : rows) { if (r2.empty() || r2.back()[0] != t[0] || r2.back()[1] != t[1]) r2.push_back(T3{{t[0], t[1], 1}}); else r2.back()[2]++; }
                    rows = r2;
                    o.to.clear(); for (int64_t a = 0; a < 5; ++a) o.to.push_back(make_pair(a, 0));
                    o.marks = vh::arg("marks") != "0";
                }
                vh::outcome(show(rows));
                if (vh::thorough) { o.maxNext = 2; o.blocks = 3; }
                iterx::all(what, mk, rows, o);
            }
        });
        vh::wipeAll();
    }
}
