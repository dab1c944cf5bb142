// Comparison of everything a querier answers with a set of triples.
#ifndef KBCHECK_H
#define KBCHECK_H
#include "kbutil.h"
namespace kbc {
using namespace std;
using namespace kbu;
static vector<T3> expect(const vector<T3> &g, int idx, int64_t s, int64_t p, int64_t o) {
    vector<T3> r;
    for (auto &t : g) if (match(t, s, p, o)) r.push_back(T3{{t[ORD[idx][0]], t[ORD[idx][1]], t[ORD[idx][2]]}});
    sort(r.begin(), r.end());
    return r;
}
static void checkPatterns(Querier *q, const vector<T3> &g, const vector<int64_t> &dom) {
    for (int idx = 0; idx < 6; ++idx) for (int64_t s : dom) for (int64_t p : dom) for (int64_t o : dom) {
        int64_t v[3] = {s, p, o};
        bool var = false, ok = true; // bound terms must be a prefix of the permutation
        for (int k = 0; k < 3; ++k) { if (v[ORD[idx][k]] < 0) var = true; else if (var) ok = false; }
        if (!ok) continue;
        PairItr *it = q->getIterator(idx, s, p, o);
        vector<T3> got;
        if (it->getTypeItr() != EMPTY_ITR) {
            got = drain(it);
            q->releaseItr(it);
        }
        vector<T3> e = expect(g, idx, s, p, o);
        vh::add("evaluations");
        vh::outcome(vh::mix(vh::hashs(show(e)), idx));
        if (got != e) vh::fail(vh::fmt("getIterator(%d,%ld,%ld,%ld) gives ", idx, (long)s, (long)p, (long)o) + show(got) + " instead of " + show(e));
    }
}
typedef vector<int64_t> Pat;
static bool matchv(const T3 &t, const Pat &v) { // negative numbers are variables; -1 is anonymous, equal numbers below -1 are one variable
    for (int i = 0; i < 3; ++i) if (v[i] >= 0 && t[i] != v[i]) return false;
    for (int i = 0; i < 3; ++i) for (int j = i + 1; j < 3; ++j) if (v[i] < -1 && v[i] == v[j] && t[i] != t[j]) return false;
    return true;
}
static string ps(const Pat &v) { return vh::fmt("(%ld,%ld,%ld)", (long) v[0], (long) v[1], (long) v[2]); }
static void eq(const string &what, long got, long exp) {
    vh::add("evaluations");
    vh::outcome(vh::mix(vh::hashs(what.substr(0, what.find('('))), exp));
    if (got != exp) vh::fail(what + vh::fmt(" = %ld instead of %ld", got, exp));
}
static const char *ONAME[6] = {"srd", "sdr", "drs", "dsr", "rsd", "rds"};
static const int OPOS[6][3] = {{0,1,2},{0,2,1},{2,1,0},{2,0,1},{1,0,2},{1,2,0}};
static EdgeItr *edg(Querier *q, int k, const Pat &v) {
    switch (k) {
        case 0: return q->edg_srd(v[0], v[1], v[2]);
        case 1: return q->edg_sdr(v[0], v[1], v[2]);
        case 2: return q->edg_drs(v[0], v[1], v[2]);
        case 3: return q->edg_dsr(v[0], v[1], v[2]);
        case 4: return q->edg_rsd(v[0], v[1], v[2]);
        default: return q->edg_rds(v[0], v[1], v[2]);
    }
}
static void pos(Querier *q, int k, const Pat &v, int i, uint64_t *r) {
    switch (k) {
        case 0: q->pos_srd(v[0], v[1], v[2], i, r); break;
        case 1: q->pos_sdr(v[0], v[1], v[2], i, r); break;
        case 2: q->pos_drs(v[0], v[1], v[2], i, r); break;
        case 3: q->pos_dsr(v[0], v[1], v[2], i, r); break;
        case 4: q->pos_rsd(v[0], v[1], v[2], i, r); break;
        default: q->pos_rds(v[0], v[1], v[2], i, r); break;
    }
}
static KeyCardItr *grp(Querier *q, int k, const Pat &v) {
    switch (k) {
        case 0: return q->grp_s(v[0], v[1], v[2]);
        case 1: return q->grp_r(v[0], v[1], v[2]);
        case 2: return q->grp_d(v[0], v[1], v[2]);
        case 3: return q->grp_sr(v[0], v[1], v[2]);
        case 4: return q->grp_sd(v[0], v[1], v[2]);
        case 5: return q->grp_rs(v[0], v[1], v[2]);
        case 6: return q->grp_rd(v[0], v[1], v[2]);
        case 7: return q->grp_ds(v[0], v[1], v[2]);
        default: return q->grp_dr(v[0], v[1], v[2]);
    }
}
static uint64_t cntgrp(Querier *q, int k, const Pat &v) {
    switch (k) {
        case 0: return q->cnt_grp_s(v[0], v[1], v[2]);
        case 1: return q->cnt_grp_r(v[0], v[1], v[2]);
        case 2: return q->cnt_grp_d(v[0], v[1], v[2]);
        case 3: return q->cnt_grp_sr(v[0], v[1], v[2]);
        case 4: return q->cnt_grp_sd(v[0], v[1], v[2]);
        case 5: return q->cnt_grp_rs(v[0], v[1], v[2]);
        case 6: return q->cnt_grp_rd(v[0], v[1], v[2]);
        case 7: return q->cnt_grp_ds(v[0], v[1], v[2]);
        default: return q->cnt_grp_dr(v[0], v[1], v[2]);
    }
}
static const char *GNAME[9] = {"s", "r", "d", "sr", "sd", "rs", "rd", "ds", "dr"};
static const int GPOS[9][2] = {{0,-1},{1,-1},{2,-1},{0,1},{0,2},{1,0},{1,2},{2,0},{2,1}};
static void count(Querier *q, const vector<T3> &g, const vector<int64_t> &dom, const vector<int> &perms) {
    eq("getInputSize()", q->getInputSize(), g.size());
    for (int64_t s : dom) for (int64_t p : dom) for (int64_t o : dom) {
        Pat v{s, p, o};
        long n = 0; set<int64_t> d[3];
        for (auto &t : g) if (matchv(t, v)) { n++; for (int i = 0; i < 3; ++i) d[i].insert(t[i]); }
        eq("getCard" + ps(v), q->getCard(s, p, o), n);
        eq("getCard again" + ps(v), q->getCard(s, p, o), n);
        eq("exists" + ps(v), q->exists(s, p, o), n > 0);
        eq("isEmpty" + ps(v), q->isEmpty(s, p, o), n == 0);
        if (s >= 0 || p >= 0 || o >= 0) for (int i = 0; i < 3; ++i) if (v[i] < 0)
            eq(vh::fmt("getCard pos %d ", i) + ps(v), q->getCard(s, p, o, i), d[i].size());
        for (int idx = 0; idx < 6; ++idx) {
            bool var = false, ok = true; int nb = 0;
            for (int k = 0; k < 3; ++k) { if (v[ORD[idx][k]] < 0) var = true; else { nb++; if (var) ok = false; } }
            if (!ok) continue;
            eq(vh::fmt("getCardOnIndex %d ", idx) + ps(v), q->getCardOnIndex(idx, s, p, o), n);
            if (nb) { // number of distinct values of the first unbound position but one
                long e = n > 0; if (nb == 1) e = d[ORD[idx][1]].size();
                eq(vh::fmt("getCardOnIndex skipLast %d ", idx) + ps(v), q->getCardOnIndex(idx, s, p, o, true), e);
            }
        }
    }
    for (int idx : perms) {
        map<int64_t, long> keys; for (auto &t : g) keys[t[ORD[idx][0]]]++;
        PairItr *it = q->getTermList(idx);
        vector<int64_t> got, exp; // key, number of triples with it
        while (it->hasNext()) { it->next(); got.push_back(it->getKey()); got.push_back(it->getCount()); if (got.size() > 1000) vh::fail("endless term list"); }
        q->releaseItr(it);
        for (auto &k : keys) { exp.push_back(k.first); exp.push_back(k.second); }
        vh::add("evaluations");
        if (got != exp) vh::fail(vh::fmt("getTermList(%d), keys with their counts, = ", idx) + vh::str(got) + " instead of " + vh::str(exp));
        for (int64_t k : dom) if (k >= 0) eq(vh::fmt("existKey %d (%ld)", idx, (long) k), q->existKey(idx, k), keys.count(k));
    }
}
static void edges(Querier *q, const vector<T3> &g, const vector<int64_t> &dom, bool same) {
    for (int64_t s : dom) for (int64_t p : dom) for (int64_t o : dom) {
        Pat v{s, p, o};
        if (same != ((v[0] < 0 && v[0] == v[1]) || (v[0] < 0 && v[0] == v[2]) || (v[1] < 0 && v[1] == v[2]))) continue;
        vector<T3> m; for (auto &t : g) if (matchv(t, v)) m.push_back(t);
        eq("countEdges" + ps(v), q->countEdges(v[0], v[1], v[2]), m.size());
        for (int k = 0; k < 6; ++k) {
            auto lt = [&](const T3 &a, const T3 &b) { for (int i = 0; i < 3; ++i) if (a[OPOS[k][i]] != b[OPOS[k][i]]) return a[OPOS[k][i]] < b[OPOS[k][i]]; return false; };
            sort(m.begin(), m.end(), lt);
            EdgeItr *e = edg(q, k, v);
            vector<T3> got;
            while (e->hasNext()) { e->next(); uint64_t r[3]; e->getTriple(r); got.push_back(T3{{(int64_t) r[0], (int64_t) r[1], (int64_t) r[2]}}); if (got.size() > 1000) vh::fail("endless"); }
            delete e;
            vh::add("evaluations");
            if (got != m) vh::fail(string("edg_") + ONAME[k] + ps(v) + " = " + show(got) + " instead of " + show(m));
            for (size_t i = 0; i < m.size(); ++i) {
                uint64_t r[3] = {99, 99, 99};
                pos(q, k, v, i, r);
                T3 x{{(int64_t) r[0], (int64_t) r[1], (int64_t) r[2]}};
                if (x != m[i]) vh::fail(string("pos_") + ONAME[k] + ps(v) + vh::fmt(" at %zu = ", i) + show({x}) + " instead of " + show({m[i]}));
            }
            bool thrown = false;
            try { uint64_t r[3]; pos(q, k, v, m.size(), r); } catch (int) { thrown = true; }
            if (!thrown) vh::fail(string("pos_") + ONAME[k] + ps(v) + " past the end does not throw");
        }
        for (int k = 0; k < 9; ++k) {
            map<pair<int64_t, int64_t>, long> e;
            for (auto &t : m) e[make_pair(t[GPOS[k][0]], GPOS[k][1] < 0 ? 0 : t[GPOS[k][1]])]++;
            KeyCardItr *it = grp(q, k, v);
            vector<T3> got, exp;
            while (it->hasNext()) { it->next(); got.push_back(T3{{(int64_t) it->getKey1(), GPOS[k][1] < 0 ? 0 : (int64_t) it->getKey2(), (int64_t) it->getCard()}}); if (got.size() > 1000) vh::fail("endless"); }
            delete it;
            for (auto &x : e) exp.push_back(T3{{x.first.first, x.first.second, x.second}});
            vh::add("evaluations");
            if (got != exp) vh::fail(string("grp_") + GNAME[k] + ps(v) + " = " + show(got) + " instead of " + show(exp));
            eq(string("cnt_grp_") + GNAME[k] + ps(v), cntgrp(q, k, v), exp.size());
        }
    }
}
}
#endif
