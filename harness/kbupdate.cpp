// Histories of additions, removals and merges on a stored KB: after every history, everything the
// querier answers must equal the set of triples the history implies, and the dictionary must know exactly
// the terms ever stored.
#include "kbcheck.h"
#include "iterx.h"
#include <trident/kb/updater.h>
using namespace std;
using namespace kbu;
using namespace kbc;
struct Up { int kind; vector<T3> t; }; // kind 0 add, 1 remove, 2 merge; terms are numbers of the vocabulary
static int64_t literal = 4;
static string termName(int64_t i) { if (i == literal) return "\"a literal with spaces\""; return "<http://x/t" + to_string(i) + ">"; }
static string show(const vector<Up> &h) {
    string r;
    for (auto &u : h) r += u.kind == 2 ? string(" MERGE") : string(u.kind ? " DEL" : " ADD") + kbu::show(u.t);
    return r;
}
static void apply(const string &kb, const Up &u) {
    if (u.kind == 2) { KBConfig c; KB k(kb.c_str(), true, false, true, c); k.mergeUpdates(); return; }
    string f = vh::newDir() + "/up.nt";
    { ofstream o(f); for (auto &t : u.t) o << termName(t[0]) << " " << termName(t[1]) << " " << termName(t[2]) << " .\n"; }
    Updater up;
    up.creatediffupdate(u.kind ? DiffIndex::TypeUpdate::DELETE_df : DiffIndex::TypeUpdate::ADDITION_df, kb, f);
}
struct Par { int nind; bool aggr, skip; int64_t known; int iter; bool card; int many; };
static void history(const string &name, const vector<T3> &base, const vector<Up> &h, int64_t vocab, const Par &pr) {
    vh::runCase([&] { return name + " base " + kbu::show(base) + show(h); }, [&] {
        Spec sp; sp.g = base; sp.dict = defDict(pr.known);
        sp.p.nindices = pr.nind; sp.p.aggrIndices = pr.aggr; sp.p.canSkipTables = pr.skip;
        string kb = load(sp);
        set<T3> m(base.begin(), base.end());
        set<int64_t> terms; for (int64_t i = 0; i < pr.known; ++i) terms.insert(i);
        for (auto &u : h) {
            apply(kb, u);
            for (auto &t : u.t) {
                if (u.kind == 0) { m.insert(t); for (auto x : t) terms.insert(x); }
                if (u.kind == 1) m.erase(t);
            }
            vh::add("transitions");
        }
        vh::add("states");
        Open k(kb, true);
        // the dictionary
        map<int64_t, int64_t> id; set<nTerm> used;
        DictMgmt *d = k.kb->getDictMgmt();
        for (int64_t i = 0; i < vocab; ++i) {
            string t = termName(i); nTerm x = 0;
            bool f = d->getNumber(t.c_str(), t.size(), &x);
            if (f != (bool) terms.count(i)) vh::fail("term " + t + (f ? " has a number although it was never stored" : " has no number"));
            if (!f) continue;
            if (!used.insert(x).second) vh::fail("two terms have the number " + to_string(x));
            if (i < pr.known && x != (nTerm) i) vh::fail("the number of " + t + " changed");
            char buf[MAX_TERM_SIZE + 2]; int len = 0;
            if (!d->getText(x, buf, len)) vh::fail("no text for the number of " + t);
            if (string(buf, len) != t) vh::fail("text of the number of " + t + " is " + string(buf, len));
            id[i] = x;
        }
        vector<T3> g;
        for (auto &t : m) g.push_back(T3{{id[t[0]], id[t[1]], id[t[2]]}});
        sort(g.begin(), g.end());
        vector<int64_t> dom = {-1}; for (auto &x : id) dom.push_back(x.second);
        if (pr.many) dom = {-1, 0, 1, 2, 10, id.count(33) ? id[33] : 500};
        dom.push_back(1000);
        vh::outcome(kbu::show(g));
        if (k.kb->getNTerms() < (int64_t) terms.size()) vh::fail(vh::fmt("%ld terms counted, %zu stored", (long) k.kb->getNTerms(), terms.size()));
        checkPatterns(k.q.get(), g, dom);
        if (pr.card) kbc::count(k.q.get(), g, dom, {0, 1, 2, 3, 4, 5});
        if (pr.iter) for (int idx = 0; idx < 6; ++idx) for (int ig = 0; ig < pr.iter; ++ig) {
            vector<int64_t> ks = dom;
            for (int64_t k0 : ks) {
                int64_t v[3] = {-1, -1, -1};
                v[ORD[idx][0]] = k0;
                vector<T3> rows;
                for (auto &t : g) if (match(t, v[0], v[1], v[2])) rows.push_back(T3{{t[ORD[idx][0]], t[ORD[idx][1]], t[ORD[idx][2]]}});
                sort(rows.begin(), rows.end());
                iterx::Mk mk{[&] { return k.q->getIterator(idx, v[0], v[1], v[2]); }, [&](PairItr *i) { k.q->releaseItr(i); }};
                iterx::Opts o;
                o.blocks = vh::thorough ? 2 : 1; o.maxNext = 2;
                if (k0 >= 0) for (int64_t a = 0; a < 4; ++a) for (int64_t b = 0; b < 3; ++b) if (!ig || b == 0) o.to.push_back(make_pair(a, b));
                if (k0 < 0) for (int64_t a = 1; a < 5; ++a) o.keys.push_back(a);
                o.marks = k0 >= 0;
                if (ig) {
                    o.ignore = true;
                    vector<T3> r2;
                    for (auto &t : rows) { if (r2.empty() || r2.back()[0] != t[0] || r2.back()[1] != t[1]) r2.push_back(T3{{t[0], t[1], 1}}); else r2.back()[2]++; }
                    rows = r2;
                }
                iterx::all(vh::fmt("getIterator(%d,%ld,%ld,%ld)", idx, (long) v[0], (long) v[1], (long) v[2]), mk, rows, o);
            }
        }
    });
    vh::wipeAll();
}
// Updates with long tables: the layout of the tables of an update depends on their sizes and on rand()
static int drawn = -1; // what rand() returns; -1: the library's
extern "C" int rand() noexcept { static unsigned x = 1; if (drawn >= 0) return drawn; x = x * 1103515245u + 12345u; return x >> 1; }
static void big(int axis, int n1, int n2, int64_t step1, int64_t step2, int kind, int r, int nterms) {
    auto place = [&](int64_t a, int64_t b, int64_t d) { T3 t; t[ORD[axis][0]] = a; t[ORD[axis][1]] = b; t[ORD[axis][2]] = d; return t; };
    vector<T3> u, rest, base;
    for (int i = 0; i < n1; ++i) for (int j = 0; j < n2; ++j) u.push_back(place(2, 3 + i * step1, 5 + j * step2));
    rest = {place(1, 3, 5), place(2, 4, 6), place(2, 3 + n1 * step1, 5), place(2, 3, 5 + n2 * step2), place(3, 4, 5)};
    base = rest;
    if (kind == 1) base.insert(base.end(), u.begin(), u.end());
    if (kind == 2) for (size_t i = 0; i < u.size(); i += 2) base.push_back(u[i]); // half of what is added is there already
    auto norm = [](vector<T3> &g) { sort(g.begin(), g.end()); g.erase(unique(g.begin(), g.end()), g.end()); };
    norm(base);
    vh::runCase([&] { return vh::fmt("big axis %d, %d x %d by %ld, %ld, kind %d, rand %d, %d terms", axis, n1, n2, (long) step1, (long) step2, kind, r, nterms); }, [&] {
        Spec sp; sp.g = base; sp.dict = defDict(nterms);
        drawn = -1;
        string kb = load(sp);
        drawn = r;
        auto upd = [&](bool del, const vector<T3> &u) {
            string f = vh::newDir() + "/up.nt";
            {
                ofstream o(f);
                auto line = [&](const T3 &t) { o << sp.dict[t[0]] << " " << sp.dict[t[1]] << " " << sp.dict[t[2]] << " .\n"; };
                for (size_t i = 0; i < u.size(); ++i) line(u[(i * 7 + 3) % u.size()]);
                for (auto &t : u) line(t); // every triple at least twice
            }
            Updater up; up.creatediffupdate(del ? DiffIndex::TypeUpdate::DELETE_df : DiffIndex::TypeUpdate::ADDITION_df, kb, f);
        };
        auto half = [&](size_t from) { vector<T3> h; for (size_t i = from; i < u.size(); i += 2) h.push_back(u[i]); return h; };
        if (kind < 3) upd(kind == 1, u);
        else {
            if (kind == 3) { upd(false, half(0)); upd(false, half(1)); } else { upd(false, u); upd(true, half(1)); }
            KBConfig c; KB k(kb.c_str(), true, false, true, c); k.mergeUpdates();
        }
        drawn = -1;
        vector<T3> g;
        if (kind == 1) { set<T3> d(u.begin(), u.end()); for (auto &t : base) if (!d.count(t)) g.push_back(t); }
        else if (kind == 4) { vector<T3> h = half(1); set<T3> d(h.begin(), h.end()); vector<T3> w = half(0); w.insert(w.end(), rest.begin(), rest.end()); norm(w); for (auto &t : w) if (!d.count(t)) g.push_back(t); }
        else { g = base; g.insert(g.end(), u.begin(), u.end()); norm(g); }
        Open k(kb, true);
        Querier *q = k.q.get();
        vh::add("states"); vh::add("transitions");
        // values that occur at the ends and in the middle of the table, and some that do not occur
        vector<int64_t> v1, v2;
        for (int i : {0, 1, n1 / 2, n1 - 1, n1}) v1.push_back(3 + i * step1);
        for (int j : {0, 1, n2 / 2, n2 - 1, n2}) v2.push_back(5 + j * step2);
        v1.push_back(4); v2.push_back(6);
        set<array<int64_t, 4>> done;
        for (int64_t a : {2L, 1L}) for (int64_t b : v1) for (int64_t c : v2) for (int m = 0; m < 8; ++m) for (int idx = 0; idx < 6; ++idx) {
            T3 t = place(a, b, c);
            int64_t v[3]; for (int x = 0; x < 3; ++x) v[x] = m >> x & 1 ? t[x] : -1;
            bool var = false, ok = true;
            for (int x = 0; x < 3; ++x) { if (v[ORD[idx][x]] < 0) var = true; else if (var) ok = false; }
            if (!ok || !done.insert(array<int64_t, 4>{{(int64_t) idx, v[0], v[1], v[2]}}).second) continue;
            vector<T3> e = expect(g, idx, v[0], v[1], v[2]), got;
            PairItr *it = q->getIterator(idx, v[0], v[1], v[2]);
            if (it->getTypeItr() != EMPTY_ITR) { got = drain(it); q->releaseItr(it); }
            vh::add("evaluations");
            vh::outcome(vh::mix(vh::hashs(kbu::show(e)), idx));
            if (got != e) vh::fail(vh::fmt("getIterator(%d,%ld,%ld,%ld) gives %zu rows instead of %zu", idx, (long) v[0], (long) v[1], (long) v[2], got.size(), e.size()));
            if (m == 0) continue;
            // counts (they are not distinct counts of one variable) and jumps
            int64_t n = q->getCard(v[0], v[1], v[2]);
            if (n != (int64_t) e.size()) vh::fail(vh::fmt("getCard(%ld,%ld,%ld) = %ld instead of %zu", (long) v[0], (long) v[1], (long) v[2], (long) n, e.size()));
            if (m == 7 || e.empty()) continue;
            for (int64_t x1 : ORD[idx][0] == ORD[axis][0] && ORD[idx][1] == ORD[axis][1] ? v1 : v2) for (int64_t x2 : ORD[idx][2] == ORD[axis][2] ? v2 : v1) for (size_t from : {(size_t) 1, e.size() / 2}) {
                if (!from || v[ORD[idx][1]] >= 0) continue;
                it = q->getIterator(idx, v[0], v[1], v[2]);
                for (size_t i = 0; i < from; ++i) { it->hasNext(); it->next(); }
                it->moveto(x1, x2);
                size_t j = from - 1;
                while (j < e.size() && (e[j][1] < x1 || (e[j][1] == x1 && e[j][2] < x2))) j++;
                for (size_t w = j; w <= e.size() && w < j + 2; ++w) {
                    bool h = it->hasNext();
                    if (h != (w < e.size())) vh::fail(vh::fmt("getIterator(%d,%ld,%ld,%ld): from row %zu moveto(%ld,%ld): hasNext()=%d before row %zu of %zu", idx, (long) v[0], (long) v[1], (long) v[2], from, (long) x1, (long) x2, (int) h, w, e.size()));
                    if (!h) break;
                    it->next();
                    if (it->getValue1() != e[w][1] || it->getValue2() != e[w][2]) vh::fail(vh::fmt("getIterator(%d,%ld,%ld,%ld): from row %zu moveto(%ld,%ld): row (%ld,%ld) instead of row %zu, (%ld,%ld)", idx, (long) v[0], (long) v[1], (long) v[2], from, (long) x1, (long) x2, (long) it->getValue1(), (long) it->getValue2(), w, (long) e[w][1], (long) e[w][2]));
                }
                vh::add("states"); vh::add("transitions", from + 1);
                q->releaseItr(it);
            }
        }
    });
    vh::wipeAll();
}
static vector<T3> cube(int m) { vector<T3> g; for (int i = 0; i < 8; ++i) if (m >> i & 1) g.push_back(T3{{(i >> 2) & 1, (i >> 1) & 1, i & 1}}); return g; }
void explore() {
    Logger::setMinLevel(100);
    string mode = vh::arg("mode", "one");
    Par pr{6, false, false, 3, atoi(vh::arg("iter", "0").c_str()), vh::arg("card") == "1", 0};
    if (mode == "one") { // one update: every base (of a subcube) and every set of triples
        int step = atoi(vh::arg("step", "1").c_str());
        for (int b = 1; b < 256; b += step) for (int kind = 0; kind < 2; ++kind) for (int u = 1; u < 256; u += 1) {
            if (!vh::thorough && __builtin_popcount(u) > 2 && __builtin_popcount(u) < 7) continue;
            history("one", cube(b), {Up{kind, cube(u)}}, 4, pr);
        }
    } else if (mode == "seq") { // histories of updates
        vector<Up> al;
        vector<vector<T3>> sets = {{T3{{0,0,0}}}, {T3{{0,0,1}}, T3{{1,0,0}}}, {T3{{0,3,1}}, T3{{3,0,1}}}, {T3{{3,3,4}}, T3{{0,0,0}}, T3{{0,1,4}}}};
        for (auto &s : sets) { al.push_back(Up{0, s}); al.push_back(Up{1, s}); }
        al.push_back(Up{2, {}});
        int depth = atoi(vh::arg("depth", "3").c_str());
        for (int b : {1, 0x12, 0xff}) {
            vector<Up> h;
            function<void()> rec = [&] {
                if (!h.empty()) history("seq", cube(b), h, 6, pr);
                if ((int) h.size() == depth) return;
                for (auto &u : al) {
                    if (u.kind == 2 && h.size() < 2) continue;
                    h.push_back(u); rec(); h.pop_back();
                }
            };
            rec();
        }
    } else if (mode == "config") { // single updates on KBs loaded with other configurations
        vector<vector<T3>> sets = {{T3{{0,0,0}}}, {T3{{0,0,1}}, T3{{1,0,0}}}, {T3{{0,3,1}}, T3{{3,0,1}}}, {T3{{3,3,4}}, T3{{0,0,0}}, T3{{0,1,4}}}, {T3{{1,1,1}}, T3{{0,1,0}}, T3{{1,1,0}}}};
        for (int c = 1; c < 12; ++c) for (int b = 1; b < 256; b += vh::thorough ? 1 : 12) for (auto &s : sets) for (int kind = 0; kind < 2; ++kind) {
            static const int NI[] = {6, 3, 4};
            pr.nind = NI[c % 3]; pr.aggr = c / 3 & 1; pr.skip = c / 6 & 1;
            history(vh::fmt("config nindices=%d aggr=%d skip=%d", pr.nind, pr.aggr, pr.skip), cube(b), {Up{kind, s}}, 6, pr);
        }
        // every triple of the base stands for ten, so that tables hold references into the tables of other permutations
        for (auto &s : sets) for (auto &x : s) for (auto &y : x) if (y > 2) y += 30;
        for (int many = 1; many < 3; ++many) for (int c = 0; c < 3; ++c) for (int b = 3; b < 256; b += vh::thorough ? 1 : 36) for (auto &s : sets) for (int kind = 0; kind < 2; ++kind) {
            static const int NI[] = {6, 3, 6};
            pr.nind = NI[c]; pr.aggr = true; pr.skip = c == 2; pr.known = 30; pr.many = many; literal = 34;
            vector<T3> base;
            for (auto &x : cube(b)) for (int i = 0; i < 10; ++i) { T3 y = x; if (i) y[many == 1 ? 0 : 2] += 4 + 2 * i; base.push_back(y); }
            sort(base.begin(), base.end());
            history(vh::fmt("references %d nindices=%d skip=%d", many, pr.nind, pr.skip), base, {Up{kind, s}}, 36, pr);
        }
    } else if (mode == "big") {
        struct S { int n1, n2; int64_t s1, s2; int terms; };
        vector<S> ss = {{1, 70, 1, 1, 400}, {70, 1, 1, 1, 400}, {8, 8, 1, 1, 400}, {7, 9, 1, 1, 400}, {2, 150, 100, 2, 400}, {150, 2, 2, 100, 400}, {12, 12, 25, 25, 400}, {70, 1, 900, 1, 66000}, {1, 70, 1, 900, 66000}, {9, 9, 7000, 7000, 66000}};
        for (auto &s : ss) for (int axis = 0; axis < (vh::thorough ? 6 : 3); ++axis) for (int kind = 0; kind < 5; ++kind) for (int r : {0, 63, 1000003}) {
            if (s.terms > 1000 && !vh::thorough && (r || kind % 3 != axis)) continue;
            big(axis, s.n1, s.n2, s.s1, s.s2, kind, r, s.terms);
        }
    } else if (mode == "long") { // longer histories, also of more than ten updates: every word of operations, repeated
        vector<Up> al = {{0, {T3{{0,0,1}}}}, {1, {T3{{0,0,1}}}}, {0, {T3{{0,0,0}}, T3{{3,0,5}}}}, {1, {T3{{0,0,0}}, T3{{3,0,5}}}}, {2, {}}};
        for (int n = 1; n <= 4; ++n) {
            int tot = 1; for (int i = 0; i < n; ++i) tot *= al.size();
            for (int c = 0; c < tot; ++c) for (int len : n < 4 ? vector<int>{11, 12, 13, 23} : vh::thorough ? vector<int>{4, 5, 6, 7, 9, 12} : vector<int>{5}) {
                if (len > 12 && !vh::thorough && (c + n) % 4 != len % 4) continue;
                vector<Up> h; for (int i = 0; i < len; ++i) { int x = c; for (int j = 0; j < i % n; ++j) x /= al.size(); h.push_back(al[x % al.size()]); }
                history("long", {T3{{0,0,0}}, T3{{1,0,1}}, T3{{2,1,0}}}, h, 6, pr);
            }
        }
    } else if (mode == "parse") { // update files with unknown and repeated terms: every sequence of lines
        vector<T3> lines = {T3{{0,0,0}}, T3{{0,0,3}}, T3{{3,0,0}}, T3{{0,3,0}}, T3{{1,0,4}}, T3{{5,5,4}}};
        for (int kind = 0; kind < 2; ++kind) for (int n = 1; n <= 3; ++n) {
            int tot = 1; for (int i = 0; i < n; ++i) tot *= lines.size();
            for (int c = 0; c < tot; ++c) {
                vector<T3> u; int x = c; for (int i = 0; i < n; ++i) { u.push_back(lines[x % lines.size()]); x /= lines.size(); }
                history("parse", {T3{{0,0,0}}, T3{{0,0,1}}, T3{{1,0,0}}}, {Up{kind, u}}, 6, pr);
            }
        }
    }
}
