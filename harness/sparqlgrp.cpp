// Group graph patterns: queries built from one or two triple patterns per group and OPTIONAL, UNION, MINUS, VALUES, FILTER.
#include "sparqlalg.h"
using namespace std;
using namespace kbu;
using namespace sq;
static bool collect = false;
static map<string, pair<int, string>> bad;
static void check(KB &kb, World &w, const Grp &g, int nv) {
    // the projected variables occur in the query outside of MINUS and FILTER
    set<int> vis; visible(g, vis);
    vector<int> all(vis.begin(), vis.end());
    vector<vector<int>> projs;
    if (all.size()) projs.push_back(all);
    if (all.size() > 1) for (int v : {all[0], all.back()}) projs.push_back({v});
    for (auto &p : projs) for (int d = 0; d < 2; ++d) {
        string e = compare(kb, w, g, p, d);
        if (e == "") continue;
        if (!collect) vh::fail(e);
        auto &x = bad[e.substr(0, e.find(" gives"))]; if (!x.first++) x.second = e + " over " + kbu::show(w.g);
    }
}
typedef array<Pos, 3> P;
// all lists of n patterns with predicates <p>/<q> and subjects/objects among the variables (canonical) and <a>
static void pats(int n, int consts, int nv0, vector<P> &cur, const function<void(const vector<P> &, int)> &f) {
    if (!n) { f(cur, nv0); return; }
    auto each = [&](int nv, const function<void(Pos, int)> &h) { for (int v = 0; v <= nv; ++v) h(Pos{v, -1}, max(nv, v + 1)); for (int c = 0; c < consts; ++c) h(Pos{-1, c}, nv); };
    each(nv0, [&](Pos s, int nv) { for (int p = 2; p < 4; ++p) each(nv, [&](Pos o, int nv2) { cur.push_back(P{{s, Pos{-1, p}, o}}); pats(n - 1, consts, nv2, cur, f); cur.pop_back(); }); });
}
void explore() {
    Logger::setMinLevel(100);
    collect = vh::arg("collect") == "1";
    string mode = vh::arg("mode", "optional");
    int step = atoi((vh::thorough ? vh::arg("tstep", "1") : vh::arg("step", "1")).c_str());
    // terms 0,1: nodes; 2,3: predicates; 4: literal, 5: absent from the data
    World w; w.term = {"<a>", "<b>", "<p>", "<q>", "\"l\"", "<c>"}; w.nvars = 6;
    if (mode == "rel") { // comparisons of numbers and of strings, with constants inside and outside of the dictionary
        const string X = "^^<http://www.w3.org/2001/XMLSchema#", I = X + "integer>", D = X + "double>", F = X + "float>";
        auto q = [](string x) { return "\"" + x + "\""; };
        w.term = {"<a>", "<b>", "<p>", "<q>"}; w.nvars = 4;
        vector<string> n = {q("-3") + I, q("5") + I, q("10") + I, q("2.5") + D, q("5") + F, q("4000000000") + I}, t = {q(""), q("a"), q("a!"), q("ab"), q("10"), q("5")};
        vector<string> n2 = {q("0") + I, q("7") + I, q("100") + I, q("-20") + I, q("5.5") + D, q("9999999999") + I, q("2.5") + F}, t2 = {q("A"), q("a "), q("aa"), q("b"), q("7")};
        vector<T3> u; int d0;
        for (auto &x : n) { w.term.push_back(x); u.push_back(T3{{(int) w.term.size() & 1, 2, (int) w.term.size() - 1}}); }
        for (auto &x : t) { w.term.push_back(x); u.push_back(T3{{(int) w.term.size() & 1, 3, (int) w.term.size() - 1}}); }
        const vector<string> dict = w.term; d0 = w.term.size();
        for (auto &x : n2) w.term.push_back(x);
        for (auto &x : t2) w.term.push_back(x);
        int d1 = d0 + n2.size(), d2 = d1 + t2.size();
        for (int m = 1; m < 1 << u.size(); m += step) vh::runCase([&] { return "rel " + to_string(m); }, [&] {
            w.g.clear(); for (size_t i = 0; i < u.size(); ++i) if (m >> i & 1) w.g.push_back(u[i]);
            Spec sp; sp.g = w.g; sp.dict = dict;
            KBConfig c; KB kb(load(sp).c_str(), true, false, true, c);
            auto E = [](string op, Pos a, Pos b) { Expr e, x, y; e.op = op; x.op = y.op = "t"; x.p = a; y.p = b; e.a = {x, y}; return e; };
            Pos a{0, -1}, b{1, -1}, d{2, -1};
            auto ask = [&](vector<array<Pos, 3>> p, Expr e, int nv) { Grp g; g.pats = p; g.filters = {e}; for (int i = 0; i < 2; ++i) { string r = compare(kb, w, g, i ? vector<int>{0} : vector<int>{0, 1}, false); if (r != "") vh::fail(r); Expr x; x.op = "!"; x.a = {e}; g.filters = {x}; } };
            for (int k = 2; k < 4; ++k) for (string op : {"<", "<=", ">", ">="}) {
                array<Pos, 3> p{{a, Pos{-1, k}, b}};
                for (int x = 4; x < d2; ++x) {
                    bool num = x < 10 || (x >= d0 && x < d1);
                    if (num != (k == 2)) continue;
                    for (int bare = 0; bare < (w.term[x].find("integer") != string::npos && w.term[x][1] != '-' ? 2 : 1); ++bare) { Pos v{-1, x, !!bare}; ask({p}, E(op, b, v), 2); ask({p}, E(op, v, b), 2); }
                }
                ask({p, {{a, Pos{-1, k}, d}}}, E(op, b, d), 3);
            }
            vh::wipeAll();
        });
        return;
    }
    const vector<string> dict = w.term; w.term.push_back("<unknown>"); w.term.push_back("\"unknown\""); // 6, 7: not in the dictionary
    vector<T3> u; for (int s = 0; s < 2; ++s) for (int p = 2; p < 4; ++p) for (int o = 0; o < 2; ++o) u.push_back(T3{{s, p, o}});
    // queries the engine is known to answer wrongly (known-findings.txt)
    if (mode == "known") vh::runCase([&] { return string("known findings"); }, [&] {
        w.g = {T3{{0, 2, 0}}, T3{{0, 2, 1}}};
        Spec sp; sp.g = w.g; sp.dict = dict;
        string path = load(sp);
        KBConfig c; KB kb(path.c_str(), true, false, true, c);
        Pos a{0, -1}, b{1, -1}, d{2, -1}, p{-1, 2}, q{-1, 3};
        auto G = [](vector<P> v) { Grp g; g.pats = v; return g; };
        Grp g = G({P{{a, p, b}}}); g.opts = {G({P{{b, p, a}}})};
        string e;
        {
            World w1 = w; w1.g = {T3{{1, 2, 0}}};
            Spec s1; s1.g = w1.g; s1.dict = dict;
            string path1 = load(s1);
            KB k1(path1.c_str(), true, false, true, c);
            e = compare(k1, w1, g, {0, 1}, false);
        }
        if (e != "") vh::known("optional-unmatched", e);
        g = G({P{{a, p, b}}}); g.unions = {{G({P{{a, p, a}}}), G({P{{d, p, b}}})}};
        e = compare(kb, w, g, {0, 1, 2}, false);
        if (e != "") vh::known("union-unbound-join", e);
    });
    if (mode != "known") for (int m = 1; m < 256; m += step) {
        w.g.clear(); for (int i = 0; i < 8; ++i) if (m >> i & 1) w.g.push_back(u[i]);
        vh::runCase([&] { return mode + " " + kbu::show(w.g); }, [&] {
            Spec sp; sp.g = w.g; sp.dict = dict;
            string path = load(sp);
            KBConfig c; KB kb(path.c_str(), true, false, true, c);
            vector<P> cur;
            auto E = [](string op, Pos a, Pos b) { Expr e; e.op = op; Expr x; x.op = "t"; x.p = a; e.a.push_back(x); if (b.var >= 0 || b.term >= 0) { x.p = b; e.a.push_back(x); } return e; };
            Pos none{-1, -1};
            if (mode == "optional") pats(2, 1, 0, cur, [&](const vector<P> &p, int nv) { Grp g; g.pats = {p[0]}; Grp o; o.pats = {p[1]}; g.opts = {o}; if (nv) check(kb, w, g, nv); });
            if (mode == "optional2") pats(3, 0, 0, cur, [&](const vector<P> &p, int nv) { Grp g; g.pats = {p[0]}; Grp o; o.pats = {p[1]}; g.opts = {o}; o.pats = {p[2]}; g.opts.push_back(o); check(kb, w, g, nv); });
            if (mode == "optionalgrp") pats(3, 0, 0, cur, [&](const vector<P> &p, int nv) { Grp g; g.pats = {p[0]}; Grp o; o.pats = {p[1], p[2]}; g.opts = {o}; check(kb, w, g, nv); });
            if (mode == "optnested") pats(3, 0, 0, cur, [&](const vector<P> &p, int nv) { Grp g; g.pats = {p[0]}; Grp o, o2; o.pats = {p[1]}; o2.pats = {p[2]}; o.opts = {o2}; g.opts = {o}; check(kb, w, g, nv); });
            if (mode == "opt2pats") pats(3, 0, 0, cur, [&](const vector<P> &p, int nv) { Grp g; g.pats = {p[0], p[1]}; Grp o; o.pats = {p[2]}; g.opts = {o}; check(kb, w, g, nv); });
            if (mode == "union") pats(2, 1, 0, cur, [&](const vector<P> &p, int nv) { Grp g, a, b; a.pats = {p[0]}; b.pats = {p[1]}; g.unions = {{a, b}}; if (nv) check(kb, w, g, nv); });
            if (mode == "unionjoin") pats(3, 0, 0, cur, [&](const vector<P> &p, int nv) { Grp g, a, b; g.pats = {p[0]}; a.pats = {p[1]}; b.pats = {p[2]}; g.unions = {{a, b}};
                // variables shared with the union are bound by both branches
                set<int> v0, va, vb; visible(Grp{{p[0]}}, v0); visible(a, va); visible(b, vb);
                for (int v : v0) if (va.count(v) != vb.count(v)) return;
                check(kb, w, g, nv); });
            if (mode == "minus") pats(2, 1, 0, cur, [&](const vector<P> &p, int nv) { Grp g, a; g.pats = {p[0]}; a.pats = {p[1]}; g.minus = {a}; if (nv) check(kb, w, g, nv); });
            if (mode == "exists") pats(2, 1, 0, cur, [&](const vector<P> &p, int nv) { for (string op : {"notexists"}) { Grp g, a; g.pats = {p[0]}; a.pats = {p[1]}; Expr e; e.op = op; e.g.reset(new Grp(a)); g.filters = {e}; if (nv) check(kb, w, g, nv); } });
            auto G = [](vector<P> v) { Grp g; g.pats = v; return g; };
            auto NE = [](const Grp &g) { Expr e; e.op = "notexists"; e.g.reset(new Grp(g)); return e; };
            if (mode == "values2") pats(1, 0, 0, cur, [&](const vector<P> &p, int nv) {
                vector<vector<vector<int>>> rs = {{{0}}, {{0}, {1}}, {{1}, {1}, {0}}};
                for (auto &r1 : rs) for (auto &r2 : rs) for (int v = 0; v <= nv; ++v) for (int x = v; x <= nv; ++x) for (int pt = 0; pt < 2; ++pt) {
                    Grp g; if (pt) g.pats = {p[0]};
                    g.values = {{{v}, r1}, {{x}, r2}}; check(kb, w, g, nv + 1);
                }
                for (auto &r1 : rs) for (auto r2 : vector<vector<vector<int>>>{{{0, 0}}, {{0, 1}, {1, 0}, {1, 1}}}) { Grp g = G({p[0]}); g.values = {{{0}, r1}, {{0, 1}, r2}}; check(kb, w, g, nv + 1); g.values = {{{1, 0}, r2}, {{2, 1}, r2}}; check(kb, w, g, nv + 2); }
            });
            if (mode == "minus3") pats(3, 0, 0, cur, [&](const vector<P> &p, int nv) {
                Grp g = G({p[0], p[1]}); g.minus = {G({p[2]})}; check(kb, w, g, nv);
                g = G({p[0]}); g.minus = {G({p[1], p[2]})}; check(kb, w, g, nv);
                g = G({p[0]}); g.minus = {G({p[1]}), G({p[2]})}; check(kb, w, g, nv);
            });
            if (mode == "exists3") pats(3, 0, 0, cur, [&](const vector<P> &p, int nv) {
                Grp g = G({p[0], p[1]}); g.filters = {NE(G({p[2]}))}; check(kb, w, g, nv);
                g = G({p[0]}); g.filters = {NE(G({p[1], p[2]}))}; check(kb, w, g, nv);
                g = G({p[0]}); g.filters = {NE(G({p[1]})), NE(G({p[2]}))}; check(kb, w, g, nv);
            });
            if (mode == "union3") pats(3, 0, 0, cur, [&](const vector<P> &p, int nv) {
                Grp g; g.unions = {{G({p[0]}), G({p[1]}), G({p[2]})}}; check(kb, w, g, nv);
                g.unions = {{G({p[0], p[1]}), G({p[2]})}}; check(kb, w, g, nv);
                Grp m = G({p[1]}); m.minus = {G({p[2]})}; g.unions = {{G({p[0]}), m}}; check(kb, w, g, nv);
                m = G({p[1]}); m.filters = {NE(G({p[2]}))}; g.unions = {{m, G({p[0]})}}; check(kb, w, g, nv);
                Grp u; u.unions = {{G({p[1]}), G({p[2]})}}; g = G({p[0]}); g.minus = {u}; check(kb, w, g, nv);
                g = G({p[0]}); g.filters = {NE(u)}; check(kb, w, g, nv);
            });
            if (mode == "unionfilter") pats(2, 1, 0, cur, [&](const vector<P> &p, int nv) {
                for (string op : {"=", "!="}) for (int a = 0; a < nv; ++a) for (int b = -1; b < nv; ++b) for (int in = 0; in < 3; ++in) {
                    Expr e = b < 0 ? E(op, Pos{a, -1}, Pos{-1, 0}) : E(op, Pos{a, -1}, Pos{b, -1});
                    Grp g, x = G({p[0]}), y = G({p[1]});
                    // a filter over the union mentions only variables bound by both branches
                    set<int> vx, vy; visible(x, vx); visible(y, vy);
                    bool bx = vx.count(a) && (b < 0 || vx.count(b)), by = vy.count(a) && (b < 0 || vy.count(b));
                    if ((in != 2 && !bx) || (in != 1 && !by)) continue;
                    if (in == 1) x.filters = {e}; else if (in == 2) y.filters = {e}; else g.filters = {e};
                    g.unions = {{x, y}}; check(kb, w, g, nv);
                }
            });
            if (mode == "values") pats(1, 1, 0, cur, [&](const vector<P> &p, int nv) {
                if (!nv) return;
                for (auto rows : vector<vector<vector<int>>>{{{0}}, {{0}, {1}}, {{5}}, {{0}, {0}}, {{4}, {1}}}) for (int v = 0; v <= nv; ++v) { Grp g; g.pats = {p[0]}; g.values = {{{v}, rows}}; check(kb, w, g, max(nv, v + 1)); }
                for (auto rows : vector<vector<vector<int>>>{{{0, 0}}, {{0, 1}, {1, 0}}, {{0, 1}, {0, 1}}}) if (nv > 1) { Grp g; g.pats = {p[0]}; g.values = {{{0, 1}, rows}}; check(kb, w, g, nv); g.values = {{{1, 0}, rows}}; check(kb, w, g, nv); g.values = {{{1, 2}, rows}}; check(kb, w, g, 3);}
            });
            if (mode == "filter") pats(2, 0, 0, cur, [&](const vector<P> &p, int nv) {
                vector<Expr> at;
                vector<Pos> ts = {Pos{0, -1}, Pos{nv - 1, -1}, Pos{-1, 0}, Pos{-1, 5}};
                for (string op : {"=", "!=", "sameTerm"}) for (auto &a : ts) for (auto &b : ts) at.push_back(E(op, a, b));
                at.push_back(E("bound", ts[1], none)); at.push_back(E("isIRI", ts[1], none)); at.push_back(E("isLITERAL", ts[0], none));
                for (string op : {"in", "notin"}) { Expr e = E(op, ts[0], ts[2]); at.push_back(e); Expr x; x.op = "t"; x.p = ts[1]; e.a.push_back(x); at.push_back(e); }
                vector<Expr> ex = at;
                for (auto &a : at) { Expr e; e.op = "!"; e.a = {a}; ex.push_back(e); }
                for (size_t i = 0; i < at.size(); i += 3) for (size_t j = 1; j < at.size(); j += 5) for (string op : {"&&", "||"}) { Expr e; e.op = op; e.a = {at[i], at[j]}; ex.push_back(e); }
                if (p[0][1].term == 3) return;
                for (auto &e : ex) { Grp g; g.pats = p; g.filters = {e}; check(kb, w, g, nv); }
            });
            const bool uf = mode == "unknownfilter";
            if (mode == "unknown" || uf) pats(2, 1, 0, cur, [&](const vector<P> &p0, int nv) { // queries about terms that the dictionary does not have
                if (!nv) return;
                for (int i = 0; i < 2; ++i) for (int j = 0; j < 3; ++j) if (p0[i][j].var < 0) for (int c = 6; c < (j == 2 ? 8 : 7); ++c) {
                    vector<P> p = p0; p[i][j].term = c;
                    auto ck = [&](const Grp &g) { set<int> v; visible(g, v); if (v.size()) check(kb, w, g, nv); };
                    Grp g = G({p[0]});
                    if (uf) { g.filters = {NE(G({p[1]}))}; ck(g); continue; }
                    g.minus = {G({p[1]})}; ck(g);
                    g = Grp(); g.unions = {{G({p[0]}), G({p[1]})}}; ck(g);
                    g = G({p[0], p[1]}); ck(g);
                }
                if (p0[1][0].var != 0 || p0[1][1].term != 3 || p0[1][2].var != 0) return; // one pattern is enough
                if (!uf) for (auto &rows : vector<vector<vector<int>>>{{{6}}, {{0}, {6}}, {{6}, {7}}, {{7}, {0}, {1}}, {{6}, {6}, {0}}}) for (int v = 0; v <= nv; ++v) { Grp g = G({p0[0]}); g.values = {{{v}, rows}}; check(kb, w, g, nv + 1); if (v == nv) { g.pats.clear(); check(kb, w, g, nv + 1); } }
                if (!uf) for (auto &rows : vector<vector<vector<int>>>{{{0, 6}, {0, 1}}, {{6, 7}, {7, 0}}}) { Grp g = G({p0[0]}); g.values = {{{0, nv}, rows}}; check(kb, w, g, nv + 1); }
                if (uf) for (int v = 0; v < nv; ++v) for (int c = 6; c < 8; ++c) {
                    for (string op : {"=", "!=", "sameTerm"}) for (int sw = 0; sw < 2; ++sw) for (int neg = 0; neg < 2; ++neg) { Expr e = sw ? E(op, Pos{-1, c}, Pos{v, -1}) : E(op, Pos{v, -1}, Pos{-1, c}); if (neg) { Expr n; n.op = "!"; n.a = {e}; e = n; } Grp g = G({p0[0]}); g.filters = {e}; check(kb, w, g, nv); }
                    for (string op : {"in", "notin"}) for (int k = 0; k < 3; ++k) { Expr e = E(op, Pos{v, -1}, Pos{-1, k == 1 ? 0 : c}); Expr x; x.op = "t"; x.p = Pos{-1, k == 0 ? 13 - c : k == 1 ? c : 0}; e.a.push_back(x); Grp g = G({p0[0]}); g.filters = {e}; check(kb, w, g, nv); }
                }
            });
            if (mode == "optfilter") pats(2, 0, 0, cur, [&](const vector<P> &p, int nv) { for (int in = 0; in < 2; ++in) for (string op : {"=", "!=", "bound", "nbound"}) for (int a = 0; a < nv; ++a) for (int b = 0; b < nv; ++b) {
                if (op.find("bound") != string::npos && b) continue;
                Grp g, o; g.pats = {p[0]}; o.pats = {p[1]};
                Expr e = op == "bound" || op == "nbound" ? E("bound", Pos{a, -1}, none) : E(op, Pos{a, -1}, Pos{b, -1});
                if (op == "nbound") { Expr n; n.op = "!"; n.a = {e}; e = n; }
                if (in) o.filters = {e}; else g.filters = {e};
                g.opts = {o}; check(kb, w, g, nv);
            } });
        });
        vh::wipeAll();
    }
    if (collect) { printf("%zu bad\n", bad.size()); int n = 0; for (auto &b : bad) if (n++ < 400) printf("%d %s\n", b.second.first, b.second.second.c_str()); fflush(stdout); }
}
