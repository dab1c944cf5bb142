// Aggregates, GROUP BY / HAVING, ORDER BY, LIMIT / OFFSET, DISTINCT and subselects, on every small graph, against a
// reference that works on the solutions of the pattern.
#include "sparqlalg.h"
using namespace sq; using namespace kbu; using namespace std;
typedef array<Pos, 3> P;
static KB *kb; static World w;
static long num(int64_t t) { const string &x = w.term[t]; return x[0] == '"' && isdigit(x[1]) && x.find("integer>") != string::npos ? atol(x.c_str() + 1) : -1; }
static string name(int v) { return "?v" + to_string(v); }
static string txt(int64_t t) { return t < 0 ? "" : w.term[t]; }
// the order of terms: unbound, IRIs by their text, literals by their text
static string ord(int64_t t) { string x = txt(t); return x.empty() ? x : x[0] == '<' ? "1" + x.substr(1, x.size() - 2) : "2" + x; }
static void expect(const string &q, vector<sq::Row> want, bool ordered) {
    sq::Res r = run(*kb, q);
    vh::add("evaluations");
    vector<sq::Row> got = r.rows;
    if (!ordered) { sort(got.begin(), got.end()); sort(want.begin(), want.end()); }
    vh::outcome(vh::hashs(show(want)));
    if (got != want) vh::fail(q + " gives " + show(got) + " instead of " + show(want));
}
static void pats(int n, int nv0, vector<P> &cur, const function<void(const vector<P> &, int)> &f) {
    if (!n) { f(cur, nv0); return; }
    auto each = [&](int nv, const function<void(Pos, int)> &h) { for (int v = 0; v <= nv; ++v) h(Pos{v, -1}, max(nv, v + 1)); };
    each(nv0, [&](Pos s, int nv) { for (int p = 2; p < 4; ++p) each(nv, [&](Pos o, int nv2) { cur.push_back(P{{s, Pos{-1, p}, o}}); pats(n - 1, nv2, cur, f); cur.pop_back(); }); });
}
static vector<Sol> sols(const Grp &g) { return eval(w, g); }
static bool isnum(const vector<Sol> &s, int v) { for (auto &x : s) if (x[v] >= 0 && num(x[v]) < 0) return false; return true; }
struct Agg { string fn; bool distinct; int v; };
static string atext(const Agg &a) { return a.fn + "(" + (a.distinct ? "DISTINCT " : "") + name(a.v) + ")"; }
static string aval(const Agg &a, vector<int64_t> x) {
    x.erase(remove(x.begin(), x.end(), -1), x.end()); // unbound
    if (x.empty()) return a.fn[0] == 'M' ? "" : "0";
    if (a.distinct) { set<int64_t> s(x.begin(), x.end()); x.assign(s.begin(), s.end()); }
    if (a.fn == "COUNT") return to_string(x.size());
    long s = 0, mn = num(x[0]), mx = mn; for (auto t : x) { s += num(t); mn = min(mn, num(t)); mx = max(mx, num(t)); }
    if (a.fn == "SUM") return to_string(s);
    if (a.fn == "MIN") return to_string(mn);
    if (a.fn == "MAX") return to_string(mx);
    return s % (long)x.size() ? "skip" : to_string(s / (long)x.size());
}
static void agg(const Grp &g, int nv) {
    vector<Sol> s = sols(g);
    if (s.empty()) { // one group without solutions, or no group at all
        for (int v = 0; v < nv; ++v) for (string f : {"COUNT", "SUM", "AVG", "MIN", "MAX"}) for (int d = 0; d < 2; ++d) {
            string a = atext({f, !!d, v}), t = "WHERE " + text(w, g);
            if (d && f[0] != 'C' && f[0] != 'S') continue;
            string none = f[0] == 'M' ? "" : "0";
            expect("SELECT (" + a + " AS ?a) " + t, {{none}}, false);
            expect("SELECT (" + a + " AS ?a) (COUNT(" + name(0) + ") AS ?b) " + t, {{none, "0"}}, false);
            expect("SELECT " + name(v) + " (" + a + " AS ?a) " + t + " GROUP BY " + name(v), {}, false);
        }
        return;
    }
    vector<vector<Agg>> lists;
    for (int v = 0; v < nv; ++v) {
        for (int d = 0; d < 2; ++d) lists.push_back({{"COUNT", !!d, v}});
        lists.push_back({{"COUNT", true, v}, {"COUNT", false, v}}); if (v) lists.push_back({{"COUNT", true, 0}, {"COUNT", false, v}});
        if (isnum(s, v)) { for (string f : {"SUM", "MIN", "MAX", "AVG"}) lists.push_back({{f, false, v}}); lists.push_back({{"SUM", true, v}}); lists.push_back({{"COUNT", false, v}, {"SUM", false, v}}); lists.push_back({{"MIN", false, v}, {"MAX", false, v}}); lists.push_back({{"SUM", false, v}, {"COUNT", true, v}, {"SUM", true, v}}); }
    }
    vector<vector<int>> keys = {{}}; for (int v = 0; v < nv; ++v) keys.push_back({v}); if (nv > 1) { keys.push_back({0, 1}); lists.push_back({}); } if (nv > 2) { keys.push_back({2, 1}); keys.push_back({1, 2, 0}); }
    for (auto &k : keys) for (auto &l : lists) if (k.size() || l.size()) for (int having = 0; having < (k.size() && l.size() ? 3 : 1); ++having) {
        map<vector<int64_t>, vector<Sol>> grp;
        for (auto &x : s) { vector<int64_t> kk; for (int v : k) kk.push_back(x[v]); grp[kk].push_back(x); }
        Agg cond{"", false, 0}; if (l.size()) cond = l[0]; if (having == 2) { if (cond.fn != "COUNT" && cond.fn != "SUM") continue; cond.distinct = !cond.distinct; }
        vector<sq::Row> want; bool skip = false;
        for (auto &e : grp) {
            sq::Row r; for (auto t : e.first) r.push_back(txt(t));
            for (auto &a : l) { vector<int64_t> x; for (auto &y : e.second) x.push_back(y[a.v]); r.push_back(aval(a, x)); if (r.back() == "skip") skip = true; }
            if (having) { vector<int64_t> x; for (auto &y : e.second) x.push_back(y[l[0].v]); if (atol(aval(cond, x).c_str()) <= 1) continue; }
            want.push_back(r);
        }
        if (skip) continue;
        string q = "SELECT ", by; for (int v : k) { q += name(v) + " "; by += name(v) + " "; }
        for (size_t i = 0; i < l.size(); ++i) q += "(" + atext(l[i]) + " AS ?a" + to_string(i) + ") ";
        q += "WHERE " + text(w, g) + (k.size() ? " GROUP BY " + by : "");
        if (having) q += " HAVING (" + atext(cond) + " > 1)";
        expect(q, want, false);
    }
}
static void order(const Grp &g, int nv, int deep) {
    vector<Sol> s = sols(g);
    vector<vector<int>> projs; vector<int> all; for (int v = 0; v < nv; ++v) all.push_back(v);
    projs.push_back(all); if (nv > 1) projs.push_back({0});
    // orders over all variables (a total order of the distinct rows)
    vector<vector<pair<int, int>>> os = {{}};
    sort(all.begin(), all.end());
    do for (int m = 0; m < 1 << nv; ++m) { vector<pair<int, int>> o; for (int i = 0; i < nv; ++i) o.push_back({all[i], m >> i & 1}); os.push_back(o); } while (next_permutation(all.begin(), all.end()));
    for (auto &pr : projs) for (int dist = 0; dist < 2; ++dist) for (auto &o : os) {
        if (dist && pr.size() < (size_t)nv && o.size()) continue; // DISTINCT with an order on other variables
        vector<Sol> t = s;
        if (o.size()) stable_sort(t.begin(), t.end(), [&](const Sol &a, const Sol &b) { for (auto &x : o) if (a[x.first] != b[x.first]) return (ord(a[x.first]) < ord(b[x.first])) != !!x.second; return false; });
        vector<sq::Row> rows; set<sq::Row> seen;
        for (auto &x : t) { sq::Row r; for (int v : pr) r.push_back(txt(x[v])); if (dist && !seen.insert(r).second) continue; rows.push_back(r); }
        string q = string("SELECT ") + (dist ? "DISTINCT " : ""); for (int v : pr) q += name(v) + " ";
        q += "WHERE " + text(w, g);
        if (o.size()) { q += " ORDER BY"; for (auto &x : o) q += string(x.second ? " DESC(" : " ASC(") + name(x.first) + ")"; }
        vector<sq::Row> full = rows;
        if (!o.size()) { sq::Res r = run(*kb, q); vh::add("evaluations"); rows = r.rows; auto a = rows, b = full; sort(a.begin(), a.end()); sort(b.begin(), b.end()); if (a != b) vh::fail(q + " gives " + show(a) + " instead of " + show(b)); }
        int n = rows.size();
        for (int lim = 1; lim <= min(n, deep) + 1; ++lim) for (int off = 0; off <= min(n, deep) + 1; ++off) {
            int L = lim == min(n, deep) + 1 ? -1 : lim;
            vector<sq::Row> want; for (int i = off; i < n && (L < 0 || i < off + L); ++i) want.push_back(rows[i]);
            string x = q; if (L >= 0) x += " LIMIT " + to_string(L); if (off) x += " OFFSET " + to_string(off);
            expect(x, want, true);
        }
    }
}
static void sub(const vector<P> &p, int nv) {
    // { p0 . { SELECT [DISTINCT] vars WHERE { p1 } [LIMIT n] } } and a subselect with an aggregate
    Grp a, b; a.pats = {p[0]}; b.pats = {p[1]};
    set<int> va, vb; visible(a, va); visible(b, vb);
    vector<Sol> sa = sols(a), sb = sols(b);
    vector<int> vbl(vb.begin(), vb.end());
    string outer; { set<int> u = va; u.insert(vb.begin(), vb.end()); }
    for (int m = 1; m < 1 << vbl.size(); ++m) for (int dist = 0; dist < 2; ++dist) for (int agg = 0; agg < 2; ++agg) {
        vector<int> pr; for (size_t i = 0; i < vbl.size(); ++i) if (m >> i & 1) pr.push_back(vbl[i]);
        if (agg && (dist || sb.empty())) continue;
        string names, q; for (int v : pr) names += name(v) + " ";
        vector<vector<int64_t>> in; set<vector<int64_t>> seen; map<vector<int64_t>, int> cnt;
        for (auto &x : sb) { vector<int64_t> r; for (int v : pr) r.push_back(x[v]); if (agg) { cnt[r]++; continue; } if (dist && !seen.insert(r).second) continue; in.push_back(r); }
        for (auto &c : cnt) in.push_back(c.first);
        set<int> uni(va); uni.insert(pr.begin(), pr.end());
        vector<sq::Row> want;
        for (auto &x : sa) for (auto &r : in) {
            Sol y(w.nvars, -1); for (size_t i = 0; i < pr.size(); ++i) y[pr[i]] = r[i];
            if (!compatible(x, y)) continue;
            Sol z = merge(x, y); sq::Row o; for (int v : uni) o.push_back(txt(z[v]));
            if (agg) o.push_back(to_string(cnt[r]));
            want.push_back(o);
        }
        q = "SELECT "; for (int v : uni) q += name(v) + " "; if (agg) q += "?c ";
        string t = text(w, a); t.erase(t.size() - 1);
        q += "WHERE " + t + "{ SELECT " + (dist ? "DISTINCT " : "") + names + (agg ? "(COUNT(" + name(vbl[0]) + ") AS ?c) " : "") + "WHERE " + text(w, b) + (agg ? " GROUP BY " + names : "") + " } }";
        expect(q, want, false);
    }
}
void explore() {
    Logger::setMinLevel(100);
    string mode = vh::arg("mode", "agg");
    int step = atoi((vh::thorough ? vh::arg("tstep", "1") : vh::arg("step", "1")).c_str()), deep = atoi(vh::arg("deep", "3").c_str());
    string I = "^^<http://www.w3.org/2001/XMLSchema#integer>";
    w.term = {"<a>", "<b>", "<p>", "<q>", "\"1\"" + I, "\"2\"" + I, "\"10\"" + I}; w.nvars = 6;
    if (mode == "groups") { // many groups with many rows each
        for (int n : {5, 17, 40, 90}) for (int sh = 0; sh < (vh::thorough ? 12 : 4); ++sh) vh::runCase([&] { return vh::fmt("groups %d %d", n, sh); }, [&] {
            w.term = {"<p>", "<q>"}; w.g.clear(); w.nvars = 3;
            int K = sh % 4 == 0 ? 3 : sh % 4 == 1 ? n : n / 2 + 1;
            for (int i = 0; i < n; ++i) w.term.push_back("<n" + to_string(i) + ">");
            for (int i = 0; i < K; ++i) w.term.push_back("\"" + to_string(i * (sh + 1) * 7 % 101) + "\"" + I);
            set<T3> e;
            for (int i = 0; i < n; ++i) for (int j = 0; j < 1 + (int) (vh::mix(i, 31 + sh) % (sh % 2 ? 2 : 5)); ++j) {
                e.insert(T3{{2 + i, 0, 2 + n + (int) (vh::mix(i * 977 + j * 13, sh) % K)}});
                if (i % 3 != sh % 3) e.insert(T3{{2 + i, 1, 2 + (int) (vh::mix(i * 577 + j * 11, sh) % n)}});
            }
            w.g.assign(e.begin(), e.end());
            { set<string> seen; for (auto &x : w.term) if (!seen.insert(x).second) x = "\"1" + to_string(1000 + (int) (&x - &w.term[0])) + "\"" + I; }
            Spec sp; sp.g = w.g; sp.dict = w.term;
            KBConfig c; KB k(load(sp).c_str(), true, false, true, c); kb = &k;
            auto P1 = [&](int a, int p, int b) { return P{{Pos{a, -1}, Pos{-1, p}, Pos{b, -1}}}; };
            Grp g; g.pats = {P1(0, 0, 1)}; agg(g, 2);
            g.pats = {P1(0, 0, 1), P1(0, 1, 2)}; agg(g, 3);
            g.pats = {P1(0, 1, 2), P1(2, 0, 1)}; agg(g, 3);
            Grp u, a, b; a.pats = {P1(0, 0, 1)}; b.pats = {P1(2, 1, 0)}; u.unions = {{a, b}}; agg(u, 3);
            vh::wipeAll();
        });
        return;
    }
    if (mode == "tie") { // terms that are prefixes of others, with characters before and after the delimiters
        w.term = {"<a>", "<a!>", "<p>", "<q>", "\"a\"", "\"a!\"", "<a/b>", "<aa>", "\"\"", "\"ab\"@en", "\"a\"@en"};
        vector<pair<int, int>> e; for (int x : {0, 1, 6, 7}) e.push_back({x, 4}); for (int x : {5, 8, 9, 10, 0, 1, 6, 7}) e.push_back({0, x});
        for (int m = 1; m < 1 << e.size(); m += step) vh::runCase([&] { return "tie " + to_string(m); }, [&] {
            w.g.clear(); for (size_t i = 0; i < e.size(); ++i) if (m >> i & 1) w.g.push_back(T3{{e[i].first, 2, e[i].second}});
            Spec sp; sp.g = w.g; sp.dict = w.term;
            KBConfig c; KB k(load(sp).c_str(), true, false, true, c); kb = &k;
            Grp g; g.pats = {P{{Pos{0, -1}, Pos{-1, 2}, Pos{1, -1}}}}; order(g, 2, 1);
            Expr x; x.op = "t"; x.p = Pos{1, -1}; Expr i; i.op = "isIRI"; i.a = {x}; Expr n; n.op = "!"; n.a = {i}; g.filters = {n}; order(g, 2, 1); // the filter reads terms, too
            vh::wipeAll();
        });
        return;
    }
    vector<T3> u; for (int s = 0; s < 2; ++s) for (int o = 4; o < 7; ++o) u.push_back(T3{{s, 2, o}});
    for (int s = 0; s < 2; ++s) for (int o = 0; o < 2; ++o) u.push_back(T3{{s, 3, o}});
    if (mode == "known") vh::runCase([&] { return string("known findings"); }, [&] {
        w.g = {u[0]}; Spec sp; sp.g = w.g; sp.dict = w.term;
        KBConfig c; KB k(load(sp).c_str(), true, false, true, c);
        string q = "SELECT (COUNT(?s) AS ?n) WHERE { ?s <unknown> ?o }"; auto r = run(k, q);
        if (r.rows != vector<sq::Row>{{"0"}}) vh::known("count-unknown-term", q + " gives " + show(r.rows) + " instead of (0 )");
    });
    else for (int m = 1; m < 1 << u.size(); m += step) {
        w.g.clear(); for (size_t i = 0; i < u.size(); ++i) if (m >> i & 1) w.g.push_back(u[i]);
        vh::runCase([&] { return mode + " " + kbu::show(w.g); }, [&] {
            Spec sp; sp.g = w.g; sp.dict = w.term;
            string path = load(sp);
            KBConfig c; KB k(path.c_str(), true, false, true, c); kb = &k;
            vector<P> cur;
            if (mode == "agg") for (int n = 1; n <= 2; ++n) pats(n, 0, cur, [&](const vector<P> &p, int nv) { Grp g; g.pats = p; agg(g, nv); });
            if (mode == "order") for (int n = 1; n <= 2; ++n) pats(n, 0, cur, [&](const vector<P> &p, int nv) { Grp g; g.pats = p; if (nv < 3) order(g, nv, deep); });
            if (mode == "union") for (int nv0 = 0; nv0 < 1; ++nv0) pats(2, 0, cur, [&](const vector<P> &p, int nv) { if (nv > 3) return; Grp g, a, b; a.pats = {p[0]}; b.pats = {p[1]}; g.unions = {{a, b}}; agg(g, nv); order(g, nv, nv < 3 ? deep : 0); });
            if (mode == "sub") pats(2, 0, cur, [&](const vector<P> &p, int nv) { sub(p, nv); });
        });
        vh::wipeAll();
    }
}
