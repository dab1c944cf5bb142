// Reference SPARQL algebra over small graphs: group graph patterns with OPTIONAL, UNION, MINUS, VALUES, FILTER.
#ifndef SPARQLALG_H
#define SPARQLALG_H
#include "sparqlref.h"
namespace sq {

struct Pos { int var; int term; bool bare; Pos(int v = -1, int t = -1, bool b = false) : var(v), term(t), bare(b) {} }; // var >= 0 or a term; bare: a number without quotes
typedef std::vector<int64_t> Sol;                  // per variable: a term or -1
struct Expr { std::string op; std::vector<Expr> a; Pos p{-1, -1}; std::shared_ptr<struct Grp> g; };
struct Grp {
    std::vector<std::array<Pos, 3>> pats;
    std::vector<std::pair<std::vector<int>, std::vector<std::vector<int>>>> values; // variables, rows
    std::vector<std::vector<Grp>> unions;
    std::vector<Grp> opts, minus;
    std::vector<Expr> filters;
};
struct World { std::vector<std::string> term; std::vector<T3> g; int nvars; };
inline std::string text(const World &w, const Pos &p) { return p.var >= 0 ? "?v" + std::to_string(p.var) : p.bare ? w.term[p.term].substr(1, w.term[p.term].rfind('"') - 1) : w.term[p.term]; }
std::string text(const World &w, const Grp &g);
inline std::string text(const World &w, const Expr &e) {
    if (e.op == "t") return text(w, e.p);
    if (e.op == "!") return "!(" + text(w, e.a[0]) + ")";
    if (e.op == "exists") return "EXISTS " + text(w, *e.g);
    if (e.op == "notexists") return "NOT EXISTS " + text(w, *e.g);
    if (e.op == "bound" || e.op == "isIRI" || e.op == "isLITERAL") return e.op + "(" + text(w, e.a[0]) + ")";
    if (e.op == "sameTerm") return "sameTerm(" + text(w, e.a[0]) + "," + text(w, e.a[1]) + ")";
    if (e.op == "in" || e.op == "notin") { // the engine supports in(x,a,b) and x NOT IN (constants)
        std::string s = e.op == "in" ? "in(" + text(w, e.a[0]) + "," : text(w, e.a[0]) + " NOT IN (";
        for (size_t i = 1; i < e.a.size(); ++i) s += (i > 1 ? "," : "") + text(w, e.a[i]);
        return s + ")";
    }
    return "(" + text(w, e.a[0]) + " " + e.op + " " + text(w, e.a[1]) + ")";
}
inline std::string text(const World &w, const Grp &g) {
    std::string s = "{ ";
    for (auto &p : g.pats) s += text(w, p[0]) + " " + text(w, p[1]) + " " + text(w, p[2]) + " . ";
    for (auto &v : g.values) {
        s += "VALUES (";
        for (int x : v.first) s += "?v" + std::to_string(x) + " ";
        s += ") { ";
        for (auto &r : v.second) { s += "("; for (int t : r) s += w.term[t] + " "; s += ") "; }
        s += "} ";
    }
    for (auto &u : g.unions) for (size_t i = 0; i < u.size(); ++i) s += (i ? "UNION " : "") + text(w, u[i]) + " ";
    for (auto &o : g.opts) s += "OPTIONAL " + text(w, o) + " ";
    for (auto &o : g.minus) s += "MINUS " + text(w, o) + " ";
    for (auto &f : g.filters) s += "FILTER (" + text(w, f) + ") ";
    return s + "}";
}
inline void visible(const Grp &g, std::set<int> &v) {
    for (auto &p : g.pats) for (auto &x : p) if (x.var >= 0) v.insert(x.var);
    for (auto &x : g.values) v.insert(x.first.begin(), x.first.end());
    for (auto &u : g.unions) for (auto &b : u) visible(b, v);
    for (auto &o : g.opts) visible(o, v);
}
inline bool compatible(const Sol &a, const Sol &b) { for (size_t i = 0; i < a.size(); ++i) if (a[i] >= 0 && b[i] >= 0 && a[i] != b[i]) return false; return true; }
inline Sol merge(const Sol &a, const Sol &b) { Sol r = a; for (size_t i = 0; i < r.size(); ++i) if (r[i] < 0) r[i] = b[i]; return r; }
inline std::vector<Sol> join(const std::vector<Sol> &a, const std::vector<Sol> &b) {
    std::vector<Sol> r; for (auto &x : a) for (auto &y : b) if (compatible(x, y)) r.push_back(merge(x, y)); return r;
}
std::vector<Sol> eval(const World &w, const Grp &g, bool filters = true);
// 1 true, 0 false, -1 error
inline int ev(const World &w, const Expr &e, const Sol &s) {
    auto val = [&](const Expr &x) -> int64_t { return x.p.var >= 0 ? s[x.p.var] : x.p.term; };
    if (e.op == "!") { int r = ev(w, e.a[0], s); return r < 0 ? r : !r; }
    if (e.op == "&&") { int a = ev(w, e.a[0], s), b = ev(w, e.a[1], s); return a == 0 || b == 0 ? 0 : a < 0 || b < 0 ? -1 : 1; }
    if (e.op == "||") { int a = ev(w, e.a[0], s), b = ev(w, e.a[1], s); return a == 1 || b == 1 ? 1 : a < 0 || b < 0 ? -1 : 0; }
    if (e.op == "bound") return val(e.a[0]) >= 0;
    if (e.op == "exists" || e.op == "notexists") {
        bool any = false; for (auto &x : eval(w, *e.g)) if (compatible(x, s)) any = true;
        return any == (e.op == "exists");
    }
    if (e.op == "isIRI" || e.op == "isLITERAL") { int64_t a = val(e.a[0]); return a < 0 ? -1 : (w.term[a][0] == '<') == (e.op == "isIRI"); }
    if (e.op == "in" || e.op == "notin") {
        int64_t a = val(e.a[0]); if (a < 0) return -1;
        bool in = false; for (size_t i = 1; i < e.a.size(); ++i) if (val(e.a[i]) == a) in = true;
        return in == (e.op == "in");
    }
    int64_t a = val(e.a[0]), b = val(e.a[1]);
    if (a < 0 || b < 0) return -1;
    if (e.op == "=" || e.op == "sameTerm") return a == b;
    if (e.op == "!=") return a != b;
    if (e.op[0] == '<' || e.op[0] == '>') { // two numbers or two plain strings
        const std::string &x = w.term[a], &y = w.term[b];
        auto kind = [](const std::string &t) { return t[0] != '"' ? 0 : t.back() == '"' ? 1 : t.find("#integer>") != std::string::npos || t.find("#double>") != std::string::npos || t.find("#float>") != std::string::npos ? 2 : 0; };
        if (!kind(x) || kind(x) != kind(y)) return -1;
        int c;
        if (kind(x) == 1) c = x.substr(1, x.size() - 2).compare(y.substr(1, y.size() - 2));
        else { double u = atof(x.c_str() + 1), v = atof(y.c_str() + 1); c = u < v ? -1 : u > v; }
        return e.op == "<" ? c < 0 : e.op == "<=" ? c <= 0 : e.op == ">" ? c > 0 : c >= 0;
    }
    vh::fail("unknown operator " + e.op); return 0;
}
inline std::vector<Sol> eval(const World &w, const Grp &g, bool filters) {
    std::vector<Sol> r = {Sol(w.nvars, -1)};
    for (auto &p : g.pats) {
        std::vector<Sol> m;
        for (auto &t : w.g) {
            Sol s(w.nvars, -1); bool ok = true;
            for (int k = 0; k < 3 && ok; ++k) {
                if (p[k].var < 0) ok = t[k] == p[k].term;
                else if (s[p[k].var] < 0) s[p[k].var] = t[k];
                else ok = s[p[k].var] == t[k];
            }
            if (ok) m.push_back(s);
        }
        r = join(r, m);
    }
    for (auto &v : g.values) {
        std::vector<Sol> m;
        for (auto &row : v.second) { Sol s(w.nvars, -1); for (size_t i = 0; i < row.size(); ++i) s[v.first[i]] = row[i]; m.push_back(s); }
        r = join(r, m);
    }
    for (auto &u : g.unions) {
        std::vector<Sol> m;
        for (auto &b : u) { auto x = eval(w, b); m.insert(m.end(), x.begin(), x.end()); }
        r = join(r, m);
    }
    for (auto &o : g.opts) {
        std::vector<Sol> m, b = eval(w, o, false);
        for (auto &l : r) {
            bool any = false;
            for (auto &x : b) if (compatible(l, x)) {
                Sol s = merge(l, x); bool ok = true;
                for (auto &f : o.filters) if (ev(w, f, s) != 1) ok = false;
                if (ok) { m.push_back(s); any = true; }
            }
            if (!any) m.push_back(l);
        }
        r = m;
    }
    for (auto &o : g.minus) {
        std::vector<Sol> m, b = eval(w, o);
        for (auto &l : r) {
            bool out = false;
            for (auto &x : b) { bool share = false; for (size_t i = 0; i < l.size(); ++i) if (l[i] >= 0 && x[i] >= 0) share = true; if (share && compatible(l, x)) out = true; }
            if (!out) m.push_back(l);
        }
        r = m;
    }
    if (filters) for (auto &f : g.filters) { std::vector<Sol> m; for (auto &s : r) if (ev(w, f, s) == 1) m.push_back(s); r = m; }
    return r;
}
inline std::vector<Row> rows(const World &w, const std::vector<Sol> &s, const std::vector<int> &proj, bool distinct) {
    std::vector<Row> r;
    for (auto &x : s) { Row o; for (int v : proj) o.push_back(x[v] < 0 ? "" : w.term[x[v]]); r.push_back(o); }
    std::sort(r.begin(), r.end());
    if (distinct) r.erase(std::unique(r.begin(), r.end()), r.end());
    return r;
}
// Compares the engine with the reference; err = "" if they agree
inline std::string compare(KB &kb, const World &w, const Grp &g, const std::vector<int> &proj, bool distinct) {
    std::string q = std::string("SELECT ") + (distinct ? "DISTINCT " : "");
    for (int v : proj) q += "?v" + std::to_string(v) + " ";
    q += "WHERE " + text(w, g);
    std::vector<Row> e = rows(w, eval(w, g), proj, distinct);
    vh::add("evaluations");
    vh::outcome(vh::hashs(show(e)));
    std::string err; Res r;
    try { r = run(kb, q); } catch (int x) { err = "exception"; }
    std::sort(r.rows.begin(), r.rows.end());
    if (err == "" && r.rows == e) return "";
    return q + " gives " + (err != "" ? err : show(r.rows)) + " instead of " + show(e);
}
}
#endif
