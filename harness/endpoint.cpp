// The SPARQL endpoint: requests arrive at the real TridentServer over the modelled network, the answers are parsed by
// an independent JSON parser and compared with the definition of the query over the triples.
#include "sparqlref.h"
#include "net.h"
#include "vsched.h"
#include <trident/server/server.h>
#include <trident/utils/httpclient.h>
#include <sys/stat.h>
#include <set>
using namespace std; using namespace kbu;
struct J { char kind = 0; string s; vector<J> l; vector<pair<string, J>> o; const J &at(const string &k) const { for (auto &x : o) if (x.first == k) return x.second; throw string("no member " + k); } };
struct JP { // strict
    const string &t; size_t p = 0;
    JP(const string &s) : t(s) {}
    void ws() { while (p < t.size() && strchr(" \n\r\t", t[p])) ++p; }
    void want(char c) { ws(); if (p >= t.size() || t[p] != c) throw vh::fmt("JSON: '%c' expected at %zu", c, p); ++p; }
    bool is(char c) { ws(); return p < t.size() && t[p] == c; }
    string str() {
        want('"'); string r;
        while (true) {
            if (p >= t.size()) throw string("JSON: string not closed");
            unsigned char c = t[p++];
            if (c == '"') return r;
            if (c < 32) throw string("JSON: control character in a string");
            if (c != '\\') { r += c; continue; }
            char e = p < t.size() ? t[p++] : 0;
            if (e == 'u') {
                if (p + 4 > t.size()) throw string("JSON: short escape");
                unsigned v = 0; for (int i = 0; i < 4; ++i) { char h = t[p++]; if (!isxdigit(h)) throw string("JSON: bad escape"); v = v * 16 + (isdigit(h) ? h - '0' : (h | 32) - 'a' + 10); }
                if (v < 128) r += (char) v; else if (v < 2048) { r += (char) (192 | v >> 6); r += (char) (128 | (v & 63)); } else { r += (char) (224 | v >> 12); r += (char) (128 | (v >> 6 & 63)); r += (char) (128 | (v & 63)); }
            } else { const char *a = "\"\\/bfnrt", *b = "\"\\/\b\f\n\r\t", *q = e ? strchr(a, e) : nullptr; if (!q) throw string("JSON: bad escape"); r += b[q - a]; }
        }
    }
    J val() {
        J j; ws();
        if (is('"')) { j.kind = 's'; j.s = str(); }
        else if (is('{')) { j.kind = 'o'; want('{'); while (!is('}')) { if (!j.o.empty()) want(','); ws(); string k = str(); want(':'); j.o.push_back({k, val()}); } want('}'); }
        else if (is('[')) { j.kind = 'l'; want('['); while (!is(']')) { if (!j.l.empty()) want(','); j.l.push_back(val()); } want(']'); }
        else { j.kind = 'n'; while (p < t.size() && !strchr(",]} \n", t[p])) j.s += t[p++]; if (j.s.empty()) throw string("JSON: value expected"); }
        return j;
    }
    static J parse(const string &s) { JP x{s}; J j = x.val(); x.ws(); if (x.p != s.size()) throw string("JSON: text after the end"); return j; }
};
static const vector<string> TERM = {"<a>", "<b>", "<p>", "<http://x/y?q=1&r=2#f>", "\"l\"", "\"with space\"", "\"a+b\"", "\"50%\"", "\"%41\"", "\"x&y=z\"", "\"q\\\"uote\"", "\"back\\\\slash\"", "\"tab\there\"", "\"\xc3\xa9\xe6\xbc\xa2\"", "\"en\"@en", "\"5\"^^<http://www.w3.org/2001/XMLSchema#integer>", "\"\"", "\"print=false\"", "\"query=1&print=false\"", "\"a/b{c}'\"", "\"ctl\x01\x1f\"", "\"<b>\"", "\"en\"", "\"5\"", "\"x\"^^<http://x/t>", "\"x\"", "\"en\"@nl"};
static vector<T3> graph() { vector<T3> g; for (int i = 3; i < (int) TERM.size(); ++i) { g.push_back(T3{{i % 2, 2, i}}); if (i % 4 == 0) g.push_back(T3{{1 - i % 2, 2, i}}); } g.push_back(T3{{0, 2, 1}}); g.push_back(T3{{1, 2, 0}}); return g; }
struct Q { string text; vector<string> vars; vector<sq::Row> rows; };
static vector<Q> queries() { // one or two patterns with every term as a constant, and other forms
    auto g = graph(); vector<Q> r;
    r.push_back({"SELECT ?s ?o WHERE { ?s <p> ?o }", {"s", "o"}, {}}); for (auto &t : g) r.back().rows.push_back({TERM[t[0]], TERM[t[2]]});
    r.push_back({"SELECT ?o ?s WHERE { ?s ?p ?o }", {"o", "s"}, {}}); for (auto &t : g) r.back().rows.push_back({TERM[t[2]], TERM[t[0]]});
    r.push_back({"SELECT ?x WHERE { <nosuch> <p> ?x }", {"x"}, {}});
    r.push_back({"SELECT DISTINCT ?s\r\nWHERE {\r\n?s <p> ?o .\r\n}", {"s"}, {{"<a>"}, {"<b>"}}});
    r.push_back({"SELECT ?s ?t WHERE { ?s <p> ?t . ?t <p> ?s }", {"s", "t"}, {{"<a>", "<b>"}, {"<b>", "<a>"}}});
    r.push_back({"SELECT ?a ?b ?c ?d WHERE { ?a <p> ?b . ?c <p> ?d }", {"a", "b", "c", "d"}, {}}); // an answer of more than 64 KB
    for (auto &t : g) for (auto &u : g) r.back().rows.push_back({TERM[t[0]], TERM[t[2]], TERM[u[0]], TERM[u[2]]});
    for (size_t i = 3; i < TERM.size(); ++i) {
        if (TERM[i].find('\\') != string::npos) continue; // escapes in a query are the lexer's business
        r.push_back({"SELECT ?s WHERE { ?s <p> " + TERM[i] + " }", {"s"}, {}}); for (auto &t : g) if (t[2] == (int64_t) i) r.back().rows.push_back({TERM[t[0]]});
        if (i % 3 == 0) { r.push_back({"SELECT ?s ?x WHERE { ?s <p> " + TERM[i] + " . ?s <p> ?x . FILTER(?x != <b>) }", {"s", "x"}, {}}); for (auto &t : g) if (t[2] == (int64_t) i) for (auto &u : g) if (u[0] == t[0] && u[2] != 1) r.back().rows.push_back({TERM[t[0]], TERM[u[2]]}); }
    }
    for (auto &q : r) sort(q.rows.begin(), q.rows.end());
    return r;
}
static string enc(const string &s, int style) {
    string r = HttpClient::escape(s);
    if (style == 1) { string x; for (size_t i = 0; i < r.size(); ++i) if (r.compare(i, 3, "%20") == 0) { x += '+'; i += 2; } else x += r[i]; return x; }
    if (style == 2) { string x; for (char c : s) x += strchr("%&+\r\n", c) && c ? HttpClient::escape(string(1, c)) : c == ' ' ? "+" : string(1, c); return x; }
    return r;
}
static string post(const string &path, const string &body, int form) {
    string h = "POST " + path + " HTTP/1.1\r\nHost: localhost:8080\r\n";
    if (form == 1) h += "Referer: http://localhost/?query=SELECT&id=3&print=true\r\n";
    h += form == 2 ? "content-type: application/x-www-form-urlencoded; charset=UTF-8\r\ncookie: query=none; print=false; id=2\r\n" : "Content-Type: application/x-www-form-urlencoded\r\n";
    return h + (form == 2 ? "content-length:" : "Content-Length: ") + to_string(body.size()) + "\r\n\r\n" + body;
}
struct Answer { string head, body; };
static Answer receive(int c) { // reads one response
    Answer a; while (a.head.find("\r\n\r\n") == string::npos) { string s = net::take(c, 1); if (s.empty()) sched::fail("the connection was closed without an answer"); a.head += s; }
    if (a.head.compare(0, 17, "HTTP/1.1 200 OK\r\n")) sched::fail("answer " + a.head);
    for (size_t i = 0; i < a.head.size(); ++i) if (a.head[i] == '\n' && (!i || a.head[i - 1] != '\r')) sched::fail("a line of the header does not end with CRLF");
    size_t p = a.head.find("Content-Length: "); if (p == string::npos) sched::fail("no length: " + a.head);
    size_t n = stoul(a.head.substr(p + 16)); a.body = net::take(c, n); if (a.body.size() != n) sched::fail("the answer is cut off");
    return a;
}
static void check(const Answer &a, const Q &q, bool print, const string &what) {
    try {
        J j = JP::parse(a.body);
        vector<string> vars; if (j.at("head").at("vars").kind != 'l') throw string("the variables are not a list"); for (auto &v : j.at("head").at("vars").l) vars.push_back(v.s);
        if (vars != q.vars) throw string("other variables");
        auto &b = j.at("results").at("bindings"); if (b.kind != 'l') throw string("the bindings are not a list");
        vector<sq::Row> rows;
        for (auto &r : b.l) { sq::Row w; for (auto &v : q.vars) { auto &x = r.at(v); w.push_back(x.at("type").s == "uri" ? "<" + x.at("value").s + ">" : x.at("value").s); } if (r.o.size() != q.vars.size()) throw string("more bindings than variables"); rows.push_back(w); }
        sort(rows.begin(), rows.end());
        if (rows != (print ? q.rows : vector<sq::Row>())) throw "rows " + sq::show(rows) + " instead of " + sq::show(q.rows);
        if (j.at("stats").at("nresults").s != to_string(q.rows.size())) throw "nresults is " + j.at("stats").at("nresults").s;
    } catch (string &e) { sched::fail(what + ": " + e + " in " + a.body.substr(0, 300)); }
    if (a.head.find("application/json") == string::npos) sched::fail("not announced as JSON");
}
static string path; static string html;
struct Srv {
    unique_ptr<KB> kb; unique_ptr<TridentServer> s; sq::Quiet quiet;
    Srv(int threads) { net::reset(); KBConfig c; kb.reset(new KB(path.c_str(), true, false, true, c)); s.reset(new TridentServer(*kb, html, threads)); s->start(8099); }
    void done() { s->stop(); s->join(); s.reset(); kb.reset(); }
};
static void count(const sched::Result &r) {
    vh::add("states", r.decisions); vh::add("transitions", r.steps); vh::add("traces", r.schedules); vh::add("schedules", r.schedules);
    if (r.capped) vh::add("capped");
    if (getenv("SCHEDV")) fprintf(stderr, "case %ld: %ld schedules, %ld steps, %ld decisions, %ld threads%s\n", vh::idx, r.schedules, r.steps, r.decisions, r.threads, r.capped ? " CAPPED" : "");
}
static void scen(int budget, const string &d, const function<void()> &body) {
    vh::runCase([&] { return d; }, [&] {
        if (path.empty()) {
            Spec sp; sp.dict = TERM; sp.g = graph(); path = load(sp);
            html = vh::newDir() + "/html"; mkdir(html.c_str(), 0700); mkdir((html + "/sub").c_str(), 0700);
            ofstream(html + "/index.html") << "main WEB_PORT page"; ofstream(html + "/a.html") << "page a"; ofstream(html + "/sub/b.html") << string(3000, 'b'); ofstream(html + "/../secret") << "secret"; ofstream(html + "/sub/..x") << "dots";
        }
        sched::Opts o; o.budget = budget; o.delays = true; o.seconds = 120; count(sched::explore(o, body, vh::arg("schedule"))); vh::outcome(vh::hashs(d));
    });
}
static void sequential() {
    auto qs = queries();
    for (int form = 0; form < 3; ++form) for (int style = 0; style < 3; ++style) for (int order = 0; order < 5; ++order) for (size_t k = 0; k < qs.size(); k += 8)
        scen(0, vh::fmt("queries %zu.., header %d, encoding %d, order of parameters %d", k, form, style, order), [&] {
            Srv s(1); int c = net::dial();
            for (size_t i = k; i < min(qs.size(), k + 8); ++i) {
                string q = "query=" + enc(qs[i].text, style), b = order == 0 ? q : order == 1 ? "print=true&" + q : order == 2 ? q + "&print=false" : order == 3 ? "print=false&" + q : "xquery=1&printx=false&" + q + "&query2=z&id=4";
                net::put(c, post("/sparql", b, form)); check(receive(c), qs[i], order != 2 && order != 3, qs[i].text);
                vh::add("evaluations");
            }
            net::eof(c); net::awaitClose(c); s.done();
        });
    scen(0, "lookups", [&] {
        Srv s(1); int c = net::dial();
        vector<pair<string, string>> w; for (size_t i = 0; i < TERM.size(); ++i) w.push_back({to_string(i), TERM[i][0] == '<' ? TERM[i].substr(1, TERM[i].size() - 2) : TERM[i]});
        for (string x : {to_string(TERM.size()), string("1000"), string("2147483647"), string("2147483648"), string("4294967296"), string("1099511627775"), string(), string("x")}) w.push_back({x, ""});
        for (auto &x : w) for (int form = 0; form < 3; ++form) { net::put(c, post("/lookup", "id=" + x.first, form)); auto a = receive(c); try { J j = JP::parse(a.body); if (j.at("value").s != x.second) throw "value " + j.at("value").s; } catch (string &e) { sched::fail("lookup of " + x.first + ": " + e); } vh::add("evaluations"); }
        net::eof(c); net::awaitClose(c); s.done();
    });
    scen(0, "pages", [&] {
        Srv s(1); int c = net::dial(); string none = "Error! I cannot find the page to show.";
        vector<pair<string, string>> w = {{"/", "main 8099 page"}, {"/index.html", "main 8099 page"}, {"/a.html", "page a"}, {"/sub/b.html", string(3000, 'b')}, {"/nope", none}, {"/sub/..x", "dots"}, {"/../secret", ""}, {"/sub/../../secret", ""}, {"/./../secret", ""}, {"//../secret", ""}, {"/..//../html/../secret", ""}, {"/sub/..", ""}};
        for (int rep = 0; rep < 2; ++rep) for (auto &x : w) { net::put(c, "GET " + x.first + " HTTP/1.1\r\nHost: h\r\n\r\n"); auto a = receive(c); if (x.second.empty() ? a.body.find("secret") != string::npos : a.body != x.second) sched::fail("GET " + x.first + " gives " + a.body.substr(0, 100)); vh::add("evaluations"); }
        net::put(c, post("/nothing", "a=b", 0)); if (receive(c).body != "Error!") sched::fail("an unknown path is answered");
        net::eof(c); net::awaitClose(c); s.done();
    });
}
static void concurrent() {
    auto qs = queries(); int B = atoi(vh::arg("budget", "1").c_str());
    vector<vector<size_t>> sel = {{0, 0}, {0, 2}, {1, 5}, {4, 0}, {3, 7}, {0, 1, 4}}; 
    for (auto &v : sel) for (int form = 0; form < 2; ++form) for (int workers = 2; workers <= 3; ++workers) if (workers <= (int) v.size()) {
        string d; for (auto x : v) d += " " + to_string(x);
        scen(B, vh::fmt("%d threads answer the queries%s%s", workers, d.c_str(), form ? ", a lookup and pages" : ""), [&] {
            Srv s(workers); vector<int> c; for (size_t i = 0; i < v.size() + 2 * form; ++i) c.push_back(net::dial());
            for (size_t i = 0; i < v.size(); ++i) net::put(c[i], post("/sparql", "query=" + enc(qs[v[i]].text, 1), 0));
            if (form) { net::put(c[v.size()], post("/lookup", "id=3", 0)); net::put(c[v.size() + 1], "GET /a.html HTTP/1.1\r\n\r\n"); }
            for (size_t i = 0; i < v.size(); ++i) check(receive(c[i]), qs[v[i]], true, qs[v[i]].text);
            if (form) { if (receive(c[v.size() + 1]).body != "page a") sched::fail("wrong page"); if (receive(c[v.size()]).body.find("http://x/y?q=1&r=2#f") == string::npos) sched::fail("wrong term"); }
            for (int x : c) { net::eof(x); } for (int x : c) net::awaitClose(x);
            s.done();
        });
    }
}
void explore() {
    Logger::setMinLevel(100);
    string m = vh::arg("mode", "seq");
    if (m == "seq") sequential(); else concurrent();
}
