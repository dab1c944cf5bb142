// The HTTP server and client of Trident on a modelled network: every way a request or a response can be cut into
// pieces, every point at which a peer can leave, and every schedule of the server's threads within a bound.
#include "vh.h"
#include "vsched.h"
#include "net.h"
#include <trident/utils/httpserver.h>
#include <trident/utils/httpclient.h>
#include <kognac/logs.h>
#include <csignal>
#include <functional>
#include <map>
#include <memory>
#include <thread>
using namespace std;
static void count(const sched::Result &r) {
    vh::add("states", r.decisions); vh::add("transitions", r.steps); vh::add("traces", r.schedules); vh::add("schedules", r.schedules);
    if (r.capped) vh::add("capped");
    if (getenv("SCHEDV")) fprintf(stderr, "case %ld: %ld schedules, %ld steps, %ld decisions, %ld threads%s\n", vh::idx, r.schedules, r.steps, r.decisions, r.threads, r.capped ? " CAPPED" : "");
    vh::outcome(vh::mix(r.schedules, vh::mix(r.steps, r.threads)));
}
static void scen(int budget, const string &d, const function<void()> &body) {
    vh::runCase([&] { return d + (budget ? vh::fmt(", %d delays", budget) : ""); }, [&] { sched::Opts o; o.budget = budget; o.delays = true; count(sched::explore(o, body, vh::arg("schedule"))); });
}
static string quote(const string &s) { string r; for (unsigned char c : s) r += c >= 32 && c < 127 ? string(1, c) : c == 10 ? "\\n" : c == 13 ? "\\r" : vh::fmt("\\x%02x", c); return r; }
// ---- requests
struct Req { string text; size_t head; }; // head: length of the header with the empty line
static string field(int k) { static const char *f[] = {"Content-Length: ", "content-length: ", "Content-Length:", "CONTENT-LENGTH:   "}; return f[k]; }
static Req mk(const string &line, const string &more, size_t body, int kind, const string &salt) {
    Req r; r.text = line + " HTTP/1.1\r\nHost: h:8\r\n" + more;
    if (kind >= 0) r.text += field(kind) + to_string(body) + "\r\n";
    r.text += "\r\n"; r.head = r.text.size();
    for (size_t i = 0; i < body; ++i) r.text += salt.size() && i < salt.size() ? salt[i] : char('a' + i % 23);
    return r;
}
static string show(const Req &r) { return vh::fmt("request of %zu+%zu bytes (%s)", r.head, r.text.size() - r.head, quote(r.text.substr(0, min<size_t>(r.text.size(), 40))).c_str()); }
static string answer(const string &req) { // depends on every byte of the request
    string b; uint64_t h = vh::hashs(req); size_t n = h % 7 == 0 ? 2500 : h % 50;
    if (req.compare(0, 8, "GET /big") == 0) n = atoi(req.c_str() + 8);
    for (size_t i = 0; i < n; ++i) b += char('A' + (h >> (i % 50)) % 26);
    return "HTTP/1.1 200 OK\r\nContent-Length: " + to_string(b.size()) + "\r\n\r\n" + vh::fmt("%016lx", (long) h).substr(0, 0) + b;
}
struct World {
    shared_ptr<HttpServer> s; thread t; map<string, int> handled; HttpServer *raw = nullptr; function<void()> onHandle;
    World(int workers, uint64_t life = 7000) {
        net::reset();
        raw = new HttpServer(80, [this](const string &q, string &a) { handled[q]++; if (onHandle) onHandle(); a = answer(q); }, workers, life);
        t = thread([this] { raw->start(); });
    }
    void done(const map<string, int> &want) {
        raw->stop(); t.join();
        delete raw;
        for (auto &h : handled) if (!want.count(h.first) || want.at(h.first) != h.second) sched::fail("the handler got " + quote(h.first.substr(0, 200)) + vh::fmt(" (%zu bytes) %d times", h.first.size(), h.second));
        for (auto &w : want) if (!handled.count(w.first)) sched::fail("the handler never got " + quote(w.first.substr(0, 200)) + vh::fmt(" (%zu bytes)", w.first.size()));
    }
};
static void put(int c, const string &s, const vector<size_t> &cuts) {
    size_t p = 0;
    for (size_t k : cuts) { if (k > p && k < s.size()) { net::put(c, s.substr(p, k - p)); p = k; } }
    net::put(c, s.substr(p));
}
static void expect(int c, const string &q) {
    string want = answer(q), got = net::take(c, want.size());
    if (got != want) sched::fail(vh::fmt("the client received %zu of the %zu bytes of its response", got.size(), want.size()) + ": " + quote(got.substr(0, 100)));
}
static string show(const vector<size_t> &c) { string s; for (auto x : c) s += (s.empty() ? "" : ",") + to_string(x); return s; }
static vector<Req> requests() {
    vector<Req> r = {
        mk("GET /", "", 0, -1, ""), mk("POST /sparql", "", 5, 0, ""), mk("POST /sparql", "", 0, 0, ""), mk("POST /x", "", 12, 1, ""), mk("POST /x", "", 7, 2, ""), mk("POST /x", "A: b\r\n", 30, 3, ""),
        mk("POST /x", "", 30, 0, "\r\n\r\nContent-Length: 9\r\n\r\n"), mk("GET /a", "X-Content-Length: 40\r\n", 0, -1, ""),
        mk("POST /y", "", 940, 0, ""), mk("POST /y", "", 1024, 0, ""), mk("POST /y", "", 2100, 0, ""), mk("POST /y", "", 5000, 0, ""),
        mk("GET /long", "Cookie: " + string(990, 'c') + "\r\n", 0, -1, ""), mk("POST /long", "Cookie: " + string(1500, 'c') + "\r\n", 600, 0, ""), mk("GET /long", "Cookie: " + string(2000, 'c') + "\r\n", 0, -1, "")};
    for (size_t head : {1018, 1020, 1021, 1022, 1023, 1024, 1025, 1026}) for (size_t b : {0, 1, 3, 1024}) {
        Req q = mk("POST /e", "", b, 0, ""); if (head < q.head + 7) continue;
        r.push_back(mk("POST /e", "C: " + string(head - q.head - 5, 'c') + "\r\n", b, 0, ""));
    }
    return r;
}
static vector<size_t> places(const Req &r, bool all) {
    vector<size_t> p; size_t n = r.text.size();
    for (size_t i = 1; i < n; ++i) {
        bool near = i <= 2 || i + 2 >= n || (i + 5 >= r.head && i <= r.head + 2);
        for (size_t k = 1024; k < n + 3; k += 1024) near |= i + 2 >= k && i <= k + 2;
        size_t f = r.text.find("ength"); if (f != string::npos && f < r.head) near |= i + 1 >= f && i <= f + 12;
        if (near || (all && n < 200) || i % 211 == 0) p.push_back(i);
    }
    return p;
}
// every cut of a request in two and three pieces, then a second request on the same connection
static void cuts() {
    Req last = mk("GET /next", "", 0, -1, "");
    for (auto &r : requests()) {
        auto p = places(r, true), q = places(r, vh::thorough);
        for (size_t a : p) {
            scen(0, show(r) + vh::fmt(" cut at %zu and once more", a), [&] {
                World w(1); map<string, int> want;
                auto one = [&](const vector<size_t> &c) { int k = net::dial(); put(k, r.text, c); want[r.text]++; expect(k, r.text); put(k, last.text, {c[0]}); want[last.text]++; expect(k, last.text); net::eof(k); net::awaitClose(k); };
                one({a}); for (size_t b : q) if (b > a) one({a, b});
                w.done(want);
            });
        }
        vector<size_t> every; for (size_t i = 1; i < r.text.size(); ++i) every.push_back(i);
        for (int k : {1, 2, 3}) for (size_t a : p) if (k == 1 || a % 3 == 0) scen(0, show(r) + vh::fmt(" cut at %zu, every read number %d interrupted", a, k), [&] {
            World w(1); net::interrupt(k); int c = net::dial(); put(c, r.text, {a, a + 3}); expect(c, r.text); put(c, last.text, {a % 20}); expect(c, last.text); net::eof(c); net::awaitClose(c);
            w.done({{r.text, 1}, {last.text, 1}});
        });
        scen(0, show(r) + " byte by byte", [&] { World w(1); int k = net::dial(); put(k, r.text, every); expect(k, r.text); net::eof(k); net::awaitClose(k); w.done({{r.text, 1}}); });
    }
}
// every sequence of requests and departures of three clients and of pauses: nobody who was idle for less than the life of
// a connection is cut off, and those who were idle for much longer are
static void timelines() {
    const long life = 1500; int L = vh::thorough ? 7 : 6;
    function<void(string)> go = [&](string h) {
        if ((int) h.size() >= 4) scen(0, "clients request (letters), leave (digits), 1 s passes (.): " + h, [&] {
            World w(1, life); map<string, int> want; int c[3] = {-1, -1, -1}; long t[3] = {0, 0, 0}; int n = 0;
            for (char x : h) {
                for (int k = 0; k < 3; ++k) if (c[k] >= 0 && net::closedByServer(c[k])) {
                    if (net::virtualMs() - t[k] < life) sched::fail(vh::fmt("client %d is cut off after %ld ms", k, net::virtualMs() - t[k]));
                    c[k] = -1;
                } else if (c[k] >= 0 && net::virtualMs() - t[k] > life + 3000) sched::fail(vh::fmt("client %d is idle for %ld ms", k, net::virtualMs() - t[k]));
                if (x == '.') { net::await(net::virtualMs() + 1000); continue; }
                if (isdigit(x)) { int k = x - '0'; if (c[k] >= 0) { net::eof(c[k]); net::awaitClose(c[k]); c[k] = -1; } continue; }
                int k = x - 'a'; if (c[k] < 0) c[k] = net::dial();
                Req r = mk(vh::fmt("GET /%d", n++), "", 0, -1, ""); want[r.text]++;
                net::put(c[k], r.text); expect(c[k], r.text); t[k] = net::virtualMs();
            }
            for (int k = 0; k < 3; ++k) if (c[k] >= 0) { net::eof(c[k]); net::awaitClose(c[k]); }
            if (net::openFds()) sched::fail("a connection is left open");
            w.done(want);
        });
        if ((int) h.size() == L) return;
        for (char x : string("abc012.")) {
            if (x != '.') { // clients appear in order, leave after they came
                char l = isdigit(x) ? x - '0' + 'a' : x; if (isdigit(x) && h.find(l) == string::npos) continue;
                if (l > 'a' && h.find(l - 1) == string::npos) continue;
                if (isdigit(x) && h.back() == x) continue;
            } else if (h.empty()) continue;
            go(h + x);
        }
    };
    go("");
}
// the client leaves, or stops sending, after any number of bytes; other clients are still served
static void leaves() {
    Req other = mk("GET /other", "", 0, -1, "");
    for (auto &r : requests()) for (int stall = 0; stall < 2; ++stall) {
        auto p = places(r, true); p.insert(p.begin(), 0);
        for (size_t a : p) scen(0, show(r) + vh::fmt(", the client %s after %zu bytes", stall ? "stalls" : "leaves", a), [&] {
            World w(1); int k = net::dial(); put(k, r.text.substr(0, a), {a / 2});
            int o = net::dial();
            if (!stall) net::eof(k);
            net::put(o, other.text); expect(o, other.text); net::put(o, other.text); expect(o, other.text);
            net::awaitClose(k);
            net::eof(o); net::awaitClose(o);
            if (net::openFds()) sched::fail("a connection is left open");
            w.done({{other.text, 2}});
        });
    }
    // leaves before its response has been sent
    for (size_t cap : {0, 1, 100, 1000}) for (int rs = 0; rs < 20; ++rs) {
        Req r = mk("GET /r" + to_string(rs), "", 0, -1, "");
        scen(0, show(r) + vh::fmt(", the client leaves before the response, %zu bytes per send", cap), [&] {
            World w(1); net::sendCap(cap); int k = net::dial(); w.onHandle = [&] { if (w.handled.count(r.text)) net::eof(k); };
            net::put(k, r.text); net::awaitClose(k); w.onHandle = nullptr;
            int o = net::dial(); net::put(o, other.text); expect(o, other.text); net::eof(o); net::awaitClose(o);
            w.done({{r.text, 1}, {other.text, 1}});
        });
        scen(0, show(r) + vh::fmt(", %zu bytes per send", cap), [&] { World w(1); net::sendCap(cap); int k = net::dial(); net::put(k, r.text); expect(k, r.text); net::eof(k); net::awaitClose(k); w.done({{r.text, 1}}); });
    }
    for (size_t n : {1023, 1024, 4096, 65400, 65499, 65500, 65535, 65536, 65537, 131072, 300000}) for (size_t cap : {0, 1000, 4096, 65535, 65536, 65537}) {
        Req r = mk("GET /big" + to_string(n), "", 0, -1, "");
        scen(0, show(r) + vh::fmt(", %zu bytes per send", cap), [&] { World w(1); net::sendCap(cap); int k = net::dial(); for (int i = 0; i < 2; ++i) { net::put(k, r.text); expect(k, r.text); } net::eof(k); net::awaitClose(k); w.done({{r.text, 2}}); });
    }
    timelines();
    // idle connections
    for (uint64_t life : {500, 1000, 2500, 7000}) scen(0, vh::fmt("idle connections live %lu ms", (long) life), [&] {
        World w(1, life); int k = net::dial(), o = net::dial(); net::put(k, other.text); expect(k, other.text);
        net::awaitClose(k); if (net::virtualMs() < (long) life || net::virtualMs() > (long) (2 * life + 4000)) sched::fail(vh::fmt("closed after %ld ms", net::virtualMs()));
        net::awaitClose(o); w.done({{other.text, 1}});
    });
}
// clients and workers at the same time
static void schedules() {
    for (int workers = 1; workers <= 3; ++workers) for (int clients = 1; clients <= 3; ++clients) for (int n = 1; n <= 2; ++n) for (int cut = 0; cut < 2; ++cut) for (int threads = 0; threads < 2; ++threads) for (int bye = 0; bye < 2; ++bye) {
        if (clients == 1 && threads) continue;
        int b = vh::thorough ? 2 : 1; if (workers + clients >= 5) b = 1;
        scen(b, vh::fmt("%d workers, %d clients%s, %d requests%s%s", workers, clients, threads ? " in threads" : "", n, cut ? " in two pieces" : "", bye ? ", new connection each" : ""), [=] {
            World w(workers); map<string, int> want; vector<thread> ts; vector<vector<Req>> rq(clients);
            for (int c = 0; c < clients; ++c) for (int i = 0; i < n; ++i) { rq[c].push_back(mk(vh::fmt("POST /%d/%d", c, i), "", 3 + c, 0, "")); want[rq[c][i].text]++; }
            auto client = [&](int c) {
                int k = net::dial();
                for (auto &r : rq[c]) {
                    if (cut) { net::put(k, r.text.substr(0, 20 + c)); net::put(k, r.text.substr(20 + c)); } else net::put(k, r.text);
                    expect(k, r.text);
                    if (bye && &r != &rq[c].back()) { net::eof(k); k = net::dial(); }
                }
                net::eof(k); net::awaitClose(k);
            };
            if (threads) { for (int c = 0; c < clients; ++c) ts.emplace_back(client, c); for (auto &t : ts) t.join(); }
            else {
                vector<int> k(clients); for (int c = 0; c < clients; ++c) k[c] = net::dial();
                for (int i = 0; i < n; ++i) {
                    for (int c = 0; c < clients; ++c) { auto &r = rq[c][i]; if (cut) net::put(k[c], r.text.substr(0, 20 + c)); else net::put(k[c], r.text); }
                    if (cut) for (int c = clients - 1; c >= 0; --c) net::put(k[c], rq[c][i].text.substr(20 + c));
                    for (int c = 0; c < clients; ++c) { expect(k[c], rq[c][i].text); if (bye && i + 1 < n) { net::eof(k[c]); k[c] = net::dial(); } }
                }
                for (int c = 0; c < clients; ++c) net::eof(k[c]);
                for (int c = 0; c < clients; ++c) net::awaitClose(k[c]);
            }
            w.done(want);
        });
    }
}
#include "httpclient.inc"
void explore() {
    Logger::setMinLevel(100);
    string m = vh::arg("mode", "cuts");
    if (m == "cuts") cuts(); else if (m == "leaves") leaves(); else if (m == "sched") schedules(); else client(m);
}
