// ---- the client
struct Resp { string head, body; vector<string> raw; bool close; string d; }; // raw: what follows the header, in units of the format
static void ask(const string &head, const string &tail, const string &body, bool close, const vector<size_t> &cuts, int how, size_t cap) {
    string all = head + "\r\n\r\n" + tail; vector<string> segs; size_t p = 0;
    for (size_t k : cuts) if (k > p && k < all.size()) { segs.push_back(all.substr(p, k - p)); p = k; }
    segs.push_back(all.substr(p));
    net::reset(); net::sendCap(cap);
    HttpClient c("host", 81); if (!c.connect()) vh::fail("cannot connect");
    for (int round = 0; round < (close ? 1 : 2); ++round) { // the connection is used twice
        net::answer(segs, close);
        string h = "old", r = "old", before = net::sent(), want; bool ok;
        if (how == 0) { ok = c.get("/p?q=1", h, r); want = "GET /p?q=1 HTTP/1.1\r\nHost: host:81\r\n\r\n"; }
        else if (how == 1) { string f = "a/b"; ok = c.get("/p", h, r, f); want = "GET /p HTTP/1.1\r\nHost: host:81\r\nAccept: a/b\r\n\r\n"; }
        else if (how == 2) { string b = "x\r\ny"; ok = c.post("/p", b, h, r, "t/u"); want = "POST /p HTTP/1.1\r\nHost: host:81\r\nContent-Type: t/u\r\nContent-Length: 4\r\n\r\nx\r\ny"; }
        else { map<string, string> m = {{"a", "1"}, {"b", "22"}}; ok = c.post("/p", m, h, r); want = "POST /p HTTP/1.1\r\nHost: host:81\r\nContent-Type: application/x-www-form-urlencoded\r\nContent-Length: 8\r\n\r\na=1&b=22"; }
        if (net::sent() != before + want) vh::fail("the client sent " + quote(net::sent().substr(before.size())));
        if (!ok) vh::fail("the client reports an error");
        if (h != head) vh::fail("header " + quote(h));
        if (r != body) vh::fail(vh::fmt("a body of %zu bytes instead of %zu: ", r.size(), body.size()) + quote(r.substr(0, 100)));
    }
    c.disconnect(); if (net::openFds()) vh::fail("the connection is left open");
    vh::add("states"); vh::add("transitions", segs.size()); vh::add("traces");
}
static void responses() {
    string big(3000, 'x'); for (size_t i = 0; i < big.size(); ++i) big[i] = 'a' + i % 26;
    struct F { string head, tail, body; bool close; };
    vector<F> fs;
    string ok = "HTTP/1.1 200 OK";
    auto bodies = vector<string>{"", "a", "\r\n", "hello\r\n\r\n0\r\n\r\nbye", string("a\0b\0\0\xff", 6), big.substr(0, 1000), big};
    for (auto &b : bodies) {
        for (string f : {"Content-Length: ", "content-length:", "Content-Type: x\r\nCONTENT-LENGTH:  "}) fs.push_back({ok + "\r\n" + f + to_string(b.size()) + (f[0] == 'c' ? "\r\nX-Content-Length: 3" : ""), b, b, false});
        fs.push_back({ok, b, b, true});
        fs.push_back({ok + "\r\nServer: s", b, b, true});
        for (size_t k : {1, 2, 3, 1000, 5000}) for (int form = 0; form < 3; ++form) if (k >= b.size() / 30) {
            string t; for (size_t p = 0; p < b.size(); p += k) { string s = b.substr(p, k); t += vh::fmt(form == 1 ? "%zX" : form == 2 ? "%zx;ext=1" : "%zx", s.size()) + "\r\n" + s + "\r\n"; }
            t += form == 1 ? "0\r\nTrailer: 1\r\n\r\n" : "0\r\n\r\n";
            if (form == 0 && k == 1000) fs.push_back({ok + "\r\nContent-Length: 3\r\nTransfer-Encoding: chunked", t, b, false}); // the length does not count
            fs.push_back({ok + (form ? "\r\nTransfer-Encoding: chunked\r\nA: b" : "\r\nA: b\r\ntransfer-encoding: chunked"), t, b, false});
        }
    }
    for (size_t pad : {990, 994, 995, 996, 997, 998, 999, 1000, 2020}) for (auto &b : {string("abc"), big.substr(0, 1030)}) { fs.push_back({ok + "\r\nPad: " + string(pad, 'p') + "\r\nContent-Length: " + to_string(b.size()), b, b, false}); fs.push_back({ok + "\r\nPad: " + string(pad, 'p') + "\r\nTransfer-Encoding: chunked", vh::fmt("%zx\r\n", b.size()) + b + "\r\n0\r\n\r\n", b, false}); }
    int n = 0;
    for (auto &f : fs) {
        size_t len = f.head.size() + 4 + f.tail.size();
        vector<size_t> pl;
        for (size_t i = 1; i < len; ++i) { bool near = len < 160 || i <= 20 || i + 12 >= len || (i + 4 >= f.head.size() && i <= f.head.size() + 14) || i % 331 == 0; for (size_t k = 1024; k < len + 3; k += 1024) near |= i + 3 >= k && i <= k + 3; if (near) pl.push_back(i); }
        int how = n++ % 4;
        for (size_t a : pl) vh::runCase([&] { return quote(f.head.substr(0, 60)) + vh::fmt(" and %zu bytes%s, cut at %zu and once more", f.tail.size(), f.close ? " until closed" : "", a); }, [&] {
            ask(f.head, f.tail, f.body, f.close, {a}, how, 0);
            for (size_t b : pl) if (b > a && (vh::thorough || len < 100 || (a + b) % 5 == 0)) ask(f.head, f.tail, f.body, f.close, {a, b}, how, 0);
            vh::outcome(vh::hashs(f.head + f.tail));
        });
        vh::runCase([&] { return quote(f.head.substr(0, 60)) + vh::fmt(" and %zu bytes, byte by byte, short sends, truncated", f.tail.size()); }, [&] {
            vector<size_t> every; for (size_t i = 1; i < len; ++i) every.push_back(i);
            for (size_t cap : {1, 2, 10, 50}) for (int h = 0; h < 4; ++h) { ask(f.head, f.tail, f.body, f.close, every, h, cap); ask(f.head, f.tail, f.body, f.close, {}, h, cap); }
            // a response that ends too early is not taken for a whole one
            string all = f.head + "\r\n\r\n" + f.tail;
            for (size_t k : pl) { if (f.close && k >= f.head.size() + 4) continue; net::reset(); HttpClient c("host", 81); c.connect(); net::answer({all.substr(0, k)}, true); string h, r; if (c.get("/", h, r)) vh::fail(vh::fmt("only %zu of %zu bytes arrived, and the client reports success", k, all.size())); vh::add("traces"); }
            vh::outcome(vh::hashs(f.head + f.tail) + 1);
        });
    }
    for (string code : {"404 Not Found", "500 X", "301 Moved"}) vh::runCase([&] { return "status " + code; }, [&] { net::reset(); HttpClient c("host", 81); c.connect(); net::answer({"HTTP/1.1 " + code + "\r\nContent-Length: 2\r\n\r\nab"}, false); string h, r; if (c.get("/", h, r)) vh::fail("the client reports success"); vh::outcome(vh::hashs(code)); });
}
static string ref(const string &s) {
    static const char *hex = "0123456789ABCDEF"; string r;
    for (unsigned char c : s) if ((c >= '0' && c <= '9') || (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || c == '-' || c == '_' || c == '.' || c == '~') r += c; else { r += '%'; r += hex[c >> 4]; r += hex[c & 15]; }
    return r;
}
static void urls() {
    for (int a = 1; a < 256; ++a) vh::runCase([&] { return vh::fmt("escape and unescape of every text of up to three bytes that starts with %d", a); }, [&] {
        auto one = [](const string &s) {
            string e = HttpClient::escape(s); if (e != ref(s)) vh::fail("escape(" + quote(s) + ") = " + quote(e));
            if (HttpClient::unescape(e) != s) vh::fail("unescape(" + quote(e) + ") = " + quote(HttpClient::unescape(e)));
            string lower = e; for (size_t i = 0; i < lower.size(); ++i) if (lower[i] == '%') { lower[i + 1] = tolower(lower[i + 1]); lower[i + 2] = tolower(lower[i + 2]); }
            if (HttpClient::unescape(lower) != s) vh::fail("unescape(" + quote(lower) + ") = " + quote(HttpClient::unescape(lower)));
            vh::add("states"); vh::add("traces");
        };
        one(string(1, a));
        for (int b = 1; b < 256; ++b) { string s = {(char) a, (char) b}; one(s); for (int c : {(int) '%', (int) '+', (int) ' ', (int) '0', (int) 'a', (int) 'G', 200}) { one(s + (char) c); } }
    });
    // every text over the characters that matter, unescaped by the rules of forms
    string al = "%+4aFg2 "; int L = vh::thorough ? 7 : 6;
    for (char first : al) vh::runCase([&] { return string("unescape of every text over '") + al + "' that starts with " + first; }, [&] {
        vector<string> todo = {string(1, first)};
        while (!todo.empty()) {
            string s = todo.back(), w; todo.pop_back(); vh::add("states");
            for (size_t i = 0; i < s.size(); ++i) { auto v = [](char c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1; }; if (s[i] == '%' && i + 2 < s.size() && v(s[i + 1]) >= 0 && v(s[i + 2]) >= 0) { w += (char) (v(s[i + 1]) * 16 + v(s[i + 2])); i += 2; } else w += s[i] == '+' ? ' ' : s[i]; }
            if (HttpClient::unescape(s) != w) vh::fail("unescape(" + quote(s) + ") = " + quote(HttpClient::unescape(s)) + ", not " + quote(w));
            if ((int) s.size() < L) for (char c : al) todo.push_back(s + c);
        }
        vh::outcome(first);
    });
    for (string pr : {"http", "HTTPS"}) for (string ho : {"h", "Www.Example.org", "10.0.0.1"}) for (int port : {-1, 0, 80, 8080, 65535}) for (string pa : {"", "/", "/a/b", "/a:b", "/A//c.html"}) for (string q : {"-", "", "x=1", "u=http://a:9/b?c", "a?b"})
        vh::runCase([&] { return pr + "://" + ho + (port >= 0 ? ":" + (port ? to_string(port) : "") : "") + pa + (q == "-" ? "" : "?" + q); }, [&] {
            string s = pr + "://" + ho + (port >= 0 ? ":" + (port ? to_string(port) : "") : "") + pa + (q == "-" ? "" : "?" + q);
            auto u = HttpClient::parse(s); auto low = [](string x) { for (auto &c : x) c = tolower(c); return x; };
            if (u.protocol != low(pr)) vh::fail("protocol " + u.protocol);
            if (u.host != low(ho)) vh::fail("host " + u.host);
            if (u.port != (port <= 0 ? 80 : port)) vh::fail(vh::fmt("port %d", u.port));
            if (u.path != pa) vh::fail("path " + u.path);
            if (u.query != (q == "-" ? "" : q)) vh::fail("query " + u.query);
            vh::add("states"); vh::outcome(vh::hashs(s));
        });
}
static void client(const string &m) {
    if (m == "client") responses(); else if (m == "url") urls(); else vh::fail("no such mode");
}
