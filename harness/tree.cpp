// B+-trees of the dictionary and of the index: every short history of insertions interleaved with
// lookups, then reopened read-only, compared with a map.
#include "vh.h"
#include <trident/tree/root.h>
#include <trident/tree/stringbuffer.h>
#include <trident/tree/coordinates.h>
#include <trident/kb/statistics.h>
#include <kognac/logs.h>
#include <memory>
#include <cmath>
using namespace std;
enum Kind { TEXT, NUM, COORD };
static const char *KN[] = {"term->number", "number->number", "number->coordinates"};
struct Conf { int el, nodes, fileMax, minBytes; bool compressed; };
struct Tree {
    Kind kind; string dir; Conf c; Stats st; unique_ptr<StringBuffer> sb; unique_ptr<Root> root;
    map<string, int64_t> text; map<int64_t, int64_t> num;
    Tree(Kind k, const string &d, Conf c) : kind(k), dir(d), c(c) { open(false); }
    void open(bool ro) {
        PropertyMap m;
        m.setBool(TEXT_KEYS, kind == TEXT); m.setBool(TEXT_VALUES, kind == NUM); m.setBool(COMPRESSED_NODES, c.compressed);
        m.setInt(MAX_EL_PER_NODE, c.el); m.setInt(MAX_NODES_IN_CACHE, c.nodes); m.setInt(FILE_MAX_SIZE, c.fileMax); m.setInt(NODE_MIN_BYTES, c.minBytes);
        m.setLong(CACHE_MAX_SIZE, 1 << 20); m.setInt(MAX_N_OPENED_FILES, 4); m.setInt(LEAF_SIZE_FACTORY, 2); m.setInt(LEAF_SIZE_PREALL_FACTORY, 2);
        if (kind == TEXT) sb.reset(new StringBuffer(dir, ro, 10, 0, &st));
        root.reset(new Root(dir, sb.get(), ro, m));
    }
    void reopen() { root.reset(); sb.reset(); open(true); }
    static void coord(int64_t v, TermCoordinates &t) { // a few permutations, derived from v
        t.clear();
        for (int p = 0; p < 6; ++p) if ((v >> p) & 1 || p == v % 6) t.set(p, (short) ((v + p) % 3000), (v * 977 + p) % 5000000000L, v * 31 + p + 1, (char) (v * 7 + p));
    }
    void insertText(const string &k, int64_t v, int op) { // 0 insertIfNotExists, 1 put, 2 append
        vector<char> b(k.begin(), k.end()); b.push_back(0);
        nTerm x = v;
        if (op == 0) {
            bool fresh = root->insertIfNotExists((tTerm *) b.data(), k.size(), x);
            if (fresh != !text.count(k)) vh::fail("insertIfNotExists(" + k + ") returned " + (fresh ? "true" : "false"));
            if (!fresh && (int64_t) x != text[k]) vh::fail("insertIfNotExists(" + k + ") reported another number");
            text.insert({k, v});
        } else { if (op == 1) root->put((tTerm *) b.data(), k.size(), v); else root->append((tTerm *) b.data(), k.size(), x); text[k] = v; }
    }
    void insertNum(int64_t k, int64_t v, int op) {
        if (kind == NUM) { if (op == 2) root->append((nTerm) k, v); else root->put((nTerm) k, v); }
        else { TermCoordinates t; coord(v, t); if (op == 2) root->append((nTerm) k, &t); else root->put((nTerm) k, &t); }
        num[k] = v;
    }
    void getText(const string &k, const char *when) {
        vector<char> b(k.begin(), k.end()); b.push_back(0);
        nTerm v = 0; bool r = root->get((tTerm *) b.data(), k.size(), &v);
        auto i = text.find(k);
        vh::add("transitions");
        if (r != (i != text.end())) vh::fail(vh::fmt("%s: '%.40s' (%zu bytes) is %sfound", when, k.c_str(), k.size(), r ? "" : "not "));
        if (r && (int64_t) v != i->second) vh::fail(vh::fmt("%s: '%.40s' has number %ld instead of %ld", when, k.c_str(), (long) v, (long) i->second));
    }
    void same(TermCoordinates &t, int64_t k, int64_t v, const char *when) {
        TermCoordinates e; coord(v, e);
        for (int p = 0; p < 6; ++p) {
            if (t.exists(p) != e.exists(p)) vh::fail(vh::fmt("%s: key %ld: permutation %d", when, (long) k, p));
            if (e.exists(p) && (t.getFileIdx(p) != e.getFileIdx(p) || t.getMark(p) != e.getMark(p) || t.getNElements(p) != e.getNElements(p) || t.getStrategy(p) != e.getStrategy(p))) vh::fail(vh::fmt("%s: key %ld: coordinates of permutation %d", when, (long) k, p));
        }
    }
    void getNum(int64_t k, const char *when) {
        auto i = num.find(k); bool r; int64_t v = 0; TermCoordinates t; t.clear();
        if (kind == NUM) r = root->get((nTerm) k, v); else r = root->get((nTerm) k, &t);
        vh::add("transitions");
        if (r != (i != num.end())) vh::fail(vh::fmt("%s: key %ld is %sfound", when, (long) k, r ? "" : "not "));
        if (!r) return;
        if (kind == NUM && v != i->second) vh::fail(vh::fmt("%s: key %ld has value %ld instead of %ld", when, (long) k, (long) v, (long) i->second));
        if (kind == COORD) same(t, k, i->second, when);
    }
    void iterate(const char *when) {
        if (kind == TEXT) {
            unique_ptr<TreeItr> it(root->itr());
            for (auto &e : text) {
                if (!it->hasNext()) vh::fail(string(when) + ": iteration stops before '" + e.first.substr(0, 40) + "'");
                int64_t v; int64_t pos = it->next(v); int n; char *s = sb->get(pos, n);
                if (string(s, n) != e.first || v != e.second) vh::fail(vh::fmt("%s: iteration reports '%.40s' -> %ld instead of '%.40s' -> %ld", when, s, (long) v, e.first.c_str(), (long) e.second));
            }
            if (it->hasNext()) vh::fail(string(when) + ": iteration does not stop");
        } else {
            unique_ptr<TreeItr> it(root->itr());
            for (auto &e : num) {
                if (!it->hasNext()) vh::fail(vh::fmt("%s: iteration stops before %ld", when, (long) e.first));
                int64_t k, v;
                if (kind == NUM) { k = it->next(v); if (v != e.second) vh::fail(vh::fmt("%s: iteration reports value %ld for %ld", when, (long) v, (long) k)); }
                else { TermCoordinates t; t.clear(); k = it->next(&t); same(t, e.first, e.second, when); }
                if (k != e.first) vh::fail(vh::fmt("%s: iteration reports %ld instead of %ld", when, (long) k, (long) e.first));
            }
            if (it->hasNext()) vh::fail(string(when) + ": iteration does not stop");
        }
    }
    void checkAll(const char *when, const set<int64_t> &nk, const set<string> &tk) {
        if (kind == TEXT) for (auto &k : tk) getText(k, when); else for (auto &k : nk) getNum(k, when);
    }
};
static string term(int64_t k, int style) {
    if (style == 4) return k < 26 ? string(1, char('a' + k)) : "dd"; // the shortest terms
    string d = vh::fmt("%012ld", (long) k);
    if (style == 0) return d;
    if (style == 1) return "<http://example.org/resource/" + d + ">";         // common prefixes
    if (style == 2) return string(1, char('a' + k % 26)) + d + string(k % 7, '.'); // order unrelated to k
    return d + string(style, 'w');                                            // long, equal sizes
}
// run one history; ops: keys in order of insertion
static void history(Kind kind, Conf c, const vector<int64_t> &keys, int op, int style, bool interleave) {
    Tree t(kind, vh::newDir(), c);
    set<int64_t> nk; set<string> tk;
    for (auto k : keys) {
        for (int64_t d : {-1, 0, 1}) if (k + d >= 0) nk.insert(k + d);
        string s = term(k, style); tk.insert(s); tk.insert(s + "!"); tk.insert(s.substr(0, s.size() - 1)); s.back()++; tk.insert(s);
    }
    nk.insert(0); nk.insert(1L << 41); tk.insert(""); tk.insert("\xff\xff");
    int64_t v = 5;
    for (auto k : keys) {
        if (kind == TEXT) t.insertText(term(k, style), v, op); else t.insertNum(k, v, op);
        v += 3; vh::add("transitions");
        if (interleave) t.checkAll("while writing", nk, tk);
    }
    t.checkAll("before closing", nk, tk);
    t.reopen();
    t.iterate("reopened");
    t.checkAll("reopened", nk, tk);
    t.iterate("reopened, again");
    vh::add("states"); vh::add("traces");
    vh::outcome(vh::mix(vh::mix(kind, op * 2 + style), vh::hashs(vh::str(keys)) % 4096));
}
static string dsc(Kind k, Conf c, int op, int style) { return vh::fmt("%s tree, %d per node, %d nodes in cache%s, %s, style %d: ", KN[k], c.el, c.nodes, c.compressed ? ", compressed" : "", op == 0 ? "insertIfNotExists" : op == 1 ? "put" : "append", style); }
void explore() {
    Logger::setMinLevel(100);
    string mode = vh::arg("mode", "perm");
    vector<Conf> confs = {{4, 4, 1 << 20, 0, false}, {4, 100, 300, 64, false}, {6, 5, 1 << 20, 1000, false}};
    vector<pair<Kind, int>> ops = {{TEXT, 0}, {TEXT, 1}, {NUM, 1}, {COORD, 1}};
    if (mode == "perm") { // all orders of n keys
        int n = atoi(vh::arg("n", "6").c_str()) + (vh::thorough ? 1 : 0);
        vector<vector<int64_t>> sets = {{}, {}, {}, {}, {}};
        for (int i = 0; i < n; ++i) { sets[0].push_back(10 + i); sets[1].push_back(10 + 2 * i); sets[2].push_back(200L * i); sets[3].push_back(i < n / 2 ? i : (1L << 38) + 1000 * i); sets[4].push_back(7 + i * i); }
        for (auto &c : confs) for (auto &o : ops) for (size_t s = 0; s < sets.size(); ++s) for (int style = 0; style < (o.first == TEXT ? 3 : 1); ++style) {
            if (o.first == TEXT && s != 0 && s != 4) continue;
            vector<int> p; for (int i = 0; i < n; ++i) p.push_back(i);
            vector<vector<int64_t>> pack;
            auto flush = [&]() {
                vector<vector<int64_t>> q; q.swap(pack);
                if (q.empty()) return;
                vh::runCase([&] { return dsc(o.first, c, o.second, style) + vh::fmt("%zu orders from ", q.size()) + vh::str(q[0]); }, [&] { for (auto &k : q) try { history(o.first, c, k, o.second, style, c.nodes < 100); } catch (vh::Fail &f) { vh::fail(vh::str(k) + ": " + f.msg); } });
                vh::wipeAll();
            };
            do {
                vector<int64_t> k; for (int i : p) k.push_back(sets[s][i]);
                pack.push_back(k);
                if (pack.size() == 24) flush();
            } while (next_permutation(p.begin(), p.end()));
            flush();
        }
    } else if (mode == "grow") { // taller trees: every key goes before, in the middle of or after the present keys
        int n = atoi(vh::arg("n", "7").c_str()) + (vh::thorough ? 2 : 0), start = atoi(vh::arg("start", "12").c_str());
        long total = 1; for (int i = 0; i < n; ++i) total *= 3;
        for (auto &c : confs) for (auto &o : ops) for (int dir = 0; dir < 2; ++dir) for (long b = 0; b < total; b += 27) {
            vh::runCase([&] { return dsc(o.first, c, o.second, 1) + vh::fmt("%d keys %s, then positions %ld..", start, dir ? "descending" : "ascending", b); }, [&] {
                for (long x0 = b; x0 < b + 27; ++x0) {
                    vector<int64_t> keys; set<int64_t> have;
                    for (int i = 0; i < start; ++i) { int64_t k = (dir ? start - i : i + 1) * (1L << 20); keys.push_back(k); have.insert(k); }
                    long x = x0;
                    for (int i = 0; i < n; ++i) {
                        int64_t k; vector<int64_t> h(have.begin(), have.end());
                        if (x % 3 == 0) k = h[0] / 2; else if (x % 3 == 2) k = h.back() + 1000; else k = (h[h.size() / 2 - 1] + h[h.size() / 2]) / 2;
                        x /= 3;
                        if (!have.insert(k).second) continue;
                        keys.push_back(k);
                    }
                    try { history(o.first, c, keys, o.second, 1, false); } catch (vh::Fail &f) { vh::fail(vh::fmt("sequence %ld: ", x0) + f.msg); }
                }
            });
            vh::wipeAll();
        }
    } else if (mode == "inner") { // splits of inner nodes: a run of keys in each gap of trees that are about to get higher, with leaves that are no longer in memory
        for (Conf c : {Conf{4, 5, 1 << 20, 1000, false}, Conf{6, 7, 1 << 20, 1000, false}, Conf{8, 3, 1 << 20, 64, false}}) for (auto &o : ops) for (int fill = 0; fill < 3; ++fill)
            for (int n = c.el * c.el / 2; n <= c.el * c.el + c.el; n += vh::thorough ? 1 : c.el - 1) {
            if (o.second == 0) continue;
            vh::runCase([&] { return dsc(o.first, c, o.second, 0) + vh::fmt("%d keys in order %d, then a run in any gap", n, fill); }, [&] {
                vector<int64_t> first;
                for (int i = 0; i < n; ++i) {
                    int j = fill == 0 ? i : fill == 1 ? n - 1 - i : (2 * i) % n + (n % 2 == 0 && 2 * i >= n);
                    first.push_back((j + 1) * 1000L);
                }
                for (int gap = 0; gap <= n; ++gap) for (int dir = 0; dir < 2; ++dir) {
                    if (dir && !vh::thorough && gap % 2) continue;
                    vector<int64_t> keys = first;
                    for (int i = 0; i < c.el + 2; ++i) keys.push_back(gap * 1000L + 1 + (dir ? c.el + 1 - i : i));
                    try { history(o.first, c, keys, o.second, 0, false); } catch (vh::Fail &f) { vh::fail(vh::fmt("gap %d direction %d: ", gap, dir) + f.msg); }
                }
            });
            vh::wipeAll();
        }
    } else if (mode == "steps") { // ascending runs with every step, all subsets of a run
        for (auto &c : confs) for (auto o : vector<pair<Kind, int>>{{NUM, 1}, {NUM, 2}, {COORD, 1}, {COORD, 2}}) for (int64_t step : {1, 2, 3, 5, 126, 127, 128, 129, 200, 254, 255, 256, 257, 300, 70000}) for (int64_t base : {0L, 9L, 1L << 39}) {
            vh::runCase([&] { return dsc(o.first, c, o.second, 0) + vh::fmt("runs of step %ld from %ld", (long) step, (long) base); }, [&] {
                for (int n = 1; n <= 14; ++n) {
                    vector<int64_t> k; for (int i = 0; i < n; ++i) k.push_back(base + i * step);
                    try { history(o.first, c, k, o.second, 0, false); } catch (vh::Fail &f) { vh::fail(vh::str(k) + ": " + f.msg); }
                }
                for (int m = 1; m < 64; ++m) {
                    vector<int64_t> k; for (int i = 0; i < 6; ++i) if (m >> i & 1) k.push_back(base + i * step);
                    try { history(o.first, c, k, o.second, 0, false); } catch (vh::Fail &f) { vh::fail(vh::str(k) + ": " + f.msg); }
                }
            });
            vh::wipeAll();
        }
    } else if (mode == "sizes") { // terms of equal sizes, so that the positions in the string buffer form a run
        for (auto &c : confs) for (int op = 0; op < 3; ++op) for (int pad = 3; pad <= 300; pad += vh::thorough ? 1 : pad < 105 ? 10 : pad < 125 ? 1 : pad < 235 ? 10 : pad < 250 ? 1 : 9) for (int n : {1, 2, 3, 9}) {
            vh::runCase([&] { return dsc(TEXT, c, op, 3) + vh::fmt("%d terms of %d bytes", n, pad + 12); }, [&] {
                vector<int64_t> k; for (int i = 0; i < n; ++i) k.push_back(100000000L * i + 7);
                history(TEXT, c, k, op, pad, false);
            });
            vh::wipeAll();
        }
    } else if (mode == "dense") { // all orders of eight one-letter terms in a node of eight, then a ninth
        vector<int> p = {0, 1, 2, 3, 4, 5, 6, 7};
        vector<vector<int64_t>> pack; Conf c = {8, 100, 1 << 20, 0, false};
        do {
            vector<int64_t> k(p.begin(), p.end()); k.push_back(30);
            pack.push_back(k);
            if (pack.size() < 48) continue;
            vector<vector<int64_t>> q; q.swap(pack);
            vh::runCase([&] { return dsc(TEXT, c, 0, 4) + vh::fmt("%zu orders from ", q.size()) + vh::str(q[0]); }, [&] { for (auto &k : q) try { history(TEXT, c, k, 0, 4, false); } catch (vh::Fail &f) { vh::fail(vh::str(k) + ": " + f.msg); } });
            vh::wipeAll();
        } while (next_permutation(p.begin(), p.end()));
    } else if (mode == "again") { // keys inserted twice or updated
        for (auto &c : confs) for (auto &o : ops) for (int n = 3; n <= 9; n += 3) for (int i = 0; i < n; ++i) for (int j = 0; j <= n; ++j) {
            vh::runCase([&] { return dsc(o.first, c, o.second, 0) + vh::fmt("%d keys, key %d again after %d", n, i, j); }, [&] {
                vector<int64_t> k;
                for (int x = 0; x < n; ++x) { if (x == j) k.push_back(10 + 3 * i); k.push_back(10 + 3 * x); }
                if (j == n) k.push_back(10 + 3 * i);
                history(o.first, c, k, o.second, 0, true);
            });
            vh::wipeAll();
        }
    }
}
