// The dictionary of a KB: after loading (three ways of building it, own dictionaries for the relations, several
// input files) and after updates that add new terms (few: a file of pairs; many: trees of their own), every term
// has the number it should have, every number its term, and nothing else is known.
#include "kbutil.h"
#include <trident/kb/updater.h>
#include <kognac/lz4io.h>
using namespace std;
using namespace kbu;
struct Known { map<int64_t, string> text; map<string, int64_t> num; void put(int64_t i, const string &t) { text[i] = t; num[t] = i; } };
enum { TEXT = 1, NUM = 2 };
static void checkOne(DictMgmt *d, int64_t id, const Known &k, int what) {
    auto e = k.text.find(id);
    if (what & TEXT) {
        static vector<char> b(MAX_TERM_SIZE + 2);
        string s = "?"; int n = -7;
        bool a = d->getText(id, b.data(), n), c = d->getText(id, s), f;
        string x = a ? string(b.data(), n) : "";
        f = d->getText(id, b.data());
        string y = f ? string(b.data()) : "";
        if (e == k.text.end()) { if (a || c || f) vh::fail(vh::fmt("the unknown number %ld has a text: %s", (long) id, (a ? x : c ? s : y).c_str())); return; }
        if (!a || !c || !f) vh::fail(vh::fmt("the number %ld (%s) has no text (%d %d %d)", (long) id, e->second.c_str(), a, c, f));
        if (x != e->second || s != e->second || y != e->second) vh::fail(vh::fmt("the number %ld of %s has the text %s / %s / %s", (long) id, e->second.c_str(), x.c_str(), s.c_str(), y.c_str()));
    }
}
static void checkTerm(DictMgmt *d, const string &t, const Known &k) {
    nTerm v = 0;
    bool a = d->getNumber(t.data(), t.size(), &v);
    auto e = k.num.find(t);
    if (e == k.num.end()) { if (a) vh::fail("the unknown term '" + t + "' has the number " + to_string(v)); }
    else if (!a) vh::fail("the term '" + t + "' has no number");
    else if ((int64_t) v != e->second) vh::fail(vh::fmt("the term %s has the number %ld instead of %ld", t.c_str(), (long) v, (long) e->second));
}
static vector<string> near(const string &t) { // neighbours of a term, unknown unless they are terms themselves
    vector<string> r;
    if (t.size() > 1) r.push_back(t.substr(0, t.size() - 1));
    r.push_back(t + "a"); r.push_back(t + '\x01');
    string u = t; u[u.size() - 1]++; r.push_back(u);
    u = t; u[0]--; r.push_back(u);
    return r;
}
static void checkAll(DictMgmt *d, const Known &k, const set<string> &probes, int64_t maxid, int what = TEXT | NUM) {
    for (int64_t i = 0; i <= maxid + 1; ++i) checkOne(d, i, k, what);
    for (int64_t i : {maxid + 100, (int64_t) 1 << 31, (int64_t) 1 << 32, ((int64_t) 1 << 40) - 1}) checkOne(d, i, k, what);
    if (what & NUM) { for (auto &p : probes) checkTerm(d, p, k); for (auto &e : k.num) checkTerm(d, e.first, k); }
    vh::add("lookups", (maxid + 6) * 3 + probes.size() + k.num.size());
}
static vector<string> alphabet() {
    return {"a", "ab", "b", "aa", "<http://x/y>", "a b", "\xff", "\x80z", "\"l\"@en", string(300, 'a'), string(300, 'a') + "b", " "};
}
static void loaded(const string &name, const vector<string> &terms, const string &method, const set<string> &probes, int triples = 1) {
    vh::runCase([&] { string s = name + " " + method + " terms"; for (size_t i = 0; i < terms.size() && i < 8; ++i) s += " '" + terms[i].substr(0, 20) + "'" + (terms[i].size() > 20 ? to_string(terms[i].size()) : ""); return s + " #" + to_string(terms.size()); }, [&] {
        Spec s; s.dict = terms; s.p.dictMethod = method;
        int64_t n = terms.size();
        for (int i = 0; i < triples; ++i) s.g.push_back(T3{{i % n, (i + 1) % n, (i + 2) % n}});
        Known k; for (size_t i = 0; i < terms.size(); ++i) k.put(i, terms[i]);
        string p = load(s);
        for (int again = 0; again < 2; ++again) {
            Open o(p);
            if (method == "hash") {
                // only number to text is stored
                checkAll(o.kb->getDictMgmt(), k, probes, terms.size(), TEXT);
            } else checkAll(o.kb->getDictMgmt(), k, probes, terms.size());
            if (o.kb->getNTerms() != n && method != "hash") vh::fail(vh::fmt("%ld terms counted, %ld stored", (long) o.kb->getNTerms(), (long) n));
        }
        vh::outcome(vh::mix(vh::hashs(vh::str(terms)), method.size()));
    });
    vh::wipeAll();
}
// own numbers for the relations, with a dictionary of their own or with numbers given by the loader
static void relations(const vector<T3> &g, const vector<string> &ents, const vector<string> &rels, bool own, bool same) {
    vh::runCase([&] { return string("relations ") + (own ? "own dictionary" : "derived") + (same ? " tmp=kb" : "") + " g " + kbu::show(g) + " ents " + vh::str(ents) + " rels " + vh::str(rels); }, [&] {
        Spec s; s.g = g; s.dict = ents; s.p.relsOwnIDs = true; s.sameTmp = same;
        string r = vh::newDir() + "/rels.gz";
        if (own) { ofstream d(r); for (size_t i = 0; i < rels.size(); ++i) d << i << " " << rels[i].size() << " " << rels[i] << "\n"; d.close(); s.p.dictDir_rel = r; }
        string p = load(s);
        Open o(p);
        DictMgmt *d = o.kb->getDictMgmt();
        Known k; for (size_t i = 0; i < ents.size(); ++i) k.put(i, ents[i]);
        set<string> pr; for (auto &e : ents) for (auto &x : near(e)) pr.insert(x);
        checkAll(d, k, pr, ents.size());
        map<int64_t, string> rt; // relation number -> text
        if (own) for (size_t i = 0; i < rels.size(); ++i) rt[i] = rels[i];
        set<string> used;
        if (!own) {
            // whatever numbers were given: the stored triples, read back through the texts, are the given ones
            for (auto &t : g) used.insert(ents[t[1]]);
            set<int64_t> nums;
            for (auto &u : used) {
                nTerm v;
                if (!d->getNumberRel(u.data(), u.size(), &v)) vh::fail("the relation '" + u + "' has no number");
                if (!nums.insert(v).second) vh::fail("two relations have one number");
                if (v >= used.size()) vh::fail("the relation numbers are not dense");
                rt[v] = u;
            }
        }
        static vector<char> b(MAX_TERM_SIZE + 2);
        for (int64_t i = 0; i < 8; ++i) {
            int n = 0; bool f = d->getTextRel(i, b.data(), n);
            if (f != (bool) rt.count(i)) vh::fail(vh::fmt("relation number %ld %s a text", (long) i, f ? "has" : "has not"));
            if (f && string(b.data(), n) != rt[i]) vh::fail(vh::fmt("relation number %ld has the text %s, not %s", (long) i, string(b.data(), n).c_str(), rt[i].c_str()));
        }
        for (auto &e : rt) { nTerm v; if (!d->getNumberRel(e.second.data(), e.second.size(), &v) || (int64_t) v != e.first) vh::fail("the relation '" + e.second + "' has another number"); }
        for (auto &x : pr) if (!used.count(x) && find(rels.begin(), rels.end(), x) == rels.end()) { nTerm v; if (d->getNumberRel(x.data(), x.size(), &v)) vh::fail("the unknown relation '" + x + "' has a number"); }
        // the stored triples
        multiset<string> want, got;
        set<T3> gs(g.begin(), g.end());
        for (auto &t : gs) want.insert(to_string(t[0]) + " " + (own ? rels[t[1]] : ents[t[1]]) + " " + to_string(t[2]));
        for (int idx = 0; idx < 6; ++idx) {
            got.clear();
            PairItr *it = o.q->getIterator(idx, -1, -1, -1);
            for (auto &row : drain(it)) { T3 t; for (int i = 0; i < 3; ++i) t[ORD[idx][i]] = row[i]; got.insert(to_string(t[0]) + " " + rt[t[1]] + " " + to_string(t[2])); }
            o.q->releaseItr(it);
            if (got != want) vh::fail(vh::fmt("permutation %d does not hold the given triples", idx));
        }
        vh::outcome(vh::mix(vh::hashs(kbu::show(g)), own * 8 + rels.size()));
    });
    vh::wipeAll();
}
// the dictionary files the loader derives from text input: frequent terms in one file, sorted ones in others
static void files(const vector<string> &popular, const vector<vector<string>> &sorted, bool smart, bool hash) {
    vh::runCase([&] { string s = string("files ") + (smart ? "smart " : hash ? "hash " : "") + "popular " + vh::str(popular); for (auto &f : sorted) s += " sorted " + (f.size() < 10 ? vh::str(f) : "#" + to_string(f.size())); return s; }, [&] {
        string b = vh::newDir(), f = b + "/dict-0", kbd = b + "/kb";
        Known k; set<string> pr; int64_t id = 0;
        char sup[2000];
        if (popular.size()) {
            LZ4Writer w(f);
            for (auto &t : popular) { k.put(id, t); w.writeLong(id++); Utils::encode_short(sup, t.size()); memcpy(sup + 2, t.data(), t.size()); w.writeString(sup, t.size() + 2); }
        }
        for (size_t i = 0; i < sorted.size(); ++i) {
            LZ4Writer w(f + "." + to_string(i));
            int64_t local = 0; // as in the files KOGNAC writes, the numbers start again in every file
            for (auto &t : sorted[i]) { k.put(id++, t); w.writeLong(local++); w.writeString(t.data(), t.size()); }
        }
        for (auto &e : k.num) for (auto &x : near(e.first)) pr.insert(x);
        {
            KBConfig c;
            c.setParamInt(DICTPARTITIONS, 1); c.setParamInt(NINDICES, 6); c.setParamBool(AGGRINDICES, false); c.setParamBool(USEFIXEDSTRAT, false); c.setParamInt(FIXEDSTRAT, 0); c.setParamInt(THRESHOLD_SKIP_TABLE, 20); c.setParamBool(RELSOWNIDS, false);
            if (hash) c.setParamBool(DICTHASH, true);
            KB kb(kbd.c_str(), false, false, true, c);
            nTerm mx = 0;
            Loader::insertDictionary(0, kb.getDictMgmt(), f, !hash, true, smart, &mx);
            if ((int64_t) mx != id - 1) vh::fail(vh::fmt("the largest number is %ld, reported %ld", (long) id - 1, (long) mx));
            kb.closeMainDict();
        }
        Open o(kbd);
        checkAll(o.kb->getDictMgmt(), k, pr, id, hash ? TEXT : TEXT | NUM);
        vh::outcome(vh::mix(vh::hashs(vh::str(popular)), id * 4 + smart * 2 + hash));
    });
    vh::wipeAll();
}
// histories of updates with new terms
struct Step { int kind; int from, n; }; // 0: add triples with the new terms from .. from+n-1, 1: remove their triples, 2: merge
static string newTerm(int i) { return i % 7 == 3 ? "\"literal with spaces " + to_string(i) + "\"" : "<http://new/" + to_string(i * 7919 % 100003) + ">"; }
static void history(const vector<Step> &h) {
    vh::runCase([&] { string s = "updates"; for (auto &u : h) s += vh::fmt(" %s(%d,%d)", u.kind == 0 ? "add" : u.kind == 1 ? "del" : "merge", u.from, u.n); return s; }, [&] {
        Spec s; s.g = {T3{{0, 1, 2}}, T3{{2, 1, 0}}}; s.dict = defDict(3);
        string p = load(s);
        set<string> known; Known k; // the numbers of new terms are fixed when first seen
        for (int i = 0; i < 3; ++i) { known.insert(s.dict[i]); k.put(i, s.dict[i]); }
        set<pair<string, string>> rows; // (s, o) of the triples with predicate t1
        rows.insert(make_pair(s.dict[0], s.dict[2])); rows.insert(make_pair(s.dict[2], s.dict[0]));
        for (auto &u : h) {
            if (u.kind == 2) { KBConfig c; KB kb(p.c_str(), true, false, true, c); kb.mergeUpdates(); }
            else {
                string f = vh::newDir() + "/u.nt";
                ofstream o(f);
                for (int i = u.from; i < u.from + u.n; ++i) {
                    // a term is the object, or the subject, or both terms of a triple are new
                    string a = i % 3 == 0 ? s.dict[0] : "<http://sub/" + to_string(i / 4) + ">", b = newTerm(i);
                    o << a << " " << s.dict[1] << " " << b << " .\n";
                    if (u.kind == 0) { rows.insert(make_pair(a, b)); known.insert(a); known.insert(b); } else rows.erase(make_pair(a, b));
                }
                o.close();
                Updater up; up.creatediffupdate(u.kind ? DiffIndex::TypeUpdate::DELETE_df : DiffIndex::TypeUpdate::ADDITION_df, p, f);
            }
            vh::add("transitions");
            Open o(p);
            DictMgmt *d = o.kb->getDictMgmt();
            for (auto &t : known) if (!k.num.count(t)) {
                nTerm v; if (!d->getNumber(t.data(), t.size(), &v)) vh::fail("the new term '" + t + "' has no number");
                if (k.text.count(v)) vh::fail("the new term '" + t + "' got the number of '" + k.text[v] + "'");
                k.put(v, t);
            }
            vh::add("states");
            int64_t mx = k.text.rbegin()->first;
            if (mx >= (int64_t) k.text.size() + 10) vh::fail("the numbers of new terms are not dense");
            set<string> pr; for (auto &t : known) if (pr.size() < 400) for (auto &x : near(t)) pr.insert(x);
            checkAll(d, k, pr, mx);
            if (o.kb->getNTerms() != (int64_t) known.size()) vh::fail(vh::fmt("%ld terms counted, %zu known", (long) o.kb->getNTerms(), known.size()));
            if (o.kb->getNextID() <= mx) vh::fail("the next number to give is already taken");
            set<pair<string, string>> got;
            PairItr *it = o.q->getIterator(IDX_PSO, -1, -1, -1);
            while (it->hasNext()) { it->next(); if (it->getKey() != 1) vh::fail("predicate"); if (!got.insert(make_pair(k.text[it->getValue1()], k.text[it->getValue2()])).second) vh::fail("a triple is answered twice"); }
            o.q->releaseItr(it);
            if (got != rows) vh::fail(vh::fmt("%zu triples answered, %zu expected", got.size(), rows.size()));
            vh::outcome(vh::mix(rows.size(), known.size() * 31 + mx));
        }
    });
    vh::wipeAll();
}
static vector<string> family(int f, int n) {
    vector<string> r;
    for (int i = 0; i < n; ++i) switch (f) {
        case 0: r.push_back("<http://example.org/resource/" + to_string(i) + ">"); break;
        case 1: { int x = i, j = 0; string s; while (j++ < 4) { s += (char) (x % 13 * 19 + 11); x /= 13; } r.push_back(s); break; } // little-endian digits, bytes of either sign
        case 2: r.push_back(string(1 + i % 200, (char) ('A' + i % 50)) + to_string(i)); break;
        case 3: r.push_back(to_string((long) i * 7919 % 1000003)); break;
        case 4: r.push_back(string(2000 + i % 100, 'p') + to_string(n - i)); break; // long common prefix, falling order
    }
    return r;
}
void explore() {
    Logger::setMinLevel(100);
    string mode = vh::arg("mode", "load");
    vector<string> al = alphabet();
    set<string> probes(al.begin(), al.end());
    for (auto &t : al) for (auto &x : near(t)) probes.insert(x);
    if (mode == "load") {
        // every ordered choice of up to N terms
        int N = atoi(vh::arg("n", "3").c_str());
        al.resize(min(al.size(), (size_t) atoi(vh::arg("alpha", "99").c_str())));
        for (const char *m : {DICT_HEURISTICS, DICT_SMART, DICT_HASH}) {
            vector<string> cur;
            function<void()> rec = [&] {
                if (cur.size()) loaded("load", cur, m, probes);
                if ((int) cur.size() == N) return;
                for (auto &t : al) { if (find(cur.begin(), cur.end(), t) != cur.end()) continue; cur.push_back(t); rec(); cur.pop_back(); }
            };
            rec();
        }
    } else if (mode == "size") {
        vector<int> sizes = {12, 60, 127, 128, 129, 500, 1000, 2500};
        if (vh::thorough) for (int x : {255, 256, 257, 511, 512, 513, 5000, 20000, 50000}) sizes.push_back(x);
        for (int f = 0; f < 5; ++f) for (int n : sizes) {
            if (f == 4 && n > 5000) continue;
            for (const char *m : {DICT_HEURISTICS, DICT_SMART, DICT_HASH}) {
                vector<string> t = family(f, n);
                set<string> pr; for (auto &x : t) { if (pr.size() > 2000) break; for (auto &y : near(x)) pr.insert(y); }
                loaded("size", t, m, pr, 50);
            }
        }
    } else if (mode == "rel") {
        vector<T3> pool = {T3{{0,0,0}}, T3{{0,1,2}}, T3{{1,2,0}}, T3{{2,2,2}}, T3{{3,0,1}}, T3{{1,1,1}}};
        vector<string> ents = {"<e0>", "rel b", "a", "\"lit\""};
        vector<vector<string>> relsets = {{"<r0>", "rel b", "r"}, {"z", "y", "x"}, {"a", "<e0>", "rel b"}};
        for (int m = 1; m < 64; ++m) {
            vector<T3> g; for (int i = 0; i < 6; ++i) if (m >> i & 1) g.push_back(pool[i]);
            vector<T3> rv(g.rbegin(), g.rend());
            for (int same = 0; same < 2; ++same) {
                relations(g, ents, {}, false, same);
                relations(rv, ents, {}, false, same);
                for (auto &r : relsets) relations(g, ents, r, true, same);
            }
        }
    } else if (mode == "files") {
        vector<string> small = {"a", "ab", "b", "\x80z", "<x>"};
        int tot = 1; for (size_t i = 0; i < small.size(); ++i) tot *= 4;
        for (int c = 1; c < tot; ++c) { // each term: absent, frequent, in the first file, in the second file
            vector<string> pop; vector<vector<string>> so(2); int x = c; bool second = false, ok = true;
            for (auto &t : small) { int w = x % 4; x /= 4; if (w == 1) pop.push_back(t); if (w >= 2) so[w - 2].push_back(t); second |= w == 3; }
            for (auto &f : so) sort(f.begin(), f.end());
            if (so[0].size() && so[1].size() && !(so[0].back() < so[1].front())) ok = false;
            if (!ok || (so[0].empty() && second)) continue;
            if (!second) so.resize(1);
            if (so.size() == 1 && so[0].empty()) so.clear();
            for (int r = 0; r < (pop.size() > 1 ? 2 : 1); ++r) {
                for (int v = 0; v < 3; ++v) files(pop, so, v == 1, v == 2);
                reverse(pop.begin(), pop.end());
            }
        }
        for (int n : {100, 1000, 5000}) for (int f = 0; f < 4; ++f) for (int pp : {0, 1, 7}) for (int v = 0; v < 3; ++v) {
            if (!vh::thorough && n == 5000 && f) continue;
            vector<string> t = family(f, n), pop; vector<vector<string>> so(3);
            vector<string> rest;
            for (int i = 0; i < n; ++i) if (pp && i % (10 + pp) == 3) pop.push_back(t[i]); else rest.push_back(t[i]);
            sort(rest.begin(), rest.end());
            for (size_t i = 0; i < rest.size(); ++i) so[i * 3 / rest.size()].push_back(rest[i]);
            files(pop, so, v == 1, v == 2);
        }
    } else if (mode == "updates") {
        vector<Step> al = {{0, 0, 3}, {0, 2, 40}, {0, 100, 15000}, {0, 14000, 16000}, {1, 0, 3}, {1, 100, 500}};
        int depth = atoi(vh::arg("depth", "3").c_str());
        vector<Step> h;
        function<void()> rec = [&] {
            if ((int) h.size() == depth) { history(h); return; }
            for (auto &u : al) { if (h.empty() && u.kind == 1) continue; h.push_back(u); rec(); h.pop_back(); }
            if (h.size() >= 2 && h.back().kind != 2) { h.push_back({2, 0, 0}); rec(); h.pop_back(); }
        };
        rec();
    }
}
