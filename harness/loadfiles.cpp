// Loading numbered triples from a set of input files: however the triples are spread over the files, whatever the
// separators, compression and number of threads, the KB holds exactly their union.
#include "kbutil.h"
#include <kognac/lz4io.h>
#include <zlib.h>
using namespace std;
using namespace kbu;
struct File { vector<T3> t; bool gz, newline, tab, crlf; };
static void put(const string &path, const string &s, bool gz) {
    if (gz) { gzFile f = gzopen((path + ".gz").c_str(), "wb"); if (s.size()) gzwrite(f, s.data(), s.size()); gzclose(f); }
    else { ofstream o(path); o << s; }
}
static string text(const File &f, bool two) {
    string s;
    for (size_t i = 0; i < f.t.size(); ++i) {
        const char *sep = f.tab ? "\t" : " ";
        s += to_string(f.t[i][0]) + sep + (two ? "" : to_string(f.t[i][1]) + sep) + to_string(f.t[i][2]);
        if (i + 1 < f.t.size() || f.newline) s += f.crlf ? "\r\n" : "\n";
    }
    return s;
}
struct Conf { int threads, reading, nind; bool aggr, two, split; int dicts; };
static string dsc(const vector<File> &fs, const Conf &c) {
    string s = vh::fmt("threads=%d reading=%d nindices=%d aggr=%d columns=%d dictfiles=%d:", c.threads, c.reading, c.nind, c.aggr, c.two ? 2 : 3, c.dicts);
    for (auto &f : fs) s += string(" [") + (f.gz ? "gz " : "") + (f.newline ? "" : "no-newline ") + (f.tab ? "tab " : "") + (f.crlf ? "crlf " : "") + (f.t.size() < 10 ? kbu::show(f.t) : "#" + to_string(f.t.size())) + "]";
    return s;
}
static void one(const vector<File> &fs, const Conf &c) {
    vh::runCase([&] { return dsc(fs, c); }, [&] {
        string b = vh::newDir();
        Utils::create_directories(b + "/in");
        set<T3> want; int64_t top = 0;
        for (size_t i = 0; i < fs.size(); ++i) {
            put(b + "/in/part-" + to_string(i), text(fs[i], c.two), fs[i].gz);
            for (auto t : fs[i].t) { if (c.two) t[1] = 0; want.insert(t); top = max(top, max(t[0], max(t[1], t[2]))); }
        }
        put(b + "/in/other", "7 7 7\n", false); // not an input
        vector<string> dict = defDict(top + 1);
        ParamsLoad p; p.inputformat = "rdf"; p.inputCompressed = true; p.sample = false;
        p.parallelThreads = c.threads; p.maxReadingThreads = c.reading; p.nindices = c.nind; p.aggrIndices = c.aggr;
        p.triplesInputDir = b + "/in/part"; p.kbDir = b + "/kb"; p.tmpDir = b + "/tmp";
        if (c.dicts) {
            Utils::create_directories(b + "/d");
            for (int i = 0; i < c.dicts; ++i) {
                string s;
                for (int64_t j = (top + 1) * i / c.dicts; j < (top + 1) * (i + 1) / c.dicts; ++j) s += to_string(j) + " " + to_string(dict[j].size()) + " " + dict[j] + "\n";
                put(b + "/d/dict-" + to_string(i), s, i & 1);
            }
            p.dictDir = b + "/d/dict";
        }
        Loader l; l.load(p);
        Open o(p.kbDir, c.dicts > 0);
        if (o.kb->getSize() != (int64_t) want.size()) vh::fail(vh::fmt("%ld triples counted, %zu given", (long) o.kb->getSize(), want.size()));
        vector<int> perms = {0, 1, 2}; if (c.nind == 6) perms = {0, 1, 2, 3, 4, 5}; if (c.nind == 4) perms = c.aggr ? vector<int>{0, 1, 2} : vector<int>{0, 1, 3, 4}; if (c.nind == 1) perms = {0};
        for (int idx : perms) {
            vector<T3> got, w2;
            PairItr *it = o.q->getIterator(idx, -1, -1, -1);
            got = drain(it); o.q->releaseItr(it);
            for (auto &t : want) w2.push_back(T3{{t[ORD[idx][0]], t[ORD[idx][1]], t[ORD[idx][2]]}});
            sort(w2.begin(), w2.end());
            if (got != w2) vh::fail(vh::fmt("permutation %d holds %s instead of %s", idx, got.size() < 20 ? kbu::show(got).c_str() : to_string(got.size()).c_str(), w2.size() < 20 ? kbu::show(w2).c_str() : to_string(w2.size()).c_str()));
        }
        if (c.dicts) for (int64_t i = 0; i <= top; ++i) {
            string s; nTerm v;
            if (!o.kb->getDictMgmt()->getText(i, s) || s != dict[i]) vh::fail("the text of " + to_string(i) + " is " + s);
            if (!o.kb->getDictMgmt()->getNumber(dict[i].data(), dict[i].size(), &v) || (int64_t) v != i) vh::fail("the number of " + dict[i]);
        }
        vh::outcome(dsc(fs, c));
    });
    vh::wipeAll();
}
void explore() {
    Logger::setMinLevel(100);
    string mode = vh::arg("mode", "spread");
    vector<T3> base = {T3{{0, 0, 0}}, T3{{12, 3, 12345}}, T3{{12, 3, 4}}, T3{{1, 10, 100}}};
    if (mode == "spread") { // every way to put four triples into up to three files (a triple may be in two), every line form
        for (int k = 1; k <= 3; ++k) {
            int opts = (1 << k) - 1, tot = 1; for (int i = 0; i < 4; ++i) tot *= opts;
            for (int x = 0; x < tot; ++x) {
                vector<File> fs(k); int y = x;
                for (int i = 0; i < 4; ++i) { int m = y % opts + 1; y /= opts; for (int f = 0; f < k; ++f) if (m >> f & 1) fs[f].t.push_back(base[i]); }
                bool empty = false; for (auto &f : fs) empty |= f.t.empty();
                if (empty) continue;
                for (int form = 0; form < 16; ++form) {
                    for (int f = 0; f < k; ++f) { fs[f].gz = form & 1; fs[f].newline = !(form >> 1 & 1); fs[f].tab = form >> 2 & 1; fs[f].crlf = form >> 3 & 1; if (f == 1) fs[f].gz = !fs[f].gz && (form >> 2 & 1); if (f == 2) fs[f].newline = true; }
                    if (!vh::thorough && (x * 7 + form) % (k == 3 ? 23 : 3)) continue;
                    int nd = (x + form) % 4;
                    one(fs, {1 + form % 2, 1, 6, false, false, false, nd});
                }
            }
        }
    } else if (mode == "threads") { // every number of threads, several files
        for (int th = 1; th <= 6; ++th) for (int rd = 1; rd <= th; ++rd) for (int k = 1; k <= 6; ++k) for (int form = 0; form < 4; ++form) for (int ni : {6, 3, 4}) for (int ag = 0; ag < (ni == 3 ? 1 : 2); ++ag) {
            vector<File> fs(k);
            for (int i = 0; i < k; ++i) { fs[i] = {{}, (bool) (form & 1), !(form & 2), false, false}; for (int j = 0; j < 3; ++j) fs[i].t.push_back(T3{{(i * 5 + j) % 11, i % 3, (j * 3 + i) % 7}}); }
            one(fs, {th, rd, ni, (bool) ag, (bool) (form == 3 && !ag), false, 0});
        }
    } else if (mode == "two") { // unlabelled pairs, one or several files
        for (int m = 1; m < 81; ++m) {
            vector<File> fs(2); int y = m;
            for (int i = 0; i < 4; ++i) { int w = y % 3; y /= 3; if (w) fs[w - 1].t.push_back(base[i]); }
            if (fs[0].t.empty()) continue;
            if (fs[1].t.empty()) fs.pop_back();
            for (int form = 0; form < 8; ++form) {
                for (auto &f : fs) { f.gz = form & 1; f.newline = !(form & 2); f.tab = form & 4; f.crlf = false; }
                one(fs, {2, 1, 6, false, true, false, 0});
            }
        }
    } else if (mode == "big") { // files of many lines; a shorter one after a longer one
        for (int n : {100, 5000, 30000}) for (int th : {1, 2, 4}) for (int form = 0; form < 4; ++form) {
            vector<File> fs(3);
            for (int i = 0; i < 3; ++i) { fs[i] = {{}, (bool) (form & 1), !(form & 2), false, false}; int m = i == 1 ? n : n / 7; for (int j = 0; j < m; ++j) fs[i].t.push_back(T3{{(int64_t) j * (i + 1) % 977, j % 13, ((int64_t) j * j + i) % 2003}}); }
            one(fs, {th, min(th, 2), 6, false, false, false, 3});
        }
    }
}
