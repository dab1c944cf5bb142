// Loading a small graph into a real KB and opening it.
#ifndef KBUTIL_H
#define KBUTIL_H
#include "vh.h"
#include <trident/loader.h>
#include <trident/kb/kb.h>
#include <trident/kb/querier.h>
#include <array>
#include <memory>
typedef std::array<int64_t, 3> T3;
namespace kbu {
inline std::string show(const std::vector<T3> &g) {
    std::ostringstream o; o << "{";
    for (size_t i = 0; i < g.size(); ++i) o << (i ? " " : "") << g[i][0] << "," << g[i][1] << "," << g[i][2];
    o << "}"; return o.str();
}
inline std::vector<std::string> defDict(int64_t n) {
    std::vector<std::string> d;
    for (int64_t i = 0; i < n; ++i) d.push_back("<http://x/t" + std::to_string(i) + ">");
    return d;
}
struct Spec {
    std::vector<T3> g;
    std::vector<std::string> dict;
    ParamsLoad p;
    bool sameTmp = false; // temporary files in the directory of the KB, as by default
    Spec() { p.inputformat = "rdf"; p.inputCompressed = true; p.parallelThreads = 1; p.maxReadingThreads = 1; p.sample = false; }
};
// returns the path of the KB
inline std::string load(Spec &s) {
    std::string base = vh::newDir();
    {
        std::ofstream o(base + "/triples.gz");
        for (auto &t : s.g) o << t[0] << " " << t[1] << " " << t[2] << "\n";
        std::ofstream d(base + "/dict.gz");
        for (size_t i = 0; i < s.dict.size(); ++i) d << i << " " << s.dict[i].size() << " " << s.dict[i] << "\n";
    }
    ParamsLoad p = s.p;
    p.triplesInputDir = base + "/triples.gz";
    p.dictDir = base + "/dict.gz";
    p.kbDir = base + "/kb";
    p.tmpDir = s.sameTmp ? p.kbDir : base + "/tmp";
    Loader l;
    l.load(p);
    return p.kbDir;
}
struct Open {
    KBConfig c;
    std::unique_ptr<KB> kb;
    std::unique_ptr<Querier> q;
    Open(const std::string &path, bool dict = true, bool partials = false, std::vector<std::string> upd = std::vector<std::string>()) {
        kb.reset(new KB(path.c_str(), true, false, dict, c, upd, partials));
        q.reset(kb->query());
    }
    ~Open() { q.reset(); kb.reset(); }
};
static const int ORD[6][3] = {{0,1,2},{2,1,0},{1,2,0},{0,2,1},{2,0,1},{1,0,2}}; // permutation idx -> positions (checked against the code's constants by the harness)
inline bool match(const T3 &t, int64_t s, int64_t p, int64_t o) {
    return (s < 0 || t[0] == s) && (p < 0 || t[1] == p) && (o < 0 || t[2] == o);
}
inline std::vector<T3> drain(PairItr *it, size_t limit = 100000) {
    std::vector<T3> r;
    while (it->hasNext()) {
        it->next();
        r.push_back(T3{{it->getKey(), it->getValue1(), it->getValue2()}});
        if (r.size() > limit) vh::fail("iterator does not end");
    }
    return r;
}
}
#endif
