// Counting, existence and grouping primitives against the set of triples.
#include "kbcheck.h"
using namespace std;
using namespace kbu;
using namespace kbc;
void explore() {
    Logger::setMinLevel(100);
    string what = vh::arg("what", "count");
    struct C { const char *n; int nind; bool aggr, skip; };
    vector<C> cs = {{"6", 6, false, false}, {"3", 3, false, false}, {"1", 1, false, false}, {"4", 4, false, false}, {"6a", 6, true, false}, {"3a", 3, true, false}, {"6s", 6, false, true}, {"6as", 6, true, true},
        // each triple stands for ten: the POS (PSO) tables hold references into the OPS (SPO) tables
        {"6a references s", 6, true, false}, {"3a references s", 3, true, false}, {"6a references o", 6, true, false}, {"6as references o", 6, true, true}};
    for (auto &c : cs) for (int m = 1; m < 256; ++m) {
        vector<T3> g;
        for (int i = 0; i < 8; ++i) if (m >> i & 1) g.push_back(T3{{(i >> 2) & 1, (i >> 1) & 1, i & 1}});
        string n = c.n;
        if (n.find("refer") != string::npos) {
            vector<T3> b;
            for (auto &t : g) for (int i = 0; i < 10; ++i) b.push_back(n.back() == 's' ? T3{{t[0] + 2 * i, t[1], t[2]}} : T3{{t[0], t[1], t[2] + 2 * i}});
            sort(b.begin(), b.end());
            g = b;
        }
        if (vh::arg("cfg") != "" && vh::arg("cfg") != c.n) continue;
        vh::runCase([&] { return string(c.n) + " " + show(g); }, [&] {
            Spec sp; sp.g = g; sp.dict = defDict(3); sp.p.nindices = c.nind; sp.p.aggrIndices = c.aggr; sp.p.canSkipTables = c.skip;
            string kb = load(sp);
            Open k(kb);
            if (what == "count") count(k.q.get(), g, {-1, 0, 1, 2}, {0, 1, 2, 3, 4, 5});
            if (what == "edges") edges(k.q.get(), g, {-4, -3, -2, 0, 1, 2}, false);
            if (what == "same") edges(k.q.get(), g, {-3, -2, 0, 1, 2}, true);
        });
        vh::wipeAll();
    }
}
