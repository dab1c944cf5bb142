// The loader's threads under every schedule within a bound: the knowledge base that results
// must hold exactly the input, whatever the schedule.
#include "vh.h"
#include "vsched.h"
#include "kbcheck.h"
#include <kognac/logs.h>
using namespace std;
extern std::map<int64_t, int64_t> &tridentVerifLimits();
static void count(const sched::Result &r) {
    vh::add("states", r.decisions); vh::add("transitions", r.steps); vh::add("traces", r.schedules); vh::add("schedules", r.schedules);
    if (r.capped) vh::add("capped");
    if (getenv("SCHEDV")) fprintf(stderr, "case %ld: %ld schedules, %ld steps, %ld decisions, %ld threads%s\n", vh::idx, r.schedules, r.steps, r.decisions, r.threads, r.capped ? " CAPPED" : "");
    vh::outcome(vh::mix(r.schedules, vh::mix(r.steps, r.threads)));
}
struct Conf { string name; function<void(kbu::Spec &)> f; int merge, coord; int slices; };
static vector<T3> graph(int n) { vector<T3> g; for (int i = 0; i < n; ++i) g.push_back(T3{{i * 5 % 4, 4 + i % 2, (i * 3 + i / 4) % 7}}); sort(g.begin(), g.end()); g.erase(unique(g.begin(), g.end()), g.end()); return g; }
static void body(const Conf &c, const vector<T3> &g) {
    kbu::Spec s; s.g = g; s.dict = kbu::defDict(7); s.p.nindices = 6;
    c.f(s);
    tridentVerifLimits().clear();
    tridentVerifLimits()[4 * 1000000 * 4] = c.merge; tridentVerifLimits()[10000] = c.coord;
    string path = kbu::load(s);
    kbu::Open o(path);
    for (int idx = 0; idx < 6; ++idx) {
        PairItr *it = o.q->getIterator(idx, -1, -1, -1);
        vector<T3> got; if (it->getTypeItr() != EMPTY_ITR) { got = kbu::drain(it); o.q->releaseItr(it); }
        vector<T3> e = kbc::expect(g, idx, -1, -1, -1);
        if (got != e) sched::fail(vh::fmt("permutation %d holds ", idx) + kbu::show(got) + " instead of " + kbu::show(e));
    }
    for (int k = 0; k < 7; ++k) for (int idx = 0; idx < 6; ++idx) {
        int64_t v[3] = {-1, -1, -1}; v[kbu::ORD[idx][0]] = k;
        PairItr *it = o.q->getIterator(idx, v[0], v[1], v[2]);
        vector<T3> got; if (it->getTypeItr() != EMPTY_ITR) { got = kbu::drain(it); o.q->releaseItr(it); }
        if (got != kbc::expect(g, idx, v[0], v[1], v[2])) sched::fail(vh::fmt("permutation %d of term %d holds ", idx, k) + kbu::show(got));
    }
    if (s.p.storeDicts) for (int k = 0; k < 7; ++k) {
        char t[1000]; int n = -1; string e = s.dict[k];
        if (!o.kb->getDictMgmt()->getText(k, t, n) || string(t, n) != e) sched::fail(vh::fmt("term %d reads '%.*s'", k, max(0, n), t));
        nTerm key = 99; if (!o.kb->getDictMgmt()->getNumber(e.c_str(), e.size(), &key) || (int) key != k) sched::fail(vh::fmt("term %d has number %ld", k, (long) key));
    }
    vh::wipeAll();
}
void explore() {
    Logger::setMinLevel(100);
    int budget = atoi(vh::arg("budget", "1").c_str()) + (vh::thorough && vh::arg("mode", "delays") == "delays"), n = atoi(vh::arg("n", "10").c_str());
    vector<Conf> cs = {
        {"sequential", [](kbu::Spec &) {}, 12, 3, 1},
        {"2 threads", [](kbu::Spec &s) { s.p.parallelThreads = 2; }, 12, 3, 1},
        {"2 threads, 2 readers", [](kbu::Spec &s) { s.p.parallelThreads = 2; s.p.maxReadingThreads = 2; }, 16, 2, 1},
        {"4 threads, 2 readers", [](kbu::Spec &s) { s.p.parallelThreads = 4; s.p.maxReadingThreads = 2; }, 4, 7, 1},
        {"8 threads, 1 reader", [](kbu::Spec &s) { s.p.parallelThreads = 8; }, 40, 1, 1},
        {"blocks, 2 threads", [](kbu::Spec &s) { s.p.createIndicesInBlocks = true; s.p.parallelThreads = 2; }, 40, 4, 1},
        {"blocks, 4 threads, 2 readers", [](kbu::Spec &s) { s.p.createIndicesInBlocks = true; s.p.parallelThreads = 4; s.p.maxReadingThreads = 2; }, 20, 7, 1},
        {"aggregated, 4 threads", [](kbu::Spec &s) { s.p.aggrIndices = true; s.p.parallelThreads = 4; }, 8, 2, 1},
        {"skipped tables, 4 threads", [](kbu::Spec &s) { s.p.canSkipTables = true; s.p.parallelThreads = 4; }, 40, 3, 1},
        {"3 indices, 4 threads", [](kbu::Spec &s) { s.p.nindices = 3; s.p.parallelThreads = 4; }, 8, 2, 1},
        {"monitor, 2 threads", [](kbu::Spec &s) { s.p.timeoutStats = 1; s.p.parallelThreads = 2; }, 40, 5, 1},
    };
    bool delays = vh::arg("mode", "delays") == "delays";
    set<int> quick = {0, 1, 3, 8, 9};
    for (size_t k = 0; k < cs.size(); ++k) {
        auto &c = cs[k];
        if (!delays && !vh::thorough && !quick.count(k)) continue;
        int parts = budget == 0 ? 1 : delays && budget == 1 ? 4 : 16;
        for (int part = 0; part < parts; ++part) {
            sched::Opts o; o.budget = budget; o.delays = delays; o.maxRuns = 1000000; o.part = part; o.parts = parts;
            vh::runCase([&] { return "load with " + c.name + vh::fmt(", merge buffer of %d, coordinate buffer of %d, %d %s, part %d of %d", c.merge, c.coord, o.budget, delays ? "delays" : "preemptions", part, parts); }, [&] {
                count(sched::explore(o, [&] { body(c, graph(n)); }, vh::arg("schedule")));
                vh::wipeAll();
            });
        }
    }
}
