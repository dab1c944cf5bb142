// Learning embeddings: batches, the training workflow, negative-sampling steps, ranking, stored models.
#include "kbutil.h"
#include "vsched.h"
#include <trident/ml/batch.h>
#include <trident/ml/trainworkflow.h>
#include <trident/ml/transe.h>
#include <trident/ml/transetester.h>
#include <trident/ml/distmultester.h>
#include <trident/ml/holetester.h>
#include <trident/ml/embeddings.h>
#include <trident/kb/kb.h>
#include <cmath>
#include <mutex>
using namespace std;
using namespace kbu;
using vh::fmt;
// std::random_device is a choice of the environment: the harness decides what it returns
static unsigned seedOfDevice = 1;
extern "C" unsigned _ZNSt13random_device9_M_getvalEv(void *) { return seedOfDevice; }

static vector<T3> universe() {
    vector<T3> u;
    for (int p : {1, 4}) for (int s : {0, 4}) for (int o : {1, 3}) u.push_back(T3{{s, p, o}});
    return u;
}
static string showm(const map<T3, int> &m) { string r; for (auto &e : m) r += fmt("%ld,%ld,%ldx%d ", (long) e.first[0], (long) e.first[1], (long) e.first[2], e.second); return r; }
static void same(const string &what, const map<T3, int> &got, const map<T3, int> &exp) {
    vh::add("evaluations");
    if (got != exp) vh::fail(what + " hands out " + showm(got) + "instead of " + showm(exp));
    vh::outcome(vh::hashs(what.substr(0, 30) + showm(got)));
}
static void wide(vector<T3> &g) { for (auto &t : g) { t[0] = t[0] * 300 + 1; t[2] = t[2] * 70001; } }

// ---------------------------------------------------------------- batches
static void batches() {
    auto u = universe();
    const int step = vh::thorough ? 1 : atoi(vh::arg("step", "1").c_str());
    for (int own = 0; own < 2; ++own) for (int layout = 0; layout < 6; ++layout) for (int m = 1; m < 256; m += step) {
        if (layout >= 3 && (m % (vh::thorough ? 1 : 5) || own)) continue;
        vector<T3> g; for (int i = 0; i < 8; ++i) if (m >> i & 1) g.push_back(u[i]);
        vh::runCase([&] { return fmt("batches own=%d layout=%d ", own, layout) + show(g); }, [&] {
            Spec s; s.g = g; s.dict = defDict(6); s.p.relsOwnIDs = own; s.p.storeDicts = true;
            if (layout >= 3) wide(s.g);
            if (layout == 1 || layout == 4) { s.p.enableFixedStrat = true; s.p.fixedStrat = FIXEDSTRAT5; }
            if (layout == 2 || layout == 5) { s.p.enableFixedStrat = true; s.p.fixedStrat = FIXEDSTRAT6; }
            sort(s.g.begin(), s.g.end());
            string path = load(s);
            // what the knowledge base holds, with predicates numbered densely
            vector<T3> all;
            {
                Open k(path);
                all = s.g;
                if (own) { // the relations got identifiers of their own
                    map<int64_t, int64_t> e2r;
                    PairItr *it = k.q->getIterator(IDX_SPO, -1, -1, -1);
                    vector<T3> st = drain(it); k.q->releaseItr(it);
                    for (auto &t : st) if (t[1] < 0 || t[1] > 1) vh::fail(fmt("relation %ld in a KB with two relations", (long) t[1]));
                    all = st;
                    // entities must be those of the input
                    multiset<pair<int64_t, int64_t>> a, b;
                    for (auto &t : s.g) a.insert({t[0], t[2]}); for (auto &t : st) b.insert({t[0], t[2]});
                    if (a != b) vh::fail("the entities changed when relations were separated");
                } else {
                    set<int64_t> ps; for (auto &t : all) ps.insert(t[1]);
                    for (auto &t : all) t[1] = distance(ps.begin(), ps.find(t[1]));
                }
            }
            map<T3, int> full; for (auto &t : all) full[t]++;
            for (int fromKB = 0; fromKB < 2; ++fromKB) {
                for (int bs : {1, 2, 3, 8, 9}) {
                    BatchCreator b(path, bs, 1, 0, 0, false, !fromKB, shared_ptr<Feedback>());
                    try { b.start(); } catch (int e) { if (fromKB && layout % 3 == 0) { vh::add("unsupported layouts"); break; } throw; }
                    const string nm = fmt("%s, batches of %d", fromKB ? "reading the KB" : "reading a file", bs);
                    for (int epoch = 0; epoch < 2; ++epoch) {
                        map<T3, int> got; vector<uint64_t> x, y, z; size_t n = 0, nb = 0;
                        while (b.getBatch(x, y, z)) {
                            if (x.size() != y.size() || y.size() != z.size()) vh::fail("columns of different length");
                            if (x.empty() || x.size() > (size_t) bs) vh::fail(fmt("a batch of %zu", x.size()));
                            for (size_t i = 0; i < x.size(); ++i) got[T3{{(int64_t) x[i], (int64_t) y[i], (int64_t) z[i]}}]++;
                            n += x.size(); ++nb;
                            if (nb < b.getNBatches() && x.size() != (size_t) bs) vh::fail(nm + ": an incomplete batch before the last");
                        }
                        if (nb != b.getNBatches()) vh::fail(nm + fmt(": %zu batches announced, %zu handed out", (size_t) b.getNBatches(), nb));
                        same(nm, got, full);
                        got.clear();
                        for (uint64_t i = 0; i < b.getNBatches(); ++i) {
                            if (!b.getBatchNr(i, x, y, z)) vh::fail(nm + ": an announced batch is empty");
                            for (size_t j = 0; j < x.size(); ++j) got[T3{{(int64_t) x[j], (int64_t) y[j], (int64_t) z[j]}}]++;
                        }
                        same(nm + " by number", got, full);
                        if (b.getBatchNr(b.getNBatches(), x, y, z)) vh::fail(nm + ": a batch beyond the last");
                        b.shuffle();
                    }
                    { // one column
                        map<T3, int> got; vector<uint64_t> x;
                        while (b.getBatch(x)) for (size_t i = 0; i + 2 < x.size(); i += 3) got[T3{{(int64_t) x[i], (int64_t) x[i + 1], (int64_t) x[i + 2]}}]++;
                        same(nm + " in one array", got, full);
                    }
                }
            }
            // only the triples that match a pattern
            if (layout == 0 || layout == 3) {
                set<int64_t> S{-1}, P{-1, 0, 1}, O{-1}; for (auto &t : all) S.insert(t[0]), O.insert(t[2]);
                S.insert(2); O.insert(2);
                BatchCreator b(path, 3, 1);
                for (auto a : S) for (auto p : P) for (auto o : O) {
                    if (a == -1 && p == -1 && o == -1) continue;
                    b.start(a, p, o);
                    map<T3, int> got, exp; vector<uint64_t> x, y, z;
                    while (b.getBatch(x, y, z)) for (size_t i = 0; i < x.size(); ++i) got[T3{{(int64_t) x[i], (int64_t) y[i], (int64_t) z[i]}}]++;
                    for (auto &t : all) if (match(t, a, p, o)) exp[t]++;
                    same(fmt("batches for (%ld,%ld,%ld)", (long) a, (long) p, (long) o), got, exp);
                }
            }
            vh::wipeAll();
        });
    }
}
// ---------------------------------------------------------------- splitting off validation and test sets
static void split() {
    auto u = universe();
    for (int own = 0; own < 2; ++own) for (unsigned seed = 0; seed < (vh::thorough ? 64u : 12u); ++seed) for (auto vt : vector<pair<float, float>>{{0, .5}, {.5, 0}, {.3, .3}, {.9, .9}, {1, 0}, {.1, .1}}) for (int m : {255, 1, 37, 200}) {
        vh::runCase([&] { return fmt("split own=%d seed=%u valid=%g test=%g triples=%d", own, seed, vt.first, vt.second, m); }, [&] {
            vector<T3> g; for (int i = 0; i < 8; ++i) if (m >> i & 1) g.push_back(u[i]);
            Spec s; s.g = g; sort(s.g.begin(), s.g.end()); s.dict = defDict(6); s.p.relsOwnIDs = own;
            string path = load(s);
            seedOfDevice = seed;
            map<T3, int> full;
            { Open k(path); PairItr *it = k.q->getIterator(IDX_SPO, -1, -1, -1); auto st = drain(it); k.q->releaseItr(it);
              set<int64_t> ps; for (auto &t : st) ps.insert(t[1]); for (auto t : st) { if (!own) t[1] = distance(ps.begin(), ps.find(t[1])); full[t]++; } }
            BatchCreator b(path, 2, 1, vt.first, vt.second);
            bool started = true;
            // everything may go to the other sets: there is then nothing to map
            try { b.start(); } catch (int) { started = false; vh::add("nothing to train on"); }
            map<T3, int> got; vector<uint64_t> x, y, z; size_t ntrain = 0, nv = 0, nt = 0;
            while (started && b.getBatch(x, y, z)) for (size_t i = 0; i < x.size(); ++i) got[T3{{(int64_t) x[i], (int64_t) y[i], (int64_t) z[i]}}]++, ++ntrain;
            for (int w = 0; w < 2; ++w) {
                string f = w ? b.getTestPath() : b.getValidPath();
                bool want = (w ? vt.second : vt.first) > 0;
                if (Utils::exists(f) != want) vh::fail(f + (want ? " is missing" : " should not exist"));
                if (!want || !Utils::fileSize(f)) continue;
                vector<uint64_t> v; BatchCreator::loadTriples(f, v);
                if (v.size() % 3) vh::fail("not whole triples");
                for (size_t i = 0; i < v.size(); i += 3) got[T3{{(int64_t) v[i], (int64_t) v[i + 1], (int64_t) v[i + 2]}}]++, ++(w ? nt : nv);
            }
            same("training, validation and test set together", got, full);
            vh::outcome(fmt("%zu %zu %zu", ntrain, nv, nt));
            vh::wipeAll();
        });
    }
}
// ---------------------------------------------------------------- the workflow under every schedule
struct Stub {
    static mutex *mtx; static map<T3, int> *seen; static int inside, most; static vector<map<T3, int>> *epochs; static double sumLoss; static int stores;
    shared_ptr<Embeddings<double>> E, R; int n;
    Stub(KB &, LearnParams &p) : E(new Embeddings<double>(p.ne, 2)), R(new Embeddings<double>(p.nr, 2)) {}
    void setup(int) {}
    string getName() { return "stub"; }
    shared_ptr<Embeddings<double>> getE() { return E; }
    shared_ptr<Embeddings<double>> getR() { return R; }
    bool generateViolations() { return false; }
    void getDebugger(unique_ptr<GradTracer> &) {}
    void store_model(string p, bool, int) { ++stores; ofstream o(p); o << "x"; }
    void process_batch(BatchIO &io, const uint32_t epoch, const uint16_t) {
        if (!io.q) sched::fail("a batch without a querier");
        lock_guard<mutex> l(*mtx);
        if (epochs->size() <= epoch) epochs->resize(epoch + 1);
        for (size_t i = 0; i < io.field1.size(); ++i) (*epochs)[epoch][T3{{(int64_t) io.field1[i], (int64_t) io.field2[i], (int64_t) io.field3[i]}}]++;
        for (auto x : io.field1) E->incrUpdates(x);
    }
};
mutex *Stub::mtx; map<T3, int> *Stub::seen; int Stub::inside, Stub::most, Stub::stores; vector<map<T3, int>> *Stub::epochs; double Stub::sumLoss;
static int testRuns;
struct StubTester {
    StubTester(shared_ptr<Embeddings<double>>, shared_ptr<Embeddings<double>>) {}
    shared_ptr<Tester<double>::OutputTest> test(string, vector<uint64_t> &, uint16_t, uint16_t) { ++testRuns; shared_ptr<Tester<double>::OutputTest> r(new Tester<double>::OutputTest()); r->loss = 1; return r; }
};
static void workflow() {
    auto u = universe();
    for (int n : {1, 2, 3, 5}) for (int bs : {1, 2, 3}) for (int thr = 1; thr <= 3; ++thr) for (int ep = 1; ep <= 2; ++ep) {
        if (!vh::thorough && ((thr == 3 && ep == 2) || (ep == 2 && n > 3))) continue;
        vector<T3> g(u.begin(), u.begin() + n);
        sched::Opts o; o.budget = (vh::thorough ? 2 : 1) + (thr * ep * n <= 4); o.delays = true;
        vh::runCase([&] { return fmt("training on %d triples in batches of %d with %d threads, %d epochs, %d delays", n, bs, thr, ep, o.budget); }, [&] {
            Spec s; s.g = g; sort(s.g.begin(), s.g.end()); s.dict = defDict(6);
            string path = load(s);
            map<T3, int> full; { set<int64_t> ps; for (auto &t : s.g) ps.insert(t[1]); for (auto t : s.g) { t[1] = distance(ps.begin(), ps.find(t[1])); full[t]++; } }
            { BatchCreator warm(path, 2, 1); warm.start(); } // the file is there, as in every run but the first
            KBConfig c; KB kb(path.c_str(), true, false, false, c);
            auto r = sched::explore(o, [&] {
                mutex m; vector<map<T3, int>> e; Stub::mtx = &m; Stub::epochs = &e;
                LearnParams p; p.epochs = ep; p.batchsize = bs; p.nthreads = thr; p.ne = 6; p.nr = 2; p.evalits = 10; p.storeits = 10;
                TrainWorkflow<Stub, StubTester>::launchLearning(kb, p);
                if ((int) e.size() != ep) sched::fail(fmt("%zu epochs saw batches", e.size()));
                for (auto &x : e) if (x != full) sched::fail("an epoch processed " + showm(x) + "instead of " + showm(full));
            }, vh::arg("schedule"));
            vh::add("states", r.decisions); vh::add("transitions", r.steps); vh::add("traces", r.schedules); vh::add("schedules", r.schedules);
            if (r.capped) vh::add("capped");
            if (getenv("SCHEDV")) fprintf(stderr, "case %ld: %ld schedules, %ld threads\n", vh::idx, r.schedules, r.threads);
            vh::outcome(vh::mix(r.schedules, r.steps));
            vh::wipeAll();
        });
    }
}
// ---------------------------------------------------------------- one step of TransE
struct Trans : TranseLearner { Trans(KB &kb, LearnParams &p) : TranseLearner(kb, p) {} };
static void transe() {
    // entities and relations with small exact coordinates; all batches of one or two triples with all negatives
    const int NE = 3, D = 2;
    Spec s; s.g = {T3{{0, 1, 2}}}; s.dict = defDict(3);
    string path; bool loaded = false; unique_ptr<KB> kb; KBConfig cfg;
    const double vals[4] = {-.5, .25, 1, 0};
    int nb = vh::thorough ? 64 : 16;
    for (int ada = 0; ada < 2; ++ada) for (int e = 0; e < nb; ++e) for (int mar = 0; mar < 2; ++mar) for (int sz = 1; sz <= 2; ++sz) {
        vh::runCase([&] { return fmt("TransE step adagrad=%d embeddings=%d margin=%d batches of %d", ada, e, mar, sz); }, [&] {
            if (!loaded) { path = load(s); loaded = true; kb.reset(new KB(path.c_str(), true, false, false, cfg)); }
            const float margin = mar ? .25 : 1.5, lr = .125;
            vector<double> E0(NE * D), R0(2 * D);
            for (int i = 0; i < NE * D; ++i) E0[i] = vals[(e * 7 + i * (e + 3) + i * i) % 4];
            for (int i = 0; i < NE; ++i) if (E0[i * D] == 0 && E0[i * D + 1] == 0) E0[i * D] = 1;
            for (int i = 0; i < 2 * D; ++i) R0[i] = vals[(e + i * 3 + (e >> 2)) % 4];
            vector<array<int, 5>> single; // s p o oneg sneg
            for (int a = 0; a < NE; ++a) for (int p = 0; p < 2; ++p) for (int b = 0; b < NE; ++b) for (int x = 0; x < NE; ++x) for (int y = 0; y < NE; ++y) single.push_back({{a, p, b, x, y}});
            const size_t N = single.size(), tot = sz == 1 ? N : N * N;
            const size_t stride = sz == 1 ? 1 : (vh::thorough ? 1 : 13);
            for (size_t k = 0; k < tot; k += stride) {
                vector<array<int, 5>> b{single[k % N]}; if (sz == 2) b.push_back(single[k / N]);
                LearnParams p; p.ne = NE; p.nr = 2; p.dim = D; p.margin = margin; p.learningrate = lr; p.adagrad = ada; p.batchsize = 2;
                Trans t(*kb, p);
                shared_ptr<Embeddings<double>> E(new Embeddings<double>(NE, D)), R(new Embeddings<double>(2, D));
                copy(E0.begin(), E0.end(), E->getRaw()); copy(R0.begin(), R0.end(), R->getRaw());
                unique_ptr<double> pe(new double[NE * D]()), pr(new double[2 * D]());
                vector<double> accE(NE * D, 0.), accR(2 * D, 0.);
                t.setup(1, E, R, move(pe), move(pr));
                vector<double> XE = E0, XR = R0;
                for (int rep = 0; rep < (ada ? 2 : 1); ++rep) {
                    BatchIO io(2); vector<uint64_t> on, sn;
                    for (auto &q : b) { io.field1.push_back(q[0]); io.field2.push_back(q[1]); io.field3.push_back(q[2]); on.push_back(q[3]); sn.push_back(q[4]); }
                    t.process_batch_withnegs(io, on, sn);
                    // the definition
                    vector<double> gE(NE * D, 0.), gR(2 * D, 0.); vector<int> nE(NE, 0), nR(2, 0); size_t viol = 0; bool unsure = false;
                    auto sgn = [](double x) { return x > 0 ? 1 : x < 0 ? -1 : 0; };
                    for (auto &q : b) for (int w = 0; w < 2; ++w) { // corrupted object, corrupted subject
                        int h2 = w ? q[4] : q[0], t2 = w ? q[2] : q[3]; double dp = 0, dn = 0;
                        for (int i = 0; i < D; ++i) { dp += fabs(XE[q[0] * D + i] + XR[q[1] * D + i] - XE[q[2] * D + i]); dn += fabs(XE[h2 * D + i] + XR[q[1] * D + i] - XE[t2 * D + i]); }
                        double lim = dp - dn + margin;
                        if (rep && fabs(lim) < 1e-5) unsure = true; // too close to decide in floating point
                        if (lim <= 0) continue;
                        ++viol;
                        for (int i = 0; i < D; ++i) {
                            double sp = XE[q[0] * D + i] + XR[q[1] * D + i] - XE[q[2] * D + i], sn = XE[h2 * D + i] + XR[q[1] * D + i] - XE[t2 * D + i];
                            if (rep && (fabs(sp) < 1e-6 || fabs(sn) < 1e-6)) unsure = true;
                            gE[q[0] * D + i] += sgn(sp); gE[q[2] * D + i] -= sgn(sp); gE[h2 * D + i] -= sgn(sn); gE[t2 * D + i] += sgn(sn);
                            gR[q[1] * D + i] += sgn(sp) - sgn(sn);
                        }
                        nE[q[0]]++; nE[q[2]]++; nE[h2]++; nE[t2]++; nR[q[1]] += 2;
                    }
                    if (unsure) break;
                    if (io.violations != viol) vh::fail(fmt("%zu violations instead of %zu", (size_t) io.violations, viol));
                    for (int j = 0; j < NE; ++j) if (nE[j]) {
                        double sum = 0;
                        for (int i = 0; i < D; ++i) { double g = gE[j * D + i] / nE[j], &x = XE[j * D + i]; if (ada) { accE[j * D + i] += g * g; x -= lr * g / max(sqrt(accE[j * D + i]), 1e-7); } else x -= lr * gE[j * D + i] / nE[j]; sum += x * x; }
                        if (sum < 1e-9) { unsure = true; break; }
                        for (int i = 0; i < D; ++i) XE[j * D + i] /= sqrt(sum);
                    }
                    if (unsure) break;
                    for (int j = 0; j < 2; ++j) if (nR[j]) for (int i = 0; i < D; ++i) { double g = gR[j * D + i] / nR[j], &x = XR[j * D + i]; if (ada) { accR[j * D + i] += g * g; x -= lr * g / max(sqrt(accR[j * D + i]), 1e-7); } else x -= lr * g; }
                    vh::add("evaluations");
                    for (int i = 0; i < NE * D; ++i) if (!(fabs(E->getRaw()[i] - XE[i]) < 1e-5)) vh::fail(fmt("step %zu: coordinate %d of entity %d is %g instead of %g", k, i % D, i / D, E->getRaw()[i], XE[i]));
                    for (int i = 0; i < 2 * D; ++i) if (!(fabs(R->getRaw()[i] - XR[i]) < 1e-5)) vh::fail(fmt("step %zu: coordinate %d of relation %d is %g instead of %g", k, i % D, i / D, R->getRaw()[i], XR[i]));
                    if (sz == 1) vh::outcome(vh::mix(vh::mix(viol, e), k)); else vh::outcome(vh::mix(viol, e));
                }
            }
        });
    }
}
// ---------------------------------------------------------------- ranks
template<class T> struct Tst { static shared_ptr<typename Tester<double>::OutputTest> run(T &t, vector<uint64_t> &ts, int thr) { return t.test("x", ts, thr, 0); } };
static void ranks() {
    const double vals[4] = {-.5, .25, 1, 0};
    for (int algo = 0; algo < 3; ++algo) for (int ne : {1, 2, 3, 4, 12}) for (int e = 0; e < (vh::thorough ? 512 : 64); ++e) for (int thr = 1; thr <= 3; ++thr) {
        vh::runCase([&] { return fmt("ranks with %s, %d entities, embeddings %d, %d threads", algo == 2 ? "HolE" : algo ? "DistMult" : "TransE", ne, e, thr); }, [&] {
            const int D = 2;
            shared_ptr<Embeddings<double>> E(new Embeddings<double>(ne, D)), R(new Embeddings<double>(2, D));
            uint64_t h = e + 1; for (int i = 0; i < ne * D; ++i) { h = vh::mix(h, i); E->getRaw()[i] = ne > 6 ? i / D * (i % D ? 0.25 : .5) - 1 + (h & 3) : vals[h & 3]; }
            for (int i = 0; i < 2 * D; ++i) { h = vh::mix(h, i); R->getRaw()[i] = vals[h & 3]; }
            vector<uint64_t> ts; for (int s = 0; s < min(ne, 4); ++s) for (int p = 0; p < 2; ++p) for (int o = ne - 1; o >= max(0, ne - 4); --o) { ts.push_back(s); ts.push_back(p); ts.push_back(o); }
            auto score = [&](int s, int p, int o) { double r = 0; if (algo == 2) { for (int i = 0; i < D; ++i) for (int k = 0; k < D; ++k) r += E->get(s)[i] * R->get(p)[k] * E->get(o)[(k + i) % D]; return r; } for (int i = 0; i < D; ++i) { double a = E->get(s)[i], b = R->get(p)[i], c = E->get(o)[i]; r += algo ? -a * b * c : fabs(a + b - c); } return r; };
            auto check = [&](shared_ptr<Tester<double>::OutputTest> r) {
                if (r->results.size() * 3 != ts.size()) vh::fail(fmt("%zu results for %zu triples", r->results.size(), ts.size() / 3));
                double sum = 0;
                for (size_t i = 0; i < r->results.size(); ++i) {
                    auto &q = r->results[i];
                    if (q.s != ts[i * 3] || q.p != ts[i * 3 + 1] || q.o != ts[i * 3 + 2]) vh::fail("results in another order");
                    for (int w = 0; w < 2; ++w) {
                        uint32_t pos = w ? q.posS : q.posO; uint32_t less = 0, eq = 0; double mine = score(q.s, q.p, q.o);
                        for (int x = 0; x < ne; ++x) { double y = w ? score(x, q.p, q.o) : score(q.s, q.p, x); if (fabs(y - mine) < 1e-9) ++eq; else if (y < mine) ++less; }
                        if (pos <= less || pos > less + eq) vh::fail(fmt("(%d,%d,%d): the %s is ranked %u, but %u are better and %u equal", (int) q.s, (int) q.p, (int) q.o, w ? "subject" : "object", pos, less, eq - 1));
                        sum += pos; vh::add("evaluations"); vh::outcome(fmt("%d %d %u %u %u", algo, ne, pos, less, eq));
                    }
                }
                if (fabs(r->loss - sum / 2) > 1e-9) vh::fail(fmt("loss %g, the positions sum up to %g", r->loss, sum));
            };
            if (algo == 2) { HoleTester<double> t(E, R); check(t.test("x", ts, thr, 0)); } else if (algo) { DistMulTester<double> t(E, R); check(t.test("x", ts, thr, 0)); } else { TranseTester<double> t(E, R); check(t.test("x", ts, thr, 0)); }
        });
    }
}
// ---------------------------------------------------------------- circular correlation and convolution
static void circular() {
    const double vals[3] = {-1, 0, .5};
    for (int n = 1; n <= (vh::thorough ? 33 : 20); ++n) for (int m = 0; m < 243; ++m) {
        vh::runCase([&] { return fmt("circular products of length %d, %d", n, m); }, [&] {
            vector<double> a(n), b(n); int x = m;
            for (int i = 0; i < n; ++i) { if (n <= 5) { } a[i] = vals[(m + i * (m % 5 + 1) + i * i) % 3]; b[i] = vals[(m / 3 + i * (m / 15 % 4 + 1)) % 3]; }
            (void) x;
            vector<double> c, v;
            ccorr(a.data(), b.data(), n, c); cconv(a.data(), b.data(), n, v);
            if ((int) c.size() != n || (int) v.size() != n) vh::fail("length");
            for (int i = 0; i < n; ++i) {
                double ec = 0, ev = 0; for (int k = 0; k < n; ++k) { ec += a[k] * b[(k + i) % n]; ev += a[k] * b[(i - k + n) % n]; }
                vh::add("evaluations");
                if (fabs(c[i] - ec) > 1e-6) vh::fail(fmt("correlation[%d] is %g instead of %g", i, c[i], ec));
                if (fabs(v[i] - ev) > 1e-6) vh::fail(fmt("convolution[%d] is %g instead of %g", i, v[i], ev));
                vh::outcome(fmt("%d %g %g", n, ec, ev));
            }
        });
    }
}
// ---------------------------------------------------------------- models
static void models() {
    for (int n = 1; n <= 5; ++n) for (int dim : {1, 2, 3, 64}) for (int mem = 1; mem < 2; ++mem) for (int thr = 1; thr <= 4; ++thr) for (int norm = 0; norm < 2; ++norm) {
        vh::runCase([&] { return fmt("model of %d x %d, %s, %d threads, %s", n, dim, mem ? "in memory" : "in a file", thr, norm ? "normalised" : "raw"); }, [&] {
            string d = vh::newDir(); if (chdir(d.c_str())) vh::fail("chdir");
            seedOfDevice = n * 100 + dim;
            {
                Embeddings<double> e(n, dim, mem);
                for (int i = 0; i < n * dim; ++i) e.getRaw()[i] = 1e9;
                e.init(thr, norm);
                const double lim = 6 / sqrt(n + dim);
                for (int i = 0; i < n; ++i) {
                    double s = 0; for (int j = 0; j < dim; ++j) { double v = e.get(i)[j]; if (v == 1e9) vh::fail("a parameter was not initialised"); if (!norm && fabs(v) > lim) vh::fail("a parameter outside the range"); s += v * v; }
                    if (norm && fabs(sqrt(s) - 1) > 1e-9) vh::fail(fmt("entity %d has norm %g", i, sqrt(s)));
                }
                bool thrown = false; try { e.get(n); } catch (int) { thrown = true; } if (!thrown) vh::fail("an entity beyond the last was handed out");
                for (int i = 0; i < n; ++i) { for (int k = 0; k < i; ++k) e.incrUpdates(i); if (i & 1) e.incrConflict(i); }
                e.postprocessUpdates();
                e.store(d + "/m", false, thr);
                auto l = Embeddings<double>::load(d + "/m");
                vh::add("evaluations");
                if (l->getN() != (uint32_t) n || l->getDim() != dim) vh::fail("other dimensions after loading");
                for (int i = 0; i < n * dim; ++i) if (l->getRaw()[i] != e.getRaw()[i]) vh::fail(fmt("parameter %d differs after loading", i));
                for (int i = 0; i < n; ++i) if (l->getNUpdates(i) != (uint32_t) i || l->getNConflicts(i) != (uint32_t) (i & 1)) vh::fail("statistics differ after loading");
                vh::outcome(fmt("%d %d %d %d %d", n, dim, mem, thr, norm));
            }
            if (chdir("/")) {}
            vh::wipeAll();
        });
    }
}
// ---------------------------------------------------------------- which triples feedback excludes
static void feedback() {
    for (int m = 0; m < 81; ++m) for (int thr : {1, 2, 3}) for (int full = 0; full < 2; ++full) {
        vh::runCase([&] { return fmt("feedback %d, threshold %d, %d full epochs", m, thr, full); }, [&] {
            typedef Tester<double>::OutputTest O;
            struct Q { int s, p, o, ps, po; }; vector<Q> q;
            auto round = [&](int m2) { // the results of one test
                q.clear();
                for (int i = 0, x = m2; i < 4; ++i, x /= 3) { if (x % 3 == 2) continue; Q k{i & 1, i >> 1, 2 + (i & 1), 1 + x % 3, 1 + (x % 3) * 2 + i % 2}; q.push_back(k); Q l = k; l.o = 5; l.ps = 3; l.po = 2; if (i & 1) q.push_back(l); }
                shared_ptr<O> o(new O()); o->results.resize(q.size());
                for (size_t i = 0; i < q.size(); ++i) { auto &r = o->results[i]; r.s = q[i].s; r.p = q[i].p; r.o = q[i].o; r.posS = q[i].ps; r.posO = q[i].po; }
                return o;
            };
            Feedback f(thr, full);
            for (int epoch = 0; epoch < 5; ++epoch) { // what counts is the last test
                f.setCurrentEpoch(epoch);
                if (epoch == 1) f.addFeedbacks(round(m));
                if (epoch > 2) f.addFeedbacks(round(epoch == 3 ? 80 - m : (m * 7 + 5) % 81));
                for (int s = 0; s < 3; ++s) for (int p = 0; p < 3; ++p) for (int b = 2; b < 6; ++b) {
                    double sp = 0, po = 0; int nsp = 0, npo = 0;
                    for (auto &k : q) { if (k.s == s && k.p == p) sp += k.po, ++nsp; if (k.p == p && k.o == b) po += k.ps, ++npo; }
                    bool exp = !(epoch >= full && epoch >= 1 && ((nsp && sp / nsp < thr) || (npo && po / npo < thr)));
                    vh::add("evaluations");
                    if (f.shouldBeIncluded(s, p, b) != exp) vh::fail(fmt("epoch %d: (%d,%d,%d) is %s", epoch, s, p, b, exp ? "left out" : "used"));
                    vh::outcome(fmt("%d %d %d %d", m, thr, epoch, exp));
                }
            }
        });
    }
}
void explore() {
    Logger::setMinLevel(100);
    string m = vh::arg("mode");
    if (m == "batches") batches();
    if (m == "split") split();
    if (m == "workflow") workflow();
    if (m == "transe") transe();
    if (m == "ranks") ranks();
    if (m == "models") models();
    if (m == "circular") circular();
    if (m == "feedback") feedback();
}
