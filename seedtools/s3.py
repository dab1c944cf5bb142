PRE = '#include "kbutil.h"\nusing namespace kbu;\n#include <iostream>\n'
NAT = PRE + '''#include <trident/sparql/plan.h>
#include <trident/sparql/query.h>
#include <trident/sparql/sparqloperators.h>
#include <trident/iterators/tupleiterators.h>
'''
SPQ = open('/verif/seedtools/spq.h').read()
SEEDS = [
dict(id="c04-update-order", property="C04",
  needs="a history of more than ten updates in which the eleventh undoes the second or third",
  breaks="reopening the knowledge base applies update 10 before update 2: removed triples come back",
  edits=[("src/trident/kb/kb.cpp", "    return atoi(Utils::filename(s1).c_str()) < atoi(Utils::filename(s2).c_str());\n", "    return Utils::filename(s1) < Utils::filename(s2);\n")],
  demo=PRE + r'''
#include <trident/kb/updater.h>
int main() {
    Logger::setMinLevel(100);
    Spec s; for (int i = 0; i < 3; ++i) s.g.push_back(T3{{i, 3, (i + 1) % 3}});
    s.dict = defDict(5);
    std::string dir = load(s);
    auto t = [](const char *k) { return std::string("<http://x/") + k + ">"; };
    for (int i = 0; i < 12; ++i) {
        std::string f = dir + "/../up" + std::to_string(i);
        { std::ofstream o(f); o << t("new") << " " << t("p") << " " << t("other") << " .\n"; }
        Updater u; u.creatediffupdate(i % 2 ? DiffIndex::TypeUpdate::DELETE_df : DiffIndex::TypeUpdate::ADDITION_df, dir, f);
        KBConfig c; KB kb(dir.c_str(), true, false, true, c);
        Querier *q = kb.query(); PairItr *it = q->getIterator(IDX_SPO, -1, -1, -1);
        size_t n = drain(it).size(); q->releaseItr(it); delete q;
        vh::expect(n == (i % 2 ? 3 : 4), "after update " + std::to_string(i) + " there are " + std::to_string(n) + " triples");
    }
    return 0;
}
'''),
dict(id="c22-merge-duplicates", property="C22",
  needs="a merge join of three patterns whose last pattern has several rows with the same value of the joined variable",
  breaks="rows whose join value equals the previous one are dropped or repeated",
  edits=[("src/trident/sparql/joinplan.cpp", "            if (!isBound)\n                return false;\n", "            if (!isBound && j->sourcePosIndex == 1)\n                return false;\n")],
  demo=NAT + r'''
struct Q { std::string s, p, o; };
int main() {
    Logger::setMinLevel(100);
    for (int seed = 1; seed < 12; ++seed) {
        Spec sp; unsigned h = seed * 77u;
        for (int i = 0; i < 4; ++i) for (int p = 4; p < 6; ++p) for (int j = 0; j < 4; ++j) { h = h * 1103515245u + 12345; if ((h >> 16) % 2) sp.g.push_back(T3{{i, p, j}}); }
        if (sp.g.empty()) continue;
        sp.dict = defDict(6); std::string dir = load(sp); Open k(dir);
        const char *V[] = {"a", "b", "c", "d"};
        // patterns (x p y) over four variables and two constants for the predicate
        for (int c = 0; c < 16 * 16 * 16; c += 1) {
            int v[6], x = c; for (int i = 0; i < 6; ++i) { v[i] = x & 3; x >>= 2; }
            if (v[0] == v[1] || v[2] == v[3] || v[4] == v[5]) continue;
            std::vector<Pattern *> ps; std::vector<Filter *> fs; std::set<int> used;
            for (int i = 0; i < 3; ++i) {
                Pattern *p = new Pattern; p->addVar(0, V[v[2 * i]]); p->predicate(4 + i % 2); p->addVar(2, V[v[2 * i + 1]]);
                ps.push_back(p); fs.push_back(NULL); used.insert(v[2 * i]); used.insert(v[2 * i + 1]);
            }
            std::vector<std::string> pr; for (int u : used) pr.push_back(V[u]);
            std::multiset<std::vector<long>> want, got;
            for (auto &a : sp.g) for (auto &b : sp.g) for (auto &d : sp.g) {
                if (a[1] != 4 || b[1] != 5 || d[1] != 4) continue;
                long m[4] = {-1, -1, -1, -1}; bool ok = true; const T3 *t[3] = {&a, &b, &d};
                for (int i = 0; i < 6 && ok; ++i) { long y = (*t[i / 2])[i % 2 * 2]; if (m[v[i]] < 0) m[v[i]] = y; ok = m[v[i]] == y; }
                if (!ok) continue;
                std::vector<long> r; for (int u : used) r.push_back(m[u]); want.insert(r);
            }
            Query query(ps, fs, pr); TridentQueryPlan plan(k.q.get()); plan.create(query, 0);
            TupleIterator *it = plan.getIterator(); size_t n = it->getTupleSize();
            while (it->hasNext()) { it->next(); std::vector<long> r; for (size_t i = 0; i < n; ++i) r.push_back(it->getElementAt(i)); got.insert(r); if (got.size() > 100000) break; }
            plan.releaseIterator(it);
            vh::expect(got == want, "query " + std::to_string(c) + " gives " + std::to_string(got.size()) + " rows instead of " + std::to_string(want.size()));
        }
    }
    return 0;
}
'''),
dict(id="c23-exclude-type", property="C23",
  needs="an entity that is both the subject and the object of triples with the same predicate, so that it has two groups",
  breaks="the search leaves out the group of the other direction too",
  edits=[("include/trident/ml/subgraphs.h", "                    if (subgraphs[i].t == excludeType &&\n                        subgraphs[i].rel == excludeRel &&\n                        subgraphs[i].ent == excludeEnt) {", "                    if (subgraphs[i].rel == excludeRel &&\n                        subgraphs[i].ent == excludeEnt) {")],
  conf='GROUPS_WANTED="core sparql ml"\n',
  demo=PRE + r'''
#include <trident/ml/subgraphhandler.h>
#include <trident/ml/embeddings.h>
int main() {
    Logger::setMinLevel(100);
    const int N = 7; std::string w = vh::newDir();
    { Embeddings<double> e(N, 2), r(N, 2); for (int i = 0; i < 2 * N; ++i) { e.getRaw()[i] = (i * 7 % 11) / 10.0; r.getRaw()[i] = (i * 5 % 13) / 20.0; } e.store(w + "/E", false, 1); r.store(w + "/R", false, 1); }
    Spec s; for (int i = 0; i < 5; ++i) for (int j = 0; j < 5; ++j) if (i != j) s.g.push_back(T3{{i, 5, j}});
    s.dict = defDict(N); std::string dir = load(s);
    KBConfig c; KB kb(dir.c_str(), true, false, true, c);
    { SubgraphHandler h; h.create(kb, "avg", w, w + "/sub", 1); }
    AvgSubgraphs<double> a; a.loadFromFile(w + "/sub");
    Querier *q = kb.query(); double emb[2] = {0.1, 0.2};
    std::shared_ptr<Embeddings<double>> E;
    for (int ent = 0; ent < 5; ++ent) for (int t = 0; t < 2; ++t) {
        auto ty = t ? Subgraphs<double>::SP : Subgraphs<double>::PO;
        std::vector<std::pair<double, uint64_t>> d;
        ((Subgraphs<double> *) &a)->getDistanceToAllSubgraphs(L1, q, d, emb, 2, ty, 5, ent, E);
        std::set<uint64_t> ids;
        for (auto &x : d) { auto &m = a.getMeta(x.second); vh::expect(!(m.t == ty && m.rel == 5 && m.ent == (uint64_t) ent), "the group of the query is searched"); ids.insert(x.second); }
        vh::expect(ids.size() == a.getNSubgraphs() - 1, "only " + std::to_string(ids.size()) + " of " + std::to_string(a.getNSubgraphs()) + " groups are searched");
    }
    delete q;
    return 0;
}
'''),
dict(id="c20-feedback-history", property="C20",
  needs="two rounds of feedback, where a query that was found easy in the first is hard in the second",
  breaks="positions of earlier rounds are averaged with the new ones: triples are left out of the batches although the last round says otherwise",
  edits=[("src/trident/ml/feedback.cpp", "    queries_po.clear();\n", "")],
  conf='GROUPS_WANTED="core sparql ml"\n',
  demo=PRE + r'''
#include <trident/ml/feedback.h>
int main() {
    Logger::setMinLevel(100);
    for (int thr : {2, 5, 10}) {
        Feedback f(thr, 0);
        for (int epoch = 0; epoch < 3; ++epoch) {
            f.setCurrentEpoch(epoch);
            auto o = std::make_shared<Tester<double>::OutputTest>();
            o->results.resize(1); auto &r = o->results[0]; r.s = 1; r.p = 2; r.o = 3; r.posS = epoch % 2 ? thr + 1 : 0; r.posO = thr + 3;
            f.addFeedbacks(o);
            vh::expect(f.shouldBeIncluded(1, 2, 3) == (epoch % 2 == 1), "round " + std::to_string(epoch) + " is not what counts");
        }
    }
    return 0;
}
'''),
dict(id="c05-rehash", property="C05",
  needs="a hash join whose build side grows beyond its first table, so that the table is rebuilt while a row is inserted",
  breaks="the row that triggers the rebuild is lost",
  edits=[("rdf3x/src/rts/HashJoin.cpp", "            insert(*iter);\n    insert(e);\n", "            insert(*iter);\n    if (hashTable.size() < 4096) insert(e);\n")],
  demo=SPQ + r'''
int main() {
    Logger::setMinLevel(100);
    for (int n : {30, 300, 1500, 3000}) {
        std::vector<T3> g; for (int i = 0; i < n; ++i) { g.push_back(T3{{i, n, (i * 7 + 3) % n}}); g.push_back(T3{{i, n + 1, (i * 11 + 5) % n}}); }
        std::sort(g.begin(), g.end());
        Spec s; s.g = g; for (int i = 0; i < n + 2; ++i) s.dict.push_back("<t" + std::to_string(i) + ">");
        KBConfig c; KB kb(load(s).c_str(), true, false, true, c);
        std::string p = "<t" + std::to_string(n) + ">", q = "<t" + std::to_string(n + 1) + ">";
        for (auto &text : {"?a " + p + " ?b . ?c " + q + " ?b", "?a " + p + " ?b . ?b " + q + " ?c", "?a " + p + " ?b . ?b " + q + " ?c . ?d " + p + " ?c"}) {
            size_t k = query(kb, "SELECT * WHERE { " + text + " }").size();
            vh::expect(k == (size_t) n, text + " over " + std::to_string(n) + " terms gives " + std::to_string(k) + " answers");
        }
    }
    return 0;
}
'''),
dict(id="c08-order-prefix", property="C08",
  needs="ORDER BY over strings one of which is a prefix of another",
  breaks="the longer string comes first",
  edits=[("rdf3x/src/rts/Sort.cpp", "if ((stop1 - start1) < (stop2 - start2)) return true;", "if ((stop1 - start1) > (stop2 - start2)) return true;")],
  demo=SPQ + r'''
int main() {
    Logger::setMinLevel(100);
    Spec s; s.dict = {"<s>", "<p>", "<ab>", "<abc>", "<a>", "<b>", "<abcd>"};
    for (int i = 2; i < 7; ++i) s.g.push_back(T3{{0, 1, i}});
    KBConfig c; KB kb(load(s).c_str(), true, false, true, c);
    auto up = query(kb, "SELECT ?x WHERE { <s> <p> ?x } ORDER BY ?x");
    std::string all; for (auto &r : up) all += r[0] + " ";
    vh::expect(up.size() == 5 && std::is_sorted(up.begin(), up.end()), "the order is " + all);
    return 0;
}
'''),
]
