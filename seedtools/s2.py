PRE = '#include "kbutil.h"\nusing namespace kbu;\n#include <iostream>\n'
TREE = PRE + r'''
#include <trident/tree/root.h>
#include <trident/tree/stringbuffer.h>
#include <trident/kb/statistics.h>
'''
SEEDS = [
dict(id="c09-split-ids", property="C09",
  needs="a tree whose cache is smaller than the tree, and a split of an inner node in its right half while neighbouring children are not in memory",
  breaks="the ids of the children that are only on disk are not shifted, so later lookups descend into the wrong node",
  edits=[("src/trident/tree/intermediatenode.cpp", "                memmove(n1->idChildren + p + 2, n1->idChildren + p + 1,\n                        sizeof(int64_t) * (minSize - p - 1));\n", "                memmove(n1->idChildren + p + 2, n1->idChildren + p + 1,\n                        sizeof(int) * (minSize - p - 1));\n")],
  demo=TREE + r'''
int main() {
    Logger::setMinLevel(100);
    for (int step : {1, 3, 7, 11}) {
        std::string d = "tree" + std::to_string(step);
        Utils::create_directories(d);
        PropertyMap m;
        m.setBool(TEXT_KEYS, false); m.setBool(TEXT_VALUES, true); m.setBool(COMPRESSED_NODES, false);
        m.setInt(MAX_EL_PER_NODE, 8); m.setInt(MAX_NODES_IN_CACHE, 12); m.setInt(FILE_MAX_SIZE, 1 << 20); m.setInt(NODE_MIN_BYTES, 1);
        m.setLong(CACHE_MAX_SIZE, 1 << 20); m.setInt(MAX_N_OPENED_FILES, 4); m.setInt(LEAF_SIZE_FACTORY, 2); m.setInt(LEAF_SIZE_PREALL_FACTORY, 2);
        const int N = 1009;
        Root r(d, NULL, false, m);
        for (int i = 0; i < N; ++i) { nTerm k = (i * 331L * step + 5) % N; r.put(k, (int64_t) k * 10 + 1); }
        for (int i = 0; i < N; ++i) {
            int64_t v = 0;
            bool f = r.get((nTerm) i, v);
            vh::expect(f && v == (int64_t) i * 10 + 1, "key " + std::to_string(i) + " is lost");
        }
    }
    return 0;
}
'''),
dict(id="c10-base-entry", property="C10",
  needs="a block of the string store that is filled up in the middle of a run of terms with a common prefix, and a recycled buffer for the next block",
  breaks="the first terms of the new block refer to a base entry of the previous block",
  edits=[("src/trident/tree/stringbuffer.cpp", "    sizeBaseEntry = 0;\n    entriesSinceBaseEntry = 0;\n}\n\nvoid StringBuffer::uncompressBlock", "    entriesSinceBaseEntry = 0;\n}\n\nvoid StringBuffer::uncompressBlock")],
  demo=TREE + r'''
int main() {
    Logger::setMinLevel(100);
    for (int len = 20; len < 60; ++len) {
        std::string d = "sb" + std::to_string(len);
        Utils::create_directories(d);
        Stats st; std::vector<std::pair<int64_t, std::string>> all;
        for (int ro = 0; ro < 2; ++ro) {
            StringBuffer sb(d, ro, 10, 0, &st);
            if (!ro) for (int i = 0; i < 9000; ++i) {
                std::string s = "http://www.example.org/" + std::string(len, 'x') + std::to_string(100000 + i * 7919 % 90000);
                all.push_back({sb.getSize(), s});
                std::vector<char> c(s.begin(), s.end()); c.push_back(0);
                sb.append(c.data(), s.size());
            } else for (auto &e : all) {
                static char out[MAX_TERM_SIZE]; int n = 0;
                sb.get(e.first, out, n);
                vh::expect(std::string(out, n) == e.second, "entry at " + std::to_string(e.first) + " reads as " + std::string(out, n > 0 && n < 200 ? n : 0) + " instead of " + e.second);
            }
        }
    }
    return 0;
}
'''),
dict(id="c02-row-cardinality", property="C02",
  needs="a row-layout table, and a count asked after a part of the table was read",
  breaks="the number of triples of a pattern is short of the rows that were already read",
  edits=[("include/trident/binarytables/newrowtable.h", "                return (end - start) / (Reader1::size() + Reader2::size());", "                return (end - current) / (Reader1::size() + Reader2::size());")],
  demo=PRE + r'''
int main() {
    Logger::setMinLevel(100);
    Spec s;
    for (int i = 1; i < 4; ++i) for (int j = 0; j < 3; ++j) s.g.push_back(T3{{0, i, 10 + 10 * i + j}});
    s.dict = defDict(60);
    s.p.enableFixedStrat = true;
    for (int st : {(int) FIXEDSTRAT5, (int) FIXEDSTRAT6, (int) FIXEDSTRAT7}) {
        s.p.fixedStrat = st;
        Open k(load(s));
        PairItr *it = k.q->getIterator(IDX_SPO, 0, -1, -1);
        vh::expect(it->hasNext(), "rows"); it->next();
        vh::expect(it->getCardinality() == 9, "9 triples, not " + std::to_string(it->getCardinality()));
        k.q->releaseItr(it);
        vh::expect(k.q->getCard(0, 2, -1) == 3, "3 triples, not " + std::to_string(k.q->getCard(0, 2, -1)));
    }
    return 0;
}
'''),
dict(id="c04-column-width", property="C04",
  needs="an update with at least 64 triples of one term, one of whose two tables is stored in columns and the other in rows, and terms whose numbers need different numbers of bytes",
  breaks="the second column is as wide as the smallest term needs, so the larger numbers are truncated",
  edits=[("src/trident/kb/diffindex3.cpp", "    strat2 = StorageStrat::setStorageType(strat2, NEWCOLUMN_ITR);\n    const uint8_t bytesPerFirstEntry = Utils::numBytesFixedLength(tmp1.back() >> 32);", "    strat2 = StorageStrat::setStorageType(strat2, NEWCOLUMN_ITR);\n    const uint8_t bytesPerFirstEntry = Utils::numBytesFixedLength(tmp1.front() >> 32);")],
  demo=PRE + r'''
#include <trident/kb/updater.h>
#include <fstream>
int main() {
    Logger::setMinLevel(100);
    for (int sw = 0; sw < 2; ++sw) {
        Spec s;
        s.g = {T3{{0, 1, 2}}, T3{{3, 1, 3}}};
        s.dict = defDict(600);
        std::string kb = load(s);
        std::vector<T3> want;
        for (int i = 0; i < 100; ++i) want.push_back(sw ? T3{{i * 5 + 10, 2, 5}} : T3{{5, 2, i * 5 + 10}});
        { std::ofstream o("up.nt"); for (auto &t : want) o << s.dict[t[0]] << " " << s.dict[t[1]] << " " << s.dict[t[2]] << " .\n"; o << s.dict[8] << " " << s.dict[2] << " " << s.dict[9] << " .\n"; }
        want.push_back(T3{{8, 2, 9}});
        std::sort(want.begin(), want.end());
        Updater up;
        up.creatediffupdate(DiffIndex::TypeUpdate::ADDITION_df, kb, "up.nt");
        Open k(kb, true);
        for (int idx : {(int) IDX_POS, (int) IDX_PSO}) {
            PairItr *it = k.q->getIterator(idx, -1, 2, -1);
            std::vector<T3> v;
            while (it->hasNext()) { it->next(); v.push_back(idx == IDX_POS ? T3{{it->getValue2(), 2, it->getValue1()}} : T3{{it->getValue1(), 2, it->getValue2()}}); }
            k.q->releaseItr(it);
            std::sort(v.begin(), v.end());
            vh::expect(v == want, "index " + std::to_string(idx) + ": the added triples read back differently");
        }
    }
    return 0;
}
'''),
]
