PRE = '#include "kbutil.h"\nusing namespace kbu;\n#include <iostream>\n'
SEEDS = [
dict(id="c01-last-group-width", property="C01",
  needs="a column-layout table whose largest group of equal first values is the last one and needs a wider counter than every group before it",
  breaks="the last group is not considered when the width of the group counters is chosen, so its counter is truncated and triples disappear",
  edits=[("src/trident/binarytables/newcolumntableinserter.cpp", "    if (totalsize2 - prevtotalsize2 > largestGroup) {\n        largestGroup = totalsize2 - prevtotalsize2;\n    }\n\n    //First determine", "    if (largestGroup == 0) {\n        largestGroup = totalsize2 - prevtotalsize2;\n    }\n\n    //First determine")],
  demo=PRE + r'''
int main() {
    Logger::setMinLevel(100);
    Spec s;
    for (int i = 0; i < 300; ++i) s.g.push_back(T3{{0, i, 5 + i}});
    for (int j = 0; j < 700; ++j) s.g.push_back(T3{{0, 300, 10 + j}});
    std::sort(s.g.begin(), s.g.end());
    s.dict = defDict(800);
    s.p.enableFixedStrat = true; s.p.fixedStrat = FIXEDSTRAT6; // column layout
    for (int st : {(int) FIXEDSTRAT5, (int) FIXEDSTRAT6, (int) FIXEDSTRAT7}) {
        s.p.fixedStrat = st;
        Open k(load(s));
        PairItr *it = k.q->getIterator(IDX_SPO, 0, -1, -1);
        std::vector<T3> r = drain(it);
        k.q->releaseItr(it);
        vh::expect(r == s.g, "scan of subject 0 returned " + std::to_string(r.size()) + " triples instead of " + std::to_string(s.g.size()));
    }
    return 0;
}
'''),
dict(id="c03-cluster-mark-group", property="C03",
  needs="mark inside a group of a cluster-layout table, moving on, reset and reading on beyond the end of that group",
  breaks="after reset the iterator believes that more pairs of the group follow and invents results",
  edits=[("include/trident/binarytables/newclustertable.h", "            m_count = count;\n", "            m_count = countgroup;\n")],
  demo=PRE + r'''
int main() {
    Logger::setMinLevel(100);
    Spec s;
    for (int i = 1; i < 4; ++i) for (int j = 0; j < 3; ++j) s.g.push_back(T3{{0, i, 10 + 10 * i + j}});
    s.dict = defDict(60);
    s.p.enableFixedStrat = true;
    for (int st : {(int) FIXEDSTRAT5, (int) FIXEDSTRAT6, (int) FIXEDSTRAT7}) {
        s.p.fixedStrat = st;
        Open k(load(s));
        PairItr *it = k.q->getIterator(IDX_SPO, 0, -1, -1);
        for (int n = 0; n < 2; ++n) { vh::expect(it->hasNext(), "has"); it->next(); } // middle of group 1
        it->mark();
        it->hasNext(); it->next();
        it->reset(0);
        std::vector<T3> r;
        while (it->hasNext() && r.size() < 20) { it->next(); r.push_back(T3{{it->getKey(), it->getValue1(), it->getValue2()}}); }
        vh::expect(r == std::vector<T3>(s.g.begin() + 2, s.g.end()), "after reset: " + show(r));
        k.q->releaseItr(it);
    }
    return 0;
}
'''),
dict(id="c03-term-reset-count", property="C03",
  needs="a list of keys that is marked, advanced, counted, and reset before the count is asked again",
  breaks="the number of occurrences reported after reset is that of the later key",
  edits=[("src/trident/iterators/termitr.cpp", "    cachedCount = m_cachedCount;\n", "")],
  demo=PRE + r'''
int main() {
    Logger::setMinLevel(100);
    Spec s;
    for (int i = 0; i < 4; ++i) for (int j = 0; j <= i; ++j) s.g.push_back(T3{{i, 5, 10 + j}});
    s.dict = defDict(60);
    Open k(load(s));
    PairItr *it = k.q->getTermList(IDX_SPO);
    it->hasNext(); it->next(); it->hasNext(); it->next();
    it->mark();
    it->hasNext(); it->next();
    vh::expect(it->getCount() == 3, "count of the third key");
    it->reset(0);
    vh::expect(it->getKey() == 1, "key after reset");
    vh::expect(it->getCount() == 2, "count after reset is " + std::to_string(it->getCount()));
    k.q->releaseItr(it);
    return 0;
}
'''),
]
