// Exhaustive exploration of the operation sequences of a triple iterator against a sorted list.
// Protocol (as the callers use it): values are read after next(); next() only after hasNext() said true;
// moveto(c1,c2) / gotoKey(k) only directly after next(): the following hasNext()/next() resumes at the
// first row, from the current one on, that is not smaller than the target (moveto: within the current key).
// reset() returns to the position of the last mark().
#ifndef ITERX_H
#define ITERX_H
#include "kbutil.h"
namespace iterx {
struct Opts {
    std::vector<std::pair<int64_t, int64_t>> to; // targets of moveto
    std::vector<int64_t> keys;                   // targets of gotoKey (scans only)
    bool ignore = false;                         // second column ignored: rows are (key, v1, count)
    bool marks = true;
    bool counts = true;
    int maxNext = 3, blocks = 2;
};
struct Mk { std::function<PairItr *()> get; std::function<void(PairItr *)> put; };
// one block: n times next, then a jump
struct Blk { int n; int kind; int64_t a, b; };
inline std::string show(const std::vector<Blk> &s) {
    std::string r;
    for (auto &b : s) {
        r += vh::fmt("next x%d", b.n);
        if (b.kind == 1) r += vh::fmt(" moveto(%ld,%ld)", (long) b.a, (long) b.b);
        if (b.kind == 2) r += vh::fmt(" gotoKey(%ld)", (long) b.a);
        if (b.kind == 3) r += " mark";
        if (b.kind == 4) r += " reset";
        r += "; ";
    }
    return r;
}
inline void run(const std::string &what, const Mk &mk, const std::vector<T3> &rows, const Opts &o, const std::vector<Blk> &seq) {
    PairItr *it = mk.get();
    if (it->getTypeItr() == EMPTY_ITR) { if (!rows.empty()) vh::fail(what + " is empty instead of " + kbu::show(rows)); return; }
    if (o.ignore) it->ignoreSecondColumn();
    size_t pos = 0, mark = 0; bool marked = false; // pos: next row
    auto step = [&](const char *ph) -> bool {
        bool h = it->hasNext();
        if (h != (pos < rows.size())) vh::fail(what + ": " + show(seq) + ph + vh::fmt(": hasNext() says %d before row %zu of ", (int) h, pos) + kbu::show(rows));
        if (!h) return false;
        it->next();
        T3 g{{it->getKey(), it->getValue1(), o.ignore ? (o.counts ? it->getCount() : rows[pos][2]) : it->getValue2()}};
        if (g != rows[pos]) vh::fail(what + ": " + show(seq) + ph + ": got " + kbu::show({g}) + vh::fmt(" instead of row %zu of ", pos) + kbu::show(rows));
        pos++;
        return true;
    };
    for (auto &b : seq) {
        bool ok = true;
        for (int i = 0; i < b.n && ok; ++i) ok = step("");
        vh::add("transitions", b.n + 1);
        if (b.kind == 0) continue;
        if (b.kind == 3) { if (!ok) break; it->mark(); mark = pos; marked = true; continue; }
        if (b.kind == 4) { if (!marked) continue; it->reset(0); pos = mark;
            // the row of the mark is the current one again (a mark before the first row, or at the end, has none)
            if (mark && !o.ignore) {
                T3 g{{it->getKey(), it->getValue1(), it->getValue2()}};
                if (g != rows[mark - 1]) vh::fail(what + ": " + show(seq) + "after reset the current row is " + kbu::show({g}) + vh::fmt(" instead of row %zu of ", mark - 1) + kbu::show(rows));
            }
            continue; }
        if (!ok) break;
        size_t cur = pos - 1, j = cur;
        if (b.kind == 1) {
            it->moveto(b.a, b.b);
            while (j < rows.size() && rows[j][0] == rows[cur][0] && (rows[j][1] < b.a || (!o.ignore && rows[j][1] == b.a && rows[j][2] < b.b))) j++;
            pos = j;
        } else if (b.a > rows[cur][0]) { // callers only move forward
            it->gotoKey(b.a);
            while (j < rows.size() && rows[j][0] < b.a) j++;
            pos = j;
        }
    }
    while (step("drain")) {}
    vh::add("states");
    mk.put(it);
}
inline void all(const std::string &what, const Mk &mk, const std::vector<T3> &rows, const Opts &o) {
    std::vector<Blk> alpha;
    for (int n = 0; n <= o.maxNext; ++n) {
        if (n) alpha.push_back({n, 0, 0, 0});
        if (o.marks) { alpha.push_back({n, 3, 0, 0}); alpha.push_back({n, 4, 0, 0}); }
        if (n) for (auto &t : o.to) alpha.push_back({n, 1, t.first, t.second});
        if (n) for (auto k : o.keys) alpha.push_back({n, 2, k, 0});
    }
    std::vector<Blk> seq;
    std::function<void(int)> rec = [&](int d) {
        run(what, mk, rows, o, seq);
        if (d == o.blocks) return;
        for (auto &b : alpha) {
            if (b.kind == 4) { bool m = false; for (auto &x : seq) if (x.kind == 3) m = true; if (!m) continue; }
            seq.push_back(b); rec(d + 1); seq.pop_back();
        }
    };
    rec(0);
}
}
#endif
