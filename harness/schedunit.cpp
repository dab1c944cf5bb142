// Concurrency primitives under every schedule within a preemption bound.
#include "vh.h"
#include "vsched.h"
#include <trident/utils/parallel.h>
#include <trident/tree/stringbuffer.h>
#include <trident/kb/statistics.h>
#include <kognac/logs.h>
#include <memory>
#include <thread>
using namespace std;
static void count(const sched::Result &r) {
    vh::add("states", r.decisions); vh::add("transitions", r.steps); vh::add("traces", r.schedules); vh::add("schedules", r.schedules);
    if (r.capped) vh::add("capped");
    if (getenv("SCHEDV")) fprintf(stderr, "case %ld: %ld schedules, %ld steps, %ld decisions, %ld threads%s\n", vh::idx, r.schedules, r.steps, r.decisions, r.threads, r.capped ? " CAPPED" : "");
    vh::outcome(vh::mix(r.schedules, vh::mix(r.steps, r.threads)));
}
static void scen(sched::Opts o, const string &d, const function<void()> &body) {
    o.budget = max(0, o.budget - atoi(vh::arg("less", "0").c_str()));
    vh::runCase([&] { return d + vh::fmt(", %d %s", o.budget, o.delays ? "delays" : "preemptions"); }, [&] {
        count(sched::explore(o, body, vh::arg("schedule")));
        vh::wipeAll();
    });
}
static void queues() {
    int b = vh::thorough ? 3 : 2;
    for (int p = 1; p <= 2; ++p) for (int c = 1; c <= 2; ++c) for (int n = 1; n <= 3; ++n) for (int pre = 0; pre <= 1; ++pre) for (int spur = 0; spur < 2; ++spur) {
        sched::Opts o; o.budget = p + c > 3 && n > 1 && !vh::thorough ? 1 : b; if (p + c == 2 || (p + c == 3 && n == 1)) ++o.budget;
        if (spur) o.budget = max(1, o.budget - 1); o.spurious = spur; o.unlockPoints = p + c < 4;
        int total = p * n + pre;
        if (total % c) continue;
        scen(o, vh::fmt("ConcurrentQueue, %d producers of %d, %d consumers, %d items before%s", p, n, c, pre, spur ? ", spurious wake-ups" : ""), [=] {
            ConcurrentQueue<int> q; vector<vector<int>> got(c); vector<thread> t;
            if (pre) q.push(1000);
            for (int i = 0; i < c; ++i) t.emplace_back([&q, &got, i, total, c] { for (int k = 0; k < total / c; ++k) { int x = -1; q.pop_wait(x); got[i].push_back(x); } });
            for (int i = 0; i < p; ++i) t.emplace_back([&q, i, n] { for (int k = 0; k < n; ++k) q.push(i * 10 + k); });
            for (auto &x : t) x.join();
            map<int, int> cnt; for (auto &g : got) { map<int, int> last; for (int x : g) { cnt[x]++; int &l = last[x / 10]; if (l > x % 10 + 1) sched::fail("items of one producer were consumed out of order by one consumer"); l = x % 10 + 1; } }
            int exp = 0;
            for (auto &e : cnt) { if (e.second != 1) sched::fail(vh::fmt("item %d consumed %d times", e.first, e.second)); ++exp; }
            if (exp != total) sched::fail(vh::fmt("%d items of %d consumed", exp, total));
            if (!q.isEmpty()) sched::fail("queue not empty at the end");
        });
    }
}
struct Body { vector<int> *cnt; void operator()(const ParallelRange &r) const { for (size_t i = r.begin(); i < r.end(); ++i) { if (i % 2) sched::point(); if (i >= cnt->size()) sched::fail(vh::fmt("index %zu processed", i)); (*cnt)[i]++; } } };
static void pfor() {
    for (int th = 1; th <= 5; ++th) for (int b = 0; b <= 7; ++b) for (int e = b; e <= 12; ++e) for (int g : {1, 2, 5, 20}) {
        if (!vh::thorough && b != 0 && b != 3 && b != 7) continue;
        sched::Opts o; o.budget = vh::thorough ? 2 : 1;
        scen(o, vh::fmt("parallel_for(%d, %d, %d) with %d threads", b, e, g, th), [=] {
            vector<int> cnt(20, 0);
            ParallelTasks::parallel_for((size_t) b, (size_t) e, (size_t) g, Body{&cnt}, th);
            for (int i = 0; i < 20; ++i) if (cnt[i] != (i >= b && i < e)) sched::fail(vh::fmt("index %d processed %d times", i, cnt[i]));
        });
    }
}
static bool less10(const int &a, const int &b) { return a / 10 < b / 10; }
static void sorts() {
    for (int th = 1; th <= 5; ++th) for (int n : {0, 1, 1023, 1024, 1025, 1026, 2048, 2049, 2051, 4097, 5000}) for (int pat = 0; pat < 6; ++pat) for (int cmp = 0; cmp < 2; ++cmp) {
        sched::Opts o; o.budget = vh::thorough ? 2 : 1;
        scen(o, vh::fmt("sort_int of %d values (pattern %d) with %d threads%s", n, pat, th, cmp ? " and a comparator" : ""), [=] {
            vector<int> v(n); for (int i = 0; i < n; ++i) v[i] = pat == 0 ? i : pat == 1 ? n - i : pat == 2 ? i % 7 : pat == 3 ? (i * 7919) % 1000 : pat == 4 ? (i < n / 2 ? i + n : i) : 5;
            vector<int> w = v; sort(w.begin(), w.end());
            if (cmp) { bool (*f)(const int &, const int &) = less10; ParallelTasks::sort_int(v.begin(), v.end(), f, th); for (size_t i = 1; i < v.size(); ++i) if (less10(v[i], v[i - 1])) sched::fail("not sorted"); sort(v.begin(), v.end()); }
            else ParallelTasks::sort_int(v.begin(), v.end(), th);
            if (v != w) sched::fail("not a sorted permutation of the input");
        });
    }
}
static string entry(int i, int len) { string s(len, char('a' + i % 23)); for (size_t j = 0; j < s.size(); j += 37) s[j] = char('0' + (i + j) % 10); return s; }
static void strbuf() {
    // each string is an append of so many bytes (letters) or a read of an earlier entry (digits)
    // a: tiny, b: half a block, c: nearly a block
    vector<string> progs = { "", "a", "c", "cc", "ccc", "cccccc", "bbbbbbbbb", "cccc0", "ccccc01", "ccccc10c0", "cccccc0c1c2", "ccccccc012345", "bcbcbcb0b1b2", "ccc0c1c0c1c0", "cccc0cc1cc2cc3", "ccccccccc0123456780" };
    for (auto &pr : progs) for (int cache : {5, 6, 8}) for (int mode = 0; mode < 3; ++mode) {
        sched::Opts o; o.budget = mode == 0 ? (vh::thorough ? 3 : 2) : (vh::thorough ? 2 : 1); o.spurious = mode == 1; o.unlockPoints = mode == 2;
        o.maxRuns = vh::thorough ? 40000 : 3000;
        if (mode && cache != 5) continue;
        scen(o, "StringBuffer writer and compression thread: " + pr + vh::fmt(", %d blocks in cache%s", cache, mode == 1 ? ", spurious wake-ups" : mode == 2 ? ", preemption after unlock" : ""), [=] {
            string dir = vh::newDir(); Stats st;
            vector<pair<int64_t, string>> all; static vector<char> out(MAX_TERM_SIZE);
            {
                StringBuffer sb(dir, false, 10, (int64_t) cache * SB_BLOCK_SIZE, &st);
                for (char ch : pr) {
                    if (ch >= '0' && ch <= '9') {
                        int n; auto &e = all[ch - '0']; sb.get(e.first, out.data(), n);
                        if (n != (int) e.second.size() || memcmp(out.data(), e.second.data(), n)) sched::fail(vh::fmt("entry %c reads differently while writing", ch));
                        if (sb.cmp(e.first, (char *) e.second.c_str(), e.second.size()) != 0) sched::fail(vh::fmt("entry %c compares differently while writing", ch));
                    } else {
                        string s = entry(all.size(), ch == 'a' ? 10 : ch == 'b' ? 33000 : 65400);
                        all.push_back({sb.getSize(), s}); sb.append((char *) s.c_str(), s.size());
                    }
                }
            }
            StringBuffer rd(dir, true, 10, (int64_t) 8 * SB_BLOCK_SIZE, &st);
            for (size_t i = 0; i < all.size(); ++i) { int n; rd.get(all[i].first, out.data(), n); if (n != (int) all[i].second.size() || memcmp(out.data(), all[i].second.data(), n)) sched::fail(vh::fmt("entry %zu reads differently after reopening", i)); }
            vh::wipe(dir);
        });
    }
}
void explore() {
    Logger::setMinLevel(100);
    string m = vh::arg("mode", "queue");
    if (m == "queue") queues(); else if (m == "pfor") pfor(); else if (m == "sort") sorts(); else if (m == "strbuf") strbuf();
}
