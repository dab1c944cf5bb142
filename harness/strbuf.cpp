// The string buffer of the dictionary: every short history of appends around a block boundary,
// interleaved with reads and comparisons, then reopened; and every sequence of reads over more
// blocks than the cache holds.
#include "vh.h"
#include <trident/tree/stringbuffer.h>
#include <trident/kb/statistics.h>
#include <kognac/logs.h>
#include <memory>
using namespace std;
static const int B = SB_BLOCK_SIZE;
struct Buf {
    string dir; Stats st; unique_ptr<StringBuffer> sb;
    vector<pair<int64_t, string>> all; // position, text
    Buf(const string &d) : dir(d) { sb.reset(new StringBuffer(d, false, 10, 0, &st)); }
    void append(const string &s) {
        all.push_back({sb->getSize(), s});
        vector<char> c(s.begin(), s.end()); c.push_back(0);
        sb->append(c.data(), (int) s.size());
    }
    void reopen() { sb.reset(); sb.reset(new StringBuffer(dir, true, 10, 0, &st)); }
    void check(size_t i, const char *when) {
        auto &e = all[i];
        static vector<char> out(MAX_TERM_SIZE);
        int n = -1;
        sb->get(e.first, out.data(), n);
        if (n != (int) e.second.size() || memcmp(out.data(), e.second.data(), n)) vh::fail(vh::fmt("%s: entry %zu at %ld (offset %ld) reads as %d bytes '%.30s' instead of %zu bytes '%.30s'", when, i, (long) e.first, (long) e.first % B, n, out.data(), e.second.size(), e.second.c_str()));
        n = -1;
        char *p = sb->get(e.first, n);
        if (n != (int) e.second.size() || memcmp(p, e.second.data(), n + 1)) vh::fail(vh::fmt("%s: entry %zu at %ld reads differently the second time", when, i, (long) e.first));
        vh::add("transitions", 2);
    }
    void cmp(size_t i, const string &probe, const char *when) {
        vector<char> c(probe.begin(), probe.end()); c.push_back(0);
        int r = sb->cmp(all[i].first, c.data(), (int) probe.size());
        int o = all[i].second.compare(probe); // char_traits<char>::compare is unsigned
        if ((r < 0) != (o < 0) || (r > 0) != (o > 0)) vh::fail(vh::fmt("%s: entry %zu '%.30s' (offset %ld) compared with '%.30s' (%zu bytes) gives %d, expected the sign of %d", when, i, all[i].second.c_str(), (long) all[i].first % B, probe.c_str(), probe.size(), r, o));
        vh::add("transitions");
    }
    // append entries without common prefixes until the offset of the next entry is 'target' of the current block
    void fill(int target, int blocks = 0) {
        int64_t end = (int64_t) blocks * B + target;
        int k = 0;
        while (sb->getSize() < end) {
            int64_t rem = end - sb->getSize();
            int len = 3000;
            if (rem < 3003) len = rem > 65 ? (rem <= 130 ? 60 : (int) rem - 3) : (int) rem - 2;
            if (len < 0) vh::fail("harness: cannot fill");
            string s(len, char('a' + k % 23));
            if (len > 6) for (int i = 0; i < 4; ++i) s[1 + i] = char('0' + (k >> (3 * i)) % 8);
            k++;
            append(s);
        }
        if (sb->getSize() != end) vh::fail(vh::fmt("harness: filled to %ld instead of %ld", (long) sb->getSize(), (long) end));
    }
};
static vector<string> alphabet() {
    return { "", "x", "commonp", "commonpQ", "commonprefix" + string(300, 'y') + "1", "commonprefix" + string(300, 'y') + "2", "commonprefix", "\x7f\x80\xff_bytes", string(9000, 'L'), string(65535, 'M') };
}
static vector<string> probes() {
    vector<string> p = alphabet();
    for (auto &s : vector<string>(p)) { p.push_back(s + "a"); if (s.size() > 1) { p.push_back(s.substr(0, s.size() - 1)); string t = s; t.back() = char(t.back() + 1); p.push_back(t); t = s; t[s.size() / 2] = '\xfe'; p.push_back(t); } }
    p.push_back("\xc3\xa9"); p.push_back("comm"); p.push_back("commonpr"); p.push_back(string(70000, 'L'));
    sort(p.begin(), p.end()); p.erase(unique(p.begin(), p.end()), p.end());
    return p;
}
void explore() {
    Logger::setMinLevel(100);
    string mode = vh::arg("mode", "boundary");
    vector<string> al = alphabet(), pr = probes();
    if (mode == "boundary") {
        int depth = atoi(vh::arg("depth", "2").c_str()) + (vh::thorough ? 1 : 0), n = (int) al.size();
        long total = 1; for (int i = 0; i < depth; ++i) total *= n;
        set<int> gaps;
        for (int d = 0; d <= 26; ++d) if (d != 1) gaps.insert(d);
        for (int d = 290; d <= (vh::thorough ? 340 : 330); d += vh::thorough ? 1 : 3) gaps.insert(d);
        for (int d : {0, 1}) gaps.insert(630 + d);
        for (int gap : gaps) for (long c = 0; c < total; ++c) {
            vector<int> seq; long x = c; for (int i = 0; i < depth; ++i) { seq.push_back(x % n); x /= n; }
            vh::runCase([&] { return vh::fmt("entry starts %d bytes before the end of a block; appended ", gap) + vh::str(seq); }, [&] {
                Buf b(vh::newDir());
                b.fill(B - gap);
                size_t base = b.all.size();
                for (int i : seq) {
                    b.append(al[i]);
                    for (size_t j = base; j < b.all.size(); ++j) b.check(j, "while writing");
                    for (size_t j = base; j < b.all.size(); ++j) for (auto &p : pr) b.cmp(j, p, "while writing");
                }
                b.check(0, "while writing");
                b.reopen();
                for (size_t j = b.all.size(); j-- > base;) b.check(j, "reopened");
                for (size_t j = 0; j < b.all.size(); ++j) b.check(j, "reopened");
                for (size_t j = base; j < b.all.size(); ++j) for (auto &p : pr) b.cmp(j, p, "reopened");
                vh::add("states"); vh::add("traces");
                vh::outcome(vh::mix(gap, c));
            });
            vh::wipeAll();
        }
    } else if (mode == "end") { // the last entry ends d bytes before or after the end of block k
        for (int blocks = 0; blocks < 3; ++blocks) for (int d = -3; d <= 3; ++d) for (int last : {0, 1, 5, 200}) {
            vh::runCase([&] { return vh::fmt("the buffer ends %d bytes after the end of block %d, last entry of %d bytes", d, blocks, last); }, [&] {
                Buf b(vh::newDir());
                int hdr = last >= 128 ? 3 : 2;
                b.fill(B + d - hdr - last, blocks);
                b.append(string(last, 'z'));
                if (b.sb->getSize() != (int64_t) (blocks + 1) * B + d) vh::fail("harness: size");
                for (size_t j = 0; j < b.all.size(); ++j) b.check(j, "while writing");
                b.reopen();
                for (size_t j = b.all.size(); j-- > 0;) b.check(j, "reopened");
                for (size_t j = 0; j < b.all.size(); ++j) for (auto &p : pr) if (j < 2 || j + 2 >= b.all.size()) b.cmp(j, p, "reopened");
                vh::add("states"); vh::add("traces"); vh::outcome(vh::mix(d, vh::mix(blocks, last)));
            });
            vh::wipeAll();
        }
    } else if (mode == "cache") { // all sequences of reads of one entry per block
        int nb = atoi(vh::arg("blocks", "8").c_str()), depth = atoi(vh::arg("depth", "4").c_str()) + (vh::thorough ? 1 : 0);
        for (int straddle = 0; straddle < 2; ++straddle) for (int ro = 0; ro < 2; ++ro) for (int first = 0; first < nb; ++first) for (int second = 0; second < nb; ++second) {
            vh::runCase([&] { return vh::fmt("%d blocks, %s, entries %s, reads of blocks %d %d ...", nb, ro ? "reopened" : "while writing", straddle ? "over two blocks" : "in one block", first, second); }, [&] {
                Buf b(vh::newDir());
                vector<size_t> entry;
                for (int i = 0; i < nb; ++i) {
                    b.fill(straddle ? B - 20 : B / 2, i);
                    entry.push_back(b.all.size());
                    b.append(vh::fmt("the entry of block %d: %s", i, string(80, char('A' + i)).c_str()));
                }
                if (ro) b.reopen();
                long rest = 1; for (int i = 2; i < depth; ++i) rest *= nb;
                for (long c = 0; c < rest; ++c) {
                    b.check(entry[first], "read"); b.check(entry[second], "read");
                    long x = c; for (int i = 2; i < depth; ++i) { b.check(entry[x % nb], "read"); x /= nb; }
                    if (!ro && c % 16 == 0) { b.append(vh::fmt("more %ld", c)); b.check(b.all.size() - 1, "read"); }
                    vh::add("states");
                }
                vh::add("traces");
                vh::outcome(vh::mix(first, vh::mix(second, ro * 2 + straddle)));
            });
            vh::wipeAll();
        }
    }
}
