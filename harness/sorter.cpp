// The external sort behind the permutations: whatever the number of files, rounds (memory), threads and readers, the
// sorted chunks of every requested permutation together are the triples that were given, each chunk in order.
#include "vh.h"
#include <trident/kb/permsorter.h>
#include <trident/kb/consts.h>
#include <kognac/kshim.h>
#include <array>
#include <fstream>
using namespace std;
typedef array<int64_t, 4> Q; // three terms and a count
static const int ORD[6][3] = {{0,1,2},{2,1,0},{1,2,0},{0,2,1},{2,0,1},{1,0,2}};
static string show(const Q &q) { return vh::fmt("%ld,%ld,%ld", (long) q[0], (long) q[1], (long) q[2]); }
struct P { vector<vector<Q>> files; int threads, io, mem; long est; bool count; vector<int> perms; };
static void one(const P &p) {
    vh::runCase([&] { string s = vh::fmt("threads=%d io=%d room=%d est=%ld%s perms=", p.threads, p.io, p.mem, p.est, p.count ? " counts" : "") + vh::str(p.perms); for (auto &f : p.files) { s += " {"; for (size_t i = 0; i < f.size() && i < 8; ++i) s += " " + show(f[i]); s += f.size() > 8 ? vh::fmt(" ..%zu }", f.size()) : " }"; } return s; }, [&] {
        size_t sz = p.count ? 23 : 15;
        Utils::shimSystemMemory = (uint64_t) ((p.mem * sz + sz / 2) / 0.6);
        string b = vh::newDir();
        vector<pair<string, char>> perms;
        for (int x : p.perms) { string d = b + "/p" + to_string(x); Utils::create_directories(d); perms.push_back(make_pair(d, (char) x)); }
        vector<Q> all;
        for (size_t i = 0; i < p.files.size(); ++i) {
            LZ4Writer w(perms[0].first + "/input-" + to_string(i));
            if (p.count) w.writeByte(1);
            for (auto &q : p.files[i]) { for (int k = 0; k < (p.count ? 4 : 3); ++k) w.writeLong(q[k]); all.push_back(q); }
        }
        PermSorter::sortChunks2(perms, p.io, p.threads, p.est, p.count);
        int first = p.perms[0], rounds = 0;
        for (size_t i = 0; i < perms.size(); ++i) {
            vector<Q> want, got;
            for (auto &q : all) {
                int64_t t[3]; for (int k = 0; k < 3; ++k) t[ORD[first][k]] = q[k]; // the input is in the order of the first permutation
                want.push_back(Q{{t[ORD[p.perms[i]][0]], t[ORD[p.perms[i]][1]], t[ORD[p.perms[i]][2]], p.count ? q[3] : 0}});
            }
            map<string, vector<string>> chunks;
            for (auto &f : Utils::getFiles(perms[i].first, false)) {
                string n = Utils::filename(f);
                size_t d = n.rfind('.');
                if (n.compare(0, 12, "sortedchunk-") || d == string::npos) vh::fail("unexpected file " + n);
                chunks[n.substr(0, d)].push_back(f);
            }
            if (i == 0) rounds = chunks.size(); else if ((int) chunks.size() != rounds) vh::fail("permutations have different numbers of chunks");
            for (auto &c : chunks) {
                vector<string> fs = c.second;
                sort(fs.begin(), fs.end(), [](const string &a, const string &b) { return atoi(a.c_str() + a.rfind('.') + 1) < atoi(b.c_str() + b.rfind('.') + 1); });
                size_t from = got.size();
                for (auto &f : fs) { LZ4Reader r(f); while (!r.isEof()) { Triple t; t.readFrom(&r); got.push_back(Q{{t.s, t.p, t.o, t.count}}); } }
                for (size_t k = from + 1; k < got.size(); ++k) if (got[k] < got[k - 1]) vh::fail("chunk " + c.first + " of permutation " + to_string(p.perms[i]) + " is not in order: " + show(got[k - 1]) + " before " + show(got[k]));
            }
            sort(got.begin(), got.end()); sort(want.begin(), want.end());
            if (got != want) {
                string d; for (auto &q : want) if (!binary_search(got.begin(), got.end(), q)) { d = " " + show(q) + " is lost"; break; }
                for (auto &q : got) if (!binary_search(want.begin(), want.end(), q)) { d += " " + show(q) + " was never given"; break; }
                vh::fail(vh::fmt("permutation %d holds %zu triples, %zu given;", p.perms[i], got.size(), want.size()) + d);
            }
        }
        vh::add("rounds", rounds);
        vh::outcome(vh::mix(vh::mix(all.size(), rounds), vh::hashs(vh::str(p.perms))));
    });
    vh::wipeAll();
}
void explore() {
    Logger::setMinLevel(100);
    string mode = vh::arg("mode", "small");
    vector<int64_t> mags = {0, 1, 255, 256, 0x0101010100LL, 0x0101010101LL, 0x0101010102LL, 0x80FFFFFFLL, 0xFF00000000LL, (1LL << 40) - 1, 128, 0x7FFF};
    if (mode == "small") {
        // files with 0..3 triples each, any number of threads and readers, room for 1.. triples at a time
        int maxf = 4;
        for (int nf = 1; nf <= maxf; ++nf) {
            int tot = 1; for (int i = 0; i < nf; ++i) tot *= 4;
            for (int c = 1; c < tot; ++c) {
                if (!vh::thorough && nf == maxf && c % 5) continue;
                vector<vector<Q>> files(nf); int x = c, k = 0;
                for (int i = 0; i < nf; ++i) { for (int j = 0; j < x % 4; ++j) { files[i].push_back(Q{{mags[(k * 7 + 3) % mags.size()], mags[(k * 5 + 1 + c) % mags.size()], mags[(k * 11 + 4) % mags.size()], 0}}); k++; } x /= 4; }
                for (int th = 1; th <= 4; ++th) for (int io = 1; io <= th; ++io) if (th % io == 0) for (int mem : {1, 2, 3, 5, 100}) for (long est : {(long) k, (long) k + 2}) {
                    if (!vh::thorough && (mem > k + 1 && mem != 100)) continue;
                    one({files, th, io, mem, est, false, c % 3 == 0 ? vector<int>{IDX_SPO} : c % 3 == 1 ? vector<int>{IDX_SPO, IDX_SOP, IDX_OSP, IDX_OPS} : vector<int>{IDX_SPO, IDX_SOP, IDX_OSP, IDX_OPS, IDX_POS, IDX_PSO}});
                }
            }
        }
    } else if (mode == "perms") { // every ordered choice of permutations, every pair of first and next
        vector<Q> ts; for (int i = 0; i < 6; ++i) ts.push_back(Q{{(i * 5) % 7, (i * 3 + 1) % 7 + 256, (i * 2 + 2) % 5 + 70000, 0}});
        vector<int> cur;
        function<void()> rec = [&] {
            if (cur.size()) for (int mem : {2, 100}) one({{vector<Q>(ts.begin(), ts.begin() + 3), vector<Q>(ts.begin() + 3, ts.end())}, 2, 1, mem, 6, false, cur});
            if (cur.size() == (vh::thorough ? 6u : 4u)) return;
            for (int i = 0; i < 6; ++i) { if (find(cur.begin(), cur.end(), i) != cur.end()) continue; cur.push_back(i); rec(); cur.pop_back(); }
        };
        rec();
    } else if (mode == "count") { // aggregated triples: the third term is a 64-bit coordinate
        vector<int64_t> co = {0, 1, 255, 1LL << 31, (1LL << 32) + 5, 1LL << 40, (1LL << 40) - 1, 1LL << 50, (1LL << 62) + 7, 0x0101010101010101LL};
        for (int n = 1; n <= 8; ++n) for (int a = 0; a < 24; ++a) for (int mem : {1, 2, 3, 7, 100}) for (int th : {1, 2, 4}) {
            vector<Q> f; for (int i = 0; i < n; ++i) f.push_back(Q{{mags[(i * 7 + a) % mags.size()], mags[(i * a + 1) % mags.size()], co[(i * 3 + a) % co.size()], mags[(i + a * 5) % mags.size()]}});
            one({{f}, th, 1, mem, n, true, {IDX_POS}});
        }
    } else if (mode == "many") { // thousands of triples: parallel sorting
        for (int n : {1000, 5000, 20000}) for (int th : {1, 2, 3, 4, 5, 8}) for (int io : {1, 2, 3}) for (int nf : {1, 3, 8}) for (int mem : {777, 3000, 100000}) {
            if (io > th || th % io || (n == 20000 && (!vh::thorough || mem == 777))) continue;
            vector<vector<Q>> files(nf);
            for (int i = 0; i < n; ++i) files[(i * i + i / 3) % nf].push_back(Q{{(int64_t) i * 7919 % 1009, i % 17, (int64_t) i * 104729 % 50021, 0}});
            one({files, th, io, mem, n, false, {IDX_SPO, IDX_SOP, IDX_OSP, IDX_OPS, IDX_POS, IDX_PSO}});
        }
    }
}
