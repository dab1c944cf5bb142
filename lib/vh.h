// Exploration skeleton shared by all harnesses.
//   A harness enumerates a finite space deterministically: every case gets a
//   number. Cases are split over shards (number % nshards), one process each.
//   The number of the running case lives in a mmap'ed file, so that the driver
//   knows which case crashed or hung; "--only N" replays a single case.
#ifndef VH_H
#define VH_H
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <unordered_set>
#include <functional>
#include <sstream>
#include <algorithm>
#include <fcntl.h>
#include <unistd.h>
#include <sys/mman.h>
namespace vh {
struct Fail { std::string msg; };
void beat(); // tells the driver that a long case is making progress
extern long shard, nshards, only, idx, limitFails;
extern bool thorough, replaying;
extern std::string scratch;
extern std::map<std::string, std::string> args; // --key value
// in thorough runs "--tkey value" overrides "--key value"
inline std::string arg(const char *k, const char *d = "") { if (thorough) { auto j = args.find(std::string("t") + k); if (j != args.end()) return j->second; } auto i = args.find(k); return i == args.end() ? d : i->second; }
extern std::map<std::string, long> counters;
extern std::unordered_set<uint64_t> outcomes;
extern std::vector<std::string> samples;
// true if the next case is ours; desc is only evaluated when needed
bool begin(const std::function<std::string()> &desc);
void ok();                       // the case passed
void fail(const std::string &);  // throws Fail
void known(const std::string &key, const std::string &msg); // a deviation that may be a listed finding
inline void add(const char *k, long n = 1) { counters[k] += n; }
inline uint64_t mix(uint64_t h, uint64_t v) { h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2); return h * 0xff51afd7ed558ccdull; }
inline uint64_t hashs(const std::string &s) { uint64_t h = 1469598103934665603ull; for (unsigned char c : s) { h ^= c; h *= 1099511628211ull; } return h; }
inline void outcome(uint64_t h) { if (outcomes.size() < 2000000) outcomes.insert(h); }
inline void outcome(const std::string &s) { outcome(hashs(s)); }
void sample(const std::string &);
// run one case with the standard bookkeeping
inline void runCase(const std::function<std::string()> &desc, const std::function<void()> &body);
void reportFail(const std::string &msg);
inline void runCase(const std::function<std::string()> &desc, const std::function<void()> &body) {
    if (!begin(desc)) return;
    try { body(); } catch (Fail &f) { reportFail(f.msg); }
    catch (std::exception &e) { reportFail(std::string("exception escaped: ") + e.what()); }
    catch (int e) { reportFail("exception escaped: int " + std::to_string(e)); }
    catch (const char *e) { reportFail(std::string("exception escaped: ") + e); }
    catch (...) { reportFail("unknown exception escaped"); }
    ok();
}
template<class T> std::string str(const std::vector<T> &v) { std::ostringstream o; o << "["; for (size_t i = 0; i < v.size(); ++i) o << (i ? "," : "") << v[i]; o << "]"; return o.str(); }
std::string fmt(const char *f, ...) __attribute__((format(printf, 1, 2)));
std::string newDir();            // fresh scratch directory
void wipeAll();                  // remove all scratch directories handed out so far
void wipe(const std::string &);  // remove a scratch directory (only below scratch)
}
void explore(); // supplied by the harness
#endif
