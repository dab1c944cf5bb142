#include "vh.h"
#include <cstdarg>
#include <dirent.h>
#include <sys/stat.h>
#include <exception>
#include <malloc.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <unistd.h>
#include <mutex>
static std::mutex &guardLock() { static std::mutex *m = new std::mutex; return *m; }
static std::map<void *, size_t> &guards() { static auto *g = new std::map<void *, size_t>; return *g; }
namespace vh {
long shard = 0, nshards = 1, only = -1, idx = -1, limitFails = 1;
bool thorough = false, replaying = false;
std::string scratch, outFile;
std::map<std::string, std::string> args;
std::map<std::string, long> counters;
std::unordered_set<uint64_t> outcomes;
std::vector<std::string> samples;
static std::function<std::string()> curDesc;
static long *prog = NULL;
void beat() { if (prog) ++prog[1]; }
static std::vector<std::pair<long, std::pair<std::string, std::string>>> fails;
static std::map<std::string, std::pair<std::string, std::string>> knowns;
static long nran = 0, dirn = 0;
static std::string esc(const std::string &s) {
    std::string o; char b[8];
    for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c == '\n') o += "\\n"; else if (c < 32 || c >= 127) { snprintf(b, 8, "\\u%04x", c); o += b; } else o += c; }
    return o;
}
static void finish() {
    FILE *f = outFile.empty() ? stdout : fopen(outFile.c_str(), "w");
    fprintf(f, "{\"cases\":%ld,\"ran\":%ld,\"counters\":{", idx + 1, nran);
    bool first = true;
    for (auto &c : counters) { fprintf(f, "%s\"%s\":%ld", first ? "" : ",", esc(c.first).c_str(), c.second); first = false; }
    fprintf(f, "},\"samples\":["); first = true;
    for (auto &s : samples) { fprintf(f, "%s\"%s\"", first ? "" : ",", esc(s).c_str()); first = false; }
    fprintf(f, "],\"known\":["); first = true;
    for (auto &k : knowns) { fprintf(f, "%s{\"key\":\"%s\",\"msg\":\"%s\",\"case\":\"%s\"}", first ? "" : ",", esc(k.first).c_str(), esc(k.second.first).c_str(), esc(k.second.second).c_str()); first = false; }
    fprintf(f, "],\"fails\":["); first = true;
    for (auto &k : fails) { fprintf(f, "%s{\"idx\":%ld,\"desc\":\"%s\",\"msg\":\"%s\"}", first ? "" : ",", k.first, esc(k.second.first).c_str(), esc(k.second.second).c_str()); first = false; }
    fprintf(f, "]}\n");
    if (f != stdout) {
        fclose(f);
        FILE *h = fopen((outFile + ".hashes").c_str(), "wb");
        for (uint64_t v : outcomes) fwrite(&v, 8, 1, h);
        fclose(h);
    }
}
struct Done {};
bool begin(const std::function<std::string()> &desc) {
    idx++;
    if (only >= 0 ? idx != only : (idx % nshards) != shard) return false;
    if (prog) *prog = idx;
    curDesc = desc;
    nran++;
    if (replaying) { fprintf(stderr, "case %ld: %s\n", idx, desc().c_str()); fflush(stderr); }
    if (samples.size() < 2 && (nran == 3 || nran == 57)) sample(desc());
    return true;
}
void ok() { if (only >= 0) throw Done(); }
void fail(const std::string &m) { throw Fail{m}; }
void known(const std::string &key, const std::string &msg) { if (!knowns.count(key)) knowns[key] = std::make_pair(msg, curDesc ? curDesc() : ""); }
void reportFail(const std::string &m) {
    fails.push_back(std::make_pair(idx, std::make_pair(curDesc ? curDesc() : "", m)));
    if (only >= 0 || (long) fails.size() >= limitFails) throw Done();
}
void sample(const std::string &s) { if (samples.size() < 4) samples.push_back(s); }
std::string fmt(const char *f, ...) { char b[4096]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a); return b; }
std::string newDir() { std::string d = scratch + "/d" + std::to_string(dirn++); mkdir(d.c_str(), 0777); return d; }
static void rmr(const std::string &p) {
    struct stat st; if (lstat(p.c_str(), &st)) return;
    if (S_ISDIR(st.st_mode)) { DIR *D = opendir(p.c_str()); if (D) { while (struct dirent *e = readdir(D)) { std::string n = e->d_name; if (n != "." && n != "..") rmr(p + "/" + n); } closedir(D); } rmdir(p.c_str()); }
    else unlink(p.c_str());
}
void wipe(const std::string &d);
static long wiped = 0;
void wipeAll() { for (; wiped < dirn; ++wiped) wipe(scratch + "/d" + std::to_string(wiped)); }
void wipe(const std::string &d) { if (d.compare(0, scratch.size() + 1, scratch + "/") == 0 && d.find("..") == std::string::npos) rmr(d); }
}
#ifndef __SANITIZE_ADDRESS__
// Every file mapping is followed by an inaccessible page, so that reading past it always traps.
extern "C" void *mmap(void *a, size_t len, int prot, int flags, int fd, off_t off) noexcept {
    if (fd < 0 || a || (flags & MAP_FIXED) || !len) return (void *) syscall(SYS_mmap, a, len, prot, flags, fd, off);
    size_t r = (len + 4095) & ~(size_t) 4095;
    if (!(prot & PROT_WRITE) && r <= (1 << 20)) {
        // read-only: a copy that ends right before the inaccessible page
        char *p = (char *) syscall(SYS_mmap, nullptr, r + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
        if (p == MAP_FAILED) return MAP_FAILED;
        size_t n = 0; while (n < len) { ssize_t k = pread(fd, p + r - len + n, len - n, off + n); if (k <= 0) break; n += k; }
        mprotect(p + r, 4096, PROT_NONE); mprotect(p, r, prot);
        std::lock_guard<std::mutex> l(guardLock()); guards()[p + r - len] = r;
        return p + r - len;
    }
    char *p = (char *) syscall(SYS_mmap, nullptr, r + 4096, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    if (p == MAP_FAILED) return MAP_FAILED;
    void *q = (void *) syscall(SYS_mmap, p, len, prot, flags | MAP_FIXED, fd, off);
    if (q == MAP_FAILED) { int e = errno; syscall(SYS_munmap, p, r + 4096); errno = e; return MAP_FAILED; }
    std::lock_guard<std::mutex> l(guardLock()); guards()[p] = r;
    return q;
}
extern "C" int munmap(void *a, size_t len) noexcept {
    { std::lock_guard<std::mutex> l(guardLock()); auto it = guards().find(a);
      if (it != guards().end() && it->second == ((len + 4095) & ~(size_t) 4095)) { guards().erase(it); len = ((len + 4095) & ~(size_t) 4095) + 4096; a = (void *) ((size_t) a & ~(size_t) 4095); } }
    return syscall(SYS_munmap, a, len);
}
#endif
int main(int argc, char **argv) {
    std::string progFile;
#ifndef __SANITIZE_ADDRESS__
    mallopt(M_MMAP_THRESHOLD, 1 << 30); mallopt(M_TRIM_THRESHOLD, 1 << 30); mallopt(M_ARENA_MAX, 1); mallopt(M_TOP_PAD, 64 << 20);
#endif
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        if (a == "--shard") { sscanf(argv[++i], "%ld/%ld", &vh::shard, &vh::nshards); }
        else if (a == "--only") { vh::only = atol(argv[++i]); vh::replaying = true; }
        else if (a == "--thorough") vh::thorough = true;
        else if (a == "--out") vh::outFile = argv[++i];
        else if (a == "--progress") progFile = argv[++i];
        else if (a == "--scratch") vh::scratch = argv[++i];
        else if (a == "--fails") vh::limitFails = atol(argv[++i]);
        else if (a.compare(0, 2, "--") == 0 && i + 1 < argc) { vh::args[a.substr(2)] = argv[++i]; }
    }
    if (vh::scratch.empty()) { char b[] = "/tmp/vscratchXXXXXX"; vh::scratch = mkdtemp(b); }
    if (!progFile.empty()) {
        int fd = open(progFile.c_str(), O_RDWR | O_CREAT, 0666);
        if (ftruncate(fd, 4096)) return 2;
        vh::prog = (long *) mmap(NULL, 4096, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
        *vh::prog = -1;
    }
    try { explore(); } catch (vh::Done &) {}
    vh::finish();
    fflush(NULL);
    _exit(0);
}
