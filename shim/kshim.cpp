#include <kognac/kshim.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <dirent.h>
#include <unistd.h>
int Logger::minLevel = 100;
long Logger::nErrors = 0;
int Utils::shimCores = 8;
uint64_t Utils::shimSystemMemory = 64ull << 20;
char VERIF_EMPTY_KEY[3] = {0, 0, 0}, VERIF_DELETED_KEY[4] = {0, 1, 0, 0};
Logger::~Logger() { std::string t = s.str() + "\n"; fwrite(t.data(), 1, t.size(), stderr); }
static bool st(const std::string &f, struct stat &b) { return stat(f.c_str(), &b) == 0; }
bool Utils::exists(const std::string &f) { struct stat b; return st(f, b); }
bool Utils::isDirectory(const std::string &f) { struct stat b; return st(f, b) && S_ISDIR(b.st_mode); }
bool Utils::isFile(const std::string &f) { struct stat b; return st(f, b) && S_ISREG(b.st_mode); }
static std::vector<std::string> entries(const std::string &d) {
    std::vector<std::string> o; DIR *D = opendir(d.c_str()); if (!D) return o;
    while (struct dirent *e = readdir(D)) { std::string n = e->d_name; if (n != "." && n != "..") o.push_back(n); }
    closedir(D); std::sort(o.begin(), o.end()); return o;
}
bool Utils::isEmpty(const std::string &d) { return entries(d).empty(); }
void Utils::create_directories(const std::string &d) {
    for (size_t i = 1; i <= d.size(); ++i) if (i == d.size() || d[i] == '/') { std::string p = d.substr(0, i); if (!exists(p)) ::mkdir(p.c_str(), 0777); }
}
void Utils::remove(const std::string &f) { if (isDirectory(f)) ::rmdir(f.c_str()); else ::unlink(f.c_str()); }
// guard: the model only ever deletes below the scratch directory of the check
static void guard(const std::string &f) {
    if (f.find("vscratch") == std::string::npos) { fprintf(stderr, "refusing to remove '%s'\n", f.c_str()); abort(); }
}
void Utils::remove_all(const std::string &f) {
    if (!exists(f)) return;
    guard(f);
    if (isDirectory(f)) { for (auto &e : entries(f)) remove_all(f + "/" + e); ::rmdir(f.c_str()); } else ::unlink(f.c_str());
}
void Utils::rename(const std::string &a, const std::string &b) { ::rename(a.c_str(), b.c_str()); }
void Utils::resizeFile(const std::string &f, uint64_t s) { if (!exists(f)) { FILE *x = fopen(f.c_str(), "wb"); if (x) fclose(x); } if (truncate(f.c_str(), s)) {} }
uint64_t Utils::fileSize(const std::string &f) { struct stat b; return st(f, b) ? b.st_size : 0; }
std::string Utils::filename(std::string p) { size_t i = p.rfind('/'); return i == std::string::npos ? p : p.substr(i + 1); }
std::string Utils::parentDir(std::string p) { size_t i = p.rfind('/'); return i == std::string::npos ? std::string(".") : p.substr(0, i); }
bool Utils::hasExtension(const std::string &p) { return filename(p).find('.') != std::string::npos; }
std::string Utils::extension(std::string p) { std::string f = filename(p); size_t i = f.find('.'); return i == std::string::npos ? "" : f.substr(i); }
std::string Utils::removeExtension(std::string p) { std::string f = filename(p); size_t i = f.find('.'); return i == std::string::npos ? p : p.substr(0, p.size() - f.size() + i); }
std::string Utils::removeLastExtension(std::string p) { std::string f = filename(p); size_t i = f.rfind('.'); return i == std::string::npos ? p : p.substr(0, p.size() - f.size() + i); }
std::vector<std::string> Utils::getFiles(std::string dir, bool ignoreExtension) {
    std::vector<std::string> o; std::set<std::string> seen;
    for (auto &e : entries(dir)) {
        if (e[0] == '.' || !isFile(dir + "/" + e)) continue;
        std::string p = dir + "/" + e;
        if (ignoreExtension) { p = removeLastExtension(p); if (!seen.insert(p).second) continue; }
        o.push_back(p);
    }
    return o;
}
std::vector<std::string> Utils::getSubdirs(std::string dir) { std::vector<std::string> o; for (auto &e : entries(dir)) if (isDirectory(dir + "/" + e)) o.push_back(dir + "/" + e); return o; }
std::vector<std::string> Utils::getFilesWithPrefix(std::string dir, std::string prefix) { std::vector<std::string> o; for (auto &e : entries(dir)) if (starts_with(e, prefix)) o.push_back(e); return o; }
std::vector<std::string> Utils::getFilesWithSuffix(std::string dir, std::string suffix) { std::vector<std::string> o; for (auto &e : entries(dir)) if (ends_with(e, suffix)) o.push_back(e); return o; }
bool Utils::starts_with(const std::string &s, const std::string &p) { return s.compare(0, p.size(), p) == 0 && s.size() >= p.size(); }
bool Utils::ends_with(const std::string &s, const std::string &p) { return s.size() >= p.size() && s.compare(s.size() - p.size(), p.size(), p) == 0; }
void Utils::linkdir(std::string a, std::string b) { if (symlink(a.c_str(), b.c_str())) {} }
void Utils::rmlink(std::string a) { guard(a); ::unlink(a.c_str()); }
void Utils::copy(std::string a, std::string b) { std::ifstream i(a, std::ios::binary); std::ofstream o(b, std::ios::binary); o << i.rdbuf(); }
int Utils::numBytes(int64_t n) { if (n < 0) throw 10; uint64_t max = 32; for (int i = 1; i <= 8; ++i) { if ((uint64_t) n < max) return i; max *= 256; } throw 10; }
int Utils::numBytes2(int64_t n) { int b = 0; uint64_t u = n; do { u >>= 7; b++; } while (u > 0); return b; }
int Utils::numBytesFixedLength(int64_t n) { int b = 0; uint64_t u = n; do { b++; u >>= 8; } while (u > 0); return b; }
int Utils::encode_vlong(char *b, int o, int64_t n) { int nb = numBytes(n); for (int i = nb - 1; i >= 0; --i) { b[o + i] = (char) (n & 0xFF); n >>= 8; } b[o] |= (char) ((nb - 1) << 5); return o + nb; }
int64_t Utils::decode_vlong(const char *b, int *o) { int p = *o; int f = b[p++] & 0xFF; int nb = (f >> 5) + 1; uint64_t n = f & 31; for (int i = 1; i < nb; ++i) n = (n << 8) | (uint64_t) (b[p++] & 0xFF); *o = p; return (int64_t) n; }
LZ4Writer::LZ4Writer(std::string p) : path(p) { f = fopen(p.c_str(), "wb"); if (!f) { fprintf(stderr, "cannot open %s\n", p.c_str()); throw 10; } }
LZ4Reader::LZ4Reader(std::string p) : pos(0) {
    FILE *f = fopen(p.c_str(), "rb"); if (!f) { fprintf(stderr, "cannot open %s\n", p.c_str()); throw 10; }
    fseek(f, 0, SEEK_END); long n = ftell(f); fseek(f, 0, SEEK_SET); data.resize(n); if (n && fread(data.data(), 1, n, f) != (size_t) n) throw 10; fclose(f);
}
void DiskReader::run() {
    for (auto &fi : files) {
        std::ifstream in(fi.path, std::ios::binary); in.seekg(fi.start);
        Buffer b; b.size = b.maxsize = fi.size; b.b = new char[fi.size + 1]; in.read(b.b, fi.size); b.b[fi.size] = 0; b.gzipped = !fi.splittable; b.sfile = NULL;
        std::unique_lock<std::mutex> l(m); ready.push_back(b); cv.notify_all();
    }
    std::unique_lock<std::mutex> l(m); finished = true; cv.notify_all();
}
DiskReader::Buffer DiskReader::getfile() {
    std::unique_lock<std::mutex> l(m); while (ready.empty() && !finished) cv.wait(l);
    if (ready.empty()) { Buffer b; b.b = NULL; b.size = b.maxsize = 0; b.gzipped = false; b.sfile = NULL; return b; }
    Buffer b = ready.front(); ready.pop_front(); return b;
}
void DiskReader::releasefile(Buffer b) { delete[] b.b; }
std::vector<FileInfo> *Compressor::splitInputInChunks(const std::string &dir, int n, std::string prefix) {
    std::vector<FileInfo> *o = new std::vector<FileInfo>[n]; int i = 0;
    for (auto &f : Utils::getFiles(dir)) { if (!Utils::starts_with(Utils::filename(f), prefix)) continue; FileInfo fi; fi.path = f; fi.size = Utils::fileSize(f); fi.splittable = !Utils::ends_with(f, ".gz"); o[i++ % n].push_back(fi); }
    return o;
}
FileReader::FileReader(FileInfo f) : pos(0), valid(false) { std::ifstream i(f.path, std::ios::binary); std::stringstream s; s << i.rdbuf(); data = s.str(); }
bool FileReader::term(const std::string &l, size_t &i, std::string &out, bool lit) {
    while (i < l.size() && (l[i] == ' ' || l[i] == '\t')) ++i;
    size_t b = i; if (i >= l.size()) return false;
    if (l[i] == '<') { while (i < l.size() && l[i] != '>') ++i; if (i >= l.size()) return false; ++i; }
    else if (l[i] == '_') { while (i < l.size() && l[i] != ' ' && l[i] != '\t') ++i; }
    else if (lit && l[i] == '"') { ++i; while (i < l.size() && l[i] != '"') { if (l[i] == '\\') ++i; ++i; } if (i >= l.size()) return false; ++i; while (i < l.size() && l[i] != ' ' && l[i] != '\t') ++i; }
    else return false;
    out = l.substr(b, i - b); return true;
}
bool FileReader::parseTriple() {
    while (pos < data.size()) {
        size_t e = data.find('\n', pos); if (e == std::string::npos) e = data.size();
        std::string l = data.substr(pos, e - pos); pos = e + 1;
        if (l.empty() || l[0] == '#') continue;
        size_t i = 0; valid = term(l, i, s, false) && term(l, i, p, false) && term(l, i, o, true); return true;
    }
    return false;
}
// ---- hook of /repo (include/trident/kb/consts.h): limits that a harness may shrink
#include <map>
std::map<int64_t, int64_t> &tridentVerifLimits() { static std::map<int64_t, int64_t> m; return m; }
int64_t tridentVerifLimit(int64_t n) { auto &m = tridentVerifLimits(); auto i = m.find(n); return i == m.end() ? n : i->second; }
