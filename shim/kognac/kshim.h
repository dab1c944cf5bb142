// Environment model of the KOGNAC support library (not available offline).
// It implements, in the most boring way possible, the part of KOGNAC's API that
// trident uses, so that trident's own sources compile unmodified.
#ifndef VERIF_KSHIM_H
#define VERIF_KSHIM_H
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <list>
#include <memory>
#include <mutex>
#include <thread>
#include <algorithm>
#include <functional>
#include <fstream>
#include <sstream>
#include <iostream>
#include <iomanip>
#include <condition_variable>
#include <chrono>
#include <iterator>
#include <unordered_map>
#include <unordered_set>
#include <cassert>
#include <cmath>
#include <sparsehash/dense_hash_map>
#include <sparsehash/sparse_hash_map>

using namespace std;

#ifndef DDLEXPORT
#define DDLEXPORT
#endif
#ifndef LIBEXP
#define LIBEXP
#endif
#define DDLIMPORT
#define DIR_SEP std::string("/")
#define CDIR_SEP '/'

// ---------------------------------------------------------------- logging
#define TRACEL 0
#define DEBUGL 1
#define INFOL 2
#define WARNL 3
#define ERRORL 4
class Logger {
    static int minLevel;
    std::ostringstream s;
    int level;
public:
    Logger(int l) : level(l) {}
    ~Logger();
    template<class T> Logger &operator<<(const T &t) { s << t; return *this; }
    Logger &operator<<(std::ostream &(*f)(std::ostream &)) { s << f; return *this; }
    static void setMinLevel(int l) { minLevel = l; }
    static int getMinLevel() { return minLevel; }
    static void logToFile(std::string) {}
    static long nErrors;
};
#define LOG(l) if ((l) < Logger::getMinLevel()) ; else Logger(l)

// ---------------------------------------------------------------- consts
#define MAX_TERM_SIZE 300000
#define DICT_HEURISTICS "heuristics"
#define DICT_HASH "hash"
#define DICT_SMART "smart"
#define PARSE_COUNTMIN 1
#define PARSE_SAMPLE 2
#define PARSE_COUNTMIN_MGCS 3
#ifndef IDX_SPO
#define IDX_SPO 0
#define IDX_OPS 1
#define IDX_POS 2
#define IDX_SOP 3
#define IDX_OSP 4
#define IDX_PSO 5
#endif

typedef int64_t nTerm;
typedef unsigned char tTerm;
// ---------------------------------------------------------------- utils
class Utils {
public:
    static int shimCores;
    static uint64_t shimSystemMemory; // what the machine claims to have
    static bool exists(const std::string &f);
    static bool isEmpty(const std::string &d);
    static bool isDirectory(const std::string &d);
    static bool isFile(const std::string &d);
    static void create_directories(const std::string &d);
    static void remove(const std::string &f);
    static void remove_all(const std::string &f);
    static void rename(const std::string &a, const std::string &b);
    static void resizeFile(const std::string &f, uint64_t s);
    static uint64_t fileSize(const std::string &f);
    static std::string filename(std::string p);
    static std::string parentDir(std::string p);
    static std::string extension(std::string p);
    static std::string removeExtension(std::string p);
    static std::string removeLastExtension(std::string p);
    static bool hasExtension(const std::string &p);
    static std::vector<std::string> getFiles(std::string dir, bool ignoreExtension = false);
    static std::vector<std::string> getSubdirs(std::string dir);
    static std::vector<std::string> getFilesWithPrefix(std::string dir, std::string prefix);
    static std::vector<std::string> getFilesWithSuffix(std::string dir, std::string suffix);
    static bool starts_with(const std::string &s, const std::string &p);
    static bool ends_with(const std::string &s, const std::string &p);
    static bool contains(const std::string &s, const std::string &p) { return s.find(p) != std::string::npos; }
    static void linkdir(std::string a, std::string b);
    static void rmlink(std::string a);
    static void copy(std::string a, std::string b);
    static uint64_t getSystemMemory() { return shimSystemMemory; }
    static int64_t getUsedMemory() { return 0; }
    static int64_t get_max_mem() { return 0; }
    static int getNumberPhysicalCores() { return shimCores; }
    static long long getIOReadBytes() { return 0; }
    static long long getIOReadChars() { return 0; }
    template<class T> static T lexical_cast(const std::string &s) { std::istringstream i(s); T t; i >> t; return t; }

    static int numBytes(int64_t n);
    static int numBytes2(int64_t n);
    static int numBytesFixedLength(int64_t n);
    static int decode_int(const char *b) { return (int) (((uint32_t) (b[0] & 0xFF) << 24) | ((uint32_t) (b[1] & 0xFF) << 16) | ((uint32_t) (b[2] & 0xFF) << 8) | (uint32_t) (b[3] & 0xFF)); }
    static int decode_int(char *b, int o) { return decode_int(b + o); }
    static void encode_int(char *b, int n) { b[0] = n >> 24; b[1] = n >> 16; b[2] = n >> 8; b[3] = n; }
    static void encode_int(char *b, int o, int n) { encode_int(b + o, n); }
    static int64_t decode_long(const char *b) { uint64_t n = 0; for (int i = 0; i < 8; ++i) n = (n << 8) | (uint64_t) (b[i] & 0xFF); return (int64_t) n; }
    static int64_t decode_long(char *b, int o) { return decode_long((const char *) b + o); }
    static void encode_long(char *b, int64_t n) { for (int i = 7; i >= 0; --i) { b[i] = (char) (n & 0xFF); n >>= 8; } }
    static void encode_long(char *b, int o, int64_t n) { encode_long(b + o, n); }
    static int64_t decode_longFixedBytes(const char *b, uint8_t nb) { uint64_t n = 0; for (int i = 0; i < nb; ++i) n = (n << 8) | (uint64_t) (b[i] & 0xFF); return (int64_t) n; }
    static void encode_longNBytes(char *b, uint8_t nb, uint64_t n) { for (int i = nb - 1; i >= 0; --i) { b[i] = (char) (n & 0xFF); n >>= 8; } }
    static int16_t decode_short(const char *b) { return (int16_t) (((b[0] & 0xFF) << 8) | (b[1] & 0xFF)); }
    static int16_t decode_short(const char *b, int o) { return decode_short(b + o); }
    static void encode_short(char *b, int n) { b[0] = n >> 8; b[1] = n; }
    static void encode_short(char *b, int o, int n) { encode_short(b + o, n); }
    // 7-bit varints, least significant group first, high bit = "more follows"
    static int encode_vlong2(char *b, int o, uint64_t n) { while (n >= 128) { b[o++] = (char) ((n & 127) | 128); n >>= 7; } b[o++] = (char) n; return o; }
    static uint16_t encode_vlong2(char *b, uint64_t n) { return (uint16_t) encode_vlong2(b, 0, n); }
    static void encode_vlong2_fixedLen(char *b, uint64_t n, uint8_t len) { for (int i = 0; i < len - 1; ++i) { b[i] = (char) ((n & 127) | 128); n >>= 7; } b[len - 1] = (char) (n & 127); }
    static int64_t decode_vlong2(const char *b, int *o) { uint64_t n = 0; int sh = 0; int p = *o; while (b[p] < 0) { n |= (uint64_t) (b[p++] & 127) << sh; sh += 7; } n |= (uint64_t) (b[p++] & 127) << sh; *o = p; return (int64_t) n; }
    static int encode_vint2(char *b, int o, uint32_t n) { return encode_vlong2(b, o, n); }
    static int decode_vint2(const char *b, int *o) { return (int) decode_vlong2(b, o); }
    // "old" varints: 3 bits with the number of extra bytes + 5 bits, big endian
    static int encode_vlong(char *b, int o, int64_t n);
    static uint16_t encode_vlong(char *b, int64_t n) { return (uint16_t) encode_vlong(b, 0, n); }
    static int64_t decode_vlong(const char *b, int *o);
    static int commonPrefix(const char *a, int sa, const char *b, int sb) { int l = std::min(sa, sb); for (int i = 0; i < l; ++i) if (a[i] != b[i]) return i; return l; }
    static int commonPrefix(tTerm *a, int sa, int ea, tTerm *b, int sb, int eb) { int i = 0; while (sa + i < ea && sb + i < eb && a[sa + i] == b[sb + i]) ++i; return i; }
    static int compare(const char *a, int sa, const char *b, int sb) { int l = std::min(sa, sb); for (int i = 0; i < l; ++i) if (a[i] != b[i]) return (a[i] & 0xff) - (b[i] & 0xff); return sa - sb; }
    static bool prefixEquals(const char *s, int len, const char *p) { int lp = (int) strlen(p); return lp <= len && memcmp(s, p, lp) == 0; }
    // order of a term that starts with s1 and of s2, as far as s1 decides it; 0 if s2 starts with s1
    static int prefixEquals(char *s1, int len1, char *s2, int len2) { int i = 0; for (; i < len1 && i < len2; ++i) if (s1[i] != s2[i]) return (s1[i] & 0xff) - (s2[i] & 0xff); return i == len1 ? 0 : 1; }
};

// ---------------------------------------------------------------- factories
// Released objects are handed out again (most recent first), as KOGNAC does,
// so that stale state in a recycled object is observable.
template<class T> class Factory {
    std::vector<T *> els;
public:
    T *get() { if (!els.empty()) { T *e = els.back(); els.pop_back(); return e; } return new T(); }
    void release(T *e) { els.push_back(e); }
    ~Factory() { for (auto e : els) delete e; }
};
template<class T> class PreallocatedFactory {
    std::vector<T *> els; int maxS;
public:
    PreallocatedFactory(int maxSize, int = 0) : maxS(maxSize) {}
    T *get() { if (!els.empty()) { T *e = els.back(); els.pop_back(); return e; } return new T(); }
    void release(T *e) { if ((int) els.size() < maxS) els.push_back(e); else delete e; }
    ~PreallocatedFactory() { for (auto e : els) delete e; }
};
template<class T> class PreallocatedArraysFactory {
    std::vector<T *> els; int sz, maxS;
public:
    PreallocatedArraysFactory(int arraySize, int maxSize, int = 0) : sz(arraySize), maxS(maxSize) {}
    T *get() { if (!els.empty()) { T *e = els.back(); els.pop_back(); return e; } return new T[sz](); }
    void release(T *e) { if ((int) els.size() < maxS) els.push_back(e); else delete[] e; }
    ~PreallocatedArraysFactory() { for (auto e : els) delete[] e; }
};
template<class T> class PreallocatedStratArraysFactory {
    std::vector<T *> els; int sz;
public:
    PreallocatedStratArraysFactory(int arraySize, int, int) : sz(arraySize) {}
    T *get() { if (!els.empty()) { T *e = els.back(); els.pop_back(); return e; } return new T[sz](); }
    void release(T *e) { els.push_back(e); }
    ~PreallocatedStratArraysFactory() { for (auto e : els) delete[] e; }
};

// ---------------------------------------------------------------- lz4io (uncompressed here)
class LZ4Writer {
    std::string path; FILE *f;
public:
    LZ4Writer(std::string p);
    void writeByte(char c) { fwrite(&c, 1, 1, f); }
    void writeLong(int64_t n) { char b[8]; Utils::encode_long(b, n); fwrite(b, 8, 1, f); }
    void writeVLong(int64_t n) { char b[16]; int l = Utils::encode_vlong2(b, 0, n); fwrite(b, l, 1, f); }
    void writeShort(short n) { char b[2]; Utils::encode_short(b, n); fwrite(b, 2, 1, f); }
    void writeString(const char *s, int len) { writeVLong(len); fwrite(s, 1, len, f); }
    void writeRawArray(const char *s, int len) { fwrite(s, 1, len, f); }
    ~LZ4Writer() { fclose(f); }
};
class LZ4Reader {
    std::vector<char> data; size_t pos; std::string tmp;
    void need(size_t n) { if (pos + n > data.size()) { fprintf(stderr, "LZ4Reader: read past the end\n"); throw 10; } }
public:
    LZ4Reader(std::string p);
    bool isEof() { return pos >= data.size(); }
    char parseByte() { need(1); return data[pos++]; }
    int64_t parseLong() { need(8); int64_t n = Utils::decode_long(data.data() + pos); pos += 8; return n; }
    int64_t parseVLong() { need(1); int o = (int) 0; int64_t n = Utils::decode_vlong2(data.data() + pos, &o); pos += o; return n; }
    int parseInt() { need(4); int n = Utils::decode_int(data.data() + pos); pos += 4; return n; }
    const char *parseString(int &size) { size = (int) parseVLong(); need(size); tmp.assign(data.data() + pos, size); pos += size; return tmp.c_str(); }
};

// Several independent streams ("parts"), each made of a list of files
class DiskLZ4Writer {
protected:
    std::vector<std::unique_ptr<LZ4Writer>> w;
public:
    DiskLZ4Writer() {}
    DiskLZ4Writer(std::string file, int, int) { w.emplace_back(new LZ4Writer(file)); }
    DiskLZ4Writer(std::vector<std::string> files, int, int) { for (auto &f : files) w.emplace_back(new LZ4Writer(f)); }
    void writeLong(int id, int64_t n) { w.at(id)->writeLong(n); }
    void writeVLong(int id, int64_t n) { w.at(id)->writeVLong(n); }
    void writeByte(int id, int n) { w.at(id)->writeByte((char) n); }
    void writeString(int id, const char *s, int len) { w.at(id)->writeString(s, len); }
    void setTerminated(int id) { w.at(id).reset(); }
    virtual ~DiskLZ4Writer() {}
};
class MultiDiskLZ4Writer : public DiskLZ4Writer {
public:
    MultiDiskLZ4Writer(std::vector<std::string> files, int a, int b) : DiskLZ4Writer(files, a, b) {}
};
class DiskLZ4Reader {
protected:
    struct Part { std::vector<std::string> files; size_t next = 0; std::unique_ptr<LZ4Reader> r; };
    std::vector<Part> parts;
    LZ4Reader *cur(int id) {
        Part &p = parts.at(id);
        while ((!p.r || p.r->isEof()) && p.next < p.files.size()) p.r.reset(new LZ4Reader(p.files[p.next++]));
        return p.r.get();
    }
public:
    DiskLZ4Reader(int n, int, int) : parts(n) {}
    DiskLZ4Reader(std::string f, int n, int) : parts(n) { parts[0].files.push_back(f); }
    bool isEOF(int id) { LZ4Reader *r = cur(id); return !r || r->isEof(); }
    int64_t readLong(int id) { return chk(id)->parseLong(); }
    int64_t readVLong(int id) { return chk(id)->parseVLong(); }
    char readByte(int id) { return chk(id)->parseByte(); }
    const char *readString(int id, int &s) { return chk(id)->parseString(s); }
    LZ4Reader *chk(int id) { LZ4Reader *r = cur(id); if (!r || r->isEof()) { fprintf(stderr, "DiskLZ4Reader: read past the end of part %d\n", id); throw 10; } return r; }
    virtual ~DiskLZ4Reader() {}
};
class MultiDiskLZ4Reader : public DiskLZ4Reader {
public:
    MultiDiskLZ4Reader(int n, int a, int b) : DiskLZ4Reader(n, a, b) {}
    void start() {}
    void stop() {}
    void addInput(int id, std::vector<std::string> &files) { parts.at(id).files = files; }
};

struct FileInfo {
    uint64_t size = 0, start = 0; bool splittable = true; std::string path;
};
class DiskReader {
public:
    struct Buffer { size_t size; size_t maxsize; char *b; bool gzipped; const char *sfile; };
private:
    std::vector<FileInfo> files; std::list<Buffer> ready; bool finished;
    std::mutex m; std::condition_variable cv;
public:
    DiskReader(int nbuffers, std::vector<FileInfo> *f) : files(*f), finished(false) {}
    void run();
    Buffer getfile();
    void releasefile(Buffer b);
};

// ---------------------------------------------------------------- triples
class Triple {
public:
    int64_t s, p, o, count;
    Triple() : s(0), p(0), o(0), count(0) {}
    Triple(int64_t s, int64_t p, int64_t o) : s(s), p(p), o(o), count(0) {}
    bool less(const Triple &t) const { return s != t.s ? s < t.s : p != t.p ? p < t.p : o < t.o; }
    bool greater(const Triple &t) const { return s != t.s ? s > t.s : p != t.p ? p > t.p : o > t.o; }
    void readFrom(LZ4Reader *r) { s = r->parseLong(); p = r->parseLong(); o = r->parseLong(); count = r->parseLong(); }
    void writeTo(LZ4Writer *w) { w->writeLong(s); w->writeLong(p); w->writeLong(o); w->writeLong(count); }
    void readFrom(int part, DiskLZ4Reader *r) { s = r->readLong(part); p = r->readLong(part); o = r->readLong(part); count = r->readLong(part); }
    void writeTo(int part, DiskLZ4Writer *w) { w->writeLong(part, s); w->writeLong(part, p); w->writeLong(part, o); w->writeLong(part, count); }
};
class TripleWriter {
public:
    virtual void write(const int64_t s, const int64_t p, const int64_t o) = 0;
    virtual void write(const int64_t s, const int64_t p, const int64_t o, const int64_t count) = 0;
    virtual ~TripleWriter() {}
};
class SimpleTripleWriter : public TripleWriter {
    std::unique_ptr<LZ4Writer> w;
public:
    SimpleTripleWriter(std::string dir, std::string prefix, bool quad) {
        w.reset(new LZ4Writer(dir + "/" + prefix + "0"));
        w->writeByte(quad ? 1 : 0);
    }
    void write(const int64_t s, const int64_t p, const int64_t o) { w->writeLong(s); w->writeLong(p); w->writeLong(o); }
    void write(const int64_t s, const int64_t p, const int64_t o, const int64_t c) { write(s, p, o); w->writeLong(c); }
};

// K-way merge of sorted inputs. An input "name" is the file itself, or the
// concatenation of name.0, name.1, ...
template<class K> class FileMerger {
    struct In { std::vector<std::string> files; size_t next = 0; std::unique_ptr<LZ4Reader> r; bool has = false; K k; };
    std::vector<std::unique_ptr<In>> ins; bool del;
    void advance(In *i) {
        while (!i->r || i->r->isEof()) {
            if (i->r) { i->r.reset(); if (del) Utils::remove(i->files[i->next - 1]); }
            if (i->next >= i->files.size()) { i->has = false; return; }
            i->r.reset(new LZ4Reader(i->files[i->next++]));
        }
        i->k.readFrom(i->r.get()); i->has = true;
    }
public:
    FileMerger(std::vector<std::string> fn, bool = false, bool deletePreviousExt = false) : del(deletePreviousExt) {
        for (auto &f : fn) {
            std::unique_ptr<In> in(new In());
            if (Utils::exists(f)) in->files.push_back(f);
            else for (int i = 0; Utils::exists(f + "." + std::to_string(i)); ++i) in->files.push_back(f + "." + std::to_string(i));
            advance(in.get());
            ins.push_back(std::move(in));
        }
    }
    bool isEmpty() { for (auto &i : ins) if (i->has) return false; return true; }
    K get() {
        In *best = NULL;
        for (auto &i : ins) if (i->has && (!best || best->k.greater(i->k))) best = i.get();
        K k = best->k; advance(best); return k;
    }
};
template<int N, class K> class FastFileMerger : public FileMerger<K> {
public:
    FastFileMerger(std::vector<std::string> fn, bool a = false, bool b = false) : FileMerger<K>(fn, a, b) {}
};
class KSorter {};
class Sorter_kognac_tag {};

// ---------------------------------------------------------------- strings -> number maps
inline size_t shim_hash(const char *s, int len) { uint64_t h = 1469598103934665603ull; for (int i = 0; i < len; ++i) { h ^= (unsigned char) s[i]; h *= 1099511628211ull; } return (size_t) h; }
class Hashes {
public:
    static size_t dbj2s(const char *s, int len) { return shim_hash(s, len); }
    static size_t murmur3_56(const char *s, int len) { return shim_hash(s, len); }
    static size_t fnv1a_56(const char *s, int len) { return shim_hash(s, len); }
    static int64_t getCodeWithDefaultFunction(const char *t, int s) { return (int64_t) shim_hash(t, s); }
};
struct ByteArrayEq { bool operator()(const char *a, const char *b) const {
    if (a == b) return true; if (!a || !b) return false;
    int la = Utils::decode_short(a), lb = Utils::decode_short(b); return la == lb && memcmp(a + 2, b + 2, la) == 0; } };
struct ByteArrayHash { size_t operator()(const char *a) const { return a ? shim_hash(a + 2, Utils::decode_short(a)) : 0; } };
extern char VERIF_EMPTY_KEY[], VERIF_DELETED_KEY[];
#define EMPTY_KEY ((const char *) VERIF_EMPTY_KEY)
#define DELETED_KEY ((const char *) VERIF_DELETED_KEY)
typedef google::dense_hash_map<const char *, int64_t, ByteArrayHash, ByteArrayEq> ByteArrayToNumberMap;

class StringCollection {
    std::vector<char *> segs; int segSize; int pos;
public:
    StringCollection(int s) : segSize(std::min(s, 1 << 16)), pos(0) {}
    const char *addNew(const char *t, int size) {
        if (segs.empty() || pos + size > segSize) { segs.push_back(new char[std::max(segSize, size) + 1]); pos = 0; }
        char *c = segs.back() + pos; memcpy(c, t, size); pos += size; return c;
    }
    const char *addNew(char *t, int size) { return addNew((const char *) t, size); }
    void clear() { for (auto s : segs) delete[] s; segs.clear(); pos = 0; }
    ~StringCollection() { clear(); }
};

// ---------------------------------------------------------------- N-Triples reader
class FileReader {
    std::string data; size_t pos; bool valid; std::string s, p, o;
    bool term(const std::string &line, size_t &i, std::string &out, bool literalOk);
public:
    FileReader(FileInfo f);
    bool parseTriple();
    bool isTripleValid() { return valid; }
    const char *getCurrentS(int &l) { l = (int) s.size(); return s.c_str(); }
    const char *getCurrentP(int &l) { l = (int) p.size(); return p.c_str(); }
    const char *getCurrentO(int &l) { l = (int) o.size(); return o.c_str(); }
};

class Compressor {
    int64_t total;
public:
    Compressor(std::string, std::string) : total(0) {}
    static void addPermutation(const int perm, int &sig) { sig |= 1 << perm; }
    static void parsePermutationSignature(int sig, int *out) { int p = 0, i = 0; while (sig) { if (sig & 1) out[i++] = p; sig >>= 1; p++; } }
    static std::vector<std::string> getAllDictFiles(std::string prefix) { std::vector<std::string> o; for (int i = 0; Utils::exists(prefix + "." + std::to_string(i)); ++i) o.push_back(prefix + "." + std::to_string(i)); return o; }
    static std::vector<FileInfo> *splitInputInChunks(const std::string &dir, int nchunks, std::string prefix = "");
    template<class... A> void parse(A...) { fprintf(stderr, "Compressor::parse is not modelled\n"); abort(); }
    template<class... A> void compress(A...) { fprintf(stderr, "Compressor::compress is not modelled\n"); abort(); }
    int64_t getTotalCount() { return total; }
};
class HashCompressor {};
class SchemaExtractor {};
class Kognac {
public:
    template<class... A> Kognac(A...) {}
    template<class... A> static void sortCompressedGraph(A...) { fprintf(stderr, "Kognac::sortCompressedGraph is not modelled\n"); abort(); }
    template<class... A> void sample(A...) { abort(); }
    template<class... A> void compress(A...) { abort(); }
};

// ---------------------------------------------------------------- pattern mining (not modelled)
template<class T> class FPattern {
public:
    int64_t getSupport() const { return 0; }
    size_t getLen() const { return 0; }
    std::vector<T> getPatternElements() const { return std::vector<T>(); }
    bool contains(const T &) const { return false; }
};
template<class T> class PatternContainer { public: PatternContainer(int) {} virtual void add(const FPattern<T> &) = 0; virtual ~PatternContainer() {} };
template<class T> class FPTree { public: template<class... A> FPTree(A...) {} template<class... A> void insert(A...) {} template<class... A> void mine(A...) {} };

// ---------------------------------------------------------------- program arguments
class ProgramArgs {
public:
    struct Val { std::string v; bool set; bool empty() const { return !set; } template<class T> T as() const { return Utils::lexical_cast<T>(v); } };
    std::map<std::string, Val> vals;
    struct GroupArgs { template<class T, class... A> GroupArgs &add(A...) { return *this; } };
    Val &operator[](std::string k) { return vals[k]; }
    bool count(std::string k) { return vals.count(k) && vals[k].set; }
};
template<> inline std::string ProgramArgs::Val::as<std::string>() const { return v; }
#endif
