#include "race.h"
#include "vsched.h"
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <string>
#include <vector>
#include <unordered_map>
#include <malloc.h>
#include <pthread.h>
#include <dlfcn.h>
#include <sys/mman.h>
#include <unistd.h>
#include <string.h>
using namespace std;
extern "C" void __libc_free(void *);
extern "C" void *__libc_malloc(size_t);
namespace {
typedef uint32_t Clk;
const int MAXT = 400;
struct VC { Clk c[MAXT]; int n; };
bool on = false;
VC vc[MAXT];
unordered_map<const void *, VC *> *objs;
struct Acc { uint16_t t; uint8_t mask; Clk c; void *pc; };
struct Cell { Acc w; Acc r[3]; };
const int PCELLS = 512;
unordered_map<uintptr_t, Cell *> *pages;
vector<Cell *> *freePages;
thread_local int me = -1;
thread_local bool busy = false;
struct Busy { bool b; Busy() : b(busy) { busy = true; } ~Busy() { busy = b; } };
Cell *cell(uintptr_t a, bool make) {
    static thread_local uintptr_t lastPage = 0; static thread_local Cell *last = nullptr; static thread_local long lastGen = -1;
    extern long generation;
    uintptr_t p = a >> 12;
    if (p == lastPage && lastGen == generation && last) return last + ((a >> 3) & (PCELLS - 1));
    auto i = pages->find(p);
    Cell *c;
    if (i == pages->end()) {
        if (!make) return nullptr;
        if (!freePages->empty()) { c = freePages->back(); freePages->pop_back(); ::memset((void *) c, 0, sizeof(Cell) * PCELLS); }
        else c = (Cell *) mmap(nullptr, sizeof(Cell) * PCELLS, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
        (*pages)[p] = c;
    } else c = i->second;
    lastPage = p; last = c; lastGen = generation;
    return c + ((a >> 3) & (PCELLS - 1));
}
long generation = 0;
bool before(const Acc &x, int t) { return x.c == 0 || x.t == t || x.c <= vc[t].c[x.t]; }
string sym(void *pc) {
    Dl_info d; string s; char cmd[600];
    uintptr_t off = (uintptr_t) pc - 1;
    if (dladdr(pc, &d)) off -= (uintptr_t) d.dli_fbase;
    snprintf(cmd, sizeof(cmd), "addr2line -Cfe /proc/%d/exe 0x%lx 2>/dev/null", getpid(), (unsigned long) off);
    FILE *f = popen(cmd, "r"); char b[400];
    while (f && fgets(b, sizeof(b), f)) { string x = b; while (!x.empty() && x.back() == '\n') x.pop_back(); if (x.size() > 150) x.resize(150); s += (s.empty() ? "" : " at ") + x; }
    if (f) pclose(f);
    return s;
}
void report(const Acc &a, bool aw, int t, bool w, void *pc) {
    on = false;
    string m = string("data race: ") + (w ? "write" : "read") + " in " + sym(pc) + " (thread " + to_string(t) + ") is not ordered with the " + (aw ? "write" : "read") + " in " + sym(a.pc) + " (thread " + to_string(a.t) + ")";
    sched::fail(m);
}
inline void access(uintptr_t a, int size, bool w, void *pc) {
    if (!on || me < 0 || busy) return;
    Busy b;
    while (size > 0) {
        int off = a & 7, n = min(size, 8 - off);
        uint8_t mask = (uint8_t) (((1u << n) - 1) << off);
        Cell *c = cell(a, true);
        int t = me; Clk now = vc[t].c[t];
        if (!(c->w.c && c->w.t == t && c->w.c == now && (c->w.mask & mask) == mask)) { // not just written by us
            if ((c->w.mask & mask) && !before(c->w, t)) report(c->w, true, t, w, pc);
            if (w) {
                for (auto &r : c->r) { if ((r.mask & mask) && !before(r, t)) report(r, false, t, w, pc); }
                if (c->w.c && c->w.t == t && c->w.c == now) c->w.mask |= mask; else c->w = Acc{(uint16_t) t, mask, now, pc};
                for (auto &r : c->r) if ((r.mask & ~mask) == 0) r.c = 0, r.mask = 0;
            } else {
                Acc *slot = nullptr;
                for (auto &r : c->r) if (r.c && r.t == t) { slot = &r; break; }
                if (slot && slot->c == now) { slot->mask |= mask; }
                else {
                    if (!slot) for (auto &r : c->r) if (r.c == 0 || before(r, t)) { slot = &r; break; }
                    if (!slot) slot = &c->r[now % 3];
                    *slot = Acc{(uint16_t) t, mask, now, pc};
                }
            }
        } else if (w) { for (auto &r : c->r) if ((r.mask & mask) && !before(r, t)) report(r, false, t, w, pc); }
        a += n; size -= n;
    }
}
void forget(uintptr_t a, size_t n) {
    if (!pages) return;
    Busy b;
    uintptr_t e = a + n;
    while (a < e) {
        uintptr_t pe = (a | 4095) + 1, se = min(pe, e);
        auto i = pages->find(a >> 12);
        if (i != pages->end()) {
            if (a == (pe - 4096) && se == pe) { freePages->push_back(i->second); pages->erase(i); ++generation; }
            else for (uintptr_t x = a & ~7ul; x < se; x += 8) ::memset((void *) (i->second + ((x >> 3) & (PCELLS - 1))), 0, sizeof(Cell));
        }
        a = se;
    }
}
void acquireVC(int t, VC *o) { if (o->n > vc[t].n) vc[t].n = o->n; for (int i = 0; i < o->n; ++i) if (o->c[i] > vc[t].c[i]) vc[t].c[i] = o->c[i]; }
VC *obj(const void *p) { auto &v = (*objs)[p]; if (!v) { v = (VC *) __libc_malloc(sizeof(VC)); ::memset((void *) v, 0, sizeof(VC)); } return v; }
void acq(int t, const void *p) { if (!on) return; Busy b; auto i = objs->find(p); if (i != objs->end()) acquireVC(t, i->second); }
void rel(int t, const void *p) { if (!on) return; Busy b; VC *o = obj(p); if (vc[t].n > o->n) o->n = vc[t].n; for (int i = 0; i < vc[t].n; ++i) if (vc[t].c[i] > o->c[i]) o->c[i] = vc[t].c[i]; vc[t].c[t]++; }
void hreset() {
    Busy b;
    if (!objs) { objs = new unordered_map<const void *, VC *>; pages = new unordered_map<uintptr_t, Cell *>; freePages = new vector<Cell *>; }
    for (auto &o : *objs) __libc_free(o.second);
    objs->clear();
    for (auto &p : *pages) freePages->push_back(p.second);
    pages->clear(); ++generation;
    ::memset((void *) vc, 0, sizeof(vc));
    vc[0].c[0] = 1; vc[0].n = 1; me = 0; on = true;
}
void hrun(int t) {
    me = t;
    if (t < 0) return;
    Busy b; pthread_attr_t a; void *lo; size_t n;
    if (pthread_getattr_np(pthread_self(), &a) == 0) { pthread_attr_getstack(&a, &lo, &n); pthread_attr_destroy(&a); forget((uintptr_t) lo, n); }
}
void hfork(int p, int c) { if (!on || c >= MAXT) return; acquireVC(c, &vc[p]); if (vc[c].n < c + 1) vc[c].n = c + 1; vc[c].c[c] = 1; vc[p].c[p]++; }
void hjoin(int w, int e) { if (!on) return; acquireVC(w, &vc[e]); }
void hstop() { on = false; me = -1; }
race::Hooks H = {hreset, hrun, hfork, hjoin, acq, rel, hstop};
struct Reg { Reg() { race::hooks = &H; } } reg;
}
extern "C" {
void free(void *p) { if (p && on && me >= 0 && !busy) forget((uintptr_t) p, malloc_usable_size(p)); __libc_free(p); }
void __cxa_guard_release(uint64_t *g) { static void (*r)(uint64_t *); if (!r) r = (void (*)(uint64_t *)) dlsym(RTLD_NEXT, "__cxa_guard_release"); if (on && me >= 0) rel(me, g); r(g); }
#define PC __builtin_return_address(0)
void *vrace_memcpy(void *d, const void *s, size_t n) { access((uintptr_t) s, n, false, PC); access((uintptr_t) d, n, true, PC); return ::memcpy(d, s, n); }
void *vrace_memmove(void *d, const void *s, size_t n) { access((uintptr_t) s, n, false, PC); access((uintptr_t) d, n, true, PC); return ::memmove(d, s, n); }
void *vrace_memset(void *d, int c, size_t n) { access((uintptr_t) d, n, true, PC); return ::memset(d, c, n); }
void __tsan_init() {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit() {}
#define RW(n) void __tsan_read##n(void *a) { access((uintptr_t) a, n, false, PC); } void __tsan_write##n(void *a) { access((uintptr_t) a, n, true, PC); } \
    void __tsan_unaligned_read##n(void *a) { access((uintptr_t) a, n, false, PC); } void __tsan_unaligned_write##n(void *a) { access((uintptr_t) a, n, true, PC); } \
    void __tsan_volatile_read##n(void *a) { access((uintptr_t) a, n, false, PC); } void __tsan_volatile_write##n(void *a) { access((uintptr_t) a, n, true, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *a, size_t n) { access((uintptr_t) a, n, false, PC); }
void __tsan_write_range(void *a, size_t n) { access((uintptr_t) a, n, true, PC); }
void __tsan_vptr_update(void **a, void *v) { if (*a != v) access((uintptr_t) a, 8, true, PC); }
void __tsan_vptr_read(void **a) { access((uintptr_t) a, 8, false, PC); }
void __tsan_atomic_thread_fence(int) { __atomic_thread_fence(__ATOMIC_SEQ_CST); }
void __tsan_atomic_signal_fence(int) {}
static inline void A(const volatile void *p) { if (on && me >= 0 && !busy) acq(me, (const void *) p); }
static inline void R(const volatile void *p) { if (on && me >= 0 && !busy) rel(me, (const void *) p); }
#define AT(n, T) \
    T __tsan_atomic##n##_load(const volatile T *a, int) { T r = __atomic_load_n(a, 5); A(a); return r; } \
    void __tsan_atomic##n##_store(volatile T *a, T v, int) { R(a); __atomic_store_n(a, v, 5); } \
    T __tsan_atomic##n##_exchange(volatile T *a, T v, int) { A(a); R(a); return __atomic_exchange_n(a, v, 5); } \
    T __tsan_atomic##n##_fetch_add(volatile T *a, T v, int) { A(a); R(a); return __atomic_fetch_add(a, v, 5); } \
    T __tsan_atomic##n##_fetch_sub(volatile T *a, T v, int) { A(a); R(a); return __atomic_fetch_sub(a, v, 5); } \
    T __tsan_atomic##n##_fetch_and(volatile T *a, T v, int) { A(a); R(a); return __atomic_fetch_and(a, v, 5); } \
    T __tsan_atomic##n##_fetch_or(volatile T *a, T v, int) { A(a); R(a); return __atomic_fetch_or(a, v, 5); } \
    T __tsan_atomic##n##_fetch_xor(volatile T *a, T v, int) { A(a); R(a); return __atomic_fetch_xor(a, v, 5); } \
    int __tsan_atomic##n##_compare_exchange_strong(volatile T *a, T *c, T v, int, int) { A(a); R(a); return __atomic_compare_exchange_n(a, c, v, 0, 5, 5); } \
    int __tsan_atomic##n##_compare_exchange_weak(volatile T *a, T *c, T v, int, int) { A(a); R(a); return __atomic_compare_exchange_n(a, c, v, 0, 5, 5); } \
    T __tsan_atomic##n##_compare_exchange_val(volatile T *a, T c, T v, int, int) { A(a); R(a); __atomic_compare_exchange_n(a, &c, v, 0, 5, 5); return c; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
}
