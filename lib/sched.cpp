#include "vsched.h"
#include "vh.h"
#include "race.h"
#include <pthread.h>
#include <sched.h>
#include <dlfcn.h>
#include <errno.h>
#include <linux/futex.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <sys/prctl.h>
#include <stdarg.h>
#include <time.h>
#include <signal.h>
#include <exception>
#include <deque>
#include <map>
#include <vector>
using namespace std;
namespace race { Hooks *hooks = nullptr; }
#define RACE(x) do { if (race::hooks) race::hooks->x; } while (0)
namespace {
template<class F> F *real(const char *n) { return (F *) dlsym(RTLD_NEXT, n); }
typedef long sysf(long, ...);
sysf *r_syscall;
int (*r_create)(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *);
int (*r_join)(pthread_t, void **);
int (*r_detach)(pthread_t);
int (*r_lock)(pthread_mutex_t *), (*r_trylock)(pthread_mutex_t *), (*r_unlock)(pthread_mutex_t *);
int (*r_wait)(pthread_cond_t *, pthread_mutex_t *), (*r_timedwait)(pthread_cond_t *, pthread_mutex_t *, const struct timespec *);
int (*r_clockwait)(pthread_cond_t *, pthread_mutex_t *, clockid_t, const struct timespec *);
int (*r_signal)(pthread_cond_t *), (*r_broadcast)(pthread_cond_t *);
int (*r_nanosleep)(const struct timespec *, struct timespec *), (*r_usleep)(useconds_t), (*r_yield)(void);
int (*r_clocknanosleep)(clockid_t, int, const struct timespec *, struct timespec *);
void init() {
    if (r_broadcast) return;
    r_syscall = real<sysf>("syscall");
    r_create = real<int(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *)>("pthread_create");
    r_join = real<int(pthread_t, void **)>("pthread_join"); r_detach = real<int(pthread_t)>("pthread_detach");
    r_lock = real<int(pthread_mutex_t *)>("pthread_mutex_lock"); r_trylock = real<int(pthread_mutex_t *)>("pthread_mutex_trylock"); r_unlock = real<int(pthread_mutex_t *)>("pthread_mutex_unlock");
    r_wait = real<int(pthread_cond_t *, pthread_mutex_t *)>("pthread_cond_wait");
    r_timedwait = real<int(pthread_cond_t *, pthread_mutex_t *, const struct timespec *)>("pthread_cond_timedwait");
    r_clockwait = real<int(pthread_cond_t *, pthread_mutex_t *, clockid_t, const struct timespec *)>("pthread_cond_clockwait");
    r_signal = real<int(pthread_cond_t *)>("pthread_cond_signal");
    r_nanosleep = real<int(const struct timespec *, struct timespec *)>("nanosleep"); r_usleep = real<int(useconds_t)>("usleep"); r_yield = real<int()>("sched_yield");
    r_clocknanosleep = real<int(clockid_t, int, const struct timespec *, struct timespec *)>("clock_nanosleep");
    r_broadcast = real<int(pthread_cond_t *)>("pthread_cond_broadcast");
}
enum State { RUN, MUTEX, COND, JOIN, FUTEX, SLEEP, DONE };
struct T {
    int id; State st = RUN; void *obj = nullptr; bool timed = false, timedOut = false, woken = false, detached = false;
    int val = 0; void *mtx = nullptr; pthread_t pt{}; int sem = 0; T *joinTarget = nullptr; void *(*fn)(void *) = nullptr; void *arg = nullptr; void *ret = nullptr;
};
struct Decision { vector<int> alt; vector<int> cost; int chosen; };
struct Shared { long runs, steps, decisions, threads; int failed, capped; char msg[6000]; };
// ---- state of the current run (only touched by the running thread)
bool on = false;
vector<T *> ts;
map<void *, pair<T *, int>> owner;
vector<Decision> trail; size_t depth; bool deviated; int budget; long steps; sched::Opts opt; Shared *sh;
vector<int> replay;
thread_local T *self = nullptr;
void semWait(T *t) { while (__atomic_load_n(&t->sem, __ATOMIC_ACQUIRE) == 0) r_syscall(SYS_futex, &t->sem, FUTEX_WAIT, 0, nullptr, nullptr, 0); __atomic_store_n(&t->sem, 0, __ATOMIC_RELEASE); }
void semPost(T *t) { __atomic_store_n(&t->sem, 1, __ATOMIC_RELEASE); r_syscall(SYS_futex, &t->sem, FUTEX_WAKE, 1, nullptr, nullptr, 0); }
string schedule() { string s; for (size_t i = 0; i < depth && i < trail.size(); ++i) { s += (i ? "," : "") + to_string(trail[i].alt[trail[i].chosen]); } return s; }
[[noreturn]] void die(const string &m) {
    string s = schedule();
    snprintf(sh->msg, sizeof(sh->msg), "%s [schedule %s]", m.c_str(), s.size() > 3000 ? ("..." + s.substr(s.size() - 3000)).c_str() : s.c_str());
    sh->failed = 1;
    _exit(3);
}
bool enabled(T *t) {
    switch (t->st) {
    case RUN: case SLEEP: return true;
    case MUTEX: { auto i = owner.find(t->obj); return i == owner.end() || i->second.first == nullptr; }
    case COND: return false;
    case JOIN: return t->joinTarget->st == DONE;
    case FUTEX: return t->woken || __atomic_load_n((int *) t->obj, __ATOMIC_ACQUIRE) != t->val;
    default: return false;
    }
}
// choose who continues; 'must' if the current thread cannot
void pick() {
    if (++steps > 300000) die("no progress: more than 300000 scheduling points");
    alarm(opt.seconds);
    vector<T *> en;
    int n = ts.size();
    bool sleeping = false;
    for (int i = 0; i < n; ++i) { T *t = ts[(self->id + i) % n]; if (t->st == SLEEP) { sleeping = true; continue; } if (enabled(t)) en.push_back(t); }
    if (en.empty()) {
        if (sleeping) { for (T *t : ts) if (t->st == SLEEP) en.push_back(t); }
        else for (T *t : ts) if (t->st == COND && t->timed) { en.push_back(t); }
        if (en.empty()) {
            string d;
            for (T *t : ts) if (t->st != DONE) d += " thread " + to_string(t->id) + (t->st == MUTEX ? " waits for a mutex" : t->st == COND ? " waits on a condition variable" : t->st == JOIN ? " joins thread " + to_string(t->joinTarget->id) : " waits for a future") + ";";
            die("deadlock:" + d);
        }
    }
    vector<T *> alt; vector<int> cost;
    bool cur = !en.empty() && en[0] == self;
    for (size_t i = 0; i < en.size(); ++i) { int c = opt.delays ? (int) i : (cur && i > 0 ? 1 : 0); if (c <= budget) { alt.push_back(en[i]); cost.push_back(c); } }
    if (opt.spurious && budget >= 1) for (T *t : ts) if (t->st == COND && !(en.size() && en[0]->st == COND)) { alt.push_back(t); cost.push_back(1); }
    T *next;
    if (alt.size() > 1 && !deviated && replay.empty() && depth % opt.parts != (size_t) opt.part) { alt.resize(1); cost.resize(1); depth == trail.size() ? trail.push_back(Decision{{alt[0]->id}, {cost[0]}, 0}) : (void) 0; depth++; next = alt[0]; }
    else if (alt.size() == 1) next = alt[0];
    else {
        size_t c = 0;
        if (depth < trail.size()) {
            Decision &d = trail[depth];
            c = d.chosen;
            bool same = d.alt.size() == alt.size();
            for (size_t i = 0; same && i < alt.size(); ++i) same = d.alt[i] == alt[i]->id;
            if (!same) { trail.resize(depth); c = 0; vh::add("divergences"); }
        } else if (!replay.empty() && depth < replay.size()) {
            for (size_t i = 0; i < alt.size(); ++i) if (alt[i]->id == replay[depth]) c = i;
        }
        if (depth >= trail.size()) { Decision d; for (auto t : alt) d.alt.push_back(t->id); d.cost = cost; d.chosen = c; trail.push_back(d); }
        next = alt[c]; budget -= cost[c]; depth++; if (c) deviated = true;
    }
    if (next->st == COND) { next->timedOut = next->timed; next->st = MUTEX; next->obj = next->mtx; } // time-out or spurious wake-up
    if (next != self) { T *me = self; bool done = me->st == DONE; semPost(next); if (!done) semWait(me); }
}
void block(State st, void *obj) { self->st = st; self->obj = obj; do pick(); while (!enabled(self)); self->st = RUN; }
void lock(void *m, bool point) {
    if (point) pick();
    auto &o = owner[m];
    if (o.first == self) { // recursive mutex or error
        if (((pthread_mutex_t *) m)->__data.__kind == PTHREAD_MUTEX_RECURSIVE) { o.second++; return; }
        die("deadlock: thread " + to_string(self->id) + " locks a mutex it holds");
    }
    if (o.first) { block(MUTEX, m); }
    owner[m] = {self, 1};
    RACE(acquire(self->id, m));
}
void unlock(void *m) {
    auto i = owner.find(m);
    if (i == owner.end() || i->second.first != self) die("thread " + to_string(self->id) + " unlocks a mutex it does not hold");
    RACE(release(self->id, m));
    if (--i->second.second == 0) { owner.erase(i); if (opt.unlockPoints) pick(); }
}
int condWait(pthread_cond_t *c, pthread_mutex_t *m, bool timed) {
    pick(); // between the test of the condition and the wait
    int cnt = owner[m].second; if (owner[m].first != self) die("condition variable waited on without its mutex");
    owner.erase(m);
    RACE(release(self->id, m));
    self->st = COND; self->obj = c; self->mtx = m; self->timed = timed; self->timedOut = false;
    pick();
    while (!enabled(self)) pick();
    self->st = RUN; self->timed = false;
    owner[m] = {self, cnt};
    RACE(acquire(self->id, m));
    return self->timedOut ? ETIMEDOUT : 0;
}
void condWake(void *c, bool all) { for (T *t : ts) if (t->st == COND && t->obj == c) { t->st = MUTEX; t->obj = t->mtx; t->timedOut = false; if (!all) return; } }
void *trampoline(void *p) {
    T *t = (T *) p; self = t;
    semWait(t);
    RACE(run(t->id));
    t->ret = t->fn(t->arg);
    t->st = DONE;
    RACE(run(-1)); // what follows is thread exit, it runs beside the next thread
    pick();
    return t->ret;
}
inline bool ctl() { return on && self; }
}
// With several waiters, signal wakes the longest waiting one here (glibc makes no promise; the order is a schedule choice
// only when it matters, see explore)
extern "C" {
int pthread_create(pthread_t *t, const pthread_attr_t *a, void *(*f)(void *), void *arg) {
    init(); if (!ctl()) return r_create(t, a, f, arg);
    T *n = new T; n->id = ts.size(); n->fn = f; n->arg = arg; ts.push_back(n);
    if ((long) ts.size() > sh->threads) sh->threads = ts.size();
    RACE(fork(self->id, n->id));
    int r = r_create(&n->pt, a, trampoline, n); if (r) die("pthread_create failed");
    *t = n->pt;
    pick();
    return 0;
}
int pthread_join(pthread_t t, void **v) {
    init(); if (!ctl()) return r_join(t, v);
    T *x = nullptr; for (T *k : ts) if (k != ts[0] && pthread_equal(k->pt, t) && !k->detached) x = k;
    if (!x) return r_join(t, v);
    self->joinTarget = x; self->st = JOIN; do pick(); while (!enabled(self)); self->st = RUN;
    x->detached = true;
    RACE(join(self->id, x->id));
    return r_join(t, v);
}
int pthread_detach(pthread_t t) { init(); if (ctl()) for (T *k : ts) if (k != ts[0] && pthread_equal(k->pt, t)) k->detached = true; return r_detach(t); }
int pthread_mutex_lock(pthread_mutex_t *m) { init(); if (!ctl()) return r_lock(m); lock(m, true); return 0; }
int pthread_mutex_trylock(pthread_mutex_t *m) { init(); if (!ctl()) return r_trylock(m); pick(); auto &o = owner[m]; if (o.first) return EBUSY; o = {self, 1}; RACE(acquire(self->id, m)); return 0; }
int pthread_mutex_unlock(pthread_mutex_t *m) { init(); if (!ctl()) return r_unlock(m); unlock(m); return 0; }
int pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) { init(); if (!ctl()) return r_wait(c, m); return condWait(c, m, false); }
int pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *t) { init(); if (!ctl()) return r_timedwait(c, m, t); return condWait(c, m, true); }
int pthread_cond_clockwait(pthread_cond_t *c, pthread_mutex_t *m, clockid_t k, const struct timespec *t) { init(); if (!ctl()) return r_clockwait(c, m, k, t); return condWait(c, m, true); }
int pthread_cond_signal(pthread_cond_t *c) { init(); if (!ctl()) return r_signal(c); pick(); condWake(c, false); return 0; }
int pthread_cond_broadcast(pthread_cond_t *c) { init(); if (!ctl()) return r_broadcast(c); pick(); condWake(c, true); return 0; }
int sched_yield(void) { init(); if (!ctl()) return r_yield(); pick(); return 0; }
int nanosleep(const struct timespec *a, struct timespec *b) { init(); if (!ctl()) return r_nanosleep(a, b); block(SLEEP, nullptr); return 0; }
int clock_nanosleep(clockid_t c, int f, const struct timespec *a, struct timespec *b) { init(); if (!ctl()) return r_clocknanosleep(c, f, a, b); block(SLEEP, nullptr); return 0; }
int usleep(useconds_t u) { init(); if (!ctl()) return r_usleep(u); block(SLEEP, nullptr); return 0; }
long syscall(long n, ...) {
    init();
    va_list ap; va_start(ap, n); long a[6]; for (int i = 0; i < 6; ++i) a[i] = va_arg(ap, long); va_end(ap);
    if (n != SYS_futex || !ctl()) return r_syscall(n, a[0], a[1], a[2], a[3], a[4], a[5]);
    int op = (int) a[1] & 127 & ~FUTEX_PRIVATE_FLAG & ~FUTEX_CLOCK_REALTIME;
    if (op == FUTEX_WAIT || op == FUTEX_WAIT_BITSET) {
        if (__atomic_load_n((int *) a[0], __ATOMIC_ACQUIRE) != (int) a[2]) { errno = EAGAIN; return -1; }
        self->val = (int) a[2]; self->woken = false; block(FUTEX, (void *) a[0]);
        RACE(acquire(self->id, (void *) a[0]));
        return 0;
    }
    if (op == FUTEX_WAKE || op == FUTEX_WAKE_BITSET) { RACE(release(self->id, (void *) a[0])); pick(); long c = 0; for (T *t : ts) if (t->st == FUTEX && t->obj == (void *) a[0] && c < a[2]) { t->woken = true; ++c; } return c; }
    return r_syscall(n, a[0], a[1], a[2], a[3], a[4], a[5]);
}
}
namespace sched {
bool active() { return ctl(); }
void point() { if (ctl()) pick(); }
void fail(const string &m) { if (sh && on) die(m); vh::fail(m); }
static void onTerminate() {
    string m = "std::terminate";
    try { if (current_exception()) rethrow_exception(current_exception()); }
    catch (vh::Fail &f) { m = f.msg; } catch (std::exception &e) { m = string("exception in a thread: ") + e.what(); } catch (int i) { m = "exception in a thread: int " + to_string(i); } catch (...) { m = "exception in a thread"; }
    die(m);
}
static void onSignal(int s) { die(s == SIGALRM ? string("a schedule does not terminate") : "crash, signal " + to_string(s)); }
Result explore(const Opts &o, const function<void()> &body, const string &rep) {
    init();
    Shared *s = (Shared *) mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    memset(s, 0, sizeof(*s));
    fflush(stdout); fflush(stderr);
    pid_t p = fork();
    if (p == 0) {
        prctl(PR_SET_PDEATHSIG, SIGKILL);
        { cpu_set_t all, c; CPU_ZERO(&all); CPU_ZERO(&c); sched_getaffinity(0, sizeof(all), &all); int n = CPU_COUNT(&all), k = n ? vh::shard % n : 0; for (int i = 0; i < CPU_SETSIZE; ++i) if (CPU_ISSET(i, &all) && k-- == 0) { CPU_SET(i, &c); sched_setaffinity(0, sizeof(c), &c); break; } } // one thread runs at a time: on one core, handing over is cheap
        sh = s; opt = o;
        set_terminate(onTerminate);
        for (int g : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT, SIGALRM}) signal(g, onSignal);
        replay.clear(); { string x; for (char c : rep + ",") if (c == ',') { if (!x.empty()) replay.push_back(atoi(x.c_str())); x.clear(); } else x += c; }
        trail.clear();
        while (true) {
            T *m = new T; m->id = 0; m->pt = pthread_self(); ts.clear(); ts.push_back(m); owner.clear();
            depth = 0; deviated = false; budget = opt.budget; steps = 0; self = m; on = true; RACE(reset());
            if (sh->threads < 1) sh->threads = 1;
            try { body(); }
            catch (vh::Fail &f) { die(f.msg); }
            catch (std::exception &e) { die(string("exception escaped: ") + e.what()); }
            catch (int e) { die("exception escaped: int " + to_string(e)); }
            catch (const char *e) { die(string("exception escaped: ") + e); }
            for (size_t i = 1; i < ts.size(); ++i) while (ts[i]->st != DONE) { m->joinTarget = ts[i]; m->st = JOIN; do pick(); while (!enabled(m)); m->st = RUN; }
            RACE(stop()); on = false; self = nullptr; alarm(0);
            for (size_t i = 1; i < ts.size(); ++i) if (!ts[i]->detached) { /* never joined: leaked by the code */ r_detach(ts[i]->pt); }
            ts.clear(); // the descriptors leak on purpose: exiting threads may still touch them
            sh->runs++; sh->steps += steps; vh::beat();
            trail.resize(min(trail.size(), depth));
            sh->decisions = max(sh->decisions, (long) depth);
            // next schedule
            while (!trail.empty() && trail.back().chosen + 1 >= (int) trail.back().alt.size()) trail.pop_back();
            if (trail.empty() || !rep.empty()) break;
            trail.back().chosen++;
            if (sh->runs >= opt.maxRuns) { sh->capped = 1; break; }
        }
        _exit(0);
    }
    int st = 0; waitpid(p, &st, 0);
    Result r{s->runs, s->steps, s->decisions, s->threads, s->capped != 0};
    string msg = s->msg; bool bad = s->failed;
    munmap(s, sizeof(Shared));
    if (bad) vh::fail(msg);
    if (!WIFEXITED(st) || WEXITSTATUS(st)) vh::fail(vh::fmt("the process died (status %d) after %ld schedules", st, r.schedules));
    return r;
}
}
