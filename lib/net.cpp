#include "net.h"
#include "vh.h"
#include "vsched.h"
#include <arpa/inet.h>
#include <cerrno>
#include <csignal>
#include <cstdarg>
#include <cstring>
#include <deque>
#include <dlfcn.h>
#include <map>
#include <netdb.h>
#include <poll.h>
#include <pthread.h>
#include <sys/socket.h>
#include <time.h>
#include <unistd.h>
using namespace std;
namespace {
struct Conn { int fd = -1; deque<string> in; string out; bool clientClosed = false, serverClosed = false, wasShut = false; size_t taken = 0; long life = 0; };
pthread_mutex_t mx = PTHREAD_MUTEX_INITIALIZER; pthread_cond_t cv = PTHREAD_COND_INITIALIZER;
bool on = false, refused = false; long ms = 0; size_t cap = 0; int intr = 0, intrCount = 0; bool intrDone = false; int listenFd = -1;
vector<Conn> conns; deque<int> backlog; map<int, int> fds; // descriptor -> connection (-1: listening, -2: not connected)
vector<string> script; bool scriptClose = false, answering = false; string outgoing;
const int BASE = 5000;
struct Lock { Lock() { pthread_mutex_lock(&mx); } ~Lock() { pthread_mutex_unlock(&mx); } };
int newFd(int c) { int f = BASE; while (fds.count(f)) ++f; fds[f] = c; return f; }
void bad(const string &m) { sched::fail(m); }
Conn &conn(int fd, const char *what) { auto i = fds.find(fd); if (i == fds.end() || i->second < 0) bad(string(what) + " on a descriptor that is not open"); return conns[i->second]; }
template<class F> F *real(const char *n) { return (F *) dlsym(RTLD_NEXT, n); }
bool mine(int fd) { return on && fd >= BASE && fd < BASE + 1000; }
}
namespace net {
void reset() { on = true; refused = false; ms = 0; cap = 0; intr = intrCount = 0; intrDone = false; listenFd = -1; conns.clear(); conns.reserve(64); backlog.clear(); fds.clear(); script.clear(); scriptClose = answering = false; outgoing.clear(); }
int dial() { Lock l; conns.push_back(Conn()); backlog.push_back(conns.size() - 1); pthread_cond_broadcast(&cv); return conns.size() - 1; }
void put(int c, const string &s) { Lock l; if (!s.empty()) conns[c].in.push_back(s); pthread_cond_broadcast(&cv); }
void eof(int c) { Lock l; conns[c].clientClosed = true; pthread_cond_broadcast(&cv); }
string take(int c, size_t n) {
    Lock l; Conn *k = &conns[c];
    while (k->out.size() - k->taken < n && !k->serverClosed) { pthread_cond_wait(&cv, &mx); k = &conns[c]; }
    string s = k->out.substr(k->taken, n); k->taken += s.size(); return s;
}
bool closedByServer(int c) { Lock l; return conns[c].serverClosed; }
void awaitClose(int c) { Lock l; while (!conns[c].serverClosed) pthread_cond_wait(&cv, &mx); }
void sendCap(size_t n) { Lock l; cap = n; }
void interrupt(int k) { Lock l; intr = k; }
void await(long t) { Lock l; while (ms < t) pthread_cond_wait(&cv, &mx); }
void refuse() { Lock l; refused = true; pthread_cond_broadcast(&cv); }
long openFds() { Lock l; long n = 0; for (auto &f : fds) if (f.second >= 0) n++; return n; }
long virtualMs() { return ms; }
void answer(const vector<string> &s, bool c) { script = s; scriptClose = c; answering = true; }
string sent() { return outgoing; }
}
extern "C" {
int socket(int d, int t, int p) { if (!on) return real<int(int, int, int)>("socket")(d, t, p); Lock l; return newFd(-2); }
int bind(int fd, const struct sockaddr *a, socklen_t n) { if (!mine(fd)) return real<int(int, const struct sockaddr *, socklen_t)>("bind")(fd, a, n); return 0; }
int listen(int fd, int b) { if (!mine(fd)) return real<int(int, int)>("listen")(fd, b); Lock l; fds[fd] = -1; listenFd = fd; return 0; }
int accept(int fd, struct sockaddr *a, socklen_t *n) {
    if (!mine(fd)) return real<int(int, struct sockaddr *, socklen_t *)>("accept")(fd, a, n);
    Lock l;
    while (backlog.empty() && !refused) pthread_cond_wait(&cv, &mx);
    if (refused || !fds.count(fd)) { errno = EINVAL; return -1; }
    int c = backlog.front(); backlog.pop_front(); conns[c].fd = newFd(c); return conns[c].fd;
}
int connect(int fd, const struct sockaddr *a, socklen_t n) {
    if (!mine(fd)) return real<int(int, const struct sockaddr *, socklen_t)>("connect")(fd, a, n);
    Lock l; conns.push_back(Conn()); fds[fd] = conns.size() - 1; conns.back().fd = fd; return 0;
}
ssize_t recv(int fd, void *b, size_t n, int fl) {
    if (!mine(fd)) return real<ssize_t(int, void *, size_t, int)>("recv")(fd, b, n, fl);
    Lock l; conn(fd, "read");
    long until = conns[fds[fd]].life ? ms + conns[fds[fd]].life : -1;
    while (conn(fd, "read").in.empty() && !conn(fd, "read").clientClosed) { if (until >= 0 && ms >= until) { errno = EAGAIN; return -1; } if (answering) bad("waits for more data than the answer has"); pthread_cond_wait(&cv, &mx); }
    Conn &c = conn(fd, "read");
    if (intr && !intrDone && ++intrCount % intr == 0) { intrDone = true; errno = EINTR; return -1; }
    intrDone = false;
    if (c.in.empty()) return 0;
    string &s = c.in.front(); size_t k = min(n, s.size()); memcpy(b, s.data(), k);
    if (k == s.size()) c.in.pop_front(); else s.erase(0, k);
    return k;
}
ssize_t read(int fd, void *b, size_t n) { if (!mine(fd)) { static auto *r = real<ssize_t(int, void *, size_t)>("read"); return r(fd, b, n); } return recv(fd, b, n, 0); }
ssize_t send(int fd, const void *b, size_t n, int fl) {
    if (!mine(fd)) return real<ssize_t(int, const void *, size_t, int)>("send")(fd, b, n, fl);
    Lock l; Conn &c = conn(fd, "write");
    if (answering) { if (cap) n = min(n, cap); outgoing.append((const char *) b, n); for (auto &s : script) if (!s.empty()) c.in.push_back(s); script.clear(); if (scriptClose) c.clientClosed = true; return n; }
    if (c.clientClosed || c.wasShut) {
        struct sigaction sa; sigaction(SIGPIPE, nullptr, &sa);
        if (!(fl & MSG_NOSIGNAL) && sa.sa_handler == SIG_DFL) bad("the process is killed by SIGPIPE: the client has closed the connection");
        errno = EPIPE; return -1;
    }
    size_t k = cap ? min(n, cap) : n; c.out.append((const char *) b, k); pthread_cond_broadcast(&cv); return k;
}
ssize_t write(int fd, const void *b, size_t n) { if (!mine(fd)) { static auto *r = real<ssize_t(int, const void *, size_t)>("write"); return r(fd, b, n); } return send(fd, b, n, 0); }
int shutdown(int fd, int how) {
    if (!mine(fd)) return real<int(int, int)>("shutdown")(fd, how);
    Lock l; if (fd == listenFd) { refused = true; pthread_cond_broadcast(&cv); return 0; }
    conn(fd, "shutdown").wasShut = true; return 0;
}
int close(int fd) {
    if (!mine(fd)) { static auto *r = real<int(int)>("close"); return r(fd); }
    Lock l; auto i = fds.find(fd); if (i == fds.end()) { bad("close of a descriptor that is not open"); }
    if (i->second >= 0) { conns[i->second].serverClosed = true; conns[i->second].fd = -1; }
    fds.erase(i); pthread_cond_broadcast(&cv); return 0;
}
int setsockopt(int fd, int level, int name, const void *v, socklen_t n) {
    if (!mine(fd)) return real<int(int, int, int, const void *, socklen_t)>("setsockopt")(fd, level, name, v, n);
    Lock l; if (level == SOL_SOCKET && name == SO_RCVTIMEO) { auto *t = (const struct timeval *) v; conn(fd, "setsockopt").life = t->tv_sec * 1000 + t->tv_usec / 1000; }
    return 0;
}
int poll(struct pollfd *p, nfds_t n, int timeout) {
    if (!on || !sched::active()) return real<int(struct pollfd *, nfds_t, int)>("poll")(p, n, timeout);
    Lock l;
    for (bool late = false;; ) {
        int r = 0;
        for (nfds_t i = 0; i < n; ++i) {
            p[i].revents = 0; if (p[i].fd < 0) continue;
            auto f = fds.find(p[i].fd);
            if (f == fds.end() || f->second < 0) p[i].revents = POLLNVAL;
            else { Conn &c = conns[f->second]; if (!c.in.empty() || c.clientClosed) p[i].revents = POLLIN & p[i].events; }
            if (p[i].revents) r++;
        }
        if (r || late) { if (!r) { ms += timeout; pthread_cond_broadcast(&cv); } return r; }
        struct timespec ts = {0, 0};
        late = pthread_cond_timedwait(&cv, &mx, &ts) == ETIMEDOUT;
    }
}
int getaddrinfo(const char *h, const char *s, const struct addrinfo *hints, struct addrinfo **res) {
    if (!on) return real<int(const char *, const char *, const struct addrinfo *, struct addrinfo **)>("getaddrinfo")(h, s, hints, res);
    static struct sockaddr_in a; static struct addrinfo ai; memset(&a, 0, sizeof a); memset(&ai, 0, sizeof ai);
    a.sin_family = AF_INET; a.sin_port = htons(atoi(s)); ai.ai_family = AF_INET; ai.ai_socktype = SOCK_STREAM; ai.ai_addr = (struct sockaddr *) &a; ai.ai_addrlen = sizeof a; *res = &ai; return 0;
}
void freeaddrinfo(struct addrinfo *r) { if (!on) real<void(struct addrinfo *)>("freeaddrinfo")(r); }
int clock_gettime(clockid_t c, struct timespec *t) {
    static auto *r = real<int(clockid_t, struct timespec *)>("clock_gettime");
    if (!on || !sched::active()) return r(c, t);
    t->tv_sec = 1000 + ms / 1000; t->tv_nsec = ms % 1000 * 1000000; return 0;
}
}
