// Happens-before race detection on top of the controlled scheduler (sched.cpp calls these; without
// race.cpp they do nothing). Sources are compiled with -fsanitize=thread, whose hooks race.cpp supplies.
#ifndef VRACE_H
#define VRACE_H
#include <cstddef>
namespace race {
struct Hooks {
    void (*reset)();                     // a new execution starts in thread 0
    void (*run)(int tid);                // this OS thread runs as tid from now on
    void (*fork)(int parent, int child);
    void (*join)(int waiter, int ended);
    void (*acquire)(int tid, const void *);
    void (*release)(int tid, const void *);
    void (*stop)();
};
extern Hooks *hooks;                     // null unless race.cpp is linked
}
#endif
