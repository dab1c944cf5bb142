// A controlled scheduler: one thread runs at a time, and at every synchronisation operation
// (mutex, condition variable, thread creation, join and exit, futex of std::future, yield, sleep)
// the scheduler decides who continues. explore() runs a body under every schedule within a bound.
#ifndef SCHED_H
#define SCHED_H
#include <functional>
#include <string>
namespace sched {
struct Opts {
    int budget = 1;          // preemptions (or delays) per schedule
    bool delays = false;     // delay bounding: every deviation from round robin costs, also at blocking points
    bool spurious = false;   // condition variables may wake up spuriously (costs one)
    bool unlockPoints = false;
    long maxRuns = 2000000;
    int part = 0, parts = 1; // only the schedules whose first deviation is at decision number part (mod parts)
    int seconds = 60;        // a single schedule may take this long
};
struct Result { long schedules, steps, decisions, threads; bool capped; };
// runs body in a child process under every schedule; a violation is raised as vh::Fail in the caller
Result explore(const Opts &, const std::function<void()> &body, const std::string &replaySchedule = "");
void point();                // explicit scheduling point
bool active();
void fail(const std::string &);
}
#endif
