// Worker pool: tasks under every schedule of workers, of the thread that adds and removes tasks, and of time.
#define private public
#define protected public
#include "WorkersPool.hh"
#undef private
#undef protected
#include "common.hh"
#include <time.h>
#include <new>
extern "C" { int64_t symx_now_ns = 1000000000ll; }
namespace std { namespace chrono { inline namespace _V2 { // time goes on while it is looked at
system_clock::time_point system_clock::now() noexcept { return time_point(duration(++symx_now_ns)); }
steady_clock::time_point steady_clock::now() noexcept { return time_point(duration(++symx_now_ns)); }
} } }
#ifndef PREEMPT
#define PREEMPT 2
#endif
#ifndef ATIMES
#define ATIMES 1
#endif
#ifndef SPREEMPT
#define SPREEMPT 0
#endif
static const int64_t MS = 1000000;
static void nap(int64_t ns) { timespec t = {ns / 1000000000, ns % 1000000000}; nanosleep(&t, NULL); }
struct Job : Runnable {
    Job(int i) : Runnable(false) { setId(i); due = symx_now_ns; }
    std::vector<int> processFrame(int& ret) {
        symx_assert(!inside, "a task never runs twice at once");
        symx_assert(registered, "a removed task does not run");
        symx_assert(symx_now_ns > due, "a task does not run before it is due");
        if (runs && symx_now_ns - due > late) late = symx_now_ns - due; inside = true; runs++; got += in; in = 0; started = symx_now_ns;
        if (takes) nap(takes); else symx_yield();
        inside = false; ret = (int)delayUs; due = symx_now_ns + delayUs * 1000;
        std::vector<int> e; if (times-- > 0) { if (target) { target->in++; target->since = symx_now_ns; given++; e.push_back(target->getId()); } if (again) e.push_back(getId()); if (other >= 0) e.push_back(other); }
        return e;
    }
    bool pendingJobs() { std::lock_guard<std::mutex> g(mtx); return pend-- > 0; }
    bool inside = false, registered = true, again = false; int runs = 0, got = 0, in = 0, given = 0, times = 0, pend = 0, other = -1; int64_t late = 0, delayUs = 0, takes = 0, due = 0, started = 0, since = 0; Job* target = NULL;
};
extern "C" void harness(void)
{
    int cs = symx_case(); symx_preempt(cs >= 10 ? PREEMPT + 1 : PREEMPT); cs %= 10; 
    Job* a = new Job(1); Job* b = new Job(2); Job* c = new Job(3);
    WorkersPool* p = new WorkersPool(2);
    if (cs == 0) { // a feeds b; every activation is followed by a run
        a->target = b; a->times = 2; a->again = true; b->takes = symx_choose(0, 1, "busy") * MS;
        symx_assert(p->addTask(a) && p->addTask(b), "added"); nap(100 * MS);
        symx_assert(a->runs == 3 && a->given == 2, "a task that enables itself runs again"); symx_assert(b->got == 2, "an enabled task runs after it was enabled"); symx_reach("fed");
    } else if (cs == 1) { // two tasks running, a third one fed by both
        a->target = c; b->target = c; a->times = b->times = 1; a->takes = symx_choose(0, 1, "a") * MS; b->takes = symx_choose(0, 1, "b") * MS; c->takes = symx_choose(0, 1, "c") * MS; a->pend = 1;
        symx_assert(p->addTask(c) && p->addTask(a) && p->addTask(b), "added"); nap(100 * MS);
        symx_assert(c->got == 2, "an enabled task runs after it was enabled"); symx_assert(a->runs == 2 && b->runs == 1, "a task with pending work runs again, the others do not"); symx_reach("both");
    } else if (cs == 2) { // a task enabled while it is running, behind another running one
        a->takes = 3 * MS; b->takes = 5 * MS; c->takes = 0; c->target = b; c->times = 1; a->target = c; a->times = 1; a->other = symx_choose(0, 1, "self") ? 1 : -1;
        symx_assert(p->addTask(a) && p->addTask(b), "added"); symx_assert(p->addTask(c), "added"); nap(200 * MS);
        symx_assert(c->got == 1 && b->got == 1, "an enabled task runs after it was enabled"); symx_reach("chain");
    } else if (cs == 3) { // a removed task is not touched any more
        a->target = b; a->times = 2; a->again = true; b->pend = 1; b->takes = symx_choose(0, 1, "busy") * MS; b->delayUs = symx_choose(0, 1, "slow") * 5000;
        symx_assert(p->addTask(a) && p->addTask(b), "added"); if (symx_choose(0, 1, "later")) nap(MS / 2);
        symx_assert(p->removeTask(2), "removed"); symx_assert(!b->inside, "a removed task has finished"); b->registered = false; b->~Job(); operator delete(b); b = NULL; a->target = NULL; symx_reach("gone");
        nap(50 * MS); symx_assert(!p->removeTask(2), "removed once");
    } else if (cs == 4) { // a task that is due does not wait behind one that is not
        a->delayUs = 1000000; a->times = 1; a->again = true; b->times = 1; b->again = true; b->delayUs = 2000;
        symx_assert(p->addTask(a), "added"); nap(MS); symx_assert(a->runs == 1, "the first one ran"); symx_assert(p->addTask(b), "added"); nap(100 * MS);
        symx_assert(b->runs == 2, "a task that is due runs while another one waits for its time"); symx_assert(a->runs == 1, "not early"); nap(1000 * MS); symx_assert(a->runs == 2, "a task runs when it is due"); symx_reach("due");
    } else if (cs == 5) { // the pool is stopped at any moment
        a->target = b; a->times = 3; a->again = true; b->takes = MS; a->delayUs = symx_choose(0, 1, "slow") * 20000;
        int64_t later = symx_choose(0, 2, "later"); symx_assert(p->addTask(a) && p->addTask(b), "added"); if (later) nap(later * MS); p->stop();
        symx_assert(!a->inside && !b->inside, "nothing runs once the pool is stopped"); int r = a->runs + b->runs; nap(50 * MS); symx_assert(a->runs + b->runs == r, "nothing runs once the pool is stopped"); symx_reach("stopped");
    } else if (cs == 7) { // any running times and delays
        symx_preempt(SPREEMPT); a->target = b; a->times = ATIMES; a->again = true; a->takes = symx_range(0, 5000, "a takes") * 1000; b->takes = symx_range(0, 5000, "b takes") * 1000; a->delayUs = symx_range(0, 20000, "a delay"); b->delayUs = symx_range(0, 20000, "b delay");
        symx_assert(p->addTask(a) && p->addTask(b), "added"); nap(200 * MS);
        symx_assert(a->runs == ATIMES + 1 && a->given == ATIMES, "a task that enables itself runs again"); symx_assert(b->got == ATIMES, "an enabled task runs after it was enabled"); symx_reach("any times");
    } else if (cs == 8) { // removal at any moment
        symx_preempt(SPREEMPT); a->target = b; a->times = 1; a->again = true; b->takes = symx_range(0, 5000, "b takes") * 1000; b->delayUs = symx_range(0, 5000, "b delay"); a->delayUs = symx_range(0, 5000, "a delay");
        symx_assert(p->addTask(a) && p->addTask(b), "added"); nap(symx_range(0, 10000, "later") * 1000);
        symx_assert(p->removeTask(2), "removed"); symx_assert(!b->inside, "a removed task has finished"); b->registered = false; b->~Job(); operator delete(b); b = NULL; a->target = NULL; symx_reach("gone any time"); nap(50 * MS);
    } else if (cs == 9) { // tasks run when they are due, whatever the delays
        symx_preempt(SPREEMPT); a->times = b->times = 2; a->again = b->again = true; a->delayUs = symx_range(0, 15000, "a delay"); b->delayUs = symx_range(0, 15000, "b delay");
        symx_assert(p->addTask(a), "added"); if (symx_choose(0, 1, "apart")) nap(symx_range(1, 1000, "gap") * 1000); symx_assert(p->addTask(b), "added"); nap(60 * MS);
        symx_assert(a->runs == 3 && b->runs == 3, "every activation runs"); symx_assert(a->late <= MS && b->late <= MS, "a task runs when it is due while a worker is idle"); symx_reach("on time");
    } else { // registration
        Job* n = new Job(-1); n->id = -1; symx_assert(!p->addTask(n), "a task without identifier is refused"); delete n;
        symx_assert(p->addTask(a) && !p->addTask(a) && !p->removeTask(2) && !p->removeTask(7), "tasks are added once and only known ones removed");
        symx_assert(p->removeTask(1) && !p->removeTask(1) && p->addTask(a), "a removed task can be added again"); nap(20 * MS); symx_assert(a->runs >= 1 && a->runs <= 2, "and runs"); symx_reach("registered");
    }
    if (symx_case() % 10 < 3) { a->registered = b->registered = c->registered = true; }
    delete p; delete a; delete b; delete c; symx_reach("joined");
}
