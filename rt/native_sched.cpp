// Native replay of a schedule found by the executor: the program's threads are real, but only one runs at a
// time and the recorded choices decide which. The rules are those of symx/exec.inc (scheduleNext, visible).
// Linked with -Wl,--wrap=... for the pthread and std::thread entry points.
#include <pthread.h>
#include <semaphore.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <time.h>
#include <map>
#include <thread>
#include <vector>
extern "C" int symx_native_sched(const char* kind);
extern "C" int64_t symx_now_ns;
struct State { virtual ~State(); virtual void _M_run() = 0; };  // std::thread::_State
State::~State() {}
namespace {
enum { RUN, MUTEX, COND, JOIN, DONE };
struct Th { int stat = RUN; uint64_t on = 0; bool timed = false; int64_t dl = 0; int phase = 0; bool sched = false; sem_t sem; Th() { sem_init(&sem, 0, 0); } };
std::vector<Th*>& thr() { static std::vector<Th*>* v = new std::vector<Th*>(1, new Th); return *v; }
std::map<uint64_t, int>& mtx() { static std::map<uint64_t, int>* m = new std::map<uint64_t, int>; return *m; }
int cur = 0, preempt = 1000000;
Th& me() { return *thr()[cur]; }
bool freeM(uint64_t m) { return mtx()[m] == 0; }
void hang(const char* w) { fprintf(stderr, "SYMX-ASSERT-FAILED: %s\n", w); fflush(stderr); _Exit(77); }
bool can(int t) { Th& T = *thr()[t]; return T.stat == RUN || (T.stat == MUTEX && freeM(T.on)) || (T.stat == JOIN && thr()[T.on]->stat == DONE); }
int live() { int n = 0; for (auto t : thr()) n += t->stat != DONE; return n; }
void give(int from) { if (cur == from) return; sem_post(&thr()[cur]->sem); if (thr()[from]->stat != DONE) while (sem_wait(&thr()[from]->sem)) {} }
void next(bool curCan)
{
    std::vector<int> c; if (curCan) c.push_back(cur);
    for (int t = 0; t < (int)thr().size(); t++) if (!(t == cur && curCan) && can(t)) c.push_back(t);
    if (c.empty()) {
        int64_t dl = INT64_MAX;
        for (auto t : thr()) if (t->stat == COND && t->timed && t->dl < dl) dl = t->dl;
        for (int t = 0; t < (int)thr().size(); t++) if (thr()[t]->stat == COND && thr()[t]->timed && thr()[t]->dl == dl) c.push_back(t);
        if (!c.empty() && dl > symx_now_ns) symx_now_ns = dl;
    }
    if (c.empty()) hang("no thread can make progress");
    if (curCan && preempt <= 0) c.resize(1);
    int n = c[0]; if (c.size() > 1) { n = symx_native_sched("sched"); if (curCan && n != cur) preempt--; }
    cur = n; Th& T = me(); if (T.stat == COND) T.phase = 2; T.stat = RUN; T.sched = true;
}
void visible()
{
    for (;;) {
        if (thr().size() == 1 || live() == 1) return;
        if (me().sched) { me().sched = false; return; }
        int m = cur; next(true); if (cur == m) { me().sched = false; return; }
        give(m);
    }
}
void block(int stat, uint64_t on) { int m = cur; me().stat = stat; me().on = on; next(false); give(m); }
void acquire(uint64_t m) { while (!freeM(m)) block(MUTEX, m); mtx()[m] = cur + 1; }
bool wait(uint64_t cv, uint64_t m, bool timed, int64_t dl)
{
    visible(); mtx()[m] = 0; me().timed = timed; me().dl = dl; block(COND, cv);
    acquire(m); bool late = me().phase == 2; me().phase = 0; return late;
}
int64_t ns(const timespec* t) { return (int64_t)t->tv_sec * 1000000000ll + t->tv_nsec; }
void nap(int64_t d) { if (live() == 1) { symx_now_ns += d; return; } visible(); me().timed = true; me().dl = symx_now_ns + d; block(COND, ~0ull); me().phase = 0; }
struct Boot { int id; State* st; };
void* enter(void* p) { Boot* b = (Boot*)p; int id = b->id; while (sem_wait(&thr()[id]->sem)) {} b->st->_M_run(); delete b->st; delete b; me().stat = DONE; next(false); sem_post(&me().sem); return NULL; }
}
extern "C" {
void symx_preempt(int n) { preempt = n; }
void symx_yield(void) { visible(); }
int __wrap_pthread_mutex_lock(pthread_mutex_t* x)
{
    uint64_t m = (uint64_t)x; visible();
    while (!freeM(m)) { if (mtx()[m] == cur + 1) hang("mutex locked twice by the same thread"); block(MUTEX, m); visible(); }
    mtx()[m] = cur + 1; return 0;
}
int __wrap_pthread_mutex_trylock(pthread_mutex_t* x) { visible(); if (!freeM((uint64_t)x)) return 16; mtx()[(uint64_t)x] = cur + 1; return 0; }
int __wrap_pthread_mutex_unlock(pthread_mutex_t* x) { mtx()[(uint64_t)x] = 0; return 0; }
int __wrap_pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) { wait((uint64_t)c, (uint64_t)m, false, 0); return 0; }
int __wrap_pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const timespec* t) { return wait((uint64_t)c, (uint64_t)m, true, ns(t)) ? 110 : 0; }
int __wrap_pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t, const timespec* t) { return wait((uint64_t)c, (uint64_t)m, true, ns(t)) ? 110 : 0; }
int __wrap_nanosleep(const timespec* t, timespec*) { nap(ns(t)); return 0; }
int __wrap_usleep(useconds_t u) { nap((int64_t)u * 1000); return 0; }
int __wrap_sched_yield(void) { visible(); return 0; }
void __wrap__ZNSt18condition_variable4waitERSt11unique_lockISt5mutexE(void* c, void* l) { wait((uint64_t)c, *(uint64_t*)l, false, 0); }
void __wrap__ZNSt18condition_variable10notify_oneEv(void* c)
{
    visible(); std::vector<int> w; for (int t = 0; t < (int)thr().size(); t++) if (thr()[t]->stat == COND && thr()[t]->on == (uint64_t)c) w.push_back(t);
    if (w.empty()) return; int k = w.size() > 1 ? symx_native_sched("wake") : w[0]; thr()[k]->stat = RUN; thr()[k]->phase = 1;
}
void __wrap__ZNSt18condition_variable10notify_allEv(void* c) { visible(); for (auto t : thr()) if (t->stat == COND && t->on == (uint64_t)c) { t->stat = RUN; t->phase = 1; } }
void __wrap__ZNSt6thread15_M_start_threadESt10unique_ptrINS_6_StateESt14default_deleteIS1_EEPFvvE(uint64_t* th, State** st, void (*)())
{
    int id = (int)thr().size(); thr().push_back(new Th); *th = (uint64_t)id + 1; me().sched = false;
    pthread_t p; pthread_attr_t a; pthread_attr_init(&a); Boot* b = new Boot{id, *st}; *st = NULL; pthread_attr_setdetachstate(&a, PTHREAD_CREATE_DETACHED); pthread_create(&p, &a, enter, b);
}
void __wrap__ZNSt6thread4joinEv(uint64_t* th) { uint64_t t = *th - 1; visible(); while (thr()[t]->stat != DONE) { block(JOIN, t); visible(); } *th = 0; }
void __wrap__ZNSt6thread6detachEv(uint64_t* th) { *th = 0; }
unsigned __wrap__ZNSt6thread20hardware_concurrencyEv(void) { return 2; }
}
