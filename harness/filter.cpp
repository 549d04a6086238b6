// Filter scheduling contract: which frames reach doProcessFrame, what is passed on, who is activated.
#include "symx.h"
#include "Filter.hh"
#include "PipelineManager.hh"
#include "VideoFrame.hh"
#include "AVFramedQueue.hh"
#ifndef EVENTS
#define EVENTS 3
#endif
#ifndef GSTEPS
#define GSTEPS 4
#endif
#ifndef STEPS
#define STEPS 5
#endif
extern "C" int64_t symx_now_ns;
using std::chrono::microseconds;
typedef std::chrono::system_clock::time_point TP;
PipelineManager* PipelineManager::getInstance(const unsigned) { return NULL; }
bool PipelineManager::processFilterEvent(Event, int) { return false; }
static StreamInfo* vp8;
static int allocs;
static int SLOTS = 5;
#define COMMON \
    FrameQueue* allocQueue(ConnectionData cd) { allocs++; return allocOk ? VideoFrameQueue::createNew(cd, vp8, SLOTS) : NULL; } \
    void doGetState(Jzon::Object&) {} \
    bool specificWriterConfig(int) { return wConfOk; } bool specificWriterDelete(int) { wDel++; return true; } \
    bool specificReaderConfig(int, FrameQueue* q) { seenq = q; return rConfOk; } bool specificReaderDelete(int) { rDel++; return true; } \
  public: bool allocOk = true, wConfOk = true, rConfOk = true; int wDel = 0, rDel = 0; FrameQueue* seenq = NULL; int calls = 0; bool result = true; bool use[4] = {true, true, true, true}; \
    using BaseFilter::getSyncTs; using BaseFilter::setSyncTs; using BaseFilter::setSync;

struct Src : HeadFilter {
    Src(FilterRole role, bool periodic, int writers = 2) : HeadFilter(writers, role, periodic) {}
    FrameQueue* allocQueue(ConnectionData cd) { if (!allocOk) return NULL; return VideoFrameQueue::createNew(cd, vp8, SLOTS); }
    void doGetState(Jzon::Object&) {}
    bool allocOk = true, wConfOk = true;
    bool specificWriterConfig(int) { return wConfOk; }
    bool specificWriterDelete(int id) { deleted[id] = true; return true; }
    bool doProcessFrame(std::map<int, Frame*>& d, int& ret) {
        calls++; ret = delay; got = d; 
        for (auto it : d) { symx_assert(!it.second->getConsumed(), "destination frames start unused"); it.second->setConsumed(use[it.first]); it.second->setPresentationTime(microseconds(pts)); it.second->setSequenceNumber(9999); it.second->getDataBuf()[0] = tag; }
        return result;
    }
    bool use[4] = {true, true, true, true}, deleted[4] = {false, false, false, false}, result = true; int delay = 0, calls = 0; int64_t pts = 0; uint8_t tag = 0; std::map<int, Frame*> got;
};
struct One : OneToOneFilter {
    One(bool periodic = false) : OneToOneFilter(REGULAR, periodic) {}
    COMMON
    bool doProcessFrame(Frame* org, Frame* dst) { calls++; o = org; d = dst; seq = org->getSequenceNumber(); dst->setConsumed(use[0]); dst->setSequenceNumber(seq); dst->setPresentationTime(org->getPresentationTime()); return result; }
    Frame *o = NULL, *d = NULL; size_t seq = 0;
};
struct Many : OneToManyFilter {
    Many() : OneToManyFilter(2) {}
    COMMON
    bool doProcessFrame(Frame* org, std::map<int, Frame*>& d) { calls++; seq = org->getSequenceNumber(); for (auto it : d) { it.second->setConsumed(use[it.first]); it.second->setPresentationTime(org->getPresentationTime()); } return result; }
    size_t seq = 0;
};
struct Mix : ManyToOneFilter {
    Mix(bool periodic = false, int readers = 3) : ManyToOneFilter(readers, REGULAR, periodic) {}
    COMMON
    bool doProcessFrame(std::map<int, Frame*>& org, Frame* dst, std::vector<int> nf) { calls++; o = org; n = nf; for (auto it : org) seq[it.first] = it.second->getSequenceNumber(); dst->setConsumed(use[0]); dst->setPresentationTime(microseconds(calls)); return result; }
    std::map<int, Frame*> o; std::vector<int> n; size_t seq[4];
};
struct Sink : TailFilter {
    Sink(FilterRole role = REGULAR, bool periodic = false, int readers = 3) : TailFilter(readers, role, periodic) {}
    void doGetState(Jzon::Object&) {}
    bool specificReaderConfig(int, FrameQueue*) { return rConfOk; } bool specificReaderDelete(int) { rDel++; return true; }
    bool doProcessFrame(std::map<int, Frame*>& org, std::vector<int> nf, int& ret) { calls++; o = org; n = nf; ret = delay; for (auto it : org) seq[it.first] = it.second->getSequenceNumber(); return true; }
    bool rConfOk = true; int rDel = 0, calls = 0, delay = 0; std::map<int, Frame*> o; std::vector<int> n; size_t seq[4];
    using BaseFilter::setSync;
};
static bool has(const std::vector<int>& v, int x) { for (int i : v) if (i == x) return true; return false; }
static Sink* sinkWith(int id) { Sink* s = new Sink(); s->setId(id); return s; }

// head filters: outputs, numbering, activation, next execution time
static void head(FilterRole role)
{
    bool periodic = symx_range(0, 1, "periodic");
    Src* h = new Src(role, periodic); h->setId(5);
    Sink* a = sinkWith(11); Sink* b = sinkWith(12);
    symx_assert(h->connectManyToMany(a, 1, 1) && h->connectManyToMany(b, 1, 2), "connected");
    size_t n[3] = {0, 0, 0}; bool con[3] = {false, true, true};
    for (int s = 0; s < STEPS - 1; s++) {
        int op = (int)symx_range(0, 3, "op");
        symx_now_ns += 1000000;
        if (op == 3) {
            int k = (int)symx_choose(1, 2, "who");
            symx_assert((k == 1 ? a : b)->disconnectReader(1), "the consumer disconnects"); con[k] = false;
            symx_assert(!h->isWConnected(k), "disconnected output");
            continue;
        }
        h->use[1] = op != 1; h->use[2] = symx_range(0, 1, "second"); h->result = op != 2; h->delay = (int)symx_range(0, 5000, "delay"); h->tag = (uint8_t)s;
        int calls = h->calls;
        std::vector<int> e = h->runProcessFrame();
        bool any = con[1] || con[2], runs = any || role == SERVER;
        symx_assert(h->calls == calls + (runs ? 1 : 0), "a source runs exactly when it has a connected output or is a server");
        int d = runs ? h->delay : WAIT;
        symx_assert(h->getTime() == TP(std::chrono::nanoseconds(symx_now_ns)) + microseconds(d), "the next execution is due after the delay asked for");
        symx_assert(h->ready() == false, "not due before that");
        symx_assert(has(e, 5) == periodic, "a periodic filter schedules itself again");
        int expect = periodic;
        for (int k = 1; k <= 2; k++) {
            bool out = runs && con[k] && h->use[k];
            if (runs) symx_assert((h->got.count(k) > 0) == con[k], "a destination frame for each connected output");
            symx_assert(has(e, 10 + k) == out, "consumers of the frames passed on are activated, and only those");
            expect += out;
            if (out) { n[k]++; symx_reach("passed on"); }
            Sink* c = k == 1 ? a : b;
            if (!con[k]) { if (runs || role == REGULAR) symx_assert(h->deleted[k], "a dead output is removed"); continue; }
            calls = c->calls;
            std::vector<int> ce = c->runProcessFrame();
            symx_assert(c->calls == calls + (out ? 1 : 0), "the consumer gets a frame exactly when one was passed on");
            symx_assert(ce.empty(), "a sink activates nobody");
            if (!out) symx_assert(c->getTime() == TP(std::chrono::nanoseconds(symx_now_ns)) + microseconds(WAIT), "a starved filter waits");
            if (out) {
                symx_assert(c->o[1]->getDataBuf()[0] == (uint8_t)s, "contents");
                if (h->result) {
                    symx_assert(c->seq[1] == n[k] - 1, "frames are numbered in order, per output");
                    symx_assert(c->o[1]->getOriginTime() == TP(std::chrono::nanoseconds(symx_now_ns)), "origin time is when the frame entered the pipeline");
                } else n[k]--;
            }
        }
        symx_assert((int)e.size() == expect, "nobody else is activated");
    }
    delete h; delete a; delete b;
}

// one input, one or several outputs: every frame is processed once, in order, and passed on when used
static void chain(bool many)
{
    Src* h = new Src(REGULAR, false); h->setId(5);
    One* o = NULL; Many* m = NULL; BaseFilter* f;
    if (many) { m = new Many(); f = m; } else { o = new One(); f = o; }
    f->setId(6);
    Sink* a = sinkWith(11); Sink* b = sinkWith(12);
    symx_assert(h->connectManyToMany(f, 1, 1) && f->connectManyToMany(a, 1, 1), "connected");
    if (many) symx_assert(f->connectManyToMany(b, 1, 2), "connected");
    size_t in = 0, done = 0, lost = 0; size_t qa = 0;
    TP org[32];
    for (int s = 0; s < STEPS; s++) {
        int op = (int)symx_range(0, 3, "op");
        symx_now_ns += 1000000;
        if (op == 0) {
            if (in - done >= SLOTS - 1) { symx_silent_exit(); }
            org[in] = TP(std::chrono::nanoseconds(symx_now_ns));
            std::vector<int> e = h->runProcessFrame();
            symx_assert(e.size() == 1 && e[0] == 6, "the filter is activated"); in++;
            symx_assert(((Runnable*)f)->pendingJobs(), "work is pending while frames are queued");
        } else if (op == 3) {
            if (!a->isRConnected(1)) { symx_silent_exit(); }
            a->disconnectReader(1); if (many) b->disconnectReader(1);
        } else {
            bool use = op == 1, con = a->isRConnected(1);
            int calls = many ? m->calls : o->calls;
            if (many) { m->use[1] = use; m->use[2] = true; } else o->use[0] = use;
            std::vector<int> e = f->runProcessFrame();
            bool runs = in > done && con;
            symx_assert((many ? m->calls : o->calls) == calls + (runs ? 1 : 0), "processed exactly when a new frame and an output are there");
            if (!runs) {
                symx_assert(e.empty(), "nothing is activated without work");
                symx_assert(f->getTime() == TP(std::chrono::nanoseconds(symx_now_ns)) + microseconds(WAIT), "a starved filter waits");
                if (in > done) { done++; lost++; }
                continue;
            }
            symx_assert((many ? m->seq : o->seq) == done, "frames are processed in order, each once");
            symx_assert(f->getTime() == TP(std::chrono::nanoseconds(symx_now_ns)), "due again at once");
            symx_assert(has(e, 11) == use && (!many || has(e, 12)) && e.size() == (size_t)use + (many ? 1 : 0), "consumers of the frames passed on are activated, and only those");
            for (int k = 0; k < (many ? 2 : 1); k++) {
                Sink* c = k ? b : a; int cc = c->calls; bool out = k || use;
                c->runProcessFrame();
                symx_assert(c->calls == cc + (out ? 1 : 0), "an output gets a frame exactly when it was used");
                if (out) { symx_assert(c->seq[1] == done, "number is kept"); if (many) symx_assert(c->o[1]->getOriginTime() == org[done], "origin time is kept"); symx_reach("through"); }
            }
            done++;
        }
        symx_assert(((Runnable*)f)->pendingJobs() == (in > done), "work is pending exactly while frames are queued");
    }
    (void)qa; (void)lost;
    delete h; delete f; delete a; delete b;
}

// several inputs, no frame period: all inputs are offered, only new ones are marked new and taken
static void mix()
{
    Src* h = new Src(REGULAR, false); h->setId(5); Src* g = new Src(REGULAR, false); g->setId(4);
    Mix* f = new Mix(symx_range(0, 1, "periodic")); f->setId(6);
    Sink* a = sinkWith(11);
    symx_assert(h->connectManyToMany(f, 1, 1) && g->connectManyToMany(f, 2, 1) && f->connectManyToMany(a, 1, 1), "connected");
    size_t in[3] = {0, 0, 0}, done[3] = {0, 0, 0}, out = 0;
    bool con[3] = {false, true, true};
    for (int s = 0; s < STEPS; s++) {
        int op = (int)symx_range(0, 4, "op");
        symx_now_ns += 1000000;
        if (op <= 1) {
            int k = op + 1;
            if (!con[k] || in[k] - done[k] >= SLOTS - 1) { symx_silent_exit(); }
            (k == 1 ? h : g)->runProcessFrame(); in[k]++;
        } else if (op == 4) {
            if (!con[2]) { symx_silent_exit(); }
            g->disconnectWriter(1); con[2] = false;
        } else {
            f->result = op == 2; f->use[0] = true;
            int calls = f->calls;
            std::vector<int> e = f->runProcessFrame();
            bool nw[3] = {false, in[1] > done[1], con[2] && in[2] > done[2]};
            bool runs = nw[1] || nw[2];
            symx_assert(f->calls == calls + (runs ? 1 : 0), "runs exactly when an input has a new frame");
            symx_assert(has(e, 11) == runs && has(e, 6) == f->isPeriodic(), "activation");
            if (!con[2]) symx_assert(f->rDel == 1 && !f->isRConnected(2), "an input whose producer left is removed, once");
            if (!runs) continue;
            symx_assert(f->o.size() == (size_t)(con[1] + con[2]), "all connected inputs are offered");
            symx_assert(f->n.size() == (size_t)(nw[1] + nw[2]), "new inputs");
            for (int k = 1; k <= 2; k++) if (con[k]) {
                symx_assert(has(f->n, k) == nw[k], "an input is new exactly when it has a frame not seen yet");
                symx_assert(f->o[k]->getConsumed() == nw[k], "repeated frames are not marked as new");
                if (nw[k]) { symx_assert(f->seq[k] == done[k], "oldest frame of each input"); done[k]++; }
                else if (done[k]) { symx_assert(f->seq[k] == done[k] - 1, "the last frame is repeated"); symx_reach("repeat"); }
            }
            symx_reach("mixed");
            a->runProcessFrame();
            if (f->result) { symx_assert(a->seq[1] == out, "output frames are numbered in order"); symx_assert(a->o[1]->getOriginTime() == TP(std::chrono::nanoseconds(symx_now_ns)), "origin time of a mixed frame"); out++; }
        }
    }
    delete h; delete g; delete f; delete a;
}

// a frame period: late frames are discarded, frames in the period are processed, early ones move the period
static void period()
{
    Src* h = new Src(REGULAR, false); h->setId(5); Src* g = new Src(REGULAR, false); g->setId(4);
    Mix* f = new Mix(); f->setId(6);
    Sink* a = sinkWith(11);
    symx_assert(h->connectManyToMany(f, 1, 1) && g->connectManyToMany(f, 2, 1) && f->connectManyToMany(a, 1, 1), "connected");
    int64_t T = symx_range(1, 1000000, "period"), ts = symx_range(0, 1ll << 40, "ts");
    ((BaseFilter*)f)->setFrameTime(microseconds(T)); f->setSyncTs(microseconds(ts));
    for (int s = 0; s < 2; s++) {
        bool nw[3]; int64_t t[3];
        for (int k = 1; k <= 2; k++) {
            nw[k] = k == 2 && s == 1 ? false : symx_range(0, 1, "new"); t[k] = -1;
            if (nw[k]) { t[k] = symx_range(0, 1ll << 41, "t"); Src* x = k == 1 ? h : g; x->pts = t[k]; x->runProcessFrame(); }
        }
        bool late = false, in = false; int64_t early = -1;
        for (int k = 1; k <= 2; k++) if (nw[k]) {
            if (t[k] > ts + T) { if (early < 0 || t[k] < early) early = t[k]; }
            else if (t[k] < ts) late = true; else in = true;
        }
        int calls = f->calls;
        f->runProcessFrame();
        bool runs;
        if (!nw[1] && !nw[2]) runs = false;
        else if (in) { runs = true; ts += T; symx_reach("in period"); }
        else { runs = !late; if (!late) { ts = early; symx_reach("early"); } else symx_reach("late"); }
        symx_assert(f->calls == calls + (runs ? 1 : 0), "processed unless every new frame is outside the period and some is late");
        symx_assert(f->getSyncTs() == microseconds(ts), "the period advances by one, or to the earliest early frame");
        symx_assert(!((Runnable*)f)->pendingJobs(), "frames offered are taken from the queues");
    }
    delete h; delete g; delete f; delete a;
}

// synchronised inputs: lagging or full inputs go first, nothing passes while an input is empty otherwise
static void sync()
{
    SLOTS = 12;
    Src* x[3] = {NULL, new Src(REGULAR, false), new Src(REGULAR, false)};
    Sink* f = new Sink(); f->setId(6);
    for (int k = 1; k <= 2; k++) { x[k]->setId(3 + k); symx_assert(x[k]->connectManyToMany(f, k, 1), "connected"); }
    int64_t t[3][16]; int n[3] = {0, 0, 0}, first[3] = {0, 0, 0}; size_t seq[3] = {0, 0, 0};
    for (int k = 1; k <= 2; k++) {
        int c = (int)symx_choose(0, k == 1 ? 3 : 2, "count");
        if (c == 3) c = 11;
        int64_t cur = symx_range(0, 1ll << 40, "t");
        for (int i = 0; i < c; i++) { x[k]->pts = cur; x[k]->runProcessFrame(); t[k][n[k]++] = cur; if (i == 0) cur += symx_range(0, 100000, "dt"); else cur += 20000; }
    }
    for (int s = 0; s < 3; s++) {
        bool empty = false; int64_t wall = 0;
        for (int k = 1; k <= 2; k++) { if (first[k] == n[k]) empty = true; else if (t[k][first[k]] > wall) wall = t[k][first[k]]; }
        bool pass[3] = {false, false, false}, any = false;
        for (int k = 1; k <= 2; k++) if (first[k] < n[k]) {
            bool full = n[k] - first[k] >= 11;                      // nine tenths of the slots
            pass[k] = full || t[k][first[k]] < wall - 40000;
            any |= pass[k];
            if (full) symx_reach("full");
        }
        if (!any && !empty) { pass[1] = pass[2] = true; symx_reach("together"); }
        else if (any) symx_reach("lagging"); else symx_reach("wait");
        int calls = f->calls; f->n.clear();
        f->runProcessFrame();
        symx_assert(f->calls == calls + ((pass[1] || pass[2]) ? 1 : 0), "a synchronised filter runs exactly when an input may pass");
        for (int k = 1; k <= 2; k++) {
            symx_assert(has(f->n, k) == pass[k], "exactly the inputs that may pass are offered");
            if (pass[k]) { symx_assert(f->seq[k] == seq[k], "in order"); seq[k]++; first[k]++; }
        }
    }
    for (int k = 1; k <= 2; k++) delete x[k];
    delete f;
}

// building and dismantling connections: both sides agree, limits hold, failures leave nothing behind
struct RO { bool w; bool m, k; };                    // one queue: producer alive, members
static void graph()
{
    uint64_t live0 = symx_live_heap();
    {
    Src* h = new Src(REGULAR, false); h->setId(5);
    Mix* m = new Mix(false, 2); m->setId(6);
    Sink* k = new Sink(REGULAR, false, 1); k->setId(7);
    RO ro[8]; int nro = 0;
    int W[3] = {-1, -1, -1}, M[4] = {-1, -1, -1, -1}, K[3] = {-1, -1, -1};   // queue behind each endpoint
    auto con = [&](int q) { return q >= 0 && ro[q].w && (ro[q].m || ro[q].k); };
    auto cnt = [](int* a, int n) { int c = 0; for (int i = 1; i < n; i++) c += a[i] >= 0; return c; };
    for (int s = 0; s < GSTEPS; s++) {
        int op = (int)symx_choose(0, 6, "op");
        int w = 1, r = 1;
        // unused identifiers are interchangeable: only the first unused one is tried
        if (op <= 2) w = (int)symx_choose(1, W[1] < 0 && W[2] < 0 ? 1 : 2, "writer");
        if (op == 0 || op == 3) r = (int)symx_choose(1, M[1] < 0 && M[2] < 0 && M[3] < 0 ? 1 : M[2] < 0 && M[3] < 0 ? 2 : 3, "reader");
        if (op == 1) r = (int)symx_choose(1, K[1] < 0 && K[2] < 0 ? 1 : 2, "reader");
        if (op == 0 || op == 1) {
            BaseFilter* R = op ? (BaseFilter*)k : m; int* Q = op ? K : M; int mx = op ? 1 : 2;
            bool room = Q[r] < 0 && cnt(Q, op ? 3 : 4) < mx && W[w] < 0;
            int fail = room ? (int)symx_choose(0, s + 1 < GSTEPS ? 1 : 3, "fail") : 0;
            m->rConfOk = k->rConfOk = fail != 1; h->wConfOk = fail != 2; h->allocOk = fail != 3;
            bool ok = room && !fail;
            bool got = h->connectManyToMany(R, r, w);
            m->rConfOk = k->rConfOk = h->wConfOk = h->allocOk = true;
            symx_assert(got == ok, "a connection is made exactly when both ends are free, within the limits, and accepted");
            if (ok) { ro[nro] = RO{true, op == 0, op == 1}; W[w] = Q[r] = nro++; symx_reach("connected"); }
            else symx_reach("refused");
        } else if (op == 2) {
            symx_assert(h->disconnectWriter(w), "producer disconnects");
            if (W[w] >= 0) { ro[W[w]].w = false; W[w] = -1; }
        } else if (op == 3) {
            symx_assert(m->disconnectReader(r), "consumer disconnects");
            if (M[r] >= 0) { ro[M[r]].m = false; M[r] = -1; }
        } else if (op == 4) {
            int from = (int)symx_choose(1, 2, "from"), to = (int)symx_choose(1, 2, "to");
            bool ok = M[from] >= 0 && con(M[from]) && !(K[to] >= 0 && con(K[to])) && (K[to] >= 0 || cnt(K, 3) < 1);
            symx_assert(m->shareReader(k, to, from) == ok, "a reader is shared exactly when it is connected and the other filter has room");
            if (ok) { if (K[to] >= 0) ro[K[to]].k = false; K[to] = M[from]; ro[K[to]].k = true; symx_reach("shared"); }
        } else if (op == 5) {
            m->runProcessFrame();                     // inputs whose producer left go away
            for (int i = 1; i <= 3; i++) if (M[i] >= 0 && !con(M[i])) { ro[M[i]].m = false; M[i] = -1; symx_reach("cleaned"); }
        } else {
            h->runProcessFrame();                     // outputs whose consumer left go away
            for (int i = 1; i <= 2; i++) if (W[i] >= 0 && !con(W[i])) { ro[W[i]].w = false; W[i] = -1; }
        }
        for (int i = 1; i <= 2; i++) {
            symx_assert(h->isWConnected(i) == con(W[i]), "producer side connected exactly while both sides are");
            ConnectionData cd = h->getWConnectionData(i);
            symx_assert(cd.wFilterId == (con(W[i]) ? 5 : -1) && cd.writerId == (con(W[i]) ? i : -1), "connection data names the producer");
            int n = 0; bool good = true;
            for (auto x : cd.readers) { n++; if (x.rFilterId == 6) good &= x.readerId >= 1 && x.readerId <= 3 && M[x.readerId] == W[i]; else if (x.rFilterId == 7) good &= K[x.readerId] == W[i]; else good = false; }
            symx_assert(good && n == (con(W[i]) ? ro[W[i]].m + ro[W[i]].k : 0), "connection data names the consumers");
        }
        for (int i = 1; i <= 3; i++) symx_assert(m->isRConnected(i) == con(M[i]), "consumer side connected exactly while both sides are");
        for (int i = 1; i <= 2; i++) symx_assert(k->isRConnected(i) == con(K[i]), "sharing side connected exactly while both sides are");
    }
    int order = (int)symx_range(0, 2, "order");
    if (order == 0) { delete h; delete m; delete k; }
    else if (order == 1) { delete m; delete h; delete k; }
    else { delete k; delete m; delete h; }
    }
    symx_assert(symx_live_heap() == live0, "queues, readers and writers are all freed");
}

// generated identifiers are free ones; filters keep their identity
static int draws = -1;
extern "C" int rand(void) noexcept { if (draws < 0) return 77; return ++draws <= 3 ? (int)symx_range(0, 2147483647, "rand") : 76 + draws; }
static void idents()
{
    draws = 0;
    Src* h = new Src(REGULAR, false, 3); h->setId(5);
    Mix* m = new Mix(false, 3); 
    symx_assert(m->getId() < 0 && !m->setId(-(int)symx_range(1, 1000, "neg")) && m->getId() < 0, "negative identifiers are refused");
    int id = (int)symx_range(0, 2147483647, "id"), id2 = (int)symx_range(0, 2147483647, "id2");
    symx_assume(id != 5);
    symx_assert(m->setId(id) && m->getId() == id && !m->setId(id2) && m->getId() == id, "the identifier is given once");
    symx_assert(h->getMaxWriters() == 3 && m->getMaxReaders() == 3 && m->getMaxWriters() == 1, "limits");
    symx_assert(m->generateWriterID() == DEFAULT_ID, "a single output has the default id");
    bool ok = h->connectManyToMany(m, 1, 1); symx_assert(ok, "connected");
    unsigned r = m->generateReaderID(), w = h->generateWriterID();
    symx_assert(r != 1 && w != 1, "generated ids are not in use");
    delete h; delete m;
    symx_reach("ids");
}

// control events: each runs once, with its parameters, at the first opportunity after its delay, in due order
struct Ev { bool real, done; int64_t due; };
static Ev ev[8]; static int nev, ran, lastRan; static bool resultOf[8];
template <class B> struct EvFilter : B {
    template <class... A> EvFilter(A... a) : B(a...) {
        for (const char* n : {"a", "b"}) this->eventMap[n] = [n](Jzon::Node* p) {
            int v = p && p->IsObject() && p->Has("v") ? p->Get("v").ToInt() : -1;
            symx_assert(v >= 0 && v < nev, "the event's own parameters are passed");
            symx_assert(ev[v].real && !ev[v].done, "an event runs once");
            symx_assert((v & 1) == (n[0] == 'b'), "the event's own action runs");
            ev[v].done = true; ran++; lastRan = v;
            return resultOf[v];
        };
        this->eventMap["n"] = [](Jzon::Node* p) { symx_assert(p == NULL, "no parameters given"); ran++; return true; };
    }
};
static Event mk(int i, int kind, TP t, int delay)
{
    Jzon::Object o, p; p.Add("v", i);
    if (kind != 2) o.Add("action", kind == 1 ? "zz" : (i & 1) ? "b" : "a");
    o.Add("params", p);
    return Event(o, t, delay);
}
static void queued()
{
    EvFilter<One>* f = new EvFilter<One>(); f->setId(6);
    const int N = EVENTS;
    int64_t t0 = symx_now_ns, t = 0; nev = 0;
    for (int i = 0; i < N; i++) {
        t += symx_range(0, 3000, "gap") * 1000000 + (i ? (i == 1 ? 333333 : 250000) : 0);
        int kind = (int)symx_choose(0, i == 1 ? 2 : 0, "kind"), delay = (int)symx_range(i == 1 ? -1 : 0, 5000, "delay");
        ev[i] = Ev{kind == 0, false, t + (delay > 0 ? delay : 0) * 1000000ll}; resultOf[i] = symx_range(0, 1, "result"); nev++;
        for (int j = 0; j < i; j++) symx_assume(ev[j].due != ev[i].due);
        symx_now_ns = t0 + t;
        f->pushEvent(mk(i, kind, std::chrono::system_clock::now(), delay));
        if (i == N - 2 && symx_choose(0, 1, "between") == 0) continue;
        if (i < N - 2) continue;
        if (i == N - 1) { t += symx_range(0, 9000, "wait") * 1000000 + (symx_choose(0, 1, "fraction") ? 416666 : 416667); symx_now_ns = t0 + t; }
        ran = 0;
        bool was[8]; int due = 0;
        for (int j = 0; j < nev; j++) { was[j] = ev[j].done; if (ev[j].real && !was[j] && ev[j].due <= t) due++; }
        f->runProcessFrame();
        for (int j = 0; j < nev; j++) if (ev[j].real) symx_assert(ev[j].done == (was[j] || ev[j].due <= t), "an event runs at the first opportunity after its delay, and never before");
        symx_assert(ran == due, "nothing else runs");
        if (ran) { symx_reach("ran"); for (int j = 0; j < nev; j++) if (!was[j] && ev[j].done) symx_assert(ev[j].due <= ev[lastRan].due, "events run in the order they fall due"); }
        else symx_reach("pending");
    }
    symx_now_ns = t0 + t + 10000000000ll;
    f->runProcessFrame();
    for (int j = 0; j < nev; j++) symx_assert(ev[j].done == ev[j].real, "every event runs in the end");
    delete f;
}
// sources and sinks run their events at once
static void immediate()
{
    bool tail = symx_choose(0, 1, "tail");
    EvFilter<Src>* h = tail ? NULL : new EvFilter<Src>(REGULAR, false); EvFilter<Sink>* k = tail ? new EvFilter<Sink>() : NULL;
    nev = 0;
    for (int i = 0; i < 3; i++) {
        int kind = (int)symx_choose(0, 2, "kind");
        ev[i] = Ev{kind == 0, false, 0}; resultOf[i] = symx_range(0, 1, "result"); nev++;
        ran = 0;
        Event e = mk(i, kind, std::chrono::system_clock::now(), (int)symx_range(0, 5000, "delay"));
        if (tail) k->pushEvent(e); else h->pushEvent(e);
        symx_assert(ran == (kind == 0) && ev[i].done == (kind == 0), "runs at once, exactly when the action is known");
    }
    Jzon::Object o; o.Add("action", "n"); ran = 0; Event e(o, std::chrono::system_clock::now());
    if (tail) k->pushEvent(e); else h->pushEvent(e);
    symx_assert(ran == 1, "parameters are optional");
    symx_reach("immediate");
    delete h; delete k;
}

extern "C" void harness(void)
{
    vp8 = new StreamInfo(VIDEO); vp8->video.codec = VP8;
    switch (symx_case()) {
    case 0: head(REGULAR); break;
    case 1: head(SERVER); break;
    case 2: chain(false); break;
    case 3: chain(true); break;
    case 4: mix(); break;
    case 5: period(); break;
    case 6: sync(); break;
    case 7: graph(); break;
    case 8: idents(); break;
    case 9: queued(); break;
    case 10: immediate(); break;
    }
}
