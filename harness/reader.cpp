// Shared readers: each frame is new once per sharing filter, leaves the queue once when all released it,
// queues are freed exactly once whatever the order of disconnection.
#include "symx.h"
#include "IOInterface.hh"
#include "AVFramedQueue.hh"
#include "VideoFrame.hh"
#include <set>
#ifndef STEPS
#define STEPS 6
#endif
extern "C" int64_t symx_now_ns;
using std::chrono::microseconds;
static const int W = 7;
static FrameQueue* mkq(const StreamInfo* si, int filter, unsigned max)
{
    ConnectionData cd; cd.wFilterId = W; cd.writerId = 1;
    ReaderData r; r.rFilterId = filter; r.readerId = 1; cd.readers.push_back(r);
    FrameQueue* q = VideoFrameQueue::createNew(cd, si, max);
    symx_assert(q != NULL, "queue created");
    return q;
}

// reference: who still has to see / release the frame at the front
struct Ref {
    bool in[3] = {false, false, false}, see[3] = {false, false, false}, rel[3] = {false, false, false};
    int got[3] = {0, 0, 0};                      // deliveries of the current frame
    size_t q[16]; unsigned n = 0;                // committed sequence numbers, front first
    bool taken = false;                          // the front frame has been handed out
    bool done() { for (int i = 0; i < 3; i++) if (in[i] && (see[i] || rel[i])) return false; return true; }
    int members() { return in[0] + in[1] + in[2]; }
    void pop() { for (unsigned i = 1; i < n; i++) q[i - 1] = q[i]; n--; taken = false; }
};
static const int ids[3] = {21, 22, 23};

static void shared(bool drops)
{
    StreamInfo* si = new StreamInfo(VIDEO); si->video.codec = VP8;
    unsigned max = drops ? 3 : 8;
    FrameQueue* q = mkq(si, ids[0], max);
    std::shared_ptr<Writer> w(new Writer()); std::shared_ptr<Reader> r(new Reader());
    bool nf = true;
    symx_assert(!r->isConnected() && !w->isConnected() && r->getFrame(ids[0], nf) == NULL && r->getQueueElements() == 0, "nothing is delivered before the connection");
    w->setQueue(q);
    symx_assert(w->connect(r) && r->isConnected() && w->isConnected() && r->getQueue() == q, "connected on both sides");
    symx_assert(w->getCData().wFilterId == W && w->getCData().readers.size() == 1 && w->getCData().readers.front().rFilterId == ids[0], "connection data");
    Ref m; m.in[0] = true;
    size_t next = 100; bool writer = true;
    for (int s = 0; s < STEPS; s++) {
        int op = (int)symx_range(0, 4, "op");
        int k = op == 0 ? 0 : (int)symx_choose(0, 2, "filter");
        switch (op) {
        case 0: {                                                     // the producer commits a frame
            if (!writer || !w->isConnected()) { symx_silent_exit(); break; }
            Frame* f = w->getFrame(true);
            symx_assert(f != NULL, "the producer always gets a slot");
            if (m.n == max - 1) { m.n--; symx_reach("dropped"); }
            uint64_t sq = symx_u64("seq"); f->setSequenceNumber(sq); f->setPresentationTime(microseconds(next++ * 1000)); f->setOriginTime(std::chrono::system_clock::now());
            std::vector<int> e = w->addFrame();
            symx_assert((int)e.size() == m.members(), "exactly the sharing filters are activated");
            for (int i = 0; i < 3; i++) if (m.in[i]) { bool f1 = false; for (int x : e) f1 |= x == ids[i]; symx_assert(f1, "every sharing filter is activated"); }
            m.q[m.n++] = sq;
            break; }
        case 1: {                                                     // filter k asks for a frame
            bool isnew = false;
            Frame* f = r->getFrame(ids[k], isnew);
            if (!m.in[k] || !r->isConnected()) { symx_assert(f == NULL, "a filter that does not share the reader gets nothing"); break; }
            symx_assert(f != NULL, "a connected filter always gets a frame");
            if (!m.n) { symx_assert(!isnew, "no new frame from an empty queue"); break; }
            if (!m.taken) { m.taken = true; for (int i = 0; i < 3; i++) { m.see[i] = m.rel[i] = m.in[i]; m.got[i] = 0; } }
            symx_assert(f->getSequenceNumber() == m.q[0], "the oldest frame is delivered until everyone released it");
            symx_assert(isnew == m.see[k], "each frame is new exactly once for each filter sharing it");
            if (isnew) { m.got[k]++; symx_reach("new"); }
            m.see[k] = false;
            break; }
        case 2: {                                                     // filter k releases the frame it got
            if (!m.in[k] || !m.taken || m.see[k] || !m.rel[k]) { symx_silent_exit(); break; }
            int ret = r->removeFrame(ids[k]);
            m.rel[k] = false;
            if (m.done()) { m.pop(); symx_assert(ret == W, "the last release removes the frame and names its producer"); symx_reach("released"); }
            else { symx_assert(ret == -1, "the frame stays until every sharing filter released it"); symx_reach("kept"); }
            break; }
        case 3:                                                       // filter k joins
            if (m.in[k]) { symx_silent_exit(); break; }
            { bool con = r->isConnected(); r->addReader(ids[k], 5); m.in[k] = con; if (con && m.taken) { m.see[k] = m.rel[k] = false; symx_reach("joined"); } }
            break;
        case 4:                                                       // filter k leaves
            if (m.members() == 1 && m.in[k]) { symx_silent_exit(); break; }
            symx_assert(r->disconnect(ids[k]) == m.in[k], "leaving succeeds exactly for members");
            m.in[k] = m.see[k] = m.rel[k] = false;
            if (m.taken && m.done()) { m.pop(); symx_reach("left"); } // nobody is waiting for the frame any more
            break;
        }
        symx_assert(r->getQueueElements() == m.n, "frames leave the queue exactly when released");
    }
    // progress: the remaining members see every queued frame as new, once, in order
    while (m.n) {
        if (!m.taken) { m.taken = true; for (int i = 0; i < 3; i++) { m.see[i] = m.rel[i] = m.in[i]; } }
        bool any = false;
        for (int i = 0; i < 3; i++) if (m.in[i] && m.see[i]) {
            bool isnew = false; Frame* f = r->getFrame(ids[i], isnew);
            symx_assert(f && isnew && f->getSequenceNumber() == m.q[0], "every queued frame is eventually new for each filter");
            m.see[i] = false; any = true;
        }
        bool last = false;
        for (int i = 0; i < 3 && !last; i++) if (m.in[i] && m.rel[i]) { m.rel[i] = false; int ret = r->removeFrame(ids[i]); any = true; if (m.done()) { symx_assert(ret == W, "released by the last filter"); last = true; } }
        symx_assert(any && last, "reference makes progress");
        m.pop();
    }
    symx_assert(r->getQueueElements() == 0, "all frames delivered");
    uint64_t live = symx_live_heap(); (void)live;
    r.reset(); w.reset(); delete si;
}

// orders of disconnection: nothing leaks, nothing is used after it was freed
static void lifetime()
{
    uint64_t live0 = symx_live_heap();
    {
        StreamInfo si(VIDEO); si.video.codec = VP8;
        FrameQueue* q = mkq(&si, ids[0], 4);
        std::shared_ptr<Writer> w(new Writer()); std::shared_ptr<Reader> r(new Reader());
        w->setQueue(q);
        symx_assert(w->connect(r), "connected");
        bool two = symx_range(0, 1, "two");
        if (two) r->addReader(ids[1], 9);
        bool wGone = false; bool in[2] = {true, two};
        if (symx_range(0, 1, "frame")) { w->getFrame(true); w->addFrame(); }
        if (symx_range(0, 1, "held")) { bool n; r->getFrame(ids[0], n); }
        for (int s = 0; s < 4; s++) {
            int op = (int)symx_range(0, 3, "op");
            bool con = !wGone && (in[0] || in[1]);
            if (op == 0) {
                bool was = !wGone;
                symx_assert(w->disconnect() == was, "the producer disconnects once"); wGone = true;
                if (was) symx_reach(in[0] || in[1] ? "producer first" : "consumer first");
            } else if (op == 3) {
                bool n = false; Frame* f = r->getFrame(ids[0], n);
                symx_assert((f != NULL) == (con && in[0]), "frames come only through a connected queue");
            } else {
                int k = op - 1;
                symx_assert(r->disconnect(ids[k]) == in[k], "a filter disconnects once"); in[k] = false;
            }
            con = !wGone && (in[0] || in[1]);
            symx_assert(w->isConnected() == con, "the producer side is connected exactly while both sides are");
            symx_assert(r->isConnected() == con, "the consumer side is connected exactly while both sides are");
        }
    }
    symx_assert(symx_live_heap() == live0, "the queue is freed exactly once");
    {   // a producer whose queue never got a consumer
        StreamInfo si(VIDEO); si.video.codec = VP8;
        std::shared_ptr<Writer> w(new Writer()); w->setQueue(mkq(&si, ids[0], 4));
        symx_assert(!w->isConnected() && w->getFrame(true) == NULL, "no frames without a consumer");
        if (symx_range(0, 1, "early")) symx_assert(w->disconnect(), "disconnects");
    }
    symx_assert(symx_live_heap() == live0, "a queue that was never connected is freed");
    symx_reach("freed");
}

// average delay of the frames delivered in each completed window; lost frames are counted
static void stats()
{
    StreamInfo si(VIDEO); si.video.codec = VP8;
    FrameQueue* q = mkq(&si, ids[0], 4);
    std::shared_ptr<Writer> w(new Writer());
    std::shared_ptr<Reader> r(new Reader(microseconds(100000)));
    w->setQueue(q); w->connect(r);
    int64_t t = symx_range(0, 1ll << 40, "t0"), acc = 0, sum = 0, avg = 0; int cnt = 0;
    for (int i = 0; i < 6; i++) {
        int64_t dt = i ? symx_range(0, 60000, "dt") : 0, d = symx_range(0, 1000000, "delay");
        t += dt;
        Frame* f = w->getFrame(true);
        f->setPresentationTime(microseconds(t)); f->setDecodeTime(NO_DTS);
        f->setOriginTime(std::chrono::system_clock::time_point(microseconds(symx_now_ns / 1000 - d)));
        w->addFrame();
        bool n; symx_assert(r->getFrame(ids[0], n) == f && n, "delivered");
        symx_assert(r->getCurrentTime() == microseconds(t), "current time is that of the frame held");
        symx_assert(r->removeFrame(ids[0]) == W, "released");
        if (i && dt > 0) {
            acc += dt;
            if (acc >= 100000 && cnt > 0) { avg = sum / cnt; acc = 0; sum = 0; cnt = 0; symx_reach("window"); }
            sum += d; cnt++;
        }
        symx_assert(r->getAvgDelay() == microseconds(avg), "average delay of the last completed window");
    }
    symx_assert(r->getCurrentTime() == NO_DTS, "no current time without frames");
}

extern "C" void harness(void)
{
    switch (symx_case()) {
    case 0: shared(false); break;
    case 1: shared(true); break;
    case 2: lifetime(); break;
    case 3: stats(); break;
    }
}
