// Frame queues: FIFO order, capacity, exactly-once delivery, loss accounting, no aliasing of slots.
#include "symx.h"
#include "AVFramedQueue.hh"
#include "VideoFrame.hh"
#include "Types.hh"
#ifndef NMAX
#define NMAX 5
#endif
#ifndef STEPS
#define STEPS 5
#endif

extern "C" void harness(void)
{
    int kase = symx_case();
    ConnectionData cd;
    cd.wFilterId = 7; cd.writerId = 1;
    ReaderData r; r.rFilterId = 11; r.readerId = 1; cd.readers.push_back(r);
    r.rFilterId = 12; cd.readers.push_back(r);
    unsigned max; int steps = STEPS;
    bool large = kase == 2;
    max = large ? 250 : (unsigned)symx_choose(3, NMAX, "max");
    if (large) steps = 3;
    StreamInfo si(kase == 1 ? AUDIO : VIDEO);
    AVFramedQueue* q;
    if (kase == 1) {
        si.audio.codec = PCM; si.audio.sampleRate = 8000; si.audio.channels = 2; si.audio.sampleFormat = S16;
        q = AudioFrameQueue::createNew(cd, &si, max);
    } else {
        si.video.codec = VP8;
        q = VideoFrameQueue::createNew(cd, &si, max);
    }
    symx_assert(q != NULL, "queue created");
    symx_assert(q->getElements() == 0 && q->getFront() == NULL && q->removeFrame() == -1, "a new queue is empty");
    // reach every rotation of the ring (for the large ring: those next to the wrap point)
    unsigned rot = (unsigned)(large ? symx_choose(246, 249, "rot") : symx_choose(0, max - 1, "rot"));
    for (unsigned i = 0; i < rot; i++) {
        Frame* f = q->getRear();
        symx_assert(f, "free slot on empty queue");
        q->addFrame();
        symx_assert(q->getFront() == f, "frame added is the front of an empty queue");
        symx_assert(q->removeFrame() == 7, "remove names the writer");
    }
    size_t ref[256]; uint8_t refB[256]; unsigned h = 0, n = 0;     // reference contents
    unsigned prefill = large ? (unsigned)symx_choose(246, 249, "fill") : 0;
    for (unsigned i = 0; i < prefill; i++) {
        Frame* f = q->getRear();
        symx_assert(f, "free slot");
        f->setSequenceNumber(1000 + i); f->getDataBuf()[0] = (unsigned char)i;
        ref[n] = 1000 + i; refB[n] = (uint8_t)i; n++;
        q->addFrame();
    }
    Frame* heldForced = NULL;
    for (int s = 0; s < steps; s++) {
        int op = (int)symx_range(0, 4, "op");
        bool forced = op == 2;
        switch (op) {
            case 0: case 2: { // write, forced write
                size_t lost = q->getLostBlocs();
                Frame* held = q->getFront();
                Frame* f = forced ? q->forceGetRear() : q->getRear();
                if (forced) {
                    symx_assert(f != NULL, "forced write always yields a slot");
                    if (n == max - 1) { n--; symx_assert(q->getLostBlocs() == lost + 1, "loss accounted once"); symx_reach("overflow"); }
                    else symx_assert(q->getLostBlocs() == lost, "no loss when there is room");
                    symx_assert(q->getElements() == n, "overflow discards exactly one frame");
                } else {
                    symx_assert((f == NULL) == (n == max - 1), "write slot refused exactly when max-1 frames are queued");
                    symx_assert(q->getLostBlocs() == lost, "no loss accounted");
                }
                if (!f) break;
                symx_assert(f != held, "slot being read is never handed to the writer");
                symx_assert(f != heldForced, "slot of a forced read is never handed to the writer");
                uint64_t sq = symx_u64("seq"); uint8_t b = symx_u8("byte");
                f->setSequenceNumber(sq);
                f->getDataBuf()[0] = b;
                ref[n] = sq; refB[n] = b; n++;
                std::vector<int> en = q->addFrame();
                symx_assert(en.size() == 2 && en[0] == 11 && en[1] == 12, "every reader notified");
                break; }
            case 1: { // read
                Frame* f = q->getFront();
                symx_assert((f == NULL) == (n == 0), "read refused exactly when empty");
                symx_assert(f == q->getFront(), "peek is stable");
                if (f) {
                    symx_assert(f->getSequenceNumber() == ref[0], "FIFO order");
                    symx_assert(f->getDataBuf()[0] == refB[0], "content unchanged");
                }
                int w = q->removeFrame();
                symx_assert(w == (f ? 7 : -1), "remove reports the writer");
                heldForced = NULL;
                if (!f) break;
                for (unsigned i = 1; i < n; i++) { ref[i - 1] = ref[i]; refB[i - 1] = refB[i]; }
                n--;
                // forced read now repeats the frame just consumed
                symx_assert(q->forceGetFront() == f, "forced read on the consumed frame");
                symx_reach("read");
                break; }
            case 3: { // forced read hands out a slot the writer cannot be given while the queue has room
                Frame* f = q->forceGetFront();
                symx_assert(f != NULL, "forced read");
                symx_assert(f != q->getRear(), "slot of a forced read is not the writer's");
                heldForced = f;
                break; }
            case 4: { // drain check
                if (n) { symx_assert(q->getFront()->getSequenceNumber() == ref[0], "oldest first"); }
                break; }
        }
        symx_assert(q->getElements() == n, "element count");
        if (n * 100 > max * 91) symx_assert(q->isFull(), "reported full above nine tenths");
        if (n * 100 < max * 89) symx_assert(!q->isFull(), "not reported full below nine tenths");
        symx_observe(n);
    }
    // everything still queued comes out in order
    for (unsigned i = 0; i < n; i++) {
        Frame* f = q->getFront();
        symx_assert(f && f->getSequenceNumber() == ref[i] && f->getDataBuf()[0] == refB[i], "drain in FIFO order");
        symx_assert(q->removeFrame() == 7, "drain");
    }
    symx_assert(q->getFront() == NULL && q->getElements() == 0, "empty after drain");
    (void)h;
    delete q;
}
