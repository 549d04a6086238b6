// Sliced video queues: a picture committed as slices comes out as one frame per slice, in order.
#include "symx.h"
#include <string.h>
#include "SlicedVideoFrameQueue.hh"
#include "Types.hh"
#ifndef NMAX
#define NMAX 5
#endif
#ifndef PICS
#define PICS 3
#endif
#define SL 4          // largest slice a slot is made for
struct Ref { size_t seq; int64_t pts, dts; unsigned len; unsigned char d[SL]; int w, h; };
static int64_t c64(std::chrono::microseconds t) { return t.count(); }

static void run(void)
{
    ConnectionData cd;
    cd.wFilterId = 7; cd.writerId = 1;
    ReaderData r; r.rFilterId = 11; r.readerId = 1; cd.readers.push_back(r);
    StreamInfo si(VIDEO);
    si.video.codec = symx_case() == 1 ? H265 : H264;
    unsigned max = (unsigned)symx_choose(3, NMAX, "max");
    SlicedVideoFrameQueue* q = SlicedVideoFrameQueue::createNew(cd, &si, max, SL);
    symx_assert(q != NULL, "queue created");
    symx_assert(q->getElements() == 0 && q->getFront() == NULL && q->removeFrame() == -1, "a new queue is empty");
    unsigned char buf[4][SL + 3];
    unsigned rot = (unsigned)symx_choose(0, max - 1, "rot");
    for (unsigned i = 0; i < rot; i++) {
        SlicedVideoFrame* f = dynamic_cast<SlicedVideoFrame*>(q->getRear());
        symx_assert(f != NULL, "input picture");
        symx_assert(f->setSlice(buf[0], 1), "slice set");
        q->addFrame();
        symx_assert(q->getFront() != NULL && q->removeFrame() == 7, "through");
    }
    Ref ref[16]; unsigned n = 0;
    for (int p = 0; p < PICS; p++) {
        Frame* held = q->getFront();
        bool forced = p > 0 && symx_range(0, 1, "forced");
        SlicedVideoFrame* f = dynamic_cast<SlicedVideoFrame*>(forced ? q->forceGetRear() : q->getRear());
        if (!forced) symx_assert((f == NULL) == (n == max - 1), "input refused exactly when the queue is full");
        else symx_assert(f != NULL, "forced input always available");
        if (f) {
            symx_assert(f->getSliceNum() == 0, "every picture starts without slices");
            symx_assert(f->getCodec() == si.video.codec, "codec");
            unsigned k = (unsigned)symx_choose(0, p == 0 ? 3 : 2, "slices");
            Ref base; base.seq = symx_u32("seq"); base.pts = symx_u32("pts"); base.dts = symx_u32("dts"); base.w = (int)symx_range(1, 4096, "w"); base.h = (int)symx_range(1, 4096, "h");
            f->setSequenceNumber(base.seq);
            f->setPresentationTime(std::chrono::microseconds(base.pts));
            f->setDecodeTime(std::chrono::microseconds(base.dts));
            f->setSize(base.w, base.h);
            for (unsigned i = 0; i < k; i++) {
                unsigned len = p == 0 && i == 0 ? (unsigned)symx_choose(0, SL + 2, "len") : (unsigned)symx_choose(0, 1, "len") * SL + 1;
                symx_bytes(buf[i], len, "slice");
                symx_assert(f->setSlice(buf[i], len), "slice accepted");
                symx_assert(f->getSliceNum() == (int)i + 1, "slices counted");
                if (len > SL) { symx_reach("oversize"); continue; }      // does not fit in a slot: dropped
                if (n == max - 1) { n--; symx_reach("overflow"); }       // newest queued slice makes room
                base.len = len; memcpy(base.d, buf[i], len);
                ref[n++] = base;
            }
            std::vector<int> en = q->addFrame();
            symx_assert(en.size() == 1 && en[0] == 11, "reader notified");
            for (unsigned i = 0; i < k; i++) memset(buf[i], 0xEE, sizeof(buf[i]));   // the encoder reuses its memory
            if (k) symx_reach("picture");
        }
        symx_assert(q->getElements() == n, "one queued frame per slice");
        if (n && held) symx_assert(q->getFront() == held, "frame being read stays in place");
        unsigned take = p == PICS - 1 ? max : (unsigned)symx_choose(0, 1, "take");
        for (unsigned i = 0; i < take && n; i++) {
            VideoFrame* g = dynamic_cast<VideoFrame*>(q->getFront());
            symx_assert(g != NULL, "slice available");
            symx_assert(g->getLength() == ref[0].len, "slice length");
            symx_assert(memcmp(g->getDataBuf(), ref[0].d, ref[0].len) == 0, "slice bytes");
            symx_assert(g->getSequenceNumber() == ref[0].seq && c64(g->getPresentationTime()) == ref[0].pts && c64(g->getDecodeTime()) == ref[0].dts, "picture number and times");
            symx_assert(g->getWidth() == ref[0].w && g->getHeight() == ref[0].h, "picture size");
            symx_assert(q->removeFrame() == 7, "removed");
            for (unsigned j = 1; j < n; j++) ref[j - 1] = ref[j];
            n--;
            symx_reach("read");
        }
        symx_assert((q->getFront() == NULL) == (n == 0) && q->getElements() == n, "fill level");
    }
    delete q;
}
// the number of slices of a picture is limited
static void limit(void)
{
    ConnectionData cd; StreamInfo si(VIDEO); si.video.codec = H264;
    unsigned max = (unsigned)symx_choose(0, 1, "max") * 40, sz = (unsigned)symx_choose(0, 1, "size") * 2;
    SlicedVideoFrameQueue* q = SlicedVideoFrameQueue::createNew(cd, &si, max, sz);
    symx_assert((q != NULL) == (max && sz), "created exactly for a positive number of slots and slice size");
    if (!q) return;
    unsigned char b[MAX_SLICES + 2][2];
    symx_bytes(b, sizeof(b), "b");
    unsigned k = (unsigned)symx_choose(0, MAX_SLICES + 2, "k");
    SlicedVideoFrame* f = dynamic_cast<SlicedVideoFrame*>(q->getRear());
    for (unsigned i = 0; i < k; i++) symx_assert(f->setSlice(b[i], 2) == (i < MAX_SLICES), "slices beyond the limit are refused");
    unsigned n = k < MAX_SLICES ? k : MAX_SLICES;
    symx_assert(f->getSliceNum() == (int)n, "number of slices");
    q->addFrame();
    symx_assert(q->getElements() == n, "slices queued");
    for (unsigned i = 0; i < n; i++) {
        VideoFrame* g = dynamic_cast<VideoFrame*>(q->getFront());
        symx_assert(g && g->getLength() == 2 && g->getDataBuf()[0] == b[i][0] && g->getDataBuf()[1] == b[i][1], "slice");
        q->removeFrame();
    }
    symx_assert(q->getFront() == NULL, "no more");
    symx_reach("limit");
    delete q;
}
extern "C" void harness(void) { if (symx_case() == 2) limit(); else run(); }
