// Audio ring buffer: sample-exact continuity, timestamps, silence for gaps, refusal when full.
#include "symx.h"
#include "AudioCircularBuffer.hh"
#include "AudioFrame.hh"
#include "Utils.hh"
#ifndef STEPS
#define STEPS 4
#endif
typedef std::chrono::microseconds us;
struct Peek : FrameQueue { static size_t FrameQueue::* r() { return &Peek::rear; } static size_t FrameQueue::* f() { return &Peek::front; } };

static const int MAXREF = 1200;
static uint8_t refS[2][MAXREF];     // first byte of every queued sample, per channel
static unsigned refN = 0;
static unsigned B = 2, CH = 2;

static AudioFrame* in(AudioCircularBuffer* b) { return dynamic_cast<AudioFrame*>(b->getRear()); }
static void fill(AudioFrame* f, unsigned n, bool sym)
{
    for (unsigned c = 0; c < CH; c++)
        for (unsigned i = 0; i < n; i++) {
            uint8_t v = sym ? symx_u8("s") : (uint8_t)(1 + c + 2 * i);
            for (unsigned k = 0; k < B; k++) f->getPlanarDataBuf()[c][i * B + k] = v;
        }
    f->setSamples(n); f->setLength(n * B);
}
static void refPush(AudioFrame* f, unsigned n) { for (unsigned i = 0; i < n; i++) { for (unsigned c = 0; c < CH; c++) refS[c][refN] = f ? f->getPlanarDataBuf()[c][i * B] : 0; refN++; } }
static void refPop(unsigned n) { for (unsigned c = 0; c < CH; c++) for (unsigned i = n; i < refN; i++) refS[c][i - n] = refS[c][i]; refN -= n; }
static bool same(AudioFrame* f, unsigned n)
{
    unsigned diff = 0;
    for (unsigned c = 0; c < CH; c++)
        for (unsigned i = 0; i < n; i++)
            for (unsigned k = 0; k < B; k++) diff |= f->getPlanarDataBuf()[c][i * B + k] ^ refS[c][i];
    return diff == 0;
}
static ConnectionData cdata() { ConnectionData cd; cd.wFilterId = 7; ReaderData r; r.rFilterId = 11; r.readerId = 1; cd.readers.push_back(r); return cd; }

// continuous input with jitter: nothing lost, nothing invented, in order
static void continuous(bool rates)
{
    unsigned rate = 1000, cap, maxS;
    SampleFmt fmt = S16P;
    if (rates) {
        unsigned k = (unsigned)symx_choose(0, 3, "rate");
        rate = k == 0 ? 8000 : k == 1 ? 11025 : k == 2 ? 44100 : 48000;
        maxS = 1; cap = rate / 1000;
        unsigned fk = (unsigned)symx_choose(0, 2, "fmt");
        fmt = fk == 0 ? U8P : fk == 1 ? S16P : FLTP; B = 1u << fk;
        CH = (unsigned)symx_choose(1, 2, "ch");
    } else { maxS = cap = (unsigned)symx_choose(5, 7, "cap"); }
    AudioCircularBuffer* b = AudioCircularBuffer::createNew(cdata(), CH, rate, maxS, fmt);
    symx_assert(b != NULL, "created");
    int64_t thr = 64 * 1000000ll / rate;
    unsigned out = rates ? (unsigned)symx_choose(3, 4, "out") : (unsigned)symx_choose(1, 3, "out");
    b->setOutputFrameSamples(out);
    // bounded so that the timestamps stay far from the ends of the 64-bit range
    int64_t sync = symx_range(0, 1ll << 50, "sync");
    uint64_t wrote = 0, rd = 0;
    bool first = true, pending = false;
    for (int s = 0; s < (rates ? STEPS - 1 : STEPS); s++) {
        int op = (int)symx_range(0, 1, "op");
        if (op == 0) {
            AudioFrame* f = in(b);
            symx_assert(f == b->forceGetRear(), "input frame always available");
            unsigned n = rates ? (unsigned)symx_choose(cap - 3, cap - 2, "n") : (unsigned)symx_choose(1, 4, "n");
            fill(f, n, true);
            int64_t jitter = symx_range(-64000000 / 8000, 64000000 / 8000, "jitter");
            if (rates) symx_assume(jitter >= -thr && jitter <= thr);
            if (first) jitter = 0;
            f->setPresentationTime(us(sync + (int64_t)(wrote * 1000000ull / rate) + jitter));
            f->setOriginTime(std::chrono::system_clock::time_point(std::chrono::nanoseconds(5)));
            std::vector<int> en = b->addFrame();
            first = false;
            bool fits = refN + n <= cap;
            if (fits) { symx_assert(en.size() == 1 && en[0] == 11, "reader notified"); refPush(f, n); wrote += n; symx_reach("pushed"); }
            else { symx_assert(en.empty(), "a frame that does not fit is refused whole"); symx_reach("full"); }
        } else {
            Frame* g = b->getFront();
            symx_assert((g != NULL) == (pending || refN >= out), "frame offered exactly when enough samples are queued");
            if (!g) continue;
            AudioFrame* a = dynamic_cast<AudioFrame*>(g);
            symx_assert(a->getSamples() == out, "output size");
            if (!pending) {
                symx_assert(same(a, out), "samples come out unchanged and in order");
                refPop(out);
                symx_assert(g->getPresentationTime().count() == sync + (int64_t)(rd * 1000000ull / rate), "timestamp advances with the samples consumed");
                rd += out;
                pending = true;
                symx_assert(b->getFront() == g, "same frame until removed");
                symx_reach("popped");
            }
            if (symx_range(0, 1, "remove")) { symx_assert(b->removeFrame() == 7, "writer told"); pending = false; }
        }
        symx_assert(b->getFreeSamples() == (int)(cap - refN), "free space");
        symx_assert(b->getElements() == refN / out, "elements");
        symx_observe(refN);
    }
    delete b;
}
// one discontinuity of any size after some samples
static void gap(bool big)
{
    unsigned rate = 1000, K = big ? 400 : 72;
    B = 1; CH = big ? 1 : 2;
    AudioCircularBuffer* b = AudioCircularBuffer::createNew(cdata(), CH, rate, K, U8P);
    symx_assert(b != NULL, "created");
    int64_t sync = 1000000;
    unsigned rot = big ? 0 : (unsigned)symx_choose(0, 2, "rot") * 34;   // start of the data inside the ring
    if (rot) {
        AudioFrame* f = in(b); fill(f, rot, false); f->setPresentationTime(us(sync)); b->addFrame();
        b->setOutputFrameSamples(rot); symx_assert(b->getFront() != NULL, "rotated"); b->removeFrame();
    }
    unsigned n1 = big ? 2 : (unsigned)symx_choose(1, 3, "n1"), n2 = 2;
    AudioFrame* f = in(b);
    fill(f, n1, true); f->setPresentationTime(us(sync + rot * 1000)); f->setOriginTime(std::chrono::system_clock::time_point());
    symx_assert(b->addFrame().size() == 1, "first frame accepted");
    refPush(f, n1);
    // number of whole samples of silence, and the microseconds on top of it
    int64_t dev, pad0 = 0;
    switch ((int)symx_choose(0, big ? 0 : 2, "zone")) {
        case 0: pad0 = (int64_t)symx_concretize((uint64_t)symx_range(64, K - 1, "pad")); dev = pad0 * 1000 + symx_range(0, 999, "us"); break;
        case 1: dev = symx_range(-(1ll << 50), 64000, "dev"); break;
        default: dev = symx_range((int64_t)K * 1000, 1ll << 50, "dev"); break;
    }
    f = in(b);
    fill(f, n2, true);
    f->setPresentationTime(us(sync + (int64_t)(rot + n1) * 1000 + dev));
    std::vector<int> en = b->addFrame();
    if (dev < -64000) { symx_assert(en.empty(), "frame from the past is dropped"); symx_reach("past"); }
    else if (dev <= 64000) { symx_assert(en.size() == 1, "jitter tolerated"); refPush(f, n2); symx_reach("jitter"); }
    else if (dev >= (int64_t)K * 1000) {
        symx_assert(en.empty() && b->getFreeSamples() == (int)K && b->getElements() == 0, "discontinuity empties the buffer");
        refN = 0; symx_reach("flush");
        // and the next frame starts a new timeline
        int64_t nt = symx_range(0, 1ll << 50, "newsync");
        f = in(b); fill(f, n2, true); f->setPresentationTime(us(nt));
        symx_assert(b->addFrame().size() == 1, "accepted after the discontinuity"); refPush(f, n2);
        b->setOutputFrameSamples(n2);
        AudioFrame* a = dynamic_cast<AudioFrame*>(b->getFront());
        symx_assert(a != NULL && a->getPresentationTime().count() == nt && same(a, n2), "new timeline");
        delete b;
        return;
    } else {
        unsigned pad = (unsigned)pad0;
        if (n1 + pad <= K) refPush(NULL, pad);
        if (n1 + pad <= K && refN + n2 <= K) { symx_assert(en.size() == 1, "frame after the gap accepted"); refPush(f, n2); symx_reach("padded"); }
        else { symx_assert(en.empty(), "refused when silence and frame do not fit"); symx_reach("nofit"); }
    }
    symx_assert(b->getFreeSamples() == (int)(K - refN), "free space");
    symx_observe(refN);
    // everything queued is read back, in blocks of up to 100 ms
    unsigned done = rot;
    while (refN) {
        unsigned o = refN < 100 ? refN : 100;
        b->setOutputFrameSamples(o);
        AudioFrame* a = dynamic_cast<AudioFrame*>(b->getFront());
        symx_assert(a != NULL, "readable");
        symx_assert(same(a, o), "samples and silence exact");
        symx_assert(a->getPresentationTime().count() == sync + (int64_t)done * 1000, "timestamp");
        refPop(o); done += o; b->removeFrame();
    }
    symx_assert(b->getFront() == NULL, "drained");
    delete b;
    symx_reach("drained");
}
// after an arbitrarily long continuous history
static void longrun(void)
{
    unsigned K = 6, rate = 1000; B = 2; CH = 1;
    AudioCircularBuffer* b = AudioCircularBuffer::createNew(cdata(), CH, rate, K, S16P);
    b->setOutputFrameSamples(2);
    AudioFrame* f = in(b);
    fill(f, 2, true); f->setPresentationTime(us(0)); f->setOriginTime(std::chrono::system_clock::time_point()); b->addFrame();
    symx_assert(b->getFront() != NULL, "start"); b->removeFrame();
    // an equal number of samples written and read since: any number below 2^36 (16 days at 48 kHz)
    uint64_t x = (uint64_t)symx_range(1, 1ll << 32, "blocks") * K + (uint64_t)symx_choose(0, K - 1, "phase");
    b->*Peek::r() = x * B; b->*Peek::f() = x * B;
    f = in(b);
    fill(f, 3, true); f->setPresentationTime(us((int64_t)x * 1000));
    symx_assert(b->addFrame().size() == 1, "continuous input accepted after a long run"); refPush(f, 3);
    AudioFrame* a = dynamic_cast<AudioFrame*>(b->getFront());
    symx_assert(a != NULL && same(a, 2), "content after a long run");
    symx_assert(a->getPresentationTime().count() == (int64_t)x * 1000, "timestamp after a long run");
    symx_reach("longrun");
    delete b;
}
static void refused(void)
{
    unsigned ch = (unsigned)symx_choose(0, 2, "ch"), rate = (unsigned)symx_choose(0, 1, "rate") * 8000, m = (unsigned)symx_choose(0, 1, "max") * 4;
    SampleFmt f = (SampleFmt)symx_choose(S_NONE, FLTP, "fmt");
    AudioCircularBuffer* b = AudioCircularBuffer::createNew(cdata(), ch, rate, m, f);
    bool ok = ch && rate && m && (f == U8P || f == S16P || f == FLTP);
    symx_assert((b != NULL) == ok, "created exactly for valid planar parameters");
    if (b) { symx_assert(b->getFront() == NULL && b->getElements() == 0, "starts empty"); delete b; symx_reach("ok"); }
}
extern "C" void harness(void)
{
    switch (symx_case()) {
        case 0: continuous(false); break;
        case 1: continuous(true); break;
        case 2: gap(false); break;
        case 3: gap(true); break;
        case 4: longrun(); break;
        case 5: refused(); break;
    }
}
