// DASH segmenters: NAL units into access units, AAC frames, init and media segments.
#include "mp4.hh"
#include "VideoFrame.hh"
#include "AudioFrame.hh"
#include "modules/dasher/DashVideoSegmenterAVC.hh"
#include "modules/dasher/DashVideoSegmenterHEVC.hh"
#include "modules/dasher/DashAudioSegmenter.hh"
#ifndef NALS
#define NALS 4
#endif
#ifndef FRAMES
#define FRAMES 5
#endif
typedef std::chrono::microseconds us;
static const int64_t NODTS = -1;
static int64_t timeOf(int64_t pts, int64_t dts) { return dts != NODTS && dts <= pts ? dts : pts; }

enum Cls { KEY, SLICE, AUD, SEI_, SPSX, PPSX, VPSX, SUFSEI, OTHER };
static bool hevc;
static unsigned nalHeaderLen() { return hevc ? 2 : 1; }
// first byte of a NAL of the class: the type is one of the class, the other header bits are free
static unsigned char nalByte(Cls c)
{
    unsigned t = 0, other = symx_u8("nalbits");
    if (!hevc) {
        switch (c) {
            case KEY: t = 5; break; case SLICE: t = 1; break; case AUD: t = 9; break; case SEI_: t = 6; break;
            case SPSX: t = 7; break; case PPSX: t = 8; break;
            default: t = (unsigned)symx_range(0, 31, "type"); symx_assume(t == 0 || (t >= 2 && t <= 4) || t >= 10);
        }
        return (unsigned char)((other & 0xE0) | t);
    }
    switch (c) {
        case KEY: t = (unsigned)symx_range(19, 21, "type"); break; case SLICE: t = (unsigned)symx_range(0, 1, "type"); break;
        case AUD: t = 35; break; case SEI_: t = 39; break; case SUFSEI: t = 40; break;
        case VPSX: t = 32; break; case SPSX: t = 33; break; case PPSX: t = 34; break;
        default: t = (unsigned)symx_range(0, 63, "type"); symx_assume((t >= 2 && t <= 18) || (t >= 22 && t <= 31) || (t >= 36 && t <= 38) || t >= 41);
    }
    return (unsigned char)((other & 0x81) | t << 1);
}
static DashVideoSegmenter* mk(unsigned dur, us off)
{
    if (hevc) return new DashVideoSegmenterHEVC(std::chrono::seconds(dur), off);
    return new DashVideoSegmenterAVC(std::chrono::seconds(dur), off);
}
static const unsigned SC3[] = {0, 0, 1}, SC4[] = {0, 0, 0, 1};
static unsigned putNal(InterleavedVideoFrame* f, unsigned sc, Bytes d, unsigned n)
{
    unsigned char* b = f->getDataBuf(); unsigned k = 0;
    for (unsigned i = 0; i < sc; i++) b[k++] = sc == 4 ? SC4[i] : SC3[i];
    memcpy(b + k, d, n); k += n;
    f->setLength(k);
    return k;
}

// ---- access units
static void assembly(int fixedSc = -1)
{
    DashVideoSegmenter* s = mk(2, us(0));
    unsigned sc = fixedSc >= 0 ? (unsigned)fixedSc : (unsigned)symx_choose(0, 2, "startcode"); if (sc) sc += 2;
    InterleavedVideoFrame* nal = InterleavedVideoFrame::createNew(hevc ? H265 : H264, 64);
    unsigned char unit[128]; unsigned ul = 0; int uw = 0, uh = 0; int64_t upts = 0, udts = 0; bool key = false, tail = false;
    for (int k = 0; k < NALS; k++) {
        Cls c = (Cls)symx_choose(0, 8, "class");
        if (!hevc && (c == VPSX || c == SUFSEI)) symx_silent_exit();
        if (k == 0 && c != KEY && c != SLICE && c != AUD) symx_silent_exit();
        unsigned char d[4]; unsigned n = k & 1 ? 2 : 3;
        d[0] = nalByte(c); symx_bytes(d + 1, 3, "nal");
        if (!sc) symx_assume(d[0] | d[1]);           // no start code: the NAL itself does not look like one
        putNal(nal, sc, d, n);
        int w = (int)symx_range(1, 4096, "w"), h = (int)symx_range(1, 4096, "h");
        int64_t pts = symx_range(0, 1 << 30, "pts"), dts = k & 1 ? NODTS : symx_range(0, 1 << 30, "dts");
        nal->setSize(w, h); nal->setPresentationTime(us(pts)); nal->setDecodeTime(us(dts));
        Frame* f = s->manageFrame(nal);
        bool complete = c != OTHER && ul > 0 && (c == AUD || timeOf(pts, dts) > timeOf(upts, udts));
        symx_assert((f != NULL) == complete, "an access unit is delivered exactly when the next one begins");
        if (complete) {
            symx_reach("unit");
            VideoFrame* v = dynamic_cast<VideoFrame*>(f);
            symx_assert(v && v->getLength() == ul, "access unit length");
            symx_assert(!memcmp(v->getDataBuf(), unit, ul), "access unit holds its slices, each with its length");
            symx_assert(v->getWidth() == uw && v->getHeight() == uh, "access unit resolution");
            symx_assert(v->getPresentationTime().count() == upts && v->getDecodeTime().count() == udts, "access unit times");
            symx_assert(s->getWidth() == (unsigned)uw && s->getHeight() == (unsigned)uh, "segmenter resolution");
            if (!tail) { symx_assert(s->isPreviousFrameIntra() == key, "key flag of the access unit"); if (key) symx_reach("key"); }
            ul = 0; tail = false;
        }
        if (c == KEY || c == SLICE) {
            unit[ul] = unit[ul + 1] = unit[ul + 2] = 0; unit[ul + 3] = (unsigned char)n; memcpy(unit + ul + 4, d, n); ul += 4 + n;
            upts = pts; udts = dts; uw = w; uh = h; key = c == KEY; tail = false;
        } else if (ul && (c == SEI_ || c == SPSX || c == PPSX || c == VPSX)) tail = true;   // not allowed after a slice of the same unit
    }
}
// one NAL of any bytes and length, in a buffer of exactly that size
static void anyNal(void)
{
    DashVideoSegmenter* s = mk(2, us(0));
    unsigned n = (unsigned)symx_choose(0, 6, "len");
    InterleavedVideoFrame* nal = InterleavedVideoFrame::createNew(hevc ? H265 : H264, n ? n : 1);
    unsigned char d[8]; symx_bytes(d, 8, "any");
    memcpy(nal->getDataBuf(), d, n);
    nal->setLength(n); nal->setSize(16, 16); nal->setPresentationTime(us(5)); nal->setDecodeTime(us(NODTS));
    unsigned sc = 0;
    if (n >= 3 && !d[0] && !d[1] && d[2] == 1) sc = 3;
    else if (n >= 4 && !d[0] && !d[1] && !d[2] && d[3] == 1) sc = 4;
    unsigned t = hevc ? (d[sc] & 0x7E) >> 1 : d[sc] & 0x1F;
    bool vcl = n > sc && (hevc ? (t <= 1 || (t >= 19 && t <= 21)) : (t == 1 || t == 5));
    symx_assert(s->manageFrame(nal) == NULL, "one NAL does not complete a unit");
    InterleavedVideoFrame* aud = InterleavedVideoFrame::createNew(hevc ? H265 : H264, 8);
    unsigned char a[2] = {(unsigned char)(hevc ? 35 << 1 : 9), 1};
    putNal(aud, 4, a, 2); aud->setSize(16, 16); aud->setPresentationTime(us(5)); aud->setDecodeTime(us(NODTS));
    Frame* f = s->manageFrame(aud);
    symx_assert((f != NULL) == vcl, "slices, and only slices, make up access units");
    if (f) {
        symx_reach("anyslice");
        symx_assert(f->getLength() == 4 + n - sc && u32b(f->getDataBuf()) == n - sc && !memcmp(f->getDataBuf() + 4, d + sc, n - sc), "NAL stored without its start code");
    } else symx_reach("noslice");
}
// an access unit larger than the segmenter can hold
static void hugeUnit(void)
{
    hevc = symx_choose(0, 1, "hevc");
    DashVideoSegmenter* s = mk(2, us(0));
    const unsigned BIG = 1100000;
    InterleavedVideoFrame* nal = InterleavedVideoFrame::createNew(hevc ? H265 : H264, BIG + 16);
    nal->getDataBuf()[0] = hevc ? 19 << 1 : 5;
    memset(nal->getDataBuf() + 1, 3, BIG);
    nal->setSize(16, 16); nal->setPresentationTime(us(5)); nal->setDecodeTime(us(5));
    unsigned total = 0, cap = 0; (void)cap;
    for (int i = 0; i < 3; i++) { nal->setLength(BIG - i); symx_assert(s->manageFrame(nal) == NULL, "same unit"); total += BIG - i + 4; }
    nal->getDataBuf()[0] = hevc ? 35 << 1 : 9; nal->setLength(2);
    Frame* f = s->manageFrame(nal);
    symx_assert(f && f->getLength() <= f->getMaxLength() && f->getLength() >= BIG + 4 && f->getLength() <= total, "unit within its buffer");
    symx_reach("huge");
}

// ---- segments
static Box trun(Bytes data, unsigned len, bool video, uint64_t ts, uint32_t tb, uint32_t dur, uint32_t seq, unsigned n, Box& mdat)
{
    Walk top(data, len);
    Box styp = top.next("styp");
    symx_assert(styp.n == 20 && !memcmp(styp.p, "iso6", 4), "styp");
    Box sidx = top.next("sidx");
    Bytes moofp = top.p;
    Box moof = top.next("moof");
    Bytes mdatp = top.p;
    mdat = top.next("mdat");
    top.done();
    // sidx (64 bit times)
    symx_assert(sidx.n == 4 + 4 + 4 + 8 + 8 + 4 + 12, "sidx size");
    symx_assert(u32b(sidx.p + 8) == tb, "sidx timescale");
    symx_assert(u64b(sidx.p + 12) == ts, "sidx earliest presentation time");
    symx_assert(u64b(sidx.p + 20) == 0 && u16b(sidx.p + 30) == 1, "sidx one reference");
    symx_assert((u32b(sidx.p + 32)) == (uint32_t)(data + len - moofp), "sidx reference covers moof and mdat");
    symx_assert(u32b(sidx.p + 36) == dur, "sidx duration");
    symx_assert((sidx.p[40] & 0x80) != 0, "sidx starts with a random access point");
    Walk wm(moof);
    Box mfhd = wm.next("mfhd"); Box traf = wm.next("traf"); wm.done();
    symx_assert(mfhd.n == 8 && u32b(mfhd.p + 4) == seq, "mfhd sequence number");
    Walk wt(traf);
    Box tfhd = wt.next("tfhd"); Box tfdt = wt.next("tfdt"); Box tr = wt.next("trun"); wt.done();
    symx_assert(tfhd.n == 8 && u32b(tfhd.p) == 0x00020000 && u32b(tfhd.p + 4) == 1, "tfhd: offsets from moof, track 1");
    symx_assert(tfdt.n == 12 && u64b(tfdt.p + 4) == ts, "tfdt time");
    symx_assert(u32b(tr.p) == (video ? 0x000F01u : 0x000301u), "trun flags");
    symx_assert(u32b(tr.p + 4) == n, "trun sample count");
    symx_assert(u32b(tr.p + 8) == (uint32_t)(mdatp + 8 - moofp), "trun data offset points at the data");
    symx_assert(tr.n == 12 + n * (video ? 16 : 8), "trun size");
    return tr;
}
struct Smp { uint64_t pts, dts; unsigned n; unsigned char d[8]; bool key; };
static uint64_t tbOf(int64_t us_, int64_t off, uint32_t tb) { return (uint64_t)((us_ - off) * (int64_t)tb / 1000000); }

static void videoSegments(bool reorder)
{
    int64_t off = symx_range(0, 1000000, "offset");
    DashVideoSegmenter* s = mk(1, us(off));
    const uint32_t TB = s->getTimeBase();
    symx_assert(TB == DASH_VIDEO_TIME_BASE && s->getSegDurInTimeBaseUnits() == TB, "one second in the video time base");
    DashSegment* seg = new DashSegment(4096);
    symx_assert(!s->generateSegment(seg, NULL), "nothing to generate");
    InterleavedVideoFrame* nal = InterleavedVideoFrame::createNew(hevc ? H265 : H264, 64);
    Smp v[FRAMES]; unsigned n = 0; uint32_t seq = 0; bool had = false; uint64_t nextTs = 0;
    // frame times: one gap is free to the microsecond, the others and the start are multiples of 625 us (8 ticks) apart from a phase
    int odd = (int)symx_choose(1, FRAMES - 1, "odd");
    static const int64_t phases[] = {625ll << 33, 624, 77};     // the first: media times beyond 32 bits
    int64_t pts = off + 625 * symx_range(0, 1600, "start") + phases[symx_choose(0, 2, "phase")];
    for (int k = 0; k < FRAMES; k++) {
        if (k == odd) pts += 625 * symx_range(reorder ? 2 : 1, 2400, "gap625") + symx_range(0, 624, "gapus");
        else if (k) pts += 625 * symx_range(reorder ? 2 : 1, 2400, "gap625");
        bool key = symx_choose(0, 1, "key");
        bool nodts = !reorder && k != 1;
        int64_t dts = nodts ? NODTS : reorder ? pts - (k == odd ? symx_range(0, 900, "cto") : 625 * symx_range(0, 1, "cto")) : pts;
        if (reorder) symx_assume(dts >= off);
        unsigned char d[4]; d[0] = nalByte(key ? KEY : SLICE); symx_bytes(d + 1, 3, "nal");
        unsigned len = 2 + k % 3;
        putNal(nal, 4, d, len); nal->setSize(640, 360); nal->setPresentationTime(us(pts)); nal->setDecodeTime(us(dts));
        symx_assert(s->manageFrame(nal) == NULL, "unit not complete");
        unsigned char a[2] = {(unsigned char)(hevc ? 35 << 1 : 9), 1};
        putNal(nal, 4, a, 2);
        Frame* f = s->manageFrame(nal);
        symx_assert(f != NULL, "unit");
        uint64_t tp = tbOf(pts, off, TB), td = nodts ? tp : tbOf(dts, off, TB);
        // the segment is closed?
        bool cut = s->generateSegment(seg, f);
        bool want = false; uint64_t cur = 0, last = 0;
        if (n) {
            last = tp - v[n - 1].pts; cur = v[n - 1].dts - v[0].dts;
            want = key && cur + 2 * last >= TB;
        }
        symx_assert(cut == want, "a segment is closed at the first key frame within one frame of its duration, and only there");
        if (cut) {
            symx_reach("cut");
            symx_assert(seg->isComplete() && seg->getTimestamp() == v[0].pts, "segment timestamp");
            symx_assert(seg->getDuration() == cur + last, "segment duration");
            if (!reorder) {
                if (had) { symx_assert(seg->getTimestamp() == nextTs, "segments follow each other without gap or overlap"); symx_reach("second"); }
                nextTs = seg->getTimestamp() + seg->getDuration(); had = true;
                symx_assert(nextTs == tp, "segment ends where the next one starts");
            }
            symx_assert(seg->getSeqNumber() == seq + 1, "segment sequence number");
            Box mdat, tr = trun(seg->getDataBuffer(), seg->getDataLength(), true, v[0].pts, TB, (uint32_t)(cur + last), seq, n, mdat);
            unsigned at = 0;
            for (unsigned i = 0; i < n; i++) {
                Bytes e = tr.p + 12 + 16 * i;
                symx_assert(u32b(e) == (uint32_t)(i + 1 < n ? v[i + 1].dts - v[i].dts : last), "sample duration");
                symx_assert(u32b(e + 4) == v[i].n, "sample size");
                symx_assert(((u32b(e + 8) & 0x00010000) == 0) == v[i].key, "sample sync flag");
                symx_assert(u32b(e + 12) == (uint32_t)(v[i].pts - v[i].dts), "composition offset");
                symx_assert(at + v[i].n <= mdat.n && !memcmp(mdat.p + at, v[i].d, v[i].n), "sample data");
                at += v[i].n;
            }
            symx_assert(at == mdat.n, "mdat holds the samples and nothing else");
            seq++; n = 0; seg->clear();
        }
        bool ok = s->appendFrameToDashSegment(f);
        symx_assert(ok == (n > 0 || key), "a segment begins with a key frame");
        if (ok) {
            Smp& m = v[n++]; m.pts = tp; m.dts = td; m.key = key; m.n = 4 + len;
            m.d[0] = m.d[1] = m.d[2] = 0; m.d[3] = (unsigned char)len; memcpy(m.d + 4, d, len);
        } else symx_reach("refused");
        if (!reorder && k == 2 && symx_choose(0, 1, "flush")) {
            symx_assert(s->flushDashContext(), "flushed"); n = 0; had = false; symx_reach("flush");
        }
    }
}

static void audioSegments(void)
{
    static const int rates[] = {48000, 8000, 44100};
    int rate = rates[symx_choose(0, 2, "rate")];
    int64_t off = symx_range(0, 1000000, "offset");
    DashAudioSegmenter* s = new DashAudioSegmenter(std::chrono::seconds(1), us(off));
    DashSegment* seg = new DashSegment(4096);
    symx_assert(!s->generateSegment(seg, NULL), "nothing to generate");
    InterleavedAudioFrame* fr = InterleavedAudioFrame::createNew(2, rate, AudioFrame::getMaxSamples(rate), AAC, S16);
    Smp v[FRAMES]; unsigned n = 0; uint32_t seq = 0; uint64_t cur = 0;
    int64_t pts = off + symx_range(0, 1ll << 40, "start");
    for (int k = 0; k < FRAMES; k++) {
        if (k) pts += symx_range(0, 1000000, "gap");
        unsigned char* b = fr->getDataBuf();
        b[0] = 0xFF; b[1] = 0xF1; b[2] = 0x4C; b[3] = 0x80; symx_bytes(b + 4, 3, "adts");
        unsigned len = 1 + k % 3; unsigned char d[4]; symx_bytes(d, len, "aac");
        memcpy(b + 7, d, len);
        fr->setLength(7 + len); fr->setPresentationTime(us(pts));
        uint32_t samples = (uint32_t)symx_range(1, rate / 10, "samples") * 5;       // up to half a second each
        fr->setSamples(samples);
        Frame* f = s->manageFrame(fr);
        symx_assert(f == fr, "audio frame accepted");
        symx_assert(s->getTimeBase() == (unsigned)rate && s->getSegDurInTimeBaseUnits() == (unsigned)rate && s->getFrameDuration() == samples, "time base is the sample rate");
        symx_assert(s->getSampleRate() == (unsigned)rate && s->getChannels() == 2, "stream parameters");
        bool force = k == FRAMES - 1 && symx_choose(0, 1, "force");
        bool cut = s->generateSegment(seg, force ? NULL : f, force);
        bool want = n && (force || cur >= (uint64_t)rate);
        symx_assert(cut == want, "an audio segment is closed as soon as it holds its duration, or when forced");
        if (cut) {
            symx_reach(force ? "forced" : "acut");
            symx_assert(seg->isComplete() && seg->getTimestamp() == v[0].pts && seg->getDuration() == cur && seg->getSeqNumber() == seq + 1, "segment times");
            Box mdat, tr = trun(seg->getDataBuffer(), seg->getDataLength(), false, v[0].pts, rate, (uint32_t)cur, seq, n, mdat);
            unsigned at = 0;
            for (unsigned i = 0; i < n; i++) {
                Bytes e = tr.p + 12 + 8 * i;
                symx_assert(u32b(e) == (uint32_t)v[i].dts && u32b(e + 4) == v[i].n, "sample duration and size");
                symx_assert(at + v[i].n <= mdat.n && !memcmp(mdat.p + at, v[i].d, v[i].n), "sample data without the ADTS header");
                at += v[i].n;
            }
            symx_assert(at == mdat.n, "mdat holds the samples and nothing else");
            seq++; n = 0; cur = 0; seg->clear();
        }
        symx_assert(s->appendFrameToDashSegment(f), "audio frame appended");
        Smp& m = v[n++]; m.pts = tbOf(pts, off, rate); m.dts = samples; m.n = len; memcpy(m.d, d, len); m.key = true;
        cur += samples;
    }
}
// more data or samples than a segment can hold
static void capacity(int what)
{
    DashSegment* seg = new DashSegment();
    if (what == 0) {                // video bytes
        DashVideoSegmenter* s = mk(10, us(0));
        const unsigned BIG = 1900000;
        InterleavedVideoFrame* nal = InterleavedVideoFrame::createNew(H264, BIG + 16);
        memset(nal->getDataBuf(), 3, BIG);
        unsigned held = 0, n = 0, sizes[8]; bool refused = false;
        for (int k = 0; k < 8; k++) {
            const unsigned len = BIG - 1000 * k;
            nal->getDataBuf()[0] = k ? 1 : 5; nal->setLength(len); nal->setSize(16, 16);
            nal->setPresentationTime(us(k * 40000)); nal->setDecodeTime(us(k * 40000));
            symx_assert(s->manageFrame(nal) == NULL, "incomplete");
            nal->getDataBuf()[0] = 9; nal->setLength(2);
            Frame* f = s->manageFrame(nal); symx_assert(f, "unit");
            symx_assert(!s->generateSegment(seg, f), "not due");
            if (s->appendFrameToDashSegment(f)) { held += len + 4; sizes[n++] = len + 4; } else refused = true;
            symx_assert(!s->isPreviousFrameIntra() == (k > 0), "key");
        }
        symx_assert(refused && held <= MAX_DAT, "what does not fit is refused");
        nal->getDataBuf()[0] = 5; nal->setLength(10); nal->setPresentationTime(us(11000000)); nal->setDecodeTime(us(11000000));
        s->manageFrame(nal); nal->getDataBuf()[0] = 9; nal->setLength(2);
        Frame* f = s->manageFrame(nal);
        symx_assert(f && s->generateSegment(seg, f), "segment");
        symx_assert(seg->getDataLength() <= MAX_DAT && seg->getDataLength() > held, "segment within its buffer");
        const uint32_t tick = 512, dur = tbOf(11000000, 0, DASH_VIDEO_TIME_BASE);
        Box mdat, tr = trun(seg->getDataBuffer(), seg->getDataLength(), true, 0, DASH_VIDEO_TIME_BASE, dur, 0, n, mdat);
        symx_assert(mdat.n == held, "mdat holds the samples and nothing else");
        unsigned at = 0;
        for (unsigned k = 0; k < n; k++) {
            Bytes e = tr.p + 12 + 16 * k;
            symx_assert(u32b(e) == (k + 1 < n ? tick : dur - k * tick) && u32b(e + 4) == sizes[k] && ((u32b(e + 8) & 0x10000) == 0) == (k == 0) && u32b(e + 12) == 0, "sample of a large segment");
            symx_assert(u32b(mdat.p + at) == sizes[k] - 4 && mdat.p[at + 4] == (k ? 1 : 5) && mdat.p[at + sizes[k] - 1] == 3, "data of a large segment");
            at += sizes[k];
        }
        symx_reach("vcap");
    } else {                        // audio bytes / number of samples
        DashAudioSegmenter* s = new DashAudioSegmenter(std::chrono::seconds(3600), us(0));
        InterleavedAudioFrame* fr = InterleavedAudioFrame::createNew(2, 48000, AudioFrame::getMaxSamples(48000), AAC, S16);
        unsigned char* b = fr->getDataBuf();
        memset(b, 0, 15000); b[0] = 0xFF; b[1] = 0xF1; b[2] = 0x4C; b[3] = 0x80;
        unsigned len = what == 1 ? 15000 : 8, K = what == 1 ? 720 : 65600;
        fr->setLength(len); fr->setSamples(what == 1 ? 1024 : 1);
        unsigned held = 0; bool refused = false;
        for (unsigned k = 0; k < K; k++) {
            b[7] = (unsigned char)k;
            fr->setPresentationTime(us(k * 20000));
            if (!k) symx_assert(s->manageFrame(fr) == fr, "managed");
            if (s->appendFrameToDashSegment(fr)) held++; else refused = true;
        }
        symx_assert(refused && held < K, "what does not fit is refused");
        symx_assert(s->generateSegment(seg, NULL, true), "segment");
        symx_assert(seg->getDataLength() <= MAX_DAT && seg->getDataLength() > held * (len - 7), "segment within its buffer");
        const uint32_t each = what == 1 ? 1024 : 1;
        Box mdat, tr = trun(seg->getDataBuffer(), seg->getDataLength(), false, 0, 48000, held * each, 0, held, mdat);
        symx_assert(mdat.n == held * (len - 7), "mdat holds the samples and nothing else");
        for (unsigned k = 0; k < held; k++)
            symx_assert(u32b(tr.p + 12 + 8 * k) == each && u32b(tr.p + 16 + 8 * k) == len - 7 && mdat.p[k * (len - 7)] == (unsigned char)k, "sample of a large segment");
        symx_reach("acap");
    }
}

// ---- init segments
static Box sampleEntry(Bytes p, unsigned len, bool video, uint32_t tb, int w, int h, const char* type)
{
    Walk top(p, len);
    Box ftyp = top.next("ftyp"); symx_assert(ftyp.n == 20 && !memcmp(ftyp.p, "iso6", 4), "ftyp");
    Box moov = top.next("moov"); top.done();
    Walk wm(moov);
    Box mvhd = wm.next("mvhd"); Box mvex = wm.next("mvex"); Box trak = wm.next("trak"); wm.done();
    symx_assert(mvhd.n == 100 && u32b(mvhd.p + 12) != 0, "mvhd");
    Walk wx(mvex); Box trex = wx.next("trex"); wx.done();
    symx_assert(trex.n == 24 && u32b(trex.p + 4) == 1 && u32b(trex.p + 8) == 1, "trex");
    symx_assert(u32b(trex.p + 12) == (video ? 0 : 1024u) && u32b(trex.p + 16) == 0 && u32b(trex.p + 20) == 0, "trex defaults");
    Walk wt(trak); Box tkhd = wt.next("tkhd"); Box mdia = wt.next("mdia"); wt.done();
    symx_assert(tkhd.n == 84 && u32b(tkhd.p + 12) == 1, "tkhd track 1");
    symx_assert(u32b(tkhd.p + 76) == (uint32_t)w << 16 && u32b(tkhd.p + 80) == (uint32_t)h << 16, "tkhd resolution");
    Walk wd(mdia); Box mdhd = wd.next("mdhd"); Box hdlr = wd.next("hdlr"); Box minf = wd.next("minf"); wd.done();
    symx_assert(mdhd.n == 24 && u32b(mdhd.p + 12) == tb, "mdhd timescale");
    symx_assert(!memcmp(hdlr.p + 8, video ? "vide" : "soun", 4), "hdlr");
    Walk wi(minf); wi.next(video ? "vmhd" : "smhd"); Box dinf = wi.next("dinf"); Box stbl = wi.next("stbl"); wi.done();
    Walk wf(dinf); Box dref = wf.next("dref"); wf.done();
    symx_assert(u32b(dref.p + 4) == 1, "dref"); Walk wr(dref, 8); wr.next("url "); wr.done();
    Walk ws(stbl); Box stsd = ws.next("stsd"); ws.next("stts"); ws.next("stsc"); ws.next("stsz"); ws.next("stco"); ws.done();
    symx_assert(u32b(stsd.p + 4) == 1, "stsd"); Walk we(stsd, 8); Box e = we.next(type); we.done();
    return e;
}
static void videoInit(void)
{
    DashVideoSegmenter* s = mk(2, us(0));
    DashSegment* seg = new DashSegment(4096);
    symx_assert(!s->generateInitSegment(seg), "no init segment before the parameter sets");
    InterleavedVideoFrame* nal = InterleavedVideoFrame::createNew(hevc ? H265 : H264, 64);
    int w = (int)symx_range(1, 65535, "w"), h = (int)symx_range(1, 65535, "h");
    nal->setSize(w, h); nal->setPresentationTime(us(0)); nal->setDecodeTime(us(NODTS));
    unsigned len[3]; unsigned char d[3][8];
    Cls ord[3] = {VPSX, SPSX, PPSX};
    int lens = (int)symx_choose(hevc ? 0 : 1, 2, "which");
    for (int rep = 0; rep < 2; rep++) {
        unsigned perm = (unsigned)symx_choose(0, 1, "order");
        for (int i = hevc ? 0 : 1; i < 3; i++) {
            int j = perm && i ? 3 - i : i;
            len[j] = rep == 0 && j != (int)lens ? 3 + (j == 1) : (unsigned)symx_choose(1, 4, "len"); d[j][0] = nalByte(ord[j]); symx_bytes(d[j] + 1, 3, "ps");
            putNal(nal, 4, d[j], len[j]);
            s->manageFrame(nal);
        }
        unsigned char a[2] = {(unsigned char)(hevc ? 19 << 1 : 5), 1}, u[2] = {(unsigned char)(hevc ? 35 << 1 : 9), 1};
        putNal(nal, 4, a, 2); s->manageFrame(nal);
        putNal(nal, 4, u, 2); symx_assert(s->manageFrame(nal) != NULL, "unit");
        bool got = s->generateInitSegment(seg);
        if (!hevc && len[1] < 4) { symx_assert(!got, "a truncated SPS gives no init segment"); symx_reach("shortsps"); break; }
        symx_assert(got, "init segment once the parameter sets are known");
        symx_reach("vinit");
        Box e = sampleEntry(seg->getDataBuffer(), seg->getDataLength(), true, DASH_VIDEO_TIME_BASE, w, h, hevc ? "hev1" : "avc1");
        symx_assert(u16b(e.p + 6) == 1 && u16b(e.p + 24) == w && u16b(e.p + 26) == h, "sample entry resolution");
        Walk we(e, 78); Box c = we.next(hevc ? "hvcC" : "avcC"); we.done();
        Bytes p = c.p;
        symx_assert(p[0] == 1, "configuration version");
        unsigned at;
        if (!hevc) {
            symx_assert(c.n == 11 + len[1] + len[2], "avcC size");
            symx_assert((p[4] & 3) == 3 && (p[5] & 31) == 1, "4 byte lengths, one SPS");
            symx_assert(u16b(p + 6) == len[1] && !memcmp(p + 8, d[1], len[1]), "SPS");
            at = 8 + len[1];
            symx_assert(p[at] == 1 && u16b(p + at + 1) == len[2] && !memcmp(p + at + 3, d[2], len[2]), "PPS");
            symx_assert(!memcmp(p + 1, d[1] + 1, 3) | !memcmp(p + 1, d[1], 3), "profile bytes come from the SPS");
            symx_assert(!memcmp(p + 1, d[1] + 1, 3), "profile, compatibility and level are those of the SPS");
        } else {
            symx_assert(c.n == 23 + 15 + len[0] + len[1] + len[2], "hvcC size");
            symx_assert((p[21] & 3) == 3 && p[22] == 3, "4 byte lengths, three arrays");
            at = 23;
            for (int i = 0; i < 3; i++) {
                symx_assert((p[at] & 63) == 32 + i && u16b(p + at + 1) == 1 && u16b(p + at + 3) == len[i] && !memcmp(p + at + 5, d[i], len[i]), "VPS, SPS and PPS");
                at += 5 + len[i];
            }
        }
        symx_assert(!s->generateInitSegment(seg), "written once per set of parameter sets");
    }
}
static void adts(void)
{
    static const int rates[] = {48000, 44100, 8000};
    int rate = rates[symx_choose(0, 2, "rate")]; unsigned ch = (unsigned)symx_range(1, 8, "channels");
    DashAudioSegmenter* s = new DashAudioSegmenter(std::chrono::seconds(1), us(0));
    DashSegment* seg = new DashSegment(4096);
    InterleavedAudioFrame* fr = InterleavedAudioFrame::createNew(2, rate, AudioFrame::getMaxSamples(rate), AAC, S16);
    fr->setChannels(ch);
    fr->setSamples(1024); fr->setPresentationTime(us(0));
    bool have = false; unsigned char c0 = 0, c1 = 0;
    for (int k = 0; k < 2; k++) {
        unsigned len = (unsigned)symx_choose(0, 9, "len");
        unsigned char b[9]; symx_bytes(b, 9, "adts"); memcpy(fr->getDataBuf(), b, 9);
        fr->setLength(len);
        Frame* f = s->manageFrame(fr);
        bool valid = len >= 7 && b[0] == 0xFF && b[1] == 0xF1;
        symx_assert((f != NULL) == valid, "frames without a valid ADTS header are refused");
        if (valid) {
            unsigned aot = ((b[2] >> 6) & 3) + 1, sf = (b[2] >> 2) & 15, cc = (b[2] & 1) << 2 | (b[3] >> 6 & 3);
            c0 = (unsigned char)(aot << 3 | sf >> 1); c1 = (unsigned char)(sf << 7 | cc << 3); have = true;
            symx_assert(s->appendFrameToDashSegment(f) == (len > 7), "only frames with a payload are appended");
            symx_reach("adts");
        } else symx_reach("badadts");
    }
    symx_assert(s->generateInitSegment(seg) == have, "init segment once a header is known");
    if (!have) return;
    Box e = sampleEntry(seg->getDataBuffer(), seg->getDataLength(), false, rate, 0, 0, "mp4a");
    symx_assert(u16b(e.p + 6) == 1 && u16b(e.p + 16) == ch && u16b(e.p + 18) == 16, "mp4a channels and sample size");
    Walk we(e, 28); Box x = we.next("esds"); we.done();
    Bytes p = x.p + 4;
    symx_assert(x.n == 4 + 2 + 25 && p[0] == 3 && p[1] == 25 && p[5] == 4 && p[6] == 17 && p[7] == 0x40 && p[20] == 5 && p[21] == 2 && p[24] == 6, "esds descriptors");
    symx_assert(p[22] == c0 && p[23] == c1, "AAC configuration is that of the ADTS header");
    symx_reach("ainit");
}
extern "C" void harness(void)
{
    switch (symx_case()) {
        case 0: hevc = false; assembly(); break;
        case 1: hevc = true; assembly(); break;
        case 2: hevc = false; anyNal(); break;
        case 3: hevc = true; anyNal(); break;
        case 4: hugeUnit(); break;
        case 5: hevc = false; videoInit(); break;
        case 6: hevc = true; videoInit(); break;
        case 7: adts(); break;
        case 8: hevc = false; videoSegments(false); break;
        case 9: hevc = true; videoSegments(false); break;
        case 10: hevc = false; videoSegments(true); break;
        case 11: audioSegments(); break;
        case 12: hevc = false; capacity(0); break;
        case 13: capacity(1); break;
        case 14: capacity(2); break;
        default: hevc = symx_case() >= 23; assembly((symx_case() - 20) % 3);
    }
    symx_reach("ok");
}
