// Video resampler: every output picture is a conversion of the present input to the configured size and format.
#define private public
#define protected public
#include "modules/videoResampler/VideoResampler.hh"
#undef private
#undef protected
#include "common.hh"
#include "Utils.hh"
#include <string.h>
#include <stdlib.h>
typedef std::chrono::microseconds us;
typedef std::chrono::high_resolution_clock::time_point TP;
// ---- model of libswscale and of the picture helpers of libavutil: sizes and plane layout as documented, conversion = copies of one byte
static int ctxs, avframes, scaled;
struct SwsContext { int sw, sh, dw, dh; AVPixelFormat sf, df; };
static SwsContext last;
static int64_t plane(AVPixelFormat f, int p, int64_t w, int64_t h, int64_t* ls, int64_t* rows)
{
    int64_t cw = (w + 1) / 2, ch = (h + 1) / 2; *ls = 0; *rows = h;
    switch (f) {
        case AV_PIX_FMT_RGB24: *ls = p ? 0 : 3 * w; break;
        case AV_PIX_FMT_BGRA: *ls = p ? 0 : 4 * w; break;
        case AV_PIX_FMT_YUYV422: *ls = p ? 0 : 4 * cw; break;
        case AV_PIX_FMT_YUVJ420P: case AV_PIX_FMT_YUV420P: *ls = p ? cw : w; if (p) *rows = ch; break;
        case AV_PIX_FMT_YUV422P: *ls = p ? cw : w; break;
        case AV_PIX_FMT_YUV444P: *ls = w; break;
        default: return -1;
    }
    return *ls * *rows;
}
static int64_t total(AVPixelFormat f, int w, int h)
{
    if (w <= 0 || h <= 0 || ((int64_t)w + 128) * ((int64_t)h + 128) >= 0x7fffffff / 8) return -22;
    int64_t n = 0, ls, r;
    for (int p = 0; p < 3; p++) { int64_t k = plane(f, p, w, h, &ls, &r); if (k < 0) return -22; n += k; }
    return n;
}
extern "C" AVFrame* av_frame_alloc(void) { avframes++; return (AVFrame*)calloc(1, sizeof(AVFrame)); }
extern "C" void av_free(void* p) { if (p) avframes--; free(p); }
extern "C" void av_frame_free(AVFrame** f) { av_free(*f); *f = NULL; }
extern "C" int av_image_get_buffer_size(AVPixelFormat f, int w, int h, int) { return (int)total(f, w, h); }
extern "C" int av_image_fill_arrays(uint8_t* d[4], int l[4], const uint8_t* src, AVPixelFormat f, int w, int h, int)
{
    int64_t n = total(f, w, h), ls, r; if (n < 0) return (int)n;
    uint8_t* q = (uint8_t*)src;
    for (int p = 0; p < 4; p++) { int64_t k = p < 3 ? plane(f, p, w, h, &ls, &r) : 0; d[p] = k ? q : NULL; l[p] = k ? (int)ls : 0; q += k; }
    return (int)n;
}
extern "C" SwsContext* sws_getContext(int sw, int sh, AVPixelFormat sf, int dw, int dh, AVPixelFormat df, int, SwsFilter*, SwsFilter*, const double*)
{
    if (sw < 1 || sh < 1 || dw < 1 || dh < 1 || total(sf, 1, 1) < 0 || total(df, 1, 1) < 0) return NULL;
    SwsContext* c = (SwsContext*)malloc(sizeof(SwsContext)); c->sw = sw; c->sh = sh; c->dw = dw; c->dh = dh; c->sf = sf; c->df = df; ctxs++; return c;
}
extern "C" void sws_freeContext(SwsContext* c) { if (c) ctxs--; free(c); }
extern "C" SwsContext* sws_getCachedContext(SwsContext* c, int sw, int sh, AVPixelFormat sf, int dw, int dh, AVPixelFormat df, int fl, SwsFilter* a, SwsFilter* b, const double* p)
{
    if (c && c->sw == sw && c->sh == sh && c->sf == sf && c->dw == dw && c->dh == dh && c->df == df) return c;
    sws_freeContext(c); return sws_getContext(sw, sh, sf, dw, dh, df, fl, a, b, p);
}
extern "C" int sws_scale(SwsContext* c, const uint8_t* const s[], const int sl[], int y0, int hh, uint8_t* const d[], const int dl[])
{
    symx_assert(c && y0 == 0 && hh == c->sh, "the whole input picture is scaled");
    last = *c; scaled++;
    int64_t ls, r; unsigned char v = s[0][0];
    for (int p = 0; p < 3; p++) if (plane(c->sf, p, c->sw, c->sh, &ls, &r) > 0) for (int64_t y = 0; y < r; y++) for (int64_t x = 0; x < ls; x++) v ^= s[p][y * sl[p] + x] & 0; // reads every byte
    for (int p = 0; p < 3; p++) if (plane(c->df, p, c->dw, c->dh, &ls, &r) > 0) for (int64_t y = 0; y < r; y++) for (int64_t x = 0; x < ls; x++) d[p][y * dl[p] + x] = v;
    return c->dh;
}
static AVPixelFormat av(PixType t)
{
    switch (t) { case RGB24: return AV_PIX_FMT_RGB24; case RGB32: return AV_PIX_FMT_RGB32; case YUV420P: return AV_PIX_FMT_YUV420P; case YUV422P: return AV_PIX_FMT_YUV422P; case YUV444P: return AV_PIX_FMT_YUV444P; case YUYV422: return AV_PIX_FMT_YUYV422; case YUVJ420P: return AV_PIX_FMT_YUVJ420P; default: return AV_PIX_FMT_NONE; }
}
static const int FP[10] = {-5, 0, 1, 7, 25, 30, 60, 1000000, 1000001, 0x7fffffff};
struct Cfg { int w, h; int64_t ft; int pf; };
static bool sensible(int64_t w, int64_t h, int64_t p) { return w >= 0 && h >= 0 && p >= RGB24 && p <= YUVJ420P; }
static int64_t ftime(int fps) { return fps <= 0 ? 0 : (int64_t)1000000 / fps; }
// one picture through the filter
static void one(VideoResampler* s, const Cfg& c, int w, int h, PixType pf, InterleavedVideoFrame* d, bool sym)
{
    int64_t in = total(av(pf), w, h); if (in < 0) in = w * h;
    InterleavedVideoFrame* o = InterleavedVideoFrame::createNew(RAW, (unsigned)in); o->setSize(w, h); o->setPixelFormat(pf); o->setLength((unsigned)in);
    memset(o->getDataBuf(), 0x31, (size_t)in); unsigned char b = symx_u8("pixel"); o->getDataBuf()[0] = b;
    int64_t pts = sym ? symx_range(0, 1ll << 50, "pts") : 1000, dts = sym ? symx_range(0, 1ll << 50, "dts") : 900, org = sym ? symx_range(0, 1ll << 50, "origin") : 800; uint32_t seq = sym ? symx_u32("seq") : 7;
    o->setPresentationTime(us(pts)); o->setDecodeTime(us(dts)); o->setSequenceNumber(seq); o->setOriginTime(TP(us(org)));
    unsigned max = d->getMaxLength(); memset(d->getDataBuf(), 0xEE, max); d->setConsumed(false); d->setLength(0);
    int ow = c.w ? c.w : w, oh = c.h ? c.h : h; PixType op = (PixType)c.pf;
    bool possible = av(pf) != AV_PIX_FMT_NONE;
    if (possible) { int64_t n = total(av(op), ow, oh); if (n < 0 || n > (int64_t)max) { possible = false; symx_reach("no room"); } }
    int before = scaled; bool ok = s->doProcessFrame(o, d);
    symx_assert(ok == possible, "a picture is converted exactly when it can be and fits the output");
    symx_assert(d->getConsumed() == ok && scaled == before + (ok ? 1 : 0), "the output counts exactly when it was converted");
    if (!ok) { symx_reach("none"); for (unsigned i = 0; i < max; i++) symx_assert(d->getDataBuf()[i] == 0xEE, "an output without picture is left alone"); symx_assert(d->getLength() <= max, "length within the frame"); delete o; return; }
    ow = (int)symx_concretize((uint64_t)ow); oh = (int)symx_concretize((uint64_t)oh);
    unsigned n = (unsigned)total(av(op), ow, oh);
    symx_assert(last.sw == w && last.sh == h && last.sf == av(pf), "converted from the size and format of this input");
    symx_assert(last.dw == ow && last.dh == oh && last.df == av(op), "converted to the requested size and format");
    symx_assert(d->getWidth() == ow && d->getHeight() == oh && d->getPixelFormat() == op && d->getLength() == n, "the output says its size, format and length");
    for (unsigned i = 0; i < n; i++) symx_assert(d->getDataBuf()[i] == b, "the output holds this picture");
    for (unsigned i = n; i < max; i++) symx_assert(d->getDataBuf()[i] == 0xEE, "and nothing after it");
    symx_assert(d->getPresentationTime().count() == pts && d->getDecodeTime().count() == dts && d->getOriginTime() == TP(us(org)) && d->getSequenceNumber() == seq, "times and sequence number of the input");
    symx_assert(o->getDataBuf()[0] == b && o->getWidth() == w && o->getHeight() == h, "the input is not changed");
    symx_reach("converted"); delete o;
}
extern "C" void harness(void)
{
    uint64_t base = symx_live_heap(); int cs = symx_case();
    VideoResampler* s = new VideoResampler(); Cfg c = {0, 0, 0, RGB24};
    InterleavedVideoFrame* d = InterleavedVideoFrame::createNew(RAW, cs == 0 ? 24 : 30);
    if (cs == 0) { // any request, then pictures
        bool small = true; // one side known: the product of two arbitrary numbers is beyond the solver
        for (int k = 0; k < 2; k++) {
            static const int H[6] = {0, 1, 2, 3, 20000, 0x7fffffff}, SP[3] = {P_NONE, RGB32, YUV420P};
            int fix = k ? 0 : (int)symx_choose(0, 6, "h of"), w = (int)symx_u32("w"), h = fix ? H[fix - 1] : (int)symx_u32("h"), fps = FP[k || fix ? 4 : symx_choose(0, 9, "fps")];
            int p = k ? SP[symx_choose(0, 2, "format")] : (int)symx_choose(-1, YUVJ420P, "format");
            if (k) { w = 2; h = 2; fps = 25; }
            bool ok = s->configure0(w, h, fps, (PixType)p), v = sensible(w, h, p);
            symx_assert(ok == v, "a request is accepted exactly when it is sensible");
            if (v) { c = Cfg{w, h, ftime(fps), p}; small = k || fix; symx_reach("accepted"); } else symx_reach("refused");
            symx_assert(s->getFrameTime().count() == c.ft, "frame time");
            if (k == 0 && fix) one(s, c, 2 + (int)symx_choose(0, 1, "iw"), 1, (PixType)symx_choose(0, 1, "if"), d, true);
        }
        if (small) one(s, c, 3, 2, YUYV422, d, false);
    } else if (cs == 1) { // changes of size, format and settings in any order
        for (int k = 0; k < STEPS; k++) {
            if (symx_choose(0, 1, "op") == 0) {
                static const int C[8][3] = {{0, 0, RGB24}, {2, 2, YUV420P}, {2, 0, RGB24}, {5, 5, RGB32}, {2, 2, P_NONE}, {2, 2, RGB24}, {3, 2, RGB24}, {2, 3, RGB24}}; const int* q = C[symx_choose(0, 7, "setting")];
                bool ok = s->configure0(q[0], q[1], 0, (PixType)q[2]), v = q[2] != P_NONE; symx_assert(ok == v, "accepted"); if (v) c = Cfg{q[0], q[1], 0, q[2]};
            } else {
                int z = (int)symx_choose(0, 4, "picture"); static const int P[5][3] = {{4, 2, RGB24}, {2, 4, RGB24}, {4, 2, YUYV422}, {4, 3, RGB24}, {4, 2, P_NONE}};
                one(s, c, P[z][0], P[z][1], (PixType)P[z][2], d, false);
            }
            symx_assert(ctxs <= 1, "one conversion context at a time");
        }
    } else if (cs == 2) { // requests as control events, on top of an earlier setting
        if (symx_choose(0, 1, "set")) { s->configure0(2, 1, 25, YUYV422); c = Cfg{2, 1, 40000, YUYV422}; }
        int lack = (int)symx_choose(0, 15, "fields"), v[4] = {(int)symx_range(-1, 3, "w"), (int)symx_range(-1, 2, "h"), (int)symx_choose(-1, 2, "fps") * 10, (int)symx_range(-3, 9, "format")};
        static const char* N[4] = {"width", "height", "fps", "pixelFormat"}; Cfg n = c; bool valid = true;
        { Jzon::Object p; for (int i = 0; i < 4; i++) if (lack >> i & 1) { v[i] = (int)symx_concretize((uint64_t)(int64_t)v[i]); p.Add(N[i], v[i]); }
        if (lack & 1) n.w = v[0];
        if (lack & 2) n.h = v[1];
        if (lack & 4) n.ft = ftime(v[2]);
        if (lack & 8) n.pf = v[3];
        valid = sensible(n.w, n.h, n.pf); bool ok = s->configEvent(&p);
        symx_assert(ok == valid, "an event is obeyed exactly when sensible"); symx_assert(!s->configEvent(NULL), "no parameters"); }
        if (valid) { c = n; symx_reach("event"); }
        symx_assert(s->getFrameTime().count() == c.ft, "frame time");
        one(s, c, 2, 2, RGB24, d, false);
    } else { // a queue created by the filter holds its pictures
        ConnectionData cd; FrameQueue* q = s->allocQueue(cd); symx_assert(q != NULL, "output queue"); Frame* f = q->getRear(); symx_assert(f != NULL, "output frame");
        c.pf = (int)symx_choose(0, YUVJ420P, "format"); c.w = DEFAULT_WIDTH; c.h = DEFAULT_HEIGHT; int64_t need = total(av((PixType)c.pf), c.w, c.h);
        symx_observe(f->getMaxLength() >= (uint64_t)need); delete q; symx_reach("queue");
    }
    delete d; delete s;
    symx_assert(ctxs == 0 && avframes == 0, "contexts and frames are freed");
    symx_assert(symx_live_heap() <= base, "everything is freed");
}
