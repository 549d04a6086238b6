// Video encoders: settings, forced key frames, and the times of the coded pictures.
#define private public
#define protected public
#ifdef X265
#include "modules/videoEncoder/VideoEncoderX265.hh"
typedef VideoEncoderX265 Encoder;
#else
#include "modules/videoEncoder/VideoEncoderX264.hh"
typedef VideoEncoderX264 Encoder;
#endif
#undef private
#undef protected
#include "common.hh"
#include "Utils.hh"
#include <string.h>
#include <stdlib.h>
typedef std::chrono::microseconds us;
typedef std::chrono::system_clock::time_point TP;
// ---- model of the coding library: pictures come out in an order of its own, after a delay, with decode stamps that lag behind
#define QMAX 12
static struct { char name[20], value[24]; } par[24]; static int npar;
static int encs, avframes, extra, delay, failing, nals_next = 1, lastidr, lastcsp, encoded;
static int64_t lastout; static unsigned char* lastplane[3]; static int lastw, lasth;
struct Model { int w, h, csp; int64_t q[QMAX]; int n, out; int64_t first; int d; } *cur;
static int set(const char* n, const char* v) { symx_assert(npar < 24 && strlen(n) < 20 && strlen(v) < 24, "parameter"); for (int i = 0; i < npar; i++) if (!strcmp(par[i].name, n)) { strcpy(par[i].value, v); return 0; } strcpy(par[npar].name, n); strcpy(par[npar++].value, v); return 0; }
static const char* got(const char* n) { for (int i = 0; i < npar; i++) if (!strcmp(par[i].name, n)) return par[i].value; return NULL; }
static unsigned char payload[4] = {1, 2, 3, 4};
static Model* opened(int w, int h, int csp) { if (failing) return NULL; Model* m = (Model*)calloc(1, sizeof(Model)); m->w = w; m->h = h; m->csp = csp; m->d = delay; encs++; cur = m; return m; }
static void closed(Model* m) { symx_assert(m && encs == 1, "an open encoder is closed"); encs--; cur = NULL; free(m); }
static int coded(Model* m, int64_t pts, int64_t* opts, int64_t* odts)
{
    encoded++;
    if (m->n == 0 && m->out == 0) m->first = pts;
    symx_assert(m->n < QMAX, "model queue"); m->q[m->n++] = pts;
    if (m->n <= m->d) return 0;
    int64_t dts = m->first + m->out - m->d; int k = -1;
    for (int i = 0; i < m->n; i++) if (m->q[i] == dts) k = i;
    if (k < 0) k = (int)symx_choose(0, m->n - 1, "order");
    *opts = lastout = m->q[k]; *odts = dts; for (int i = k; i + 1 < m->n; i++) m->q[i] = m->q[i + 1]; m->n--; m->out++; return 100;
}
#ifdef X265
static x265_nal nal[24];
extern "C" x265_param* x265_param_alloc(void) { extra++; return (x265_param*)calloc(1, sizeof(x265_param)); }
extern "C" void x265_param_free(x265_param* p) { if (p) extra--; free(p); }
extern "C" x265_picture* x265_picture_alloc(void) { extra++; return (x265_picture*)calloc(1, sizeof(x265_picture)); }
extern "C" void x265_picture_free(x265_picture* p) { if (p) extra--; free(p); }
extern "C" void x265_picture_init(x265_param* a, x265_picture* p) { memset(p, 0, sizeof *p); p->colorSpace = a->internalCsp; }
extern "C" int x265_param_default_preset(x265_param* p, const char* s, const char*) { memset(p, 0, sizeof *p); p->internalCsp = X265_CSP_I420; npar = 0; set("preset", s); return 0; }
extern "C" int x265_param_apply_profile(x265_param*, const char* s) { return set("profile", s); }
extern "C" int x265_param_parse(x265_param* p, const char* n, const char* v)
{
    if (!strcmp(n, "input-res")) { p->sourceWidth = atoi(v); const char* x = strchr(v, 'x'); p->sourceHeight = x ? atoi(x + 1) : 0; }
    return set(n, v);
}
#undef x265_encoder_open
#define OPEN2(b) x265_encoder_open_##b
#define OPEN1(b) OPEN2(b)
extern "C" x265_encoder* OPEN1(X265_BUILD)(x265_param* p) { return (x265_encoder*)opened(p->sourceWidth, p->sourceHeight, p->internalCsp); }
extern "C" int x265_encoder_headers(x265_encoder*, x265_nal** n, uint32_t* k) { nal[0].payload = payload; nal[0].sizeBytes = 4; *n = nal; *k = 1; return 4; }
extern "C" void x265_encoder_close(x265_encoder* e) { closed((Model*)e); }
extern "C" int x265_encoder_encode(x265_encoder* e, x265_nal** n, uint32_t* k, x265_picture* in, x265_picture* out)
{
    if (failing) return -1;
    Model* m = (Model*)e; lastidr = in->sliceType == X265_TYPE_IDR; lastcsp = in->colorSpace; for (int i = 0; i < 3; i++) lastplane[i] = (unsigned char*)in->planes[i];
    symx_assert(m && m == cur, "an open encoder"); symx_assert(in->colorSpace == m->csp, "pictures have the format the encoder was opened for"); lastw = m->w; lasth = m->h;
    int64_t p, d; int r = coded(m, in->pts, &p, &d); if (!r) { *k = 0; return 0; }
    out->pts = p; out->dts = d; for (int i = 0; i < nals_next; i++) { nal[i].payload = payload; nal[i].sizeBytes = (uint32_t)(i + 1); } *n = nal; *k = (uint32_t)nals_next; return 1;
}
#else
static x264_nal_t nal[24];
extern "C" void x264_picture_init(x264_picture_t* p) { memset(p, 0, sizeof *p); }
extern "C" int x264_param_default_preset(x264_param_t* p, const char* s, const char*) { memset(p, 0, sizeof *p); p->i_csp = X264_CSP_I420; npar = 0; set("preset", s); return 0; }
extern "C" int x264_param_apply_profile(x264_param_t*, const char* s) { return set("profile", s); }
extern "C" int x264_param_parse(x264_param_t*, const char* n, const char* v) { return set(n, v); }
#undef x264_encoder_open
#define OPEN2(b) x264_encoder_open_##b
#define OPEN1(b) OPEN2(b)
extern "C" x264_t* OPEN1(X264_BUILD)(x264_param_t* p) { return (x264_t*)opened(p->i_width, p->i_height, p->i_csp); }
extern "C" int x264_encoder_reconfig(x264_t* e, x264_param_t* p) { Model* m = (Model*)e; symx_assert(m && m == cur && m->w == p->i_width && m->h == p->i_height, "the size of an open encoder cannot be changed"); return 0; }
extern "C" int x264_encoder_headers(x264_t*, x264_nal_t** n, int* k) { nal[0].p_payload = payload; nal[0].i_payload = 4; *n = nal; *k = 1; return 4; }
extern "C" void x264_encoder_close(x264_t* e) { closed((Model*)e); }
extern "C" int x264_encoder_encode(x264_t* e, x264_nal_t** n, int* k, x264_picture_t* in, x264_picture_t* out)
{
    if (failing) return -1;
    Model* m = (Model*)e; lastidr = in->i_type == X264_TYPE_IDR; lastcsp = in->img.i_csp; for (int i = 0; i < 3; i++) lastplane[i] = in->img.plane[i];
    symx_assert(m && m == cur, "an open encoder"); symx_assert((in->img.i_csp & X264_CSP_MASK) == m->csp, "pictures have the format the encoder was opened for"); lastw = m->w; lasth = m->h;
    int64_t p, d; int r = coded(m, in->i_pts, &p, &d); if (!r) { *k = 0; return 0; }
    out->i_pts = p; out->i_dts = d; for (int i = 0; i < nals_next; i++) { nal[i].p_payload = payload; nal[i].i_payload = i + 1; } *n = nal; *k = nals_next; return 100;
}
#endif
extern "C" AVFrame* av_frame_alloc(void) { avframes++; return (AVFrame*)calloc(1, sizeof(AVFrame)); }
extern "C" void av_frame_free(AVFrame** f) { if (*f) avframes--; free(*f); *f = NULL; }
extern "C" int av_image_fill_arrays(uint8_t* d[4], int l[4], const uint8_t* src, AVPixelFormat f, int w, int h, int)
{
    int c = f == AV_PIX_FMT_YUV420P ? 0 : f == AV_PIX_FMT_YUV422P ? 1 : f == AV_PIX_FMT_YUV444P ? 2 : -1; if (c < 0 || w <= 0 || h <= 0) return -22;
    int cw = c == 2 ? w : (w + 1) / 2, ch = c == 0 ? (h + 1) / 2 : h;
    d[0] = (uint8_t*)src; d[1] = d[0] + w * h; d[2] = d[1] + cw * ch; d[3] = NULL; l[0] = w; l[1] = l[2] = cw; l[3] = 0; return w * h + 2 * cw * ch;
}
#define PICN 16
static int64_t pt[PICN], og[PICN]; static uint32_t sq[PICN]; static int np, base0; static int64_t lastdec; static int64_t interval = 41666;
static bool supported(PixType p)
{
#ifdef X265
    return p == YUV420P || p == YUV444P;
#else
    return p == YUV420P || p == YUV422P || p == YUV444P;
#endif
}
static InterleavedVideoFrame* raw; static SlicedVideoFrame* dst;
// one picture through the encoder; idr: -1 = do not care
static void one(Encoder* e, int w, int h, PixType pf, int64_t t, int idr)
{
    raw->setSize(w, h); raw->setPixelFormat(pf); raw->setPresentationTime(us(t)); int64_t o = symx_range(0, 1ll << 50, "origin"); uint32_t s = symx_u32("seq"); raw->setOriginTime(TP(us(o))); raw->setSequenceNumber(s);
    Model* was = cur; int before = encoded, n0 = cur ? cur->n : 0; dst->setConsumed(false); int nn = nals_next; bool f = failing != 0;
    bool ok = e->doProcessFrame(raw, dst);
    if (!supported(pf) || f) { symx_assert(!ok && !dst->getConsumed() && encoded == before, "nothing is coded"); symx_reach("not coded"); return; }
    symx_assert(encoded == before + 1, "every picture is handed to the coding library"); symx_assert(lastw == w && lasth == h, "coded with its size");
    symx_assert(lastplane[0] == raw->getDataBuf() && lastplane[1] == raw->getDataBuf() + w * h, "coded from its pixels");
    if (cur != was) { base0 = np; lastdec = INT64_MIN; n0 = 0; symx_reach("opened"); }
    pt[np] = t; og[np] = o; sq[np] = s; np++;
    if (idr >= 0) { symx_assert((lastidr != 0) == (idr != 0), "a key frame exactly when asked for"); symx_reach(idr ? "key" : "no key"); }
    bool out = n0 + 1 > cur->d;
    if (!out) { symx_assert(!ok && !dst->getConsumed(), "a delayed picture gives no output"); symx_reach("delayed"); return; }
    if (nn > MAX_SLICES) { symx_assert(!dst->getConsumed(), "a picture with too many slices is dropped"); symx_reach("too many"); return; }
    symx_assert(ok && dst->getConsumed(), "coded"); int i = (int)lastout; symx_assert(i >= 0 && i < np, "a picture given before");
    symx_assert(dst->getPresentationTime().count() == pt[i] && dst->getOriginTime() == std::chrono::high_resolution_clock::time_point(us(og[i])) && dst->getSequenceNumber() == sq[i], "times and number of the picture that was coded");
    symx_assert(dst->getWidth() == w && dst->getHeight() == h, "size");
    int64_t dec = dst->getDecodeTime().count(); int64_t di = (int64_t)base0 + cur->out - 1 - cur->d;
    symx_assert(dec <= pt[i], "decoded before it is shown"); symx_assert(dec >= lastdec, "decode times follow each other"); lastdec = dec;
    if (di >= base0) symx_assert(dec == pt[di], "decode time"); else { symx_assert(dec >= 0, "decode times are not negative"); bool near = dec == 0 && pt[base0] <= (base0 - di) * interval; near = near || di >= 0 && dec == pt[di]; for (int64_t j = di < 0 ? 0 : di; j <= base0; j++) near = near || dec >= pt[j] - (j - di) * interval; symx_assert(near, "the first decode times are near the first picture"); symx_reach("before the first"); }
    symx_assert(dst->getSliceNum() == nn, "exactly its slices"); for (int k = 0; k < nn; k++) symx_assert(dst->getSlices()[k].getData() == payload && dst->getSlices()[k].getDataSize() == (unsigned)k + 1, "slice");
    dst->clear(); symx_reach("coded"); if (i + 1 != np) symx_reach("reordered");
}
static bool number(const char* n, int64_t v) { const char* t = got(n); return t && atoi(t) == v; }
extern "C" void harness(void)
{
    uint64_t base = symx_live_heap(); int cs = symx_case(); bool bframes = true;
    Encoder* e = new Encoder(); raw = InterleavedVideoFrame::createNew(RAW, 80); dst = SlicedVideoFrame::createNew(H264);
    if (cs == 0) { // histories: delays, reordering, many slices, failures, changes of size
        delay = (int)symx_choose(0, 2, "delay"); int64_t t = symx_range(0, 1ll << 50, "start"); bool big = false; int ev = 0; bool key = false;
        for (int k = 0; k < PICS; k++) {
            int op = ev < 3 ? (int)symx_choose(0, 4, "op") : 0; ev += op != 0; nals_next = 1; failing = 0;
            if (op == 1) nals_next = 17; else if (op == 2) failing = 1; else if (op == 3) { big = !big; delay = (int)symx_choose(0, 2, "new delay"); } else if (op == 4) { symx_assert(e->forceIntraEvent(NULL), "event"); key = true; }
            if (op == 0) nals_next = 1 + (k & 1) * 15;
            bool f = failing; one(e, big ? 6 : 4, big ? 4 : 2, YUV420P, t, f ? -1 : key); if (!f) key = false; else if (encs) { key = false; }
            t += symx_range(0, 1000000, "gap");
        }
    } else if (cs == 1) { // key frames at given times
        static const char* R[7] = {"0", "5000000", "12000000", "", "abc", "-1", "99999999999999999999"}; static const int64_t RV[7] = {0, 5000000, 12000000, -1, -1, -1, -1};
        unsigned g = (unsigned)symx_range(0, 2500000, "gop time"); g = symx_choose(0, 2, "gop") == 0 ? (symx_assume(g == 0), 0) : g;
        g = (unsigned)symx_concretize(g > 1200000 ? (symx_assume(g == 2500000), g) : g > 0 ? (symx_assume(g == 700000), g) : g);
        symx_assert(e->configure0(2000, 25, 25, 25, 4, 4, true, "ultrafast", g), "accepted"); int64_t G = g == 0 ? 0 : g < 1000000 ? 1000000 : g, ref = 0, t = symx_range(1000000, 9000000, "start");
        int r = (int)symx_choose(-2, 6, "reference");
        if (r >= -1) { Jzon::Object p; if (r >= 0) p.Add("referenceTime", R[r]); bool ok = e->setGopReferenceTimeEvent(r < 0 ? NULL : &p); symx_assert(ok == (r >= 0 && RV[r] >= 0), "a reference is accepted exactly when it is a time"); if (ok) ref = RV[r]; symx_reach(ok ? "reference" : "no reference"); symx_assume(ok || g == 0); }
        for (int k = 0; k < 3; k++) {
            bool key = false; if (G) { if (ref == 0) ref = t; if (t >= ref) { key = true; while (ref <= t) ref += G; } }
            one(e, 4, 2, YUV420P, t, key); t += symx_range(0, 4000000, "gap");
        }
    } else if (cs == 2) { // settings, directly and as events
        int f = (int)symx_choose(0, 6, "field"); int v[7] = {3000, 30, 50, 10, 2, 3, 2000000}; static const char* N[7] = {"bitrate", "fps", "gop", "lookahead", "bframes", "threads", "gopTime"}; v[f] = (int)symx_u32("value");
        bool annexb = symx_choose(0, 1, "annexb"), empty = symx_choose(0, 3, "preset") == 0; std::string preset = empty ? "" : "veryfast";
        bool valid = v[0] > 0 && v[2] > 0 && v[3] >= 0 && v[5] > 0 && !empty; bool ok, event = symx_choose(0, 1, "event") == 1;
        if (event) { v[f] = (int)symx_concretize((uint64_t)(int64_t)(v[f] <= -1 ? (symx_assume(v[f] == -7), -7) : v[f] == 0 ? 0 : (symx_assume(v[f] == 9), 9))); valid = v[0] > 0 && v[2] > 0 && v[3] >= 0 && v[5] > 0 && !empty;
            Jzon::Object p; for (int i = 0; i < 7; i++) p.Add(N[i], v[i]); p.Add("annexb", annexb); p.Add("preset", preset); ok = e->configEvent(&p); symx_assert(!e->configEvent(NULL), "no parameters"); symx_reach("event"); }
        else { ok = e->configure0((unsigned)v[0], (unsigned)v[1], (unsigned)v[2], (unsigned)v[3], v[4], (unsigned)v[5], annexb, preset, (unsigned)v[6]); }
        symx_assert(ok == valid, "settings are accepted exactly when sensible"); symx_reach(ok ? "accepted" : "refused");
        symx_assert(e->getFrameTime().count() == (!ok || v[1] <= 0 ? (ok ? 0 : 1000000 / VIDEO_DEFAULT_FRAMERATE) : (f == 1 ? e->getFrameTime().count() : 1000000 / v[1])), "frame time");
        if (f == 1 && ok && v[1] > 0) { int64_t ft = e->getFrameTime().count(); symx_assert((int64_t)std::micro::den / e->fps == ft, "frame time"); }
        if (!ok || event) {
            one(e, 4, 2, YUV420P, 1000000, -1); int d[7] = {DEFAULT_BITRATE, VIDEO_DEFAULT_FRAMERATE, DEFAULT_GOP, DEFAULT_LOOKAHEAD, DEFAULT_B_FRAMES, DEFAULT_THREADS, 0}; if (ok) memcpy(d, v, sizeof d); if (d[1] <= 0) d[1] = VIDEO_DEFAULT_FRAMERATE;
            symx_assert(number("bitrate", d[0]) && number("fps", d[1]) && number("keyint", d[2]) && number("rc-lookahead", d[3]), "the settings reach the coding library");
            if (d[4] >= 0) bframes = number("bframes", d[4]);
#ifdef X265
            symx_assert(number("frame-threads", d[5]), "threads");
#else
            symx_assert(number("threads", d[5]), "threads");
#endif
            symx_assert(number("repeat-headers", ok && !annexb ? 0 : 1) && number("aud", 1) && number("open-gop", 0), "stream format"); symx_assert(!strcmp(got("preset"), ok ? "veryfast" : DEFAULT_PRESET), "preset");
            symx_assert(e->outputStreamInfo->extradata_size == 4 && !memcmp(e->outputStreamInfo->extradata, payload, 4), "headers of the stream"); symx_reach("settings");
        }
    } else { // input formats
        static const PixType P[5] = {YUV420P, YUV422P, YUV444P, RGB24, P_NONE};
        for (int k = 0; k < 3; k++) { failing = (int)symx_choose(0, 1, "failing"); one(e, 4, 2, P[symx_choose(0, 4, "format")], 1000000 + k * 40000, -1); }
    }
    delete raw; delete dst; delete e;
    symx_assert(encs == 0 && avframes == 0, "the encoder is closed"); symx_assert(extra == 0, "its pictures and parameters are freed");
    symx_assert(symx_live_heap() <= base, "everything is freed");
#ifdef X265
    symx_assert(bframes, "the number of B-frames reaches x265");
#else
    symx_assert(bframes, "the number of B-frames reaches x264");
#endif
}
