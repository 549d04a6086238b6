// Video mixing: reference painter over small canvases.
#define private public
#define protected public
#include "modules/videoMixer/VideoMixer.hh"
#undef private
#undef protected
#include "common.hh"
#include "Utils.hh"
#include <map>
#include <vector>
#include <string.h>
typedef std::chrono::microseconds us;
#ifndef INPUTS
#define INPUTS 2
#endif
enum { W = 8, H = 4 };
struct Ch { int w, h, x, y, layer; bool on; float op; }; // fractions in sixteenths
static InterleavedVideoFrame* pic(int w, int h) { InterleavedVideoFrame* f = InterleavedVideoFrame::createNew(RAW, w, h, RGB24); symx_assert(f, "picture"); f->setSize(w, h); return f; }
static const Ch AREA[] = {{16, 16, 0, 0, 0, true, 1}, {8, 8, 8, 8, 0, true, 1}, {8, 16, 4, 0, 0, true, 1}, {8, 8, 11, 5, 0, true, 1}, {16, 8, 0, 12, 0, true, 1}, {3, 9, 3, 3, 0, true, 1}};
struct Mixer {
    VideoMixer* m; std::map<int, Ch> ch; std::map<int, Frame*> org; InterleavedVideoFrame* out; int maxc;
    Mixer(int n, int64_t ft) : maxc(n) { m = VideoMixer::createNew(n, W, H, us(ft)); symx_assert(m, "created"); out = pic(W, H); }
    void add(int id) { symx_assert(m->specificReaderConfig(id, NULL) && !m->specificReaderConfig(id, NULL), "an input is added once"); Ch c = {16, 16, 0, 0, 0, false, 1}; ch[id] = c; org[id] = NULL; }
    bool set(int id, const Ch& c) {
        bool ok = m->configChannel0(id, c.w / 16.0f, c.h / 16.0f, c.x / 16.0f, c.y / 16.0f, c.layer, c.on, c.op);
        bool valid = ch.count(id) && c.w > 0 && c.h > 0 && c.x >= 0 && c.y >= 0 && c.layer >= 0 && c.layer <= maxc && c.op >= 0 && c.op <= 1;
        symx_assert(ok == valid, "a channel setting is accepted exactly when it makes sense"); if (valid) ch[id] = c; return ok;
    }
    void mix(int64_t expectTs) {
        unsigned char ref[W * H * 3]; memset(ref, 0, sizeof ref); int64_t ts = 0;
        for (int lay = 0; lay <= maxc; lay++) for (auto it : org) {
            Ch& c = ch[it.first]; if (c.layer != lay || !c.on || !it.second) continue;
            VideoFrame* f = dynamic_cast<VideoFrame*>(it.second); if (f->getPresentationTime().count() > ts) ts = f->getPresentationTime().count();
            int w = c.w * W / 16, h = c.h * H / 16, x0 = c.x * W / 16, y0 = c.y * H / 16; bool same = w == f->getWidth() && h == f->getHeight();
            for (int y = 0; y < h && y0 + y < H; y++) for (int x = 0; x < w && x0 + x < W; x++) for (int k = 0; k < 3; k++) {
                unsigned char v = f->getDataBuf()[same ? (y * w + x) * 3 + k : k], &d = ref[((y0 + y) * W + x0 + x) * 3 + k];
                if (c.op == 1) d = v; else { double q = v * (double)c.op + d * (double)(1 - c.op); d = (unsigned char)(q + 0.5); symx_reach("blended"); }
                symx_reach(same ? "painted" : "scaled");
            }
            if (w == 0 || h == 0 || x0 >= W || y0 >= H) symx_reach("invisible");
        }
        out->setConsumed(false); std::vector<int> nf;
        symx_assert(m->doProcessFrame(org, out, nf) && out->getConsumed(), "a picture comes out");
        symx_assert(out->getWidth() == W && out->getHeight() == H && out->getLength() == W * H * 3, "size of the picture");
        for (int i = 0; i < W * H * 3; i++) symx_assert(out->getDataBuf()[i] == ref[i], "every pixel shows the front most visible channel covering it");
        symx_assert(out->getPresentationTime().count() == (expectTs < 0 ? ts : expectTs) && out->getDecodeTime() == out->getPresentationTime(), "time of the picture");
    }
    ~Mixer() { for (auto it : org) delete it.second; delete out; delete m; }
};
static void fill(InterleavedVideoFrame* f, int id, bool sym) // solid colour unless shown at its own size
{
    int n = f->getWidth() * f->getHeight() * 3; unsigned char c[3] = {(unsigned char)(id * 50), (unsigned char)(id * 31 + 5), (unsigned char)(255 - id * 40)};
    if (sym) symx_bytes(c, 3, "colour");
    for (int i = 0; i < n; i++) f->getDataBuf()[i] = c[i % 3];
}
// where and in which order channels are painted
static void painting(bool blend)
{
    Mixer x(3, 0); static const int IDS[3] = {4, 2, 9};
    for (int i = 0; i < INPUTS; i++) x.add(IDS[i]);
    for (int i = 0; i < INPUTS; i++) {
        int a = (int)symx_choose(0, 5, "area"); Ch c = AREA[a]; c.layer = (int)(blend ? symx_choose(0, 1, "layer") * 2 : symx_choose(0, 3, "layer")); c.on = blend || i == 1 || symx_choose(0, 1, "on"); if (blend) c.op = symx_choose(0, 2, "opacity") * 0.5f;
        symx_assert(x.set(IDS[i], c), "set");
        int have = blend ? 2 : (int)symx_choose(0, 2, "frame"); if (!have) continue;
        bool own = have == 2; int w = own ? c.w * W / 16 : 3, h = own ? c.h * H / 16 : 2; InterleavedVideoFrame* f = pic(w < 1 ? 1 : w, h < 1 ? 1 : h);
        if (own && !blend) symx_bytes(f->getDataBuf(), (size_t)(f->getWidth() * f->getHeight() * 3), "pixels"); else fill(f, i + 1, !blend);
        f->setPresentationTime(us(symx_range(0, 1ll << 50, "pts"))); x.org[IDS[i]] = f;
    }
    x.mix(-1);
}
// any placement: nothing outside the pictures is touched
static void placement(void)
{
    Mixer x(1, 0); x.add(1); int kind = symx_case() - 2; Ch c = {8, 8, 0, 0, 0, true, 1};
    if (kind == 0) { c.x = (int)symx_range(-3, 40, "x"); c.w = (int)symx_choose(-1, 33, "w"); }
    else { c.y = (int)symx_range(-3, 40, "y"); c.h = (int)symx_choose(-1, 33, "h"); }
    c.x = (int)symx_concretize((uint64_t)(int64_t)c.x); c.y = (int)symx_concretize((uint64_t)(int64_t)c.y);
    if (!x.set(1, c)) symx_reach("refused");
    InterleavedVideoFrame* f = pic(2, 2); fill(f, 1, false); f->setPresentationTime(us(5)); x.org[1] = f;
    x.mix(-1);
}
// any setting is judged the same way
static void settings(void)
{
    Mixer x(2, 0); x.add(1); float w = symx_f32("w"), h = symx_f32("h"), px = symx_f32("x"), py = symx_f32("y"), op = symx_f32("op"); int layer = (int)symx_u32("layer");
    symx_assume(w == w && h == h && px == px && py == py && op == op); bool known = symx_choose(0, 1, "known");
    bool ok = x.m->configChannel0(known ? 1 : 3, w, h, px, py, layer, true, op), valid = known && w > 0 && h > 0 && px >= 0 && py >= 0 && op >= 0 && op <= 1 && layer >= 0 && layer <= 2;
    symx_assert(ok == valid, "a channel setting is accepted exactly when it makes sense");
    ChannelConfig* c = x.m->channelsConfig[1];
    if (ok) { symx_reach("accepted"); symx_assert(c->getWidth() == w && c->getHeight() == h && c->getX() == px && c->getY() == py && c->getLayer() == layer && c->getOpacity() == op && c->isEnabled(), "the setting is kept"); }
    else { symx_reach("refused"); symx_assert(c->getWidth() == 1 && c->getHeight() == 1 && c->getX() == 0 && c->getY() == 0 && c->getLayer() == 0 && !c->isEnabled(), "a refused setting changes nothing"); }
}
static void sizes(void)
{
    int w = (int)symx_u32("w"), h = (int)symx_u32("h"); bool valid = w > 0 && w <= 1920 && h > 0 && h <= 1080;
    if (symx_choose(0, 1, "create")) { int64_t t = symx_range(-5, 100000, "t"); VideoMixer* m = VideoMixer::createNew(2, w, h, us(t)); symx_assert((m != NULL) == (valid && t >= 0), "created exactly for valid sizes and times"); if (m) { symx_reach("created"); symx_assert(m->outputWidth == w && m->outputHeight == h && m->getFrameTime().count() == t, "as asked for"); } delete m; return; }
    Mixer x(2, 7); int fps = (int)symx_range(-2, 70, "fps"); bool ok = x.m->configure0(w, h, fps);
    symx_assert(ok == valid, "a layout is accepted exactly when it fits");
    symx_assert(x.m->outputWidth == (ok ? w : W) && x.m->outputHeight == (ok ? h : H) && x.m->getFrameTime().count() == (ok && fps > 0 ? 1000000 / fps : 7), "layout");
    if (ok) { symx_reach("resized"); symx_assert(x.m->layoutImg.cols == w && x.m->layoutImg.rows == h, "canvas"); }
}
// periodic output, changes and removals between pictures
static void periodic(void)
{
    Mixer x(2, 40000); x.add(1); x.add(2); int64_t t = 1000;
    for (int k = 0; k < 3; k++) {
        int op = (int)symx_choose(0, 4, "op"), id = 1 + (k & 1);
        if (op < 2 && x.ch.count(id)) { Ch c = AREA[1 + op]; c.layer = k; symx_assert(x.set(id, c), "set"); if (!x.org[id]) { InterleavedVideoFrame* f = pic(1, 1); fill(f, id, true); f->setPresentationTime(us(symx_range(0, 1ll << 50, "pts"))); x.org[id] = f; } }
        else if (op == 2 && x.ch.count(2)) { symx_assert(x.m->specificReaderDelete(2) && !x.m->specificReaderDelete(2), "an input is removed once"); delete x.org[2]; x.org.erase(2); x.ch.erase(2); symx_reach("removed"); }
        else if (op == 3 && !x.ch.count(2)) x.add(2);
        x.m->setSyncTs(us(t)); x.mix(t); t += 40000;
    }
}
static void events(void)
{
    Mixer x(2, 0); x.add(1); int lack = (int)symx_choose(0, 8, "lack"); static const char* N[8] = {"id", "width", "height", "x", "y", "layer", "enabled", "opacity"};
    Jzon::Object p; Ch c = {8, 4, 3, 2, (int)symx_choose(-1, 3, "layer"), (bool)symx_choose(0, 1, "on"), 0.5f}; c.x = (int)symx_choose(-1, 1, "x") * 3;
    if (lack != 0) p.Add("id", 1); if (lack != 1) p.Add("width", c.w / 16.0f); if (lack != 2) p.Add("height", c.h / 16.0f); if (lack != 3) p.Add("x", c.x / 16.0f); if (lack != 4) p.Add("y", c.y / 16.0f);
    if (lack != 5) p.Add("layer", c.layer); if (lack != 6) p.Add("enabled", c.on); if (lack != 7) p.Add("opacity", c.op);
    bool ok = x.m->configChannelEvent(&p); symx_assert(ok == (lack == 8 && c.x >= 0 && c.layer >= 0 && c.layer <= 2), "an event is obeyed exactly when complete and sensible"); symx_assert(!x.m->configChannelEvent(NULL) && !x.m->configureEvent(NULL), "no parameters");
    if (ok) x.ch[1] = c;
    InterleavedVideoFrame* f = pic(2, 2); fill(f, 1, false); f->setPresentationTime(us(5)); x.org[1] = f; x.mix(-1);
    Jzon::Object st; x.m->doGetState(st); const Jzon::Array& a = st.Get("channels").AsArray(); symx_assert(a.GetCount() == 1 && st.Get("width").ToInt() == W && st.Get("height").ToInt() == H, "state");
    const Jzon::Node& n = a.Get(0); Ch& r = x.ch[1]; symx_assert(n.Get("id").ToInt() == 1 && n.Get("layer").ToInt() == r.layer && n.Get("enabled").ToBool() == r.on && n.Get("width").ToFloat() == r.w / 16.0f && n.Get("x").ToFloat() == r.x / 16.0f && n.Get("opacity").ToFloat() == r.op, "the state reports the channel");
    Jzon::Object q; q.Add("width", 6); q.Add("height", 2); int fps = (int)symx_choose(0, 1, "fps") * 25; if (fps) q.Add("fps", fps);
    symx_assert(x.m->configureEvent(&q) && x.m->outputWidth == 6 && x.m->outputHeight == 2 && x.m->getFrameTime().count() == (fps ? 40000 : 0), "layout event"); symx_reach("event");
}
extern "C" void harness(void)
{
    uint64_t base = symx_live_heap();
    switch (symx_case()) {
    case 0: painting(false); break;
    case 1: painting(true); break;
    case 2: case 3: placement(); break;
    case 4: settings(); break;
    case 5: sizes(); break;
    case 6: periodic(); break;
    default: events();
    }
    if (symx_case() != 7) symx_assert(symx_live_heap() <= base, "everything is freed");
}
