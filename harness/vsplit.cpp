// Video splitter: which outputs get a picture, and which pixels.
#define private public
#define protected public
#include "modules/videoSplitter/VideoSplitter.hh"
#undef private
#undef protected
#include "common.hh"
#include "Utils.hh"
#include <map>
#include <string.h>
typedef std::chrono::microseconds us;
typedef std::chrono::high_resolution_clock::time_point TP;
struct Rc { bool set; int x, y, w, h; };
static InterleavedVideoFrame* pic(int w, int h) { InterleavedVideoFrame* f = InterleavedVideoFrame::createNew(RAW, w, h, RGB24); symx_assert(f, "picture"); f->setSize(w, h); return f; }
static bool request(VideoSplitter* s, int id, Rc& r, bool known, const Rc& q, int degree)
{
    bool valid = known && q.x >= 0 && q.y >= 0 && q.w > 0 && q.h > 0 && degree >= -360 && degree <= 360;
    bool ok = s->configCrop0(id, q.w, q.h, q.x, q.y, degree);
    symx_assert(ok == valid, "a crop is accepted exactly when it makes sense");
    if (valid) { r = q; r.set = true; symx_reach("accepted"); } else symx_reach("refused");
    return ok;
}
static void one(VideoSplitter* s, std::map<int, Rc>& rc, int w, int h, std::map<int, Frame*>& dst, bool opaque)
{
    InterleavedVideoFrame* o = pic(w, h);
    for (int i = 0; i < w * h * 3; i++) o->getDataBuf()[i] = (unsigned char)(i * 7 + 1);
    if (opaque) symx_bytes(o->getDataBuf(), (size_t)(w * h * 3), "pixels");
    int64_t pts = symx_range(0, 1ll << 50, "pts"), dts = symx_range(0, 1ll << 50, "dts"); uint32_t seq = symx_u32("seq"); int64_t org = symx_range(0, 1ll << 50, "origin");
    o->setPresentationTime(us(pts)); o->setDecodeTime(us(dts)); o->setSequenceNumber(seq); o->setOriginTime(TP(us(org))); o->setLength((unsigned)(w * h * 3));
    for (auto it : dst) { it.second->setConsumed(false); memset(it.second->getDataBuf(), 0xEE, it.second->getMaxLength()); }
    bool ret = s->doProcessFrame(o, dst), any = false;
    for (auto it : dst) {
        Rc& r = rc[it.first]; VideoFrame* f = dynamic_cast<VideoFrame*>(it.second);
        bool in = r.set && r.w <= w && r.h <= h && r.x <= w - r.w && r.y <= h - r.h;
        if (in && (uint64_t)r.w * (uint64_t)r.h * 3 > f->getMaxLength()) { in = false; symx_reach("too large"); }
        symx_assert(it.second->getConsumed() == in, "an output gets a picture exactly when its rectangle lies inside the frame");
        if (!in) { symx_reach("none"); for (unsigned i = 0; i < f->getMaxLength(); i++) symx_assert(f->getDataBuf()[i] == 0xEE, "an output without picture is left alone"); continue; }
        any = true; symx_reach("cropped");
        int rw = (int)symx_concretize((uint64_t)r.w), rh = (int)symx_concretize((uint64_t)r.h), rx = (int)symx_concretize((uint64_t)r.x), ry = (int)symx_concretize((uint64_t)r.y);
        for (int y = 0; y < rh; y++) symx_assert(!memcmp(f->getDataBuf() + y * rw * 3, o->getDataBuf() + ((ry + y) * w + rx) * 3, (size_t)(rw * 3)), "exactly the pixels of its rectangle");
        for (unsigned i = (unsigned)(rw * rh * 3); i < f->getMaxLength(); i++) symx_assert(f->getDataBuf()[i] == 0xEE, "and nothing after them");
        symx_assert(f->getWidth() == rw && f->getHeight() == rh, "size of the output picture");
        symx_assert(f->getPresentationTime().count() == pts && f->getDecodeTime().count() == dts && f->getOriginTime() == TP(us(org)) && f->getSequenceNumber() == seq, "times and sequence number of the frame it was cut from");
        if (symx_case() == 4) symx_assert(f->getLength() == (unsigned)(rw * rh * 3), "the length of the output covers the whole picture");
        else symx_assert(f->getLength() <= f->getMaxLength() && f->getLength() >= (unsigned)(rw * rh), "length of the output");
    }
    symx_assert(ret == any, "reports whether anything was cut");
    for (int i = 0; !opaque && i < w * h * 3; i++) symx_assert(o->getDataBuf()[i] == (unsigned char)(i * 7 + 1), "the input picture is not changed");
    delete o;
}
extern "C" void harness(void)
{
    uint64_t base = symx_live_heap();
    int cs = symx_case();
    VideoSplitter* s = VideoSplitter::createNew(us(cs == 3 ? 40000 : 0)); symx_assert(s, "created");
    std::map<int, Rc> rc; rc[1] = rc[2] = Rc{false, 0, 0, 0, 0};
    symx_assert(s->specificWriterConfig(1) && s->specificWriterConfig(2) && !s->specificWriterConfig(1), "outputs are added once");
    std::map<int, Frame*> dst;
    if (cs == 0) { // any request, any rectangle, small and large outputs
        int W = (int)symx_choose(1, 3, "w"), H = (int)symx_choose(1, 2, "h");
        dst[1] = pic(symx_choose(0, 1, "small") ? 2 : 4, symx_case() == 0 ? 2 : 1); dst[2] = pic(1, 1);
        for (int k = 0; k < 2; k++) {
            Rc q = {true, (int)symx_u32("x"), (int)symx_u32("y"), (int)symx_u32("w"), (int)symx_u32("h")};
            bool known = k || symx_choose(0, 1, "known"); request(s, known ? 1 : 7, rc[known ? 1 : 7], known, q, k ? 0 : (int)symx_u32("degree"));
        }
        rc.erase(7);
        one(s, rc, W, H, dst, true);
    } else if (cs == 1) { // two outputs, successive frames of different sizes, a crop changed and an output removed in between
        dst[1] = pic(4, 3); dst[2] = pic(4, 3);
        for (int k = 0; k < 3; k++) {
            int op = (int)symx_choose(0, 4, "op"), id = 1 + (int)(k & 1);
            if (op < 3 && dst.count(id)) { Rc q = {true, op == 1, op == 2, 1 + op, 2}; request(s, id, rc[id], true, q, 90 * op); }
            else if (op == 3 && dst.count(2)) { symx_assert(s->specificWriterDelete(2) && !s->specificWriterDelete(2), "an output is removed once"); delete dst[2]; dst.erase(2); rc.erase(2); symx_reach("removed"); }
            else if (op == 4 && !dst.count(2)) { symx_assert(s->specificWriterConfig(2), "an output is added again"); dst[2] = pic(4, 3); rc[2] = Rc{false, 0, 0, 0, 0}; }
            int sz = (int)symx_choose(0, 2, "size"); one(s, rc, sz == 0 ? 4 : 2 + sz, sz == 0 ? 3 : 2, dst, k == 0);
        }
    } else if (cs == 4) { // lengths
        dst[1] = pic(4, 3); Rc q = {true, 1, 0, (int)symx_choose(1, 3, "w"), (int)symx_choose(1, 2, "h")}; request(s, 1, rc[1], true, q, 0); one(s, rc, 4, 3, dst, false);
    } else if (cs == 2) { // requests as control events
        int lack = (int)symx_choose(0, 5, "lack"), have = 31 ^ (lack < 5 ? 1 << lack : 0), v[5] = {1, (int)symx_range(-1, 3, "w"), (int)symx_range(0, 2, "h"), (int)symx_range(-1, 2, "x"), (int)symx_range(-1, 2, "y")};
        static const char* N[5] = {"id", "width", "height", "x", "y"}; int bad = lack == 5 ? (int)symx_choose(-1, 4, "text") : -1;
        Jzon::Object p; for (int i = 0; i < 5; i++) if (have >> i & 1) { v[i] = (int)symx_concretize((uint64_t)(int64_t)v[i]); if (i == bad) p.Add(N[i], "abc"); else p.Add(N[i], v[i]); }
        bool ok = s->configCropEvent(&p), valid = have == 31 && bad < 0 && v[1] > 0 && v[2] > 0 && v[3] >= 0 && v[4] >= 0;
        symx_assert(ok == valid, "an event is obeyed exactly when complete and sensible"); symx_assert(!s->configCropEvent(NULL), "no parameters");
        if (valid) { symx_reach("event"); rc[1] = Rc{true, v[3], v[4], v[1], v[2]}; }
        dst[1] = pic(3, 3); dst[2] = pic(3, 3); one(s, rc, 4, 3, dst, false);
        Jzon::Object st; s->doGetState(st); const Jzon::Array& a = st.Get("crops").AsArray(); symx_assert(a.GetCount() == 2, "every output is reported");
        const Jzon::Node& n = a.Get(0);
        if (valid) symx_assert(n.Get("id").ToInt() == 1 && n.Get("width").ToInt() == v[1] && n.Get("height").ToInt() == v[2] && n.Get("x").ToInt() == v[3] && n.Get("y").ToInt() == v[4], "the state reports the crop");
    } else { // frame time
        int64_t t = symx_range(-1ll << 40, 1ll << 40, "t"); bool ok = s->configure0(us(t));
        symx_assert(ok == (t >= 0), "a frame time is accepted exactly when not negative");
        symx_assert(s->getFrameTime().count() == (ok ? t : 40000), "frame time");
        VideoSplitter* z = VideoSplitter::createNew(us(t)); symx_assert((z != NULL) == (t >= 0), "created exactly with a valid frame time"); delete z;
        symx_reach("time");
    }
    for (auto it : dst) delete it.second;
    dst.clear(); rc.clear(); delete s;
    symx_assert(symx_live_heap() <= base, "everything is freed"); // containers above are empty
}
