// The DASH filter end to end: what is on disk and what the MPD says, at every moment.
#define private public
#define protected public
#include "modules/dasher/Dasher.hh"
#undef private
#undef protected
#include "modules/dasher/MpdManager.hh"
#include "modules/dasher/DashVideoSegmenterAVC.hh"
#include "modules/dasher/DashVideoSegmenterHEVC.hh"
#include "modules/dasher/DashAudioSegmenter.hh"
#include "AVFramedQueue.hh"
#include "StreamInfo.hh"
#include "Utils.hh"
#include "mp4.hh"
#include "fakefs.hh"
#include <map>
#include <string>
#include <vector>
#include <stdio.h>
#include <unistd.h>
#include <string.h>
using tinyxml2::XMLElement;
using tinyxml2::XMLNode;
typedef std::chrono::microseconds us;
// ---- the disk
struct File { std::string data; bool done; };
static std::map<std::string, File> fs;
static std::map<std::string, int> listed;                       // media and init files the MPD refers to
struct Entry { uint64_t t, d; };
struct Mpd { std::vector<Entry> v, a; std::vector<std::string> vr, ar; };
static Mpd mpd; static bool faults, faulted, strict; static int created, written, failAt, failHow; static std::string folder = "/d/", mpdPath, notWritable;
static std::string expand(std::string s, const std::string& id, uint64_t t)
{
    size_t p = s.find("$RepresentationID$"); symx_assert(p != std::string::npos, "template names the representation"); s.replace(p, 18, id);
    p = s.find("$Time$"); if (p != std::string::npos) s.replace(p, 6, std::to_string(t));
    return s;
}
bool symx_fs_create(const std::string& p)
{
    symx_assert(!p.compare(0, folder.size(), folder), "files are written in the configured folder");
    symx_assert(!listed.count(p) || p.find("_init") != std::string::npos, "a listed segment is never rewritten");
    if (++created == failAt && failHow == 1) { faulted = true; symx_reach("create failed"); return false; }
    File f; f.done = false; fs[p] = f;
    return true;
}
bool symx_fs_full() { if (++written == failAt && failHow == 2) { faulted = true; symx_reach("disk full"); return true; } return false; }
bool symx_fs_read(const std::string&, std::string&) { return false; }
static bool lastFull;
void symx_fs_commit(const std::string& p, const std::string& d)
{
    bool bad = failHow == 2 && written == failAt && d.empty();
    File f; f.data = d; f.done = !bad && !d.empty(); fs[p] = f;
}
static std::string joinedId; static uint64_t joinedAt; static bool joinMissing;
extern "C" int remove(const char* p)
{
    symx_assert(!listed.count(p), "a file is removed only after the MPD no longer lists it");
    if (!fs.count(p)) { symx_assert(!joinedId.empty(), "removed file exists"); return -1; }
    fs.erase(p); symx_reach("cleaned"); return 0;
}
extern "C" int access(const char* p, int m) { symx_assert(m == W_OK, "write access"); return notWritable == p ? -1 : 0; }
extern "C" size_t strftime(char* s, size_t n, const char*, const struct tm*) { symx_assert(n > 20, "room for the date"); memcpy(s, "2026-01-01T00:00:00", 20); return 19; }
static struct tm gTm;
extern "C" struct tm* gmtime(const time_t*) { return &gTm; }
static XMLElement* el(XMLNode* n, const char* name, size_t k = 0)
{
    for (size_t i = 0; i < n->kids.size(); i++) if (n->kids[i]->name == name && !k--) return n->kids[i]->ToElement();
    return 0;
}
static std::string att(XMLElement* e, const char* n) { for (size_t i = 0; i < e->attrs.size(); i++) if (e->attrs[i].name == n) return e->attrs[i].text; return "?"; }
// Text of numbers (see rt/pre.h): symbolic values have the text "#k", the same for equal values.
static struct { uint64_t v; bool plain; } toks[512]; static unsigned ntok;
extern "C" uint64_t symx_tok_put(uint64_t v)
{
    bool plain = !symx_is_symbolic(v); unsigned k = 0;
    while (k < ntok && toks[k].v != v) k++;
    if (k == ntok) { symx_assert(ntok < 512, "tokens"); toks[k].v = v; toks[k].plain = plain; ntok++; }
    if (toks[k].plain) { if (!plain) symx_concretize(v); return ~0ull; }
    return k;
}
static uint64_t num(const std::string& s) {
    uint64_t v = 0; bool tok = s[0] == '#'; for (size_t i = tok; i < s.size(); i++) v = v * 10 + (uint64_t)(s[i] - '0');
    return tok ? toks[v].v : v;
}
static uint64_t tfdt(const std::string& d)
{
    Walk top((Bytes)d.data(), d.size()); top.next("styp"); top.next("sidx"); Box moof = top.next("moof"); top.next("mdat"); top.done();
    Walk wm(moof); wm.next("mfhd"); Box traf = wm.next("traf"); Walk wt(traf); wt.next("tfhd"); Box t = wt.next("tfdt");
    return u64b(t.p + 4);
}
bool symx_xml_saved(const std::string& path, tinyxml2::XMLDocument& doc)
{
    symx_assert(path == mpdPath, "MPD path");
    listed.clear(); mpd = Mpd();
    XMLElement* p = el(el(&doc, "MPD"), "Period");
    for (size_t i = 0; XMLElement* a = el(p, "AdaptationSet", i); i++) {
        XMLElement* st = el(a, "SegmentTemplate"); XMLElement* tl = el(st, "SegmentTimeline");
        bool v = att(a, "mimeType") == "video/mp4";
        std::vector<Entry>& w = v ? mpd.v : mpd.a;
        for (size_t j = 0; XMLElement* s = el(tl, "S", j); j++) { Entry e = {num(att(s, "t")), num(att(s, "d"))}; w.push_back(e); }
        for (size_t k = 0; XMLElement* r = el(a, "Representation", k); k++) {
            std::string id = att(r, "id"); (v ? mpd.vr : mpd.ar).push_back(id);
            std::string in = folder + expand(att(st, "initialization"), id, 0);
            if (!w.empty()) { symx_assert(fs.count(in) && fs[in].done, "the init segment of a listed representation is there"); listed[in] = 1; }
            for (size_t j = 0; j < w.size(); j++) {
                std::string m = folder + expand(att(st, "media"), id, w[j].t);
                if (id == joinedId && w[j].t < joinedAt && !fs.count(m)) { joinMissing = true; continue; }
                symx_assert(fs.count(m) && fs[m].done, "every segment the MPD lists is on disk, complete");
                symx_assert(tfdt(fs[m].data) == w[j].t, "the file holds the segment it is named after");
                listed[m] = 1; symx_reach("listed");
            }
        }
    }
    return true;
}
// everything on disk is listed (nothing is left behind)
static void tidy()
{
    if (faulted) return;
    for (std::map<std::string, File>::iterator i = fs.begin(); i != fs.end(); ++i)
        symx_assert(listed.count(i->first) || i->first.find("_init.m4") != std::string::npos, "segments outside the window are removed from disk");
}
// ---- driving
static Dasher* D; static bool hevc; static int id0 = 3;
static std::map<int, unsigned> idx;
static void process(int id, Frame* f)
{
    std::map<int, Frame*> org; org[id] = f; std::vector<int> n(1, id); int ret = -1;
    symx_assert(D->doProcessFrame(org, n, ret), "configured filter processes frames"); symx_assert(ret == 0, "no wait");
}
static InterleavedVideoFrame* vf; static AudioFrame* af;
static void nal(int id, unsigned char type, int64_t t)
{
    unsigned char* b = vf->getDataBuf();
    b[0] = b[1] = b[2] = 0; b[3] = 1; b[4] = hevc ? (unsigned char)(type << 1) : type; b[5] = 1; symx_bytes(b + 6, 2, "nal");
    vf->setLength(8); vf->setSize(64, 48); vf->setPresentationTime(us(t)); vf->setDecodeTime(us(-1));
    process(id, vf);
}
static void pict(int id, bool key, int64_t t) { nal(id, hevc ? (key ? 19 : 1) : key ? 5 : 1, t); }
static void paramSets(int id, int64_t t) { if (hevc) nal(id, 32, t); nal(id, hevc ? 33 : 7, t); nal(id, hevc ? 34 : 8, t); }
static void audio(int id, int64_t t, unsigned samples)
{
    unsigned char* b = af->getDataBuf();
    b[0] = 0xFF; b[1] = 0xF1; b[2] = 0x6C; b[3] = 0x40; b[4] = b[5] = b[6] = 0; symx_bytes(b + 7, 2, "aac");
    af->setLength(9); af->setSamples(samples); af->setPresentationTime(us(t));
    process(id, af);
}
static std::vector<FrameQueue*> queues;
static std::vector<StreamInfo*> infos; static uint64_t live0;
static void addVideo(int id)
{
    StreamInfo* si = new StreamInfo(VIDEO); si->video.codec = hevc ? H265 : H264; si->setCodecDefaults();
    ConnectionData cd; VideoFrameQueue* q = VideoFrameQueue::createNew(cd, si, 3); symx_assert(q, "queue"); queues.push_back(q); infos.push_back(si);
    symx_assert(D->specificReaderConfig(id, q), "video reader accepted");
}
static void addAudio(int id)
{
    StreamInfo* si = new StreamInfo(AUDIO); si->audio.codec = AAC; si->audio.channels = 1; si->audio.sampleRate = 8000; si->audio.sampleFormat = S16; si->setCodecDefaults();
    ConnectionData cd; AudioFrameQueue* q = AudioFrameQueue::createNew(cd, si, 3); symx_assert(q, "queue"); queues.push_back(q); infos.push_back(si);
    symx_assert(D->specificReaderConfig(id, q), "audio reader accepted");
}
static void start(unsigned dur, unsigned maxSeg)
{
    vf = InterleavedVideoFrame::createNew(hevc ? H265 : H264, 64); af = InterleavedAudioFrame::createNew(1, 8000, 8000, AAC, S16);
    symx_assert(vf && af, "frames");
    queues.reserve(4); infos.reserve(4); folder.reserve(64); mpdPath.reserve(64); notWritable.reserve(64); live0 = symx_live_heap();
    D = new Dasher();
    mpdPath = "/d/b.mpd";
    symx_assert(D->configure(symx_case() & 1 ? "/d/" : "/d", "b", dur, maxSeg, 0), "configured");
}
static void finish()
{
    delete D;
    for (size_t i = 0; i < queues.size(); i++) { delete queues[i]; delete infos[i]; }
    fs.clear(); listed.clear(); mpd = Mpd(); joinedId = std::string();
    symx_assert(symx_live_heap() == live0, "the filter frees everything it allocated");
}
// reference window
struct Ref { std::vector<Entry> w; uint64_t n; Ref() : n(0) {}
    void close(uint64_t t, uint64_t d, unsigned maxSeg) { while (w.size() >= maxSeg) w.erase(w.begin()); Entry e = {t, d}; w.push_back(e); n++; symx_reach("published"); }
    void same(const std::vector<Entry>& m) {
        symx_assert(m.size() == w.size(), "the MPD lists exactly the last published segments");
        for (size_t i = 0; i < w.size(); i++) symx_assert(m[i].t == w[i].t && m[i].d == w[i].d, "with their times and durations");
        for (size_t i = 0; i + 1 < w.size(); i++) symx_assert(w[i].t + w[i].d == w[i + 1].t, "without gaps");
    } };
// time to the next picture: from lo * 78.125 ms up to 1.9 s (1 s is exactly 12.8)
static int64_t gap(int lo) { return symx_range(lo, 24, "gap") * 78125 + symx_range(0, 3, "jitter"); }
static int64_t step() { return 1000000 + symx_range(0, 1, "step") * 78125; }
static uint64_t vtb(int64_t t, int64_t off) { return (uint64_t)((t - off) * 12800 / 1000000); }
#ifndef PICS
#define PICS 7
#endif
static const int64_t STARTS[] = {0, 1000000000ll};
// video only (one or several representations)
static void video(int reps, bool fault)
{
    unsigned maxSeg = fault ? 2 : (unsigned)symx_choose(2, 3, "maxseg"), win = maxSeg < 2 ? 2 : maxSeg;
    start(1, maxSeg);
    for (int r = 0; r < reps; r++) addVideo(id0 + r);
    if (fault) { faults = true; failHow = (int)symx_choose(1, 2, "fault"); failAt = (int)symx_choose(1, 5, "at"); }
    int64_t t = STARTS[fault ? 1 : symx_choose(0, 1, "start")], off = t, open = t, prev = t, lastS = -1; bool prevKey = true;
    Ref ref; bool rev = reps > 1 && symx_choose(0, 1, "order");                 // which stream comes first
    for (int r = 0; r < reps; r++) { int id = id0 + (rev ? reps - 1 - r : r); paramSets(id, t); pict(id, true, t); }
    for (int k = 1; k < PICS - (reps > 1); k++) {
        bool key = fault || symx_choose(0, 1, "key");
        t += gap(fault ? 13 : 3);
        // the previous picture is completed by this one
        if (prevKey && lastS >= 0 && 2 * vtb(prev, off) - vtb(lastS, off) - vtb(open, off) >= 12800) { ref.close(vtb(open, off), vtb(prev, off) - vtb(open, off), win); open = prev; }
        lastS = prev;
        for (int r = 0; r < reps; r++) pict(id0 + (rev ? reps - 1 - r : r), key, t);
        if (!faulted) { ref.same(mpd.v); tidy(); }
        prev = t; prevKey = key;
    }
    if (ref.n > win) symx_reach("slid");
    if (faulted) symx_assert(mpd.v.size() >= 1, "publication goes on after a fault");
    ref.w = std::vector<Entry>(); finish();
}
static int64_t atb(int64_t t, int64_t off) { return (t - off) * 8000 / 1000000; }
// audio only: segments are closed as soon as they hold their duration
static void audioOnly(void)
{
    unsigned win = (unsigned)symx_choose(2, 3, "maxseg"); start(1, win); addAudio(id0);
    int64_t off = STARTS[symx_choose(0, 1, "start")], t = off; uint64_t held = 0, first = 0; Ref ref; bool any = false;
    for (int k = 0; k < PICS; k++) {
        unsigned n = (unsigned)symx_choose(1, 2, "samples") * 4000;
        if (any && held >= 8000) { ref.close(first, held, win); any = false; held = 0; }
        // first: a segment that is full is published when the next frame arrives
        audio(id0, k ? t + symx_range(0, 100, "jitter") : t, n);
        if (!any) { first = (uint64_t)atb(t, off); any = true; }
        held += n; t += (int64_t)n * 125;
        ref.same(mpd.a); tidy();
    }
    if (ref.n > win) symx_reach("slid");
    ref.w = std::vector<Entry>(); finish();
}
// video with audio: the audio is cut together with the video
static void both(void)
{
    unsigned win = 2; start(1, win); bool audioFirst = symx_choose(0, 1, "order");
    if (audioFirst) { addAudio(id0 + 1); addVideo(id0); } else { addVideo(id0); addAudio(id0 + 1); }
    int64_t off = STARTS[audioFirst], t = off, at = off; uint64_t nv = 0;
    paramSets(id0, t); pict(id0, true, t);
    for (int k = 1; k < PICS - 1; k++) {
        unsigned n = 2 * (unsigned)symx_choose(0, 1, "naudio");
        while (n--) { audio(id0 + 1, at, 2400); at += 300000; }
        bool key = symx_choose(0, 1, "key"); t += gap(3);
        size_t was = mpd.v.size(); uint64_t lastT = was ? mpd.v[was - 1].t : 0;
        pict(id0, key, t);
        if (mpd.v.size() != was || (was && mpd.v[was - 1].t != lastT)) nv++;
        tidy();
        for (size_t i = 0; i + 1 < mpd.a.size(); i++) symx_assert(mpd.a[i].t + mpd.a[i].d == mpd.a[i + 1].t, "audio segments follow each other");
        symx_assert(mpd.v.size() <= win && mpd.a.size() <= win, "window");
        if (mpd.a.size()) symx_reach("audio too");
    }
    (void)nv;
    finish();
}
// a stream leaves and another one joins, under the same or another identifier
static void rejoin(void)
{
    start(1, 2); addVideo(id0);
    int64_t t = 1000000000; bool two = symx_choose(0, 1, "two"); if (two) addVideo(id0 + 1);
    int stop = (int)symx_choose(1, 4, "leave");
    paramSets(id0, t); if (two) paramSets(id0 + 1, t);
    pict(id0, true, t); if (two) pict(id0 + 1, true, t);
    for (int k = 1; k <= stop; k++) { t += step(); pict(id0, true, t); if (two) pict(id0 + 1, true, t); }
    symx_assert(D->specificReaderDelete(id0), "removed"); symx_assert(!D->specificReaderDelete(id0), "removed once");
    for (size_t i = 0; i < mpd.vr.size(); i++) symx_assert(mpd.vr[i] != std::to_string(id0), "a removed stream is not listed");
    int id = two ? id0 + 1 : symx_choose(0, 1, "same") ? id0 : id0 + 5;
    if (!two) { addVideo(id); t += step(); paramSets(id, t); pict(id, true, t); }
    for (int k = 0; k < 4; k++) { t += step(); pict(id, true, t); if (k == 3) { symx_assert(mpd.v.size() == 2 && mpd.vr.size() == 1, "publication goes on"); symx_reach("rejoined"); } }
    finish();
}
// another representation joins a running one
static void joinRunning(void)
{
    start(1, 2); addVideo(id0);
    int64_t t = 1000000000; int at = (int)symx_choose(1, 4, "join");
    paramSets(id0, t); pict(id0, true, t);
    for (int k = 1; k < 7; k++) {
        t += gap(13);
        if (k == at) { addVideo(id0 + 1); joinedId = std::to_string(id0 + 1); joinedAt = vtb(t, 1000000000); paramSets(id0 + 1, t); symx_reach("joined"); }
        pict(id0, true, t); if (k >= at) pict(id0 + 1, true, t);
        if (k == 6) symx_assert(mpd.v.size() == 2 && mpd.vr.size() == 2, "publication goes on");
    }
    symx_assert(!joinMissing, "segments from before a representation joined are not listed for it");
    delete D;
}
// the window is reconfigured on the way
static void reconf(void)
{
    unsigned a = (unsigned)symx_choose(2, 4, "from"), b = (unsigned)symx_choose(0, 4, "to"), win = a; start(1, a); addVideo(id0);
    int64_t t = 1000000000; int at = (int)symx_choose(1, 6, "when"); Ref ref; (void)ref;
    paramSets(id0, t); pict(id0, true, t);
    for (int k = 1; k < 9; k++) {
        if (k == at) {
            notWritable = "/n"; symx_assert(!D->configure("/n", "b", 1, b, 0) && !D->configure("/d", "", 1, b, 0) && !D->configure("/d", "b", 0, b, 0), "bad parameters are refused");
            symx_assert(D->configure("/d", "b", 1, b, 0), "configured"); win = b < 2 ? 2 : b; symx_reach("reconfigured");
        }
        t += step(); pict(id0, true, t);
        symx_assert(mpd.v.size() <= (k <= at ? (a > win ? a : win) : win), "window"); tidy();
        if (k >= 7) symx_assert(mpd.v.size() == win, "full window");
    }
    finish();
}
// what readers are accepted
static void readers(void)
{
    D = new Dasher(); StreamInfo* si = new StreamInfo(VIDEO); VCodecType c = (VCodecType)symx_choose(-1, 8, "codec"); si->video.codec = c;
    if (c == RAW) si->video.pixelFormat = YUV420P;
    hevc = c == H265; ConnectionData cd; VideoFrameQueue* q = c == VC_NONE ? NULL : VideoFrameQueue::createNew(cd, si, 3);
    StreamInfo* sa = new StreamInfo(AUDIO); sa->audio.codec = (ACodecType)symx_choose(0, 8, "acodec"); sa->audio.channels = 1; sa->audio.sampleRate = 8000; sa->audio.sampleFormat = S16; AudioFrameQueue* qa = AudioFrameQueue::createNew(cd, sa, 3);
    if (!q || !qa) symx_silent_exit();
    symx_assert(!D->specificReaderConfig(1, q) && !D->specificReaderConfig(2, qa), "not before it is configured");
    std::map<int, Frame*> org; std::vector<int> n; int ret; symx_assert(!D->doProcessFrame(org, n, ret), "not before it is configured");
    symx_assert(D->configure("/d", "b", 2, 3, 4), "configured"); mpdPath = "/d/b.mpd";
    symx_assert(D->specificReaderConfig(1, q) == (c == H264 || c == H265), "only H.264 and H.265 video");
    symx_assert(D->specificReaderConfig(2, qa) == (sa->audio.codec == AAC), "only AAC audio");
    if (c == H264) { symx_assert(!D->specificReaderConfig(1, q), "one stream per reader"); symx_reach("accepted"); } else symx_reach("refused");
    bool ok = D->setDashSegmenterBitrate(1, 77); symx_assert(ok == (c == H264 || c == H265), "bit rate of a known stream"); symx_assert(!D->setDashSegmenterBitrate(9, 77), "unknown stream");
    delete D;
}
static void run()
{
    switch (symx_case()) {
        case 0: hevc = false; video(1, false); break;
        case 1: hevc = true; video(1, false); break;
        case 2: hevc = false; video(2, false); break;
        case 3: hevc = false; video(1, true); break;
        case 4: audioOnly(); break;
        case 5: both(); break;
        case 6: rejoin(); break;
        case 7: reconf(); break;
        case 8: readers(); break;
        case 9: joinRunning(); break;
    }
}
extern "C" void harness(void)
{
    run();
}
