// MPD generation: configuration rules, sliding windows, adaptation sets and representations.
#include "common.hh"
#include "modules/dasher/MpdManager.hh"
#include <time.h>
#include <string.h>
extern "C" uint64_t symx_now_ns;
using tinyxml2::XMLElement;
using tinyxml2::XMLNode;
static std::string savedPath; static int saves;
struct Seg { uint64_t t; unsigned d; };
struct Rep { std::string id, codec; int64_t a, b, bw; };          // width/height or rate/channels
struct Set { std::string id; bool video; int64_t ts; std::string media, init; std::vector<Seg> w; std::vector<Rep> reps; int64_t maxW, maxH, fps; };
static std::vector<Set> sets;
static Set* set(const std::string& id) { for (size_t i = 0; i < sets.size(); i++) if (sets[i].id == id) return &sets[i]; return 0; }
static unsigned maxSeg, minBuf, segDur; static bool configured, written; static std::string avail;
extern "C" size_t strftime(char* s, size_t n, const char* f, const struct tm* t)
{
    symx_assert(n >= 20 && !strcmp(f, "%FT%T"), "start time format");
    std::string v = "T" + std::to_string((long)t->tm_sec);
    memcpy(s, v.c_str(), v.size() + 1); return v.size();
}
static struct tm gTm;
extern "C" struct tm* gmtime(const time_t* t) { memset(&gTm, 0, sizeof gTm); gTm.tm_sec = (int)*t; return &gTm; }
static XMLElement* el(XMLNode* n, size_t i, const char* name)
{
    symx_assert(i < n->kids.size(), "missing element");
    XMLElement* e = n->kids[i]->ToElement();
    symx_assert(e && e->name == name, "wrong element");
    return e;
}
static const tinyxml2::XMLAttr* att(XMLElement* e, const char* n) { for (size_t i = 0; i < e->attrs.size(); i++) if (e->attrs[i].name == n) return &e->attrs[i]; return 0; }
static void txt(XMLElement* e, const char* n, const std::string& v) { const tinyxml2::XMLAttr* a = att(e, n); symx_assert(a && !a->isNum && a->text == v, n); }
static void num(XMLElement* e, const char* n, int64_t v) { const tinyxml2::XMLAttr* a = att(e, n); symx_assert(a && a->isNum && a->num == v, n); }
// Numbers written as decimal text by the code under test; symbolic ones are tokens "#k" (see rt/pre.h).
static uint64_t toks[256]; static unsigned ntok;
extern "C" uint64_t symx_tok_put(uint64_t v) { symx_assert(ntok < 256, "tokens"); toks[ntok] = v; return ntok++; }
static void dec(XMLElement* e, const char* n, uint64_t v, const char* pre = "", const char* post = "")
{
    const tinyxml2::XMLAttr* a = att(e, n); symx_assert(a && !a->isNum, n);
    size_t lp = strlen(pre), lq = strlen(post), len = a->text.size();
    symx_assert(len > lp + lq && !a->text.compare(0, lp, pre) && !a->text.compare(len - lq, lq, post), n);
    const char* c = a->text.c_str() + lp; size_t m = len - lp - lq, i = *c == '#'; uint64_t x = 0;
    symx_assert(m >= 1 + i && m <= 20, n);
    for (size_t k = i; k < m; k++) { symx_assert(c[k] >= '0' && c[k] <= '9', n); x = x * 10 + (uint64_t)(c[k] - '0'); }
    if (i) { symx_assert(x < ntok, n); x = toks[x]; } else symx_assert(m == 1 || *c != '0', n);
    symx_assert(x == v, n);
}
bool symx_xml_saved(const std::string& path, tinyxml2::XMLDocument& doc)
{
    saves++; savedPath = path;
    XMLElement* r = el(&doc, 0, "MPD"); symx_assert(doc.kids.size() == 1, "one root");
    txt(r, "xmlns", "urn:mpeg:dash:schema:mpd:2011"); txt(r, "profiles", "urn:mpeg:dash:profile:isoff-live:2011"); txt(r, "type", "dynamic");
    if (configured) {
        dec(r, "minimumUpdatePeriod", segDur, "PT", ".0S");
        dec(r, "timeShiftBufferDepth", maxSeg * segDur, "PT", ".0S");
    }
    dec(r, "minBufferTime", minBuf, "PT", ".0S");
    const tinyxml2::XMLAttr* av = att(r, "availabilityStartTime"); symx_assert(av && !av->isNum, "availability time");
    if (!written) { avail = av->text; written = true; symx_assert(avail == "T" + std::to_string((long)(symx_now_ns / 1000000000)), "starts when first written"); }
    else symx_assert(av->text == avail, "availability time stays");
    size_t pi = r->kids.size(); symx_assert(pi >= 1, "period"); 
    XMLElement* p = el(r, pi - 1, "Period"); num(p, "id", 0); txt(p, "start", "PT0.0S");
    symx_assert(p->kids.size() == sets.size(), "every adaptation set is listed");
    for (size_t i = 0; i < sets.size(); i++) {
        // listed in the order of their identifiers
        XMLElement* a = el(p, i, "AdaptationSet");
        const tinyxml2::XMLAttr* id = att(a, "id"); Set* s = id ? set(id->text) : 0; symx_assert(s, "adaptation set id");
        for (size_t j = 0; j < i; j++) symx_assert(att(el(p, j, "AdaptationSet"), "id")->text != id->text, "listed once");
        txt(a, "mimeType", s->video ? "video/mp4" : "audio/mp4");
        num(a, "segmentAlignment", 1); num(a, "startWithSAP", 1); num(a, "subsegmentAlignment", 1); num(a, "subsegmentStartsWithSAP", 1);
        size_t k = 0;
        if (s->video) { num(a, "maxWidth", s->maxW); num(a, "maxHeight", s->maxH); num(a, "frameRate", s->fps); }
        else { txt(a, "lang", "eng"); XMLElement* ro = el(a, k++, "Role"); txt(ro, "value", "main"); }
        XMLElement* st = el(a, k++, "SegmentTemplate");
        num(st, "timescale", s->ts); txt(st, "media", s->media); txt(st, "initialization", s->init);
        XMLElement* tl = el(st, 0, "SegmentTimeline");
        symx_assert(tl->kids.size() == s->w.size(), "exactly the last segments are listed");
        for (size_t j = 0; j < s->w.size(); j++) { XMLElement* q = el(tl, j, "S"); dec(q, "t", s->w[j].t); dec(q, "d", s->w[j].d); }
        symx_assert(a->kids.size() == k + s->reps.size(), "every representation is listed");
        for (size_t j = 0; j < s->reps.size(); j++) {
            XMLElement* q = el(a, k + j, "Representation"); const Rep* rp = 0;
            for (size_t m = 0; m < s->reps.size(); m++) if (s->reps[m].id == att(q, "id")->text) rp = &s->reps[m];
            symx_assert(rp, "representation id");
            for (size_t m = 0; m < j; m++) symx_assert(att(el(a, k + m, "Representation"), "id")->text != rp->id, "listed once");
            txt(q, "codecs", rp->codec); num(q, "bandwidth", rp->bw);
            if (s->video) { num(q, "width", rp->a); num(q, "height", rp->b); txt(q, "sar", "1:1"); }
            else { num(q, "audioSamplingRate", rp->a); num(el(q, 0, "AudioChannelConfiguration"), "value", rp->b); }
        }
    }
    return true;
}
static void conf(MpdManager& m)
{
    static const unsigned S[] = {0, 3, 4};
    unsigned a = S[symx_choose(0, 2, "window")], d = (unsigned)symx_range(1, 40000, "dur"), b = symx_u32("buf");
    m.configure(b, a, d);
    segDur = d; maxSeg = a < 2 ? 2 : a; configured = true;
    minBuf = m.getMinBuffTime();
    symx_assert((b < 2 * d && minBuf == 2 * d) || (b > maxSeg * d && minBuf == maxSeg * d) || (b >= 2 * d && b <= maxSeg * d && minBuf == b), "buffer time");
    symx_reach("configured");
}
// any numbers
static void rules(void)
{
    MpdManager m; symx_assert(m.getMaxSeg() == 2 && m.getMinBuffTime() == 2, "defaults");
    unsigned a = (unsigned)symx_range(0, 40000, "maxseg"), d = (unsigned)symx_range(1, 40000, "dur"), b = symx_u32("buf");
    m.configure(b, a, d);
    unsigned ms = a < 2 ? 2 : a;
    symx_assert(m.getMaxSeg() == ms, "at least two segments are kept");
    unsigned mb = m.getMinBuffTime();
    symx_assert(mb >= 2 * d && mb <= ms * d, "buffer time between two segments and the whole window");
    if (b >= 2 * d && b <= ms * d) { symx_reach("kept"); symx_assert(mb == b, "the requested buffer time is kept"); }
    else { symx_reach("clamped"); symx_assert(mb == (b < 2 * d ? 2 * d : ms * d), "nearest allowed buffer time"); }
}
static const char* SETS[] = {"0", "1", "x"};
static const char* REPS[] = {"5", "77"};
// any history of operations: the document written afterwards says exactly what was put in
static void history(void)
{
    MpdManager* m = new MpdManager; uint64_t live = 0; (void)live;
    maxSeg = 2; minBuf = 2; configured = written = false;
    static const char* M[] = {"a_$Time$", "b_$Time$"}; 
    int wrote = 0;
    symx_now_ns = 5000000000ull;
    int cs = symx_case(), pre = cs < 10 ? cs - 1 : 2, steps = cs == 3 ? 2 : 3, last = 2;   // what exists already
    int n0 = pre == 0 ? 0 : pre == 1 ? 2 : 5;
    for (int k = 0; k < n0 + steps; k++) {
        static const int PRE[] = {1, 2, 0, 6, 3};                 // two sets, a configuration, three segments, a representation
        int op = k < n0 ? PRE[k] : cs >= 10 && k == n0 ? cs - 10 : (int)symx_choose(0, 8, "op");
        std::string id = SETS[k < n0 ? (k == 1) : op == 0 || op == 8 ? 0 : symx_choose(0, last, "set")]; Set* s = set(id);
        switch (op) {
            case 0: conf(*m); break;
            case 1: case 2: {
                if (s && s->video != (op == 1)) symx_silent_exit();
                int64_t ts = symx_range(1, 1000000, "timescale"); std::string me = M[k & 1], in = k & 1 ? "i1" : "i0";
                if (op == 1) m->updateVideoAdaptationSet(id, (int)ts, me, in); else m->updateAudioAdaptationSet(id, (int)ts, me, in);
                if (!s) { sets.push_back(Set()); s = &sets.back(); s->id = id; s->video = op == 1; s->maxW = s->maxH = s->fps = 0; symx_reach("added"); }
                s->ts = ts; s->media = me; s->init = in;
                break;
            }
            case 3: {
                std::string rid = REPS[k < n0 || !s ? 0 : symx_choose(0, 1, "rep")];
                int64_t a = symx_range(1, 100000, "a"), b = 1 + k * 7919 % 1000, bw = symx_range(0, 1 << 30, "bw"), fps = symx_range(0, 1000, "fps");
                bool v = s ? s->video : (k & 1);
                if (v) m->updateVideoRepresentation(id, rid, k & 1 ? "c1" : "c0", (int)a, (int)b, (int)bw, (int)fps);
                else m->updateAudioRepresentation(id, rid, k & 1 ? "c1" : "c0", (int)a, (int)bw, (int)b);
                if (!s) break;
                Rep* r = 0; for (size_t i = 0; i < s->reps.size(); i++) if (s->reps[i].id == rid) r = &s->reps[i];
                if (!r) { s->reps.push_back(Rep()); r = &s->reps.back(); r->id = rid; symx_reach("represented"); }
                r->codec = k & 1 ? "c1" : "c0"; r->a = a; r->b = b; r->bw = bw;
                if (v) { if (a > s->maxW) s->maxW = a; if (b > s->maxH) s->maxH = b; s->fps = fps; }
                break;
            }
            case 4: {
                std::string rid = REPS[!s ? 0 : symx_choose(0, 1, "rep")]; bool was = false;
                if (s) for (size_t i = 0; i < s->reps.size(); i++) if (s->reps[i].id == rid) { s->reps.erase(s->reps.begin() + (long)i); was = true; break; }
                symx_assert(m->removeRepresentation(id, rid) == was, "removal tells whether there was one");
                if (was) symx_reach("removed");
                break;
            }
            case 5: case 6: {
                unsigned n = op == 5 ? 1 : 3;
                while (n--) {
                    Seg g = {symx_u64("t"), symx_u32("d")};
                    std::vector<uint64_t> removedAll = m->updateAdaptationSetTimestamp(id, g.t, g.d);
                    if (!s) { symx_assert(removedAll.empty(), "nothing leaves an unknown set"); continue; }
                    size_t lost = 0;
                    while (s->w.size() >= maxSeg) {
                        symx_assert(lost < removedAll.size() && removedAll[lost] == s->w[0].t, "segments leaving the window are reported, oldest first"); lost++;
                        s->w.erase(s->w.begin()); symx_reach("slid");
                    }
                    if (lost > 1) symx_reach("shrunk");
                    symx_assert(lost == removedAll.size(), "only segments leaving the window are reported");
                    s->w.push_back(g);
                }
                break;
            }
            case 7: symx_assert(m->flushAdaptationSetTimestamps(id) == (s != 0), "flush tells whether the set exists"); if (s) s->w.clear(); break;
            case 8: symx_now_ns += 1000000000; m->writeToDisk("/d/x.mpd"); wrote++; symx_assert(saves == wrote && savedPath == "/d/x.mpd", "written once"); break;
        }
    }
    m->writeToDisk("/d/y.mpd"); symx_assert(saves == wrote + 1 && savedPath == "/d/y.mpd", "written"); symx_reach("written");
    delete m;
}
extern "C" void harness(void) { if (symx_case() == 0) rules(); else history(); }
