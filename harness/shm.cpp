// Pictures shared with another process through a memory segment.
#define private public
#define protected public
#include "modules/sharedMemory/SharedMemory.hh"
#undef private
#undef protected
#include "common.hh"
#include "Utils.hh"
#include <string.h>
// Every copy into the shared segment is a moment at which the reader may look: it must not find the picture announced yet.
extern "C" void* shm_memcpy(void*, const void*, size_t);
#define memcpy(a, b, c) shm_memcpy(a, b, c)
#include "modules/sharedMemory/SharedMemory.cpp"
#undef memcpy
#include <stdlib.h>
#include <vector>
typedef std::chrono::microseconds us;
typedef std::chrono::high_resolution_clock::time_point TP;
// ---- the system's shared memory
static uint8_t* seg; static int segs, attached, noget, noat; static size_t segsize;
extern "C" int shmget(key_t, size_t n, int) noexcept { if (noget) return -1; segs++; segsize = n; return 77; }
extern "C" void* shmat(int id, const void*, int) noexcept { if (id != 77 || noat) return (void*)-1; seg = (uint8_t*)malloc(segsize); attached++; return seg; }
extern "C" int shmdt(const void* p) noexcept { symx_assert(p == seg && attached == 1, "only what was attached is detached"); attached--; free(seg); seg = NULL; return 0; }
extern "C" int shmctl(int id, int, struct shmid_ds*) noexcept { symx_assert(id == 77 && segs == 1, "only its own segment is removed"); segs--; return 0; }
static uint32_t rd(int o, int n) { uint32_t v = 0; memcpy(&v, seg + o, (size_t)n); return v; }
extern "C" void* shm_memcpy(void* d, const void* s, size_t n)
{
    if (seg && (uint8_t*)d >= seg && (uint8_t*)d < seg + segsize) symx_assert(*seg != CHAR_READING, "the segment is written only while the reader stays away");
    return memcpy(d, s, n);
}
struct Meta { int64_t pts; uint32_t seq; int w, h; unsigned codec, pf; };
static bool readable() { return *seg == CHAR_READING; }
static void header(const Meta& m, uint32_t len)
{
    symx_assert(rd(2, 2) == (m.seq & 0xffff) && rd(4, 2) == m.pf && rd(6, 2) == m.codec && rd(8, 2) == (uint32_t)m.h && rd(10, 2) == (uint32_t)m.w, "sequence number, format and size of this picture");
    symx_assert(rd(12, 4) == (uint32_t)(m.pts / 1000000) && rd(16, 4) == (uint32_t)(m.pts % 1000000), "presentation time of this picture");
    symx_assert(rd(20, 4) == len, "length of this picture");
}
static void feed(SharedMemory* s, InterleavedVideoFrame* o, InterleavedVideoFrame* d, const Meta& m)
{
    int64_t dts = 123, org = 456;
    o->setPresentationTime(us(m.pts)); o->setDecodeTime(us(dts)); o->setSequenceNumber(m.seq); o->setOriginTime(TP(us(org))); o->setSize(m.w, m.h);
    d->setConsumed(false); d->setLength(0);
    symx_assert(s->doProcessFrame(o, d), "the frame is handled");
    symx_assert(d->getConsumed() && d->getLength() == o->getLength() && d->getWidth() == m.w && d->getHeight() == m.h && d->getPixelFormat() == o->getPixelFormat(), "the output is the input");
    symx_assert(d->getPresentationTime().count() == m.pts && d->getDecodeTime().count() == dts && d->getOriginTime() == TP(us(org)) && d->getSequenceNumber() == m.seq, "the output keeps its times");
    unsigned n = o->getLength() < 64 ? o->getLength() : 64;
    symx_assert(!memcmp(d->getDataBuf(), o->getDataBuf(), n) && (n == 0 || d->getDataBuf()[o->getLength() - 1] == o->getDataBuf()[o->getLength() - 1]), "the output holds the input's bytes");
}
extern "C" void harness(void)
{
    uint64_t base = symx_live_heap(); int cs = symx_case();
    if (cs == 0) { // creation
        noget = (int)symx_choose(0, 1, "no segment"); noat = (int)symx_choose(0, 1, "not attached"); VCodecType c = (VCodecType)symx_choose(VC_NONE, RAW, "codec");
        bool can = !noget && !noat && (c == RAW || c == H264); SharedMemory* s = SharedMemory::createNew(1985, c);
        symx_assert((s != NULL) == can, "a filter exactly when it can share"); symx_assert(segs == (can ? 1 : 0) && attached == segs, "no segment is left behind");
        if (s) { symx_assert(s->getSharedMemoryID() == 77 && !readable(), "nothing to read yet"); symx_reach("created"); } else symx_reach("refused");
        delete s;
    } else if (cs == 1) { // raw pictures
        SharedMemory* s = SharedMemory::createNew(1985, RAW); symx_assert(s, "created"); static const unsigned L[5] = {0, 6, SHMSIZE - HEADER_SIZE, SHMSIZE - HEADER_SIZE + 1, SHMSIZE + 100};
        static const PixType PF[7] = {RGB24, RGB32, YUV420P, YUV422P, YUV444P, YUYV422, YUVJ420P}; int f = (int)symx_choose(0, 6, "format");
        InterleavedVideoFrame* o = InterleavedVideoFrame::createNew(RAW, SHMSIZE + 100); InterleavedVideoFrame* d = InterleavedVideoFrame::createNew(RAW, SHMSIZE + 100);
        o->setPixelFormat(PF[f]); uint8_t shown[40] = {0}; bool pending = false;
        for (int k = 0; k < 3; k++) {
            unsigned len = L[f < 2 && k != 2 ? symx_choose(0, 4, "length") : 1]; o->setLength(len); symx_bytes(o->getDataBuf(), 6, "pixels"); if (len) o->getDataBuf()[len - 1] ^= 0x40;
            Meta m = {symx_range(0, 1ll << 50, "pts"), symx_u32("seq"), (int)symx_range(0, 65535, "w"), (int)symx_range(0, 65535, "h"), 4, (unsigned)f + 1};
            feed(s, o, d, m);
            if (pending) { symx_assert(!memcmp(seg, shown, sizeof shown), "a picture that is not read yet is left alone"); symx_reach("kept"); }
            else if (len > SHMSIZE - HEADER_SIZE) { symx_assert(!readable(), "a picture that does not fit is not shared"); symx_reach("too large"); }
            else {
                symx_assert(readable(), "the picture is shared"); header(m, len); unsigned n = len < 6 ? len : 6;
                symx_assert(!memcmp(seg + HEADER_SIZE, o->getDataBuf(), n) && (!len || seg[HEADER_SIZE + len - 1] == o->getDataBuf()[len - 1]), "with its bytes"); symx_reach("shared"); pending = true; memcpy(shown, seg, sizeof shown);
            }
            if (pending && symx_choose(0, 1, "read")) { *seg = CHAR_WRITING; pending = false; }
        }
        delete o; delete d; delete s;
    } else if (cs == 2 || cs == 4) { // NAL units: pictures start with an access unit delimiter and have different numbers
        SharedMemory* s = SharedMemory::createNew(1985, H264); symx_assert(s, "created");
        InterleavedVideoFrame* o = InterleavedVideoFrame::createNew(H264, 16); InterleavedVideoFrame* d = InterleavedVideoFrame::createNew(H264, 16);
        std::vector<uint8_t> cur, shown(24 + 40, 0); Meta cm = {0, 0, 0, 0, 1, 0}, m = cm; bool odd = false, aud = false, pending = false; uint32_t seq = 1, cseq = 1; uint32_t start = (uint32_t)symx_choose(0, 1, "first"); seq = start;
        for (int k = 0; k < (cs == 2 ? NALS : NALS + 2); k++) {
            static const unsigned T[6] = {AUD, IDR, NON_IDR, SPS, 12, 0}; int t = (int)symx_choose(0, k == 0 || cs == 4 ? 1 : odd ? 4 : 5, "nal"); unsigned n = 0; uint8_t* p = o->getDataBuf(); memset(p, 0, 16);
            if (T[t] == AUD && (cs == 4 || symx_choose(0, 1, "new picture"))) { seq++; }
            int sc = 3 + (int)((k + t) & 1); if (t == 5) { odd = true; // arbitrary bytes, also too short ones
                n = (unsigned)symx_choose(0, 5, "len"); symx_bytes(p, 6, "bytes");
                sc = p[0] == 0 && p[1] == 0 && p[2] == 1 ? 3 : p[0] == 0 && p[1] == 0 && p[2] == 0 && p[3] == 1 ? 4 : 0;
            } else { p[sc - 1] = 1; p[sc] = (uint8_t)(T[t] | (symx_u8("nri") & 0xE0)); symx_bytes(p + sc + 1, 2, "payload"); n = (unsigned)sc + 1 + (T[t] == AUD ? 1 : 2); }
            m = Meta{symx_range(0, 1ll << 50, "pts"), seq, (int)symx_range(0, 65535, "w"), (int)symx_range(0, 65535, "h"), 1, 0}; o->setPixelFormat(P_NONE); o->setLength(n);
            feed(s, o, d, m);
            if (aud && seq != cseq) { // the previous picture is complete
                if (!pending && !cur.empty()) {
                    symx_assert(readable(), "the picture is shared"); header(cm, (uint32_t)cur.size()); symx_assert(!memcmp(seg + HEADER_SIZE, &cur[0], cur.size()), "with all its NAL units"); symx_reach("picture");
                    pending = true; memcpy(&shown[0], seg, shown.size());
                } else { symx_assert(readable() == pending, "nothing to share"); symx_reach("nothing"); }
                cur.clear(); cseq = seq;
            }
            if (cur.empty()) cm = m;
            unsigned ty = sc && n > (unsigned)sc ? p[sc] & 31u : 99; bool known = ty == 1 || (ty >= 5 && ty <= 9);
            if (known) { aud = ty == AUD; if (!aud) { static const uint8_t S[4] = {0, 0, 0, 1}; cur.insert(cur.end(), S, S + 4); cur.insert(cur.end(), p + sc, p + n); } } else symx_reach("ignored");
            symx_assert(readable() == pending, "shared exactly complete pictures");
            if (pending) symx_assert(!memcmp(seg, &shown[0], shown.size()), "a picture that is not read yet is left alone");
            if (pending && symx_choose(0, 1, "read")) { *seg = CHAR_WRITING; pending = false; }
        }
        cur = std::vector<uint8_t>(); shown = std::vector<uint8_t>(); delete o; delete d; delete s;
    } else { // a coded picture larger than the segment
        SharedMemory* s = SharedMemory::createNew(1985, H264); unsigned half = (SHMSIZE - HEADER_SIZE) / 2; unsigned over = (unsigned)symx_choose(0, 2, "over"); // NAL units of half the segment
        InterleavedVideoFrame* o = InterleavedVideoFrame::createNew(H264, half + 4); InterleavedVideoFrame* d = InterleavedVideoFrame::createNew(H264, half + 4);
        uint8_t* p = o->getDataBuf(); p[3] = 1; Meta m = {0, 1, 4, 4, 1, 0};
        for (int k = 0; k < 4; k++) { p[4] = (uint8_t)(k == 2 ? AUD : IDR); o->setLength(k == 2 ? 6 : k == 1 ? half - 1 + over : k == 0 ? half : 7); if (k == 2) m.seq = 2; feed(s, o, d, m); }
        symx_assert(readable() == (over < 2), "a picture is shared exactly when it fits"); if (over < 2) { symx_assert(rd(20, 4) == 2 * half - 1 + over && seg[HEADER_SIZE + 4] == IDR && seg[HEADER_SIZE + half + 4] == IDR, "whole"); symx_reach("fits"); } else symx_reach("over");
        delete o; delete d; delete s;
    }
    symx_assert(segs == 0 && attached == 0, "the segment is removed and detached");
    symx_assert(symx_live_heap() <= base, "everything is freed");
}
