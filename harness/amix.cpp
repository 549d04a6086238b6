// Audio mixing: where samples go, what they become, gains.
#define private public
#define protected public
#include "modules/audioMixer/AudioMixer.hh"
#undef private
#undef protected
#include "common.hh"
#include "AudioCircularBuffer.hh"
#include "Utils.hh"
#include "StreamInfo.hh"
#include <map>
#include <vector>
#include <string.h>
typedef std::chrono::microseconds us;
enum { N = 2, CAP = 10, THR = 6, KEEP = 64 };
static AudioMixer* mixer(int rate)
{
    AudioMixer* m = new AudioMixer(3);
    m->sampleRate = rate; m->inputFrameSamples = N; m->outputSamples = N; m->mixBufferMaxSamples = CAP; m->mixingThreshold = THR; m->masterGain = 1;
    for (int i = 0; i < MAX_CHANNELS; i++) { delete[] m->mixBuffers[i]; m->mixBuffers[i] = new float[CAP](); }
    return m;
}
// reference: what has been mixed at each absolute position since the last synchronisation
struct Ref {
    float acc[2][KEEP]; uint64_t base, front, rear; int64_t sync; bool synced; int rate;
    void clear() { memset(acc, 0, sizeof acc); }
    float th;
    void mix(float& a, float v) { a += v; if (a > th) a = ((1 - th) / (2 - th)) * a + th / (2 - th); else if (a < -th) a = ((1 - th) / (2 - th)) * a - th / (2 - th); }
    bool push(int64_t pts, unsigned n, const float (*s)[4], float gain) {
        if (CAP - (rear - front) < n) { symx_reach("no room"); return false; }
        if (!synced) { synced = true; sync = pts; }
        int64_t pos = (pts - sync) * rate / 1000000;
        if (pos >= 0 && (uint64_t)pos < front) { symx_reach("past"); return false; }
        if (pos < 0 || (uint64_t)pos > front + CAP - n) { symx_reach("resync"); clear(); base = front = rear = 0; sync = pts; pos = 0; }
        pos = (int64_t)symx_concretize((uint64_t)pos);
        for (int c = 0; c < 2; c++) for (unsigned j = 0; j < n; j++) mix(acc[c][pos + j - base], s[c][j] * gain * 1);
        if ((uint64_t)pos + n > rear) rear = (uint64_t)pos + n;
        symx_reach("mixed"); return true;
    }
};
static void check(const Ref& r, AudioMixer* m, PlanarAudioFrame* out, bool ret, uint64_t was)
{
    (void)m;
    if (!ret) { symx_assert(!out->getConsumed(), "no frame"); return; }
    symx_reach("output"); symx_assert(out->getConsumed(), "frame delivered");
    for (int c = 0; c < 2; c++) for (int j = 0; j < N; j++) {
        float v; memcpy(&v, out->getPlanarDataBuf()[c] + 4 * j, 4);
        symx_assert(!memcmp(&v, &r.acc[c][was + (uint64_t)j - r.base], 4), "each output sample is the mix of exactly the input samples of its time");
    }
    symx_assert(out->getPresentationTime().count() == (int64_t)(was * 1000000 / (uint64_t)r.rate) + r.sync, "time of the output frame");
    symx_assert(out->getDecodeTime() == NO_DTS && out->getSamples() == N && out->getLength() == 4 * N && out->getChannels() == 2 && out->getSampleRate() == (unsigned)r.rate, "output frame description");
}
#ifndef PUSHES
#define PUSHES 6
#endif
static void put(PlanarAudioFrame* f, bool s16, int c, unsigned j, float v)
{
    if (s16) { short x = (short)(v * 32768); memcpy(f->getPlanarDataBuf()[c] + 2 * j, &x, 2); } else memcpy(f->getPlanarDataBuf()[c] + 4 * j, &v, 4);
}
static void history(int rate, bool s16, bool longRun)
{
    AudioMixer* m = mixer(rate); Ref r; r.clear(); r.base = r.front = r.rear = 0; r.synced = false; r.sync = 0; r.rate = rate;
    PlanarAudioFrame* in[2]; static const float G[2] = {1, 0.5f};
    for (int i = 0; i < 2; i++) { in[i] = PlanarAudioFrame::createNew(2, rate, 4, PCM, s16 ? S16P : FLTP); m->gains[i + 5] = G[i]; }
    PlanarAudioFrame* out = PlanarAudioFrame::createNew(2, rate, N, PCM, FLTP);
    symx_assert(in[0] && in[1] && out, "frames");
    int64_t start = 5000000, unit = 1000000 / rate; m->th = r.th = 1000; if (longRun) { // hours later
        r.base = r.front = r.rear = m->front = m->rear = 4294967290ull; r.synced = true; r.sync = 7; m->syncTs = us(7); start = 7 + 4294967290ll * 1000000 / rate + 1;
        symx_assert(m->front == r.front, "long runs");
    }
    float tag = 1.0f / 4; int64_t t = start;
    for (int k = 0; k < PUSHES; k++) {
        int who = k ? (int)symx_choose(0, k == 1 ? 2 : 1, "who") : 0; std::map<int, Frame*> org; std::vector<int> news;
        for (int i = 0; i < 2; i++) {
            org[i + 5] = in[i]; if (who != 2 && who != i) continue;
            unsigned n = i ? 1 + (k & 1) * 2 : N; float s[2][4];
            int64_t pts = t + (k || i ? (i ? symx_range(-2 * unit, 3 * unit, "dt") : symx_choose(0, k == 2 ? 12 : 2, "dt") * unit) : 0); if (!i) t = t + N * unit;
            for (int c = 0; c < 2; c++) for (unsigned j = 0; j < n; j++) { s[c][j] = c ? -tag : tag; tag = tag / 2 + 1.0f / 4096; tag = (float)(int)(tag * 16384) / 16384; if (tag < 0.001f) tag = 0.25f - tag; put(in[i], s16, c, j, s[c][j]); }
            in[i]->setSamples(n); in[i]->setLength(n * (s16 ? 2 : 4)); in[i]->setPresentationTime(us(pts));
            r.push(pts, n, s, G[i]); news.push_back(i + 5);
        }
        out->setConsumed(false); uint64_t was = r.front;
        bool ret = m->doProcessFrame(org, out, news);
        symx_assert(ret == (r.rear - r.front >= THR), "a frame comes out exactly when enough is buffered");
        check(r, m, out, ret, was); if (ret) r.front += N;
    }
    delete m;
}
// any sample values, any time of the second channel's frame
static void anyTime(void)
{
    AudioMixer* m = mixer(1000); Ref r; r.clear(); r.base = r.front = r.rear = 0; r.synced = false; r.sync = 0; r.rate = 1000; r.th = m->th;
    PlanarAudioFrame* in = PlanarAudioFrame::createNew(2, 1000, 4, PCM, FLTP), *out = PlanarAudioFrame::createNew(2, 1000, N, PCM, FLTP); symx_assert(in && out, "frames");
    int64_t start = 70000; int loud = symx_case() == 12 ? 1 : -1; m->gains[5] = 1; m->gains[6] = 0.5f;
    for (int k = 0; k < 5; k++) {
        int ch = k == 1 ? 6 : 5; int64_t pts = start + (k < 1 ? 0 : k == 1 ? (symx_case() == 11 ? symx_range(-4000, 12000, "us") : symx_choose(-1, 2, "at") * 1000) : (k - 1) * 2000); unsigned n = N; float s[2][4];
        std::map<int, Frame*> org; org[ch] = in; std::vector<int> news(1, ch);
        for (int c = 0; c < 2; c++) for (unsigned j = 0; j < n; j++) {
            s[c][j] = k == loud && c == 1 && j == 1 ? symx_f32("sample") : 0.125f / (float)(1 + k * 4 + c * 2 + (int)j); symx_assume(s[c][j] >= -1 && s[c][j] <= 1);
            memcpy(in->getPlanarDataBuf()[c] + 4 * j, &s[c][j], 4);
        }
        in->setSamples(n); in->setLength(4 * n); in->setPresentationTime(us(pts)); out->setConsumed(false);
        r.push(pts, n, s, ch == 5 ? 1 : 0.5f); uint64_t was = r.front;
        bool ret = m->doProcessFrame(org, out, news);
        symx_assert(ret == (r.rear - r.front >= THR), "a frame comes out exactly when enough is buffered");
        check(r, m, out, ret, was); if (ret) r.front += N;
    }
    delete m;
}
static void conversions(void)
{
    unsigned char b[4], c[4]; symx_bytes(b, 4, "sample"); float v = 0; memset(c, 0, 4);
    symx_assert(AudioMixer::bytesToFloat(b, v, S16P), "16 bit samples");
    short x; memcpy(&x, b, 2);
    symx_assert(v == (float)x / 32768 && v >= -1 && v < 1, "sample value");
    symx_assert(AudioMixer::floatToBytes(c, v, S16P) && c[0] == b[0] && c[1] == b[1], "16 bit samples survive");
    float w; uint32_t bits; symx_assert(AudioMixer::bytesToFloat(b, w, FLTP), "float samples"); memcpy(&bits, &w, 4); symx_assert(!memcmp(&bits, b, 4), "float samples are taken as they are");
    symx_assert(AudioMixer::floatToBytes(c, w, FLTP) && !memcmp(c, b, 4), "float samples survive");
    static const SampleFmt F[] = {S_NONE, U8, U8P, S16, FLT};
    for (int i = 0; i < 5; i++) symx_assert(!AudioMixer::bytesToFloat(b, w, F[i]) && !AudioMixer::floatToBytes(c, w, F[i]), "other formats are refused");
    symx_reach("survive");
}
static void saturation(void)
{
    unsigned char c[2]; float f = symx_f32("f"); symx_assume(f >= -2 && f <= 2);
    symx_assert(AudioMixer::floatToBytes(c, f, S16P), "16 bit samples");
    short x = (short)(c[0] | c[1] << 8);
    if (f >= 1) { symx_reach("loud"); symx_assert(x == 32767, "loud samples are clipped, not wrapped"); }
    else if (f <= -1) symx_assert(x == -32768, "loud samples are clipped, not wrapped");
    else { symx_reach("in range"); symx_assert((float)x <= f * 32768 + 1 && (float)x >= f * 32768 - 1, "closest value"); }
}
static void arithmetic(void)
{
    AudioMixer* m = mixer(1000); m->masterGain = DEFAULT_MASTER_GAIN; float buf[3] = {7, symx_f32("old"), 8};
    float s = symx_f32("sample"), g = symx_case() == 7 ? 1.0f : 0.5f;
    symx_assume(s >= -1 && s <= 1 && buf[1] >= -1 && buf[1] <= 1);
    float lin = buf[1] + s * g * m->masterGain, old = buf[1];
    m->mixSample(s, buf, 1, g);
    symx_assert(buf[0] == 7 && buf[2] == 8, "only that sample");
    symx_assert(buf[1] >= -1 && buf[1] <= 1, "the mix stays in range");
    float th = (float)COMPRESSION_THRESHOLD;
    if (lin <= th && lin >= -th) { symx_reach("linear"); symx_assert(buf[1] == lin, "quiet sums are not changed"); }
    else { symx_reach("compressed"); symx_assert(lin > 0 ? buf[1] >= th - 1e-6f && buf[1] <= lin + 1e-6f : buf[1] <= -th + 1e-6f && buf[1] >= lin - 1e-6f, "loud sums are compressed above the threshold"); }
    if (s == 0) symx_assert(old > th || old < -th || buf[1] == old, "silence adds nothing");
    delete m;
}
static Jzon::Object* params(const char* k1, int id, const char* k2, double v)
{
    Jzon::Object* o = new Jzon::Object; if (k1) o->Add(k1, id); if (k2) o->Add(k2, v); return o;
}
static void gains(void)
{
    AudioMixer* m = mixer(1000); m->masterGain = 0.5f; float g[3] = {1, 1, 1}, mg = 0.5f;
    StreamInfo si(AUDIO); ConnectionData cd; AudioCircularBuffer* q = AudioCircularBuffer::createNew(cd, 2, 8000, 400, FLTP); symx_assert(q, "queue");
    for (int i = 0; i < 3; i++) symx_assert(m->specificReaderConfig(i, q), "reader accepted");
    symx_assert(q->getFront() == NULL || true, "queue");
    if (symx_case() == 6) {
        float v = symx_f32("gain"); symx_assume(v == v); symx_assert(m->setChannelGain(1, v), "known channel"); symx_assert(!m->setChannelGain(9, v), "unknown channel");
        g[1] = v > 1 ? 1 : v < 0 ? 0 : v; symx_assert(m->gains[1] == g[1], "gain limited to 0..1");
        symx_assert(m->gains.size() == 3 && m->gains[0] == 1 && m->gains[2] == 1, "others unchanged"); symx_reach("gain"); return;
    }
    static const double V[] = {-0.5, 0, 0.25, 1, 3}; static const float W[] = {0, 0, 0.25f, 1, 1};
    for (int k = 0; k < 3; k++) {
        int x = (int)symx_choose(0, 33, "request"), op = x < 20 ? 0 : x < 24 ? 1 : x < 28 ? 2 : x < 33 ? 3 : 4, id = op == 0 ? x / 5 : op < 3 ? x % 4 : 0, v = op == 0 ? x % 5 : op == 3 ? x - 28 : 0; bool known = id < 3;
        Jzon::Object* p;
        switch (op) {
            case 0: p = params("id", id, "gain", V[v]); symx_assert(m->changeChannelVolumeEvent(p) == known, "known channel"); if (known) g[id] = W[v]; delete p; break;
            case 1: p = params("id", id, NULL, 0); symx_assert(m->muteChannelEvent(p) == known, "known channel"); if (known) g[id] = 0; delete p; break;
            case 2: p = params("id", id, NULL, 0); symx_assert(m->soloChannelEvent(p) == known, "known channel"); if (known) { g[0] = g[1] = g[2] = 0; g[id] = 1; symx_reach("solo"); } delete p; break;
            case 3: p = params(NULL, 0, "gain", V[v]); symx_assert(m->changeMasterVolumeEvent(p), "master"); mg = W[v]; delete p; break;
            case 4: {
                Jzon::Object none; symx_assert(!m->changeChannelVolumeEvent(NULL) && !m->changeChannelVolumeEvent(&none) && !m->muteChannelEvent(NULL) && !m->muteChannelEvent(&none) && !m->soloChannelEvent(NULL) && !m->soloChannelEvent(&none) && !m->changeMasterVolumeEvent(NULL) && !m->changeMasterVolumeEvent(&none), "incomplete requests are refused");
                symx_assert(m->muteMasterEvent(NULL), "mute"); mg = 0; symx_reach("refused"); break;
            }
        }
        for (int i = 0; i < 3; i++) symx_assert(m->gains[i] == g[i], "channel gain");
        symx_assert(m->masterGain == mg, "master gain stays within 0..1");
    }
    symx_assert(m->specificReaderDelete(1) && !m->specificReaderDelete(1) && m->gains.size() == 2, "removed once");
    delete m;
}
// with its real dimensions, from the input queues to the output queue
static void real(void)
{
    AudioMixer* m = new AudioMixer(2); ConnectionData cd;
    FrameQueue* q[2]; FrameQueue* o = m->allocQueue(cd); symx_assert(o, "output queue");
    for (int i = 0; i < 2; i++) { q[i] = m->allocQueue(cd); symx_assert(q[i] && m->specificReaderConfig(i, q[i]), "input"); }
    int n = 960, given = 0, got = 0;
    symx_assert((int)m->getInputFrameSamples() == n && (int)m->getMixingThreshold() == 3 * n, "dimensions");
    for (int k = 0; k < 5; k++) {
        std::map<int, Frame*> org; std::vector<int> news;
        for (int i = 0; i < 2; i++) {
            AudioFrame* f = dynamic_cast<AudioFrame*>(q[i]->getRear()); symx_assert(f, "room"); f->setSamples((unsigned)n); f->setLength((unsigned)n * 4);
            for (int c = 0; c < 2; c++) for (int j = 0; j < n; j++) { float v = (float)(given + j) / (i ? 16384 : 8192); memcpy(f->getPlanarDataBuf()[c] + 4 * j, &v, 4); }
            f->setPresentationTime(us(20000 * k + 1000)); q[i]->addFrame();
            org[i] = q[i]->getFront(); symx_assert(org[i], "frame"); news.push_back(i);
        }
        given += n; Frame* d = o->getRear(); bool ret = m->doProcessFrame(org, d, news);
        for (int i = 0; i < 2; i++) q[i]->removeFrame();
        symx_assert(ret == (k >= 2), "threshold");
        if (!ret) continue;
        AudioFrame* a = dynamic_cast<AudioFrame*>(d); symx_assert(a->getSamples() == (unsigned)n && a->getPresentationTime().count() == 1000 + 20000 * (k - 2), "output");
        for (int c = 0; c < 2; c++) for (int j = 0; j < n; j++) {
            float v, e = (float)(got + j) / 8192 * (float)DEFAULT_MASTER_GAIN, x = e + (float)(got + j) / 16384 * (float)DEFAULT_MASTER_GAIN; memcpy(&v, a->getPlanarDataBuf()[c] + 4 * j, 4);
            if (x < 0.6f) symx_assert(v == x, "sample");
        }
        got += n; o->addFrame(); symx_assert(o->getFront(), "output is queued"); o->removeFrame(); symx_reach("real");
    }
    delete m;
}
extern "C" void harness(void)
{
    switch (symx_case()) {
        case 0: history(1000, false, false); break;
        case 1: history(8000, false, false); break;
        case 2: history(1000, false, true); break;
        case 3: history(1000, true, false); break;
        case 4: conversions(); break;
        case 5: saturation(); break;
        case 6: case 9: gains(); break;
        case 7: case 8: arithmetic(); break;
        case 11: case 12: anyTime(); break;
        case 10: real(); break;
    }
}
