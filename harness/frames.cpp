// Frame buffers: capacity matches the declared parameters for every rate, format and size.
#include "symx.h"
#include "AudioFrame.hh"
#include "VideoFrame.hh"
#include "AVFramedQueue.hh"
#include "Utils.hh"

static int bps(SampleFmt f) { return f == U8 || f == U8P ? 1 : f == S16 || f == S16P ? 2 : f == FLT || f == FLTP ? 4 : 0; }

static void audio(void)
{
    int sr = (int)symx_range(1000, 192000, "rate");
    int ch = (int)symx_range(1, 2, "channels");
    SampleFmt f = (SampleFmt)symx_choose(S_NONE, FLTP, "fmt");
    bool planar = f == U8P || f == S16P || f == FLTP;
    bool viaQueue = symx_choose(0, 1, "queue");
    AudioFrame* a;
    StreamInfo si(AUDIO);
    AVFramedQueue* q = NULL;
    int maxS = AudioFrame::getMaxSamples(sr);
    symx_assert(maxS == sr / 10, "100 ms of samples");
    symx_assert(AudioFrame::getDefaultSamples(sr) == sr / 50, "20 ms of samples");
    if (viaQueue) {
        si.audio.codec = PCM; si.audio.sampleRate = sr; si.audio.channels = ch; si.audio.sampleFormat = f;
        ConnectionData cd;
        q = AudioFrameQueue::createNew(cd, &si, 3);
        symx_assert((q != NULL) == (f != S_NONE), "queue refused exactly for an unknown sample format");
        if (!q) { symx_reach("refused"); return; }
        a = dynamic_cast<AudioFrame*>(q->getRear());
        symx_assert(a != NULL, "audio queue holds audio frames");
    } else {
        bool askPlanar = symx_choose(0, 1, "askPlanar");
        if (askPlanar) a = PlanarAudioFrame::createNew(ch, sr, maxS, PCM, f);
        else a = InterleavedAudioFrame::createNew(ch, sr, maxS, PCM, f);
        symx_assert((a != NULL) == (f != S_NONE && planar == askPlanar), "created exactly for its own formats");
        if (!a) { symx_reach("refused"); return; }
    }
    symx_assert(a->isPlanar() == planar, "planarity follows the format");
    symx_assert(a->getMaxSamples() == (unsigned)maxS && a->getSampleRate() == (unsigned)sr && a->getChannels() == (unsigned)ch && a->getSampleFmt() == f, "parameters kept");
    symx_assert(a->getSamples() == 0, "no samples yet");
    unsigned n = (unsigned)symx_range(1, 19200, "samples");
    symx_assume(n <= (unsigned)maxS);
    if (planar) {
        symx_assert(a->getMaxLength() == (unsigned)(maxS * bps(f)), "plane capacity");
        a->fillWithValue(0);
        for (int c = 0; c < ch; c++) symx_assert(symx_obj_size(a->getPlanarDataBuf()[c]) >= (uint64_t)maxS * bps(f), "plane allocation holds 100 ms");
    } else {
        symx_assert(a->getMaxLength() >= (unsigned)(maxS * bps(f) * ch), "interleaved capacity");
        a->fillWithValue(0);
        symx_assert(symx_obj_size(a->getDataBuf()) >= (uint64_t)maxS * bps(f) * ch, "allocation holds 100 ms");
        symx_assert(symx_obj_size(a->getDataBuf()) >= a->getMaxLength(), "allocation holds the declared capacity");
    }
    a->setSamples(n);
    std::chrono::nanoseconds d = a->getDuration();
    symx_assert((int64_t)d.count() == (int64_t)n * 1000000000ll / (int64_t)(unsigned)sr, "duration is samples over rate");
    symx_observe(a->getMaxLength());
    symx_reach("audio");
    if (q) delete q; else delete a;
    symx_reach("audio_deleted");
}

static void video(void)
{
    int w = (int)symx_range(1, 4096, "w");
    int h = (int)symx_range(1, 2304, "h");
    PixType p = (PixType)symx_choose(P_NONE, YUVJ420P, "pix");
    InterleavedVideoFrame* f = InterleavedVideoFrame::createNew(RAW, w, h, p);
    symx_assert(f->getWidth() == w && f->getHeight() == h && f->getPixelFormat() == p && f->getCodec() == RAW, "parameters kept");
    uint64_t px = (uint64_t)w * h;
    uint64_t cw = (w + 1) / 2, chh = (h + 1) / 2; (void)chh;
    uint64_t need = p == RGB24 ? 3 * px : p == RGB32 ? 4 * px : p == YUYV422 ? 2 * px : p == YUV444P ? 3 * px : p == YUV422P ? px + 2 * cw * h : px + 2 * cw * chh;
    if (p == P_NONE) need = 1;
    if (w > 1 && h > 1) symx_assert(f->getMaxLength() >= need, "picture fits its buffer");
    symx_assert(f->getLength() == 0 && !f->isPlanar(), "empty");
    symx_assert(symx_obj_size(f->getDataBuf()) >= f->getMaxLength(), "allocation holds the declared capacity");
    symx_observe(f->getMaxLength());
    symx_reach("video");
    delete f;
}

static void vqueue(void)
{
    StreamInfo si(VIDEO);
    si.video.codec = (VCodecType)symx_choose(VC_NONE, RAW, "codec");
    si.video.pixelFormat = (PixType)symx_choose(P_NONE, YUVJ420P, "pix");
    ConnectionData cd;
    unsigned max = (unsigned)symx_choose(2, 4, "max");
    AVFramedQueue* q = VideoFrameQueue::createNew(cd, &si, max);
    VCodecType c = si.video.codec;
    bool ok = c == H264 || c == H265 || c == VP8 || (c == RAW && si.video.pixelFormat != P_NONE);
    symx_assert((q != NULL) == ok, "queue created exactly for supported codecs");
    if (!q) return;
    for (unsigned i = 0; i < max; i++) {
        VideoFrame* f = dynamic_cast<VideoFrame*>(q->getRear());
        symx_assert(f != NULL, "slot");
        symx_assert(f->getCodec() == c, "codec");
        unsigned need = c == VP8 ? LENGTH_VP8 : c == RAW ? DEFAULT_WIDTH * DEFAULT_HEIGHT * (si.video.pixelFormat == RGB32 ? 4 : si.video.pixelFormat == YUYV422 ? 2 : 3) : MAX_H264_OR_5_NAL_SIZE;
        symx_assert(f->getMaxLength() >= need, "slot capacity");
        symx_assert(symx_obj_size(f->getDataBuf()) >= f->getMaxLength(), "allocation holds the declared capacity");
        q->addFrame(); q->removeFrame();
    }
    symx_reach("vqueue");
    delete q;
}

extern "C" void harness(void)
{
    switch (symx_case()) {
        case 0: audio(); break;
        case 1: video(); break;
        case 2: vqueue(); break;
    }
}
