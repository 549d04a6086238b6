// Names used by the control protocol: each value prints to one name, and exactly that name parses to it.
#include "symx.h"
#include <string>
#include <string.h>
#include "Utils.hh"
#ifndef LMAX
#define LMAX 16
#endif
extern "C" int rand(void) noexcept { return (int)symx_range(0, 0x7fffffff, "rand"); }
static std::string text(void)
{
    unsigned n = (unsigned)symx_choose(0, LMAX, "len");
    char b[LMAX + 1];
    symx_bytes(b, n, "text");
    return std::string(b, n);
}
template <class T> static void both(int last, T (*from)(std::string), std::string (*as)(T), const char* names)
{
    if (symx_choose(0, 1, "dir") == 0) {
        T v = (T)symx_range(0, last, "value");
        std::string s = as(v);
        symx_assert(!s.empty(), "every value has a name");
        symx_assert(from(s) == v, "the name parses back to the value");
        symx_assert(as((T)-1).empty(), "no name for none");
    } else {
        std::string s = text();
        T v = from(s);
        symx_assert((int)v >= -1 && (int)v <= last, "a known value");
        if ((int)v >= 0) symx_assert(as(v) == s, "only the exact name parses");
        symx_observe((uint64_t)(int64_t)(int)v);
    }
    symx_reach(names);
}
// name table: pairs name\0value
template <class T> static void table(T (*from)(std::string), const char* const* names, const int* vals, int n)
{
    int dir = (int)symx_choose(0, n, "row");
    if (dir < n) { symx_assert((int)from(names[dir]) == vals[dir], "known name"); return; }
    std::string s = text();
    int v = (int)from(s), want = -1;
    for (int i = 0; i < n; i++) if (s == names[i]) want = vals[i];
    symx_assert(v == want, "a name means one thing");
    symx_reach("table");
}
extern "C" void harness(void)
{
    switch (symx_case()) {
        case 0: both<SampleFmt>(FLTP, utils::getSampleFormatFromString, utils::getSampleFormatAsString, "samplefmt"); break;
        case 1: both<ACodecType>(MP3, utils::getAudioCodecFromString, utils::getAudioCodecAsString, "acodec"); break;
        case 2: both<VCodecType>(RAW, utils::getVideoCodecFromString, utils::getVideoCodecAsString, "vcodec"); break;
        case 3: both<FilterType>(V4L_CAPTURE, utils::getFilterTypeFromString, utils::getFilterTypeAsString, "filter"); break;
        case 4: both<FilterRole>(SERVER, utils::getRoleTypeFromString, utils::getRoleAsString, "role"); break;
        case 5: both<TxFormat>(MPEGTS, utils::getTxFormatFromString, utils::getTxFormatAsString, "tx"); break;
        case 6: { static const char* const n[] = {"YUYV", "YUV420", "RGB24", "YUV422", "YUVJ"}; static const int v[] = {YUYV422, YUV420P, RGB24, YUV422P, YUVJ420P};
            table<PixType>(utils::getPixTypeFromString, n, v, 5); break; }
        case 7: { static const char* const n[] = {"h264", "hevc", "vp8", "mjpeg", "rawvideo"}; static const int v[] = {H264, H265, VP8, MJPEG, RAW};
            table<VCodecType>(utils::getVideoCodecFromLibavString, n, v, 5); break; }
        case 8: { // the libav names of the PCM family are recognised by prefix
            std::string s = text();
            ACodecType c = utils::getAudioCodecFromLibavString(s), want = AC_NONE;
            if (s == "pcm_alaw" || s == "pcm_mulaw") want = G711;
            else if (s == "opus") want = OPUS; else if (s == "aac") want = AAC; else if (s == "mp3") want = MP3;
            else if (s.size() >= 5 && !memcmp(s.data(), "pcm_", 4) && s[4] == 'u') want = PCMU;
            else if (s.size() >= 5 && !memcmp(s.data(), "pcm_", 4) && s[4] == 's') want = PCM;
            symx_assert(c == want, "libav audio codec name");
            if (c == PCM) symx_reach("libav");
            break; }
        case 9: {
            SampleFmt f = (SampleFmt)symx_range(-1, FLTP, "fmt");
            int want = f == U8 || f == U8P ? 1 : f == S16 || f == S16P ? 2 : f == FLT || f == FLTP ? 4 : 0;
            symx_assert(utils::getBytesPerSampleFromFormat(f) == want, "bytes per sample");
            std::string s = text();
            int p = s == "pcmu" || s == "opus" || s == "pcm" || s == "MPEG4-GENERIC" ? 97 : s == "mp3" ? 14 : s == "H264" ? 96 : -1;
            symx_assert(utils::getPayloadFromCodec(s) == p, "RTP payload type");
            symx_assert(utils::getStreamTypeAsString(AUDIO) == "AUDIO" && utils::getStreamTypeAsString(VIDEO) == "VIDEO", "stream type");
            symx_reach("payload");
            break; }
        case 10: {
            unsigned n = (unsigned)symx_choose(0, 6, "n");
            std::string id = utils::randomIdGenerator(n);
            symx_assert(id.size() == n, "identifier length");
            for (char c : id) symx_assert((c >= '0' && c <= '9') || (c >= 'A' && c <= 'Z') || (c >= 'a' && c <= 'z'), "alphanumeric");
            symx_reach("id");
            break; }
    }
}
