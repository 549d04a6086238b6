From b74077e6961f53b5a1c7cdee0f007de67349e397 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:14 +0000
Subject: [PATCH 01/62] fix: InterleavedAudioFrame::fillWithValue wrote past
 its buffer

bufferMaxLen already covers every channel, multiplying it by the number of
channels again overflows the heap block for stereo frames.
---
 src/AudioFrame.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/AudioFrame.cpp b/src/AudioFrame.cpp
index 006f687..481308d 100644
--- a/src/AudioFrame.cpp
+++ b/src/AudioFrame.cpp
@@ -78,7 +78,7 @@ InterleavedAudioFrame::~InterleavedAudioFrame()
 
 void InterleavedAudioFrame::fillWithValue(int value)
 {
-    memset(frameBuff, value, bufferMaxLen*channels);
+    memset(frameBuff, value, bufferMaxLen);
 }    
 
 
-- 
2.43.0


From fa69b56b080fe0e4946bf69294f9af5302912136 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:14 +0000
Subject: [PATCH 02/62] fix: AudioFrame::getDefaultSamples overflowed above 107
 kHz

20000 * sampleRate does not fit in an int for rates such as 192000 Hz, so the
default number of samples per frame came out negative.
---
 src/AudioFrame.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/AudioFrame.cpp b/src/AudioFrame.cpp
index 481308d..113a5ac 100644
--- a/src/AudioFrame.cpp
+++ b/src/AudioFrame.cpp
@@ -33,7 +33,7 @@ int AudioFrame::getMaxSamples(int sampleRate)
 
 int AudioFrame::getDefaultSamples(int sampleRate)
 {
-    return (DEFAULT_FRAME_TIME*sampleRate)/1000000;
+    return ((long long)DEFAULT_FRAME_TIME*sampleRate)/1000000;
 }
 
 
-- 
2.43.0


From 123fb7449b72755a623a15554ba6e3ad0fcad686 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:39 +0000
Subject: [PATCH 03/62] fix: AudioCircularBuffer read past the silence frame
 for gaps over 100 ms

The padding is copied from dummyFrame, which holds 100 ms of silence, while the
gap may be as long as the maximum number of samples of the buffer.
---
 src/AudioCircularBuffer.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/AudioCircularBuffer.cpp b/src/AudioCircularBuffer.cpp
index 5862326..b6e77d3 100644
--- a/src/AudioCircularBuffer.cpp
+++ b/src/AudioCircularBuffer.cpp
@@ -22,6 +22,7 @@
 
 #include "AudioCircularBuffer.hh"
 #include "Utils.hh"
+#include <algorithm>
 #include <cstring>
 #include <iostream>
 
@@ -129,10 +130,16 @@ std::vector<int> AudioCircularBuffer::addFrame()
             return ret;
         }
 
-        if(!pushBack(dummyFrame->getPlanarDataBuf(), paddingSamples)) {
+        if(paddingSamples > (unsigned) getFreeSamples()) {
             utils::warningMsg("[AudioCircularBuffer] Cannot push padding");
             return ret;
         }
+
+        while (paddingSamples > 0) {
+            unsigned chunk = std::min(paddingSamples, dummyFrame->getMaxSamples());
+            pushBack(dummyFrame->getPlanarDataBuf(), chunk);
+            paddingSamples -= chunk;
+        }
     }
 
     if(!pushBack(inputFrame->getPlanarDataBuf(), inputFrame->getSamples())) {
-- 
2.43.0


From 43f1e579b5fcada6d6d88f19fb1dd93610f2ac21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:39 +0000
Subject: [PATCH 04/62] fix: AudioCircularBuffer truncated sample counts to 32
 bits

After 2^32 samples (about a day at 48 kHz) the timestamps of continuous audio
jumped back, and a timestamp jump of that size was taken for a short gap.
---
 src/AudioCircularBuffer.cpp | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/AudioCircularBuffer.cpp b/src/AudioCircularBuffer.cpp
index b6e77d3..82392a7 100644
--- a/src/AudioCircularBuffer.cpp
+++ b/src/AudioCircularBuffer.cpp
@@ -70,7 +70,7 @@ Frame* AudioCircularBuffer::getRear()
 Frame* AudioCircularBuffer::getFront()
 {
     std::chrono::microseconds ts;
-    unsigned frontSampleIdx;
+    size_t frontSampleIdx;
 
     std::lock_guard<std::mutex> guard(mtx);
 
@@ -100,8 +100,8 @@ std::vector<int> AudioCircularBuffer::addFrame()
     std::chrono::microseconds rearTs;
     std::chrono::microseconds deviation;
     std::vector<int> ret;
-    unsigned paddingSamples;
-    unsigned rearSampleIdx;
+    size_t paddingSamples;
+    size_t rearSampleIdx;
 
     inTs = inputFrame->getPresentationTime();
 
@@ -122,7 +122,12 @@ std::vector<int> AudioCircularBuffer::addFrame()
     if (deviation.count() > tsDeviationThreshold) {
         utils::warningMsg("[AudioCircularBuffer] Deviation exceeded, introducing silence");
 
-        paddingSamples = (deviation.count()*sampleRate)/std::micro::den;
+        if (deviation.count()/std::micro::den >= chMaxSamples) {
+            // the number of samples may not be representable
+            paddingSamples = chMaxSamples;
+        } else {
+            paddingSamples = (deviation.count()*sampleRate)/std::micro::den;
+        }
 
         if (paddingSamples >= chMaxSamples) {
             utils::warningMsg("[AudioCircularBuffer] Time discontinuity. Flushing buffer!");
@@ -130,13 +135,13 @@ std::vector<int> AudioCircularBuffer::addFrame()
             return ret;
         }
 
-        if(paddingSamples > (unsigned) getFreeSamples()) {
+        if(paddingSamples > (size_t) getFreeSamples()) {
             utils::warningMsg("[AudioCircularBuffer] Cannot push padding");
             return ret;
         }
 
         while (paddingSamples > 0) {
-            unsigned chunk = std::min(paddingSamples, dummyFrame->getMaxSamples());
+            size_t chunk = std::min(paddingSamples, (size_t) dummyFrame->getMaxSamples());
             pushBack(dummyFrame->getPlanarDataBuf(), chunk);
             paddingSamples -= chunk;
         }
-- 
2.43.0


From 4c1776f1edfbc5ab0ef7d4998289b868cb96bab6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:39 +0000
Subject: [PATCH 05/62] fix: AudioCircularBuffer updated its fill level without
 the lock when writing

The reader updates it under the mutex from another thread, concurrent updates
could be lost.
---
 src/AudioCircularBuffer.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/AudioCircularBuffer.cpp b/src/AudioCircularBuffer.cpp
index 82392a7..f3a86d6 100644
--- a/src/AudioCircularBuffer.cpp
+++ b/src/AudioCircularBuffer.cpp
@@ -238,6 +238,8 @@ bool AudioCircularBuffer::pushBack(unsigned char **buffer, int samplesRequested)
     unsigned rearMod;
     int firstCopiedBytes;
 
+    std::lock_guard<std::mutex> guard(mtx);
+
     if (bytesRequested > (channelMaxLength - elements)) {
         return false;
     }
-- 
2.43.0


From d49f8c11e808d05fa97a0abbda0d2f66311d3a73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:14 +0000
Subject: [PATCH 06/62] fix: SlicedVideoFrameQueue wrote slices larger than a
 slot past its end

---
 src/SlicedVideoFrameQueue.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/SlicedVideoFrameQueue.cpp b/src/SlicedVideoFrameQueue.cpp
index 93cc8ad..3f359e4 100644
--- a/src/SlicedVideoFrameQueue.cpp
+++ b/src/SlicedVideoFrameQueue.cpp
@@ -133,6 +133,11 @@ void SlicedVideoFrameQueue::pushBackSliceGroup(Slice* slices, int sliceNum)
 
     for (int i=0; i<sliceNum; i++) {
 
+        if (slices[i].getDataSize() > frames[rear]->getMaxLength()) {
+            utils::errorMsg("[SlicedVideoFrameQueue] Slice too big, discarding it");
+            continue;
+        }
+
         if ((frame = innerGetRear()) == NULL){
             frame = innerForceGetRear();
         }
-- 
2.43.0


From df35a8ae1b3153fca262f3772555640b6fff7f0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:11 +0000
Subject: [PATCH 07/62] fix: DASH video segmenters looked for start codes past
 the end of the NAL unit

---
 src/modules/dasher/DashVideoSegmenter.cpp     | 14 ++++++++++++--
 src/modules/dasher/DashVideoSegmenter.hh      |  2 +-
 src/modules/dasher/DashVideoSegmenterAVC.cpp  |  2 +-
 src/modules/dasher/DashVideoSegmenterHEVC.cpp |  2 +-
 4 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/src/modules/dasher/DashVideoSegmenter.cpp b/src/modules/dasher/DashVideoSegmenter.cpp
index 0a15d68..c013e44 100644
--- a/src/modules/dasher/DashVideoSegmenter.cpp
+++ b/src/modules/dasher/DashVideoSegmenter.cpp
@@ -178,13 +178,23 @@ bool DashVideoSegmenter::appendNalToFrame(VideoFrame* frame, unsigned char* nalD
 }
 
 
-int DashVideoSegmenter::detectStartCode(unsigned char const* ptr)
+int DashVideoSegmenter::detectStartCode(unsigned char const* ptr, unsigned length)
 {
-    u_int32_t bytes = 0|(ptr[0]<<16)|(ptr[1]<<8)|ptr[2];
+    u_int32_t bytes;
+
+    if (length < SHORT_START_CODE_LENGTH) {
+        return 0;
+    }
+
+    bytes = 0|(ptr[0]<<16)|(ptr[1]<<8)|ptr[2];
     if (bytes == H264or5_NALU_START_CODE) {
         return SHORT_START_CODE_LENGTH;
     }
 
+    if (length < LONG_START_CODE_LENGTH) {
+        return 0;
+    }
+
     bytes = (ptr[0]<<24)|(ptr[1]<<16)|(ptr[2]<<8)|ptr[3];
     if (bytes == H264or5_NALU_START_CODE) {
         return LONG_START_CODE_LENGTH;
diff --git a/src/modules/dasher/DashVideoSegmenter.hh b/src/modules/dasher/DashVideoSegmenter.hh
index fa7726a..40f17cd 100644
--- a/src/modules/dasher/DashVideoSegmenter.hh
+++ b/src/modules/dasher/DashVideoSegmenter.hh
@@ -102,7 +102,7 @@ protected:
     bool appendNalToFrame(VideoFrame* frame, unsigned char* nalData, unsigned nalDataLength, 
                            unsigned nalWidth, unsigned nalHeight, std::chrono::microseconds ts,
                            std::chrono::microseconds dts);
-    int detectStartCode(unsigned char const* ptr);
+    int detectStartCode(unsigned char const* ptr, unsigned length);
     bool setup(unsigned int width, unsigned int height);
     unsigned customGenerateSegment(unsigned char *segBuffer, std::chrono::microseconds nextFrameTs, 
                                     uint64_t &segTimestamp, uint32_t &segDuration, bool force);
diff --git a/src/modules/dasher/DashVideoSegmenterAVC.cpp b/src/modules/dasher/DashVideoSegmenterAVC.cpp
index 872910c..4bdc46f 100644
--- a/src/modules/dasher/DashVideoSegmenterAVC.cpp
+++ b/src/modules/dasher/DashVideoSegmenterAVC.cpp
@@ -71,7 +71,7 @@ VideoFrame* DashVideoSegmenterAVC::parseNal(VideoFrame* nal)
     unsigned char nalType;
     bool newFrame = false;
 
-    startCodeOffset = detectStartCode(nal->getDataBuf());
+    startCodeOffset = detectStartCode(nal->getDataBuf(), nal->getLength());
     nalData = nal->getDataBuf() + startCodeOffset;
     nalDataLength = nal->getLength() - startCodeOffset;
 
diff --git a/src/modules/dasher/DashVideoSegmenterHEVC.cpp b/src/modules/dasher/DashVideoSegmenterHEVC.cpp
index c703b1b..57be20f 100644
--- a/src/modules/dasher/DashVideoSegmenterHEVC.cpp
+++ b/src/modules/dasher/DashVideoSegmenterHEVC.cpp
@@ -73,7 +73,7 @@ VideoFrame* DashVideoSegmenterHEVC::parseNal(VideoFrame* nal)
     unsigned char nalType;
     bool newFrame = false;
 
-    startCodeOffset = detectStartCode(nal->getDataBuf());
+    startCodeOffset = detectStartCode(nal->getDataBuf(), nal->getLength());
     nalData = nal->getDataBuf() + startCodeOffset;
     nalDataLength = nal->getLength() - startCodeOffset;
 
-- 
2.43.0


From 92e3abcb2f8e23fa2bdda048c64cf1da6acb9807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:11 +0000
Subject: [PATCH 08/62] fix: DashVideoSegmenterAVC read past the end of a
 truncated SPS

---
 src/modules/dasher/DashVideoSegmenterAVC.cpp | 5 +++++
 src/modules/dasher/DashVideoSegmenterAVC.hh  | 1 +
 2 files changed, 6 insertions(+)

diff --git a/src/modules/dasher/DashVideoSegmenterAVC.cpp b/src/modules/dasher/DashVideoSegmenterAVC.cpp
index 4bdc46f..0d5db2f 100644
--- a/src/modules/dasher/DashVideoSegmenterAVC.cpp
+++ b/src/modules/dasher/DashVideoSegmenterAVC.cpp
@@ -47,6 +47,11 @@ void DashVideoSegmenterAVC::updateExtradata()
         return;
     }
 
+    if (sps.size() < H264_SPS_MIN_LENGTH) {
+        utils::errorMsg("Error updating extradata: truncated SPS");
+        return;
+    }
+
     createExtradata();
     sps.clear();
     pps.clear();
diff --git a/src/modules/dasher/DashVideoSegmenterAVC.hh b/src/modules/dasher/DashVideoSegmenterAVC.hh
index e2ec0b5..46c0a32 100644
--- a/src/modules/dasher/DashVideoSegmenterAVC.hh
+++ b/src/modules/dasher/DashVideoSegmenterAVC.hh
@@ -32,6 +32,7 @@
 #define H264_METADATA_VERSION_FLAG 0x01
 #define METADATA_RESERVED_BYTES1 0xFC
 #define METADATA_RESERVED_BYTES2 0xE0
+#define H264_SPS_MIN_LENGTH 4
 #define NUMBER_OF_SPS 0x01
 #define NUMBER_OF_PPS 0x01
 
-- 
2.43.0


From 1c6f7bf39c3e9019de4a8d8a566fc34fffc1f2b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:12 +0000
Subject: [PATCH 09/62] fix: a suffix SEI made DashVideoSegmenterHEVC take a
 key frame for a non key one

---
 src/modules/dasher/DashVideoSegmenterHEVC.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modules/dasher/DashVideoSegmenterHEVC.cpp b/src/modules/dasher/DashVideoSegmenterHEVC.cpp
index 57be20f..0374d23 100644
--- a/src/modules/dasher/DashVideoSegmenterHEVC.cpp
+++ b/src/modules/dasher/DashVideoSegmenterHEVC.cpp
@@ -100,9 +100,9 @@ VideoFrame* DashVideoSegmenterHEVC::parseNal(VideoFrame* nal)
             currentIntra = false;
             break;
         case PREFIX_SEI_NUT:
-        case SUFFIX_SEI_NUT:
             currentIntra = false;
             break;
+        case SUFFIX_SEI_NUT:
         case AUD_HEVC:
             break;
         case IDR1:
-- 
2.43.0


From 89b806548d6e0348ba0e95b1cf889df64622c004 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:15 +0000
Subject: [PATCH 10/62] fix: a video segment was not closed after a frame
 longer than the segment duration

---
 src/modules/dasher/i2libdash.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modules/dasher/i2libdash.c b/src/modules/dasher/i2libdash.c
index 6158c69..6100856 100644
--- a/src/modules/dasher/i2libdash.c
+++ b/src/modules/dasher/i2libdash.c
@@ -329,7 +329,7 @@ uint32_t generate_video_segment(uint8_t nextFrameIsIntra, uint32_t nextFramePts,
 
     lastSampleDuration = nextFramePts - (*context)->ctxvideo->ctxsample->mdat[sampleIdx].presentation_timestamp;
 
-    if ((nextFrameIsIntra == TRUE) && ((((*context)->duration - lastSampleDuration)) <= ((*context)->ctxvideo->current_video_duration + lastSampleDuration))) {
+    if ((nextFrameIsIntra == TRUE) && ((*context)->duration <= (uint64_t)(*context)->ctxvideo->current_video_duration + 2*(uint64_t)lastSampleDuration)) {
         (*context)->ctxvideo->ctxsample->mdat[sampleIdx].duration = lastSampleDuration;
         (*context)->ctxvideo->current_video_duration += lastSampleDuration;
 
-- 
2.43.0


From c3ba2d04bf802121ce5d3294a1bc219c822262df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:15 +0000
Subject: [PATCH 11/62] fix: DashAudioSegmenter misread ADTS channel
 configurations from 4 up

---
 src/modules/dasher/DashAudioSegmenter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modules/dasher/DashAudioSegmenter.cpp b/src/modules/dasher/DashAudioSegmenter.cpp
index 85893c1..e9e0741 100644
--- a/src/modules/dasher/DashAudioSegmenter.cpp
+++ b/src/modules/dasher/DashAudioSegmenter.cpp
@@ -211,7 +211,7 @@ unsigned char DashAudioSegmenter::getSamplingFreqIdxFromADTSHeader(unsigned char
 
 unsigned char DashAudioSegmenter::getChannelConfFromADTSHeader(unsigned char* adtsHeader)
 {
-    return (adtsHeader[2] & 0x01) | ((adtsHeader[3] >> 6) & 0x03);
+    return ((adtsHeader[2] & 0x01) << 2) | ((adtsHeader[3] >> 6) & 0x03);
 }
 
 unsigned char DashAudioSegmenter::getExtradata1stByte(unsigned char audioObjectType, unsigned char samplingFrequencyIndex)
-- 
2.43.0


From 723c0ecdd51e9486a89d5890d3ced17bea32b4f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:15 +0000
Subject: [PATCH 12/62] fix: DashAudioSegmenter truncated timestamps to 32 bits

---
 src/modules/dasher/DashAudioSegmenter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modules/dasher/DashAudioSegmenter.cpp b/src/modules/dasher/DashAudioSegmenter.cpp
index e9e0741..74c1354 100644
--- a/src/modules/dasher/DashAudioSegmenter.cpp
+++ b/src/modules/dasher/DashAudioSegmenter.cpp
@@ -132,7 +132,7 @@ bool DashAudioSegmenter::appendFrameToDashSegment(Frame* frame)
     unsigned char* dataWithoutADTS;
     unsigned int dataLengthWithoutADTS;
     unsigned int addSampleReturn;
-    uint32_t timeBasePts;
+    uint64_t timeBasePts;
 
     if (!frame || !frame->getDataBuf() || frame->getLength() <= 0 || !dashContext) {
         utils::errorMsg("Error appeding frame to segment: frame not valid");
-- 
2.43.0


From 37fa868a5ff5933fc9e7ff69c29714b20acc0999 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:15 +0000
Subject: [PATCH 13/62] fix: DashAudioSegmenter appended frames shorter than
 their ADTS header

---
 src/modules/dasher/DashAudioSegmenter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modules/dasher/DashAudioSegmenter.cpp b/src/modules/dasher/DashAudioSegmenter.cpp
index 74c1354..d983fbe 100644
--- a/src/modules/dasher/DashAudioSegmenter.cpp
+++ b/src/modules/dasher/DashAudioSegmenter.cpp
@@ -134,7 +134,7 @@ bool DashAudioSegmenter::appendFrameToDashSegment(Frame* frame)
     unsigned int addSampleReturn;
     uint64_t timeBasePts;
 
-    if (!frame || !frame->getDataBuf() || frame->getLength() <= 0 || !dashContext) {
+    if (!frame || !frame->getDataBuf() || frame->getLength() <= ADTS_HEADER_LENGTH || !dashContext) {
         utils::errorMsg("Error appeding frame to segment: frame not valid");
         return false;
     }
-- 
2.43.0


From cc11e3e30dbc39b5004a2f8465450fe3be59f0c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:15 +0000
Subject: [PATCH 14/62] fix: DashVideoSegmenter gave no duration to samples of
 frames without decode time

---
 src/modules/dasher/DashVideoSegmenter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modules/dasher/DashVideoSegmenter.cpp b/src/modules/dasher/DashVideoSegmenter.cpp
index c013e44..47797cc 100644
--- a/src/modules/dasher/DashVideoSegmenter.cpp
+++ b/src/modules/dasher/DashVideoSegmenter.cpp
@@ -139,7 +139,7 @@ bool DashVideoSegmenter::appendFrameToDashSegment(Frame* frame)
     }
     
     timeBasePts = microsToTimeBase(vFrame->getPresentationTime());
-    timeBaseDts = microsToTimeBase(vFrame->getDecodeTime());
+    timeBaseDts = vFrame->getDecodeTime() == NO_DTS ? timeBasePts : microsToTimeBase(vFrame->getDecodeTime());
 
     //TODO: test it with bFrames
     addSampleReturn = add_video_sample(vFrame->getDataBuf(), vFrame->getLength(), timeBasePts, 
-- 
2.43.0


From a4025beafa4fbefe87c30442fb44a910646aef06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:15 +0000
Subject: [PATCH 15/62] fix: DASH segments overflowed their buffers when they
 got too many samples or bytes

---
 src/modules/dasher/i2context.h |  3 +++
 src/modules/dasher/i2libdash.c | 16 +++++++++++++++-
 2 files changed, 18 insertions(+), 1 deletion(-)

diff --git a/src/modules/dasher/i2context.h b/src/modules/dasher/i2context.h
index 56facfe..9b85509 100644
--- a/src/modules/dasher/i2context.h
+++ b/src/modules/dasher/i2context.h
@@ -33,7 +33,10 @@ typedef unsigned char byte;
 #define MAX_MDAT_SAMPLE 65536   //H265 -> 119296
 #define MAX_DAT 10*1024*1024 
 //TODO: error negative values
+#define MAX_SEGMENT_HEADER 256   //styp, sidx, moof (without samples) and mdat headers
+#define MAX_SAMPLE_HEADER 16     //trun entry
 #define I2ERROR_MAX 10
+#define I2ERROR_SEGMENT_FULL 10
 #define I2ERROR_SPS_PPS 9
 #define I2ERROR_IS_INTRA 8
 #define I2ERROR_DURATION_ZERO 7
diff --git a/src/modules/dasher/i2libdash.c b/src/modules/dasher/i2libdash.c
index 6100856..d71e696 100644
--- a/src/modules/dasher/i2libdash.c
+++ b/src/modules/dasher/i2libdash.c
@@ -435,6 +435,13 @@ uint32_t add_video_sample(byte *input_data, uint32_t input_data_length, uint64_t
         return I2ERROR_IS_INTRA;
     }
 
+    // The segment (headers, samples table and data) has to fit in MAX_DAT bytes
+    if (ctxSample->mdat_sample_length >= MAX_MDAT_SAMPLE || input_data_length > MAX_DAT ||
+        MAX_SEGMENT_HEADER + (ctxSample->mdat_sample_length + 1)*MAX_SAMPLE_HEADER +
+        (*context)->ctxvideo->segment_data_size + input_data_length > MAX_DAT) {
+        return I2ERROR_SEGMENT_FULL;
+    }
+
     // Add segment data
     memcpy((*context)->ctxvideo->segment_data + (*context)->ctxvideo->segment_data_size, input_data, input_data_length);
     (*context)->ctxvideo->segment_data_size += input_data_length;
@@ -481,7 +488,14 @@ uint32_t add_audio_sample(byte *input_data, uint32_t input_data_length, uint32_t
 
     // Add sample or Init new segmentation
     i2ctx_sample *ctxSample = (*context)->ctxaudio->ctxsample;
-    
+
+    // The segment (headers, samples table and data) has to fit in MAX_DAT bytes
+    if (ctxSample->mdat_sample_length >= MAX_MDAT_SAMPLE || input_data_length > MAX_DAT ||
+        MAX_SEGMENT_HEADER + (ctxSample->mdat_sample_length + 1)*MAX_SAMPLE_HEADER +
+        (*context)->ctxaudio->segment_data_size + input_data_length > MAX_DAT) {
+        return I2ERROR_SEGMENT_FULL;
+    }
+
     // Add segment data
     memcpy((*context)->ctxaudio->segment_data + (*context)->ctxaudio->segment_data_size, input_data, input_data_length);
     (*context)->ctxaudio->segment_data_size += input_data_length;
-- 
2.43.0


From 47ba0d82ed57cf71696ec4f03ebc35c63cfef463 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:15 +0000
Subject: [PATCH 16/62] fix: the default sample duration of video init segments
 was uninitialised

---
 src/modules/dasher/i2libdash.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/modules/dasher/i2libdash.c b/src/modules/dasher/i2libdash.c
index d71e696..067c7c4 100644
--- a/src/modules/dasher/i2libdash.c
+++ b/src/modules/dasher/i2libdash.c
@@ -81,6 +81,7 @@ void video_context_initializer(i2ctx **context, uint32_t media_type) {
     ctxVideo->width = 0;
     ctxVideo->height = 0;
     ctxVideo->time_base = 0;
+    ctxVideo->sample_duration = 0;
     ctxVideo->earliest_presentation_time = 0;
     ctxVideo->sequence_number = 0;
     ctxVideo->current_video_duration = 0;
-- 
2.43.0


From 5329953ea0788d2719976aa26c5da68cfa33b3da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:02 +0000
Subject: [PATCH 17/62] fix: a filter leaving a shared reader releases the
 frame it held back

---
 src/IOInterface.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/IOInterface.cpp b/src/IOInterface.cpp
index 4481d84..a02d17d 100644
--- a/src/IOInterface.cpp
+++ b/src/IOInterface.cpp
@@ -205,6 +205,13 @@ bool Reader::disconnect(int id)
     }
     
     if (filters.size() > 0){
+        //NOTE: the leaving filter may be the last one that had to release the current frame
+        if (queue && frame && !ready && allRead()){
+            measureDelay();
+            frame = NULL;
+            ready = true;
+            queue->removeFrame();
+        }
         return true;
     }
     
-- 
2.43.0


From 80a5259937ceff357f0b2326fedcbb42fbab3b2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:15:31 +0000
Subject: [PATCH 18/62] fix: a reader refused by its filter is not kept as a
 null reader

---
 src/Filter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Filter.cpp b/src/Filter.cpp
index 47a93d2..624ffe7 100644
--- a/src/Filter.cpp
+++ b/src/Filter.cpp
@@ -130,7 +130,7 @@ std::shared_ptr<Reader> BaseFilter::setReader(int readerID, FrameQueue* queue)
     std::shared_ptr<Reader> r (new Reader());
     
     if (!specificReaderConfig(readerID, queue)){
-        r.reset();
+        return NULL;
     }
     
     readers[readerID] = r;
-- 
2.43.0


From 098417056181062a1b1de39bd7596fde05a01ec8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:15:31 +0000
Subject: [PATCH 19/62] fix: release the queue of a connection the reader
 refused

---
 src/Filter.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/Filter.cpp b/src/Filter.cpp
index 624ffe7..4562eb8 100644
--- a/src/Filter.cpp
+++ b/src/Filter.cpp
@@ -354,6 +354,7 @@ bool BaseFilter::connect(BaseFilter *R, int writerID, int readerID)
 
     if (!(r = R->setReader(readerID, queue))) {
         deleteWriter(writerID);
+        delete queue;
         utils::errorMsg("Could not create the reader or set the queue");
         return false;
     }
-- 
2.43.0


From 5a5573114229b603d8f9d0b1a8cc54ac2a2c7894 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:17:45 +0000
Subject: [PATCH 20/62] fix: sharing a reader respects the reader limit of the
 filter it is shared with

---
 src/Filter.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/Filter.cpp b/src/Filter.cpp
index 4562eb8..9e61282 100644
--- a/src/Filter.cpp
+++ b/src/Filter.cpp
@@ -273,6 +273,11 @@ bool BaseFilter::shareReader(BaseFilter *shared, int sharedRId, int orgRId)
         return false;
     }
     
+    if (shared->readers.count(sharedRId) == 0 && shared->readers.size() >= shared->getMaxReaders()){
+        utils::errorMsg("The shared filter has no room for another reader!");
+        return false;
+    }
+    
     if (!shared->specificReaderConfig(sharedRId, readers[orgRId]->getQueue())){
         return false;
     }
-- 
2.43.0


From bdbb234a3956f25a4ce7ae5f0bd45f10a46444e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:35 +0000
Subject: [PATCH 21/62] fix: a delayed event no longer holds back events that
 fall due earlier

---
 src/Event.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Event.cpp b/src/Event.cpp
index 9ee2079..9d91280 100644
--- a/src/Event.cpp
+++ b/src/Event.cpp
@@ -28,14 +28,14 @@
 
 bool Event::operator<(const Event& e) const
 {
-    return timestamp > e.timestamp;
+    return timestamp + delay > e.timestamp + e.delay;
 }
 
 Event::Event(Jzon::Object rootNode, std::chrono::system_clock::time_point timestamp, int delay) 
 {
     inputRootNode = new Jzon::Object(rootNode);
     this->timestamp = timestamp;
-    this->delay = std::chrono::milliseconds(delay);
+    this->delay = std::chrono::milliseconds(delay > 0 ? delay : 0);
 }
 
 Event::~Event()
-- 
2.43.0


From 65f42aa48f5dc172b36fc5fe5ca878d00d3dc110 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:26 +0000
Subject: [PATCH 22/62] fix: every DASH segment that leaves the MPD window is
 removed from disk, also the one at time 0 and several at once

---
 src/modules/dasher/Dasher.cpp     | 20 ++++++++++++--------
 src/modules/dasher/MpdManager.cpp | 16 +++++++---------
 src/modules/dasher/MpdManager.hh  |  7 ++++---
 3 files changed, 23 insertions(+), 20 deletions(-)

diff --git a/src/modules/dasher/Dasher.cpp b/src/modules/dasher/Dasher.cpp
index f840bed..4090b47 100644
--- a/src/modules/dasher/Dasher.cpp
+++ b/src/modules/dasher/Dasher.cpp
@@ -246,7 +246,7 @@ bool Dasher::writeVideoSegments()
 {
     uint64_t ts;
     unsigned int dur;
-    uint64_t rmTimestamp;
+    std::vector<uint64_t> rmTimestamps;
     bool needEncoderConfig = false;
 
     if (vSegments.empty()) {
@@ -284,12 +284,14 @@ bool Dasher::writeVideoSegments()
         return false;
     }
 
-    rmTimestamp = mpdMngr->updateAdaptationSetTimestamp(V_ADAPT_SET_ID, ts, dur);
+    rmTimestamps = mpdMngr->updateAdaptationSetTimestamp(V_ADAPT_SET_ID, ts, dur);
 
     mpdMngr->writeToDisk(mpdPath.c_str());
 
-    if (rmTimestamp > 0 && !cleanSegments(vSegments, rmTimestamp, V_EXT)) {
-        utils::warningMsg("Error cleaning dash video segments");
+    for (auto rmTimestamp : rmTimestamps) {
+        if (!cleanSegments(vSegments, rmTimestamp, V_EXT)) {
+            utils::warningMsg("Error cleaning dash video segments");
+        }
     }
 
     return true;
@@ -311,7 +313,7 @@ bool Dasher::writeAudioSegments()
 {
     uint64_t ts;
     unsigned int dur;
-    uint64_t rmTimestamp;
+    std::vector<uint64_t> rmTimestamps;
 
     if (aSegments.empty()) {
         return false;
@@ -337,12 +339,14 @@ bool Dasher::writeAudioSegments()
         return false;
     }
 
-    rmTimestamp = mpdMngr->updateAdaptationSetTimestamp(A_ADAPT_SET_ID, ts, dur);
+    rmTimestamps = mpdMngr->updateAdaptationSetTimestamp(A_ADAPT_SET_ID, ts, dur);
 
     mpdMngr->writeToDisk(mpdPath.c_str());
 
-    if (rmTimestamp > 0 && !cleanSegments(aSegments, rmTimestamp, A_EXT)) {
-        utils::warningMsg("Error cleaning dash video segments");
+    for (auto rmTimestamp : rmTimestamps) {
+        if (!cleanSegments(aSegments, rmTimestamp, A_EXT)) {
+            utils::warningMsg("Error cleaning dash video segments");
+        }
     }
 
     return true;
diff --git a/src/modules/dasher/MpdManager.cpp b/src/modules/dasher/MpdManager.cpp
index 64eb531..8fd70e3 100644
--- a/src/modules/dasher/MpdManager.cpp
+++ b/src/modules/dasher/MpdManager.cpp
@@ -113,19 +113,17 @@ void MpdManager::writeToDisk(const char* fileName)
     doc.SaveFile(fileName);
 }
 
-uint64_t MpdManager::updateAdaptationSetTimestamp(std::string id, uint64_t ts, unsigned int duration)
+std::vector<uint64_t> MpdManager::updateAdaptationSetTimestamp(std::string id, uint64_t ts, unsigned int duration)
 {
     AdaptationSet* adSet;
-    uint64_t removedTimestamp;
 
     adSet = getAdaptationSet(id);
 
     if (!adSet) {
-        return 0;
+        return std::vector<uint64_t>();
     }
 
-    removedTimestamp = adSet->updateTimestamp(ts, duration, maxSeg);
-    return removedTimestamp;
+    return adSet->updateTimestamp(ts, duration, maxSeg);
 }
 
 bool MpdManager::flushAdaptationSetTimestamps(std::string id)
@@ -238,17 +236,17 @@ AdaptationSet::~AdaptationSet()
 { 
 }
 
-uint64_t AdaptationSet::updateTimestamp(uint64_t ts, unsigned int duration, unsigned int maxSeg)
+std::vector<uint64_t> AdaptationSet::updateTimestamp(uint64_t ts, unsigned int duration, unsigned int maxSeg)
 {
-    uint64_t removedTimestamp= 0;
+    std::vector<uint64_t> removedTimestamps;
 
     while (timestamps.size() >= maxSeg) {
-        removedTimestamp = timestamps.front().first;
+        removedTimestamps.push_back(timestamps.front().first);
         timestamps.pop_front();
     }
 
     timestamps.push_back(std::pair<uint64_t,uint64_t>(ts, duration));
-    return removedTimestamp;
+    return removedTimestamps;
 }
 
 void AdaptationSet::flushTimestamps()
diff --git a/src/modules/dasher/MpdManager.hh b/src/modules/dasher/MpdManager.hh
index 19772cc..38feb0f 100644
--- a/src/modules/dasher/MpdManager.hh
+++ b/src/modules/dasher/MpdManager.hh
@@ -24,6 +24,7 @@
 
 #include <map>
 #include <deque>
+#include <vector>
 #include <tinyxml2.h>
 
 #define MIN_SEGMENT 2
@@ -105,9 +106,9 @@ public:
     * @param id Adaptation set Id. Must exist.
     * @param ts Timestamp of the current segment in timescale base.
     * @param duration Duration of the current segment in timescale base.
-    * @return true if succeeded and false if not
+    * @return Timestamps that left the list of the adaptation set, oldest first
     */
-    uint64_t updateAdaptationSetTimestamp(std::string id, uint64_t ts, unsigned int duration);
+    std::vector<uint64_t> updateAdaptationSetTimestamp(std::string id, uint64_t ts, unsigned int duration);
 
     /**
     * Updates an existing video representation. If it does not exists, it creates a new one. Each representation is
@@ -213,7 +214,7 @@ public:
     * Sets timestamp and duration
     * @see MpdManager::updateAdaptationSetTimestamp 
     */
-    uint64_t updateTimestamp(uint64_t ts, unsigned int duration, unsigned int maxSeg);
+    std::vector<uint64_t> updateTimestamp(uint64_t ts, unsigned int duration, unsigned int maxSeg);
 
     /**
     * Sets timescale, segment template and init template values
-- 
2.43.0


From 428001e407b69b5ed47566234ea3a09756ab6d21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:56 +0000
Subject: [PATCH 23/62] fix: DASH segmenters free their frames and the whole
 segmenter context

---
 src/modules/dasher/DashVideoSegmenterAVC.cpp  |  3 ++-
 src/modules/dasher/DashVideoSegmenterHEVC.cpp |  3 ++-
 src/modules/dasher/Dasher.cpp                 |  2 +-
 src/modules/dasher/i2libdash.c                | 24 +++++++++++++++++++
 src/modules/dasher/i2libdash.h                |  2 ++
 src/modules/dasher/i2libisoff.c               |  2 ++
 6 files changed, 33 insertions(+), 3 deletions(-)

diff --git a/src/modules/dasher/DashVideoSegmenterAVC.cpp b/src/modules/dasher/DashVideoSegmenterAVC.cpp
index 0d5db2f..b753872 100644
--- a/src/modules/dasher/DashVideoSegmenterAVC.cpp
+++ b/src/modules/dasher/DashVideoSegmenterAVC.cpp
@@ -33,7 +33,8 @@ DashVideoSegmenter(segDur, VIDEO_CODEC_AVC, offset)
 
 DashVideoSegmenterAVC::~DashVideoSegmenterAVC()
 {
-
+    delete vFrame;
+    delete tmpFrame;
 }
 
 uint8_t DashVideoSegmenterAVC::generateContext()
diff --git a/src/modules/dasher/DashVideoSegmenterHEVC.cpp b/src/modules/dasher/DashVideoSegmenterHEVC.cpp
index 0374d23..200fa7d 100644
--- a/src/modules/dasher/DashVideoSegmenterHEVC.cpp
+++ b/src/modules/dasher/DashVideoSegmenterHEVC.cpp
@@ -34,7 +34,8 @@ DashVideoSegmenter(segDur, VIDEO_CODEC_HEVC, offset)
 
 DashVideoSegmenterHEVC::~DashVideoSegmenterHEVC()
 {
-
+    delete vFrame;
+    delete tmpFrame;
 }
 
 uint8_t DashVideoSegmenterHEVC::generateContext()
diff --git a/src/modules/dasher/Dasher.cpp b/src/modules/dasher/Dasher.cpp
index 4090b47..25330d6 100644
--- a/src/modules/dasher/Dasher.cpp
+++ b/src/modules/dasher/Dasher.cpp
@@ -641,7 +641,7 @@ sequenceNumber(0), bitrateInBitsPerSec(0), tsOffset(offset)
 DashSegmenter::~DashSegmenter()
 {
     if(dashContext){
-        free(dashContext);
+        destroy_context(&dashContext);
     }
 }
 
diff --git a/src/modules/dasher/i2libdash.c b/src/modules/dasher/i2libdash.c
index 067c7c4..846db51 100644
--- a/src/modules/dasher/i2libdash.c
+++ b/src/modules/dasher/i2libdash.c
@@ -48,6 +48,7 @@ void audio_context_initializer(i2ctx **context) {
     (*context)->ctxaudio = (i2ctx_audio *) malloc(sizeof(i2ctx_audio));
     i2ctx_audio *ctxAudio = (*context)->ctxaudio;
 
+    ctxAudio->aac_data = NULL;
     ctxAudio->aac_data_length = 0;
     ctxAudio->segment_data_size = 0;
     ctxAudio->channels = 0;
@@ -76,6 +77,7 @@ void video_context_initializer(i2ctx **context, uint32_t media_type) {
     (*context)->ctxvideo = (i2ctx_video *) malloc(sizeof(i2ctx_video));
     i2ctx_video *ctxVideo = (*context)->ctxvideo;
 
+    ctxVideo->pps_sps_data = NULL;
     ctxVideo->pps_sps_data_length = 0;
     ctxVideo->segment_data_size = 0;
     ctxVideo->width = 0;
@@ -149,6 +151,28 @@ uint8_t generate_context(i2ctx **context, uint32_t media_type)
     return I2OK;
 }
 
+void destroy_context(i2ctx **context)
+{
+    if ((*context) == NULL) {
+        return;
+    }
+
+    if ((*context)->ctxvideo != NULL) {
+        free((*context)->ctxvideo->pps_sps_data);
+        free((*context)->ctxvideo->ctxsample);
+        free((*context)->ctxvideo);
+    }
+
+    if ((*context)->ctxaudio != NULL) {
+        free((*context)->ctxaudio->aac_data);
+        free((*context)->ctxaudio->ctxsample);
+        free((*context)->ctxaudio);
+    }
+
+    free(*context);
+    *context = NULL;
+}
+
 uint8_t fill_video_context(i2ctx **context, uint32_t width, uint32_t height, uint32_t t_base) 
 {
     if ((*context) == NULL) {
diff --git a/src/modules/dasher/i2libdash.h b/src/modules/dasher/i2libdash.h
index 419e64f..3dfe2d0 100644
--- a/src/modules/dasher/i2libdash.h
+++ b/src/modules/dasher/i2libdash.h
@@ -35,6 +35,8 @@
 
 uint8_t generate_context(i2ctx **context, uint32_t media_type); 
 
+void destroy_context(i2ctx **context);
+
 uint8_t fill_video_context(i2ctx **context, uint32_t width, uint32_t height, uint32_t t_base);
 
 uint8_t fill_audio_context(i2ctx **context, uint32_t channels, uint32_t sample_rate, uint32_t sample_size, uint32_t t_base, uint32_t sample_duration); 
diff --git a/src/modules/dasher/i2libisoff.c b/src/modules/dasher/i2libisoff.c
index 34b9410..18aaf81 100644
--- a/src/modules/dasher/i2libisoff.c
+++ b/src/modules/dasher/i2libisoff.c
@@ -151,6 +151,7 @@ uint32_t initVideoGenerator(byte *source_data, uint32_t size_source_data, byte *
         return I2ERROR_MEDIA_TYPE;
     }
     count = 0;
+    free((*context)->ctxvideo->pps_sps_data);
     (*context)->ctxvideo->pps_sps_data = (byte*) malloc (size_source_data);
     memcpy((*context)->ctxvideo->pps_sps_data, source_data, size_source_data);
     (*context)->ctxvideo->pps_sps_data_length = size_source_data;
@@ -187,6 +188,7 @@ uint32_t initAudioGenerator(byte *source_data, uint32_t size_source_data, byte *
     }
 
     count = 0;
+    free((*context)->ctxaudio->aac_data);
     (*context)->ctxaudio->aac_data = (byte*) malloc(size_source_data);
     memcpy((*context)->ctxaudio->aac_data, source_data, size_source_data);
     (*context)->ctxaudio->aac_data_length = size_source_data;
-- 
2.43.0


From 9064f1c721408f517d5b84ffe8cb86642ef6f10b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:58:13 +0000
Subject: [PATCH 24/62] fix: the dasher frees its segments when destroyed

---
 src/modules/dasher/Dasher.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/modules/dasher/Dasher.cpp b/src/modules/dasher/Dasher.cpp
index 25330d6..f2e8df5 100644
--- a/src/modules/dasher/Dasher.cpp
+++ b/src/modules/dasher/Dasher.cpp
@@ -47,6 +47,15 @@ Dasher::~Dasher()
     for (auto seg : segmenters) {
         delete seg.second;
     }
+    for (auto seg : vSegments) {
+        delete seg.second;
+    }
+    for (auto seg : aSegments) {
+        delete seg.second;
+    }
+    for (auto seg : initSegments) {
+        delete seg.second;
+    }
     delete mpdMngr;
 }
 
-- 
2.43.0


From 237a7fcb938e6076ecbc10082bbe86485f6892c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:58:13 +0000
Subject: [PATCH 25/62] fix: the DASH time offset is set once, also when the
 first frame is at time 0

---
 src/modules/dasher/Dasher.cpp | 5 +++--
 src/modules/dasher/Dasher.hh  | 1 +
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/modules/dasher/Dasher.cpp b/src/modules/dasher/Dasher.cpp
index f2e8df5..4d2d1c4 100644
--- a/src/modules/dasher/Dasher.cpp
+++ b/src/modules/dasher/Dasher.cpp
@@ -36,7 +36,7 @@
 #include <math.h>
 
 Dasher::Dasher(unsigned readersNum) :
-TailFilter(readersNum), mpdMngr(NULL), hasVideo(false), videoStarted(false), timestampOffset(std::chrono::microseconds(0))
+TailFilter(readersNum), mpdMngr(NULL), hasVideo(false), videoStarted(false), timestampOffset(std::chrono::microseconds(0)), offsetSet(false)
 {
     fType = DASHER;
     initializeEventMap();
@@ -110,7 +110,8 @@ bool Dasher::doProcessFrame(std::map<int, Frame*> &orgFrames, std::vector<int> n
             continue;
         }
         
-        if (timestampOffset.count() == 0){
+        if (!offsetSet){
+            offsetSet = true;
             timestampOffset = orgFrames[id]->getFrameTime();
             for(auto seg : segmenters){
                 seg.second->setOffset(timestampOffset);
diff --git a/src/modules/dasher/Dasher.hh b/src/modules/dasher/Dasher.hh
index 3bd7f0f..dc0965b 100644
--- a/src/modules/dasher/Dasher.hh
+++ b/src/modules/dasher/Dasher.hh
@@ -136,6 +136,7 @@ private:
     bool videoStarted;
     
     std::chrono::microseconds timestampOffset;
+    bool offsetSet;
 };
 
 /*! Abstract class implemented by DashVideoSegmenter and DashAudioSegmenter */
-- 
2.43.0


From 8a00279be89bffae3a6cf007bc2a6761f9179699 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:58:13 +0000
Subject: [PATCH 26/62] fix: an init segment that could not be written is
 written again with the next frame

---
 src/modules/dasher/Dasher.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/modules/dasher/Dasher.cpp b/src/modules/dasher/Dasher.cpp
index 4d2d1c4..827bd86 100644
--- a/src/modules/dasher/Dasher.cpp
+++ b/src/modules/dasher/Dasher.cpp
@@ -188,7 +188,7 @@ bool Dasher::generateInitSegment(unsigned int id, DashSegmenter* segmenter)
 
     if ((vSeg = dynamic_cast<DashVideoSegmenter*>(segmenter)) != NULL) {
 
-        if (!vSeg->generateInitSegment(initSegments[id])) {
+        if (!vSeg->generateInitSegment(initSegments[id]) && initSegments[id]->getDataLength() == 0) {
             return true;
         }
 
@@ -196,11 +196,13 @@ bool Dasher::generateInitSegment(unsigned int id, DashSegmenter* segmenter)
             utils::errorMsg("Error writing DASH segment to disk: invalid path");
             return false;
         }
+
+        initSegments[id]->clear();
     }
 
     if ((aSeg = dynamic_cast<DashAudioSegmenter*>(segmenter)) != NULL) {
 
-        if (!aSeg->generateInitSegment(initSegments[id])) {
+        if (!aSeg->generateInitSegment(initSegments[id]) && initSegments[id]->getDataLength() == 0) {
             return true;
         }
 
@@ -208,6 +210,8 @@ bool Dasher::generateInitSegment(unsigned int id, DashSegmenter* segmenter)
             utils::errorMsg("Error writing DASH segment to disk: invalid path");
             return false;
         }
+
+        initSegments[id]->clear();
     }
 
     if (!vSeg && !aSeg) {
-- 
2.43.0


From 6e06af842b69e0ff0500c047f5be1e26628a5d8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:58:14 +0000
Subject: [PATCH 27/62] fix: a DASH segment that was only partly written is not
 published

---
 src/modules/dasher/Dasher.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modules/dasher/Dasher.cpp b/src/modules/dasher/Dasher.cpp
index 827bd86..11cb390 100644
--- a/src/modules/dasher/Dasher.cpp
+++ b/src/modules/dasher/Dasher.cpp
@@ -738,7 +738,7 @@ bool DashSegment::writeToDisk(std::string path)
 
     file.write((char*)data, dataLength);
     file.close();
-    return true;
+    return file.good();
 }
 
 void DashSegment::setTimestamp(uint64_t ts)
-- 
2.43.0


From 74e1c1d8e67c5c734e4efc7fdf8eff4e77d92de5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:58:14 +0000
Subject: [PATCH 28/62] fix: the MPD timeline is emptied when the last stream
 of an adaptation set leaves

---
 src/modules/dasher/Dasher.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/modules/dasher/Dasher.cpp b/src/modules/dasher/Dasher.cpp
index 11cb390..9d5a33a 100644
--- a/src/modules/dasher/Dasher.cpp
+++ b/src/modules/dasher/Dasher.cpp
@@ -595,6 +595,11 @@ bool Dasher::specificReaderDelete(int readerId)
     if (vSegments.empty()) {
         hasVideo = false;
         videoStarted = false;
+        mpdMngr->flushAdaptationSetTimestamps(V_ADAPT_SET_ID);
+    }
+
+    if (aSegments.empty()) {
+        mpdMngr->flushAdaptationSetTimestamps(A_ADAPT_SET_ID);
     }
 
     mpdMngr->writeToDisk(mpdPath.c_str());
-- 
2.43.0


From 496d10ea9da5ceaaea04b395577d18691bb5b118 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:18:47 +0000
Subject: [PATCH 29/62] fix: the audio mixer frees its buffers with the
 matching delete[]

---
 src/modules/audioMixer/AudioMixer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modules/audioMixer/AudioMixer.cpp b/src/modules/audioMixer/AudioMixer.cpp
index c65267f..a727b22 100644
--- a/src/modules/audioMixer/AudioMixer.cpp
+++ b/src/modules/audioMixer/AudioMixer.cpp
@@ -52,7 +52,7 @@ syncTs(std::chrono::microseconds(-1))
 AudioMixer::~AudioMixer() 
 {
     for (int i = 0; i < MAX_CHANNELS; i++) {
-        delete mixBuffers[i];
+        delete[] mixBuffers[i];
     }
 }
 
-- 
2.43.0


From 25c07eea71441745c2150fd6cbc215d1b4c1532d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:18:47 +0000
Subject: [PATCH 30/62] fix: samples mixed before a resync do not stay in the
 mixing buffer

---
 src/modules/audioMixer/AudioMixer.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/modules/audioMixer/AudioMixer.cpp b/src/modules/audioMixer/AudioMixer.cpp
index a727b22..b50d4c0 100644
--- a/src/modules/audioMixer/AudioMixer.cpp
+++ b/src/modules/audioMixer/AudioMixer.cpp
@@ -27,6 +27,7 @@
 #include "../../Utils.hh"
 #include <iostream>
 #include <utility>
+#include <algorithm>
 #include <cmath>
 #include <string.h>
 
@@ -138,6 +139,10 @@ bool AudioMixer::pushToBuffer(int mixChId, AudioFrame* frame)
         rear = 0;
         syncTs = frame->getPresentationTime();
         absolutePosition = front;
+
+        for (int i = 0; i < MAX_CHANNELS; i++) {
+            std::fill(mixBuffers[i], mixBuffers[i] + mixBufferMaxSamples, 0.0f);
+        }
     }
 
     for (int i = 0; i < channels; i++) {
-- 
2.43.0


From 24d938cd7a713b85b5c26bccb7eca145a1a03f14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:18:47 +0000
Subject: [PATCH 31/62] fix: S16P frames are mixed with their own sample size

---
 src/modules/audioMixer/AudioMixer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modules/audioMixer/AudioMixer.cpp b/src/modules/audioMixer/AudioMixer.cpp
index b50d4c0..8a7c4c6 100644
--- a/src/modules/audioMixer/AudioMixer.cpp
+++ b/src/modules/audioMixer/AudioMixer.cpp
@@ -111,8 +111,8 @@ bool AudioMixer::pushToBuffer(int mixChId, AudioFrame* frame)
     unsigned bufferIdx;
     unsigned freeSpaceInMixBuffer;
 
-    bytesPerSample = utils::getBytesPerSampleFromFormat(sampleFormat);
     fmt = frame->getSampleFmt();
+    bytesPerSample = utils::getBytesPerSampleFromFormat(fmt);
     nOfSamples = frame->getSamples();
 
     freeSpaceInMixBuffer = mixBufferMaxSamples - (rear - front);
-- 
2.43.0


From 24b13123327ca03377ce3265e7ae256a10182345 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:18:47 +0000
Subject: [PATCH 32/62] fix: full scale samples are clipped when converted to
 16 bit

---
 src/modules/audioMixer/AudioMixer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modules/audioMixer/AudioMixer.cpp b/src/modules/audioMixer/AudioMixer.cpp
index 8a7c4c6..1cdd428 100644
--- a/src/modules/audioMixer/AudioMixer.cpp
+++ b/src/modules/audioMixer/AudioMixer.cpp
@@ -255,7 +255,7 @@ bool AudioMixer::floatToBytes(unsigned char* dst, float const origin, SampleFmt
 
     switch(fmt) {
         case S16P:
-            value = origin * 32768.0;
+            value = std::max(-32768.0, std::min(32767.0, origin * 32768.0));
             *dst = value & 0xFF; 
             *(dst+1) = (value >> 8) & 0xFF;
             break;
-- 
2.43.0


From 78b16fa8c630970ae49b0ad9b17764a706116a66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:18:47 +0000
Subject: [PATCH 33/62] fix: the master gain is kept between 0 and 1

---
 src/modules/audioMixer/AudioMixer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modules/audioMixer/AudioMixer.cpp b/src/modules/audioMixer/AudioMixer.cpp
index 1cdd428..2a12818 100644
--- a/src/modules/audioMixer/AudioMixer.cpp
+++ b/src/modules/audioMixer/AudioMixer.cpp
@@ -389,7 +389,7 @@ bool AudioMixer::changeMasterVolumeEvent(Jzon::Node* params)
     }
 
     gain = params->Get("gain").ToFloat();
-    masterGain = gain;
+    masterGain = std::max(0.0f, std::min(1.0f, gain));
 
     return true;
 }
-- 
2.43.0


From c3d8854a859279c4e522cfc56aa8f1c2c7696516 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:18:47 +0000
Subject: [PATCH 34/62] fix: the audio mixer keeps exact positions and times
 beyond 2^32 samples

---
 src/modules/audioMixer/AudioMixer.cpp | 8 ++++----
 src/modules/audioMixer/AudioMixer.hh  | 4 ++--
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/modules/audioMixer/AudioMixer.cpp b/src/modules/audioMixer/AudioMixer.cpp
index 2a12818..c1dea8c 100644
--- a/src/modules/audioMixer/AudioMixer.cpp
+++ b/src/modules/audioMixer/AudioMixer.cpp
@@ -107,7 +107,7 @@ bool AudioMixer::pushToBuffer(int mixChId, AudioFrame* frame)
     SampleFmt fmt;
     unsigned nOfSamples;
     int bytesPerSample;
-    unsigned absolutePosition;
+    int64_t absolutePosition;
     unsigned bufferIdx;
     unsigned freeSpaceInMixBuffer;
 
@@ -128,12 +128,12 @@ bool AudioMixer::pushToBuffer(int mixChId, AudioFrame* frame)
 
     absolutePosition = (frame->getPresentationTime() - syncTs).count()*sampleRate/std::micro::den;
 
-    if (absolutePosition < front) {
+    if (absolutePosition >= 0 && (uint64_t)absolutePosition < front) {
         utils::errorMsg("[AudioMixer] Samples from the past ignored");
         return false;
     }
 
-    if (absolutePosition > front + mixBufferMaxSamples - nOfSamples) {
+    if (absolutePosition < 0 || (uint64_t)absolutePosition > front + mixBufferMaxSamples - nOfSamples) {
         utils::errorMsg("[AudioMixer] Received frame exceeds buffer scope. Resyncing!");
         front = 0;
         rear = 0;
@@ -163,7 +163,7 @@ bool AudioMixer::pushToBuffer(int mixChId, AudioFrame* frame)
         }
     }
 
-    if (absolutePosition + nOfSamples > rear) {
+    if ((uint64_t)absolutePosition + nOfSamples > rear) {
         rear = absolutePosition + nOfSamples;
     }
 
diff --git a/src/modules/audioMixer/AudioMixer.hh b/src/modules/audioMixer/AudioMixer.hh
index df43e82..09cc6c9 100644
--- a/src/modules/audioMixer/AudioMixer.hh
+++ b/src/modules/audioMixer/AudioMixer.hh
@@ -145,8 +145,8 @@ private:
     int inputFrameSamples;
     SampleFmt sampleFormat;
     int maxMixingChannels;
-    unsigned front;
-    unsigned rear;
+    uint64_t front;
+    uint64_t rear;
 
     float masterGain;
     float th;  //Dynamic Range Compression algorithm threshold
-- 
2.43.0


From ebac671979d70dbd48d1cc0e42ef38b9ae6ebd62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:03:12 +0000
Subject: [PATCH 35/62] fix: the video mixer paints the front most layer it
 accepts

---
 src/modules/videoMixer/VideoMixer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modules/videoMixer/VideoMixer.cpp b/src/modules/videoMixer/VideoMixer.cpp
index 22a45db..36beaa3 100644
--- a/src/modules/videoMixer/VideoMixer.cpp
+++ b/src/modules/videoMixer/VideoMixer.cpp
@@ -114,7 +114,7 @@ bool VideoMixer::doProcessFrame(std::map<int, Frame*> &orgFrames, Frame *dst, st
 
     layoutImg = cv::Scalar(0, 0, 0);
 
-    for (int lay=0; lay < maxChannels; lay++) {
+    for (int lay=0; lay <= maxChannels; lay++) {
 
         for (auto it : orgFrames) {
 
-- 
2.43.0


From 54617af21118d737d2e4d65816ed113e7d61d4a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:03:12 +0000
Subject: [PATCH 36/62] fix: channels with no pixel inside the layout made the
 video mixer throw

---
 src/modules/videoMixer/VideoMixer.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/modules/videoMixer/VideoMixer.cpp b/src/modules/videoMixer/VideoMixer.cpp
index 36beaa3..56f094b 100644
--- a/src/modules/videoMixer/VideoMixer.cpp
+++ b/src/modules/videoMixer/VideoMixer.cpp
@@ -216,6 +216,11 @@ void VideoMixer::pasteToLayout(int frameID, VideoFrame* vFrame)
     int x = chConfig->getX()*outputWidth;
     int y = chConfig->getY()*outputHeight;
 
+    if (sz.width <= 0 || sz.height <= 0 || x >= outputWidth || y >= outputHeight) {
+        //NOTE: there is no pixel of this channel inside the layout
+        return;
+    }
+
     if (vFrame->getHeight() != sz.height || vFrame->getWidth() != sz.width) {
         cv::Mat resized(sz, img.type());
         cv::resize(img, resized,sz);
-- 
2.43.0


From 16e92ae8e2765ee3a0f92cbcbc7d12f8e7e69d92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:03:12 +0000
Subject: [PATCH 37/62] fix: crops far outside the picture passed the
 splitter's bounds check

---
 src/modules/videoSplitter/VideoSplitter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modules/videoSplitter/VideoSplitter.cpp b/src/modules/videoSplitter/VideoSplitter.cpp
index 808311b..c130ef8 100644
--- a/src/modules/videoSplitter/VideoSplitter.cpp
+++ b/src/modules/videoSplitter/VideoSplitter.cpp
@@ -142,7 +142,7 @@ bool VideoSplitter::doProcessFrame(Frame *org, std::map<int, Frame *> &dstFrames
 		widthROI = cropsConfig[it.first]->getWidth();
 		heightROI = cropsConfig[it.first]->getHeight();
 
-		if((xROI >= 0 || yROI >= 0 || widthROI > 0 || heightROI > 0) && xROI+widthROI <= vFrame->getWidth() && yROI+heightROI <= vFrame->getHeight()){
+		if(xROI >= 0 && yROI >= 0 && widthROI > 0 && heightROI > 0 && widthROI <= vFrame->getWidth() - xROI && heightROI <= vFrame->getHeight() - yROI){
 			vFrameDst = dynamic_cast<VideoFrame*>(it.second);
 			cropsConfig[it.first]->getCrop()->data = vFrameDst->getDataBuf();
 			vFrameDst->setLength(widthROI * heightROI);
-- 
2.43.0


From 0cc1ec7174b8ae946cdb4fba6d6b792b338102e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:03:12 +0000
Subject: [PATCH 38/62] fix: the splitter allocated a picture of the size asked
 for, whatever it was

---
 src/modules/videoSplitter/VideoSplitter.cpp |  7 ++-----
 src/modules/videoSplitter/VideoSplitter.hh  | 16 ----------------
 2 files changed, 2 insertions(+), 21 deletions(-)

diff --git a/src/modules/videoSplitter/VideoSplitter.cpp b/src/modules/videoSplitter/VideoSplitter.cpp
index c130ef8..352d818 100644
--- a/src/modules/videoSplitter/VideoSplitter.cpp
+++ b/src/modules/videoSplitter/VideoSplitter.cpp
@@ -41,9 +41,6 @@ void CropConfig::config(int width, int height, int x, int y, int degree)
     this->x = x;
     this->y = y;
     this->degree = degree;
-    cv::Mat img(height, width, CV_8UC3);
-    img.copyTo(this->crop);
-
 }
 
 ///////////////////////////////////////////////////
@@ -144,10 +141,10 @@ bool VideoSplitter::doProcessFrame(Frame *org, std::map<int, Frame *> &dstFrames
 
 		if(xROI >= 0 && yROI >= 0 && widthROI > 0 && heightROI > 0 && widthROI <= vFrame->getWidth() - xROI && heightROI <= vFrame->getHeight() - yROI){
 			vFrameDst = dynamic_cast<VideoFrame*>(it.second);
-			cropsConfig[it.first]->getCrop()->data = vFrameDst->getDataBuf();
+			cv::Mat crop(heightROI, widthROI, CV_8UC3, vFrameDst->getDataBuf());
 			vFrameDst->setLength(widthROI * heightROI);
     		vFrameDst->setSize(widthROI, heightROI);
-    		orgFrame(cv::Rect(xROI, yROI, widthROI, heightROI)).copyTo(cropsConfig[it.first]->getCropRect(0, 0, widthROI, heightROI));
+    		orgFrame(cv::Rect(xROI, yROI, widthROI, heightROI)).copyTo(crop);
 			it.second->setConsumed(true);
 			it.second->setPresentationTime(org->getPresentationTime());
             it.second->setDecodeTime(org->getDecodeTime());
diff --git a/src/modules/videoSplitter/VideoSplitter.hh b/src/modules/videoSplitter/VideoSplitter.hh
index 69238a0..67a75f7 100644
--- a/src/modules/videoSplitter/VideoSplitter.hh
+++ b/src/modules/videoSplitter/VideoSplitter.hh
@@ -77,28 +77,12 @@ class CropConfig {
 	    */
 	    int getDegree() {return degree;};
 
-	    /**
-	    * Class constructor.
-	    * @return Crop
-	    */
-	    cv::Mat *getCrop() {return &crop;};
-
-	    /**
-	    * Class constructor.
-	    * @param x Upper left corner X position
-	    * @param y Upper left corner Y position
-	    * @param w width Channel
-	    * @param h height Channel 
-	    * @return Crop based on params
-	    */
-	    cv::Mat getCropRect(int x, int y, int w, int h) { return crop(cv::Rect(x,y,w,h)); };
 	private:
 		int width;
 	    int height;
 	    int x;
 	    int y;
 	    int degree;
-	    cv::Mat crop;
 };
 
 /*
-- 
2.43.0


From 4dbc190e5f7b94e47ed6568cce480d42e9ff20c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:03:12 +0000
Subject: [PATCH 39/62] fix: crops larger than the output frame were written
 past its end

---
 src/modules/videoSplitter/VideoSplitter.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/modules/videoSplitter/VideoSplitter.cpp b/src/modules/videoSplitter/VideoSplitter.cpp
index 352d818..1b16fe8 100644
--- a/src/modules/videoSplitter/VideoSplitter.cpp
+++ b/src/modules/videoSplitter/VideoSplitter.cpp
@@ -141,6 +141,13 @@ bool VideoSplitter::doProcessFrame(Frame *org, std::map<int, Frame *> &dstFrames
 
 		if(xROI >= 0 && yROI >= 0 && widthROI > 0 && heightROI > 0 && widthROI <= vFrame->getWidth() - xROI && heightROI <= vFrame->getHeight() - yROI){
 			vFrameDst = dynamic_cast<VideoFrame*>(it.second);
+
+			if((uint64_t)widthROI * heightROI * 3 > vFrameDst->getMaxLength()){
+				utils::warningMsg("[VideoSplitter] Crop does not fit in the output frame (Crop ID: " + std::to_string(it.first) + ")");
+				it.second->setConsumed(false);
+				continue;
+			}
+
 			cv::Mat crop(heightROI, widthROI, CV_8UC3, vFrameDst->getDataBuf());
 			vFrameDst->setLength(widthROI * heightROI);
     		vFrameDst->setSize(widthROI, heightROI);
-- 
2.43.0


From 68593c186f3e66b001d13be94325902976323ff8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:12:06 +0000
Subject: [PATCH 40/62] fix: the pool dropped the first queued task instead of
 the one it took

---
 src/WorkersPool.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/WorkersPool.cpp b/src/WorkersPool.cpp
index a0a069a..78aec47 100644
--- a/src/WorkersPool.cpp
+++ b/src/WorkersPool.cpp
@@ -39,9 +39,9 @@ void TaskQueue::pushBack(Runnable *run){
 }
 
 void TaskQueue::pop(){
-    if (!queue.empty()){
-        sQueue.erase(queue.front());
-        queue.pop_front();
+    if (iter != queue.end()){
+        sQueue.erase(*iter);
+        queue.erase(iter);
         resetIterator();
     }
 }
-- 
2.43.0


From cd7e00ec31ff4f25e2eb9a31ae8e56a128ef8d76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:12:06 +0000
Subject: [PATCH 41/62] fix: removed tasks stayed in the pool's queue and could
 be used after removeTask

---
 src/WorkersPool.cpp | 11 ++++++++++-
 src/WorkersPool.hh  |  2 ++
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/WorkersPool.cpp b/src/WorkersPool.cpp
index 78aec47..1c6fbdd 100644
--- a/src/WorkersPool.cpp
+++ b/src/WorkersPool.cpp
@@ -19,6 +19,7 @@
  *
  */
 
+#include <algorithm>
 #include <chrono>
 
 #include "WorkersPool.hh"
@@ -46,6 +47,12 @@ void TaskQueue::pop(){
     }
 }
 
+void TaskQueue::remove(Runnable *run){
+    queue.erase(std::remove(queue.begin(), queue.end(), run), queue.end());
+    sQueue.erase(run);
+    resetIterator();
+}
+
 void TaskQueue::resetIterator(){
     iter = queue.begin();
 }
@@ -182,11 +189,13 @@ bool WorkersPool::removeTask(const int id)
     if (runnables.count(id) > 0){
         Runnable *runnable = runnables[id];
         runnables.erase(id);
-        guard.unlock();
+        queue.remove(runnable);
         qCheck.notify_one();
         while(runnable->isRunning()){
+            guard.unlock();
             utils::warningMsg("awaiting task to finish " + std::to_string(id));
             std::this_thread::sleep_for(std::chrono::milliseconds(100));
+            guard.lock();
         }
         return true;
     }
diff --git a/src/WorkersPool.hh b/src/WorkersPool.hh
index 62e9019..7c00136 100644
--- a/src/WorkersPool.hh
+++ b/src/WorkersPool.hh
@@ -42,6 +42,8 @@ public:
     
     void pop();
     
+    void remove(Runnable *run);
+    
     void resetIterator();
     
     void clear();
-- 
2.43.0


From d1001e74ba7607f0e8f088e3721ff5adc32a30e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:12:06 +0000
Subject: [PATCH 42/62] fix: a task that waits for its time held back the tasks
 queued behind it

---
 src/WorkersPool.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/WorkersPool.cpp b/src/WorkersPool.cpp
index 1c6fbdd..b2e09eb 100644
--- a/src/WorkersPool.cpp
+++ b/src/WorkersPool.cpp
@@ -94,13 +94,16 @@ WorkersPool::WorkersPool(size_t threads) : run(true)
                 
                 while(true) {
                     std::unique_lock<std::mutex> guard(mtx);
+                    std::chrono::system_clock::time_point wakeUp = std::chrono::system_clock::now() + std::chrono::milliseconds(IDLE);
                     queue.resetIterator();
                     while (run) {
                         job = queue.current();
                         if (!job){
-                            qCheck.wait_for(guard, std::chrono::milliseconds(IDLE));
+                            qCheck.wait_until(guard, wakeUp);
                         } else if (!job->isRunning() && !job->ready()) {
-                            qCheck.wait_until(guard, job->getTime());
+                            wakeUp = std::min(wakeUp, job->getTime());
+                            queue.next();
+                            continue;
                         } else if (!job->isRunning() && job->ready()){
                             queue.pop();
                             break;
@@ -109,6 +112,7 @@ WorkersPool::WorkersPool(size_t threads) : run(true)
                             continue;
                         }
                         queue.resetIterator();
+                        wakeUp = std::chrono::system_clock::now() + std::chrono::milliseconds(IDLE);
                     }
 
                     if(!run){
-- 
2.43.0


From 6926b01465dbd97aa34abe93d75172a6b1b4bd53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:51:47 +0000
Subject: [PATCH 43/62] fix: a string that ends with a backslash swallowed the
 rest of the JSON text

---
 src/Jzon.cpp | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/src/Jzon.cpp b/src/Jzon.cpp
index d6c888a..2266dfc 100644
--- a/src/Jzon.cpp
+++ b/src/Jzon.cpp
@@ -83,21 +83,20 @@ namespace Jzon
 		bool comment = false;
 		int multicomment = 0;
 		bool inString = false;
+		bool escaped = false;
 
 		for (std::string::const_iterator it = json.begin(); it != json.end(); ++it)
 		{
-			char c0 = '\0';
 			char c1 = (*it);
 			char c2 = '\0';
-			if (it != json.begin())
-				c0 = (*(it-1));
 			if (it+1 != json.end())
 				c2 = (*(it+1));
 
-			if (c0 != '\\' && c1 == '"')
+			if (!escaped && c1 == '"')
 			{
 				inString = !inString;
 			}
+			escaped = (inString && !escaped && c1 == '\\');
 
 			if (!inString)
 			{
@@ -1245,19 +1244,19 @@ namespace Jzon
 
 		++cursor;
 
-		char c1 = '\0';
+		bool escaped = false;
 		for (; cursor < json.size(); ++cursor)
 		{
-			char c2 = json.at(cursor);
+			char c = json.at(cursor);
 
-			if (c1 != '\\' && c2 == '"')
+			if (!escaped && c == '"')
 			{
 				break;
 			}
 
-			str += c2;
+			str += c;
 
-			c1 = c2;
+			escaped = (!escaped && c == '\\');
 		}
 
 		data.push(std::make_pair(Value::VT_STRING, str));
@@ -1310,4 +1309,4 @@ namespace Jzon
 	{
 		return ((c >= '0' && c <= '9') || c == '.' || c == '-');
 	}
-}
\ No newline at end of file
+}
\ No newline at end of file
-- 
2.43.0


From a0c58267caeae5d6e15416da85d14f8bca1587bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:51:47 +0000
Subject: [PATCH 44/62] fix: names in JSON objects were written and read
 without their escapes

---
 src/Jzon.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Jzon.cpp b/src/Jzon.cpp
index 2266dfc..26a8258 100644
--- a/src/Jzon.cpp
+++ b/src/Jzon.cpp
@@ -904,7 +904,7 @@ namespace Jzon
 
 			if (it != node.begin())
 				result += "," + fi->GetNewline();
-			result += fi->GetIndentation(level+1) + "\""+name+"\"" + ":" + fi->GetSpacing();
+			result += fi->GetIndentation(level+1) + "\""+Value::EscapeString(name)+"\"" + ":" + fi->GetSpacing();
 			writeNode(value, level+1);
 		}
 
@@ -1176,7 +1176,7 @@ namespace Jzon
 						}
 						else
 						{
-							name = data.front().second;
+							name = Value::UnescapeString(data.front().second);
 							data.pop();
 						}
 					}
-- 
2.43.0


From 4bb7dc0d0edd0673dd48ff65e132f92d55ebd178 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:51:47 +0000
Subject: [PATCH 45/62] fix: a JSON text that failed left tokens behind for the
 next one and leaked its nodes

---
 src/Jzon.cpp | 26 +++++++++++++++++++++++++-
 1 file changed, 25 insertions(+), 1 deletion(-)

diff --git a/src/Jzon.cpp b/src/Jzon.cpp
index 26a8258..1979871 100644
--- a/src/Jzon.cpp
+++ b/src/Jzon.cpp
@@ -957,6 +957,11 @@ namespace Jzon
 	bool Parser::Parse()
 	{
 		cursor = 0;
+		error.clear();
+
+		// What a previous text that failed left behind
+		tokens = std::queue<Token>();
+		data = std::queue<std::pair<Value::ValueType, std::string> >();
 
 		tokenize();
 		bool success = assemble();
@@ -1055,9 +1060,27 @@ namespace Jzon
 			}
 		}
 	}
+	// Nodes not yet added to their parent, freed if they never are
+	struct NodeStack : public std::stack<std::pair<std::string, Node*> >
+	{
+		NodeStack(const Node &root) : root(root)
+		{
+		}
+		~NodeStack()
+		{
+			for (; !empty(); pop())
+			{
+				if (top().second != &root)
+					delete top().second;
+			}
+		}
+
+		const Node &root;
+	};
+
 	bool Parser::assemble()
 	{
-		std::stack<std::pair<std::string, Node*> > nodeStack;
+		NodeStack nodeStack(root);
 
 		std::string name = "";
 
@@ -1156,6 +1179,7 @@ namespace Jzon
 						else
 						{
 							error = "Can only add elements to objects and arrays";
+							delete node;
 							return false;
 						}
 
-- 
2.43.0


From 23703b14dd58845153e490004da3a8220a94f27b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:51:47 +0000
Subject: [PATCH 46/62] fix: JSON texts that end before their objects do were
 accepted

---
 src/Jzon.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/Jzon.cpp b/src/Jzon.cpp
index 1979871..ae1a497 100644
--- a/src/Jzon.cpp
+++ b/src/Jzon.cpp
@@ -1256,6 +1256,12 @@ namespace Jzon
 			}
 		}
 
+		if (!nodeStack.empty() && !nodeStack.top().second->IsValue())
+		{
+			error = "Found beginning of object or array without end";
+			return false;
+		}
+
 		return true;
 	}
 
-- 
2.43.0


From d8b327d2c039d49f463a8ce07afbff8c4f499a7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:13:39 +0000
Subject: [PATCH 47/62] fix: the resampler's pixel formats were uninitialised
 until configured

---
 src/modules/videoResampler/VideoResampler.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/modules/videoResampler/VideoResampler.cpp b/src/modules/videoResampler/VideoResampler.cpp
index e43f949..e1d6353 100644
--- a/src/modules/videoResampler/VideoResampler.cpp
+++ b/src/modules/videoResampler/VideoResampler.cpp
@@ -38,6 +38,9 @@ VideoResampler::VideoResampler() : OneToOneFilter()
 
     outputWidth = 0;
     outputHeight = 0;
+    inPixFmt = P_NONE;
+    outPixFmt = RGB24;
+    libavInPixFmt = AV_PIX_FMT_NONE;
     libavOutPixFmt = getLibavPixFmt(outPixFmt);
 
     needsConfig = false;
-- 
2.43.0


From 0574f6957ec902ccc145c08cc7ee793f1284bcd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:13:39 +0000
Subject: [PATCH 48/62] fix: the resampler leaked a conversion context with
 every reconfiguration

---
 src/modules/videoResampler/VideoResampler.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/modules/videoResampler/VideoResampler.cpp b/src/modules/videoResampler/VideoResampler.cpp
index e1d6353..799ee1e 100644
--- a/src/modules/videoResampler/VideoResampler.cpp
+++ b/src/modules/videoResampler/VideoResampler.cpp
@@ -93,6 +93,7 @@ bool VideoResampler::reconfigure(VideoFrame* orgFrame)
             outHeight = outputHeight;
         }
         
+        sws_freeContext(imgConvertCtx);
         imgConvertCtx = sws_getContext(orgFrame->getWidth(), orgFrame->getHeight(), 
                                        libavInPixFmt, outWidth, outHeight,
                                        libavOutPixFmt, SWS_FAST_BILINEAR, 0, 0, 0);
-- 
2.43.0


From 258df7307e72b47ff8b6dac8e59c19b4290f1912 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:13:39 +0000
Subject: [PATCH 49/62] fix: a resampler setting that is refused changed it,
 negative sizes passed and YUVJ420P did not

---
 src/modules/videoResampler/VideoResampler.cpp | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/modules/videoResampler/VideoResampler.cpp b/src/modules/videoResampler/VideoResampler.cpp
index 799ee1e..6520c5e 100644
--- a/src/modules/videoResampler/VideoResampler.cpp
+++ b/src/modules/videoResampler/VideoResampler.cpp
@@ -164,11 +164,17 @@ bool VideoResampler::doProcessFrame(Frame *org, Frame *dst)
 
 bool VideoResampler::configure0(int width, int height, int fps, PixType pixelFormat) 
 {
+    AVPixelFormat libavPixFmt = getLibavPixFmt(pixelFormat);
+
+    if (width < 0 || height < 0 || libavPixFmt == AV_PIX_FMT_NONE) {
+        return false;
+    }
+
     outputWidth = width;
     outputHeight = height;
     outPixFmt = pixelFormat;
     
-    libavOutPixFmt = getLibavPixFmt(outPixFmt);
+    libavOutPixFmt = libavPixFmt;
     needsConfig = true;
     
     if (fps <= 0) {
@@ -177,10 +183,6 @@ bool VideoResampler::configure0(int width, int height, int fps, PixType pixelFor
         setFrameTime(std::chrono::microseconds(std::micro::den/fps));
     }
     
-    if (libavOutPixFmt == AV_PIX_FMT_NONE){
-        return false;
-    }
-    
     return true;
 }
 
@@ -216,7 +218,7 @@ bool VideoResampler::configEvent(Jzon::Node* params)
     
     if (params->Has("pixelFormat")){
         int pixel = params->Get("pixelFormat").ToInt();
-        if ((pixel < P_NONE) || (pixel > YUYV422)) {
+        if ((pixel < P_NONE) || (pixel > YUVJ420P)) {
             return false;
         }
         pixelType = static_cast<PixType> (pixel);
-- 
2.43.0


From b893d6a9e0adcc3ad24519222f7313b903f378dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:13:39 +0000
Subject: [PATCH 50/62] fix: resampled images larger than the output frame were
 written past its end

---
 src/modules/videoResampler/VideoResampler.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/modules/videoResampler/VideoResampler.cpp b/src/modules/videoResampler/VideoResampler.cpp
index 6520c5e..adc3997 100644
--- a/src/modules/videoResampler/VideoResampler.cpp
+++ b/src/modules/videoResampler/VideoResampler.cpp
@@ -112,6 +112,7 @@ bool VideoResampler::doProcessFrame(Frame *org, Frame *dst)
 {
     int outWidth, outHeight;
     int height;
+    int outLength;
 
     VideoFrame* dstFrame = dynamic_cast<VideoFrame*>(dst);
     VideoFrame* orgFrame = dynamic_cast<VideoFrame*>(org);
@@ -136,7 +137,13 @@ bool VideoResampler::doProcessFrame(Frame *org, Frame *dst)
         outHeight = outputHeight;
     }
     
-    dstFrame->setLength(av_image_get_buffer_size(libavOutPixFmt, outWidth, outHeight, 1));
+    outLength = av_image_get_buffer_size(libavOutPixFmt, outWidth, outHeight, 1);
+    if (outLength <= 0 || (unsigned) outLength > dstFrame->getMaxLength()) {
+        utils::errorMsg("The resampled image does not fit in the output frame");
+        return false;
+    }
+
+    dstFrame->setLength(outLength);
     dstFrame->setSize(outWidth, outHeight);
     dstFrame->setPixelFormat(outPixFmt);
 
-- 
2.43.0


From efe62ea9ba8aa4f5e7bd577184f54a7c3846be50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:39:26 +0000
Subject: [PATCH 51/62] fix: a shared memory filter that could not be created
 was leaked, and so was its segment

---
 src/modules/sharedMemory/SharedMemory.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/modules/sharedMemory/SharedMemory.cpp b/src/modules/sharedMemory/SharedMemory.cpp
index c04eb39..70a7259 100644
--- a/src/modules/sharedMemory/SharedMemory.cpp
+++ b/src/modules/sharedMemory/SharedMemory.cpp
@@ -33,6 +33,7 @@ SharedMemory* SharedMemory::createNew(size_t key_, VCodecType codec)
     if(shm->isEnabled()){
         return shm;
     }
+    delete shm;
     return NULL;
 }
 
@@ -48,11 +49,12 @@ SharedMemory* SharedMemory::createNew(VCodecType codec)
     if(shm->isEnabled()){
         return shm;
     }
+    delete shm;
     return NULL;
 }
 
 SharedMemory::SharedMemory(size_t key_, VCodecType codec_):
-    OneToOneFilter(), enabled(true), newFrame(false), codec(codec_)
+    OneToOneFilter(), sharedMemoryId(-1), SharedMemoryOrigin(NULL), enabled(true), newFrame(false), codec(codec_)
 {
 
     if(!(codec == RAW || codec == H264)){
@@ -63,7 +65,7 @@ SharedMemory::SharedMemory(size_t key_, VCodecType codec_):
         return;
     }
 
-    if ((sharedMemoryId = shmget(key_, SHMSIZE, (IPC_EXCL | IPC_CREAT ) | 0666)) == (size_t)-1) {
+    if ((sharedMemoryId = shmget(key_, SHMSIZE, (IPC_EXCL | IPC_CREAT ) | 0666)) == (unsigned)-1) {
         utils::errorMsg("SharedMemory::shmget error - filter not created - "
                 "might be already created (Key:" + std::to_string(key_) +
                 " Codec: " + utils::getVideoCodecAsString(codec_) + ")");
@@ -73,6 +75,7 @@ SharedMemory::SharedMemory(size_t key_, VCodecType codec_):
 
     if ((SharedMemoryOrigin = (uint8_t*) shmat(sharedMemoryId, NULL, 0)) == (uint8_t *) -1) {
         utils::errorMsg("SharedMemory::shmat error - filter not created");
+        SharedMemoryOrigin = NULL;
         enabled = false;
         return;
     }
@@ -102,10 +105,10 @@ SharedMemory::SharedMemory(size_t key_, VCodecType codec_):
 
 SharedMemory::~SharedMemory()
 {
-    if(shmctl (sharedMemoryId , IPC_RMID , 0) != 0){
+    if(sharedMemoryId != (unsigned)-1 && shmctl (sharedMemoryId , IPC_RMID , 0) != 0){
         utils::errorMsg("SharedMemory::shmctl error - Could not set IPC_RMID flag to shared memory segment ID");
     }
-    if(shmdt(SharedMemoryOrigin) != 0){
+    if(SharedMemoryOrigin && shmdt(SharedMemoryOrigin) != 0){
         utils::errorMsg("SharedMemory::shmdt error - Could not detach memory segment");
     }
 }
-- 
2.43.0


From aa4f5f3819870a6dad6798ac202398959bb203d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:39:26 +0000
Subject: [PATCH 52/62] fix: pictures larger than the shared memory segment
 were written past its end

---
 src/modules/sharedMemory/SharedMemory.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/modules/sharedMemory/SharedMemory.cpp b/src/modules/sharedMemory/SharedMemory.cpp
index 70a7259..ed9bf2f 100644
--- a/src/modules/sharedMemory/SharedMemory.cpp
+++ b/src/modules/sharedMemory/SharedMemory.cpp
@@ -140,6 +140,10 @@ bool SharedMemory::doProcessFrame(Frame *org, Frame *dst)
             parseNal(vframe, newFrame);
             break;
         case RAW:
+            if (vframe->getLength() > SHMSIZE - HEADER_SIZE) {
+                utils::errorMsg("SharedMemory::error - frame does not fit in the shared memory segment");
+                break;
+            }
             writeFramePayload(vframe);
             writeSharedMemoryRAW(vframe->getDataBuf(), vframe->getLength());
             break;
@@ -201,6 +205,11 @@ void SharedMemory::writeSharedMemoryH264()
         return;
     }
 
+    if (dataLength > SHMSIZE - HEADER_SIZE) {
+        utils::errorMsg("SharedMemory::error - frame does not fit in the shared memory segment");
+        return;
+    }
+
     *access = CHAR_WRITING;
     memcpy(access+20, &length, sizeof(uint32_t));
     memcpy(buffer, data, sizeof(uint8_t) * dataLength);
-- 
2.43.0


From 0476e8e70e00896ae395e74b91284baf96ce9c69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:39:26 +0000
Subject: [PATCH 53/62] fix: a NAL unit shorter than its start code made the
 shared memory filter throw

---
 src/modules/sharedMemory/SharedMemory.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modules/sharedMemory/SharedMemory.cpp b/src/modules/sharedMemory/SharedMemory.cpp
index ed9bf2f..4ed1a3b 100644
--- a/src/modules/sharedMemory/SharedMemory.cpp
+++ b/src/modules/sharedMemory/SharedMemory.cpp
@@ -233,7 +233,7 @@ bool SharedMemory::parseNal(VideoFrame* nal, bool &newFrame)
     nalData = nal->getDataBuf();
     nalDataLength = nal->getLength();
 
-    if (!nalData || nalDataLength <= 0) {
+    if (!nalData || nalDataLength <= startCodeOffset) {
         utils::errorMsg("Error parsing NAL: invalid data pointer or length");
         return false;
     }
-- 
2.43.0


From d80820ee5025a4270baeabd5c570f705f67f73cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:39:26 +0000
Subject: [PATCH 54/62] fix: coded pictures were shared with the time and
 number of the picture that follows

---
 src/modules/sharedMemory/SharedMemory.cpp | 30 ++++++++++++++---------
 src/modules/sharedMemory/SharedMemory.hh  |  3 ++-
 2 files changed, 20 insertions(+), 13 deletions(-)

diff --git a/src/modules/sharedMemory/SharedMemory.cpp b/src/modules/sharedMemory/SharedMemory.cpp
index 4ed1a3b..4e835ad 100644
--- a/src/modules/sharedMemory/SharedMemory.cpp
+++ b/src/modules/sharedMemory/SharedMemory.cpp
@@ -124,6 +124,9 @@ bool SharedMemory::doProcessFrame(Frame *org, Frame *dst)
                 seqNum = vframe->getSequenceNumber();
                 frameData.clear();
             }
+            if (frameData.empty()) {
+                writeFramePayload(vframe, frameHeader);
+            }
             parseNal(vframe, newFrame);
         }
         return true;
@@ -132,11 +135,13 @@ bool SharedMemory::doProcessFrame(Frame *org, Frame *dst)
     switch(vframe->getCodec()){
         case H264:
             if(vframe->getSequenceNumber() != seqNum && newFrame){
-                writeFramePayload(vframe);
                 writeSharedMemoryH264();
                 seqNum = vframe->getSequenceNumber();
                 frameData.clear();
             }
+            if (frameData.empty()) {
+                writeFramePayload(vframe, frameHeader);
+            }
             parseNal(vframe, newFrame);
             break;
         case RAW:
@@ -144,7 +149,7 @@ bool SharedMemory::doProcessFrame(Frame *org, Frame *dst)
                 utils::errorMsg("SharedMemory::error - frame does not fit in the shared memory segment");
                 break;
             }
-            writeFramePayload(vframe);
+            writeFramePayload(vframe, access);
             writeSharedMemoryRAW(vframe->getDataBuf(), vframe->getLength());
             break;
         default:
@@ -196,7 +201,7 @@ void SharedMemory::writeSharedMemoryH264()
     uint8_t* data;
     unsigned dataLength;
     uint32_t length;
-    data = reinterpret_cast<uint8_t*> (&frameData[0]);
+    data = frameData.empty() ? NULL : reinterpret_cast<uint8_t*> (&frameData[0]);
     dataLength = frameData.size();
     length = dataLength;
 
@@ -211,6 +216,7 @@ void SharedMemory::writeSharedMemoryH264()
     }
 
     *access = CHAR_WRITING;
+    memcpy(access+2, frameHeader+2, HEADER_SIZE-2);
     memcpy(access+20, &length, sizeof(uint32_t));
     memcpy(buffer, data, sizeof(uint8_t) * dataLength);
     *access = CHAR_READING;
@@ -308,7 +314,7 @@ int SharedMemory::writeSharedMemoryRAW(uint8_t *buf, int buf_size)
     return 0;
 }
 
-void SharedMemory::writeFramePayload(InterleavedVideoFrame *frame) 
+void SharedMemory::writeFramePayload(InterleavedVideoFrame *frame, uint8_t *header)
 {
     uint32_t tv_sec = frame->getPresentationTime().count()/std::micro::den;
     uint32_t tv_usec = frame->getPresentationTime().count()%std::micro::den;
@@ -319,14 +325,14 @@ void SharedMemory::writeFramePayload(InterleavedVideoFrame *frame)
     uint16_t pixFmt = getPixelFormatFromPixType(frame->getPixelFormat());
     uint16_t seqN = frame->getSequenceNumber();
 
-    memcpy(access+2, &seqN, sizeof(uint16_t));
-    memcpy(access+4, &pixFmt, sizeof(uint16_t));
-    memcpy(access+6, &codec, sizeof(uint16_t));
-    memcpy(access+8, &height, sizeof(uint16_t));
-    memcpy(access+10, &width, sizeof(uint16_t));
-    memcpy(access+12, &tv_sec, sizeof(uint32_t));
-    memcpy(access+16, &tv_usec, sizeof(uint32_t));
-    memcpy(access+20, &length, sizeof(uint32_t));
+    memcpy(header+2, &seqN, sizeof(uint16_t));
+    memcpy(header+4, &pixFmt, sizeof(uint16_t));
+    memcpy(header+6, &codec, sizeof(uint16_t));
+    memcpy(header+8, &height, sizeof(uint16_t));
+    memcpy(header+10, &width, sizeof(uint16_t));
+    memcpy(header+12, &tv_sec, sizeof(uint32_t));
+    memcpy(header+16, &tv_usec, sizeof(uint32_t));
+    memcpy(header+20, &length, sizeof(uint32_t));
 }
 
 bool SharedMemory::isWritable() {
diff --git a/src/modules/sharedMemory/SharedMemory.hh b/src/modules/sharedMemory/SharedMemory.hh
index cc6d783..8159fc1 100644
--- a/src/modules/sharedMemory/SharedMemory.hh
+++ b/src/modules/sharedMemory/SharedMemory.hh
@@ -95,7 +95,7 @@ protected:
     bool parseNal(VideoFrame* nal, bool &newFrame);
     int detectStartCode(unsigned char const* ptr);
     int writeSharedMemoryRAW(uint8_t *buffer, int buffer_size);
-    void writeFramePayload(InterleavedVideoFrame *frame);
+    void writeFramePayload(InterleavedVideoFrame *frame, uint8_t *header);
     bool isWritable();
     uint16_t getSeqNum() { return seqNum;};
     void setSeqNum(uint16_t seqNum_) { seqNum = seqNum_;};
@@ -137,6 +137,7 @@ private:
     bool        enabled;
     bool        newFrame;
     std::vector<unsigned char>    frameData;
+    uint8_t     frameHeader[HEADER_SIZE]; //header of the picture in frameData
     VCodecType const              codec;
     uint16_t                      seqNum;
 };
-- 
2.43.0


From d71e7e5204c8bd6258675f5817849a4df6d7dc3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:51:34 +0000
Subject: [PATCH 55/62] fix: negative encoder settings were accepted as huge
 ones

---
 src/modules/videoEncoder/VideoEncoderX264or5.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/modules/videoEncoder/VideoEncoderX264or5.cpp b/src/modules/videoEncoder/VideoEncoderX264or5.cpp
index 67985a4..a96491a 100644
--- a/src/modules/videoEncoder/VideoEncoderX264or5.cpp
+++ b/src/modules/videoEncoder/VideoEncoderX264or5.cpp
@@ -131,7 +131,7 @@ bool VideoEncoderX264or5::configure0(unsigned bitrate_, unsigned fps_, unsigned
                                      unsigned lookahead_, int bFrames_, unsigned threads_, 
                                      bool annexB_, std::string preset_, unsigned gopTime_)
 {
-    if (bitrate_ <= 0 || gop_ <= 0 || lookahead_ < 0 || threads_ <= 0 || preset_.empty()) {
+    if ((int) bitrate_ <= 0 || (int) gop_ <= 0 || (int) lookahead_ < 0 || (int) threads_ <= 0 || preset_.empty()) {
         utils::errorMsg("Error configuring VideoEncoderX264or5: invalid configuration values");
         return false;
     }
@@ -145,7 +145,7 @@ bool VideoEncoderX264or5::configure0(unsigned bitrate_, unsigned fps_, unsigned
     outputStreamInfo->video.h264or5.annexb = annexB_;
     preset = preset_;
 
-    if (fps_ <= 0) {
+    if ((int) fps_ <= 0) {
         fps = VIDEO_DEFAULT_FRAMERATE;
         setFrameTime(std::chrono::microseconds(0));
     } else {
@@ -153,7 +153,7 @@ bool VideoEncoderX264or5::configure0(unsigned bitrate_, unsigned fps_, unsigned
         setFrameTime(std::chrono::microseconds(std::micro::den/fps));
     }
     
-    if (gopTime_ > 0){
+    if ((int) gopTime_ > 0){
         if (gopTime_ < MIN_GOP_TIME){
             gopTime = MIN_GOP_TIME;
         } else {
-- 
2.43.0


From 373c21484260263d11541148d1519dd77e3cb162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:51:34 +0000
Subject: [PATCH 56/62] fix: a GOP reference event without a valid time made
 the encoder throw

---
 src/modules/videoEncoder/VideoEncoderX264or5.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/modules/videoEncoder/VideoEncoderX264or5.cpp b/src/modules/videoEncoder/VideoEncoderX264or5.cpp
index a96491a..145132b 100644
--- a/src/modules/videoEncoder/VideoEncoderX264or5.cpp
+++ b/src/modules/videoEncoder/VideoEncoderX264or5.cpp
@@ -241,8 +241,11 @@ bool VideoEncoderX264or5::forceIntraEvent(Jzon::Node*)
 
 bool VideoEncoderX264or5::setGopReferenceTimeEvent(Jzon::Node* params)
 {
-    if (params->Has("referenceTime") && params->Get("referenceTime").IsString()) {
+    if (params && params->Has("referenceTime") && params->Get("referenceTime").IsString()) {
         std::string refTime_str = params->Get("referenceTime").ToString();
+        if (refTime_str.empty() || refTime_str.size() > 18 || refTime_str.find_first_not_of("0123456789") != std::string::npos) {
+            return false;
+        }
         refTime = std::chrono::microseconds(std::stoull(refTime_str));
         return true;
     }
-- 
2.43.0


From c8dd98b5d424b745cb2e09ca0f562543e5257cd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:51:34 +0000
Subject: [PATCH 57/62] fix: a picture with too many slices stopped the
 encoder's output for good

---
 src/modules/videoEncoder/VideoEncoderX264.cpp | 1 +
 src/modules/videoEncoder/VideoEncoderX265.cpp | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/modules/videoEncoder/VideoEncoderX264.cpp b/src/modules/videoEncoder/VideoEncoderX264.cpp
index cae7b1b..b937779 100644
--- a/src/modules/videoEncoder/VideoEncoderX264.cpp
+++ b/src/modules/videoEncoder/VideoEncoderX264.cpp
@@ -91,6 +91,7 @@ bool VideoEncoderX264::encodeFrame(VideoFrame* codedFrame)
     outPts = picOut.i_pts;
     dts = picOut.i_dts;
 
+    slicedFrame->clear();
     for (int i = 0; i < piNal; i++) {
 
         if (!slicedFrame->setSlice(nals[i].p_payload, nals[i].i_payload)) {
diff --git a/src/modules/videoEncoder/VideoEncoderX265.cpp b/src/modules/videoEncoder/VideoEncoderX265.cpp
index 6d88508..7995a46 100644
--- a/src/modules/videoEncoder/VideoEncoderX265.cpp
+++ b/src/modules/videoEncoder/VideoEncoderX265.cpp
@@ -96,6 +96,7 @@ bool VideoEncoderX265::encodeFrame(VideoFrame* codedFrame)
     outPts = picOut->pts;
     dts = picOut->dts;
     
+    slicedFrame->clear();
     for (unsigned i = 0; i < piNal; i++) {
         if (!slicedFrame->setSlice(nals[i].payload, nals[i].sizeBytes)) {
             utils::errorMsg("X265 Encoder: too many NALs for one slicedFrame");
-- 
2.43.0


From 4095eaf8d5958a47962ff1fb96ce8d7b7f2d1bd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:51:34 +0000
Subject: [PATCH 58/62] fix: the encoders were never opened for the pixel
 format of their input

---
 src/modules/videoEncoder/VideoEncoderX264.cpp | 6 ++++++
 src/modules/videoEncoder/VideoEncoderX265.cpp | 1 +
 2 files changed, 7 insertions(+)

diff --git a/src/modules/videoEncoder/VideoEncoderX264.cpp b/src/modules/videoEncoder/VideoEncoderX264.cpp
index b937779..a8c7ba7 100644
--- a/src/modules/videoEncoder/VideoEncoderX264.cpp
+++ b/src/modules/videoEncoder/VideoEncoderX264.cpp
@@ -135,6 +135,11 @@ bool VideoEncoderX264::reconfigure(VideoFrame* orgFrame, VideoFrame* dstFrame)
         return true;
     }
 
+    if (encoder != NULL && orgFrame->getPixelFormat() != inPixFmt) {
+        x264_encoder_close(encoder);
+        encoder = NULL;
+    }
+
     inPixFmt = orgFrame->getPixelFormat();
     switch (inPixFmt) {
         case YUV420P:
@@ -160,6 +165,7 @@ bool VideoEncoderX264::reconfigure(VideoFrame* orgFrame, VideoFrame* dstFrame)
     picIn.img.i_csp = colorspace;
     x264_param_default_preset(&xparams, preset.c_str(), NULL);
     x264_param_apply_profile(&xparams, "high");
+    xparams.i_csp = colorspace;
 
     x264_param_parse(&xparams, "keyint", std::to_string(gop).c_str());
     x264_param_parse(&xparams, "fps", std::to_string(fps).c_str());
diff --git a/src/modules/videoEncoder/VideoEncoderX265.cpp b/src/modules/videoEncoder/VideoEncoderX265.cpp
index 7995a46..2776248 100644
--- a/src/modules/videoEncoder/VideoEncoderX265.cpp
+++ b/src/modules/videoEncoder/VideoEncoderX265.cpp
@@ -167,6 +167,7 @@ bool VideoEncoderX265::reconfigure(VideoFrame* orgFrame, VideoFrame* dstFrame)
     x265_param_default_preset(xparams, preset.c_str(), NULL);
     /*TODO check with NULL profile*/
     x265_param_apply_profile(xparams, "main");
+    xparams->internalCsp = colorspace;
 
     x265_param_parse(xparams, "keyint", std::to_string(gop).c_str());
     x265_param_parse(xparams, "fps", std::to_string(fps).c_str());
-- 
2.43.0


From 94edc727500c8fb2c9556321c994cea46faa1a2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:51:34 +0000
Subject: [PATCH 59/62] fix: an encoder that failed to open was not opened
 again

---
 src/modules/videoEncoder/VideoEncoderX264.cpp | 2 +-
 src/modules/videoEncoder/VideoEncoderX265.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/modules/videoEncoder/VideoEncoderX264.cpp b/src/modules/videoEncoder/VideoEncoderX264.cpp
index a8c7ba7..3d8f2e5 100644
--- a/src/modules/videoEncoder/VideoEncoderX264.cpp
+++ b/src/modules/videoEncoder/VideoEncoderX264.cpp
@@ -130,7 +130,7 @@ bool VideoEncoderX264::reconfigure(VideoFrame* orgFrame, VideoFrame* dstFrame)
 {
     int colorspace;
 
-    if (!needsConfig && orgFrame->getWidth() == xparams.i_width &&
+    if (encoder && !needsConfig && orgFrame->getWidth() == xparams.i_width &&
         orgFrame->getHeight() == xparams.i_height && orgFrame->getPixelFormat() == inPixFmt) {
         return true;
     }
diff --git a/src/modules/videoEncoder/VideoEncoderX265.cpp b/src/modules/videoEncoder/VideoEncoderX265.cpp
index 2776248..5d5b670 100644
--- a/src/modules/videoEncoder/VideoEncoderX265.cpp
+++ b/src/modules/videoEncoder/VideoEncoderX265.cpp
@@ -134,7 +134,7 @@ bool VideoEncoderX265::reconfigure(VideoFrame* orgFrame, VideoFrame* dstFrame)
 {
     int colorspace;
 
-    if (!needsConfig && orgFrame->getWidth() == xparams->sourceWidth &&
+    if (encoder && !needsConfig && orgFrame->getWidth() == xparams->sourceWidth &&
         orgFrame->getHeight() == xparams->sourceHeight && orgFrame->getPixelFormat() == inPixFmt) {
         return true;
     }
-- 
2.43.0


From 646136bae7f551541884374cf232aa5e6ed1f2b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:51:34 +0000
Subject: [PATCH 60/62] fix: coded pictures had decode time 0 until the
 encoder's delay was over

---
 src/modules/videoEncoder/VideoEncoderX264or5.cpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/modules/videoEncoder/VideoEncoderX264or5.cpp b/src/modules/videoEncoder/VideoEncoderX264or5.cpp
index 145132b..8e3410e 100644
--- a/src/modules/videoEncoder/VideoEncoderX264or5.cpp
+++ b/src/modules/videoEncoder/VideoEncoderX264or5.cpp
@@ -96,15 +96,24 @@ bool VideoEncoderX264or5::doProcessFrame(Frame *org, Frame *dst)
         return false;
     }
 
+    //The first decode stamps of a reordering encoder refer to pictures before the first one
+    std::chrono::microseconds decodeTime;
+    if (qFTP.count(dts) > 0) {
+        decodeTime = qFTP[dts].pTime;
+    } else {
+        decodeTime = std::max(std::chrono::microseconds(0), qFTP.begin()->second.pTime - 
+            std::chrono::microseconds((qFTP.begin()->first - dts)*std::micro::den/fps));
+    }
+
     codedFrame->setSize(rawFrame->getWidth(), rawFrame->getHeight());
     
     dst->setConsumed(true);
     dst->setPresentationTime(qFTP[outPts].pTime);
-    dst->setDecodeTime(qFTP[dts].pTime);
+    dst->setDecodeTime(decodeTime);
     dst->setOriginTime(qFTP[outPts].oTime);
     dst->setSequenceNumber(qFTP[outPts].seqNum);
     
-    qFTP.erase(dts);
+    qFTP.erase(qFTP.begin(), qFTP.upper_bound(dts));
     
     return true;
 }
-- 
2.43.0


From db2011241fff0c35660ff1b60ee95cd8a48cd94a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:51:34 +0000
Subject: [PATCH 61/62] fix: after a gap in time the encoder forced one key
 frame per missed GOP time

---
 src/modules/videoEncoder/VideoEncoderX264or5.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modules/videoEncoder/VideoEncoderX264or5.cpp b/src/modules/videoEncoder/VideoEncoderX264or5.cpp
index 8e3410e..6960ec7 100644
--- a/src/modules/videoEncoder/VideoEncoderX264or5.cpp
+++ b/src/modules/videoEncoder/VideoEncoderX264or5.cpp
@@ -82,7 +82,7 @@ bool VideoEncoderX264or5::doProcessFrame(Frame *org, Frame *dst)
             
         if (diff.count() <= 0){
             forceIntra = true;
-            refTime += std::chrono::microseconds(gopTime);
+            refTime += std::chrono::microseconds(gopTime) * (1 - diff.count()/(int64_t) gopTime);
         }
     }
     
-- 
2.43.0


From 077bef9b9ec87e94c9b58e4b357f0402e1379ecc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:51:34 +0000
Subject: [PATCH 62/62] fix: the encoders freed neither their stream info nor
 x265's pictures and parameters

---
 src/modules/videoEncoder/VideoEncoderX264or5.cpp | 1 +
 src/modules/videoEncoder/VideoEncoderX265.cpp    | 4 +++-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/modules/videoEncoder/VideoEncoderX264or5.cpp b/src/modules/videoEncoder/VideoEncoderX264or5.cpp
index 6960ec7..c058433 100644
--- a/src/modules/videoEncoder/VideoEncoderX264or5.cpp
+++ b/src/modules/videoEncoder/VideoEncoderX264or5.cpp
@@ -42,6 +42,7 @@ VideoEncoderX264or5::~VideoEncoderX264or5()
     if (midFrame){
         av_frame_free(&midFrame);
     }
+    delete outputStreamInfo;
 }
 
 bool VideoEncoderX264or5::doProcessFrame(Frame *org, Frame *dst)
diff --git a/src/modules/videoEncoder/VideoEncoderX265.cpp b/src/modules/videoEncoder/VideoEncoderX265.cpp
index 5d5b670..5ff6f76 100644
--- a/src/modules/videoEncoder/VideoEncoderX265.cpp
+++ b/src/modules/videoEncoder/VideoEncoderX265.cpp
@@ -44,7 +44,9 @@ VideoEncoderX265::~VideoEncoderX265()
         encoder = NULL;
     }
     //TODO check for x265_cleanup()?
-    //TODO add x265_picture_clean(&x265pic) or x265_picture_free(&x265pic)?
+    x265_picture_free(picIn);
+    x265_picture_free(picOut);
+    x265_param_free(xparams);
 }
 
 bool VideoEncoderX265::fillPicturePlanes(unsigned char** data, int* linesize)
-- 
2.43.0

