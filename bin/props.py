# (id, title, statement, over, quantifier text, why tests can't, files, mechanism[(name, where)])
PROPS = []
NA = []        # (id, reason)
def P(id, title, statement, over, text, why, files, mech): PROPS.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why, anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech])))

P("P01", "Frame queues deliver frames once, in order, within capacity",
  "A frame queue between two filters hands the consumer every committed frame exactly once, in commit order and with the data, timestamps and sequence number it was committed with; it never holds more than its capacity, and the slot handed to the producer is never the one the consumer is reading. A regular write is refused when the queue is full; a forced write then discards queued frames but leaves the rest consistent, and the queue reports its fill level, the discarded frames and the filters to wake correctly throughout.",
  ["histories", "inputs"],
  "Any sequence of producer and consumer operations (regular and forced writes, reads and removals, flushes, level queries), any payload and timestamps, audio and video queues, any capacity from 3 slots up; bounded to the numbers of operations and capacities stated by the check.",
  "The existing queue tests run a few fixed sequences on one capacity; a slot can alias, a frame repeat or vanish only for particular interleavings of forced and regular operations at particular fill levels.",
  ["src/AVFramedQueue.cpp", "src/AVFramedQueue.hh", "src/FrameQueue.hh"],
  [("ring index arithmetic and full/empty rules", "src/AVFramedQueue.cpp getRear/addFrame/getFront/removeFrame"), ("overflow handling", "src/AVFramedQueue.cpp forceGetRear/doFlush")])
P("P03", "Audio ring buffer keeps sample content and time exact",
  "The audio ring buffer returns exactly the samples written, per channel and in order, in blocks of the requested size, with timestamps that advance with the samples consumed; input that does not fit is refused whole, and its free-space and fill reports are exact. Input later than expected by more than the tolerance is preceded by the corresponding amount of silence, input earlier than the tolerance is dropped, a discontinuity of at least the whole buffer empties it and starts a new timeline, and none of this reads or writes outside its memory.",
  ["histories", "inputs"],
  "Any interleaving of writes and reads with any sample values, frame sizes, timestamp jitter and gap sizes, sample formats and rates, and after any length of continuous operation; bounded to the buffer sizes and numbers of steps stated by the check.",
  "The tests write and read a handful of fixed-size frames with exact timestamps; wrap-around positions, gap sizes and long runs are a product the tests cannot enumerate.",
  ["src/AudioCircularBuffer.cpp", "src/AudioCircularBuffer.hh"],
  [("gap measurement and silence insertion", "src/AudioCircularBuffer.cpp addFrame"), ("ring copy with wrap-around", "src/AudioCircularBuffer.cpp pushBack/fillOutputBuffers")])
P("P06", "Frame buffers are always large enough and refuse what does not fit",
  "Every audio or video frame and every raw-video queue slot owns a buffer at least as large as the size it advertises for its format, channels, sample rate and resolution; filling it or setting a size within the advertised limits never reaches outside it. A frame or queue for parameters that cannot be represented is not created.",
  ["inputs", "configurations"],
  "All sample formats, channel counts, sample rates, pixel formats and resolutions the types admit within the bounds stated by the check.",
  "Sizes overflow or fall short only for particular products of rate, channels, format and resolution, which the tests sample at one or two common points.",
  ["src/AudioFrame.cpp", "src/AudioFrame.hh", "src/VideoFrame.cpp", "src/VideoFrame.hh", "src/AVFramedQueue.cpp"],
  [("size computations", "src/AudioFrame.cpp, src/VideoFrame.cpp constructors"), ("queue slot creation", "src/AVFramedQueue.cpp setup")])
P("P05", "Sliced video queue assembles slices into pictures without loss",
  "The sliced-video queue used for externally encoded video turns each committed set of slices into one picture's worth of frames: every slice is delivered once, in order, byte for byte, carrying the picture's times and sequence number; when there is no room, regular input is refused and forced input discards already queued slices, newest first, counting each as lost and leaving the others intact, a slice that does not fit a slot is never written past it, and the number of slices per picture is limited without corrupting the slices already held.",
  ["histories", "inputs"],
  "Any sequence of slice sets, forced and regular commits and reads, any slice contents and sizes including empty and oversized ones, any ring rotation; bounded to the capacities, slice counts and sizes stated by the check.",
  "The existing tests feed one or two well-formed pictures; oversize slices, full rings and wrap-around in the middle of a picture combine in ways they never reach.",
  ["src/SlicedVideoFrameQueue.cpp", "src/SlicedVideoFrameQueue.hh", "src/AVFramedQueue.cpp", "src/VideoFrame.cpp"],
  [("slice to frame copying", "src/SlicedVideoFrameQueue.cpp pushBackSliceGroup"), ("per-picture slice table", "src/VideoFrame.cpp SlicedVideoFrame")])
P("P15", "DASH video segmenters rebuild access units exactly",
  "The AVC and HEVC segmenters turn a stream of NAL units (with or without start codes) into access units: an access unit is delivered exactly when the next one begins, consists of its slices in order, each preceded by its 4-byte length and stripped of its start code, carries its own times and resolution, and is flagged as a key frame exactly when its slices are intra random-access ones. No byte outside a NAL unit is read and no access unit grows past the segmenter's buffer, whatever the bytes.",
  ["inputs", "histories"],
  "All NAL unit types, header bits, payload bytes, lengths and times, in any order the standards allow, for AVC and HEVC; bounded to the sequence lengths stated by the check.",
  "The tests replay two well-formed recordings; truncated units, other unit orders and unusual header bits never occur in them.",
  ["src/modules/dasher/DashVideoSegmenter.cpp", "src/modules/dasher/DashVideoSegmenterAVC.cpp", "src/modules/dasher/DashVideoSegmenterHEVC.cpp"],
  [("NAL classification and access-unit boundaries", "src/modules/dasher/DashVideoSegmenterAVC.cpp, DashVideoSegmenterHEVC.cpp parseNal"), ("access-unit buffer", "src/modules/dasher/DashVideoSegmenter.cpp manageFrame/appendNalToFrame")])
P("P16", "DASH audio segmenter interprets ADTS frames correctly",
  "The audio segmenter accepts exactly the frames with a valid ADTS header, strips that header, derives the AAC configuration (object type, sampling index, channels) of the init segment from it, and takes channel count and sample rate from the stream; frames that are too short or carry no payload are refused without touching memory outside the frame.",
  ["inputs"],
  "All byte contents and lengths of successive frames, sample rates and channel counts within the bounds stated by the check.",
  "The tests use one recording with one header; each header field has to be right for every value and every truncated length must be refused.",
  ["src/modules/dasher/DashAudioSegmenter.cpp", "src/modules/dasher/i2libisoff.c", "src/modules/dasher/i2libdash.c"],
  [("ADTS parsing", "src/modules/dasher/DashAudioSegmenter.cpp generateMetadata/getMetadata*"), ("esds/mp4a boxes", "src/modules/dasher/i2libisoff.c write_mp4a/write_esds")])
P("P17", "DASH segments are well-formed and carry exactly the media data",
  "Every init and media segment the dasher produces is a well-formed ISO base media file fragment: all boxes nest exactly, sizes, counts and offsets agree with the contents, the init segment carries the parameter sets, resolution, sample rate and time scale of the stream, and the media segment's sample table describes exactly the samples appended, whose bytes are all there in order. Data or samples that exceed what a segment can hold are refused and nothing is written outside the segment.",
  ["inputs", "histories"],
  "All parameter-set contents, resolutions, sample contents, sizes, times and key flags, and segments filled up to their limits; bounded to the counts and sizes stated by the check.",
  "The tests compare two fixed recordings against stored files; box offsets and counts must be right for every combination of sizes and counts, including at capacity.",
  ["src/modules/dasher/i2libisoff.c", "src/modules/dasher/i2libdash.c", "src/modules/dasher/DashVideoSegmenter.cpp", "src/modules/dasher/DashAudioSegmenter.cpp", "src/modules/dasher/Dasher.cpp"],
  [("box writers", "src/modules/dasher/i2libisoff.c"), ("sample accounting", "src/modules/dasher/i2libdash.c add_sample functions")])
P("P18", "DASH segments tile the timeline and cut at the right frames",
  "A video segment begins with a key frame and is closed exactly at the first key frame once its duration would reach the segment duration; an audio segment is closed as soon as it holds its duration, or when forced. Segment timestamps, durations, sample durations, composition offsets and sequence numbers are exact in the stream's time base (rounded down, relative to the configured offset), and consecutive segments follow each other without gap or overlap; a flush starts a new segment cleanly.",
  ["histories", "inputs"],
  "Any sequence of frame times, decode times or their absence, key-frame positions, frame durations and offsets, within the bounds stated by the check.",
  "The tests use constant frame rates and one key-frame period; rounding, long frames, missing decode times and large timestamps appear only with other inputs.",
  ["src/modules/dasher/i2libdash.c", "src/modules/dasher/Dasher.cpp", "src/modules/dasher/DashVideoSegmenter.cpp", "src/modules/dasher/DashAudioSegmenter.cpp"],
  [("cut decision and times", "src/modules/dasher/i2libdash.c generate_video_segment/generate_audio_segment"), ("time base conversion", "src/modules/dasher/Dasher.cpp DashSegmenter::microsToTimeBase")])
P("P23", "Protocol names and values map one to one",
  "Every codec, sample format, filter type, role and transmission format has a name in the control protocol that parses back to the same value, only that exact name does, and unknown text is reported as unknown rather than as some value; libav names, pixel formats and payload types map to the documented values, and generated identifiers consist of the requested number of characters of the documented alphabet.",
  ["inputs"],
  "All enumeration values and all texts and random numbers within the bounds stated by the check.",
  "Tests look up a few names; a prefix, suffix, case or value that maps to the wrong thing shows only for that text.",
  ["src/Utils.cpp", "src/Utils.hh", "src/Types.hh"],
  [("name tables", "src/Utils.cpp getXFromString/getXAsString")])

P("P07", "Shared readers hand every frame once to every filter and free it once",
  "When several filters share one stream, each frame is presented as new exactly once to every filter that was sharing when the frame was taken, stays unchanged at the front of the queue until all of them released it or left, and is then removed exactly once, naming its producer so that it can be scheduled again. Filters that join or leave neither see a frame twice nor block or lose the frames of the others. Queue and endpoints report being connected exactly while both sides are, the queue is freed exactly once whatever the order of disconnections, and the average delay and loss figures are those of the frames delivered.",
  ["histories", "inputs"],
  "Any sequence of commits, takes, releases, joins, leaves and disconnections by a producer and up to three sharing filters, any frame times and delays; bounded to the history lengths stated by the check.",
  "The tests use one reader and one writer and a fixed sequence; the bookkeeping depends on who joined, took, released and left in which order while a frame is held.",
  ["src/IOInterface.cpp", "src/IOInterface.hh", "src/FrameQueue.hh"],
  [("per-filter take/release flags", "src/IOInterface.cpp Reader::getFrame/removeFrame/allRead"), ("queue ownership handshake", "src/IOInterface.cpp Reader::disconnectQueue, Writer::disconnect"), ("delay window", "src/IOInterface.cpp Reader::measureDelay")])

P("P08", "Filters process each new frame once and activate exactly the right consumers",
  "A filter calls its processing function exactly when it has work: a regular filter when an input has a frame it has not seen and (unless it is a sink) an output is connected, a server filter at every turn. Every input frame is offered as new once, in order; connected inputs without a new frame repeat their last one marked as not new. Output frames are passed on, and their consumers activated, exactly when they were marked as used; sources and mixing filters number them per output and stamp the origin time, one-to-many filters keep those of the input. Dead inputs and outputs are dropped. With a frame period, late frames are discarded, frames inside the period are processed and the period advances by one step or jumps to the earliest early frame; a synchronised filter lets through only inputs lagging behind the newest by more than the margin or with full queues, and otherwise waits until every input has a frame. A filter without work waits; otherwise it is due again after the delay it asked for, and a periodic filter schedules itself.",
  ["histories", "inputs"],
  "Any sequence of producing, processing and disconnecting, any frame times, periods, delays and outcomes of the processing function, for every filter shape; bounded to the history lengths stated by the check.",
  "The tests run a fixed chain with regular time stamps; which inputs pass depends on the relation of several time stamps and fill levels, and numbering and activation on which outputs were used or have gone.",
  ["src/Filter.cpp", "src/Filter.hh", "src/Runnable.cpp", "src/IOInterface.cpp"],
  [("frame selection", "src/Filter.cpp demandOriginFrames*, framesSync"), ("processing and activation", "src/Filter.cpp regularProcessFrame, serverProcessFrame, addFrames, runDoProcessFrame"), ("next execution time", "src/Runnable.cpp runProcessFrame")])
P("P09", "Control events run once, in order, and never before their delay",
  "An event sent to a filter is executed exactly once with its own action and parameters, at the first time the filter is processed after its delay has passed and never earlier; several events run in the order in which they fall due, and an event that is delayed, unknown or fails does not hold back or swallow the others. Sources and sinks execute their events at once.",
  ["histories", "inputs"],
  "Any arrival times, delays, actions and handler outcomes of several events, processed at any times; bounded to the number of events stated by the check.",
  "No test sends more than one event with a delay; the order depends on the relation between arrival times and delays.",
  ["src/Event.cpp", "src/Event.hh", "src/Filter.cpp"],
  [("ordering and due time", "src/Event.cpp operator<, canBeExecuted"), ("execution loop", "src/Filter.cpp processEvent, pushEvent")])
P("P11", "Connections are made and dismantled consistently",
  "Connecting two filters succeeds exactly when both endpoints are free, within the limits of both filters, and accepted by both; then both sides report the connection and its data, and a refused connection leaves nothing behind. Sharing a connected reader with another filter makes it a consumer of the same stream within that filter's limit. Disconnecting either side is seen by the other, whose dead endpoint is removed when it is next processed and can then be reused. Whatever the order of disconnections and destructions, every queue is freed once and never used afterwards. Generated endpoint identifiers are unused ones and a filter identifier is assigned once.",
  ["histories", "faults"],
  "Any sequence of connections, refusals at each stage, sharings, disconnections, clean-ups and destructions of a small graph of filters; bounded to the history lengths stated by the check.",
  "The tests make each kind of connection once; refused connections, reconnection over dead endpoints and destruction orders do not occur.",
  ["src/Filter.cpp", "src/Filter.hh", "src/IOInterface.cpp", "src/FrameQueue.hh"],
  [("endpoint creation and limits", "src/Filter.cpp connect, setReader, setWriter, shareReader"), ("disconnection", "src/Filter.cpp disconnectReader, disconnectWriter, deleteReader, deleteWriter"), ("connection data", "src/FrameQueue.hh addReaderCData, removeReaderCData")])

P("P19", "The MPD describes exactly what was published",
  "The DASH manifest always describes exactly what was published into it: each stream has its own adaptation set with the right kind, codec, language, time scale, role and segment name templates, and its representations with their own resolution, bandwidth, rate and channels (maxima kept up to date); the segment timeline lists the last maxSeg segments, oldest first, with their exact times and durations, and every segment leaving that window is reported to the caller; the buffer and update times follow from the segment duration and window; the availability start time is set once and does not move; removing representations and sets leaves the others unchanged. The configuration rules (valid folder, duration, window and minimum buffer time) accept and default exactly as documented.",
  ["inputs", "histories"],
  "Any sequence of publishing segments, updating and removing video and audio sets and representations, and reconfiguring the window, with any times, durations, resolutions and rates; bounded to the history lengths stated by the check.",
  "The tests publish one fixed sequence and compare one file; a window off by one, a wrong maximum or an attribute of the wrong stream shows only for particular histories.",
  ["src/modules/dasher/MpdManager.cpp", "src/modules/dasher/MpdManager.hh", "src/modules/dasher/Dasher.cpp"],
  [("timeline window", "src/modules/dasher/MpdManager.cpp updateTimestamp, updateAdaptationSetTimestamp"), ("sets and representations", "src/modules/dasher/MpdManager.cpp updateVideoAdaptationSet, updateVideoRepresentation, removeRepresentation"), ("configuration", "src/modules/dasher/Dasher.cpp configure, configure0")])
P("P20", "At every moment the published DASH manifest refers to complete segments on disk",
  "Whenever the dasher writes, replaces or removes a file, every init and media segment the manifest on disk lists exists and is complete, under the name the manifest's templates give and with the media time it lists; segments that left the window are removed and nothing else is; a file that cannot be created or only partly be written is never listed, is retried or skipped, and later segments are not affected; readers are accepted only with distinct ids and supported codecs; streams can leave and join again and the configuration can change while running; and all segments, frames and buffers are released when the dasher is destroyed.",
  ["histories", "faults", "crash points"],
  "Any frame times and kinds of up to two streams (video, audio, both, or two representations), any moment of leaving, rejoining or reconfiguring, and a failing or short write at any point; a crash is possible between any two file operations, since the condition is checked at each of them. Bounded to the number of pictures stated by the check.",
  "The tests never run the dasher against a disk that fails, nor look at the folder between operations; the order of writing segment, manifest and removal matters only at those moments.",
  ["src/modules/dasher/Dasher.cpp", "src/modules/dasher/Dasher.hh", "src/modules/dasher/MpdManager.cpp", "src/modules/dasher/DashVideoSegmenter.cpp", "src/modules/dasher/DashAudioSegmenter.cpp"],
  [("segment publication", "src/modules/dasher/Dasher.cpp appendFrame, generateSegment, writeVideoSegments, writeAudioSegments"), ("window and removal", "src/modules/dasher/Dasher.cpp cleanup paths, MpdManager.cpp updateAdaptationSetTimestamp"), ("streams joining and leaving", "src/modules/dasher/Dasher.cpp specificReaderConfig, specificReaderDelete")])
P("P12", "The audio mixer sums every input sample at its time, once, at its gain",
  "Each output frame of the audio mixer holds, at every sample, the sum of exactly the input samples of that time, each once, scaled by its channel's gain and the master gain and compressed above the threshold so that the mix stays within full scale; output frames follow each other in time without gaps, carry the exact time of their first sample, and come out exactly when enough is buffered. Frames from before what was already mixed are ignored, frames that do not fit are dropped whole, and a frame beyond the buffer restarts the mix there with nothing left over. Both supported sample formats are converted exactly and clipped, not wrapped. Gains are kept within 0 and 1, and change, mute, solo and master requests affect exactly the channels they name.",
  ["inputs", "histories"],
  "Any order and times of frames on two channels, any sample values and gains, positions beyond 2^32 samples, both sample formats; bounded to the history lengths stated by the check.",
  "The functional test mixes two constant streams; gaps, jumps, late frames, loud peaks and day-long runs depend on particular times and values.",
  ["src/modules/audioMixer/AudioMixer.cpp", "src/modules/audioMixer/AudioMixer.hh"],
  [("placing samples", "src/modules/audioMixer/AudioMixer.cpp pushToBuffer"), ("mixing and compression", "src/modules/audioMixer/AudioMixer.cpp mixSample"), ("output", "src/modules/audioMixer/AudioMixer.cpp extractMixedFrame"), ("gains", "src/modules/audioMixer/AudioMixer.cpp setChannelGain and events")])
P("P13", "The video mixer shows every channel where, how and when configured",
  "Each output picture of the video mixer is the composition of the enabled channels that have a frame: painted from the rear layer to the front one (in order of identifier within a layer), at the configured position and size, scaled if necessary, cut at the edges of the layout, blended by the opacity, on black; channels without visible pixels leave the picture alone. A setting is accepted exactly when it is within the documented ranges, and a refused one changes nothing. The picture carries the time of the latest frame shown, or the mixer's own time when it has a frame period.",
  ["inputs", "configurations", "histories"],
  "All positions, sizes, layers, opacities, frame sizes, pixels and times, present and absent frames, and changes between pictures; bounded to the canvas, numbers of channels and steps stated by the check.",
  "The tests mix three equal frames on one layer and one setting; overlaps, edges, layers and tiny areas combine in ways no sample covers.",
  ["src/modules/videoMixer/VideoMixer.cpp", "src/modules/videoMixer/VideoMixer.hh"],
  [("layer order and composition", "src/modules/videoMixer/VideoMixer.cpp doProcessFrame/pasteToLayout"), ("validation", "src/modules/videoMixer/VideoMixer.cpp configChannel0/configure0/configChannelEvent")])
P("P14", "The video splitter cuts exactly the configured rectangles",
  "For every input picture, each output of the splitter gets a picture exactly when its rectangle is configured, lies inside the input and fits the output frame; that picture consists of exactly the pixels of the rectangle, with its size and with the times and sequence number of the input, and its length covers it. Outputs without a picture are left untouched. A crop request is accepted exactly when it names a known output and a sensible rectangle; a refused one changes nothing, and no request makes the splitter fail or write outside a frame.",
  ["inputs", "configurations", "histories"],
  "All rectangles (any 32-bit values), input and output sizes, pixels, times and event fields, and changes between pictures; bounded to the picture sizes and steps stated by the check.",
  "The tests cut four aligned squares out of one picture; rectangles at and over the edges, overflowing ones and changes at run time are not tried.",
  ["src/modules/videoSplitter/VideoSplitter.cpp", "src/modules/videoSplitter/VideoSplitter.hh"],
  [("bounds check and copy", "src/modules/videoSplitter/VideoSplitter.cpp doProcessFrame"), ("validation", "src/modules/videoSplitter/VideoSplitter.cpp configCrop0/configCropEvent")])
P("P10", "The worker pool runs every due task, once at a time, until removed",
  "Whatever the schedule of its threads, the pool never runs a task in two workers at once nor before it is due; a task that is enabled by another one, by itself or by pending work runs afterwards (no activation is lost), and one that is due does not wait behind one that is not. When removeTask returns, the task is not running and is never touched again; when stop returns, all workers have ended and nothing runs any more; the pool never deadlocks.",
  ["schedules", "histories"],
  "All interleavings of workers and the controlling thread within the stated number of preemptions, and all orders of additions, removals, enablings, delays and running times within the bounds stated by the check.",
  "The unit test adds and removes two tasks on an idle pool; lost activations and use after removal need particular interleavings of several threads.",
  ["src/WorkersPool.cpp", "src/WorkersPool.hh", "src/Runnable.cpp"],
  [("task queue", "src/WorkersPool.cpp TaskQueue"), ("worker loop", "src/WorkersPool.cpp WorkersPool constructor"), ("removal and stop", "src/WorkersPool.cpp removeTask/stop")])
P("P22", "JSON messages mean what they say, and what is written is read back",
  "Every text that is a JSON object (numbers without exponent, no \\\\u escapes) is read with exactly the names, values and structure it spells, including escaped characters and backslashes at the end of strings; a text that ends before its objects do is refused; no text makes the reader fail, touch memory it should not, or leak; and the meaning of a message never depends on the messages before it on the same reader. Every tree that is written, in any format, is read back equal, with names and strings of any characters; copies are equal, and wrong accesses are reported as such.",
  ["inputs", "histories"],
  "All texts up to the stated length in the stated surroundings, followed by another message; all trees up to the stated size; all integers within the stated range.",
  "There are no unit tests of the JSON code; events in the tests hold plain words only.",
  ["src/Jzon.cpp", "src/Jzon.h", "src/Controller.cpp"],
  [("lexing", "src/Jzon.cpp RemoveWhitespace, Parser::tokenize, readString, interpretValue"), ("assembling", "src/Jzon.cpp Parser::assemble"), ("writing", "src/Jzon.cpp Writer::writeObject, writeValue"), ("escapes", "src/Jzon.cpp Value::EscapeString/UnescapeString")])
P("P21", "Another process finds whole pictures, each with its own data, in shared memory",
  "Whenever the flag of a shared segment announces a picture, the segment holds one whole picture (a raw frame, or all NAL units of one coded picture in order with start codes) together with that picture's own number, size, format, time and length; the segment is not written while a picture is announced, however slow its reader, and never beyond its end; pictures that do not fit or come while another one waits are skipped. The filter's output is its input, unchanged. A filter is created exactly when its segment is, and its segment disappears with it; no NAL unit, however malformed, makes it fail.",
  ["inputs", "histories", "schedules", "faults"],
  "All sequences of raw pictures and NAL units (any bytes, times, numbers and sizes) within the stated lengths, with a reader that reads at any point, and every failing system call at creation.",
  "The unit test only connects the filter; the reader is another process, and what it sees depends on when it looks.",
  ["src/modules/sharedMemory/SharedMemory.cpp", "src/modules/sharedMemory/SharedMemory.hh"],
  [("protocol", "src/modules/sharedMemory/SharedMemory.cpp doProcessFrame, isWritable, writeSharedMemoryRAW, writeSharedMemoryH264"), ("picture assembly", "src/modules/sharedMemory/SharedMemory.cpp parseNal, appendNalToFrame"), ("header", "src/modules/sharedMemory/SharedMemory.cpp writeFramePayload")])
P("P25", "The resampler converts each picture to the configured size and format",
  "Each output of the resampler is a conversion of the present input, read with that input's own size and format, to the configured size (0 keeps the input's) and pixel format; it says that size, format and length, and carries the times and sequence number of the input. A picture is converted exactly when its format is known and the result fits the output frame; otherwise the output is left untouched. A setting, direct or by event, is accepted exactly when it is sensible (sizes not negative, a known format), fields that are not given keep their value, and a refused setting changes nothing. Conversion contexts do not pile up.",
  ["inputs", "configurations", "histories"],
  "Every requested size and format, input sizes and formats changing between pictures and settings in any order; bounded to the picture sizes and steps stated by the check.",
  "No test uses the resampler; stale contexts, overflowing outputs and refused settings need particular sequences.",
  ["src/modules/videoResampler/VideoResampler.cpp", "src/modules/videoResampler/VideoResampler.hh"],
  [("conversion", "src/modules/videoResampler/VideoResampler.cpp doProcessFrame, reconfigure, setAVFrame"), ("settings", "src/modules/videoResampler/VideoResampler.cpp configure0, configEvent")])
P("P26", "Coded pictures keep their times, key frames come when asked, settings arrive",
  "Whatever the delay and reordering of the coding library, each coded picture leaves the encoder with the presentation and origin time and number of the picture it codes, exactly its slices, and a decode time that is the time of the picture given at that position, never later than its presentation and never going back. A key frame is forced for exactly the picture after a request and the first one at or after each GOP time. Settings are accepted exactly when sensible, and those accepted reach the coding library, which is opened for the size and format of its input. One picture that fails or has too many slices does not affect the following ones.",
  ["inputs", "histories", "faults", "configurations"],
  "All delays and output orders the coding library may choose, picture times, settings, requests, failures and format changes, within the lengths stated by the check; x264 and x265.",
  "The encoder test does not compile any more; reordering, failures and odd times do not occur in a short run of the ultrafast preset.",
  ["src/modules/videoEncoder/VideoEncoderX264or5.cpp", "src/modules/videoEncoder/VideoEncoderX264.cpp", "src/modules/videoEncoder/VideoEncoderX265.cpp"],
  [("times", "src/modules/videoEncoder/VideoEncoderX264or5.cpp doProcessFrame"), ("encoding", "src/modules/videoEncoder/VideoEncoderX264.cpp, VideoEncoderX265.cpp encodeFrame, reconfigure"), ("settings", "src/modules/videoEncoder/VideoEncoderX264or5.cpp configure0, configEvent, setGopReferenceTimeEvent")])
