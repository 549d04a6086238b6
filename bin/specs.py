COMMON_ASSUMPTIONS = [
    "clang 18 -O1 bitcode of the sources has the semantics of the shipped gcc build (-fwrapv, -fno-strict-aliasing)",
    "red-black tree rebalancing, logging, and the clock are replaced by models; operator new never fails",
    "z3 4.8.12 and the symx interpreter are trusted; sampled paths are re-run natively and compared",
]
Q = ["AVFramedQueue.cpp", "VideoFrame.cpp", "AudioFrame.cpp", "Frame.cpp", "Utils.cpp"]
LOG = ["SYMX_LOGSTR"]
SPECS = {
 "P01": dict(
    bounds="Rings of 3..5 slots and of 250 slots near the wrap point, every rotation, 5 operations after it (3 for 250 slots), audio and video queues, all payload bytes/timestamps symbolic.",
    outside="longer histories from a given fill level and rotation; concurrent execution of the two sides (the operations are run as atomic steps).", units=[dict(h="avq", src=Q, defs=LOG, cases=[0,1,2], reach=["read", "overflow"])]),
}
SPECS["P06"] = dict(bounds="Sample rates 1000..192000, 1..2 channels, every sample format, any number of samples up to 100 ms; video up to 4096x2304, every pixel format; video queues of 2..4 slots for every codec.", outside="more than two channels; larger pictures.", units=[dict(h="frames", src=Q, defs=LOG, cases=[0,1,2], reach=["audio","video","vqueue","refused","audio_deleted"])])
SPECS["P03"] = dict(bounds="Rings of up to 400 samples, 1-2 channels, U8P/S16P/FLTP, all sample bytes symbolic; up to 4 writes/reads with any jitter, one gap of any size (-2^50..2^50 us), history of up to 2^32 rings of samples.", outside="several gaps in one history; rates above 48 kHz; concurrent execution of the two sides.", units=[dict(h="acb", src=["AudioCircularBuffer.cpp"]+Q, defs=LOG, cases=[0,1,2,3,4,5], reach=["pushed","popped","full","past","jitter","flush","padded","nofit","drained","longrun","ok"])])
SPECS["P05"] = dict(bounds="Rings of 3..4 slots (thorough: 5), every rotation, 3 pictures of up to 3/2/2 slices of 0..6 bytes (slots of 4), regular and forced input, reads in between; slice bytes, times and sizes symbolic; up to 18 slices for the per-picture limit.", outside="longer histories; concurrent execution of the two sides.",
  units=[dict(h="sliced", src=["SlicedVideoFrameQueue.cpp"]+Q, defs=LOG, cases=[0,1,2], quick=dict(defs=["NMAX=4"]), reach=["oversize","overflow","picture","read","limit"])])
SPECS["P23"] = dict(bounds="Every enumeration value; every text of 0..16 bytes with all byte values; identifiers of 0..6 characters with any random numbers.", outside="longer texts (longer than every known name).",
  units=[dict(h="names", src=["Utils.cpp"], cases=list(range(11)), reach=["samplefmt","acodec","vcodec","filter","role","tx","table","libav","payload","id"])])
DASH = ["modules/dasher/" + f for f in ("DashAudioSegmenter.cpp", "DashVideoSegmenter.cpp", "DashVideoSegmenterAVC.cpp", "DashVideoSegmenterHEVC.cpp", "Dasher.cpp", "i2libdash.c", "i2libisoff.c")]
STR = ["@rt/streams.cpp"]
IGN = ["-no-pie", "-Wl,--unresolved-symbols=ignore-all"]
SPECS["P15"] = dict(bounds="AVC and HEVC; every sequence of 4 NAL units (thorough: 5) of any type, with or without start codes, any header bits, payload bytes, times and resolutions; any single NAL of 0..6 arbitrary bytes; units of up to three slices of 1.1 MB.", outside="longer NAL sequences; SPS, PPS, VPS or prefix SEI units placed after a slice of the same access unit.",
  units=[dict(h="dash", src=DASH+["Jzon.cpp","VideoFrame.cpp","AudioFrame.cpp","Frame.cpp","Utils.cpp"]+STR, defs=LOG, ld=IGN, cases=[0,1,2,3,4], thorough=dict(defs=["NALS=5"],cases=[2,3,4,20,21,22,23,24,25]), reach=["unit","key","anyslice","noslice","huge"])])
DASHSRC = DASH+["Jzon.cpp","VideoFrame.cpp","AudioFrame.cpp","Frame.cpp","Utils.cpp"]+STR
SPECS["P16"] = dict(bounds="Every pair of frames of 0..9 arbitrary bytes, 3 sample rates, 1..8 channels.", outside="more frames in a row; payloads above 2 bytes.",
  units=[dict(h="dash", src=DASHSRC, defs=LOG, ld=IGN, cases=[7], reach=["adts","ainit","badadts"])])
SPECS["P17"] = dict(bounds="AVC and HEVC parameter sets of 1..4 bytes in both orders, given twice; pictures up to 65535x65535; media segments of up to 3 samples (thorough: 4) with any bytes and times, video with and without reordering, audio at 3 rates; segments filled up to their limit in bytes and in samples.", outside="longer parameter sets; more than 5 samples except for the capacity cases (concrete payload).",
  units=[dict(h="dash", src=DASHSRC, defs=LOG, ld=IGN, cases=[6,8,9,10,11,12,13,14,5], quick=dict(defs=["FRAMES=4"]), reach=["vinit","shortsps","cut","second","acut","forced","vcap","acap"], opts=dict(max_steps=200000000))])
SPECS["P18"] = dict(bounds="4 frames (thorough: 5), any offset up to 1 s, any start; video: one gap of any microsecond value and the others multiples of 625 us up to 1.5 s, key frames anywhere, with and without decode times, a flush in between; audio: any gaps and frame durations at 8, 44.1 and 48 kHz, start up to 2^40 us.", outside="more frames per segment; several gaps that are not multiples of 625 us at once.",
  units=[dict(h="dash", src=DASHSRC, defs=LOG, ld=IGN, cases=[8,9,10,11], quick=dict(defs=["FRAMES=4"]), reach=["cut","second","flush","refused","acut","forced"])])
SPECS["P07"] = dict(bounds="Up to three filters sharing one reader, every history of 5 operations (thorough: 6; commit, take, release, join, leave) on queues of 8 and 3 slots, then draining; every order of 4 disconnections and reads with one or two sharers; delay statistics over 6 frames with any spacing up to 60 ms and delays up to 1 s.", outside="longer histories; two threads inside the reader at once (its operations are serialised by its own lock).",
  units=[dict(h="reader", src=["IOInterface.cpp"]+Q, defs=LOG, cases=[0,1,2,3], quick=dict(defs=["STEPS=5"]), reach=["dropped","new","released","kept","joined","left","freed","window","producer first","consumer first"])])
FIL = ["Filter.cpp", "IOInterface.cpp", "Event.cpp", "Runnable.cpp", "Jzon.cpp"] + Q + STR
SPECS["P08"] = dict(bounds="Filters of every shape (source, sink, one/many inputs and outputs), regular and server, periodic or not; every history of 4-5 steps of producing, processing and disconnecting; frame period and synchronisation over two inputs with any times up to 2^40 us, any period up to 1 s, queues up to 11 frames.", outside="longer histories; more than two inputs or outputs; filters processed by two threads at once.",
  units=[dict(h="filter", src=FIL, defs=LOG, ld=IGN, cases=[0,1,2,3,4,5,6], thorough=dict(defs=["STEPS=6"]), reach=["passed on","through","mixed","repeat","early","in period","late","lagging","together","wait","full"])])
SPECS["P09"] = dict(bounds="Three events (thorough: 4) with any spacing up to 3 s, delays up to 5 s (and none given), known and unknown actions, failing and succeeding handlers, processed at any times; immediate execution in sources and sinks.", outside="more pending events at once; events falling due at exactly the same instant; changes of the system clock.",
  units=[dict(h="filter", src=FIL, defs=LOG, ld=IGN, cases=[9,10], thorough=dict(defs=["EVENTS=4"]), reach=["ran","pending","immediate"])])
SPECS["P11"] = dict(bounds="A source with two outputs, a mixing filter with two inputs and a sink with one: every history of 4 (thorough: 5) connections, refusals at each stage, disconnections, sharings and clean-ups, then destruction in three orders; identifier generation with any random numbers.", outside="longer histories; more filters; connecting while another thread processes.",
  units=[dict(h="filter", src=FIL, defs=LOG, ld=IGN, cases=[7,8], thorough=dict(defs=["GSTEPS=5"]), reach=["connected","refused","shared","cleaned","ids"])])
SPECS["P19"] = dict(bounds="Configuration: every requested window, segment duration (up to 40000) and buffer time; every history of 3 operations (2, thorough 3, when a filled window exists already) on three adaptation sets and two representations with any numbers, windows of 2..4 segments.", outside="longer histories; the XML text itself (the document builder is a model).",
  units=[dict(h="mpd", src=["modules/dasher/MpdManager.cpp"], inc=["@rt/io"], defs=LOG, cases=[0], reach=["kept","clamped"]),
         dict(h="mpd", src=["modules/dasher/MpdManager.cpp"], inc=["@rt/io"], defs=["SYMX_TOKSTR"], cases=[1,2,3], thorough=dict(cases=[1,2,3]+list(range(10,19))), reach=["configured","added","represented","removed","slid","shrunk","written"])])
SPECS["P20"] = dict(bounds="H.264 and H.265 video of one or two aligned representations, AAC audio, and both: every sequence of 6 (thorough: 7) pictures with key frames anywhere, at any distance from 0.23 to 1.9 seconds in steps of 78 ms with jitter (with leaving and reconfiguration: 1 or 1.08 s), windows of 2..3 segments, starting at time 0 or later; any one failing file creation or disk-full write; a stream leaving and another joining; the window reconfigured at any point.", outside="representations cut at different times; a stream whose first frame is earlier than the first frame handled; changing the folder or name while segments are listed; a crash of the file system itself.",
  units=[dict(h="dasher", src=FIL+DASH+["modules/dasher/MpdManager.cpp"], inc=["@rt/io"], defs=["SYMX_TOKSTR=2"], ld=IGN, cases=list(range(10)), quick=dict(defs=["PICS=6"]), reach=["listed","published","cleaned","slid","create failed","disk full","audio too","rejoined","reconfigured","accepted","refused"])])
SPECS["P12"] = dict(bounds="Two channels on a mixing buffer of 10 samples with frames of 2 (1 to 3 on the second channel): every history of 4 (thorough: 5) frames with any times of the second channel from -2 to +3 samples in microseconds and jumps of the first one up to 12 samples, at 1 and 8 kHz, from the start and at 2^32 samples, float and 16 bit; every value of one sample and of the running sum; every 16 bit and float sample in conversion; every gain value; 3 gain requests; one concrete run with the real dimensions (960 samples, 48 kHz).", outside="longer histories; more channels; several arbitrary samples added at once; sample rates that differ between inputs.",
  units=[dict(h="amix", src=["modules/audioMixer/AudioMixer.cpp","AudioCircularBuffer.cpp"]+FIL, defs=LOG, ld=IGN, cases=list(range(13)), quick=dict(defs=["PUSHES=4"]), thorough=dict(defs=["PUSHES=5"]), reach=["mixed","resync","past","output","no room","survive","loud","in range","linear","compressed","gain","solo","refused","real"])])
SPECS["P14"] = dict(bounds="Any crop request (all 32-bit values) on pictures of 1..3 x 1..2 pixels with outputs that are large enough or not; two outputs over 3 frames of three sizes with crops changed and outputs added and removed in between; every combination of present and ill-typed event fields; any frame time.", outside="larger pictures (sizes are not special-cased); pixel formats other than the 3-byte one the splitter assumes.",
  units=[dict(h="vsplit", src=["modules/videoSplitter/VideoSplitter.cpp"]+FIL, defs=LOG, ld=IGN, inc=["@rt/io"], cases=[0,1,2,3,4], reach=["accepted","refused","none","cropped","too large","removed","event","time"])])
SPECS["P13"] = dict(bounds="Canvas of 8x4 pixels, 2 inputs (thorough: 3) in any of 6 areas, any layer, enabled or not, with or without a frame, shown at its own size or scaled, opacity 0, 0.5 and 1; one input at any position and size in steps of 1/16 up to twice the canvas; any float setting; any layout size; 3 periodic pictures with changes in between; event fields.", outside="other canvas sizes in the pixel comparison; interpolation (scaled inputs are of one colour); NaN settings; sizes above twice the canvas.",
  units=[dict(h="vmix", src=["modules/videoMixer/VideoMixer.cpp"]+FIL, defs=LOG, ld=IGN, inc=["@rt/io"], cases=list(range(8)), thorough=dict(defs=["INPUTS=3"]), reach=["painted","scaled","blended","invisible","refused","accepted","created","resized","removed","event"])])
WRAP = ["-Wl,--wrap=" + f for f in "pthread_mutex_lock pthread_mutex_trylock pthread_mutex_unlock pthread_cond_wait pthread_cond_timedwait pthread_cond_clockwait nanosleep usleep sched_yield _ZNSt18condition_variable4waitERSt11unique_lockISt5mutexE _ZNSt18condition_variable10notify_oneEv _ZNSt18condition_variable10notify_allEv _ZNSt6thread15_M_start_threadESt10unique_ptrINS_6_StateESt14default_deleteIS1_EEPFvvE _ZNSt6thread4joinEv _ZNSt6thread6detachEv _ZNSt6thread20hardware_concurrencyEv".split()]
SPECS["P10"] = dict(bounds="Two workers and the controlling thread, two or three tasks, every schedule with up to 2 preemptions (thorough: 3) at the points where threads synchronise, and any choice among runnable threads elsewhere; up to 3 runs per task, tasks that finish at once or take 1 to 5 ms, delays up to 1 s; removal and stop at three moments. With any running times up to 5 ms, any delays up to 15 ms and removal at any time up to 10 ms: no preemption (thorough: 1) beyond the free choices.", outside="more workers or tasks; more preemptions; time that passes while the pool itself computes; memory-model effects weaker than sequential consistency.",
  units=[dict(h="pool", src=["WorkersPool.cpp","Runnable.cpp","Utils.cpp"], defs=LOG, nort=["clock.cpp"], nat_src=["@rt/native_sched.cpp"], ld=IGN+WRAP, cases=list(range(10)), thorough=dict(defs=["SPREEMPT=1"],cases=list(range(17))), reach=["fed","both","chain","gone","due","stopped","registered","joined","any times","gone any time","on time"])])
SPECS["P22"] = dict(bounds="Texts made of up to 4 arbitrary bytes (thorough: 5 in five of them) alone and inside seven surroundings (objects, arrays, names, strings, unclosed ones), followed by a second message on the same reader; trees of up to 3 nodes with names of up to 1 and strings of up to 3 arbitrary bytes; any integer.", outside="longer arbitrary texts; numbers with exponents and \\u escapes, which the reader does not know; comments; files.",
  units=[dict(h="jzon", src=["Jzon.cpp"]+STR, cases=[1,4,5,6,11], thorough_only=True, defs=["K=5"], reach=["valid","cut","bad","next","escaped"]), dict(h="jzon", src=["Jzon.cpp"]+STR, cases=list(range(12)), reach=["valid","cut","bad","next","back","int","typed","escaped"])])
SPECS["P25"] = dict(bounds="Any requested size (all 32-bit values), ten frame rates and every pixel format, on pictures of 2..3 x 1..2 pixels and outputs of 24 bytes; every history of 4 (thorough: 5) eight settings (differing from each other in one of width, height and format, or in all) and pictures of five sizes and formats with outputs of 30 bytes; every combination of present event fields.", outside="the interpolation itself (libswscale is a model that checks sizes, planes and provenance); inputs whose buffer is smaller than their size says; larger pictures (sizes are not special-cased).",
  units=[dict(h="resamp", src=["modules/videoResampler/VideoResampler.cpp"]+FIL, defs=LOG, ld=IGN, inc=["@rt/io"], cases=[0,1,2], quick=dict(defs=["STEPS=4"]), thorough=dict(defs=["STEPS=5"]), reach=["accepted","refused","converted","none","no room","event"])])
SPECS["P21"] = dict(bounds="Creation with every codec and every failing system call; three raw pictures of every format, any times, numbers and sizes, of 0 bytes up to more than the segment; every sequence of 4 (thorough: 5) NAL units (delimiters, slices, parameter sets, unknown types, one unit of 0..5 arbitrary bytes) and of 6 (thorough: 7) delimiters and slices of numbered pictures; coded pictures at and above the size of the segment; after each step the reader has read or not.", outside="a reader that breaks the protocol; pictures that do not start with an access unit delimiter; memory-model effects weaker than sequential consistency.",
  units=[dict(h="shm", src=FIL, defs=LOG, ld=IGN, inc=["@rt/io"], cases=[0,1,2,3,4], quick=dict(defs=["NALS=4"]), thorough=dict(defs=["NALS=5"]), reach=["created","refused","kept","too large","shared","picture","nothing","ignored","fits","over"])])
ENC = ["modules/videoEncoder/VideoEncoderX264or5.cpp", "SlicedVideoFrameQueue.cpp"]+FIL
SPECS["P26"] = dict(bounds="x264 and x265: every history of 5 (thorough: 6) pictures with any times (gaps up to 1 s), reordering delays of 0..2 pictures in any order the library may choose, and up to three of: a failure, a change of size, more than 16 slices, a forced key frame; key frames by time with any times (start up to 9 s, gaps up to 4 s), no or two GOP times, nine reference requests; every value of each setting in turn; every sequence of 3 input formats with failures.", outside="longer histories; several unusual settings at once; the coding libraries themselves (models of their documented behaviour).",
  units=[dict(h="enc", src=["modules/videoEncoder/VideoEncoderX264.cpp"]+ENC, defs=LOG, ld=IGN, inc=["@rt/io"], cases=[0,1,2,3], quick=dict(defs=["PICS=5"]), thorough=dict(defs=["PICS=6"]), reach=["coded","not coded","opened","delayed","too many","reordered","before the first","key","no key","reference","no reference","accepted","refused","event","settings"]),
         dict(h="enc", src=["modules/videoEncoder/VideoEncoderX265.cpp"]+ENC, defs=LOG, ld=IGN, inc=["@rt/io"], cases=[0,1,2,3], quick=dict(defs=["PICS=5","X265"]), thorough=dict(defs=["PICS=6","X265"]), reach=["coded","not coded","opened","delayed","too many","reordered","before the first","key","no key","reference","no reference","accepted","refused","event","settings"])])
