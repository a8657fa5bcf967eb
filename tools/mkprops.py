#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os
L="cloudini_lib/"
def P(id,title,statement,over,text,why,files,mech,state=(),observe=(),hook=None):
    return dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
        mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(observe),hook_needed=hook))
H_CHUNK="Optional define that shrinks points-per-chunk and the V5 probe length, so that many-chunk histories stay cheap; off by default."
props=[
P("C01","Background compression never changes the encoded bytes",
  "For every interleaving of the calling thread with the background compression thread, and for every sequence of encode calls on one encoder or on several encoders used concurrently from different threads, an encoder with background compression enabled returns the same size and exactly the same output bytes as an encoder with the same settings and threading disabled. This holds for clouds of any number of chunks, with and without the header, and whether the caller passes a growable or a preallocated output.",
  ["schedules","inputs","histories","configurations"],"all thread schedules (incl. spurious wake-ups) x encode histories x codec configurations",
  "The tests run one OS-chosen schedule per call and never compare threaded with unthreaded output; a lost hand-off or early read needs a particular interleaving at a chunk boundary.",
  [L+"src/cloudini.cpp",L+"include/cloudini_lib/cloudini.hpp",L+"src/chunk_writer.cpp"],
  [("double buffer hand-off under one mutex and two condition variables",L+"src/cloudini.cpp PointcloudEncoder::encode/compressionWorker/waitForCompressionComplete")],
  [("has_data_to_compress_/compression_done_","hand-off flags between caller and worker",L+"include/cloudini_lib/cloudini.hpp"),("output_view_/compressed_size_","where the worker appends and how much it wrote",L+"include/cloudini_lib/cloudini.hpp")],
  ["PointcloudEncoder::encode (both overloads)"],H_CHUNK),
P("C02","A failed encode is reported and leaves the encoder usable",
  "If compression of any chunk fails during an encode call, or the background thread cannot be started, that call ends with an exception in the caller: it never reports success and never blocks forever. Once faults stop, the next encode call on the same encoder succeeds and produces exactly the bytes a fresh encoder would, and destroying the encoder after any such failure terminates.",
  ["fault_sequences","schedules","histories"],"all positions and sequences of compressor/thread-start failures x schedules x following operations",
  "No test makes the compressor or the thread start fail; the recovery path (re-raising in the caller, respawning the worker) is never executed.",
  [L+"src/cloudini.cpp",L+"src/codec_common.cpp",L+"src/chunk_writer.cpp"],
  [("exception captured in the worker, re-raised by the waiter, worker respawned by the next encode",L+"src/cloudini.cpp compressionWorker/waitForCompressionComplete/encode"),("compressor return codes checked",L+"src/codec_common.cpp CompressChunk")],
  [("worker_failed_/worker_exception_","pending background failure",L+"include/cloudini_lib/cloudini.hpp")],
  ["PointcloudEncoder::encode","PointcloudEncoder::~PointcloudEncoder"],H_CHUNK),
P("C03","No background access to caller memory once encode has ended",
  "Once an encode call has returned or thrown, no thread of the library reads that call's input or touches its output buffer any more, and destroying the encoder at any such point terminates and leaves no thread running. While a call is in progress, the caller's thread and the background thread never access the same memory without synchronisation.",
  ["schedules","fault_sequences","histories"],"all schedules x all points at which a call can end (normally, by a failed chunk, by a failure in the caller's own stage) x destroy or reuse afterwards",
  "The existing tests never end a call early while a chunk is being compressed in the background, and run without a race or lifetime detector.",
  [L+"src/cloudini.cpp",L+"src/v5_codec.cpp"],
  [("encode waits for the outstanding chunk before leaving",L+"src/cloudini.cpp PointcloudEncoder::encode"),("destructor asks the worker to exit and joins it",L+"src/cloudini.cpp ~PointcloudEncoder")],
  [("buffer_/buffer_compressing_","stage-1 buffers swapped between the two threads",L+"include/cloudini_lib/cloudini.hpp")],
  ["caller's output vector/buffer","thread exit"],H_CHUNK),
P("C04","Allocation failure is an exception, never corruption, leak or hang",
  "When memory allocation fails at any point of constructing or using an encoder or decoder, handling a header, converting a message or preprocessing a cloud, the operation either still completes correctly or throws: it never crashes, touches memory it does not own, leaks, or hangs. Afterwards the same objects and buffers process the next cloud correctly.",
  ["fault_sequences","inputs","schedules"],"every allocation of every operation, failing once or from then on",
  "No test injects allocation failures.",
  [L+"src/cloudini.cpp",L+"src/v5_codec.cpp",L+"src/v4_codec.cpp",L+"src/codec_common.cpp",L+"src/ros_msg_utils.cpp",L+"include/cloudini_lib/yaml_parser.hpp"],
  [("RAII containers and unique_ptr everywhere",L+"src"),("scratch buffer and its capacity replaced together",L+"src/cloudini.cpp ensureScratchBuffer")],
  [],["exceptions seen by the caller","live allocations after the operation"],H_CHUNK),
P("C05","Every cloud delivered intact is faithful to the published one",
  "For every cloud and every setting (field layout, encoding mode, compression, wire version 3 to 5, threading), a cloud that is compressed, carried intact and decompressed has the same points in the same order: every integer field and every losslessly encoded float field is bit-exact, every lossy float field differs from the original by at most half its resolution (plus float rounding), and NaN stays NaN. Encoding such a cloud and decoding the result both succeed, whatever other clouds were lost, duplicated, delayed, reordered or damaged around it and whatever the same encoder and decoder processed before.",
  ["inputs","configurations","histories","schedules","fault_sequences"],"streams of clouds x codec settings x mixed wire versions x network fault sequences x schedules",
  "Round-trip tests use a handful of layouts and mostly one message per object; mode switches, chunk and probe boundaries, extreme values, tiny clouds and reused objects are not combined.",
  [L+"src/cloudini.cpp",L+"src/v5_codec.cpp",L+"src/v4_codec.cpp",L+"src/codec_common.cpp",L+"include/cloudini_lib/field_encoder.hpp",L+"include/cloudini_lib/field_decoder.hpp",L+"src/field_encoder.cpp",L+"src/field_decoder.cpp",L+"include/cloudini_lib/encoding_utils.hpp"],
  [("per-chunk reset of all delta/XOR state",L+"src/v4_codec.cpp, "+L+"src/v5_codec.cpp"),("header carries everything the decoder needs",L+"src/cloudini.cpp EncodeHeader/DecodeHeader")],
  [],["PointcloudDecoder::decode output compared with a reference model of the published cloud"],H_CHUNK),
P("C06","The result for a message depends only on that message",
  "Encoding, decoding or converting a message with an object or output buffer that has been used before - for clouds of other sizes, layouts or settings, for damaged messages, or in calls that ended with an exception - gives exactly the same bytes, values or rejection as doing it with fresh objects.",
  ["histories","fault_sequences","inputs"],"all histories of earlier operations, including failed ones, before an operation",
  "Tests construct new objects for nearly every operation and never reuse one after a failure.",
  [L+"src/cloudini.cpp",L+"src/v4_codec.cpp",L+"src/v5_codec.cpp",L+"src/codec_common.cpp",L+"src/ros_msg_utils.cpp","cloudini_ros/src/cloudini_subscriber_plugin.cpp"],
  [("decoders rebuilt per call, codec state reset per chunk, scratch buffers sized per call",L+"src/cloudini.cpp PointcloudDecoder, "+L+"src/codec_common.cpp")],
  [("decompressed_buffer_","scratch kept between calls",L+"include/cloudini_lib/cloudini.hpp")],
  ["result or exception of the reused object vs. a fresh one"],H_CHUNK),
P("C07","Damaged data never causes memory errors or endless work",
  "Whatever happened to the bytes on the way - flipped or overwritten bytes, truncation, splicing of parts of other messages, lost, repeated or swapped chunks, in the header, the payload or the surrounding message - decoding a header, decoding a cloud and converting a message either throw an exception or return normally. They never read outside the bytes they were given, never write outside the destination buffer, never crash, and do an amount of work bounded by the sizes declared and supplied.",
  ["fault_sequences","inputs","histories"],"all fault sequences applied to stored or transported messages, in all wire versions and modes",
  "Tests feed three hand-made malformed inputs; which byte is hit decides whether a bounds check exists on that path.",
  [L+"src/cloudini.cpp",L+"src/v5_codec.cpp",L+"src/v4_codec.cpp",L+"src/codec_common.cpp",L+"include/cloudini_lib/field_decoder.hpp",L+"src/field_decoder.cpp",L+"include/cloudini_lib/encoding_utils.hpp",L+"include/cloudini_lib/contrib/span.hpp",L+"include/cloudini_lib/contrib/nanocdr.hpp",L+"include/cloudini_lib/yaml_parser.hpp"],
  [("per-point, per-section and per-chunk bounds checks",L+"src/v4_codec.cpp, "+L+"src/v5_codec.cpp, "+L+"src/cloudini.cpp"),("Span::trim_front check",L+"include/cloudini_lib/contrib/span.hpp")],
  [],["memory accesses of the decoder on exact-size buffers"],None),
P("C08","Torn, truncated or over-long streams are always rejected",
  "If a non-empty encoded cloud is cut short at any byte (a crash or short write while it was stored or sent), or loses a whole chunk, or gains extra bytes or a repeated chunk at its end, decoding it throws; it never returns a cloud as if the data were complete. This holds for every wire version from 3 on, every encoding mode and every compression option.",
  ["crash_points","fault_sequences","inputs","configurations"],"every byte position at which storing can stop, every chunk that can be lost or repeated",
  "One test drops all chunks of one configuration; no test cuts a stream at arbitrary positions.",
  [L+"src/cloudini.cpp",L+"src/v4_codec.cpp",L+"src/v5_codec.cpp"],
  [("chunk length prefix checked against the remaining bytes, declared points counted down to exactly zero",L+"src/cloudini.cpp PointcloudDecoder::decode"),("header terminator required",L+"src/cloudini.cpp DecodeHeader")],
  [],["PointcloudDecoder::decode / DecodeHeader throwing"],H_CHUNK),
P("C09","Message conversion keeps all metadata, one output per input",
  "Converting a stream of point-cloud messages to compressed messages and back yields, for each input, exactly one well-formed message with the same stamp, frame id, height, width, point step, density flag and field list (names, offsets, types, in order) and a data array of exactly width x height x point step bytes. This holds for empty clouds and any lengths of strings, for output buffers reused across messages of different sizes, and for converters working concurrently; a message that cannot be converted produces an exception and does not disturb the following ones.",
  ["histories","inputs","schedules","fault_sequences"],"streams of messages through reused converter buffers, concurrent converters, interleaved damaged messages",
  "One recorded message is round-tripped by one test.",
  [L+"src/ros_msg_utils.cpp",L+"include/cloudini_lib/contrib/nanocdr.hpp",L+"include/cloudini_lib/ros_msg_utils.hpp","cloudini_ros/src/topic_converter.cpp"],
  [("CDR header writer shared by both directions, size patched after encoding",L+"src/ros_msg_utils.cpp")],
  [],["bytes of the output message parsed by an independent CDR reader"],None),
P("C10","Visualisation preprocessing keeps exactly the first point per voxel",
  "For a stream of clouds preprocessed on any threads, each result contains, unchanged and in the original order, exactly the points whose x, y, z are finite and whose quantised voxel (coordinates within 2^20 voxels of the origin) was not occupied by an earlier point of the same cloud, with width, height, row step and data size matching. Clouds without a geometry triple are left untouched, and nothing from an earlier, failed or concurrent call influences the result; a call that fails for lack of memory leaves a usable cloud object.",
  ["histories","schedules","fault_sequences","inputs"],"streams of clouds x threads x allocation failures between and during calls",
  "No test calls it; its deduplication set outlives a call per thread, so only histories can show leakage.",
  [L+"src/ros_msg_utils.cpp",L+"include/cloudini_lib/contrib/ankerl/unordered_dense.h"],
  [("per-thread hash set cleared per call",L+"src/ros_msg_utils.cpp applyVizLossyPreprocessing")],
  [("seen","per-thread voxel set reused across calls",L+"src/ros_msg_utils.cpp")],["RosPointCloud2 after the call vs. a quadratic reference model"],None),
P("C11","The C interface reports failure as 0 and stays inside its buffers",
  "Whatever bytes are passed in, and whatever calls succeeded or failed before, the exported C decoding and encoding functions return 0 on failure and never let an exception escape; they read only the given input bytes. On success the bytes they return the number of equal what the C++ interface produces for the same input, and nothing is ever written beyond the documented output size (the announced decompressed size for decoding, the input size for encoding). Sizes that 32 bits cannot hold and compressed clouds that contradict the dimensions of their message are failures.",
  ["histories","fault_sequences","inputs"],"call histories over valid, damaged and truncated messages, with allocation failures",
  "The C interface is compiled only for WebAssembly; no test calls it.",
  [L+"src/wasm_functions.cpp",L+"include/cloudini_lib/wasm_functions.h"],
  [("try/catch around every entry point, size checks before copying out",L+"src/wasm_functions.cpp")],
  [],["return value, guard bytes around the output buffer"],None),
P("C12","Pooled subscriber clouds never have two owners",
  "A point cloud handed to the callback of the direct PCL subscriber belongs to that callback until the last reference to it is dropped, from whatever thread: no other message is decoded into it meanwhile, its content and header are exactly those of the decoded message, and every cloud is freed exactly once. This also holds when references outlive the subscriber and when messages are damaged, and the number of idle clouds kept stays bounded.",
  ["schedules","histories","fault_sequences"],"schedules of concurrent message callbacks, reference releases and subscriber destruction, with damaged messages",
  "The ROS package's tests cannot run without ROS and exercise one message at a time.",
  ["cloudini_ros/src/cloudini_subscriber_pcl.cpp","cloudini_ros/include/cloudini_ros/cloudini_subscriber_pcl.hpp",L+"src/pcl_conversion.cpp"],
  [("mutex-protected free list and a custom deleter that returns clouds to it","cloudini_ros/src/cloudini_subscriber_pcl.cpp acquireCloudFromPool")],
  [("cloud_pool_","idle clouds","cloudini_ros/include/cloudini_ros/cloudini_subscriber_pcl.hpp")],["clouds seen by the user callback"],None),
P("C13","PCD conversion reports success only for a complete output file",
  "When the PCD-to-Cloudini command-line converter reports success for a file, the output file on disk is complete and decodes to the input cloud (scalar fields, as PCL reads it) within the requested resolution, exactly where none applies; whenever storage fails (disk full, I/O error, short write, unreadable or truncated input) it reports failure for that file. Failure on one file of a batch does not affect the others, input files are never modified, and an existing output is replaced only with permission.",
  ["fault_sequences","crash_points","inputs"],"all positions of open/read/write/close failures, short writes and disk-full conditions over single and batch runs",
  "The command-line tool has no tests; disk errors are not simulated anywhere.",
  [L+"tools/src/pcd_to_cloudini_converter.cpp",L+"src/pcl_conversion.cpp"],
  [("exception to exit-code mapping, stream state checks",L+"tools/src/pcd_to_cloudini_converter.cpp")],
  [],["exit code and messages vs. the simulated disk's content"],None),
P("C14","Bag conversion is one-for-one and surfaces storage errors",
  "Encoding or decoding a bag writes exactly one output message per input message, in the same order and with the same topic, times and sequence number; messages that are not point clouds are byte-identical, point-cloud messages are the converted form of their input, and schemas, channels and metadata records are carried over. If reading, converting or writing fails at any point the conversion throws (and the command-line tool exits with an error) instead of reporting success, and the converter can be used again afterwards. Profiles apply as written, an invalid one is refused, and the input bag is never modified, not even when it is named as its own output. The tool carries over metadata.yaml with the converted types and the new file name.",
  ["histories","fault_sequences","inputs"],"bags with arbitrary message mixes x storage failure at any operation x repeated conversions with one converter",
  "The tool is not built by the test configuration and has no tests.",
  [L+"tools/src/mcap_converter.cpp",L+"tools/include/mcap_converter.hpp",L+"src/ros_msg_utils.cpp"],
  [("per-message copy with remapped channel id, status checks after every write",L+"tools/src/mcap_converter.cpp encodePointClouds/decodePointClouds")],
  [("old_to_new_channel_id_","channel remapping for the current conversion",L+"tools/include/mcap_converter.hpp")],["sequence of records handed to the bag writer"],None),
P("C15","A damaged message costs a node only that message",
  "A ROS node built from this package (transport publisher and subscriber plugin, PCL subscriber, topic converter) that receives lost, duplicated, reordered, truncated or corrupted messages keeps running: no exception escapes its message handler because of a damaged message, and every intact message, before or after, is delivered exactly once per receipt with the content that was published. The transport subscriber delivers no message whose description (width, height, point step, field names, offsets or types) contradicts the header of its own compressed data.",
  ["fault_sequences","histories","schedules"],"message streams x network faults x node types",
  "Needs ROS to run; the tests publish intact messages only.",
  ["cloudini_ros/src/cloudini_subscriber_plugin.cpp","cloudini_ros/src/cloudini_publisher_plugin.cpp","cloudini_ros/src/topic_converter.cpp","cloudini_ros/src/cloudini_subscriber_pcl.cpp","cloudini_ros/src/conversion_utils.cpp"],
  [("try/catch in message handlers, header sanity checks before decoding","cloudini_ros/src")],
  [],["messages published/delivered by the node, exceptions leaving the handler"],None),
P("C16","Header text and binary forms round-trip every setting",
  "Encoding a header and decoding it returns the same dimensions, options and fields (names, offsets, types, resolutions) in both the text and the binary form.",
  ["inputs","configurations"],"all settings","Tests cover one layout.",
  [L+"src/cloudini.cpp",L+"include/cloudini_lib/yaml_parser.hpp"],[("EncodeHeader/DecodeHeader",L+"src/cloudini.cpp")],[],["DecodeHeader"],None),
P("C17","The announced worst-case size really bounds the output",
  "The maximum compressed size computed for a cloud is never exceeded by encoding any cloud of that size and settings.",
  ["inputs","configurations"],"all clouds and settings","Tests never use incompressible data that defeats the probed mode.",
  [L+"src/cloudini.cpp",L+"src/codec_common.cpp",L+"src/v5_codec.cpp"],[("MaxCompressedSize",L+"src/cloudini.cpp")],[],["encode into a buffer of that size"],None),
P("C18","Resolution profiles are parsed and applied as documented",
  "A profile string sets the resolution of exactly the named fields (xyz meaning x, y and z), removes fields marked for removal, applies the default resolution to the remaining single-precision fields, and malformed profiles are rejected.",
  ["inputs"],"all profile strings and field lists","No test.",
  [L+"tools/src/mcap_converter.cpp",L+"src/ros_msg_utils.cpp"],[("addProfile/applyResolutionProfile",L+"tools/src/mcap_converter.cpp")],[],["field list after applying"],None),
P("C19","SIMD and scalar builds interoperate",
  "In a fleet whose machines run builds of the library for different instruction sets (SSE4.1 as shipped, SSE2 only, no SIMD, fused multiply-add), every intact cloud decodes to identical values on every machine whichever build encoded it, and these values are faithful to the published cloud within the resolution. This holds when messages are lost, repeated, delayed or damaged in between and when machines restart with another build in the middle of a stream.",
  ["inputs","configurations","histories","schedules"],"all clouds x pairs of builds x settings x histories of messages and restarts","Only the SSE4.1 build is compiled and tested; the scalar branches are never executed, and encoder and decoder always come from the same build.",
  [L+"include/cloudini_lib/intrinsics.hpp",L+"src/field_encoder.cpp",L+"src/field_decoder.cpp"],[("Vector4f/Vector4i and their casts, one branch per instruction set",L+"include/cloudini_lib/intrinsics.hpp"),("NaN detection with and without SIMD",L+"src/field_encoder.cpp FieldEncoderFloatN_Lossy::encode")],[],["PointcloudEncoder::encode","PointcloudDecoder::decode","convertPointCloud2ToCompressedCloud/convertCompressedCloudToPointCloud2"],H_CHUNK),
P("C20","Compression is faster and smaller than general-purpose compression alone",
  "Encoding lidar-like clouds at millimetre resolution yields smaller output in less time than the general-purpose compressor applied to the raw data.",
  ["inputs","configurations"],"representative clouds","A performance claim.",
  ["README.md",L+"src"],[("two-stage codec",L+"src")],[],["size and time"],None),
P("C21","The bag cutter extracts exactly the requested clouds and surfaces storage errors",
  "Whenever the bag cutter ends successfully and its input has channels with point clouds, the output bag is complete and holds exactly the first n messages of every such channel, in order, under the channel's topic and with unchanged bytes, times and sequence numbers; channels that share a topic stay separate. Every failure to read the input or to write the output (open, read, short or lost write, close, full disk, cut bag) ends with an error status. The input file is never modified, even when it is named as the output under any of its names, and no other file is touched.",
  ["fault_sequences","inputs","histories"],"all bags x chains of runs x disk faults x cuts","The cutter has no test at all.",
  [L+"tools/src/mcap_cutter.cpp"],[("selection and copying of messages",L+"tools/src/mcap_cutter.cpp McapCutter::cut"),("arguments and exit status",L+"tools/src/mcap_cutter.cpp main")],[],["exit status","files on disk"],None),
P("C22","Long-running processes hold bounded memory and threads",
  "A process that keeps encoding, decoding, converting, publishing or receiving clouds of bounded size reaches a level of memory in use and of background threads at rest and stays there, however many messages it handles, whatever their stamps, frames or field names, and whether they are handled, refused as damaged, or end with a failed allocation, compressor, decompressor or thread start. When its objects are destroyed everything they held is given back; no thread survives its object.",
  ["histories","fault_sequences","inputs"],"all object kinds x message histories of any length x failures at any call","Tests run once per object and do not look at the memory afterwards; leaks below the size of a leak checker's roots (caches, pools, static containers) stay reachable and unreported.",
  [L+"src/cloudini.cpp",L+"src/v4_codec.cpp",L+"src/v5_codec.cpp",L+"src/ros_msg_utils.cpp",L+"src/pcl_conversion.cpp",L+"src/wasm_functions.cpp","cloudini_ros/src"],
  [("buffers, decoders and pools reused from message to message",L+"src/cloudini.cpp PointcloudEncoder/PointcloudDecoder; cloudini_ros/src/cloudini_subscriber_pcl.cpp CloudPool"),("background thread of the encoder",L+"src/cloudini.cpp")],[],["process memory at rest","number of threads"],H_CHUNK),
P("C23","The Python decoder returns exactly the encoded cloud or raises",
  "For every compressed point-cloud message with points that the library produces, the Python decoder returns the message's header values and an array with one record per point whose fields have the names, order and types of the cloud and whose values are those the C++ library decodes. For a damaged message, one that contradicts its own compressed header, a call that runs out of WebAssembly memory or a call that traps it raises, or returns exactly what the library returns; it never writes outside the WebAssembly memory it allocated, leaves nothing allocated after a call, and later calls are not affected nor earlier results changed. Reading a bag hands over every compressed cloud message exactly once, in order and up to the requested number, and a message that cannot be decoded does not stop the others.",
  ["histories","fault_sequences","inputs"],"histories of calls on one or more decoders x damaged messages x failing allocations, traps and memory growth","The Python package has no test that runs here; its tests decode one recorded message without failing calls.",
  ["cloudini_py/cloudini_decoder.py","cloudini_py/decode_mcap.py",L+"src/wasm_functions.cpp"],
  [("size asked of the module before the output buffer is allocated","cloudini_py/cloudini_decoder.py"),("memory read and written only through bounds-checked accesses","cloudini_py/cloudini_decoder.py")],
  [],["array and header returned","exception","WebAssembly memory"],None),
P("C24","The Foxglove converter delivers exactly the encoded cloud or throws",
  "Once its module is loaded, the Foxglove converter turns every compressed message the library produces into a point cloud with the same stamp, frame, dimensions, fields and flags and with exactly the bytes the library decodes; before, it throws. A load that failed is tried again for later messages, and never ends in an unhandled rejection. Damaged messages, messages that contradict their compressed data, exhausted memory and trapping calls make it throw (or return exactly what the library decodes), without writing outside its buffers, without keeping memory, without changing the message or earlier results and without disturbing later conversions, also when the module's memory grows in the middle of a conversion.",
  ["histories","fault_sequences","schedules","inputs"],"histories of messages x moments at which loads end or fail x damaged messages x failing allocations, growth and traps","The extension has no tests.",
  ["cloudini_foxglove/src/index.ts","cloudini_foxglove/src/PointCloudConverter.tsx",L+"src/wasm_functions.cpp"],
  [("module loaded once and shared by the converters","cloudini_foxglove/src/PointCloudConverter.tsx"),("buffers allocated and freed around each conversion","cloudini_foxglove/src/PointCloudConverter.tsx")],
  [],["message returned by the converter","exception","WebAssembly memory","unhandled rejections"],None),
P("C25","The web page measures every cloud of a bag exactly once",
  "When the web page has analysed a bag, it shows every channel of uncompressed point clouds with its number of messages, and each of these messages (up to a quarter of the WebAssembly memory) was measured exactly once; the sizes and the ratio shown are those of the messages that could be measured, with the compressed sizes the library computes. Whatever asynchronous step fails (opening or reading the bag, loading the script or the module), the failure is shown instead of results and the page accepts the next file; while an analysis runs no other is started. Damaged messages, exhausted memory and trapping calls affect only the message concerned and leave nothing allocated once the analysis ends.",
  ["schedules","histories","fault_sequences","inputs"],"bags x order and failure of every asynchronous step x files offered meanwhile x failing allocations and traps","The page has no tests.",
  ["cloudini_web/main.js",L+"src/wasm_functions.cpp"],
  [("drop zone disabled while a file is processed","cloudini_web/main.js handleFile"),("one pass per cloud channel","cloudini_web/main.js analyzeFile")],
  [],["the page's text","calls of the module"],None),
P("C26","PCL conversions return the whole cloud or raise",
  "Encoding a PCLPointCloud2 or a PointCloud of PointXYZ or PointXYZI returns the size of a buffer that decodes to a cloud of the same dimensions, layout and values (within the resolution; NaN stays NaN), or raises; a cloud whose data do not match its dimensions raises. Decoding any message of the library (whatever its producer and settings) into a PCLPointCloud2 restores dimensions, layout and values; into a typed cloud it restores the fields the point has, leaves the others and the padding alone and raises when a field has another type. What a cloud or a buffer was used for before makes no difference, damaged messages raise or decode as into a new cloud, failing allocations are reported, concurrent calls on separate clouds do not disturb each other and no worker thread outlives its call.",
  ["histories","fault_sequences","schedules","inputs"],"histories of conversions with kept clouds and buffers x inconsistent clouds x damaged messages x failing allocations x interleavings","The tests convert one consistent cloud each into new objects, without failing calls, damage or messages of other producers.",
  [L+"src/pcl_conversion.cpp",L+"include/cloudini_lib/pcl_conversion.hpp"],
  [("kept clouds resized before the decoder writes into them",L+"include/cloudini_lib/pcl_conversion.hpp PointcloudDecode"),("field offsets and point_step of the message replaced by those of the point type",L+"include/cloudini_lib/pcl_conversion.hpp PointcloudDecode")],
  [],["stream","decoded cloud","exception"],None),
P("C27","The header inspector reports the first compressed cloud as it is",
  "Run on any bag, the header inspector either exits with a failure, or reports (exit 0) that there are no compressed clouds, or shows topic, time, sizes, dimensions, options and every field of the first compressed cloud message exactly as its producer encoded it. It shows a header whenever that message is intact and the bag could be read, never shows one for a message that has none, never crashes (channels without type, damaged messages, cut bags, failing reads) and leaves every file as it was.",
  ["inputs","fault_sequences"],"bags x damage of messages x cuts x disk failures","The tool has no tests.",
  [L+"tools/src/mcap_header_inspector.cpp",L+"src/ros_msg_utils.cpp"],
  [("first message of a channel of the compressed type",L+"tools/src/mcap_header_inspector.cpp main")],
  [],["exit status","standard output","files"],None),
P("C28","Old recordings and old peers stay readable",
  "The wire format does not change silently between releases. Every intact cloud written by the deployed release (the library at the pinned commit), on the network or in a recording - as a stream with a text or binary header, as a compressed message, in wire versions 3 to 5, or as a single-chunk version 2 recording - is read by this release with the same header, the same points and the values the deployed release reads; and every intact cloud this release writes is read faithfully by the deployed release, except for clouds that release cannot carry itself. This holds in the middle of an upgrade, when machines are restarted with the other release and messages are lost, repeated, delayed or damaged in between.",
  ["inputs","configurations","histories","schedules"],"all clouds x settings x writer and reader releases x histories of messages and restarts","Every test reads only what the same build wrote; an encoder and a decoder changed together pass all of them.",
  [L+"src/cloudini.cpp",L+"src/v4_codec.cpp",L+"src/v5_codec.cpp",L+"src/field_encoder.cpp",L+"src/field_decoder.cpp",L+"include/cloudini_lib/encoding_utils.hpp",L+"include/cloudini_lib/yaml_parser.hpp",L+"src/ros_msg_utils.cpp"],
  [("version digits after the magic word select how the rest is read",L+"src/cloudini.cpp DecodeHeader/PointcloudDecoder::decode"),("mode byte in front of every integer section",L+"src/v5_codec.cpp")],[],["PointcloudEncoder::encode","PointcloudDecoder::decode","DecodeHeader","convertPointCloud2ToCompressedCloud/convertCompressedCloudToPointCloud2"],H_CHUNK),
]
with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for p in props: f.write(json.dumps(p)+"\n")
