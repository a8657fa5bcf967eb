"""What each check runs: build variants, run counts and wall caps per tier."""
import os
ROOT = os.path.dirname(os.path.abspath(__file__))
SIM = os.path.join(ROOT, "sim")
REPO = os.environ.get("SIM_REPO", "/repo")
LIB = os.path.join(REPO, "cloudini_lib")
ROS = os.path.join(REPO, "cloudini_ros")


def S(*names):
    return tuple(os.path.join(SIM, n) for n in names)


ROSINC = S("stubs/ros") + (os.path.join(ROS, "include"),)
PCLINC = ("/usr/include/pcl-1.14", "/usr/include/eigen3")


def R(*names):
    return tuple(os.path.join(ROS, "src", n) for n in names)


def _alt(name, *flags):
    ren = ["-DFLEET_BUILD=" + name] + ["-D%s=%s_%s" % (n, n, name) for n in ("Cloudini", "cloudini_ros", "nanocdr", "ankerl", "Vector4f", "Vector4i")]
    return (tuple(["-UFLEET_BUILD"] + ren + list(flags)), S("common/fleet.cpp"))


# further builds of the library for C19: as on a machine without SIMD, with SSE2 only, with fused multiply-add
FLEET = (_alt("scalar", "-mno-sse4.1", "-U__SSE__", "-U__SSE4_1__"), _alt("sse2", "-mno-sse4.1"), _alt("fma", "-mavx2", "-mfma", "-ffp-contract=fast"))

# the frozen library of the pinned commit for C28, not instrumented
BASE_RELEASE = _alt("base", "-fno-sanitize=all") + (os.path.join(SIM, "base", "cloudini_lib"),)

COMMON_ASSUMPTIONS = [
    "threads are serialised by the simulator: one runs at a time and memory is sequentially consistent; weak-memory effects are covered only through the happens-before race check of the 'shadow' builds",
    "LZ4, Zstandard, libstdc++ and the C library are trusted and run as they are",
    "an unexplored schedule, fault sequence or input may still violate the property: this is a seeded search, not an enumeration of everything",
]
CORE = ["cloudini_lib/src/*.cpp (encoder, decoder, codecs, headers) compiled from /repo", "std::thread, std::mutex, std::condition_variable of libstdc++ on real threads released one at a time", "lz4, zstd"]
SEAMS = ["thread scheduling, mutex/condvar/once/futex blocking, clocks and sleeps (simulated)", "operator new (simulated heap, failure injection)", "compressor entry points (real, with injected error returns)"]

PLANS = {
    "C01": dict(
        level="exploration",
        technique="seeded thread schedules at instruction granularity, output compared with the synchronous encoder",
        note="Searches schedules of caller and compression threads (random walk and PCT, spurious wake-ups) over random settings and histories; every output byte is compared with an unthreaded encoder. Small-chunk and shipped-size builds.",
        phases=dict(quick=[("shadow", 24000, 22), ("asan", 6000, 8), ("real", 600, 10)],
                    thorough=[("shadow", 2000000, 900), ("asan", 400000, 200), ("real", 30000, 400)]),
        build=dict(extra_harness=S("common/session.cpp")), real=CORE, stub=SEAMS),
    "C02": dict(
        level="exploration",
        technique="injected compressor and thread-start failures at seeded points under seeded schedules",
        note="Every failed chunk must surface as an exception in that call; deadlock is detected exactly (no runnable thread); the next fault-free call must equal a fresh encoder's bytes.",
        phases=dict(quick=[("shadow", 24000, 25), ("asan", 6000, 10)],
                    thorough=[("shadow", 2000000, 900), ("asan", 400000, 300)]),
        build=dict(extra_harness=S("common/session.cpp")), real=CORE, stub=SEAMS),
    "C03": dict(
        level="exploration",
        technique="seeded schedules with a happens-before race detector and ownership ranges on caller buffers",
        note="Race, lifetime and thread-leak checks on every instrumented access and on the compressor's reads and writes, for calls that end normally, by failed chunks or by failed allocations.",
        phases=dict(quick=[("shadow", 40000, 30)], thorough=[("shadow", 4000000, 1200)]),
        build=dict(extra_harness=S("common/session.cpp")), real=CORE, stub=SEAMS),
    "C04": dict(
        level="exploration",
        technique="every allocation ordinal of seeded operations failed once and persistently in a simulated heap, under seeded schedules",
        note="For each seeded operation all (or every k-th) allocation is made to fail; result or exception, block balance, live threads and the next two results with the same objects are checked; AddressSanitizer and access-instrumented builds.",
        phases=dict(quick=[("asan", 8000, 20), ("shadow", 6000, 15)], thorough=[("asan", 1000000, 900), ("shadow", 500000, 600)]),
        build=dict(extra_harness=S("common/session.cpp", "common/rosmsg.cpp")), real=CORE + ["ros_msg_utils, nanocdr"], stub=SEAMS),
    "C05": dict(
        level="exploration",
        technique="seeded simulation of publishers, a lossy network and a subscriber, decoded clouds compared with a reference model",
        note="Publisher threads, network faults (loss, duplication, delay, damage) and reused decoders in one simulated process; every intact delivery is compared with a reference model of the published cloud. Small-chunk and shipped-size builds.",
        phases=dict(quick=[("shadow", 16000, 15), ("asan", 16000, 12), ("real", 1600, 10)],
                    thorough=[("shadow", 2000000, 600), ("asan", 2000000, 500), ("real", 60000, 500)]),
        build=dict(extra_harness=S("common/session.cpp", "common/damage.cpp", "common/rosmsg.cpp")), real=CORE + ["ros_msg_utils, nanocdr"], stub=SEAMS + ["network (simulated queue with seeded faults)"]),
    "C06": dict(
        level="exploration",
        technique="seeded histories of messages, damage and faults through long-lived objects, each result compared with fresh objects run in reverse order",
        note="Encoders, decoders, converters, preprocessing and buffers reused across clouds of other sizes, layouts and settings, damaged messages and calls ended by injected failures, on one or several simulated threads; every result must equal that of fresh objects.",
        phases=dict(quick=[("asan", 16000, 18), ("shadow", 12000, 14), ("real", 600, 6)],
                    thorough=[("asan", 2000000, 800), ("shadow", 1000000, 600), ("real", 40000, 300)]),
        build=dict(extra_harness=S("common/session.cpp", "common/damage.cpp", "common/rosmsg.cpp")), real=CORE + ["ros_msg_utils, nanocdr"], stub=SEAMS + ["the medium (byte vector with seeded damage)"]),
    "C07": dict(
        level="exploration",
        technique="seeded message damage on a simulated medium, every decoding entry point under AddressSanitizer with a work budget",
        note="18 kinds of damage in combination, to header, payload, the stage under the compressor and the ROS message, handed to decoders, converters and preprocessing in exact-size buffers; memory errors by AddressSanitizer, endless work by counting executed edges.",
        phases=dict(quick=[("asan", 80000, 40)], thorough=[("asan", 20000000, 1800), ("asanreal", 200000, 600)]),
        build=dict(extra_harness=S("common/session.cpp", "common/damage.cpp", "common/rosmsg.cpp")), real=CORE + ["ros_msg_utils, nanocdr"], stub=SEAMS + ["the medium (byte vector with seeded damage)"]),
    "C08": dict(
        level="exploration",
        technique="seeded crash points, chunk loss, repetition and appended bytes on a simulated store; every damaged stream must be rejected",
        note="Writers crash at seeded bytes and chunk boundaries (all prefixes for small streams), chunks are lost, repeated or followed by extra bytes; each read through fresh and reused decoders must throw. Small-chunk and shipped-size builds.",
        phases=dict(quick=[("asan", 24000, 22), ("real", 2400, 10)], thorough=[("asan", 4000000, 900), ("real", 100000, 400)]),
        build=dict(extra_harness=S("common/session.cpp")), real=CORE, stub=SEAMS + ["the store (byte vector with seeded faults)"]),
    "C09": dict(
        level="exploration",
        technique="seeded message streams through both converters with faults in between, outputs read by an independent strict CDR parser",
        note="Messages of every layout, size, string length and byte order go to compressed form and back, delayed, reordered and duplicated, on one or several simulated threads with reused buffers; unconvertible messages must throw and injected failures must not disturb later messages.",
        phases=dict(quick=[("asan", 24000, 18), ("shadow", 12000, 14), ("real", 800, 5)],
                    thorough=[("asan", 3000000, 800), ("shadow", 1000000, 600), ("real", 60000, 300)]),
        build=dict(extra_harness=S("common/session.cpp", "common/rosmsg.cpp")), real=CORE + ["ros_msg_utils, nanocdr"], stub=SEAMS + ["the transport between the two converters (a queue with seeded order and duplication)"]),
    "C10": dict(
        level="exploration",
        technique="seeded streams of clouds on several simulated threads with failed allocations, compared with a quadratic reference",
        note="Per-thread state is exercised by streams of clouds on long-lived and new threads, interleaved by the seeded scheduler with race detection, with allocations failing inside calls; each result must equal the reference exactly.",
        phases=dict(quick=[("shadow", 24000, 20), ("asan", 40000, 15)],
                    thorough=[("shadow", 2000000, 700), ("asan", 4000000, 600)]),
        build=dict(extra_harness=S("common/session.cpp")), real=["cloudini_lib/src/ros_msg_utils.cpp, ankerl::unordered_dense from /repo", "std::thread of libstdc++ released one at a time"], stub=["thread scheduling (simulated)", "operator new (simulated heap, failure injection)"]),
    "C11": dict(
        level="exploration",
        technique="seeded call histories over skewed and damaged messages with injected allocation and compressor failures",
        note="The exported C functions are compiled natively; exact-size input and output blocks under AddressSanitizer; return value and bytes of every call are compared with the C++ interface on fresh objects, and intact results with the published cloud.",
        phases=dict(quick=[("asan", 60000, 35)], thorough=[("asan", 6000000, 1200), ("shadow", 500000, 400), ("asanreal", 60000, 300)]),
        build=dict(extra_harness=S("common/session.cpp", "common/damage.cpp", "common/rosmsg.cpp"), extra_lib=(os.path.join(LIB, "src", "wasm_functions.cpp"),),
                   prefix_inc=S("stubs/wasm")),
        real=CORE + ["wasm_functions.cpp, ros_msg_utils, nanocdr"], stub=SEAMS + ["emscripten.h (console output dropped)", "the medium (byte vector with seeded damage)"]),
    "C12": dict(
        level="exploration",
        technique="seeded schedules of executor and user threads around pooled clouds, with damaged messages, failed allocations and early destruction",
        note="The PCL subscriber runs on a stand-in for rclcpp; a registry of references held by users detects a second owner, each delivered and each dropped cloud is compared with an independent decoding, heap blocks must balance, AddressSanitizer and the race detector watch the pool.",
        phases=dict(quick=[("shadow", 16000, 18), ("asan", 24000, 18)], thorough=[("shadow", 1500000, 900), ("asan", 1500000, 600)]),
        build=dict(extra_harness=S("common/session.cpp", "common/damage.cpp", "common/rosmsg.cpp"), prefix_inc=S("stubs/pclio"), inc=ROSINC + PCLINC,
                   extra_lib=R("cloudini_subscriber_pcl.cpp") + (os.path.join(LIB, "src", "pcl_conversion.cpp"),)),
        real=CORE + ["cloudini_ros/src/cloudini_subscriber_pcl.cpp, pcl_conversion.cpp, ros_msg_utils, nanocdr", "pcl::PCLPointCloud2"],
        stub=SEAMS + ["rclcpp (node, generic subscription, serialized message)", "the executor and the network (simulated)", "PCD file reading (unused)"]),
    "C13": dict(
        level="exploration",
        technique="seeded runs of the command-line tool on a simulated disk with failing, short and lost operations and truncated inputs",
        note="The converter's main() and PCL's PCD reader run on an in-memory file system behind the C library's file functions; exit code and disk content are compared with the input clouds; single, repeated and batch runs with faults on chosen files.",
        phases=dict(quick=[("asan", 16000, 30)], thorough=[("asan", 2000000, 900), ("real", 100000, 300)]),
        build=dict(extra_harness=S("common/session.cpp", "common/disk.cpp"), inc=PCLINC + (os.path.join(LIB, "tools", "src"),),
                   extra_lib=S("wrap/pcd_tool.cpp") + (os.path.join(LIB, "src", "pcl_conversion.cpp"),), link=("-lpcl_io", "-lpcl_common")),
        real=CORE + ["tools/src/pcd_to_cloudini_converter.cpp, pcl_conversion.cpp", "PCL's PCD reader, cxxopts, iostreams and std::filesystem of libstdc++"],
        stub=SEAMS + ["the disk (files, directories, descriptors and mappings of /simdisk)", "the terminal (stdin, stdout, stderr)"]),
    "C14": dict(
        level="exploration",
        technique="seeded runs of the bag converter and its command-line tool on a simulated disk with failing, short and lost operations, cut bags and failing library calls",
        note="Bags written by an independent byte-level writer are converted repeatedly by long-lived converter objects and by the tool's main() on an in-memory file system; every output reported as success is parsed by an independent reader and compared message by message with its input.",
        phases=dict(quick=[("asan", 24000, 32)], thorough=[("asan", 3000000, 900), ("real", 100000, 300)]),
        build=dict(extra_harness=S("common/session.cpp", "common/disk.cpp", "common/damage.cpp", "common/rosmsg.cpp"), inc=S("stubs/mcap") + (os.path.join(LIB, "tools", "include"), os.path.join(LIB, "tools", "src")),
                   extra_lib=S("wrap/bag_tool.cpp") + (os.path.join(LIB, "tools", "src", "mcap_converter.cpp"),)),
        real=CORE + ["tools/src/mcap_converter.cpp, cloudini_rosbag_converter.cpp", "ros_msg_utils, nanocdr, cxxopts, iostreams and std::filesystem of libstdc++"],
        stub=SEAMS + ["the mcap library (same interface and byte layout, chunks stored uncompressed)", "the disk (files, directories and descriptors of /simdisk)", "the terminal (stdin, stdout, stderr)"]),
    "C15": dict(
        level="exploration",
        technique="seeded simulation of publisher and subscriber nodes over a lossy, damaging network on one or several executor threads",
        note="All node types of the package run on a stand-in for rclcpp and point_cloud_transport; every intact receipt must be delivered exactly once with the published metadata and content, no exception may leave a handler, damaged messages may deliver at most one consistent cloud.",
        phases=dict(quick=[("asan", 24000, 22), ("shadow", 8000, 16)], thorough=[("asan", 3000000, 900), ("shadow", 800000, 700)]),
        build=dict(extra_harness=S("common/session.cpp", "common/damage.cpp", "common/rosmsg.cpp"), prefix_inc=S("stubs/pclio"), inc=ROSINC + PCLINC,
                   extra_lib=R("cloudini_subscriber_pcl.cpp", "cloudini_publisher_plugin.cpp", "cloudini_subscriber_plugin.cpp", "topic_converter.cpp", "conversion_utils.cpp") + (os.path.join(LIB, "src", "pcl_conversion.cpp"),)),
        real=CORE + ["cloudini_ros/src: publisher and subscriber plugins, PCL subscriber, topic converter, conversion_utils", "pcl_conversion.cpp, ros_msg_utils, nanocdr"],
        stub=SEAMS + ["rclcpp and point_cloud_transport (nodes, plugin base classes, serialized messages)", "middleware (de)serialization of typed messages", "the executors and the network (simulated)", "PCD file reading (unused)"]),
    "C19": dict(
        level="exploration",
        technique="seeded simulation of a mixed fleet: publishers and subscribers running builds for different instruction sets, restarted with other builds, over a lossy network",
        note="The library is compiled four times (SSE4.1 as shipped, scalar, SSE2 only, AVX2 with fused multiply-add) into one simulated process; every delivered cloud is compared with the published one and with what the other builds decoded from the same bytes.",
        phases=dict(quick=[("asan", 16000, 18), ("shadow", 10000, 14), ("real", 800, 8)],
                    thorough=[("asan", 2000000, 700), ("shadow", 1000000, 500), ("real", 40000, 400)]),
        build=dict(extra_harness=S("common/session.cpp", "common/damage.cpp", "common/rosmsg.cpp", "common/fleetreg.cpp"), extra_lib=S("common/fleet.cpp"), lib_flags=("-DFLEET_BUILD=sse41",), alt=FLEET),
        real=CORE + ["ros_msg_utils, nanocdr", "four builds of all of them"], stub=SEAMS + ["network (simulated queues with seeded faults)", "machine restarts (objects replaced by those of another build)"]),
    "C28": dict(
        level="exploration",
        technique="seeded simulation of a fleet in the middle of an upgrade: machines with the deployed release and with this one exchange and store clouds over a lossy network and are restarted with the other release",
        note="The library of the pinned commit is kept frozen in /verif/sim/base and runs in the same simulated process as the library of /repo; every delivered or stored cloud is compared with the published one, whichever of the two wrote it and whichever reads it.",
        phases=dict(quick=[("asan", 16000, 18), ("shadow", 6000, 8), ("real", 1200, 12)],
                    thorough=[("asan", 2000000, 600), ("shadow", 500000, 200), ("real", 60000, 600)]),
        build=dict(extra_harness=S("common/session.cpp", "common/damage.cpp", "common/rosmsg.cpp", "common/fleetreg.cpp"), extra_lib=S("common/fleet.cpp"), lib_flags=("-DFLEET_BUILD=sse41",), alt=(BASE_RELEASE,)),
        real=CORE + ["ros_msg_utils, nanocdr", "the same parts of the pinned commit, as the release already deployed"], stub=SEAMS + ["network and storage (simulated queues with seeded faults)", "machine restarts (objects replaced by those of the other release)"]),
    "C21": dict(
        level="exploration",
        technique="seeded runs of the bag cutter on a simulated disk with failing, short and lost operations and cut bags",
        note="The tool's main() runs on an in-memory file system over bags of an independent byte-level writer; every output reported as success is parsed by an independent reader and must hold exactly the first n clouds of every channel.",
        phases=dict(quick=[("asan", 40000, 25)], thorough=[("asan", 5000000, 600), ("real", 200000, 200)]),
        build=dict(extra_harness=S("common/session.cpp", "common/disk.cpp"), inc=S("stubs/mcap") + (os.path.join(LIB, "tools", "include"), os.path.join(LIB, "tools", "src")),
                   extra_lib=S("wrap/cutter_tool.cpp")),
        real=["tools/src/mcap_cutter.cpp", "cxxopts, iostreams and std::filesystem of libstdc++"],
        stub=["the mcap library (same interface and byte layout, chunks stored uncompressed)", "the disk (files, directories and descriptors of /simdisk)", "the terminal (stdin, stdout, stderr)", "clocks (simulated)"]),
    "C22": dict(
        level="exploration",
        technique="seeded simulation of long-lived objects handling repeated traffic with damage and failing calls, under memory and thread accounting",
        note="Encoders, decoders, message converters, ROS nodes and plugins, header, C and PCL functions handle the same messages for 32 rounds; live memory and threads at rest must reach a level and everything must be given back at the end.",
        phases=dict(quick=[("asan", 16000, 24), ("shadow", 3000, 12)], thorough=[("asan", 2000000, 800), ("shadow", 200000, 400)]),
        build=dict(extra_harness=S("common/session.cpp", "common/damage.cpp", "common/rosmsg.cpp"), prefix_inc=S("stubs/wasm", "stubs/pclio"), inc=ROSINC + PCLINC,
                   extra_lib=R("cloudini_subscriber_pcl.cpp", "cloudini_publisher_plugin.cpp", "cloudini_subscriber_plugin.cpp", "topic_converter.cpp", "conversion_utils.cpp") + (os.path.join(LIB, "src", "pcl_conversion.cpp"), os.path.join(LIB, "src", "wasm_functions.cpp"))),
        real=CORE + ["cloudini_ros/src: publisher and subscriber plugins, PCL subscriber, topic converter, conversion_utils", "pcl_conversion.cpp, wasm_functions.cpp, ros_msg_utils, nanocdr"],
        stub=SEAMS + ["rclcpp and point_cloud_transport (nodes, plugin base classes, serialized messages)", "emscripten.h (console output dropped)", "the executors and the network (simulated)", "PCD file reading (unused)"]),
    "C23": dict(
        level="exploration",
        technique="seeded simulation of the Python decoder over a simulated WebAssembly instance with failing allocations, traps and damaged messages",
        note="cloudini_decoder.py and decode_mcap.py run in a real interpreter; every memory access and call of the module is served by the library built natively over a 32-bit memory with guarded blocks. Results are compared with what was encoded, or with the library's own verdict on damaged bytes.",
        phases=dict(quick=[("asan", 6000, 35)], thorough=[("asan", 1000000, 900)]),
        build=dict(extra_harness=S("common/damage.cpp", "common/rosmsg.cpp", "host/host.cpp", "host/messages.cpp"), prefix_inc=S("stubs/wasmhost"),
                   extra_lib=(os.path.join(LIB, "src", "wasm_functions.cpp"),)),
        real=["cloudini_py/cloudini_decoder.py, cloudini_py/decode_mcap.py (CPython, numpy)", "wasm_functions.cpp and cloudini_lib/src/*.cpp built natively from /repo", "lz4, zstd"],
        stub=["wasmtime and the WebAssembly instance: calls run natively over a simulated linear memory with its own allocator", "mcap reader (messages handed out in order)", "emscripten.h (console output counted; exceptions become traps in some runs)"]),
    "C24": dict(
        level="exploration",
        technique="seeded simulation of the Foxglove converter over a simulated Emscripten module with late and failing loads, growing and failing memory, traps and damaged messages",
        note="index.ts and PointCloudConverter.tsx run in Node; the module they load is the library built natively over a 32-bit memory with guarded blocks, whose views are detached when it grows. Load promises are settled by the simulator.",
        phases=dict(quick=[("asan", 8000, 35)], thorough=[("asan", 1000000, 900)]), addon=True,
        build=dict(extra_harness=S("common/damage.cpp", "common/rosmsg.cpp", "host/host.cpp", "host/messages.cpp"), prefix_inc=S("stubs/wasmhost"),
                   extra_lib=(os.path.join(LIB, "src", "wasm_functions.cpp"),)),
        real=["cloudini_foxglove/src/index.ts, PointCloudConverter.tsx (transpiled, run by Node)", "wasm_functions.cpp and cloudini_lib/src/*.cpp built natively from /repo", "lz4, zstd"],
        stub=["the Emscripten module: calls run natively over a simulated linear memory with its own allocator", "Foxglove (extension context)", "promises of the module loader (settled by the simulator)", "emscripten.h (console output counted)"]),
    "C25": dict(
        level="exploration",
        technique="seeded simulation of the web page: order and failure of every asynchronous step, damaged messages, growing and failing memory, traps",
        note="main.js runs in Node on a small document; script loading, module loading, opening and reading the bag end when and as the simulator decides. What the page shows is compared with the bag and with the sizes the library itself reports.",
        phases=dict(quick=[("asan", 6000, 35)], thorough=[("asan", 1000000, 900)]), addon=True,
        build=dict(extra_harness=S("common/damage.cpp", "common/rosmsg.cpp", "host/host.cpp", "host/messages.cpp"), prefix_inc=S("stubs/wasmhost"),
                   extra_lib=(os.path.join(LIB, "src", "wasm_functions.cpp"),)),
        real=["cloudini_web/main.js (run by Node)", "wasm_functions.cpp and cloudini_lib/src/*.cpp built natively from /repo", "lz4, zstd"],
        stub=["the Emscripten module: calls run natively over a simulated linear memory with its own allocator", "the document, its elements and events", "@mcap/core and @mcap/browser (bags held in memory)", "script and module loading"]),
    "C26": dict(
        level="exploration",
        technique="seeded histories of PCL conversions with kept clouds and buffers, inconsistent clouds, damaged messages and failing allocations, checked against a reference model",
        note="pcl_conversion.cpp and the typed templates run with the real PCL types; every accepted encoding is decoded again and compared with the original, every decoding into a used cloud with one into a new cloud and with the original.",
        phases=dict(quick=[("asan", 24000, 18), ("shadow", 8000, 10)], thorough=[("asan", 2000000, 600), ("shadow", 400000, 300), ("asanreal", 40000, 300)]),
        build=dict(extra_harness=S("common/session.cpp", "common/damage.cpp", "common/rosmsg.cpp"), prefix_inc=S("stubs/pclio"), inc=PCLINC,
                   extra_lib=(os.path.join(LIB, "src", "pcl_conversion.cpp"),)),
        real=CORE + ["pcl_conversion.cpp and the templates of pcl_conversion.hpp", "pcl::PCLPointCloud2, pcl::PointCloud"],
        stub=SEAMS + ["PCD file reading (unused)"]),
    "C27": dict(
        level="exploration",
        technique="seeded runs of the header inspector on a simulated disk with damaged messages, cut bags and failing or short operations",
        note="The tool's main() runs on an in-memory file system over bags of an independent byte-level writer; every value it reports is compared with the settings the message was made with.",
        phases=dict(quick=[("asan", 30000, 25)], thorough=[("asan", 3000000, 600), ("real", 100000, 200)]),
        build=dict(extra_harness=S("common/session.cpp", "common/disk.cpp", "common/damage.cpp", "common/rosmsg.cpp"), inc=S("stubs/mcap") + (os.path.join(LIB, "tools", "include"), os.path.join(LIB, "tools", "src")),
                   extra_lib=S("wrap/inspector_tool.cpp")),
        real=CORE + ["tools/src/mcap_header_inspector.cpp", "ros_msg_utils.cpp", "cxxopts, iostreams and std::filesystem of libstdc++"],
        stub=SEAMS + ["the mcap library (same interface and byte layout, chunks stored uncompressed)", "the disk (files, directories and descriptors of /simdisk)", "the terminal"]),
}
