"""Builds simulation binaries from /repo's current working tree. Everything lands in /verif/build (git-ignored)."""
import glob, hashlib, os, re, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("SIM_REPO", "/repo")
SIM = os.path.join(ROOT, "sim")
BUILD = os.environ.get("SIM_BUILD", os.path.join(ROOT, "build"))
CXX = "clang++"
LIB = os.path.join(REPO, "cloudini_lib")
ROS = os.path.join(REPO, "cloudini_ros")
WRAP = ["ZSTD_compress", "ZSTD_compressCCtx", "ZSTD_compress2", "LZ4_compress_default", "LZ4_compress_fast",
        "ZSTD_decompress", "ZSTD_decompressDCtx", "LZ4_decompress_safe"]
BASE = ["-std=c++20", "-g1", "-msse4.1", "-DNDEBUG", "-fno-omit-frame-pointer", "-w", "-pthread", "-fPIC"]
INC = ["-I" + os.path.join(LIB, "include"), "-I" + os.path.join(LIB, "src"), "-I" + SIM]

VARIANTS = {
    # own access instrumentation: race detector, ownership ranges, poisoned arena. Small chunks.
    "shadow": dict(lib=["-O1", "-fsanitize=thread"], harness=["-O1"], link=["-Wl,--wrap=free"],
                   defs=["-DSIM_SHADOW", "-DCLOUDINI_SIM_POINTS_PER_CHUNK=64", "-DCLOUDINI_SIM_PROBE_POINTS=40", "-DSIM_PROBE_PTS=40"]),
    # AddressSanitizer + edge callbacks (work measure, scheduling points). Small chunks.
    "asan": dict(lib=["-O1", "-fsanitize=address", "-fsanitize-coverage=trace-pc-guard"], harness=["-O1", "-fsanitize=address"],
                 link=["-fsanitize=address"],
                 defs=["-DCLOUDINI_SIM_POINTS_PER_CHUNK=64", "-DCLOUDINI_SIM_PROBE_POINTS=40", "-DSIM_PROBE_PTS=40"]),
    # as shipped sizes
    "real": dict(lib=["-O2", "-fsanitize-coverage=trace-pc-guard"], harness=["-O2"], link=[], defs=["-DSIM_PROBE_PTS=4096"]),
    "asanreal": dict(lib=["-O1", "-fsanitize=address", "-fsanitize-coverage=trace-pc-guard"], harness=["-O1", "-fsanitize=address"],
                     link=["-fsanitize=address"], defs=["-DSIM_PROBE_PTS=4096"]),
}


def lib_sources(extra_exclude=(), lib=None):
    out = []
    for f in sorted(glob.glob(os.path.join(lib or LIB, "src", "*.cpp"))):
        b = os.path.basename(f)
        if b in ("pcl_conversion.cpp", "wasm_functions.cpp") or b in extra_exclude:
            continue
        out.append(f)
    return out


def tree_hash(paths):
    h = hashlib.sha256()
    for base in paths:
        if os.path.isfile(base):
            files = [base]
        else:
            files = []
            for d, dirs, fs in os.walk(base):
                dirs[:] = sorted(x for x in dirs if x not in (".git", "_build", "build", "test", "samples", "__pycache__"))
                files += [os.path.join(d, f) for f in sorted(fs)
                          if f.endswith((".cpp", ".hpp", ".h", ".c", ".py", ".hxx", ".cc", ".inl", ".ipp"))]
        for f in files:
            h.update(f.encode())
            with open(f, "rb") as fh:
                h.update(fh.read())
    return h.hexdigest()[:16]


class BuildError(Exception):
    pass


def run(cmd):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        raise BuildError(" ".join(cmd) + "\n" + p.stdout[-6000:])
    return p.stdout


def build(prop, variant, extra_lib=(), extra_harness=(), lib_flags=(), harness_flags=(), inc=(), link=(), prefix_inc=(), alt=(), log=sys.stderr):
    """Returns the path of the binary. extra_lib: further sources under test; extra_harness: further harness sources.
    alt: further builds of the library in the same binary, each a tuple (flags, sources compiled with it[, library directory])."""
    v = VARIANTS[variant]
    t0 = time.time()
    props = os.path.join(SIM, "props", prop.lower() + ".cpp")
    rt = [os.path.join(SIM, "rt", f) for f in ("simrt.cpp", "alloc.cpp", "edges.cpp", "codecs.cpp")]
    if "-DSIM_SHADOW" in v["defs"]:
        rt.append(os.path.join(SIM, "rt", "shadow.cpp"))
    common = [os.path.join(SIM, "common", f) for f in ("driver.cpp", "cloud.cpp")]
    key = tree_hash([LIB, ROS, SIM, os.path.abspath(__file__)])
    key = hashlib.sha256((key + repr((prop, variant, v, extra_lib, extra_harness, lib_flags, harness_flags, inc, link, prefix_inc, alt))).encode()).hexdigest()[:16]
    out = os.path.join(BUILD, "bin", f"{prop.lower()}-{variant}-{key}")
    if os.path.exists(out):
        return out
    shared_key = tree_hash([LIB, ROS, SIM, os.path.abspath(__file__)])
    odir = os.path.join(BUILD, "obj", shared_key)
    os.makedirs(odir, exist_ok=True)
    os.makedirs(os.path.dirname(out), exist_ok=True)
    pinc = ["-I" + p for p in prefix_inc]
    minc = ["-I" + p for p in inc]
    jobs = []
    for s in lib_sources():
        jobs.append((s, BASE + v["lib"] + v["defs"] + pinc + INC + minc + list(lib_flags)))
    for s in extra_lib:
        jobs.append((s, BASE + v["lib"] + v["defs"] + pinc + INC + minc + list(lib_flags)))
    for flags, more, *other in alt:
        lib = other[0] if other else None
        ainc = ["-I" + os.path.join(lib, "include"), "-I" + os.path.join(lib, "src"), "-I" + SIM] if lib else INC
        for s in lib_sources(lib=lib) + list(more):
            jobs.append((s, BASE + v["lib"] + v["defs"] + pinc + ainc + minc + list(lib_flags) + list(flags)))
    for s in rt:  # the runtime itself is never instrumented
        fl = ["-O2"] + ([] if "-fsanitize=address" not in v["harness"] or s.endswith(("simrt.cpp", "edges.cpp", "alloc.cpp", "codecs.cpp")) else [])
        if "-fsanitize=address" in v["harness"]:
            fl = fl + ["-DSIM_ASAN_BUILD"]
        jobs.append((s, BASE + fl + v["defs"] + INC))
    for s in common + [props] + list(extra_harness):
        jobs.append((s, BASE + v["harness"] + v["defs"] + pinc + INC + minc + list(harness_flags)))

    def one(job):
        src, flags = job
        k = hashlib.sha256((src + repr(flags)).encode()).hexdigest()[:12]
        obj = os.path.join(odir, os.path.basename(src).replace(".cpp", "") + "-" + k + ".o")
        if not os.path.exists(obj):
            tmp = obj + f".{os.getpid()}.tmp"
            run([CXX] + flags + ["-c", src, "-o", tmp])
            os.replace(tmp, obj)
        return obj

    with ThreadPoolExecutor(8) as ex:
        objs = list(ex.map(one, jobs))
    tmp = out + f".{os.getpid()}.tmp"
    run([CXX, "-pthread", "-rdynamic"] + v["link"] + objs + ["-o", tmp] + ["-Wl," + ",".join("--wrap=" + w for w in WRAP)] +
        ["-lzstd", "-llz4", "-lpthread", "-ldl"] + list(link))
    os.replace(tmp, out)
    print(f"[build] {prop} {variant} {time.time()-t0:.1f}s", file=log)
    return out


def addon():
    """The Node addon that maps the shared memory."""
    out = os.path.join(BUILD, "host", "shm.node")
    src = os.path.join(SIM, "host", "shm.c")
    os.makedirs(os.path.dirname(out), exist_ok=True)
    if not os.path.exists(out) or os.path.getmtime(out) < os.path.getmtime(src):
        tmp = out + f".{os.getpid()}.tmp"
        run(["gcc", "-O2", "-shared", "-fPIC", "-I/usr/include/node", src, "-o", tmp])
        os.replace(tmp, out)


def prune(keep=40):
    d = os.path.join(BUILD, "obj")
    try:
        ks = sorted((os.path.join(d, x) for x in os.listdir(d)), key=os.path.getmtime)
        for x in ks[:-4]:
            shutil.rmtree(x, ignore_errors=True)
        b = os.path.join(BUILD, "bin")
        bs = sorted((os.path.join(b, x) for x in os.listdir(b)), key=os.path.getmtime)
        for x in bs[:-keep]:
            os.unlink(x)
    except OSError:
        pass


if __name__ == "__main__":
    print(build(sys.argv[1], sys.argv[2], extra_harness=[os.path.join(SIM, x) for x in sys.argv[3:]]))
