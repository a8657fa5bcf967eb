"""Runs the Python bindings of the repository against a simulated wasmtime. Driven over a socket by the simulator."""
import builtins, contextlib, ctypes, gc, importlib.util, io, json, mmap, os, struct, sys, types
import numpy as np
SOCK, MEMFD = 3, 4
MAX = 128 << 20
REPO = sys.argv[1]
mem = mmap.mmap(MEMFD, MAX)
view = memoryview(mem)
S = types.SimpleNamespace(size=64 << 20, nonce=None, cfg={}, results=[], env=None, refs=[])


class Reset(BaseException):
    pass


def recv_exact(n):
    out = bytearray()
    while len(out) < n:
        b = os.read(SOCK, min(n - len(out), 1 << 20))
        if not b:
            os._exit(0)
        out += b
    return bytes(out)


def recv_frame():
    n, t = struct.unpack("<IB", recv_exact(5))
    return chr(t), recv_exact(n)


def send_frame(t, pay):
    b = struct.pack("<IB", len(pay), ord(t)) + pay
    i = 0
    while i < len(b):
        i += os.write(SOCK, b[i:i + (1 << 20)])


def rpc(name, args):
    if S.nonce is not None:
        raise Reset()
    nb = name.encode()
    send_frame("F", bytes([len(nb)]) + nb + bytes([len(args)]) + b"".join(struct.pack("<d", float(a)) for a in args))
    t, p = recv_frame()
    if t == "N":
        S.nonce = p
        raise Reset()
    status, ret, S.size = struct.unpack("<BdI", p[:13])
    if status:
        raise Trap("wasm trap: " + p[13:].decode())
    r = int(ret)
    return r - (1 << 32) if r >= 1 << 31 else r


# ------------------------------------------------------------------ simulated wasmtime
class WasmtimeError(Exception):
    pass


class Trap(Exception):
    pass


class Config:
    pass


class Engine:
    def __init__(self, config=None):
        pass


class WasiConfig:
    def inherit_env(self): pass
    def inherit_stdin(self): pass
    def inherit_stdout(self): pass
    def inherit_stderr(self): pass
    def inherit_argv(self): pass


class Store:
    def __init__(self, engine=None):
        pass

    def set_wasi(self, w):
        pass


class FuncType:
    def __init__(self, params, results):
        self.params, self.results = params, results


class Import:
    def __init__(self, module, name, t):
        self.module, self.name, self.type = module, name, t


class Module:
    def __init__(self, engine, data):
        if S.cfg.get("bad_module"):
            raise WasmtimeError("failed to parse WebAssembly module")
        if not isinstance(data, (bytes, bytearray)):
            raise TypeError("expected bytes")
        self.imports = [Import("wasi_snapshot_preview1", "fd_write", FuncType(["i32"] * 4, ["i32"])),
                        Import("env", "_abort_js", FuncType([], [])),
                        Import("env", "emscripten_resize_heap", FuncType(["i32"], ["i32"])),
                        Import("env", "emscripten_get_now", FuncType([], ["f64"]))]


class Func:
    def __init__(self, store, ftype, fn, *a):
        self.fn = fn
        self.ftype = ftype

    def __call__(self, store, *args):
        return self.fn(*args)


ARGS = {"malloc": 1, "free": 1, "cldn_GetHeaderAsYAML": 3, "cldn_GetHeaderAsYAMLFromDDS": 3, "cldn_ComputeCompressedSize": 3, "cldn_GetDecompressedSize": 2,
        "cldn_DecodeCompressedMessage": 3, "cldn_DecodeCompressedData": 3, "cldn_ConvertCompressedMsgToPointCloud2Msg": 3, "cldn_EncodePointcloudMessage": 4}


class GuestFunc(Func):
    def __init__(self, name):
        self.name = name

    def __call__(self, store, *args):
        if not isinstance(store, Store):
            raise TypeError("expected a Store")
        if len(args) != ARGS[self.name]:
            raise WasmtimeError("wrong number of parameters")
        for a in args:
            if isinstance(a, bool) or not isinstance(a, (int, float)):
                raise TypeError("don't know how to convert %r to an integer" % (a,))
        r = rpc(self.name, args)
        return None if self.name == "free" else r


class Memory:
    def get_buffer_ptr(self, store, size=None, offset=0):
        if size is None:
            size = S.size - offset
        if offset < 0 or size < 0 or offset + size > S.size:
            raise IndexError("index out of range")
        return (ctypes.c_ubyte * size).from_buffer(view, offset)

    def data_ptr(self, store):
        return ctypes.cast(self.get_buffer_ptr(store), ctypes.POINTER(ctypes.c_ubyte))

    def type(self, store):
        return None

    def grow(self, store, delta):
        raise WasmtimeError("failed to grow memory by `%d`" % delta)

    def data_len(self, store):
        return S.size

    def size(self, store):
        return S.size >> 16

    def read(self, store, start=0, stop=None):
        a, b, _ = slice(start, stop).indices(S.size)
        return bytearray(view[a:b]) if b > a else bytearray()

    def write(self, store, value, start=None):
        a = slice(start, None).indices(S.size)[0]
        if a >= S.size:
            raise IndexError("index out of range")
        if len(value) == 0:
            return 0
        if a + len(value) > S.size:
            raise IndexError("index out of range")
        view[a:a + len(value)] = bytes(value)
        return len(value)


class Instance:
    def exports(self, store):
        e = {S.cfg.get("memory", "memory"): Memory()}
        for n in ARGS:
            if n not in S.cfg.get("missing", []):
                e[n] = GuestFunc(n)
        if S.cfg.get("no_memory"):
            del e[S.cfg.get("memory", "memory")]
        return e


class Linker:
    def __init__(self, engine):
        self.defs = set()

    def define_wasi(self):
        pass

    def define(self, store, module, name, item):
        self.defs.add((module, name))

    def instantiate(self, store, module):
        for i in module.imports:
            if i.module != "wasi_snapshot_preview1" and (i.module, i.name) not in self.defs:
                raise WasmtimeError("unknown import: " + i.name)
        return Instance()


W = types.ModuleType("wasmtime")
for c in (Config, Engine, WasiConfig, Store, FuncType, Module, Func, Memory, Instance, Linker, WasmtimeError, Trap):
    setattr(W, c.__name__, c)


# ------------------------------------------------------------------ simulated mcap reader
def make_reader(f):
    S.mcap["opened"] = True
    return Reader()


class Reader:
    def get_summary(self):
        m = S.mcap
        if m.get("summary_fails"):
            raise ValueError("no summary")
        NS = types.SimpleNamespace
        t = [x["time"] for x in m["messages"]] or [0]
        return NS(statistics=NS(message_start_time=min(t), message_end_time=max(t), message_count=len(m["messages"])),
                  channels={i: NS(topic=c["topic"], message_encoding="cdr") for i, c in enumerate(m["channels"])}, schemas={})

    def iter_messages(self, *a, **k):
        NS = types.SimpleNamespace
        for i, x in enumerate(S.mcap["messages"]):
            c = S.mcap["channels"][x["ch"]]
            S.mcap["given"] = i + 1
            schema = None if c["schema"] is None else NS(name=c["schema"], id=1)
            yield schema, NS(topic=c["topic"], message_encoding="cdr", id=x["ch"]), NS(data=S.mcap["blobs"][i], log_time=x["time"], publish_time=x["time"])


M = types.ModuleType("mcap")
MR = types.ModuleType("mcap.reader")
MR.make_reader = make_reader
M.reader = MR
sys.modules.update({"wasmtime": W, "mcap": M, "mcap.reader": MR})
sys.dont_write_bytecode = True


def load(name):
    path = os.path.join(REPO, "cloudini_py", name + ".py")
    src = open(path, encoding="utf-8").read()
    m = types.ModuleType(name)
    m.__file__ = path
    sys.modules[name] = m
    exec(compile(src, path, "exec"), m.__dict__)
    return m


def fresh():
    S.cfg, S.results, S.dec, S.mod = {}, [], None, None
    sys.modules.pop("cloudini_decoder", None)
    sys.modules.pop("decode_mcap", None)
    S.mod = load("cloudini_decoder")
    gc.collect(0)


KINDS = {"FLOAT32": "<f4", "FLOAT64": "<f8", "UINT8": "|u1", "UINT16": "<u2", "UINT32": "<u4", "INT8": "|i1", "INT16": "<i2", "INT32": "<i4", "INT64": "<i8", "UINT64": "<u8"}


def compare(arr, header, exp):
    """Differences between what the decoder returned and what was encoded. exp: info of the header."""
    bad = []
    for k in ("width", "height", "point_step", "encoding_opt", "compression_opt", "version"):
        if header.get(k) != exp[k]:
            bad.append("header %s is %r instead of %r" % (k, header.get(k), exp[k]))
    hf = header.get("fields")
    if not isinstance(hf, list) or len(hf) != len(exp["fields"]):
        bad.append("header lists %s fields instead of %d" % (len(hf) if isinstance(hf, list) else hf, len(exp["fields"])))
    else:
        for a, b in zip(hf, exp["fields"]):
            for k in ("name", "offset", "type"):
                if a.get(k) != b[k]:
                    bad.append("header field %s is %r instead of %r" % (k, a.get(k), b[k]))
            ra, rb = a.get("resolution"), b["resolution"]
            if (ra is None) != (rb is None) or (rb is not None and np.float32(ra) != np.float32(rb)):
                bad.append("header resolution is %r instead of %r" % (ra, rb))
    if arr is not None:
        bad += compare_array(arr, exp)
    return bad


def compare_array(arr, exp):
    bad = []
    if not isinstance(arr, np.ndarray) or arr.dtype.names is None:
        return ["the result is not a structured array: %s" % (getattr(arr, "dtype", type(arr)),)]
    n = exp["width"] * exp["height"]
    if arr.shape != (n,):
        bad.append("shape %s instead of (%d,)" % (arr.shape, n))
    if arr.dtype.itemsize != exp["point_step"]:
        bad.append("points of %d bytes instead of %d" % (arr.dtype.itemsize, exp["point_step"]))
    if set(arr.dtype.names) != {f["name"] for f in exp["fields"]}:
        bad.append("fields %s" % (arr.dtype.names,))
        return bad
    for f in exp["fields"]:
        t, off = arr.dtype.fields[f["name"]][:2]
        if t.str != KINDS[f["type"]] or off != f["offset"]:
            bad.append("field %s of type %s at %d instead of %s at %d" % (f["name"], t.str, off, KINDS[f["type"]], f["offset"]))
    return bad


def clean(s):
    return str(s).replace("\n", " ")[:300]


def describe(e):
    return "status=err\nerr=%s: %s\n" % (type(e).__name__, clean(e))


def handle(j, blob):
    op = j["op"]
    out = io.StringIO()
    with contextlib.redirect_stdout(out), contextlib.redirect_stderr(out):
        if op == "new":
            S.cfg = j["cfg"]
            S.dec = None
            path = "/dev/null" if not S.cfg.get("no_file") else "/nonexistent/cloudini.wasm"
            try:
                S.dec = S.mod.CloudiniDecoder(path)
            except Exception as e:
                return describe(e), b""
            return "status=ok\n", b""
        if op == "decode":
            try:
                arr, header = S.dec.decode_message(blob)
            except Exception as e:
                return describe(e), b""
            raw = arr.tobytes()
            S.results.append((arr, raw, json.dumps(header, default=str, sort_keys=True), header))
            t = "status=ok\n"
            if j.get("exp"):
                bad = compare(arr, header, j["exp"])
                t += "bad=%s\n" % clean("; ".join(bad[:3])) if bad else ""
            t += "dtype=%s\n" % clean(arr.dtype)
            return t, raw
        if op == "header":
            try:
                h = S.dec.get_header_info(blob)
            except Exception as e:
                return describe(e), b""
            t = "status=ok\nempty=%d\n" % (not h)
            if j.get("exp") and h:
                bad = compare(None, h, j["exp"])
                t += "bad=%s\n" % clean("; ".join(bad[:3])) if bad else ""
            return t, b""
        if op == "recheck":  # earlier results must not have changed
            for i, (arr, raw, h, hd) in enumerate(S.results):
                if arr.tobytes() != raw or json.dumps(hd, default=str, sort_keys=True) != h:
                    return "status=ok\nbad=result %d changed afterwards\n" % i, b""
            return "status=ok\n", b""
        if op == "mcap":
            S.cfg = {}
            blobs, at = [], 0
            for x in j["messages"]:
                blobs.append(blob[at:at + x["len"]])
                at += x["len"]
            S.mcap = dict(j, blobs=blobs, given=0, opened=False)
            seen = []
            sys.modules["cloudini_decoder"] = S.mod
            orig = S.mod.CloudiniDecoder.decode_message

            def rec(self, msg, *a, **k):
                seen.append([bytes(msg), "raised"])
                r = orig(self, msg, *a, **k)
                seen[-1][1] = r
                return r
            S.mod.CloudiniDecoder.decode_message = rec
            tool = load("decode_mcap")
            argv = sys.argv
            sys.argv = ["decode_mcap.py", "/dev/null", "--wasm", "/dev/null"] + (["--max-messages", str(j["max"])] if j["max"] is not None else [])
            try:
                rc = tool.main()
            except SystemExit as e:
                rc = e.code
            except Exception as e:
                return describe(e), b""
            finally:
                sys.argv = argv
                S.mod.CloudiniDecoder.decode_message = orig
            text = out.getvalue()
            exp = j["expect"]  # indices of the messages that must be decoded, in order, and whether each must succeed
            bad = []
            if rc not in (0, None):
                bad.append("exit status %r" % (rc,))
            if len(seen) != len(exp):
                bad.append("%d messages decoded instead of %d" % (len(seen), len(exp)))
            good = 0
            for (msg, r), (i, must) in zip(seen, exp):
                if msg != blobs[i]:
                    bad.append("message %d is not the one handed to the decoder" % i)
                elif must and isinstance(r, str):
                    bad.append("message %d was not decoded" % i)
                if not isinstance(r, str):
                    good += 1
            if text.count("Decoded successfully") != good or text.count("Failed to decode") != len(seen) - good:
                bad.append("%d messages decoded, %d failed, reported %d and %d" % (good, len(seen) - good, text.count("Decoded successfully"), text.count("Failed to decode")))
            if "Messages parsed: %d" % len(exp) not in text:
                bad.append("the summary does not count %d messages" % len(exp))
            return "status=ok\n" + ("bad=%s\n" % clean("; ".join(bad[:3])) if bad else ""), b""
    raise ValueError("unknown op " + op)


def main():
    while True:
        if S.nonce is not None:
            p, S.nonce = S.nonce, None
        else:
            t, p = recv_frame()
            if t == "C":
                n = struct.unpack("<I", p[:4])[0]
                try:
                    text, blob = handle(json.loads(p[4:4 + n]), p[4 + n:])
                except Reset:
                    continue
                except Exception as e:
                    import traceback
                    text, blob = "internal=%s\n" % clean(traceback.format_exc()[-280:]), b""
                if S.nonce is not None:
                    continue
                tb = text.encode("utf-8", "replace")
                send_frame("D", struct.pack("<I", len(tb)) + tb + blob)
                continue
        S.size = struct.unpack("<I", p[8:12])[0]
        try:
            fresh()
        except Exception as e:
            sys.stderr.write("load failed: %s\n" % e)
            S.mod = None
        send_frame("N", p[:8])


main()
