// Runs the JavaScript and TypeScript bindings of the repository against a simulated Emscripten module.
// Driven over a socket by the simulator.
'use strict';
const fs = require('fs'), path = require('path'), vm = require('vm');
const ts = require('/opt/veriftools/node/node_modules/typescript');
const [, , REPO, ADDON] = process.argv;
const shm = require(ADDON);
const SOCK = 3, MEMFD = 4;
const S = { size: 64 << 20, nonce: null, modules: [], buf: null, results: [], pending: [], unhandled: 0 };
class Reset extends Error {}

function recvExact(n) {
  const b = Buffer.allocUnsafe(n);
  let at = 0;
  while (at < n) {
    let k = 0;
    try {
      k = fs.readSync(SOCK, b, at, Math.min(n - at, 1 << 20), null);
    } catch (e) {
      if (e.code === 'EAGAIN' || e.code === 'EINTR') continue;
      process.kill(process.pid, 'SIGKILL');
    }
    if (k <= 0) process.kill(process.pid, 'SIGKILL');
    at += k;
  }
  return b;
}
function recvFrame() {
  const h = recvExact(5);
  return [String.fromCharCode(h[4]), recvExact(h.readUInt32LE(0))];
}
function sendFrame(t, pay) {
  const b = Buffer.concat([Buffer.from([0, 0, 0, 0, t.charCodeAt(0)]), pay]);
  b.writeUInt32LE(pay.length, 0);
  let at = 0;
  while (at < b.length) {
    try {
      at += fs.writeSync(SOCK, b, at, Math.min(b.length - at, 1 << 20));
    } catch (e) {
      if (e.code !== 'EAGAIN' && e.code !== 'EINTR') process.kill(process.pid, 'SIGKILL');
    }
  }
}
function remap() {
  if (S.buf) shm.detach(S.buf);
  S.buf = shm.map(MEMFD, S.size);
  for (const m of S.modules) {
    m.HEAPU8 = new Uint8Array(S.buf);
    m.HEAP8 = new Int8Array(S.buf);
    m.HEAPU16 = new Uint16Array(S.buf);
    m.HEAP16 = new Int16Array(S.buf);
    m.HEAPU32 = new Uint32Array(S.buf);
    m.HEAP32 = new Int32Array(S.buf);
    m.HEAPF32 = new Float32Array(S.buf);
    m.HEAPF64 = new Float64Array(S.buf);
  }
}
function rpc(name, args) {
  if (S.nonce !== null) throw new Reset('reset');
  const pay = Buffer.alloc(2 + name.length + 8 * args.length);
  pay[0] = name.length;
  pay.write(name, 1, 'latin1');
  pay[1 + name.length] = args.length;
  args.forEach((a, i) => pay.writeDoubleLE(Number(a), 2 + name.length + 8 * i));
  sendFrame('F', pay);
  const [t, p] = recvFrame();
  if (t === 'N') {
    S.nonce = p;
    throw new Reset('reset');
  }
  const size = p.readUInt32LE(9);
  if (size !== S.size) {
    S.size = size;
    remap();
  }
  if (p[0]) throw new WebAssembly.RuntimeError(p.subarray(13).toString());
  return p.readDoubleLE(1) | 0;
}
const NAMES = ['cldn_GetHeaderAsYAML', 'cldn_GetHeaderAsYAMLFromDDS', 'cldn_ComputeCompressedSize', 'cldn_GetDecompressedSize', 'cldn_DecodeCompressedMessage', 'cldn_DecodeCompressedData',
  'cldn_ConvertCompressedMsgToPointCloud2Msg', 'cldn_EncodePointcloudMessage', 'cldn_GetDecompressedDataSize'];
function makeModule() {
  const m = { _malloc: (n) => rpc('malloc', [n]), _free: (p) => void rpc('free', [p]) };
  for (const n of NAMES) m['_' + n] = (...a) => rpc(n, a);
  m.UTF8ToString = (p) => {
    let e = p;
    while (m.HEAPU8[e]) ++e;
    return Buffer.from(m.HEAPU8.subarray(p, e)).toString();
  };
  m.ccall = (ident, ret, types, args) => {
    const temp = [];
    const a = args.map((v, i) => {
      if (types[i] !== 'array' && types[i] !== 'string') return v;
      const b = types[i] === 'string' ? Buffer.from(v + '\0') : v;
      const p = rpc('malloc', [b.length]);
      if (!p) throw new WebAssembly.RuntimeError('stack overflow');
      temp.push(p);
      m.HEAPU8.set(b, p);
      return p;
    });
    try {
      return rpc(ident, a);
    } finally {
      temp.forEach((p) => rpc('free', [p]));
    }
  };
  m.cwrap = (ident, ret, types) => (...args) => m.ccall(ident, ret, types, args);
  S.modules.push(m);
  remap();
  return m;
}
// An asynchronous operation that the simulator completes when it decides to.
function pend(kind, ok) {
  return new Promise((resolve, reject) => {
    S.pending.push({ kind, resolve: () => { try { resolve(ok()); } catch (e) { reject(e); } }, reject });
  });
}
const quiet = { log() {}, warn() {}, error() {}, info() {}, debug() {} };
const sources = {};
function transpile(file) {
  if (!sources[file])
    sources[file] = ts.transpileModule(fs.readFileSync(file, 'utf8'), { fileName: file, compilerOptions: { module: ts.ModuleKind.CommonJS, target: ts.ScriptTarget.ES2022, esModuleInterop: true, jsx: ts.JsxEmit.React } }).outputText;
  return sources[file];
}
function evaluate(file, req, extra) {
  const names = ['module', 'exports', 'require', 'console', ...Object.keys(extra || {})];
  const module = { exports: {} };
  vm.compileFunction(transpile(file), names, { filename: file })(module, module.exports, req, quiet, ...Object.values(extra || {}));
  return module.exports;
}
function fresh() {
  S.modules = [];
  S.results = [];
  S.pending = [];
  S.unhandled = 0;
  S.fox = null;
  S.page = null;
  if (S.buf) shm.detach(S.buf);
  S.buf = null;
}
// ------------------------------------------------------------------ Foxglove extension
function loadFox() {
  const dir = path.join(REPO, 'cloudini_foxglove/src');
  const cache = {};
  let loads = 0;
  const req = (n) => {
    if (n.includes('cloudini_wasm_single')) return { __esModule: true, default: () => { ++S.fox.loads; return pend('load', makeModule); } };
    if (!n.startsWith('.')) return {};
    const base = path.join(dir, n);
    for (const e of ['', '.ts', '.tsx', '.js']) if (fs.existsSync(base + e) && fs.statSync(base + e).isFile()) return (cache[base + e] ??= evaluate(base + e, req));
    throw new Error('no module ' + n);
  };
  S.fox = { loads: 0, converters: [] };
  const m = evaluate(path.join(dir, 'index.ts'), req);
  m.activate({ registerMessageConverter: (c) => S.fox.converters.push(c), registerPanel() {} });
}
function same(a, b) {
  return JSON.stringify(a) === JSON.stringify(b);
}
function freeze(o) {
  for (const v of Object.values(o)) if (v && typeof v === 'object' && !ArrayBuffer.isView(v)) freeze(v);
  return Object.freeze(o);
}
function convert(j, blob) {
  const c = S.fox.converters.find((x) => x.fromSchemaName === 'point_cloud_interfaces/msg/CompressedPointCloud2' && x.toSchemaName === 'sensor_msgs/msg/PointCloud2');
  if (!c) return ['status=err\nerr=no converter for compressed clouds\nbad=no converter is registered for CompressedPointCloud2\n', Buffer.alloc(0)];
  const whole = new Uint8Array(blob.length + j.pad * 2).fill(0x5A);
  whole.set(blob, j.pad);
  const msg = { ...j.msg, compressed_data: whole.subarray(j.pad, j.pad + blob.length) };
  if (j.freeze) freeze(msg);
  const before = JSON.stringify(j.msg);
  let r, bad = [];
  try {
    r = c.converter(msg, { topic: '/t', message: msg, receiveTime: { sec: 1, nsec: 2 }, schemaName: c.fromSchemaName, sizeInBytes: 1 });
  } catch (e) {
    const { compressed_data, ...rest } = msg;
    const touched = JSON.stringify(rest) !== before || !blob.equals(Buffer.from(msg.compressed_data));
    return ['status=err\nerr=' + clean(e && e.message !== undefined ? e.name + ': ' + e.message : e) + '\n' + (touched ? 'bad=the message handed in was changed\n' : ''), Buffer.alloc(0)];
  }
  const { compressed_data, ...rest } = msg;
  if (JSON.stringify(rest) !== before || !blob.equals(Buffer.from(msg.compressed_data))) bad.push('the message handed in was changed');
  if (!r || !(r.data instanceof Uint8Array)) return ['status=ok\nbad=no point cloud is returned\n', Buffer.alloc(0)];
  if (!same(r.header && r.header.stamp, j.msg.header.stamp)) bad.push('stamp ' + JSON.stringify(r.header && r.header.stamp));
  if ((r.header && r.header.frame_id) !== j.msg.header.frame_id) bad.push('frame id');
  for (const k of ['height', 'width', 'point_step', 'is_dense', 'is_bigendian']) if (r[k] !== j.msg[k]) bad.push(k + ' ' + r[k] + ' instead of ' + j.msg[k]);
  if (r.row_step !== j.msg.point_step * j.msg.width) bad.push('row_step ' + r.row_step);
  if (!same(r.fields, j.msg.fields)) bad.push('fields ' + JSON.stringify(r.fields));
  if (r.data.length !== r.row_step * r.height) bad.push(`${r.data.length} bytes of data for ${r.height} rows of ${r.row_step}`);
  S.results.push([r, Buffer.from(r.data), JSON.stringify({ ...r, data: 0 })]);
  return ['status=ok\n' + (bad.length ? 'bad=' + clean(bad.slice(0, 3).join('; ')) + '\n' : ''), Buffer.from(r.data)];
}
// ------------------------------------------------------------------ web page
function loadPage() {
  const D = { byId: {} };
  class El {
    constructor(tag, id) {
      this.tag = tag;
      this.id = id;
      this.style = {};
      this.on = {};
      this.html = '';
      this.files = [];
      const set = new Set();
      this.classList = { add: (...c) => c.forEach((x) => set.add(x)), remove: (...c) => c.forEach((x) => set.delete(x)), contains: (c) => set.has(c), toggle: (c, f) => ((f === undefined ? !set.has(c) : f) ? set.add(c) : set.delete(c)) };
    }
    addEventListener(t, f) { (this.on[t] ??= []).push(f); }
    removeEventListener(t, f) { this.on[t] = (this.on[t] || []).filter((x) => x !== f); }
    fire(t, e) { for (const f of [...(this.on[t] || [])]) f(e); }
    get innerHTML() { return this.html; }
    set innerHTML(v) {
      this.html = String(v);
      if (/<input[^>]*id="fileInput"/.test(this.html)) D.byId.fileInput = new El('input', 'fileInput');
    }
    get textContent() { return this.html; }
    set textContent(v) { this.innerHTML = v; }
    click() { D.clicked = this; this.fire('click', { target: this, preventDefault() {}, stopPropagation() {} }); }
    appendChild(c) {
      if (c.tag === 'script') {
        pend('script', () => { S.page.globals.CloudiniModule = () => pend('load', makeModule); }).then(
          () => c.onload && c.onload({}), () => c.onerror && c.onerror({ type: 'error' }));
      }
      return c;
    }
    remove() {}
  }
  for (const id of ['dropZone', 'status', 'results']) D.byId[id] = new El('div', id);
  D.byId.fileInput = new El('input', 'fileInput');
  const document = { getElementById: (id) => D.byId[id] || null, querySelector: (q) => D.byId[q.replace(/^#/, '')] || null, createElement: (t) => new El(t), head: new El('head'), body: new El('body'), addEventListener() {} };
  const globals = { CloudiniModule: () => { throw new ReferenceError('CloudiniModule is not defined'); } };
  S.page = { D, globals };
  class Reader {
    constructor(f) {
      this.f = f;
      this.channelsById = new Map(f.channels.map((c) => [c.id, { id: c.id, schemaId: c.schema, topic: c.topic, messageEncoding: 'cdr', metadata: new Map() }]));
      this.schemasById = new Map(f.schemas.map((s) => [s.id, { id: s.id, name: s.name, encoding: 'ros2msg', data: new Uint8Array(0) }]));
      const t = f.messages.map((m) => BigInt(m.time));
      this.start = t.length ? t.reduce((a, b) => (a < b ? a : b)) : undefined;
      this.end = t.length ? t.reduce((a, b) => (a > b ? a : b)) : undefined;
    }
    async *readMessages(o = {}) {
      const lo = o.startTime ?? this.start, hi = o.endTime ?? this.end;
      await pend('read', () => 0);
      let at = 0;
      for (const m of this.f.messages) {
        const data = this.f.blob.subarray(at, at + m.len);
        at += m.len;
        const c = this.channelsById.get(m.ch), t = BigInt(m.time);
        if (o.topics && !o.topics.includes(c.topic)) continue;
        if (t < lo || t > hi) continue;
        if (m.slow) await pend('read', () => 0);
        yield { type: 'Message', channelId: m.ch, sequence: 0, logTime: t, publishTime: t, data: new Uint8Array(data) };
      }
    }
  }
  class BlobReadable { constructor(f) { this.file = f; } }
  const req = (n) => {
    if (n === '@mcap/core') return { McapIndexedReader: { Initialize: ({ readable }) => pend('open', () => new Reader(readable.file.sim)) } };
    if (n === '@mcap/browser') return { BlobReadable };
    const base = path.join(REPO, 'cloudini_web', n);
    if (n.startsWith('.')) for (const e of ['', '.js', '.ts']) if (fs.existsSync(base + e) && fs.statSync(base + e).isFile()) return (cache[base + e] ??= evaluate(base + e, req, env));
    return {};
  };
  const cache = {};
  const env = { document, CloudiniModule: (...a) => globals.CloudiniModule(...a) };
  env.window = { document, addEventListener() {}, CloudiniModule: env.CloudiniModule };
  env.self = env.window;
  evaluate(path.join(REPO, 'cloudini_web/main.js'), req, env);
}
function pageState() {
  const D = S.page.D.byId;
  return `disabled=${D.dropZone.classList.contains('disabled') ? 1 : 0}\nstatusline=${clean(D.status.innerHTML)}\nhasresults=${D.results.innerHTML ? 1 : 0}\n`;
}
function pageCheck(e) {
  // e: what a complete analysis must show
  const h = S.page.D.byId.results.innerHTML, st = S.page.D.byId.status.innerHTML, bad = [];
  if (!st.includes('File: ' + e.name)) bad.push('the status line is about something else: ' + st);
  if (!st.includes('Channels: ' + e.channels + ' ')) bad.push('channels: ' + st);
  if (!new RegExp('Schemas: ' + e.schemas + '\\s*$').test(st)) bad.push('schemas: ' + st);
  if (e.clouds.length === 0) {
    if (!h.includes('No PointCloud2 Channels Found')) bad.push('the page does not say that there are no clouds');
  } else {
    const counts = [...h.matchAll(/class="message-count">([^<]*)</g)].map((m) => m[1]);
    const ids = [...h.matchAll(/Channel ID:<\/strong>\s*([^<]*)</g)].map((m) => m[1].trim());
    const topics = [...h.matchAll(/class="channel-topic">([^<]*)</g)].map((m) => m[1]);
    const stats = [...h.matchAll(/class="stat-value">([^<]*)</g)].map((m) => m[1].trim());
    if (!same(ids, e.clouds.map((c) => String(c.id)))) bad.push('channels ' + ids);
    if (!same(topics, e.clouds.map((c) => c.topic))) bad.push('topics ' + topics);
    if (!same(counts, e.clouds.map((c) => c.count.toLocaleString()))) bad.push('message counts ' + counts + ' instead of ' + e.clouds.map((c) => c.count));
    const mb = (x) => (x / (1024 * 1024)).toFixed(1) + ' MB';
    const ratio = e.size > 0 ? (e.compressed / e.size).toFixed(3) : '0';
    if (stats.length !== 3) bad.push('statistics ' + stats);
    else {
      if (stats[0] !== mb(e.size)) bad.push('original size ' + stats[0] + ' instead of ' + mb(e.size));
      if (stats[1] !== mb(e.compressed)) bad.push('compressed size ' + stats[1] + ' instead of ' + mb(e.compressed));
      if (stats[2] !== ratio && !(e.size === 0 && Number(stats[2]) === 0)) bad.push('ratio ' + stats[2] + ' instead of ' + ratio + ' (' + e.compressed + ' of ' + e.size + ' bytes)');
    }
  }
  return bad;
}
function clean(s) {
  return String(s).replace(/\s+/g, ' ').slice(0, 300);
}
const tick = () => new Promise((r) => setImmediate(r));
async function handle(j, blob) {
  const none = Buffer.alloc(0);
  let text = 'status=ok\n', out = none;
  switch (j.op) {
    case 'activate':
      try {
        loadFox();
      } catch (e) {
        text = 'status=err\nerr=' + clean(e && e.stack) + '\n';
      }
      break;
    case 'convert':
      [text, out] = convert(j, blob);
      break;
    case 'settle': {
      const p = S.pending.splice(j.i, 1)[0];
      if (!p) break;
      text += 'kind=' + p.kind + '\n';
      if (j.ok) p.resolve();
      else p.reject(new Error('simulated failure of ' + p.kind));
      break;
    }
    case 'recheck':
      S.results.forEach(([r, raw, meta], i) => {
        if (!raw.equals(Buffer.from(r.data.buffer, r.data.byteOffset, r.data.byteLength)) || JSON.stringify({ ...r, data: 0 }) !== meta) text = 'status=ok\nbad=result ' + i + ' changed afterwards\n';
      });
      break;
    case 'page':
      loadPage();
      break;
    case 'file': {
      const D = S.page.D.byId;
      const file = { name: j.name, size: blob.length, sim: { ...j, blob } };
      if (j.how === 'drop') D.dropZone.fire('drop', { preventDefault() {}, dataTransfer: { files: [file] } });
      else if (j.how === 'dialog') {
        S.page.D.clicked = null;
        D.dropZone.fire('click', { target: D.dropZone, preventDefault() {} });
        S.page.dialog = S.page.D.clicked || S.page.dialog;  // stays open until a file is chosen in it
      } else if (j.how === 'late') {
        const inp = S.page.dialog;
        S.page.dialog = null;
        if (inp) inp.fire('change', { target: { files: [file] } });
        else text += 'nodialog=1\n';
      } else if (j.how === 'cancel') D.fileInput.fire('change', { target: { files: [] } });
      else {
        S.page.D.clicked = null;
        D.dropZone.fire('click', { target: D.dropZone, preventDefault() {} });
        const inp = S.page.D.clicked;
        if (inp) inp.fire('change', { target: { files: [file] } });
        else text += 'refused=1\n';
      }
      break;
    }
    case 'pagecheck': {
      const bad = pageCheck(j.exp);
      if (bad.length) text += 'bad=' + clean(bad.slice(0, 3).join('; ')) + '\n';
      break;
    }
    default:
      text = 'internal=unknown operation ' + j.op + '\n';
  }
  await tick();
  await tick();
  text += 'pending=' + S.pending.map((p) => p.kind).join(' ') + '\nunhandled=' + S.unhandled + '\n';
  if (S.fox) text += 'loads=' + S.fox.loads + '\n';
  if (S.page) text += pageState();
  return [text, out];
}
process.on('unhandledRejection', () => { ++S.unhandled; });
process.on('uncaughtException', (e) => { S.uncaught = e; });
(async () => {
  for (;;) {
    let p;
    if (S.nonce !== null) {
      p = S.nonce;
      S.nonce = null;
    } else {
      const [t, pay] = recvFrame();
      if (t === 'C') {
        const n = pay.readUInt32LE(0);
        let text, out;
        try {
          [text, out] = await handle(JSON.parse(pay.subarray(4, 4 + n).toString()), pay.subarray(4 + n));
        } catch (e) {
          text = 'internal=' + clean(e && e.stack) + '\n';
          out = Buffer.alloc(0);
        }
        if (S.nonce !== null) continue;
        const tb = Buffer.from(text), l = Buffer.alloc(4);
        l.writeUInt32LE(tb.length, 0);
        sendFrame('D', Buffer.concat([l, tb, out]));
        continue;
      }
      p = pay;
    }
    fresh();
    await tick();
    S.unhandled = 0;
    S.size = p.readUInt32LE(8);
    sendFrame('N', p.subarray(0, 8));
  }
})();
