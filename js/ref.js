// Reference runner: executes a batch of cases with V8's WebAssembly.
// usage: node ref.js batch.json out.json
const fs = require('fs');
Error.stackTraceLimit = 0;
const batch = JSON.parse(fs.readFileSync(process.argv[2], 'utf8'));
const dv = new DataView(new ArrayBuffer(8));
function bitsF32(x) { if (Number.isNaN(x)) return 'nan'; dv.setFloat32(0, x); return String(dv.getUint32(0)); }
function bitsF64(x) { if (Number.isNaN(x)) return 'nan'; dv.setFloat64(0, x); return String(dv.getBigUint64(0)); }
function toJS(t, v) {
  switch (t) {
    case 'i32': return Number(v) | 0;
    case 'i64': return BigInt.asIntN(64, BigInt(v));
    case 'f32': dv.setUint32(0, Number(v)); return dv.getFloat32(0);
    case 'f64': dv.setBigUint64(0, BigInt(v)); return dv.getFloat64(0);
    case 'externref': case 'funcref': return v === 'null' ? null : Number(v);
  }
  throw new Error('bad type ' + t);
}
function fromJS(t, v) {
  switch (t) {
    case 'i32': return String(v >>> 0) + ':i32';
    case 'i64': return String(BigInt.asUintN(64, v)) + ':i64';
    case 'f32': return bitsF32(v) + ':f32';
    case 'f64': return bitsF64(v) + ':f64';
    case 'funcref': return (v === null ? 'null' : 'nonnull') + ':funcref';
    case 'externref': return (v === null ? 'null' : typeof v === 'number' ? String(v) : 'obj') + ':externref';
    case 'exnref': return (v === null ? 'null' : 'nonnull') + ':exnref';
  }
  throw new Error('bad type ' + t);
}
function classify(e) {
  if (e instanceof WebAssembly.CompileError) return 'invalid:' + e.message;
  if (e instanceof WebAssembly.LinkError) return 'unlinkable:' + e.message;
  if (e instanceof WebAssembly.Exception) return 'trap:uncaught exception';
  if (e instanceof RangeError && /call stack/.test(e.message)) return 'trap:stack overflow';
  if (e instanceof WebAssembly.RuntimeError) return 'trap:' + e.message;
  if (e instanceof TypeError && /import/i.test(e.message)) return 'unlinkable:' + e.message;
  return 'error:' + e;
}
// proc_exit: ends the call like a trap (nothing can catch it)
let exited = null;
const trapper = new WebAssembly.Instance(new WebAssembly.Module(Uint8Array.of(
  0, 97, 115, 109, 1, 0, 0, 0, 1, 4, 1, 96, 0, 0, 3, 2, 1, 0, 7, 5, 1, 1, 116, 0, 0, 10, 5, 1, 3, 0, 0, 11))).exports.t;
const wasi = { proc_exit: (c) => { exited = c; trapper(); } };
const out = [];
for (const c of batch) {
  const insts = {}, regs = {}, mods = {};
  const res = [];
  for (const s of c) {
    let r;
    try {
      if (s.op === 'load') {
        const m = new WebAssembly.Module(Buffer.from(s.bytes, 'base64'));
        mods[s.mod] = m;
        // imports resolve against the most recently registered instance
        const imp = {};
        for (const d of WebAssembly.Module.imports(m)) {
          imp[d.module] = imp[d.module] || {};
          const src = regs[d.module];
          if (d.module === 'wasi_snapshot_preview1' && d.name in wasi) imp[d.module][d.name] = wasi[d.name];
          if (src && d.name in src.exports) imp[d.module][d.name] = src.exports[d.name];
          // the JS API would take any host value for a reference global
          if (d.kind === 'global' && !(imp[d.module][d.name] instanceof WebAssembly.Global))
            throw new WebAssembly.LinkError('not a global');
        }
        insts[s.mod] = new WebAssembly.Instance(m, imp);
        r = 'ok';
      } else if (s.op === 'validate') {
        r = WebAssembly.validate(Buffer.from(s.bytes, 'base64')) ? 'ok' : 'invalid:';
        if (r !== 'ok' && s.why) { try { new WebAssembly.Module(Buffer.from(s.bytes, 'base64')); } catch (e) { r = classify(e); } }
      } else if (s.op === 'register') {
        if (insts[s.mod]) { regs[s.as] = insts[s.mod]; r = 'ok'; } else r = 'nomod';
      } else if (s.op === 'invoke') {
        const f = insts[s.mod] && insts[s.mod].exports[s.func];
        if (!f) r = insts[s.mod] ? 'nofunc' : 'nomod';
        else {
          let v = f(...(s.args || []).map(([t, x]) => toJS(t, x)));
          if (s.results.length === 0) r = 'ok:';
          else {
            if (s.results.length === 1) v = [v];
            r = 'ok:' + s.results.map((t, i) => fromJS(t, v[i])).join(', ');
          }
        }
      } else if (s.op === 'global') {
        const g = insts[s.mod] && insts[s.mod].exports[s.name];
        r = g ? 'ok:' + fromJS(s.type, g.value) : 'nomod';
      } else r = 'badop';
    } catch (e) { r = exited !== null ? 'exit:' + exited : classify(e); exited = null; }
    res.push(r);
  }
  out.push(res);
}
fs.writeFileSync(process.argv[3], JSON.stringify(out));
