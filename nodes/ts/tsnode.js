// Lock-step node: runs the TypeScript implementation (compiled from the
// current tree into ./tsjs) on behalf of the simulator. The modules are
// evaluated afresh for every run.
"use strict";
const fs = require("fs");
const path = require("path");
const dir = path.join(__dirname, "tsjs");

function harness(s) {
  fs.writeSync(2, "HARNESS: " + s + "\n");
  process.exit(9);
}

// ---- constructors handed to the code under test, counting what they allocate
let counted = 0;
const bytesOf = (o) => (o && typeof o.byteLength === "number" ? o.byteLength : 0);
function countingCtor(C, view) {
  return new Proxy(C, {
    construct(t, args, nt) {
      const o = Reflect.construct(t, args, nt);
      // a view over an existing buffer allocates nothing
      if (!(view && args[0] instanceof ArrayBuffer)) counted += bytesOf(o) || (Array.isArray(o) ? 8 * o.length : 0);
      return o;
    },
  });
}
class CountingU8 extends Uint8Array {
  constructor(...a) {
    super(...a);
    if (!(a[0] instanceof ArrayBuffer)) counted += this.byteLength;
  }
}
class CountingTextDecoder extends TextDecoder {
  decode(...a) {
    const s = super.decode(...a);
    counted += 2 * s.length;
    return s;
  }
}
const shim = {
  Uint8Array: countingCtor(Uint8Array, true),
  ArrayBuffer: countingCtor(ArrayBuffer, false),
  Array: countingCtor(Array, false),
  Buffer: new Proxy(Buffer, {
    get(t, k) {
      const f = t[k];
      if (typeof f === "function" && /^(alloc|allocUnsafe|allocUnsafeSlow|from|concat)$/.test(String(k))) {
        return (...a) => {
          const o = f.apply(t, a);
          counted += o.byteLength;
          return o;
        };
      }
      return f;
    },
  }),
  TextDecoder: CountingTextDecoder,
};

const wrappers = new Map();
let cache;
function load(file) {
  if (cache.has(file)) return cache.get(file).exports;
  let w = wrappers.get(file);
  if (!w) {
    const src = fs.readFileSync(file, "utf8");
    w = new Function("exports", "require", "module", "Uint8Array", "ArrayBuffer", "Array", "Buffer", "TextDecoder", src);
    wrappers.set(file, w);
  }
  const m = { exports: {} };
  cache.set(file, m);
  const req = (n) => {
    if (n.startsWith(".")) {
      let f = path.resolve(path.dirname(file), n);
      if (!f.endsWith(".js")) f = fs.existsSync(f + ".js") ? f + ".js" : path.join(f, "index.js");
      return load(f);
    }
    return require(n);
  };
  w.call(m.exports, m.exports, req, m, shim.Uint8Array, shim.ArrayBuffer, shim.Array, shim.Buffer, shim.TextDecoder);
  return m.exports;
}

let P, encs, decs, objs;
function reset() {
  cache = new Map();
  P = load(path.join(dir, "index.js"));
  encs = new Map();
  decs = new Map();
  objs = new Map();
}
reset();

// ---- protocol
const utf8 = new TextDecoder("utf-8", { fatal: true, ignoreBOM: true });
let ip, inb, out;
const u8 = () => inb[ip++];
const u16 = () => ((ip += 2), inb.readUInt16LE(ip - 2));
const u32 = () => ((ip += 4), inb.readUInt32LE(ip - 4));
const u64 = () => ((ip += 8), inb.readBigUInt64LE(ip - 8));
const blob = () => {
  const n = u32();
  ip += n;
  return inb.subarray(ip - n, ip);
};
const p8 = (x) => out.push(Buffer.from([x]));
const p64 = (x) => {
  const b = Buffer.alloc(8);
  b.writeBigUInt64LE(BigInt.asUintN(64, x));
  out.push(b);
};
const pblob = (b) => {
  const h = Buffer.alloc(4);
  h.writeUInt32LE(b.length);
  out.push(h, Buffer.from(b));
};
const fail = (code, e) => {
  p8(code);
  let t = e instanceof Error ? (e.message || "") : String(e);
  if (e instanceof Error) t = e.constructor.name + (t ? ": " + t : "");
  pblob(Buffer.from(t.slice(0, 300)));
};

const text = (b) => utf8.decode(b);

// kinds by name, as a user of the module writes them
const K = ["Null", "Array", "Map", "Any", "Uint8Array", "String", "Error", "Boolean", "Uint8", "Uint16", "Uint32", "Uint64", "Int32", "Int64", "Float32", "Float64"];
const kind = (k) => {
  const x = P.Kind[K[k]];
  if (x === undefined) harness("kind " + k);
  return x;
};

function f32(n) {
  const b = Buffer.alloc(4);
  b.writeUInt32LE(Number(n & 0xffffffffn));
  return b.readFloatLE();
}
function f64(n) {
  const b = Buffer.alloc(8);
  b.writeBigUInt64LE(n);
  return b.readDoubleLE();
}

const FILL = 0xee;

function newEnc(mode, cap) {
  if (mode === 0) return { e: new P.Encoder() };
  if (mode === 1) return { e: new P.Encoder(new Uint8Array(cap)) };
  const ab = new Uint8Array(cap + 40).fill(FILL);
  return { e: new P.Encoder(ab.subarray(16, 16 + cap)), ab, cap };
}
function outside(x) {
  if (!x.ab) return;
  for (let i = 0; i < 16; i++) if (x.ab[i] !== FILL) return "wrote before its buffer";
  for (let i = 16 + x.cap; i < x.ab.length; i++) if (x.ab[i] !== FILL) return "wrote behind its buffer";
}

function put(x, k, key, sub, n, b) {
  const e = x.e;
  let r;
  switch (k) {
    case 0: r = e.null(); break;
    case 1: r = e.array(Number(n & 0xffffffffn), kind(sub)); break;
    case 2: r = e.map(Number(n & 0xffffffffn), kind(key), kind(sub)); break;
    case 3: r = e.any(); break;
    case 4: {
      const mine = new Uint8Array(b);
      r = e.uint8Array(mine);
      for (let i = 0; i < mine.length; i++) if (mine[i] !== b[i]) return "modified the caller's data";
      mine.fill(FILL); // the caller goes on using its memory
      break;
    }
    case 5: r = e.string(text(b)); break;
    case 6: r = e.error(new Error(text(b))); break;
    case 7: r = e.boolean(n !== 0n); break;
    case 8: r = e.uint8(Number(n & 0xffn)); break;
    case 9: r = e.uint16(Number(n & 0xffffn)); break;
    case 10: r = e.uint32(Number(n & 0xffffffffn)); break;
    case 11: r = e.uint64(n); break;
    case 12: r = e.int32(Number(BigInt.asIntN(32, n))); break;
    case 13: r = e.int64(BigInt.asIntN(64, n)); break;
    case 14: r = e.float32(f32(n)); break;
    case 15: r = e.float64(f64(n)); break;
    default: harness("kind");
  }
  if (r !== e) return "does not return the encoder";
  return outside(x);
}

// an input the receiver got: on its own, inside a larger receive buffer, or as a Buffer
function newDec(h, b) {
  let mem, view;
  switch (h % 3) {
    case 0:
      mem = view = CountingU8.from(b);
      break;
    case 1:
      mem = new CountingU8(b.length + 64).fill(5);
      mem.set(b, 24);
      view = mem.subarray(24, 24 + b.length);
      break;
    default:
      mem = Buffer.alloc(b.length + 32, 7);
      b.copy(mem, 16);
      view = mem.subarray(16, 16 + b.length);
  }
  return { d: new P.Decoder(view), view, want: Buffer.from(b) };
}

// get returns [bits, raw value]; the raw value is converted by show
function get(x, k, key, sub) {
  const d = x.d;
  switch (k) {
    case 0: if (!d.null()) throw new Error("not null"); return true;
    case 1: return d.array(kind(sub));
    case 2: return d.map(kind(key), kind(sub));
    case 3: if (!d.any()) throw new Error("not any"); return true;
    case 4: return d.uint8Array();
    case 5: return d.string();
    case 6: return d.error();
    case 7: return d.boolean();
    case 8: return d.uint8();
    case 9: return d.uint16();
    case 10: return d.uint32();
    case 11: return d.uint64();
    case 12: return d.int32();
    case 13: return d.int64();
    case 14: return d.float32();
    case 15: return d.float64();
  }
  harness("kind");
}

const NONE = Buffer.alloc(0);
class BadType extends Error {}
function num(v) {
  if (typeof v !== "number" || !Number.isInteger(v)) throw new BadType("returned " + typeof v + " " + String(v));
  return BigInt(v);
}
function big(v) {
  if (typeof v !== "bigint") throw new BadType("returned " + typeof v);
  return v;
}
function show(k, v) {
  switch (k) {
    case 0: case 3: return [0n, NONE];
    case 4:
      if (!(v instanceof Uint8Array)) throw new BadType("returned no Uint8Array");
      return [0n, Buffer.from(v)];
    case 5:
      if (typeof v !== "string") throw new BadType("returned no string");
      return [0n, Buffer.from(v, "utf8")];
    case 6:
      if (!(v instanceof Error)) throw new BadType("returned no Error");
      return [0n, Buffer.from(v.message, "utf8")];
    case 7:
      if (typeof v !== "boolean") throw new BadType("returned no boolean");
      return [v ? 1n : 0n, NONE];
    case 11: case 13: return [big(v), NONE];
    case 14: {
      if (typeof v !== "number") throw new BadType("returned no number");
      const b = Buffer.alloc(4);
      b.writeFloatLE(v);
      return [BigInt(b.readUInt32LE()), NONE];
    }
    case 15: {
      if (typeof v !== "number") throw new BadType("returned no number");
      const b = Buffer.alloc(8);
      b.writeDoubleLE(v);
      return [b.readBigUInt64LE(), NONE];
    }
    default: return [num(v), NONE];
  }
}
const isCrash = (e) =>
  e instanceof BadType ||
  (e instanceof RangeError && /call stack|allocation failed|Invalid array length|Invalid typed array length/.test(e.message));

function guarded(f) {
  try {
    f();
  } catch (e) {
    fail(isCrash(e) ? 2 : 1, e);
  }
}

// ---- callers at once: between calls, and while an error's text is computed,
// a seeded choice decides whose call comes next
function callers() {
  let rng = u64();
  const rate = BigInt(Math.max(1, u32()));
  let left = u32();
  const n = u8();
  const M = (1n << 64n) - 1n;
  const draw = () => {
    rng = (rng + 0x9e3779b97f4a7c15n) & M;
    let z = rng;
    z = ((z ^ (z >> 30n)) * 0xbf58476d1ce4e5b9n) & M;
    z = ((z ^ (z >> 27n)) * 0x94d049bb133111ebn) & M;
    return z ^ (z >> 31n);
  };
  const wants = () => Array.from({ length: u16() }, () => [u8(), u8(), u8()]);
  const cs = [];
  for (let i = 0; i < n; i++) {
    u32();
    const c = { out: [], cap: u32(), ops: [], running: false, done: false };
    for (let k = u16(); k > 0; k--) {
      const op = u8();
      if (op === 0) c.ops.push([op, u8(), u8(), u8(), u64(), Buffer.from(blob()), u8()]);
      else if (op === 1) c.ops.push([op, wants()]);
      else if (op === 2) c.ops.push([op, Buffer.from(blob()), wants(), u8()]);
      else c.ops.push([op]);
    }
    cs.push(c);
  }
  let switches = 0, points = 0n, hash = 14695981039346656037n, cur = null;
  const step = (c) => {
    const [o, was] = [out, cur];
    out = c.out;
    cur = c;
    c.running = true;
    c.done = c.gen.next().done;
    c.running = false;
    c.out = out;
    out = o;
    cur = was;
  };
  const others = () => cs.filter((c) => !c.done && !c.running);
  // a switch point within a call
  const inside = () => {
    points++;
    while (left > 0 && draw() % rate === 0n) {
      const a = others();
      if (a.length === 0) return;
      const c = a[Number(draw() % BigInt(a.length))];
      left--;
      switches++;
      hash = ((hash ^ points ^ (BigInt(cs.indexOf(c)) << 56n)) * 0x100000001b3n) & M;
      step(c);
    }
  };
  function* play(c) {
    const read = function* (b, ws, h) {
      const d = newDec(h, b);
      for (const w of ws) {
        guarded(() => {
          const [x, s] = show(w[0], get(d, w[0], w[1], w[2]));
          p8(0);
          p64(x);
          pblob(s);
        });
        yield;
      }
    };
    const fresh = () => newEnc(c.cap === 512 ? 0 : 1, c.cap);
    let e = fresh();
    yield;
    for (const o of c.ops) {
      if (o[0] === 0) {
        guarded(() => {
          let bad;
          if (o[1] === 6 && o[6] > 0) {
            const t = text(o[5]);
            const err = new Error();
            Object.defineProperty(err, "message", { get() { inside(); if (o[6] === 2) throw new Error("the caller's error fails"); return t; } });
            if (e.e.error(err) !== e.e) bad = "does not return the encoder";
          } else bad = put(e, o[1], o[2], o[3], o[4], o[5]);
          if (bad) fail(2, bad);
          else p8(0);
        });
        yield;
      } else if (o[0] === 1) yield* read(Buffer.from(e.e.bytes), o[1], 0);
      else if (o[0] === 2) yield* read(o[1], o[2], o[3]);
      else e = fresh();
      guarded(() => pblob(e.e.bytes));
      yield;
    }
  }
  for (const c of cs) c.gen = play(c);
  let last = null;
  for (;;) {
    const a = others();
    if (a.length === 0) break;
    points++;
    let c = last;
    if (!c || c.done || (left > 0 && draw() % rate === 0n)) {
      c = a[Number(draw() % BigInt(a.length))];
      if (last && !last.done && c !== last) {
        left--;
        switches++;
        hash = ((hash ^ points ^ (BigInt(cs.indexOf(c)) << 56n)) * 0x100000001b3n) & M;
      }
    }
    step(c);
    last = c;
  }
  p8(0);
  const b = Buffer.alloc(12);
  b.writeUInt32LE(switches);
  b.writeBigUInt64LE(hash, 4);
  out.push(b);
  for (const c of cs) pblob(Buffer.concat(c.out));
}

let base = 0;
function readFull(b) {
  let got = 0;
  while (got < b.length) {
    let k;
    try {
      k = fs.readSync(0, b, got, b.length - got, null);
    } catch (e) {
      if (e.code === "EAGAIN") continue;
      throw e;
    }
    if (k === 0) process.exit(7);
    got += k;
  }
}

const hdr = Buffer.alloc(4);
for (;;) {
  readFull(hdr);
  inb = Buffer.allocUnsafeSlow(hdr.readUInt32LE());
  readFull(inb);
  ip = 0;
  out = [];
  while (ip < inb.length) {
    const c = u8();
    switch (c) {
      case 1:
        reset();
        p8(0);
        break;
      case 2: {
        const h = u16(), mode = u8(), cap = u32();
        guarded(() => {
          encs.set(h, newEnc(mode, cap));
          p8(0);
        });
        break;
      }
      case 3: {
        const h = u16(), k = u8(), key = u8(), sub = u8(), n = u64(), b = blob();
        guarded(() => {
          const bad = put(encs.get(h), k, key, sub, n, b);
          if (bad) fail(2, bad);
          else p8(0);
        });
        break;
      }
      case 4: {
        const h = u16();
        guarded(() => {
          const b = encs.get(h).e.bytes;
          if (!(b instanceof Uint8Array)) throw new BadType("bytes is no Uint8Array");
          p8(0);
          pblob(b);
        });
        break;
      }
      case 5:
        encs.delete(u16());
        p8(0);
        break;
      case 6: {
        const h = u16(), b = blob();
        guarded(() => {
          decs.set(h, newDec(h, b));
          p8(0);
        });
        break;
      }
      case 7: {
        const h = u16(), k = u8(), key = u8(), sub = u8();
        guarded(() => {
          const [n, s] = show(k, get(decs.get(h), k, key, sub));
          p8(0);
          p64(n);
          pblob(s);
        });
        break;
      }
      case 8: {
        const h = u16(), x = decs.get(h);
        decs.delete(h);
        if (x && !x.scribbled && Buffer.compare(Buffer.from(x.view), x.want) !== 0) fail(2, "the input was modified");
        else p8(0);
        break;
      }
      case 9:
        counted = 0;
        p8(0);
        break;
      case 10:
        p8(0);
        p64(BigInt(counted));
        break;
      case 11: { // read and hold
        const h = u16(), o = u16(), k = u8(), key = u8(), sub = u8();
        guarded(() => {
          const v = get(decs.get(h), k, key, sub);
          objs.set(o, [k, v]);
          const [n, s] = show(k, v);
          p8(0);
          p64(n);
          pblob(s);
        });
        break;
      }
      case 12: { // look at a held value again
        const o = u16();
        guarded(() => {
          const [k, v] = objs.get(o);
          const [n, s] = show(k, v);
          p8(0);
          p64(n);
          pblob(s);
        });
        break;
      }
      case 13: { // the receiver reuses its input memory
        const x = decs.get(u16());
        if (Buffer.compare(Buffer.from(x.view), x.want) !== 0) fail(2, "the input was modified");
        else p8(0);
        x.scribbled = true;
        x.view.fill(FILL);
        break;
      }
      case 14:
        callers();
        break;
      default:
        harness("command " + c);
    }
  }
  const n = out.reduce((a, b) => a + b.length, 0);
  const h = Buffer.alloc(4);
  h.writeUInt32LE(n);
  const all = Buffer.concat([h, ...out]);
  let sent = 0;
  while (sent < all.length) {
    try {
      sent += fs.writeSync(1, all, sent);
    } catch (e) {
      if (e.code !== "EAGAIN") throw e;
    }
  }
}
