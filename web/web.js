// Plays the JavaScript caller of twiggy's web interface, without wasm-bindgen's
// command-line tool: it reads the descriptors that the module carries for that
// tool and marshals arguments and results by them.
//
// web.js MODULE: reads one session per line (JSON) from standard input, and
// answers each with one line (JSON). A session gets an instance of its own.
"use strict";
const fs = require("fs");

const T = ("I8 U8 I16 U16 I32 U32 I64 U64 F32 F64 BOOLEAN FUNCTION CLOSURE CACHED_STRING STRING REF REFMUT " +
  "SLICE VECTOR EXTERNREF NAMED_EXTERNREF ENUM RUST_STRUCT CHAR OPTIONAL RESULT UNIT CLAMPED").split(" ");

// LEB128 at `at`: value and what follows.
function leb(b, at) {
  let n = 0, k = 0;
  for (;;) {
    const x = b[at++];
    n += (x & 0x7f) * 2 ** k;
    k += 7;
    if (!(x & 0x80)) return [n, at];
  }
}

function enc(n) {
  const out = [];
  do {
    const x = n & 0x7f;
    n = Math.floor(n / 128);
    out.push(n ? x | 0x80 : x);
  } while (n);
  return out;
}

// The innermost function of a trap that is not the standard library's.
function where(e) {
  for (const m of String(e.stack).matchAll(/_ZN(\S+?)17h[0-9a-f]{16}E/g)) {
    const parts = [];
    let s = m[1].replace(/^K/, "");
    for (let n; (n = /^\d+/.exec(s)); ) {
      parts.push(s.substr(n[0].length, +n[0]));
      s = s.slice(n[0].length + +n[0]);
    }
    const p = parts.join("::").replace(/\$LT\$|\$GT\$|^_/g, "");
    if (!/^(std|core|alloc|wasm_bindgen|compiler_builtins)\b|^(core|alloc|std)\.\./.test(p)) return " in " + p;
  }
  return "";
}

// The module with another limit on the size of its memory, and without the
// sections that only debuggers want.
function rewritten(bytes, extra) {
  const parts = [bytes.subarray(0, 8)];
  const name = Buffer.from("\x04name");
  for (let at = 8; at < bytes.length; ) {
    const id = bytes[at];
    const [len, body] = leb(bytes, at + 1);
    const end = body + len;
    if (id === 5 && extra !== null) {
      const [, a] = leb(bytes, body);
      const [min] = leb(bytes, a + 1);
      const b = [1, 1, ...enc(min), ...enc(min + extra)];
      parts.push(Buffer.from([5, ...enc(b.length), ...b]));
    } else if (id !== 0 || bytes.subarray(body, body + 5).equals(name)) {
      parts.push(bytes.subarray(at, end));
    }
    at = end;
  }
  return Buffer.concat(parts);
}

const file = fs.readFileSync(process.argv[2]);
const modules = new Map();
function compiled(extra) {
  if (!modules.has(extra)) modules.set(extra, new WebAssembly.Module(rewritten(file, extra)));
  return modules.get(extra);
}

class Thrown extends Error {}
class Missing extends Error {}

class Web {
  constructor(extra) {
    this.heap = new Map();
    this.next = 200;
    const told = [];
    const put = (v) => { this.heap.set(this.next, v); return this.next++; };
    const text = (p, n) => Buffer.from(new Uint8Array(this.x.memory.buffer, p >>> 0, n >>> 0)).toString("utf8");
    const known = {
      __wbindgen_describe: (n) => { told.push(n >>> 0); },
      __wbindgen_throw: (p, n) => { throw new Thrown(text(p, n)); },
      __wbindgen_rethrow: (i) => { throw this.heap.get(i); },
      __wbindgen_string_new: (p, n) => put(text(p, n)),
      __wbindgen_error_new: (p, n) => put(new Error(text(p, n))),
      __wbindgen_object_drop_ref: (i) => { this.heap.delete(i); },
      __wbindgen_object_clone_ref: (i) => put(this.heap.get(i)),
      __wbindgen_externref_table_grow: (n) => { const at = this.next; this.next += n; return at; },
      __wbindgen_externref_table_set_null: (i) => { this.heap.delete(i); },
    };
    const module = compiled(extra);
    const imports = {};
    for (const i of WebAssembly.Module.imports(module)) {
      let f = known[i.name];
      if (!f && i.name.startsWith("__wbg_new_")) f = () => put(new Error());
      imports[i.module] = imports[i.module] || {};
      imports[i.module][i.name] = f || (() => { throw new Error("unexpected import " + i.name); });
    }
    this.x = new WebAssembly.Instance(module, imports).exports;
    this.told = told;
    this.sigs = new Map();
  }

  // A value's type, as told by the module.
  type(d) {
    const t = T[d.shift()];
    switch (t) {
      case "REF": case "REFMUT": case "SLICE": case "VECTOR": case "OPTIONAL": case "RESULT": case "CLAMPED":
        return { t, of: this.type(d) };
      case "RUST_STRUCT": case "NAMED_EXTERNREF": {
        const n = d.shift();
        return { t, name: String.fromCharCode(...d.splice(0, n)) };
      }
      case "ENUM":
        return { t, hole: d.shift() };
      default:
        return { t };
    }
  }

  signature(name) {
    if (!this.sigs.has(name)) {
      const f = this.x["__wbindgen_describe_" + name];
      if (!f) throw new Missing("the interface has no " + name);
      this.told.length = 0;
      f();
      const d = this.told.slice();
      if (T[d.shift()] !== "FUNCTION") throw new Missing(name + " is no function");
      d.shift();
      const args = [];
      for (let n = d.shift(); n > 0; n--) args.push(this.type(d));
      this.sigs.set(name, { args, ret: this.type(d) });
    }
    return this.sigs.get(name);
  }

  // The results that come back through memory rather than as a value.
  static wide(t) {
    return t.t === "RESULT" || t.t === "STRING" || t.t === "CACHED_STRING" || t.t === "VECTOR" || t.t === "OPTIONAL";
  }

  words(p, n) {
    const v = new DataView(this.x.memory.buffer);
    return Array.from({ length: n }, (_, i) => v.getUint32(p + 4 * i, true));
  }

  // `self` is the pointer of a method's receiver, or null.
  call(name, self, given) {
    const { args, ret } = this.signature(name);
    const raw = [];
    const wide = Web.wide(ret);
    let at = 0;
    if (wide) {
      at = this.x.__wbindgen_malloc(32) >>> 0;
      raw.push(at);
    }
    if (self !== null) raw.push(self);
    if (args.length !== given.length) throw new Missing(name + " wants " + args.length + " arguments");
    args.forEach((t, i) => {
      const v = given[i];
      while (t.t === "REF" || t.t === "REFMUT") t = t.of;
      if (t.t === "SLICE" || t.t === "VECTOR" || t.t === "STRING" || t.t === "CACHED_STRING") {
        const b = typeof v === "string" ? Buffer.from(v, "utf8") : v;
        const p = this.x.__wbindgen_malloc(b.length) >>> 0;
        new Uint8Array(this.x.memory.buffer).set(b, p);
        raw.push(p, b.length);
      } else {
        raw.push(typeof v === "boolean" ? (v ? 1 : 0) : v);
      }
    });
    const got = this.x[name](...raw);
    if (!wide) return got;
    const result = this.result(ret, at);
    this.x.__wbindgen_free(at, 32);
    return result;
  }

  result(t, at) {
    if (t.t === "RESULT") {
      const inner = t.of.t === "UNIT" ? 0 : Web.wide(t.of) ? 2 : 1;
      const [err, isErr] = this.words(at + 4 * inner, 2);
      if (isErr) {
        const e = this.heap.get(err);
        throw new Thrown(e instanceof Error ? e.message : String(e));
      }
      return inner === 2 ? this.result(t.of, at) : inner === 1 ? this.words(at, 1)[0] : undefined;
    }
    const [p, n] = this.words(at, 2);
    if (t.t === "OPTIONAL" && p === 0) return undefined;
    const bytes = Buffer.from(new Uint8Array(this.x.memory.buffer, p, n));
    this.x.__wbindgen_free(p, n);
    return bytes;
  }
}

function session(s) {
  const files = s.files.map((f) => Buffer.from(f, "hex"));
  const out = [];
  const w = new Web(s.pages === undefined ? null : s.pages);
  const pages0 = w.x.memory.buffer.byteLength / 65536;
  const kept = new Map();
  for (const op of s.ops) {
    let r;
    try {
      if (op.parse !== undefined) {
        kept.set(op.into, w.call("items_parse", null, [files[op.parse]]));
        r = { ok: "" };
      } else if (op.free !== undefined) {
        w.x.__wbg_items_free(kept.get(op.free));
        kept.delete(op.free);
        r = { ok: "" };
      } else {
        const o = w.call(op.run + "_new", null, []);
        for (const [name, v] of op.set) w.call(op.run + "_" + name, o, [v]);
        const got = op.get.map((name) => w.call(op.run + "_" + name, o, []) >>> 0);
        const on = kept.get(op.on);
        const args = op.run === "diff" ? [kept.get(op.new), o] : [o];
        try {
          r = { ok: w.call("items_" + op.run, on, args).toString("latin1"), got };
        } catch (e) {
          if (!(e instanceof Thrown)) throw e;
          r = { thrown: e.message };
        }
        w.x["__wbg_" + op.run + "_free"](o);
      }
    } catch (e) {
      r = e instanceof Thrown ? { thrown: e.message }
        : e instanceof WebAssembly.RuntimeError || e instanceof RangeError ? { trap: e.message + where(e) }
        : e instanceof Missing ? { missing: e.message }
        : { broken: String(e && e.stack || e) };
    }
    out.push(r);
    if (r.trap !== undefined || r.broken !== undefined || r.missing !== undefined) break;
  }
  return { out, grown: w.x.memory.buffer.byteLength / 65536 - pages0, values: w.heap.size };
}

let pending = Buffer.alloc(0);
let sessions = 0;
const chunk = Buffer.alloc(1 << 16);
for (;;) {
  const nl = pending.indexOf(10);
  if (nl >= 0) {
    const line = pending.subarray(0, nl).toString("utf8");
    pending = pending.subarray(nl + 1);
    let a;
    // Every instance reserves address space until it is collected.
    if (++sessions % 8 === 0 && globalThis.gc) globalThis.gc();
    try {
      a = session(JSON.parse(line));
    } catch (e) {
      a = { broken: String(e && e.stack || e) };
    }
    const b = Buffer.from(JSON.stringify(a) + "\n");
    for (let at = 0; at < b.length; ) at += fs.writeSync(1, b, at);
    continue;
  }
  const n = fs.readSync(0, chunk, 0, chunk.length, null);
  if (n === 0) break;
  pending = Buffer.concat([pending, chunk.subarray(0, n)]);
}
