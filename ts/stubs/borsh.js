// Stand-in for borsh-js 0.6 (not installed here): the schema dialect and behaviour the client relies on.
import BN from "bn.js";
export class BorshError extends Error {}
const INTS = { u8: 1, u16: 2, u32: 4, u64: 8, u128: 16, u256: 32, u512: 64 };

class Writer {
  constructor() { this.out = []; }
  int(v, n) {
    if (n <= 4) {
      v = Number(v);
      if (!Number.isInteger(v) || v < 0 || v >= 2 ** (8 * n)) {
        throw new BorshError("value out of range: " + v);
      }
      for (let i = 0; i < n; i++) this.out.push(Math.floor(v / 2 ** (8 * i)) % 256);
    } else {
      this.out.push(...new BN(v).toArray("le", n));
    }
  }
}
function writeField(schema, value, type, w) {
  if (typeof type === "string") {
    if (type in INTS) return w.int(value, INTS[type]);
    if (type === "string") {
      const b = Buffer.from(value, "utf8");
      w.int(b.length, 4);
      w.out.push(...b);
      return;
    }
    throw new BorshError("unknown type " + type);
  }
  if (Array.isArray(type)) {
    if (typeof type[0] === "number") {
      if (value.length !== type[0]) throw new BorshError(`Expecting byte array of length ${type[0]}, but got ${value.length} bytes`);
      for (const x of value) w.int(x, 1);
    } else if (type.length === 2 && typeof type[1] === "number") {
      if (value.length !== type[1]) throw new BorshError(`Expecting array of length ${type[1]}, but got ${value.length}`);
      for (const x of value) writeField(schema, x, type[0], w);
    } else {
      w.int(value.length, 4);
      for (const x of value) writeField(schema, x, type[0], w);
    }
    return;
  }
  if (type.kind !== undefined) {
    if (type.kind === "option") {
      if (value === null || value === undefined) return w.int(0, 1);
      w.int(1, 1);
      return writeField(schema, value, type.type, w);
    }
    throw new BorshError("unknown kind " + type.kind);
  }
  writeStruct(schema, value, w);
}
function writeStruct(schema, obj, w) {
  const s = schema.get(obj.constructor);
  if (!s) throw new BorshError(`Class ${obj.constructor.name} is missing in schema`);
  if (s.kind === "struct") {
    for (const [f, t] of s.fields) writeField(schema, obj[f], t, w);
  } else if (s.kind === "enum") {
    for (let i = 0; i < s.values.length; i++) {
      const [f, t] = s.values[i];
      if (f === obj[s.field]) { w.int(i, 1); writeField(schema, obj[f], t, w); break; }
    }
  } else throw new BorshError("unexpected schema kind " + s.kind);
}
export function serialize(schema, obj) {
  const w = new Writer();
  writeStruct(schema, obj, w);
  return Uint8Array.from(w.out);
}

class Reader {
  constructor(buf) { this.buf = buf; this.o = 0; }
  bytes(n) {
    if (this.o + n > this.buf.length) throw new BorshError(`Expected buffer length ${n} isn't within bounds`);
    const r = this.buf.slice(this.o, this.o + n);
    this.o += n;
    return r;
  }
  int(n) {
    const b = this.bytes(n);
    if (n <= 4) {
      let v = 0;
      for (let i = n - 1; i >= 0; i--) v = v * 256 + b[i];
      return v;
    }
    return new BN(b, "le");
  }
}
function readField(schema, type, r) {
  if (typeof type === "string") {
    if (type in INTS) return r.int(INTS[type]);
    if (type === "string") return Buffer.from(r.bytes(r.int(4))).toString("utf8");
    throw new BorshError("unknown type " + type);
  }
  if (Array.isArray(type)) {
    if (typeof type[0] === "number") return Uint8Array.from(r.bytes(type[0]));
    const n = typeof type[1] === "number" ? type[1] : r.int(4);
    const out = [];
    for (let i = 0; i < n; i++) out.push(readField(schema, type[0], r));
    return out;
  }
  if (type.kind === "option") return r.int(1) ? readField(schema, type.type, r) : undefined;
  return readStruct(schema, type, r);
}
function readStruct(schema, cls, r) {
  const s = schema.get(cls);
  if (!s) throw new BorshError(`Class ${cls.name} is missing in schema`);
  if (s.kind === "struct") {
    const res = {};
    for (const [f, t] of s.fields) res[f] = readField(schema, t, r);
    return new cls(res);
  }
  if (s.kind === "enum") {
    const i = r.int(1);
    if (i >= s.values.length) throw new BorshError(`Enum index: ${i} is out of range`);
    const [f, t] = s.values[i];
    return new cls({ [f]: readField(schema, t, r) });
  }
  throw new BorshError("unexpected schema kind " + s.kind);
}
// the reader and writer classes of borsh-js
export class BinaryReader {
  constructor(buf) { this.r = new Reader(buf); this.buf = buf; }
  get offset() { return this.r.o; }
  set offset(o) { this.r.o = o; }
  readU8() { return this.r.int(1); }
  readU16() { return this.r.int(2); }
  readU32() { return this.r.int(4); }
  readU64() { return this.r.int(8); }
  readU128() { return this.r.int(16); }
  readString() { return Buffer.from(this.r.bytes(this.r.int(4))).toString("utf8"); }
  readFixedArray(n) { return Uint8Array.from(this.r.bytes(n)); }
  readArray(fn) { const n = this.r.int(4); return Array.from({ length: n }, () => fn()); }
}
export class BinaryWriter {
  constructor() { this.w = new Writer(); }
  get length() { return this.w.out.length; }
  writeU8(v) { this.w.int(v, 1); }
  writeU16(v) { this.w.int(v, 2); }
  writeU32(v) { this.w.int(v, 4); }
  writeU64(v) { this.w.int(v, 8); }
  writeU128(v) { this.w.int(v, 16); }
  writeString(s) { const b = Buffer.from(s, "utf8"); this.w.int(b.length, 4); this.w.out.push(...b); }
  writeFixedArray(a) { this.w.out.push(...a); }
  writeArray(a, fn) { this.w.int(a.length, 4); for (const x of a) fn(x); }
  toArray() { return Uint8Array.from(this.w.out); }
}
export function deserialize(schema, cls, buf) {
  const r = new Reader(buf);
  const v = readStruct(schema, cls, r);
  if (r.o < buf.length) throw new BorshError(`Unexpected ${buf.length - r.o} bytes after deserialized data`);
  return v;
}
export function deserializeUnchecked(schema, cls, buf) {
  return readStruct(schema, cls, new Reader(buf));
}
