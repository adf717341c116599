// Stand-in for bn.js 5 (not installed here), over BigInt: same results and errors for the operations below.
function toBig(x, base, endian) {
  if (x instanceof BN) return x.v;
  if (typeof x === "bigint") return x;
  if (typeof x === "number") {
    if (!Number.isSafeInteger(x)) throw new Error("Assertion failed");
    return BigInt(x);
  }
  if (typeof x === "string") {
    if (base === 16 || base === "hex") {
      const neg = x.startsWith("-");
      const b = BigInt("0x" + (neg ? x.slice(1) : x || "0"));
      return neg ? -b : b;
    }
    if (base === 2) return BigInt("0b" + x);
    return BigInt(x);
  }
  if (x && typeof x.length === "number") {
    const le = base === "le" || endian === "le";
    let r = 0n;
    for (let i = 0; i < x.length; i++) r = (r << 8n) | BigInt(x[le ? x.length - 1 - i : i]);
    return r;
  }
  throw new Error("BN: cannot convert " + x);
}
class BN {
  constructor(x = 0, base = 10, endian) {
    // as in bn.js, a BN given is returned itself, not copied
    if (x instanceof BN) return x;
    this.v = toBig(x, base, endian);
  }
  static isBN(x) { return x instanceof BN; }
  static max(a, b) { return a.v > b.v ? a : b; }
  static min(a, b) { return a.v < b.v ? a : b; }
  clone() { return mk(this.v); }
  toString(base = 10, padding = 0) {
    let s = this.v.toString(base === "hex" ? 16 : base);
    while (padding && s.length % padding) s = "0" + s;
    return s;
  }
  toJSON() { return this.toString(16, 2); }
  toNumber() {
    if (this.v > 0x1fffffffffffffn || this.v < -0x1fffffffffffffn) throw new Error("Number can only safely store up to 53 bits");
    return Number(this.v);
  }
  bitLength() { const a = this.v < 0n ? -this.v : this.v; return a === 0n ? 0 : a.toString(2).length; }
  byteLength() { return Math.ceil(this.bitLength() / 8); }
  toArray(endian = "be", length) {
    if (this.v < 0n) throw new Error("negative");
    const out = [];
    for (let a = this.v; a > 0n; a >>= 8n) out.push(Number(a & 255n));
    const n = length || Math.max(1, out.length);
    if (out.length > n) throw new Error("byte array longer than desired length");
    while (out.length < n) out.push(0);
    return endian === "le" ? out : out.reverse();
  }
  toArrayLike(type, endian, length) { const a = this.toArray(endian, length); return type.from ? type.from(a) : new type(a); }
  toBuffer(endian, length) { return Buffer.from(this.toArray(endian, length)); }
  isNeg() { return this.v < 0n; }
  isZero() { return this.v === 0n; }
  isEven() { return (this.v & 1n) === 0n; }
  isOdd() { return (this.v & 1n) === 1n; }
  cmp(b) { return this.v < b.v ? -1 : this.v > b.v ? 1 : 0; }
  cmpn(b) { return this.cmp(mk(BigInt(b))); }
  ucmp(b) { return this.abs().cmp(b.abs()); }
  abs() { return mk(this.v < 0n ? -this.v : this.v); }
  neg() { return mk(-this.v); }
  testn(n) { return ((this.v >> BigInt(n)) & 1n) === 1n; }
  setn(n, b) { const m = 1n << BigInt(n); this.v = b ? this.v | m : this.v & ~m; return this; }
  notn(w) { return mk(this.v ^ ((1n << BigInt(w)) - 1n)); }
  inotn(w) { this.v = this.notn(w).v; return this; }
  maskn(w) { return mk(this.v & ((1n << BigInt(w)) - 1n)); }
  imaskn(w) { this.v = this.maskn(w).v; return this; }
  zeroBits() { if (this.v === 0n) return 0; let n = 0, a = this.v; while (!(a & 1n)) { a >>= 1n; n++; } return n; }
  sqr() { return mk(this.v * this.v); }
  divmod(b) { return { div: this.div(b), mod: this.mod(b) }; }
  divRound(b) { const q = this.v / need(b.v), m = this.v % b.v; return mk(2n * m >= b.v ? q + 1n : q); }
  andln(n) { return Number(this.v & BigInt(n)); }
  bincn(n) { this.v += 1n << BigInt(n); return this; }
  gcd(b) { let x = this.v, y = b.v; while (y) [x, y] = [y, x % y]; return mk(x); }
  idivn(n) { this.v = this.v / BigInt(n); return this; }
  ineg() { this.v = -this.v; return this; }
  iabs() { if (this.v < 0n) this.v = -this.v; return this; }
  isqr() { this.v *= this.v; return this; }
  divn(n) { return this.div(mk(BigInt(n))); }
  modn(n) { return Number(this.v % BigInt(n)); }
  modrn(n) { return this.modn(n); }
  umod(b) { const m = this.v % b.v; return mk(m < 0n ? m + (b.v < 0n ? -b.v : b.v) : m); }
  fromTwos(w) { return this.testn(w - 1) ? mk(this.v - (1n << BigInt(w))) : this.clone(); }
  toTwos(w) { return this.v < 0n ? mk(this.v + (1n << BigInt(w))) : this.clone(); }
}
function mk(v) { const r = Object.create(BN.prototype); r.v = v; return r; }
const need = (b) => { if (b === 0n) throw new Error("Assertion failed"); return b; };
const ops = {
  add: (a, b) => a + b, sub: (a, b) => a - b, mul: (a, b) => a * b, div: (a, b) => a / need(b), mod: (a, b) => a % need(b),
  and: (a, b) => a & b, or: (a, b) => a | b, xor: (a, b) => a ^ b, pow: (a, b) => a ** b,
  shl: (a, b) => a << b, shr: (a, b) => a >> b,
};
for (const [k, f] of Object.entries(ops)) {
  BN.prototype[k] = function (b) { return mk(f(this.v, b.v)); };
  BN.prototype["i" + k] = function (b) { this.v = f(this.v, b.v); return this; };
  BN.prototype["u" + k] = BN.prototype[k];
  BN.prototype["iu" + k] = BN.prototype["i" + k];
  if (["add", "sub", "mul", "and", "or", "shl", "shr"].includes(k)) {
    const n = k + "n";
    BN.prototype[n] = function (b) { return mk(f(this.v, BigInt(b))); };
    BN.prototype["i" + n] = function (b) { this.v = f(this.v, BigInt(b)); return this; };
  }
}
// bn.js names shifts by a number of bits shln / ushln
for (const [k, c] of Object.entries({ eq: (x) => x === 0, lt: (x) => x < 0, lte: (x) => x <= 0, gt: (x) => x > 0, gte: (x) => x >= 0 })) {
  BN.prototype[k] = function (b) { return c(this.cmp(b)); };
  BN.prototype[k + "n"] = function (b) { return c(this.cmpn(b)); };
}
BN.prototype.ushln = BN.prototype.shln;
BN.prototype.ushrn = BN.prototype.shrn;
BN.BN = BN;
export default BN;
export { BN };
