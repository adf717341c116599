// Stand-in for the parts of @solana/web3.js the client touches.
import BN from "bn.js";
const A = "123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz";
function dec58(s) {
  let v = 0n;
  for (const c of s) v = v * 58n + BigInt(A.indexOf(c));
  const out = [];
  for (; v > 0n; v >>= 8n) out.push(Number(v & 255n));
  while (out.length < 32) out.push(0);
  return Uint8Array.from(out.reverse());
}
let serial = 0;
export class PublicKey {
  constructor(x) {
    if (x instanceof PublicKey) this.b = x.b;
    else if (typeof x === "string") this.b = dec58(x);
    else if (x instanceof BN) this.b = Uint8Array.from(x.toArray("be", 32));
    else this.b = Uint8Array.from(x);
    if (this.b.length !== 32) throw new Error("Invalid public key input");
  }
  equals(o) { return this.toString() === o.toString(); }
  toBytes() { return Uint8Array.from(this.b); }
  toBuffer() { return Buffer.from(this.b); }
  toString() { return Buffer.from(this.b).toString("hex"); }
  toJSON() { return this.toString(); }
  toBase58() { return this.toString(); }
}
PublicKey.default = new PublicKey(new Uint8Array(32));
export class Keypair {
  constructor() {
    const b = new Uint8Array(32);
    new DataView(b.buffer).setUint32(0, ++serial);
    b[31] = 7;
    this.publicKey = new PublicKey(b);
    this.secretKey = new Uint8Array(64);
  }
  static generate() { return new Keypair(); }
}
export class TransactionInstruction {
  constructor(o) { this.keys = o.keys; this.programId = o.programId; this.data = o.data || Buffer.alloc(0); }
}
export const SystemProgram = {
  programId: PublicKey.default,
  createAccount(p) { return { create: p, keys: [], programId: PublicKey.default, data: Buffer.alloc(0) }; },
};
// accounts by key, and the rent the chain asks
export class Connection {
  constructor(accounts) { this.accounts = accounts; }
  async getAccountInfo(key) {
    const d = this.accounts.get(key.toString());
    return d ? { data: Buffer.from(d), executable: false, lamports: 1, owner: PublicKey.default } : null;
  }
  async getMultipleAccountsInfo(keys) { return Promise.all(keys.map((k) => this.getAccountInfo(k))); }
  async getMinimumBalanceForRentExemption(n) { return (n + 128) * 6960; }
}
