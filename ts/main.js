// Runs the TypeScript client of the working tree: `read FILE` compares its readers with recorded program states,
// `build FILE OUT` builds instruction data for recorded operations.
import fs from "node:fs";
import BN from "bn.js";
import { Connection, PublicKey } from "@solana/web3.js";
import * as aob from "aob/index";
import { MarketState, SelfTradeBehavior } from "aob/market_state";
import { Slab, LeafNode, InnerNode } from "aob/slab";
import { EventQueue, EventQueueHeader, EventFill, EventOut, Side } from "aob/event_queue";
import { getPriceFromKey } from "aob/utils";
import * as raw from "aob/raw_instructions";
import { createMarket } from "aob/bindings";

const hex = (b) => Buffer.from(b).toString("hex");
const bin = (s) => Buffer.from(s, "hex");
const S = (x) => (x === undefined || x === null ? "none" : x.toString());

class Mismatch extends Error {}
function eq(what, got, want) {
  if (got !== want) throw new Mismatch(`${what}: reader says ${got}, program holds ${want}`);
}
const counts = {};
const count = (k, n = 1) => (counts[k] = (counts[k] || 0) + n);

function leafStr(ref) {
  const l = ref.leafNode;
  return `${S(l.key)} ${S(l.getPrice())} ${S(l.baseQuantity)} ${hex(ref.callbackInfo)}`;
}
const orderStr = (o) => `${o.id} ${o.price} ${o.qty} ${o.cb}`;

function list(what, got, want) {
  eq(what + " count", got.length, want.length);
  for (let i = 0; i < want.length; i++) eq(`${what}[${i}]`, got[i], want[i]);
}
// a reader that goes round in circles must not take the memory with it
function take(it, max) {
  const out = [];
  for (const x of it) {
    out.push(x);
    if (out.length > max) throw new Mismatch("iteration does not end");
  }
  return out;
}

function levels(asc) {
  const out = [];
  for (const o of asc) {
    const l = out[out.length - 1];
    if (l && l.price === o.price) l.size += BigInt(o.qty);
    else out.push({ price: o.price, size: BigInt(o.qty) });
  }
  return out;
}

function checkSlab(name, slab, want, absent, isBids, k) {
  const asc = want.map(orderStr);
  const desc = [...asc].reverse();
  eq(`${name} order count`, slab.header.leafCount, want.length);
  list(`${name} ascending`, take(slab.items(), want.length).map(leafStr), asc);
  list(`${name} ascending (false)`, take(slab.items(false), want.length).map(leafStr), asc);
  list(`${name} descending`, take(slab.items(true), want.length).map(leafStr), desc);
  list(`${name} iteration`, take(slab, want.length).map(leafStr), asc);
  // on a very large side, a sample of the lookups
  const every = want.length > 5000 ? 97 : 1;
  for (let i = 0; i < want.length; i += every) {
    const o = want[i];
    const n = slab.getNodeByKey(new BN(o.id));
    eq(`${name} lookup of ${o.id}`, n ? `${S(n.key)} ${S(n.baseQuantity)} ${S(n.getPrice())}` : "none", `${o.id} ${o.qty} ${o.price}`);
    eq(`price of key ${o.id}`, S(getPriceFromKey(new BN(o.id))), o.price);
    count("lookups");
  }
  for (const id of absent) {
    const n = slab.getNodeByKey(new BN(id));
    eq(`${name} lookup of ${id}`, n ? "found" : "none", "none");
    count("absent_lookups");
  }
  const lv = levels(want);
  const depths = [0, 1, 2, 3, Math.max(0, lv.length - 1), lv.length, lv.length + 1, want.length + 5, (k * 7) % 11];
  for (const n of new Set(every > 1 ? depths.filter((n) => n < 20 || n === lv.length) : depths)) {
    for (const inc of [true, false]) {
      const w = (inc ? lv : [...lv].reverse()).slice(0, n).map((l) => `${l.price} ${l.size}`);
      const g = slab.getL2DepthJS(n, inc).map((l) => `${S(l.price)} ${S(l.size)}`);
      list(`${name} depth ${n} ${inc ? "increasing" : "decreasing"}`, g, w);
      count("depth_queries");
      list(`${name} top ${n} ${inc ? "lowest" : "highest"}`, slab.getMinMaxNodes(n, !inc).map(leafStr), (inc ? asc : desc).slice(0, n));
    }
  }
  if (lv.length < want.length) count("sides_with_shared_levels");
  count("orders", want.length);
  // best first
  if (want.length) {
    const best = isBids ? desc[0] : asc[0];
    eq(`${name} best order`, leafStr(slab.getMinMaxNodes(1, isBids)[0]), best);
  }
  // what is walked must be nodes
  if (want.length > 1 && !(slab.getNode(slab.header.rootNode) instanceof InnerNode)) throw new Mismatch(`${name}: root is no inner node`);
  if (want.length === 1 && !(slab.getNode(slab.header.rootNode) instanceof LeafNode)) throw new Mismatch(`${name}: root is no leaf`);
}

const evStr = (e) =>
  e instanceof EventFill
    ? `fill ${e.takerSide} ${S(e.makerOrderId)} ${S(e.baseSize)} ${S(e.quoteSize)} ${hex(e.makerCallbackInfo)} ${hex(e.takerCallbackInfo)}`
    : e instanceof EventOut
    ? `out ${e.side} ${S(e.orderId)} ${S(e.baseSize)} ${hex(e.callbackInfo)}`
    : "unknown event";
const wantEv = (e) => (e.type === "fill" ? `fill ${e.side} ${e.id} ${e.base} ${e.quote} ${e.cb} ${e.taker}` : `out ${e.side} ${e.id} ${e.base} ${e.cb}`);

function checkQueue(q, data, want, k) {
  eq("queue head", S(q.header.head), want.head);
  eq("queue count", S(q.header.count), want.count);
  eq("queue sequence number", S(q.header.seqNum), want.seq);
  const evs = want.events.map(wantEv);
  for (let i = 0; i < evs.length; i++) eq(`event ${i}`, evStr(q.peekAt(i)), evs[i]);
  const fills = (n) => evs.slice(0, n).filter((e) => e.startsWith("fill"));
  list("fill events", q.parseFill().map(evStr), fills(evs.length));
  for (const n of new Set([1, 2, evs.length, evs.length + 3, 1 + (k % 9)])) if (n > 0) list(`fill events of the first ${n}`, q.parseFill(n).map(evStr), fills(n));
  const h = EventQueue.parseEventQueueHeader(data.slice(0, EventQueueHeader.LEN));
  eq("queue header alone", `${S(h.head)} ${S(h.count)} ${S(h.seqNum)}`, `${want.head} ${want.count} ${want.seq}`);
  count("events", evs.length);
}

async function checkState(s, k) {
  const d = Object.fromEntries(Object.entries(s.data).map(([n, h]) => [n, bin(h)]));
  const w = s.want;
  const con = new Connection(new Map([[s.keys.market, d.market], [s.keys.eq, d.eq], [s.keys.bids, d.bids], [s.keys.asks, d.asks]]));
  const key = (h) => new PublicKey(bin(h));
  for (const m of [MarketState.deserialize(Buffer.from(d.market), s.cbLen), await MarketState.retrieve(con, key(s.keys.market), s.cbLen)]) {
    eq("market's event queue", S(m.eventQueue), s.keys.eq);
    eq("market's bids", S(m.bids), s.keys.bids);
    eq("market's asks", S(m.asks), s.keys.asks);
    eq("minimum order size", S(m.minBaseOrderSize), w.min);
    eq("tick size", S(m.tickSize), w.tick);
    eq("callback info length", m.callbackInfoLen, s.cbLen);
    if (k % 2) {
      checkSlab("bids", await m.loadBidsSlab(con), w.bids, w.absentBids, true, k);
      checkSlab("asks", await m.loadAsksSlab(con), w.asks, w.absentAsks, false, k);
    }
  }
  if (k % 2 === 0) {
    checkSlab("bids", Slab.deserialize(Buffer.from(d.bids), s.cbLen), w.bids, w.absentBids, true, k);
    checkSlab("asks", Slab.deserialize(Buffer.from(d.asks), s.cbLen), w.asks, w.absentAsks, false, k);
  }
  checkQueue(EventQueue.parse(s.cbLen, Buffer.from(d.eq)), d.eq, w, k);
  checkQueue(await EventQueue.load(con, key(s.keys.eq), s.cbLen), d.eq, w, k);
  count("states");
}

async function read(file) {
  let k = 0;
  let bad = 0;
  let sample = null;
  for (const line of fs.readFileSync(file, "utf8").split("\n")) {
    if (!line) continue;
    const s = JSON.parse(line);
    fs.writeSync(1, JSON.stringify({ t: "at", id: s.id }) + "\n");
    try {
      await checkState(s, k);
    } catch (e) {
      const msg = e instanceof Mismatch ? e.message : "the reader failed: " + (e && e.stack ? e.stack.split("\n").slice(0, 3).join(" | ") : e);
      fs.writeSync(1, JSON.stringify({ t: "viol", id: s.id, msg }) + "\n");
      if (++bad > 3) break;
    }
    if (!sample && s.want.bids.length > 1 && s.want.events.length > 1) sample = { state: s.id, cbLen: s.cbLen, bids: s.want.bids.slice(0, 3), events: s.want.events.slice(0, 3) };
    k++;
  }
  fs.writeSync(1, JSON.stringify({ t: "done", counts, sample }) + "\n");
}

async function buildOne(op) {
  const bn = (s) => new BN(s);
  const bool = (b) => (b ? 1 : 0);
  const keys = Array.from({ length: 8 }, (_, i) => new PublicKey(new Uint8Array(32).fill(i + 1)));
  const done = (ins, getArgs) => {
    const bytes = hex(ins.serialize());
    const t = ins.getInstruction(...getArgs);
    const data = hex(t.data);
    if (data !== bytes) throw new Error("getInstruction carries other data than serialize");
    return { data };
  };
  switch (op.op) {
    case "create":
      return done(
        new raw.createMarketInstruction({
          callerAuthority: new Uint8Array(32).fill(9), callbackInfoLen: bn(32), callbackIdLen: bn(32),
          minBaseOrderSize: bn(op.min), tickSize: bn(op.tick), crankerReward: bn(0),
        }),
        keys.slice(0, 5)
      );
    case "new":
      return done(
        new raw.newOrderInstruction({
          maxBaseQty: bn(op.base), maxQuoteQty: bn(op.quote), limitPrice: bn(op.price), side: Side[op.side], matchLimit: bn(op.limit),
          callbackInfo: [...bin(op.cb)], postOnly: bool(op.postOnly), postAllowed: bool(op.postAllowed), selfTradeBehavior: SelfTradeBehavior[op.stb],
        }),
        keys.slice(0, 6)
      );
    case "cancel":
      return done(new raw.cancelOrderInstruction({ orderId: bn(op.id) }), keys.slice(0, 6));
    case "mass":
      return done(new raw.massCancelOrderInstruction({ orderIds: op.ids.map(bn) }), keys.slice(0, 6));
    case "consume":
      return done(new raw.consumeEventsInstruction({ numberOfEntriesToConsume: bn(op.n) }), keys.slice(0, 5));
    case "close":
      return done(new raw.closeMarketInstruction(), keys.slice(0, 7));
    case "setup": {
      const con = new Connection(new Map());
      const payer = keys[op.authorityPays ? 0 : 1];
      const [signers, ins] = await createMarket(con, keys[0], op.cbLen, bn(Math.min(op.cbLen, 32)), op.events, op.orders, bn(op.min), payer, bn(op.tick), ...(op.program ? [] : [keys[2]]));
      // the deployed program, when none is named
      const program = op.program ? new PublicKey(bin(op.program)) : keys[2];
      const creates = ins.filter((i) => i.create).map((i) => i.create);
      const call = ins[ins.length - 1];
      const at = (i) => {
        const c = creates.find((c) => c.newAccountPubkey.equals(call.keys[i].pubkey));
        if (!c) throw new Error("an account of the market is not created");
        if (!c.programId.equals(program)) throw new Error("an account is created for another owner");
        if (!c.fromPubkey.equals(payer)) throw new Error("another account pays");
        if (c.lamports < (c.space + 128) * 6960) throw new Error("an account is not rent exempt");
        if (!signers.some((s) => s.publicKey.equals(c.newAccountPubkey))) throw new Error("a new account does not sign");
        return c.space;
      };
      if (!call.programId.equals(program)) throw new Error("the market is created by another program");
      if (new Set(call.keys.slice(0, 4).map((k) => S(k.pubkey))).size !== 4) throw new Error("accounts are not distinct");
      return { data: hex(call.data), space: { market: at(0), eq: at(1), bids: at(2), asks: at(3) } };
    }
  }
  throw new Error("unknown operation");
}

async function build(file, out) {
  const f = fs.openSync(out, "w");
  for (const line of fs.readFileSync(file, "utf8").split("\n")) {
    if (!line) continue;
    const s = JSON.parse(line);
    fs.writeSync(1, JSON.stringify({ t: "at", id: String(s.case) }) + "\n");
    const built = [];
    for (const op of s.ops) {
      try {
        built.push(await buildOne(op));
      } catch (e) {
        built.push({ error: String(e && e.message ? e.message : e) });
      }
    }
    fs.writeSync(f, JSON.stringify({ ...s, built }) + "\n");
  }
  fs.closeSync(f);
  fs.writeSync(1, JSON.stringify({ t: "done", exported: Object.keys(aob).length }) + "\n");
}

const [mode, a, b] = process.argv.slice(2);
(mode === "read" ? read(a) : build(a, b)).catch((e) => {
  console.error(e);
  process.exit(3);
});
