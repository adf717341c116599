//! The program's side of the TypeScript checks: states for the readers, operations for the instruction data, and the
//! judgement of that data.
use crate::acct::*;
use crate::cb::{Cbb, Kind, KINDS};
use crate::engine::*;
use crate::gen::*;
use crate::layout::*;
use crate::monitor::Sink;
use crate::rng::{mix, Rng};
use asset_agnostic_orderbook::instruction as ix;
use asset_agnostic_orderbook::state::{SelfTradeBehavior, Side as PSide};
use borsh::BorshDeserialize;
use serde_json::{json, Value};
use std::collections::HashSet;
use std::io::Write;

fn arg(a: &[String], k: &str) -> Option<String> {
    a.iter().find_map(|x| x.strip_prefix(k)).map(|s| s.to_string())
}
fn num(a: &[String], k: &str, d: u64) -> u64 {
    arg(a, k).and_then(|s| s.parse().ok()).unwrap_or(d)
}
pub fn hex(b: &[u8]) -> String {
    let mut s = String::with_capacity(b.len() * 2);
    for x in b {
        s.push_str(&format!("{:02x}", x));
    }
    s
}
fn unhex(s: &str) -> Option<Vec<u8>> {
    if s.len() % 2 != 0 {
        return None;
    }
    (0..s.len() / 2).map(|i| u8::from_str_radix(s.get(2 * i..2 * i + 2)?, 16).ok()).collect()
}

fn profile_of(r: &mut Rng, k: u64) -> Profile {
    if k % 97 == 96 {
        return Profile::Large;
    }
    *r.pick(&[Profile::Tight, Profile::Full, Profile::Churn, Profile::Extreme, Profile::SelfTrade, Profile::QueueTight, Profile::QueueTight, Profile::Realistic])
}

fn orders(d: &SlabDec) -> Value {
    d.orders.iter().map(|o| json!({"id": o.id.to_string(), "price": o.price().to_string(), "qty": o.qty.to_string(), "cb": hex(o.cb.get())})).collect()
}

/// Ids near resting ones, and others, that do not rest.
fn absent(d: &SlabDec, r: &mut Rng) -> Value {
    let have: HashSet<u128> = d.orders.iter().map(|o| o.id).collect();
    let mut v = vec![0u128, u128::MAX];
    for _ in 0..6 {
        if let Some(o) = d.orders.get(r.usize(d.orders.len().max(1))) {
            v.push(o.id ^ 1u128 << r.below(128));
        }
    }
    v.into_iter().filter(|i| !have.contains(i)).map(|i| Value::String(i.to_string())).collect()
}

fn state_json(w: &World, st: &State, cfg: &CaseCfg, id: String, r: &mut Rng) -> Value {
    let ev: Value = st
        .queue()
        .iter()
        .map(|e| {
            json!({"type": if e.fill { "fill" } else { "out" }, "side": e.side, "id": e.id.to_string(), "base": e.base.to_string(), "quote": e.quote.to_string(),
                   "cb": hex(e.cb.get()), "taker": e.taker.as_ref().map(|t| hex(t.get()))})
        })
        .collect();
    let (head, count, seq) = queue_header(w.eq.data.s());
    json!({
        "id": id, "cbLen": cfg.kind.size(),
        "keys": {"market": hex(w.market.key.as_ref()), "eq": hex(w.eq.key.as_ref()), "bids": hex(w.bids.key.as_ref()), "asks": hex(w.asks.key.as_ref())},
        "data": {"market": hex(w.market.data.s()), "eq": hex(w.eq.data.s()), "bids": hex(w.bids.data.s()), "asks": hex(w.asks.data.s())},
        "want": {
            "min": cfg.min.to_string(), "tick": cfg.tick.to_string(), "bids": orders(&st.bids), "asks": orders(&st.asks), "events": ev,
            "absentBids": absent(&st.bids, r), "absentAsks": absent(&st.asks, r),
            "head": head.to_string(), "count": count.to_string(), "seq": seq.to_string(),
            "capBids": slab_capacity(cfg.kind, w.bids.data.s().len()), "capAsks": slab_capacity(cfg.kind, w.asks.data.s().len()),
        }
    })
}

const HUGE: u64 = 1 << 40;

/// dump out=FILE seed= cases= : states of evolved markets, one JSON line each
fn dump_states(a: &[String]) -> i32 {
    let seed = num(a, "seed=", 1);
    let n = num(a, "cases=", 10);
    let only = arg(a, "only=");
    let mut f = std::io::BufWriter::new(std::fs::File::create(arg(a, "out=").expect("out=")).expect("output file"));
    let mut distinct = HashSet::new();
    let (mut states, mut with_orders, mut with_events, mut wrapped, mut odd) = (0u64, 0u64, 0u64, 0u64, 0u64);
    // one state with more than 65536 orders on a side (case HUGE), when asked for
    let huge = num(a, "huge=", 0) == 1;
    let mut beyond = 0u64;
    for k in (0..n).chain(if huge { Some(HUGE) } else { None }) {
        if let Some(o) = &only {
            if o.split('.').next() != Some(&k.to_string()) {
                continue;
            }
        }
        let mut r = Rng::new(mix(mix(seed, 0xD0), k));
        let p = if k == HUGE { Profile::Huge } else { profile_of(&mut r, k) };
        let e = if k == HUGE {
            // the reader keeps the queue as an array of numbers, so its callback information is kept short
            let kind = *r.pick(&[Kind::One, Kind::Mid16, Kind::E32]);
            Evolved::huge(r.next(), |c| {
                c.kind = kind;
                c.entry = false;
                c.extra_a = 0;
                c.extra_b = 0;
            })
        } else {
            Evolved::new(p, r.next())
        };
        let Some(mut e) = e else { continue };
        let snaps = match p {
            Profile::Huge => 3,
            Profile::Large => 2,
            _ => r.range(2, 6),
        };
        for s in 0..snaps {
            let steps = r.range(0, if p == Profile::Large { 400 } else { 24 });
            for _ in 0..if p == Profile::Huge && s == 0 { 0 } else { steps } {
                if !e.advance() {
                    break;
                }
            }
            if !e.st.readable() {
                break;
            }
            let id = format!("{}.{}", k, s);
            let j = state_json(&e.w, &e.st, &e.g.cfg, id.clone(), &mut r);
            let st = &e.st;
            states += 1;
            with_orders += (!st.bids.orders.is_empty() && !st.asks.orders.is_empty()) as u64;
            beyond += (st.bids.orders.len().max(st.asks.orders.len()) > 1 << 16) as u64;
            with_events += !st.queue().is_empty() as u64;
            let (head, count, _) = queue_header(e.w.eq.data.s());
            wrapped += (head + count > queue_capacity(e.g.cfg.kind, e.w.eq.data.s().len()) as u64) as u64;
            odd += (e.g.cfg.extra_a > 0 || e.g.cfg.extra_b > 0) as u64;
            if st.bids.orders.len() + st.asks.orders.len() + st.queue().len() > 0 {
                distinct.insert(mix(fnv(e.w.bids.data.s(), 1), mix(fnv(e.w.asks.data.s(), 2), fnv(e.w.eq.data.s(), 3))));
            }
            if only.is_none() || only.as_deref() == Some(&id) {
                writeln!(f, "{}", j).unwrap();
            }
        }
    }
    f.flush().unwrap();
    println!(
        "{}",
        json!({"states": states, "distinct": distinct.len(), "states_with_both_sides": with_orders, "states_with_events": with_events, "wrapped_queues": wrapped, "accounts_with_spare_bytes": odd, "states_beyond_16_bits": beyond})
    );
    0
}

fn act_json(act: &Act) -> Value {
    match act {
        Act::New(p) => json!({"op": "new", "base": p.base.to_string(), "quote": p.quote.to_string(), "price": p.price.to_string(), "side": if p.side == Side::Bid { "Bid" } else { "Ask" },
            "limit": p.limit.to_string(), "cb": hex(p.cb.get()), "postOnly": p.post_only, "postAllowed": p.post_allowed,
            "stb": match p.stb { Stb::Dec => "DecrementTake", Stb::Cancel => "CancelProvide", Stb::Abort => "AbortTransaction" }}),
        Act::Cancel(id) => json!({"op": "cancel", "id": id.to_string()}),
        Act::Mass(ids) => json!({"op": "mass", "ids": ids.iter().map(|i| i.to_string()).collect::<Vec<_>>()}),
        Act::Consume(n) => json!({"op": "consume", "n": n.to_string()}),
        Act::Close => json!({"op": "close"}),
    }
}

/// The market and the operations of case `k`: a prefix leads to a state, then one operation is asked for.
fn ts_case(seed: u64, k: u64) -> Option<(Evolved, Vec<Act>)> {
    let mut r = Rng::new(mix(mix(seed, 0xD1), k));
    let p = *r.pick(&[Profile::Tight, Profile::Full, Profile::Churn, Profile::Extreme, Profile::SelfTrade, Profile::QueueTight]);
    let mut e = Evolved::with(p, r.next(), |c| {
        c.kind = Kind::E32;
        c.entry = false;
        c.extra_a = 0;
        c.extra_b = 0;
    })?;
    for _ in 0..r.range(0, 40) {
        if !e.advance() {
            return None;
        }
    }
    let mut acts = vec![];
    for kind in 0..4 {
        if let Some(a) = e.good_op(kind, 12) {
            acts.push(a);
        }
    }
    // parameters without regard for the market
    acts.push(Act::New(NewP {
        side: *r.pick(&[Side::Bid, Side::Ask]),
        price: r.edgy(),
        base: r.edgy(),
        quote: r.edgy(),
        limit: r.edgy(),
        cb: {
            let b: Vec<u8> = (0..32).map(|_| r.next() as u8).collect();
            Cbb::from(&b)
        },
        post_only: r.pct(50),
        post_allowed: r.pct(50),
        stb: *r.pick(&[Stb::Dec, Stb::Cancel, Stb::Abort]),
    }));
    let id = |r: &mut Rng| (r.edgy() as u128) << 64 | r.edgy() as u128;
    acts.push(Act::Cancel(id(&mut r)));
    let n = r.below(8);
    acts.push(Act::Mass((0..n).map(|_| id(&mut r)).collect()));
    acts.push(Act::Consume(r.edgy()));
    acts.push(Act::Close);
    if r.pct(30) && e.drain() {
        acts = vec![Act::Close];
    }
    Some((e, acts))
}

fn dump_ops(a: &[String]) -> i32 {
    let seed = num(a, "seed=", 1);
    let n = num(a, "cases=", 10);
    let mut f = std::io::BufWriter::new(std::fs::File::create(arg(a, "out=").expect("out=")).expect("output file"));
    let mut cnt = 0;
    let only: Option<u64> = arg(a, "only=").and_then(|s| s.parse().ok());
    for k in 0..n {
        if only.map_or(false, |o| o != k) {
            continue;
        }
        let mut r = Rng::new(mix(mix(seed, 0xD2), k));
        let mut ops: Vec<Value> = vec![];
        let (min, tick) = (r.edgy(), r.edgy());
        ops.push(json!({"op": "create", "min": min.to_string(), "tick": tick.to_string()}));
        if let Some((_, acts)) = ts_case(seed, k) {
            ops.extend(acts.iter().map(act_json));
        }
        // the requested set-up of a whole market
        let kind = KINDS[r.usize(KINDS.len())];
        let large = k % 997 == 500;
        let (orders, events) = if large { (r.range(1 << 16, 80_000), r.range(1 << 16, 80_000)) } else { (r.range(1, 60), r.range(5, 80)) };
        ops.push(json!({"op": "setup", "cbLen": kind.size(), "kind": format!("{:?}", kind), "orders": orders, "events": events, "authorityPays": r.pct(30),
            "program": if r.pct(50) { hex(asset_agnostic_orderbook::id().as_ref()) } else { String::new() },
            "min": r.range(1, 9).to_string(), "tick": if r.pct(60) { 1u64 << 32 } else { r.range(1, 1 << 33) }.to_string()}));
        cnt += ops.len();
        writeln!(f, "{}", json!({"case": k, "ops": ops})).unwrap();
    }
    f.flush().unwrap();
    println!("{}", json!({"ops": cnt}));
    0
}

pub fn run(a: &[String]) -> i32 {
    match arg(a, "what=").as_deref() {
        Some("ops") => dump_ops(a),
        _ => dump_states(a),
    }
}

/// Run instruction data through the program's dispatcher on the market's own accounts.
fn dispatch(w: &mut World, data: &[u8], with_target: bool) -> Outcome {
    use solana_program::instruction::{AccountMeta, Instruction};
    let mut keys = vec![w.market.key, w.eq.key];
    if data.first() != Some(&2) {
        keys.extend([w.bids.key, w.asks.key]);
    }
    if with_target {
        keys.push(w.target.key);
    }
    keys.push(w.register.key);
    let i = Instruction { program_id: w.program_id, accounts: keys.into_iter().map(|k| AccountMeta::new(k, false)).collect(), data: data.to_vec() };
    w.run_ix(&i)
}

fn same_params(act: &Act, data: &[u8]) -> Result<(), String> {
    let Some((&tag, rest)) = data.split_first() else { return Err("no data".into()) };
    let want = match act {
        Act::New(_) => 1,
        Act::Consume(_) => 2,
        Act::Cancel(_) => 3,
        Act::Close => 4,
        Act::Mass(_) => 5,
    };
    if tag != want {
        return Err(format!("operation {} instead of {}", tag, want));
    }
    let bad = |e: std::io::Error| format!("does not decode: {}", e);
    match act {
        Act::New(p) => {
            let q = ix::new_order::Params::<[u8; 32]>::try_from_slice(rest).map_err(bad)?;
            let side = matches!((q.side, p.side), (PSide::Bid, Side::Bid) | (PSide::Ask, Side::Ask));
            let stb = matches!(
                (q.self_trade_behavior, p.stb),
                (SelfTradeBehavior::DecrementTake, Stb::Dec) | (SelfTradeBehavior::CancelProvide, Stb::Cancel) | (SelfTradeBehavior::AbortTransaction, Stb::Abort)
            );
            if q.max_base_qty != p.base {
                return Err(format!("max_base_qty {} for {}", q.max_base_qty, p.base));
            }
            if q.max_quote_qty != p.quote {
                return Err(format!("max_quote_qty {} for {}", q.max_quote_qty, p.quote));
            }
            if q.limit_price != p.price {
                return Err(format!("limit_price {} for {}", q.limit_price, p.price));
            }
            if q.match_limit != p.limit {
                return Err(format!("match_limit {} for {}", q.match_limit, p.limit));
            }
            if &q.callback_info[..] != p.cb.get() {
                return Err("another callback_info".into());
            }
            if !side || !stb || q.post_only != p.post_only || q.post_allowed != p.post_allowed {
                return Err("another side, self-trade behaviour, post_only or post_allowed".into());
            }
        }
        Act::Cancel(id) => {
            let q = ix::cancel_order::Params::try_from_slice(rest).map_err(bad)?;
            if q.order_id != *id {
                return Err(format!("order_id {} for {}", q.order_id, id));
            }
        }
        Act::Mass(ids) => {
            let q = ix::mass_cancel_orders::Params::try_from_slice(rest).map_err(bad)?;
            if q.order_ids != *ids {
                return Err(format!("order ids {:?} for {:?}", q.order_ids, ids));
            }
        }
        Act::Consume(n) => {
            let q = ix::consume_events::Params::try_from_slice(rest).map_err(bad)?;
            if q.number_of_entries_to_consume != *n {
                return Err(format!("number of entries {} for {}", q.number_of_entries_to_consume, n));
            }
        }
        Act::Close => {
            if !rest.is_empty() {
                return Err("data behind the operation".into());
            }
        }
    }
    Ok(())
}

fn check_op(seed: u64, k: u64, op: &Value, got: &Value, i: usize, e: &Option<(Evolved, Vec<Act>)>, sink: &mut Sink) -> Result<(), String> {
    let s = |v: &Value, f: &str| v[f].as_str().unwrap_or("").to_string();
    let n = |v: &Value, f: &str| v[f].as_str().and_then(|x| x.parse::<u64>().ok()).unwrap_or(0);
    if let Some(err) = got["error"].as_str() {
        return Err(format!("the client cannot build it: {}", err));
    }
    let data = unhex(&s(got, "data")).ok_or("no data")?;
    match op["op"].as_str().unwrap_or("") {
        "create" => {
            let (min, tick) = (n(op, "min"), n(op, "tick"));
            let Some((&0, rest)) = data.split_first() else { return Err("not the create operation".into()) };
            let q = ix::create_market::Params::try_from_slice(rest).map_err(|e| format!("does not decode: {}", e))?;
            if (q.min_base_order_size, q.tick_size) != (min, tick) {
                return Err(format!("minimum size {} and tick size {} for {} and {}", q.min_base_order_size, q.tick_size, min, tick));
            }
            let mut w1 = World::new(Kind::E32, false, mix(seed, k) >> 8, queue_size(Kind::E32, 8), slab_size(Kind::E32, 5), slab_size(Kind::E32, 6), 0);
            let mut w2 = w1.clone();
            let o1 = dispatch(&mut w1, &data, false);
            let o2 = w2.create(min, tick);
            if o1.ok() != o2.ok() || (o1.ok() && w1.digest(0) != w2.digest(0)) {
                return Err(format!("executed: {}; the same creation by the library: {}", o1.short(), o2.short()));
            }
            sink.count("create");
        }
        "setup" => {
            let kind = *KINDS.iter().find(|x| format!("{:?}", x) == s(op, "kind")).ok_or("kind")?;
            let (min, tick) = (n(op, "min"), n(op, "tick"));
            let q = ix::create_market::Params::try_from_slice(data.get(1..).unwrap_or(&[])).map_err(|e| format!("does not decode: {}", e))?;
            if data[0] != 0 || (q.min_base_order_size, q.tick_size) != (min, tick) {
                return Err("createMarket asks for other parameters".into());
            }
            let sz = |f: &str| got["space"][f].as_u64().unwrap_or(0) as usize;
            let (no, ne) = (op["orders"].as_u64().unwrap_or(0) as usize, op["events"].as_u64().unwrap_or(0) as usize);
            if [sz("eq"), sz("bids"), sz("asks")].iter().any(|x| *x > 64 << 20) {
                return Err("absurd sizes".into());
            }
            let mut w = World::new(kind, false, mix(seed, k) >> 8, sz("eq"), sz("bids"), sz("asks"), 0);
            w.market = Acct::new(w.market.key, w.program_id, rent(sz("market")), sz("market"), 0);
            let o = w.create(min, tick);
            if !o.ok() {
                return Err(format!("the accounts createMarket sets up (sizes {} {} {} {}) are refused: {}", sz("market"), sz("eq"), sz("bids"), sz("asks"), o.short()));
            }
            let mut r = Rng::new(k);
            match guarded(|| crate::c21::capacity_probe(&mut w, min, tick, no, no, ne, &mut r)) {
                Ok(Ok(_)) => {}
                Ok(Err(m)) | Err(m) => return Err(format!("capacities asked for ({} orders, {} events): {}", no, ne, m)),
            }
            sink.count("setup");
            if no > 1 << 16 {
                sink.count("setup_beyond_16_bits");
            }
        }
        _ => {
            let Some((e, acts)) = e else { return Err("no such case".into()) };
            let act = &acts[i - 1];
            same_params(act, &data)?;
            let mut w1 = e.w.clone();
            let mut w2 = e.w.clone();
            let o1 = dispatch(&mut w1, &data, matches!(act, Act::Close));
            let o2 = w2.raw_exec(act);
            let same = match (&o1, &o2) {
                (Outcome::Ok(a), Outcome::Ok(b)) => a == b && w1.digest(0) == w2.digest(0),
                (a, b) => a.ok() == b.ok(),
            };
            if !same {
                return Err(format!("executed: {}; the same operation by the library: {}", o1.short(), o2.short()));
            }
            sink.count(match act {
                Act::New(_) => "new",
                Act::Cancel(_) => "cancel",
                Act::Mass(_) => "mass",
                Act::Consume(_) => "consume",
                Act::Close => "close",
            });
            sink.count(if o1.ok() { "executed_successfully" } else { "executed_and_failed" });
        }
    }
    sink.eval(26, Some(fnv(&data, k)));
    Ok(())
}

/// decode in=FILE seed= : judge what the client built (lines {"case", "ops", "built"})
pub fn decode(a: &[String]) -> i32 {
    let seed = num(a, "seed=", 1);
    let text = std::fs::read_to_string(arg(a, "in=").expect("in=")).expect("input");
    let mut sink = Sink::new(26);
    let mut viol = 0;
    for line in text.lines() {
        let v: Value = serde_json::from_str(line).expect("json");
        let k = v["case"].as_u64().unwrap();
        let e = ts_case(seed, k);
        let (ops, built) = (v["ops"].as_array().unwrap(), v["built"].as_array().unwrap());
        for (i, (op, got)) in ops.iter().zip(built).enumerate() {
            if let Err(m) = check_op(seed, k, op, got, i, &e, &mut sink) {
                viol += 1;
                if viol <= 20 {
                    println!("{}", json!({"t": "viol", "case": k, "op": op["op"], "msg": format!("{} built by the client: {}: {}", op["op"].as_str().unwrap_or(""), m, op)}));
                }
            }
        }
    }
    println!("{}", json!({"t": "done", "evals": sink.evals, "distinct": sink.distinct.len(), "counts": sink.counts}));
    0
}
