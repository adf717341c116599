//! Shadow ledger (what was submitted) and the reference matcher used for predictions.
use crate::acct::{NewP, Side, Stb};
use crate::cb::{Cbb, Kind};
use crate::layout::Ord_;
use std::collections::HashMap;

#[derive(Clone, Debug)]
pub struct Rec {
    pub side: Side,
    pub price: u64,
    pub posted: u64,
    pub arrival: u64,
    pub cb: Cbb,
    pub filled: u128,
    pub released: Option<u64>,
    pub resting: bool,
    /// appeared in the book without the harness having seen it posted
    pub foreign: bool,
}

#[derive(Default)]
pub struct Ledger {
    pub recs: HashMap<u128, Rec>,
    pub next_arrival: u64,
    /// last id issued per (side, price)
    pub last_id: HashMap<(bool, u64), u128>,
    pub by_uid: HashMap<u32, u128>,
    pub gone: Vec<u128>,
    pub uids: HashMap<u128, u32>,
    pub owners: HashMap<u128, u32>,
}

impl Ledger {
    pub fn uid_of(&self, id: u128) -> Option<u32> {
        self.uids.get(&id).copied()
    }
    pub fn owner_of(&self, id: u128) -> Option<u32> {
        self.owners.get(&id).copied()
    }
    pub fn price(&self, o: &Ord_) -> u64 {
        self.recs.get(&o.id).map(|r| r.price).unwrap_or(o.price())
    }
    pub fn arrival(&self, o: &Ord_) -> u64 {
        self.recs.get(&o.id).map(|r| r.arrival).unwrap_or(u64::MAX)
    }
    /// Resting orders of a side, best first by (price, arrival) as submitted.
    pub fn ranked(&self, side: Side, orders: &[Ord_]) -> Vec<Work> {
        let mut v: Vec<Work> = orders
            .iter()
            .map(|o| {
                let (price, arrival, cb) = match self.recs.get(&o.id) {
                    Some(r) => (r.price, r.arrival, r.cb),
                    None => (o.price(), u64::MAX, o.cb),
                };
                Work { id: o.id, price, arrival, qty: o.qty, cb }
            })
            .collect();
        match side {
            Side::Bid => v.sort_by(|a, b| b.price.cmp(&a.price).then(a.arrival.cmp(&b.arrival))),
            Side::Ask => v.sort_by(|a, b| a.price.cmp(&b.price).then(a.arrival.cmp(&b.arrival))),
        }
        v
    }
}

#[derive(Clone, Copy, Debug)]
pub struct Work {
    pub id: u128,
    pub price: u64,
    pub arrival: u64,
    pub qty: u64,
    pub cb: Cbb,
}

/// base * price in 32-bit fixed point
pub fn mul(base: u64, price: u64, up: bool) -> u128 {
    let p = base as u128 * price as u128;
    (p >> 32) + if up && (p & 0xffff_ffff) != 0 { 1 } else { 0 }
}
/// largest base whose value at `price` fits `quote` (saturating at u64::MAX, also when unbounded)
pub fn div(quote: u64, price: u64) -> u64 {
    if price == 0 {
        return u64::MAX;
    }
    let v = ((quote as u128) << 32) / price as u128;
    if v > u64::MAX as u128 {
        u64::MAX
    } else {
        v as u64
    }
}
pub fn crosses(taker: Side, limit: u64, maker_price: u64) -> bool {
    match taker {
        Side::Bid => limit >= maker_price,
        Side::Ask => limit <= maker_price,
    }
}

#[derive(Clone, Debug, Default)]
pub struct Pred {
    pub refused: bool,
    pub abort: bool,
    pub fills: usize,
    pub st: usize,
    pub outs: usize,
    pub events: usize,
    pub want_post: bool,
    pub post_qty: u64,
    pub full: bool,
    pub evicts: bool,
}

/// What the documented rules predict for a new order, with an unbounded event queue.
pub fn simulate(kind: Kind, p: &NewP, opp: &[Work], own: &[Work], own_cap: usize, min: u64, tick: u64) -> Pred {
    let mut r = Pred::default();
    if p.price % tick != 0 || (p.post_allowed && p.price < tick) {
        r.refused = true;
        return r;
    }
    let (mut base, mut quote) = (p.base, p.quote);
    let mut left = p.limit;
    let mut it = opp.iter();
    let mut cur = it.next().copied();
    let mut crossed = true;
    while left > 0 {
        let m = match cur.as_mut() {
            None => {
                crossed = false;
                break;
            }
            Some(m) => m,
        };
        crossed = crosses(p.side, p.price, m.price);
        if p.post_only || !crossed {
            break;
        }
        let b = m.qty.min(base).min(div(quote, m.price));
        let q = mul(b, m.price, p.side == Side::Bid);
        if b == 0 || q == 0 {
            break;
        }
        if p.stb != Stb::Dec && kind.same_id(&p.cb, &m.cb) {
            if p.stb == Stb::Abort {
                r.abort = true;
                return r;
            }
            r.st += 1;
            r.events += 1;
            left -= 1;
            cur = it.next().copied();
            continue;
        }
        r.fills += 1;
        r.events += 1;
        m.qty -= b;
        base -= b;
        quote -= (q.min(quote as u128)) as u64;
        if m.qty < min {
            r.outs += 1;
            r.events += 1;
            cur = it.next().copied();
        }
        left -= 1;
    }
    let qty = div(quote, p.price).min(base);
    if !crossed && p.post_allowed && qty >= min {
        r.want_post = true;
        r.post_qty = qty;
        if own.len() >= own_cap {
            r.full = true;
            let worst = own[own.len() - 1].price;
            r.evicts = match p.side {
                Side::Bid => p.price > worst,
                Side::Ask => p.price < worst,
            };
            if r.evicts {
                r.events += 1;
            }
        }
    }
    r
}
