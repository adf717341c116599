//! The online monitors: each observes one executed instruction (state before, instruction, outcome,
//! state after) and judges it against the statement of a property. They see account bytes, returned
//! summaries and the public reading API, never the program's internals.
use crate::acct::*;
use crate::cb::{Cbb, Kind};
use crate::layout::*;
use crate::model::*;
use std::collections::{BTreeMap, HashMap, HashSet};

pub struct Sink {
    /// property under check; 0 judges all of them
    pub prop: u8,
    pub hits: Vec<(u8, String)>,
    pub counts: BTreeMap<&'static str, u64>,
    pub evals: u64,
    pub distinct: HashSet<u64>,
}
impl Sink {
    pub fn new(prop: u8) -> Sink {
        Sink { prop, hits: vec![], counts: BTreeMap::new(), evals: 0, distinct: HashSet::new() }
    }
    #[inline]
    pub fn wants(&self, p: u8) -> bool {
        self.prop == 0 || self.prop == p
    }
    pub fn hit(&mut self, p: u8, m: impl Into<String>) {
        if self.wants(p) {
            self.hits.push((p, m.into()));
        }
    }
    pub fn hits_any(&mut self, ps: &[u8], m: &str) {
        for p in ps {
            self.hit(*p, m.to_string());
        }
    }
    pub fn count(&mut self, k: &'static str) {
        *self.counts.entry(k).or_insert(0) += 1;
    }
    pub fn add(&mut self, k: &'static str, n: u64) {
        if n > 0 {
            *self.counts.entry(k).or_insert(0) += n;
        }
    }
    /// one evaluation of the property under check
    pub fn eval(&mut self, p: u8, sig: Option<u64>) {
        if self.prop == p {
            self.evals += 1;
            if let Some(s) = sig {
                // bounded, so that the longest runs count at least this many
                if self.distinct.len() < 6_000_000 {
                    self.distinct.insert(s);
                }
            }
        }
    }
}

pub struct Mon<'a> {
    pub kind: Kind,
    pub cap_b: usize,
    pub cap_a: usize,
    pub q_cap: usize,
    pub min: u64,
    pub tick: u64,
    pub led: &'a mut Ledger,
    pub sink: &'a mut Sink,
    pub sig: u64,
}

pub struct Diff {
    pub removed: Vec<Ord_>,
    pub added: Vec<Ord_>,
    pub changed: Vec<(Ord_, Ord_)>,
    /// callback bytes changed while resting
    pub cb_changed: Vec<u128>,
}

pub fn diff(a: &[Ord_], b: &[Ord_]) -> Diff {
    let mut d = Diff { removed: vec![], added: vec![], changed: vec![], cb_changed: vec![] };
    let sorted = |v: &[Ord_]| v.windows(2).all(|w| w[0].id < w[1].id);
    let (sa, sb);
    let a = if sorted(a) {
        a
    } else {
        let mut t = a.to_vec();
        t.sort_by_key(|o| o.id);
        sa = t;
        &sa
    };
    let b = if sorted(b) {
        b
    } else {
        let mut t = b.to_vec();
        t.sort_by_key(|o| o.id);
        sb = t;
        &sb
    };
    let (mut i, mut j) = (0, 0);
    while i < a.len() || j < b.len() {
        if j >= b.len() || (i < a.len() && a[i].id < b[j].id) {
            d.removed.push(a[i]);
            i += 1;
        } else if i >= a.len() || b[j].id < a[i].id {
            d.added.push(b[j]);
            j += 1;
        } else {
            if a[i].qty != b[j].qty {
                d.changed.push((a[i], b[j]));
            }
            if a[i].cb != b[j].cb {
                d.cb_changed.push(a[i].id);
            }
            i += 1;
            j += 1;
        }
    }
    d
}

pub fn step_sig(pre: &State, act: &Act) -> u64 {
    let mut h = 0x51u64;
    for s in [&pre.bids.orders, &pre.asks.orders] {
        h = mixh(h, s.len() as u64);
        let n = s.len();
        for (i, o) in s.iter().enumerate() {
            if i < 6 || i + 6 >= n {
                h = mixh(h, o.id as u64);
                h = mixh(h, (o.id >> 64) as u64);
                h = mixh(h, o.qty);
            }
        }
    }
    h = mixh(h, pre.queue().len() as u64);
    match act {
        Act::New(p) => {
            for v in [p.side as u64, p.price, p.base, p.quote, p.limit, p.post_only as u64 + 2 * p.post_allowed as u64, p.stb as u64] {
                h = mixh(h, v);
            }
            h = fnv(p.cb.get(), h);
        }
        Act::Cancel(i) => {
            h = mixh(mixh(h ^ 3, *i as u64), (*i >> 64) as u64);
        }
        Act::Mass(v) => {
            for i in v {
                h = mixh(mixh(h ^ 4, *i as u64), (*i >> 64) as u64);
            }
        }
        Act::Consume(n) => h = mixh(h ^ 5, *n),
        Act::Close => h ^= 6,
    }
    h
}
fn mixh(h: u64, v: u64) -> u64 {
    crate::rng::mix(h, v)
}

fn idx(side: Side) -> u8 {
    match side {
        Side::Bid => 0,
        Side::Ask => 1,
    }
}

impl<'a> Mon<'a> {
    fn cap(&self, s: Side) -> usize {
        match s {
            Side::Bid => self.cap_b,
            Side::Ask => self.cap_a,
        }
    }

    /// Predicted outcome of a new order on the state before it.
    pub fn predict(&self, p: &NewP, pre: &State) -> (Pred, Vec<Work>, Vec<Work>) {
        let opp = self.led.ranked(p.side.opp(), &pre.side(p.side.opp()).orders);
        let own = self.led.ranked(p.side, &pre.side(p.side).orders);
        let pr = simulate(self.kind, p, &opp, &own, self.cap(p.side), self.min, self.tick);
        (pr, opp, own)
    }

    /// Properties an unexpected failure of this new order speaks against.
    pub fn blame(&self, pr: &Pred, panic: bool) -> Vec<u8> {
        let mut v = vec![];
        if panic {
            v.push(23);
        }
        if pr.fills > 0 {
            v.push(7);
        }
        if pr.st > 0 {
            v.push(8);
        }
        if pr.want_post && !pr.full {
            v.push(6);
            v.push(14);
        }
        if pr.full {
            v.push(14);
        }
        if v.is_empty() || (v.len() == 1 && panic) {
            // nothing to match and nothing to post: the order should simply have been accepted
            v.push(7);
        }
        v
    }

    /// Judge well-formedness after a successful instruction; true if the books can be read on.
    pub fn wellformed(&mut self, act: &Act, post: &State) -> bool {
        let mut ok = true;
        for (n, s) in [("bids", &post.bids), ("asks", &post.asks)] {
            if let Some(b) = &s.bad {
                let m = format!("{} tree malformed: {}", n, b);
                self.sink.hits_any(&[15, 23], &m);
                if !s.readable {
                    ok = false;
                    let ps: &[u8] = match act {
                        Act::New(_) => &[1, 3, 4, 5, 6, 7, 11, 14, 16],
                        Act::Cancel(_) => &[4, 12, 16],
                        Act::Mass(_) => &[4, 13, 16],
                        _ => &[4],
                    };
                    self.sink.hits_any(ps, &m);
                }
            }
        }
        if let Err(e) = &post.q {
            ok = false;
            self.sink.hits_any(&[10, 11, 23], &format!("event queue malformed: {}", e));
        }
        ok
    }

    pub fn step(&mut self, pre: &State, post: &State, act: &Act, out: &Outcome, uid: Option<u32>, pred: Option<&(Pred, Vec<Work>, Vec<Work>)>) {
        match act {
            Act::New(p) => self.new_order(p, pre, post, out, uid, pred.unwrap()),
            Act::Cancel(id) => self.cancel(&[*id], false, pre, post, out),
            Act::Mass(ids) => self.cancel(ids, true, pre, post, out),
            Act::Consume(n) => self.consume(*n, pre, post, out),
            Act::Close => {}
        }
        if post.bids.depth.max(post.asks.depth) >= 56 {
            self.sink.count("steps_on_trees_deeper_than_55");
        }
        if out.ok() {
            self.after(post, act);
        }
    }

    /// Checks on the state after every success.
    fn after(&mut self, post: &State, act: &Act) {
        let (bb, ba) = (
            post.bids.orders.iter().map(|o| self.led.price(o)).max(),
            post.asks.orders.iter().map(|o| self.led.price(o)).min(),
        );
        if self.sink.wants(5) {
            let both = bb.is_some() && ba.is_some();
            let sig = self.sig;
            let is_new = matches!(act, Act::New(_));
            self.sink.eval(5, if both && is_new { Some(sig) } else { None });
            if let (Some(b), Some(a)) = (bb, ba) {
                if b + 1 == a || b.checked_add(self.tick) == Some(a) {
                    self.sink.count("one_tick_spreads");
                }
                if b >= a {
                    self.sink.hit(5, format!("crossed book: best bid {} >= best ask {}", b, a));
                }
            }
        }
        if self.sink.wants(6) {
            for o in post.bids.orders.iter().chain(&post.asks.orders) {
                let pr = self.led.price(o);
                if o.qty < self.min {
                    self.sink.hit(6, format!("order {:x} rests with {} < minimum {}", o.id, o.qty, self.min));
                }
                if pr == 0 || pr % self.tick != 0 || o.price() == 0 || o.price() % self.tick != 0 {
                    self.sink.hit(6, format!("order {:x} rests off tick: price {} tick {}", o.id, pr, self.tick));
                }
            }
        }
        if self.sink.wants(14) {
            for (s, n) in [(Side::Bid, post.bids.orders.len()), (Side::Ask, post.asks.orders.len())] {
                if n > self.cap(s) {
                    self.sink.hit(14, format!("{:?} side holds {} orders, sized for {}", s, n, self.cap(s)));
                }
            }
        }
        if self.sink.wants(16) {
            let mut n = 0;
            for o in post.bids.orders.iter().chain(&post.asks.orders) {
                if let Some(r) = self.led.recs.get(&o.id) {
                    n += 1;
                    if r.cb != o.cb {
                        self.sink.hit(16, format!("order {:x} carries callback {:?}, submitted {:?}", o.id, o.cb, r.cb));
                    }
                }
            }
            self.sink.add("resting_callbacks_compared", n);
            let sig = self.sig;
            self.sink.eval(16, if n > 1 { Some(sig) } else { None });
        }
        if self.sink.wants(4) {
            for (s, dec) in [(Side::Bid, &post.bids), (Side::Ask, &post.asks)] {
                for o in &dec.orders {
                    if let Some(r) = self.led.recs.get(&o.id) {
                        if r.side != s {
                            self.sink.hit(4, format!("order {:x} rests on the other side", o.id));
                        }
                        if !r.foreign && r.posted as u128 != r.filled + o.qty as u128 {
                            self.sink.hit(4, format!("order {:x}: posted {} != filled {} + resting {}", o.id, r.posted, r.filled, o.qty));
                        }
                    }
                }
            }
        }
    }

    fn new_order(&mut self, p: &NewP, pre: &State, post: &State, out: &Outcome, uid: Option<u32>, pred: &(Pred, Vec<Work>, Vec<Work>)) {
        let (pr, opp, own) = pred;
        let free = self.q_cap - pre.queue().len();
        let sig = self.sig;
        // ---- expected failures
        let must_eqf = !pr.refused && !pr.abort && pr.events > free;
        let nontriv = |b: bool| if b { Some(sig) } else { None };
        if self.sink.wants(10) {
            self.sink.eval(10, nontriv(pr.events > 0));
            if must_eqf {
                self.sink.count("queue_full_expected");
            } else if pr.events > 0 && pr.events == free {
                self.sink.count("queue_exactly_filled");
            }
        }
        if !out.ok() {
            self.sink.count("new_failed");
            let expected = match out {
                o if o.custom(E_LIMIT_PRICE) => pr.refused,
                o if o.custom(E_EQ_FULL) => !pr.refused && (pr.events > free || pr.abort),
                o if o.custom(E_SELF_TRADE) => pr.abort,
                _ => false,
            };
            if pr.refused {
                self.sink.eval(6, nontriv(true));
                self.sink.count("price_refusals");
            }
            if pr.abort {
                self.sink.eval(8, nontriv(true));
                self.sink.count("self_trade_aborts");
            }
            if self.sink.wants(31) && (pr.refused || pr.abort || must_eqf) {
                // every rule this order breaks
                let mut codes = vec![];
                let (mut abort, mut events) = (pr.abort, pr.events);
                if pr.refused {
                    codes.push(E_LIMIT_PRICE);
                    let q = simulate(self.kind, p, opp, own, self.cap(p.side), self.min, 1);
                    abort = q.abort;
                    events = q.events;
                }
                if abort {
                    codes.push(E_SELF_TRADE);
                }
                if events > free {
                    codes.push(E_EQ_FULL);
                }
                self.sink.eval(31, nontriv(true));
                self.sink.count(if codes.len() > 1 { "order_breaks_several_rules" } else { "order_breaks_one_rule" });
                self.sink.count(if pr.refused {
                    "refused_for_price"
                } else if pr.abort {
                    "refused_for_self_trade"
                } else {
                    "refused_for_full_queue"
                });
                if !codes.iter().any(|c| out.custom(*c)) {
                    self.sink.hit(31, format!("{} reported, the order breaks the rules {:?}", out.short(), codes));
                }
            }
            if expected {
                return;
            }
            let m = format!("unexpected failure {} (predicted {:?}, free events {})", out.short(), pr, free);
            let panic = matches!(out, Outcome::Panic(_));
            if out.custom(E_EQ_FULL) {
                self.sink.hit(10, m);
            } else if out.custom(E_LIMIT_PRICE) {
                self.sink.hit(6, m);
            } else if pr.refused || pr.abort {
                if panic {
                    self.sink.hit(23, m);
                }
            } else if must_eqf {
                let ps: &[u8] = if panic { &[10, 23] } else { &[10] };
                self.sink.hits_any(ps, &m);
            } else if out.custom(E_SELF_TRADE) {
                self.sink.hit(8, m);
            } else {
                let b = self.blame(pr, panic);
                self.sink.hits_any(&b, &m);
            }
            return;
        }
        self.sink.count("new_ok");
        if pr.refused {
            self.sink.hit(6, format!("off-tick or below-tick price {} accepted (tick {})", p.price, self.tick));
        }
        if pr.abort {
            self.sink.hit(8, "order that meets its own order under abort-transaction succeeded".to_string());
        }
        if must_eqf {
            self.sink.hit(10, format!("{} events needed with {} free slots, yet the instruction succeeded", pr.events, free));
        }
        let s = match out {
            Outcome::Ok(Some(s)) => *s,
            _ => {
                self.sink.hits_any(&[3, 20], "a successful new order returned no summary");
                return;
            }
        };
        // ---- events
        let evs = self.new_events(pre, post);
        let mut w: Vec<Option<Work>> = opp.iter().map(|x| Some(*x)).collect();
        let mut top = 0usize;
        let mut live = w.len();
        let mut pending: Vec<(u128, u64, Cbb)> = vec![];
        let mut touched: HashMap<u128, u64> = HashMap::new();
        let mut touches = 0u64;
        let (mut base_used, mut quote_used) = (0u128, 0u128);
        let mut evicted: Option<u128> = None;
        let mut outs: HashMap<u128, u32> = HashMap::new();
        let buy = p.side == Side::Bid;
        for (k, e) in evs.iter().enumerate() {
            while top < w.len() && w[top].is_none() {
                top += 1;
            }
            if e.fill {
                self.sink.count("fills");
                if outs.contains_key(&e.id) {
                    self.sink.hit(11, format!("fill of {:x} after its Out event", e.id));
                }
                if p.post_only {
                    self.sink.hit(6, "post-only order traded");
                }
                touches += 1;
                let at = (top..w.len()).find(|i| w[*i].map(|x| x.id) == Some(e.id));
                let i = match at {
                    None => {
                        self.sink.hits_any(&[1, 4], &format!("fill #{} against {:x}, which is not resting on the opposite side", k, e.id));
                        base_used += e.base as u128;
                        quote_used += e.quote as u128;
                        continue;
                    }
                    Some(i) => i,
                };
                let m = w[i].unwrap();
                // C01
                self.sink.eval(1, nontriv(live > 1));
                if self.sink.wants(1) {
                    if w.iter().skip(i + 1).take(1).any(|x| x.map(|x| x.price == m.price).unwrap_or(false)) {
                        self.sink.count("fills_with_equal_price_rival");
                    }
                    if i != top {
                        let t = w[top].unwrap();
                        self.sink.hit(
                            1,
                            format!("traded with {:x} (price {}, arrival {}) while {:x} (price {}, arrival {}) rests ahead of it", m.id, m.price, m.arrival, t.id, t.price, t.arrival),
                        );
                    }
                }
                // C02
                if self.sink.wants(2) {
                    let exact = (e.base as u128 * m.price as u128) & 0xffff_ffff == 0;
                    let base_rem = (p.base as u128).saturating_sub(base_used);
                    self.sink.eval(2, nontriv(!exact || e.base == m.qty || e.base as u128 == base_rem));
                    if !exact {
                        self.sink.count("rounded_fills");
                    }
                    let want = mul(e.base, m.price, buy);
                    if e.quote as u128 != want {
                        self.sink.hit(2, format!("fill of {} at price {} recorded quote {}, expected {} ({})", e.base, m.price, e.quote, want, if buy { "rounded up" } else { "rounded down" }));
                    }
                    if !crosses(p.side, p.price, m.price) {
                        self.sink.hit(2, format!("fill at price {} beyond the limit {}", m.price, p.price));
                    }
                    if e.base == 0 || e.quote == 0 {
                        self.sink.hit(2, format!("fill with base {} quote {}", e.base, e.quote));
                    }
                    if e.base > m.qty || e.base as u128 > base_rem {
                        self.sink.hit(2, format!("fill of {} exceeds maker's {} or taker's {}", e.base, m.qty, base_rem));
                    }
                    if e.side != idx(p.side) {
                        self.sink.hit(2, format!("fill names taker side {} for a {:?} taker", e.side, p.side));
                    }
                }
                if self.sink.wants(8) {
                    let same = self.kind.same_id(&p.cb, &m.cb);
                    self.sink.eval(8, nontriv(same || p.stb != Stb::Dec));
                    if same && p.stb == Stb::Dec {
                        self.sink.count("decrement_take_self_fills");
                    }
                    if same && p.stb != Stb::Dec {
                        self.sink.hit(8, format!("self-trade executed as a fill under {:?}", p.stb));
                    }
                }
                if self.sink.wants(16) {
                    self.sink.count("fill_callbacks_compared");
                    if e.cb != m.cb {
                        self.sink.hit(16, format!("fill of {:x} carries maker callback {:?}, submitted {:?}", e.id, e.cb, m.cb));
                    }
                    if e.taker != Some(p.cb) {
                        self.sink.hit(16, format!("fill carries taker callback {:?}, submitted {:?}", e.taker, p.cb));
                    }
                }
                base_used += e.base as u128;
                quote_used += e.quote as u128;
                *touched.entry(e.id).or_insert(0) += e.base;
                let m = w[i].as_mut().unwrap();
                m.qty = m.qty.saturating_sub(e.base);
                if m.qty < self.min {
                    pending.push((m.id, m.qty, m.cb));
                    w[i] = None;
                    live -= 1;
                }
            } else {
                self.sink.count("outs");
                *outs.entry(e.id).or_insert(0) += 1;
                if outs[&e.id] > 1 {
                    self.sink.hit(11, format!("second Out event for {:x}", e.id));
                    continue;
                }
                if let Some(j) = pending.iter().position(|x| x.0 == e.id) {
                    let (_, rem, cb) = pending.remove(j);
                    self.sink.count("outs_residue");
                    if rem > 0 {
                        self.sink.count("outs_residue_nonzero");
                    }
                    self.out_event(e, p.side.opp(), rem, &cb);
                } else if let Some(o) = own.iter().find(|x| x.id == e.id) {
                    self.sink.count("outs_evicted");
                    evicted = Some(e.id);
                    self.out_event(e, p.side, o.qty, &o.cb);
                } else if let Some(i) = (top..w.len()).find(|i| w[*i].map(|x| x.id) == Some(e.id)) {
                    let m = w[i].unwrap();
                    if touched.contains_key(&e.id) {
                        self.sink.hit(11, format!("order {:x} removed with {} left, minimum {}", e.id, m.qty, self.min));
                        self.out_event(e, p.side.opp(), m.qty, &m.cb);
                    } else {
                        self.sink.count("outs_self_trade");
                        touches += 1;
                        self.sink.eval(8, nontriv(true));
                        if p.stb != Stb::Cancel || !self.kind.same_id(&p.cb, &m.cb) {
                            self.sink.hit(8, format!("{:x} was cancelled by an order with behaviour {:?}, callback {:?} against {:?}", e.id, p.stb, p.cb, m.cb));
                        }
                        if p.post_only {
                            self.sink.hit(6, "post-only order cancelled a resting order");
                        }
                        self.sink.eval(1, nontriv(live > 1));
                        if i != top {
                            let t = w[top].unwrap();
                            self.sink.hit(1, format!("self-trade cancelled {:x} while {:x} rests ahead of it", m.id, t.id));
                        }
                        if e.base != m.qty {
                            self.sink.hit(8, format!("cancel-provide released {} of {}", e.base, m.qty));
                        }
                        self.out_event(e, p.side.opp(), m.qty, &m.cb);
                    }
                    w[i] = None;
                    live -= 1;
                } else {
                    self.sink.hit(11, format!("Out event for {:x}, which was not resting", e.id));
                }
            }
        }
        while top < w.len() && w[top].is_none() {
            top += 1;
        }
        // ---- book changes
        let db = diff(&pre.bids.orders, &post.bids.orders);
        let da = diff(&pre.asks.orders, &post.asks.orders);
        let (dop, dow) = if p.side == Side::Bid { (&da, &db) } else { (&db, &da) };
        if self.sink.wants(11) {
            let any = !dop.removed.is_empty() || !dow.removed.is_empty() || !outs.is_empty();
            self.sink.eval(11, nontriv(any));
            for o in dop.removed.iter().chain(&dow.removed) {
                if !outs.contains_key(&o.id) {
                    self.sink.hit(11, format!("order {:x} left the book without an Out event", o.id));
                }
            }
            for id in outs.keys() {
                if post.bids.find(*id).is_some() || post.asks.find(*id).is_some() {
                    self.sink.hit(11, format!("Out event for {:x}, which still rests", id));
                }
            }
        }
        let mut filled: HashMap<u128, u128> = HashMap::new();
        let mut outed: HashMap<u128, u64> = HashMap::new();
        for e in &evs {
            if e.fill {
                *filled.entry(e.id).or_insert(0) += e.base as u128;
            } else {
                outed.entry(e.id).or_insert(e.base);
            }
        }
        if self.sink.wants(4) {
            self.sink.eval(4, nontriv(!evs.is_empty() || s.id.is_some()));
            let fills_of = |id: u128| filled.get(&id).copied().unwrap_or(0);
            let out_of = |id: u128| outed.get(&id).copied();
            for d in [&db, &da] {
                for (a, b) in &d.changed {
                    if a.qty as u128 != fills_of(a.id) + b.qty as u128 {
                        self.sink.hit(4, format!("order {:x} went from {} to {} with fills of {}", a.id, a.qty, b.qty, fills_of(a.id)));
                    }
                }
                for a in &d.removed {
                    match out_of(a.id) {
                        Some(q) if q as u128 + fills_of(a.id) == a.qty as u128 => {}
                        q => self.sink.hit(4, format!("order {:x} with {} left the book: fills {}, released {:?}", a.id, a.qty, fills_of(a.id), q)),
                    }
                }
                for a in &d.added {
                    if Some(a.id) != s.id {
                        self.sink.hit(4, format!("order {:x} appeared without being posted", a.id));
                    }
                }
            }
            for e in evs.iter().filter(|e| e.fill) {
                let before = pre.side(p.side.opp()).find(e.id);
                let after = post.side(p.side.opp()).find(e.id);
                match (before, after) {
                    (None, _) => self.sink.hit(4, format!("fill against {:x}, not resting", e.id)),
                    (Some(b), Some(a)) if b.qty as u128 != a.qty as u128 + fills_of(e.id) => {
                        self.sink.hit(4, format!("order {:x}: {} before, {} after, fills {}", e.id, b.qty, a.qty, fills_of(e.id)))
                    }
                    _ => {}
                }
            }
        }
        // ---- summary
        let posted_ord = s.id.and_then(|id| post.side(p.side).find(id));
        if self.sink.wants(3) {
            self.sink.eval(3, nontriv(!evs.is_empty() || s.id.is_some()));
            let pv = mul(s.posted, p.price, buy);
            if s.base as u128 != base_used + s.posted as u128 {
                self.sink.hit(3, format!("summary base {} != fills {} + posted {}", s.base, base_used, s.posted));
            }
            let qp = if s.posted > 0 || s.id.is_some() { pv } else { 0 };
            if s.quote as u128 != quote_used + qp {
                self.sink.hit(3, format!("summary quote {} != fills {} + posted value {}", s.quote, quote_used, qp));
            }
            let (ub, uq) = (base_used + s.posted as u128, quote_used + qp);
            if ub > p.base as u128 || uq > p.quote as u128 || s.base > p.base || s.quote > p.quote {
                self.sink.hit(3, format!("used base {} quote {} beyond budgets {} / {}", ub, uq, p.base, p.quote));
            }
            match (s.id, dow.added.len()) {
                (None, 0) => {}
                (None, _) => self.sink.hit(3, "an order was added to the book but the summary names none"),
                (Some(id), _) => {
                    self.sink.count("posts");
                    match posted_ord {
                        None => self.sink.hit(3, format!("summary names {:x}, which does not rest on its side", id)),
                        Some(o) if o.qty != s.posted => self.sink.hit(3, format!("summary says {} posted, {} rests", s.posted, o.qty)),
                        _ => {}
                    }
                    if !dow.added.iter().any(|o| o.id == id) {
                        self.sink.hit(3, format!("posted id {:x} is not a new order of its side", id));
                    }
                }
            }
            if s.id.is_none() != (s.posted == 0) {
                self.sink.hit(3, format!("posted id {:?} with posted quantity {}", s.id, s.posted));
            }
            if base_used > 0 && s.posted > 0 {
                self.sink.count("fill_and_post");
            }
            if quote_used == p.quote as u128 || base_used == p.base as u128 {
                self.sink.count("budget_exhausted_exactly");
            }
        }
        // ---- completeness of matching
        let base_rem = (p.base as u128).saturating_sub(base_used) as u64;
        let quote_rem = (p.quote as u128).saturating_sub(quote_used) as u64;
        let next = w.get(top).copied().flatten();
        let next_crosses = next.map(|n| crosses(p.side, p.price, n.price)).unwrap_or(false);
        if touches > 100 {
            self.sink.count("orders_meeting_over_100_makers");
        }
        if self.sink.wants(7) {
            self.sink.eval(7, nontriv(touches > 0 || next_crosses));
            if touches > p.limit {
                self.sink.hit(7, format!("matched {} resting orders with match limit {}", touches, p.limit));
            }
            if touches == p.limit && next_crosses {
                self.sink.count("stopped_by_match_limit");
            }
            if let (Some(n), true) = (next, next_crosses) {
                if touches < p.limit && !p.post_only {
                    let b = n.qty.min(base_rem).min(div(quote_rem, n.price));
                    let q = mul(b, n.price, buy);
                    if b > 0 && q > 0 {
                        self.sink.hit(
                            7,
                            format!("stopped after {} of {} matches although {:x} (price {}, qty {}) crosses and {} base could still trade", touches, p.limit, n.id, n.price, n.qty, b),
                        );
                    } else if b > 0 {
                        self.sink.count("stopped_by_zero_quote");
                    } else {
                        self.sink.count("stopped_by_budget");
                    }
                }
            }
        }
        // ---- posting
        let qty = div(quote_rem, p.price).min(base_rem);
        let want = p.post_allowed && touches < p.limit && !next_crosses && qty >= self.min;
        let full = own.len() >= self.cap(p.side);
        self.sink.eval(6, nontriv(p.post_allowed));
        if want {
            self.sink.count("post_wanted");
            if qty == self.min {
                self.sink.count("post_at_exact_minimum");
            }
            if !full {
                if s.id.is_none() {
                    let m = format!("remainder of {} should rest ({} of {} slots used) but was not posted", qty, own.len(), self.cap(p.side));
                    self.sink.hits_any(&[6, 14], &m);
                }
                if own.len() + 1 == self.cap(p.side) {
                    self.sink.count("posts_into_last_slot");
                    self.sink.eval(14, nontriv(true));
                }
            } else {
                self.sink.eval(14, nontriv(true));
                let worst = own[own.len() - 1];
                let better = match p.side {
                    Side::Bid => p.price > worst.price,
                    Side::Ask => p.price < worst.price,
                };
                if own.len() > 1 && own[own.len() - 2].price == worst.price {
                    self.sink.count("full_side_with_tied_worst_price");
                }
                if better {
                    self.sink.count("evictions_expected");
                    if s.id.is_none() {
                        self.sink.hit(14, format!("full side refused price {} although its worst price is {}", p.price, worst.price));
                    } else if dow.removed.len() != 1 || dow.removed[0].id != worst.id {
                        self.sink.hit(14, format!("expected {:x} (worst price, latest) to be evicted, removed: {:x?}", worst.id, dow.removed.iter().map(|o| o.id).collect::<Vec<_>>()));
                    }
                } else {
                    self.sink.count("full_side_refusals_expected");
                    if s.id.is_some() || !dow.removed.is_empty() || !dow.added.is_empty() {
                        self.sink.hit(14, format!("price {} is not better than the worst price {} of the full side, yet the side changed", p.price, worst.price));
                    }
                }
            }
            if s.id.is_some() && s.posted != qty {
                self.sink.hit(6, format!("posted {} where {} is the largest quantity both budgets allow", s.posted, qty));
            }
            if let Some(o) = posted_ord {
                if o.qty != qty {
                    self.sink.hit(6, format!("order rests with {} where {} is the largest quantity both budgets allow", o.qty, qty));
                }
            }
        } else {
            if s.id.is_some() || !dow.added.is_empty() {
                self.sink.hit(
                    6,
                    format!("posted although it must not rest (post_allowed {}, matched {} of {}, crosses {}, quantity {}, minimum {})", p.post_allowed, touches, p.limit, next_crosses, qty, self.min),
                );
            }
            if p.post_allowed && qty > 0 && qty < self.min && touches < p.limit && !next_crosses {
                self.sink.count("remainder_below_minimum");
            }
        }
        if p.post_only && next_crosses {
            self.sink.count("post_only_crossing");
        }
        if let Some(e) = evicted {
            if !full || s.id.is_none() {
                self.sink.hit(14, format!("{:x} evicted although its side holds {} of {} or nothing was posted", e, own.len(), self.cap(p.side)));
            }
        } else if !dow.removed.is_empty() && !full {
            self.sink.hit(14, "an order of the taker's own side was removed while the side was not full");
        }
        if !dow.changed.is_empty() {
            self.sink.hits_any(&[4, 14], "a resting order of the taker's own side changed quantity");
        }
        if self.sink.wants(8) && p.stb == Stb::Cancel {
            // budgets untouched by self-trade cancels: what was used is exactly the fills plus the post
            let pv = if s.id.is_some() { mul(s.posted, p.price, buy) } else { 0 };
            if outs.len() > 0 && (s.base as u128 != base_used + s.posted as u128 || s.quote as u128 != quote_used + pv) {
                self.sink.hit(8, format!("budgets consumed by a cancel-provide: summary {:?}, fills {} / {}", s, base_used, quote_used));
            }
        }
        // ---- id
        if let Some(id) = s.id {
            self.sink.eval(9, nontriv(true));
            if self.led.recs.contains_key(&id) {
                self.sink.hit(9, format!("order id {:x} was issued before", id));
            }
            if (id >> 64) as u64 != p.price {
                self.sink.hit(9, format!("order id {:x} does not encode the price {}", id, p.price));
            }
            if ((id >> 63) & 1 == 1) != buy || asset_agnostic_orderbook::state::get_side_from_order_id(id) != p.side.p() {
                self.sink.hit(9, format!("order id {:x} does not encode side {:?}", id, p.side));
            }
            if let Some(prev) = self.led.last_id.get(&(buy, p.price)) {
                self.sink.count("same_price_successors");
                if (buy && id >= *prev) || (!buy && id <= *prev) {
                    self.sink.hit(9, format!("order id {:x} does not rank after the earlier {:x} of its side and price", id, prev));
                }
            }
        }
        // ---- resynchronise the ledger with what actually happened
        for e in &evs {
            if let Some(r) = self.led.recs.get_mut(&e.id) {
                if e.fill {
                    r.filled += e.base as u128;
                }
            }
        }
        for o in db.removed.iter().chain(&da.removed) {
            if let Some(r) = self.led.recs.get_mut(&o.id) {
                r.resting = false;
                r.released = Some(outed.get(&o.id).copied().unwrap_or(0));
            }
            self.led.gone.push(o.id);
        }
        for (side, d) in [(Side::Bid, &db), (Side::Ask, &da)] {
            for o in &d.added {
                if let Some(r) = self.led.recs.get(&o.id) {
                    if !r.resting {
                        self.sink.hit(4, format!("order {:x} rests again after having left the book", o.id));
                    }
                }
                let mine = Some(o.id) == s.id;
                let a = self.led.next_arrival;
                self.led.next_arrival += 1;
                self.led.recs.insert(
                    o.id,
                    Rec {
                        side: if mine { p.side } else { side },
                        price: if mine { p.price } else { o.price() },
                        posted: o.qty,
                        arrival: a,
                        cb: if mine { p.cb } else { o.cb },
                        filled: 0,
                        released: None,
                        resting: true,
                        foreign: !mine,
                    },
                );
                if mine {
                    self.led.last_id.insert((buy, p.price), o.id);
                    if let Some(u) = uid {
                        self.led.by_uid.insert(u, o.id);
                    }
                }
            }
            for (_, o) in &d.changed {
                if let Some(r) = self.led.recs.get_mut(&o.id) {
                    // after a reported mismatch, trust the book so that later reports stand on their own
                    if r.posted as u128 != r.filled + o.qty as u128 && !self.sink.hits.is_empty() {
                        r.filled = (r.posted as u128).saturating_sub(o.qty as u128);
                    }
                }
            }
        }
    }

    fn out_event(&mut self, e: &Ev, side: Side, qty: u64, cb: &Cbb) {
        if e.side != idx(side) {
            self.sink.hit(11, format!("Out event of {:x} names side {}", e.id, e.side));
        }
        if e.base != qty {
            self.sink.hit(11, format!("Out event of {:x} carries {}, the order had {}", e.id, e.base, qty));
        }
        if self.sink.wants(16) {
            self.sink.count("out_callbacks_compared");
            if e.cb != *cb {
                self.sink.hit(16, format!("Out event of {:x} carries callback {:?}, submitted {:?}", e.id, e.cb, cb));
            }
        }
    }

    fn new_events(&mut self, pre: &State, post: &State) -> Vec<Ev> {
        let (a, b) = (pre.queue(), post.queue());
        if b.len() < a.len() || a.iter().zip(b).any(|(x, y)| x != y) {
            self.sink.hit(10, "events already in the queue were altered, dropped or reordered");
            if b.len() < a.len() {
                return vec![];
            }
        }
        b[a.len()..].to_vec()
    }

    fn cancel(&mut self, ids: &[u128], mass: bool, pre: &State, post: &State, out: &Outcome) {
        let prop = if mass { 13 } else { 12 };
        let sig = self.sig;
        let mut seen: HashSet<u128> = HashSet::new();
        let mut ok = true;
        let (mut base, mut quote) = (0u128, 0u128);
        let mut over = false;
        for id in ids {
            // an id names its side; look it up among the resting orders of that side
            let o = pre.bids.find(*id).or_else(|| pre.asks.find(*id));
            match o {
                Some(o) if seen.insert(*id) => {
                    base += o.qty as u128;
                    quote += mul(o.qty, self.led.price(&o), false);
                    if base > u64::MAX as u128 || quote > u64::MAX as u128 {
                        over = true;
                    }
                }
                _ => {
                    ok = false;
                    break;
                }
            }
        }
        self.sink.eval(prop, Some(sig));
        self.sink.count(match (mass, ok) {
            (false, true) => "cancel_resting",
            (false, false) => "cancel_not_resting",
            (true, true) => "mass_all_resting",
            (true, false) => "mass_not_all_resting",
        });
        if mass && ids.len() > 1 {
            self.sink.count("mass_of_several");
        }
        match out {
            Outcome::Ok(s) => {
                let d = [diff(&pre.bids.orders, &post.bids.orders), diff(&pre.asks.orders, &post.asks.orders)];
                if pre.queue() != post.queue() {
                    self.sink.hits_any(&[prop, 10, 11], "a cancellation changed the event queue");
                }
                if !ok {
                    self.sink.hit(prop, "cancelling an id that does not rest (or repeats) succeeded");
                }
                if over {
                    self.sink.hits_any(&[13, 23], "mass cancel whose sums exceed 64 bits succeeded");
                }
                let removed: HashSet<u128> = d.iter().flat_map(|d| d.removed.iter().map(|o| o.id)).collect();
                if ok {
                    if removed != seen {
                        self.sink.hits_any(&[prop, 4], &format!("cancelling {} orders removed {}", seen.len(), removed.len()));
                    }
                    if d.iter().any(|d| !d.changed.is_empty() || !d.added.is_empty()) {
                        self.sink.hits_any(&[prop, 4], "a cancellation changed other orders");
                    }
                    if d.iter().any(|d| !d.cb_changed.is_empty()) {
                        self.sink.hits_any(&[prop, 16], "a cancellation changed another order's callback information");
                    }
                    match s {
                        Some(s) => {
                            if s.id.is_some() || s.posted != 0 || s.base as u128 != base || s.quote as u128 != quote {
                                self.sink.hit(prop, format!("summary {:?}, expected base {} quote {} and nothing posted", s, base, quote));
                                if s.base as u128 != base {
                                    self.sink.hit(4, format!("cancellation reported {} of {}", s.base, base));
                                }
                            }
                        }
                        None => self.sink.hits_any(&[prop, 20], "a successful cancellation returned no summary"),
                    }
                }
                self.sink.eval(4, Some(sig));
                self.sink.eval(11, Some(sig));
                for d in &d {
                    for o in &d.removed {
                        if let Some(r) = self.led.recs.get_mut(&o.id) {
                            r.resting = false;
                            r.released = Some(o.qty);
                            if !r.foreign && r.posted as u128 != r.filled + o.qty as u128 {
                                self.sink.hit(4, format!("order {:x}: posted {} != filled {} + cancelled {}", o.id, r.posted, r.filled, o.qty));
                            }
                        }
                        self.led.gone.push(o.id);
                    }
                }
            }
            o => {
                let panic = matches!(o, Outcome::Panic(_));
                if !ok && !over {
                    self.sink.eval(31, Some(sig));
                    self.sink.count(if mass { "refused_mass_of_unknown_id" } else { "refused_cancel_of_unknown_id" });
                    if !o.custom(E_NOT_FOUND) {
                        self.sink.hit(31, format!("cancellation of an id that does not rest: {} reported", o.short()));
                    }
                }
                if ok && !over {
                    let m = format!("cancellation of resting orders failed: {}", o.short());
                    self.sink.hit(prop, m.clone());
                    if panic {
                        self.sink.hit(23, m);
                    }
                } else if !ok && !o.custom(E_NOT_FOUND) && !over {
                    let m = format!("cancellation of a non-resting id failed with {} instead of order-not-found", o.short());
                    self.sink.hit(prop, m.clone());
                    if panic {
                        self.sink.hit(23, m);
                    }
                } else if over {
                    self.sink.count("mass_sum_overflow");
                }
            }
        }
    }

    fn consume(&mut self, n: u64, pre: &State, post: &State, out: &Outcome) {
        let sig = self.sig;
        let a = pre.queue();
        self.sink.eval(10, if !a.is_empty() && n > 0 { Some(sig) } else { None });
        match out {
            Outcome::Ok(_) => {
                let k = (n.min(a.len() as u64)) as usize;
                self.sink.add("events_consumed", k as u64);
                self.sink.count(if n > a.len() as u64 { "consume_beyond_length" } else { "consume_within_length" });
                if post.queue() != &a[k..] {
                    self.sink.hit(10, format!("consume({}) of {} events did not pop exactly the {} oldest", n, a.len(), k));
                }
                let d = [diff(&pre.bids.orders, &post.bids.orders), diff(&pre.asks.orders, &post.asks.orders)];
                if d.iter().any(|d| !d.changed.is_empty() || !d.added.is_empty() || !d.removed.is_empty()) {
                    self.sink.hit(4, "consuming events changed the book");
                }
            }
            o => {
                let m = format!("consume({}) failed: {}", n, o.short());
                self.sink.hit(10, m.clone());
                if matches!(o, Outcome::Panic(_)) {
                    self.sink.hit(23, m);
                }
            }
        }
    }

    /// C10 through the public reading API.
    pub fn queue_api(&mut self, w: &mut World, post: &State, probe: u64) {
        let evs = post.queue().to_vec();
        let cap = self.q_cap;
        let kind = self.kind;
        let mut bad: Option<String> = None;
        let mut seen = 0u64;
        let r = with_cb!(kind, C, {
            let buf = w.eq.data.m();
            guarded(|| {
                use asset_agnostic_orderbook::state::event_queue::{EventQueue, EventRef};
                use asset_agnostic_orderbook::state::AccountTag;
                let q = match EventQueue::<C>::from_buffer(buf, AccountTag::EventQueue) {
                    Ok(q) => q,
                    Err(e) => return Some(format!("queue unreadable: {:?}", e)),
                };
                let conv = |e: EventRef<'_, C>| -> Ev {
                    match e {
                        EventRef::Fill(f) => {
                            let b = bytemuck::bytes_of(f.event);
                            Ev {
                                fill: true,
                                side: b[1],
                                id: u128::from_le_bytes(b[16..32].try_into().unwrap()),
                                base: f.event.base_size,
                                quote: f.event.quote_size,
                                cb: Cbb::from(bytemuck::bytes_of(f.maker_callback_info)),
                                taker: Some(Cbb::from(bytemuck::bytes_of(f.taker_callback_info))),
                            }
                        }
                        EventRef::Out(o) => {
                            let b = bytemuck::bytes_of(o.event);
                            Ev {
                                fill: false,
                                side: b[1],
                                id: u128::from_le_bytes(b[16..32].try_into().unwrap()),
                                base: o.event.base_size,
                                quote: 0,
                                cb: Cbb::from(bytemuck::bytes_of(o.callback_info)),
                                taker: None,
                            }
                        }
                    }
                };
                if q.len() != evs.len() as u64 || q.is_empty() != evs.is_empty() {
                    return Some(format!("len {} is_empty {} for {} queued events", q.len(), q.is_empty(), evs.len()));
                }
                let mut n = 0;
                for (i, e) in q.iter().enumerate() {
                    if i >= evs.len() || conv(e) != evs[i] {
                        return Some(format!("iteration disagrees with the queue at {}", i));
                    }
                    n += 1;
                }
                if n != evs.len() {
                    return Some(format!("iteration yields {} of {} events", n, evs.len()));
                }
                for (i, want) in evs.iter().enumerate() {
                    match q.peek_at(i as u64) {
                        Some(e) => {
                            if conv(e) != *want {
                                return Some(format!("peek_at({}) disagrees with the queue", i));
                            }
                        }
                        None => return Some(format!("peek_at({}) disagrees with the queue", i)),
                    }
                }
                for i in [evs.len() as u64, evs.len() as u64 + 1 + probe % (cap as u64 + 1), u64::MAX, u64::MAX - probe % 5, (probe % 3 + 1) * cap as u64 + evs.len() as u64] {
                    if i >= evs.len() as u64 && q.peek_at(i).is_some() {
                        return Some(format!("peek_at({}) returns an event beyond length {}", i, evs.len()));
                    }
                }
                None
            })
        });
        seen += 1;
        match r {
            Ok(None) => {}
            Ok(Some(m)) => bad = Some(m),
            Err(m) => bad = Some(format!("reading the queue panicked: {}", m)),
        }
        self.sink.add("queue_api_reads", seen);
        // popping on a copy through the API
        let n = probe % (cap as u64 + 3);
        let evs = post.queue().to_vec();
        let r = with_cb!(kind, C, {
            let mut copy = w.eq.data.clone();
            let r = guarded(|| {
                use asset_agnostic_orderbook::state::event_queue::EventQueue;
                use asset_agnostic_orderbook::state::AccountTag;
                let mut q = EventQueue::<C>::from_buffer(copy.m(), AccountTag::EventQueue).unwrap();
                q.pop_n(n);
            });
            r.map(|_| decode_queue(kind, copy.s()))
        });
        match r {
            Ok(Ok(v)) if v[..] == evs[(n as usize).min(evs.len())..] => {}
            _ => bad = Some(format!("pop_n({}) of {} events did not pop exactly the oldest", n, evs.len())),
        }
        if let Some(m) = bad {
            self.sink.hit(10, m);
        }
    }

    /// C15 through the public lookup API.
    pub fn book_api(&mut self, w: &mut World, post: &State, probe: u64) {
        let kind = self.kind;
        let sig = self.sig;
        let n_all = post.bids.orders.len() + post.asks.orders.len();
        self.sink.eval(15, if n_all >= 2 { Some(sig) } else { None });
        let mut extra: Vec<u128> = vec![0, u128::MAX, 1, (probe as u128) << 64 | probe as u128];
        let g = &self.led.gone;
        if !g.is_empty() {
            extra.push(g[probe as usize % g.len()]);
            extra.push(g[(probe >> 20) as usize % g.len()]);
            extra.push(g[g.len() - 1]);
        }
        let mut msgs: Vec<String> = vec![];
        for side in [Side::Bid, Side::Ask] {
            let dec = post.side(side);
            let mut orders = dec.orders.clone();
            orders.sort_by_key(|o| o.id);
            let mut probes = extra.clone();
            if !orders.is_empty() {
                for k in 0..3 {
                    let o = &orders[(probe >> (8 * k)) as usize % orders.len()];
                    probes.extend([o.id ^ 1, o.id ^ (1 << 64), o.id ^ (1 << 63), o.id ^ (1u128 << (probe >> 33) % 128), o.id.wrapping_add(1), o.id.wrapping_sub(1)]);
                }
            }
            let depth = canonical_depth(&orders.iter().map(|o| o.id).collect::<Vec<_>>());
            self.sink.add("orders_looked_up", orders.len() as u64);
            self.sink.add("absent_ids_looked_up", probes.len() as u64);
            let buf = match side {
                Side::Bid => w.bids.data.m(),
                Side::Ask => w.asks.data.m(),
            };
            let r = with_cb!(kind, C, {
                guarded(|| {
                    use asset_agnostic_orderbook::state::critbit::Slab;
                    use asset_agnostic_orderbook::state::AccountTag;
                    let tag = if side == Side::Bid { AccountTag::Bids } else { AccountTag::Asks };
                    {
                        let s = match Slab::<C>::from_buffer(buf, tag) {
                            Ok(s) => s,
                            Err(e) => return Some(format!("slab unreadable: {:?}", e)),
                        };
                        let at = |h: Option<u32>| h.map(|h| s.leaf_nodes[h as usize].order_id());
                        if at(s.find_min()) != orders.first().map(|o| o.id) {
                            return Some("find_min is not the lowest order".to_string());
                        }
                        if at(s.find_max()) != orders.last().map(|o| o.id) {
                            return Some("find_max is not the highest order".to_string());
                        }
                        if s.root().is_none() != orders.is_empty() {
                            return Some("root() disagrees with emptiness".to_string());
                        }
                        if s.header.leaf_count as usize != orders.len() {
                            return Some(format!("order count {} for {} resting orders", s.header.leaf_count, orders.len()));
                        }
                        if s.get_depth() != depth {
                            return Some(format!("depth {} reported, {} expected", s.get_depth(), depth));
                        }
                        for o in &orders {
                            match s.find_by_key(o.id) {
                                Some(h) => {
                                    let l = &s.leaf_nodes[h as usize];
                                    if l.order_id() != o.id || l.base_quantity != o.qty || l.price() != (o.id >> 64) as u64 {
                                        return Some(format!("lookup of {:x} finds another order", o.id));
                                    }
                                    if bytemuck::bytes_of(s.get_callback_info(h)) != o.cb.get() {
                                        return Some(format!("callback lookup of {:x} differs", o.id));
                                    }
                                }
                                None => return Some(format!("lookup of resting {:x} finds nothing", o.id)),
                            }
                        }
                        for id in &probes {
                            if orders.binary_search_by_key(id, |o| o.id).is_err() && s.find_by_key(*id).is_some() {
                                return Some(format!("lookup of absent {:x} finds an order", id));
                            }
                        }
                    }
                    for asc in [true, false] {
                        let s = Slab::<C>::from_buffer(buf, tag).unwrap();
                        let got: Vec<(u128, u64)> = s.into_iter(asc).take(orders.len() + 2).map(|l| (l.order_id(), l.base_quantity)).collect();
                        let mut want: Vec<(u128, u64)> = orders.iter().map(|o| (o.id, o.qty)).collect();
                        if !asc {
                            want.reverse();
                        }
                        if got != want {
                            return Some(format!("{} iteration does not list the resting orders in order", if asc { "ascending" } else { "descending" }));
                        }
                    }
                    None
                })
            });
            match r {
                Ok(None) => {}
                Ok(Some(m)) => msgs.push(format!("{:?}: {}", side, m)),
                Err(m) => msgs.push(format!("{:?}: reading the book panicked: {}", side, m)),
            }
        }
        let want = (post.bids.orders.iter().map(|o| o.price()).max(), post.asks.orders.iter().map(|o| o.price()).min());
        let empty = n_all == 0;
        let r = with_cb!(kind, C, {
            let (b, a) = (w.bids.info(), w.asks.info());
            guarded(|| {
                use asset_agnostic_orderbook::state::critbit::Slab;
                use asset_agnostic_orderbook::state::orderbook::OrderBookState;
                use asset_agnostic_orderbook::state::{AccountTag, Side as PS};
                let sp = asset_agnostic_orderbook::utils::get_spread::<C>(&b, &a);
                let mut bd = b.data.borrow_mut();
                let mut ad = a.data.borrow_mut();
                let ob = OrderBookState::<C> { bids: Slab::from_buffer(&mut bd, AccountTag::Bids).unwrap(), asks: Slab::from_buffer(&mut ad, AccountTag::Asks).unwrap() };
                let bb = ob.find_bbo(PS::Bid).map(|h| ob.bids.leaf_nodes[h as usize].price());
                let ba = ob.find_bbo(PS::Ask).map(|h| ob.asks.leaf_nodes[h as usize].price());
                (sp, ob.get_spread(), (bb, ba), ob.is_empty())
            })
        });
        match r {
            Ok((a, b, c, e)) => {
                if a != want || b != want || c != want {
                    msgs.push(format!("spread {:?} / {:?} / best {:?}, book has {:?}", a, b, c, want));
                }
                if e != empty {
                    msgs.push(format!("is_empty {} with {} orders", e, n_all));
                }
            }
            Err(m) => msgs.push(format!("reading the spread panicked: {}", m)),
        }
        for m in msgs {
            self.sink.hit(15, m);
        }
    }
}
