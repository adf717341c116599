//! Runs histories under the monitors: generated ones, replayed ones, shrunk ones.
use crate::acct::*;
use crate::gen::*;
use crate::layout::State;
use crate::model::Ledger;
use crate::monitor::*;
use crate::op::*;
use std::sync::atomic::{AtomicU64, Ordering};
use std::time::{Duration, Instant};

pub static HB_CASE: AtomicU64 = AtomicU64::new(0);
pub static HB_STEP: AtomicU64 = AtomicU64::new(0);
/// bit p set: property p is spoken against if the current instruction hangs or kills the process
pub static HB_BLAME: AtomicU64 = AtomicU64::new(0);
pub static HB_FILE: std::sync::OnceLock<std::fs::File> = std::sync::OnceLock::new();

pub fn heartbeat(case: u64, step: u64, blame: u64) {
    HB_CASE.store(case, Ordering::Relaxed);
    HB_BLAME.store(blame, Ordering::Relaxed);
    HB_STEP.store(step + 1, Ordering::Relaxed);
    if let Some(f) = HB_FILE.get() {
        use std::os::unix::fs::FileExt;
        let mut b = [0u8; 24];
        b[..8].copy_from_slice(&case.to_le_bytes());
        b[8..16].copy_from_slice(&(step + 1).to_le_bytes());
        b[16..].copy_from_slice(&blame.to_le_bytes());
        let _ = f.write_at(&b, 0);
    }
}

pub enum Src<'a> {
    Gen(&'a mut Gen),
    List(&'a [Op]),
}

#[derive(Default)]
pub struct Run {
    pub ops: Vec<Op>,
    pub outcomes: Vec<Outcome>,
    pub digests: Vec<u64>,
    /// (property, step, message); the first step that hit
    pub hits: Vec<(u8, usize, String)>,
    pub setup_failed: Option<String>,
    pub trace: Vec<String>,
}

pub struct Opts {
    pub digests: bool,
    pub trace: bool,
    pub keep: bool,
    /// evaluate the reading-API monitors every n-th step
    pub api_every: usize,
    /// run a decoy market's instructions between this market's (determinism)
    pub decoy: Option<u64>,
    pub stop_on_hit: bool,
}
impl Default for Opts {
    fn default() -> Self {
        Opts { digests: false, trace: false, keep: true, api_every: 1, decoy: None, stop_on_hit: true }
    }
}

pub struct Decoy {
    w: World,
    g: Gen,
    led: Ledger,
    st: State,
    step: usize,
}
impl Decoy {
    pub fn new(seed: u64) -> Option<Decoy> {
        let mut g = Gen::new(Profile::Tight, seed, false);
        g.cfg.wid ^= 0x5555;
        let mut w = g.cfg.world();
        if !w.create(g.cfg.min, g.cfg.tick).ok() {
            return None;
        }
        g.len = usize::MAX;
        let st = State::read(&w);
        let led = Ledger::default();
        let _ = &mut g;
        Some(Decoy { w, g, led, st, step: 0 })
    }
    pub fn advance(&mut self) {
        let op = self.g.next(self.step, &self.st, &self.led);
        self.step += 1;
        let act = op.resolve(self.g.cfg.kind, &self.led);
        let b = Backup::take(&self.w);
        if !self.w.raw_exec(&act).ok() {
            b.restore(&mut self.w);
        }
        let st = State::read(&self.w);
        if st.readable() {
            self.st = st;
        }
    }
}

pub fn run_case(cfg: &CaseCfg, mut src: Src, sink: &mut Sink, case: u64, o: &Opts) -> Run {
    let mut run = Run::default();
    let mut w = cfg.world();
    heartbeat(case, 0, 1 << 18 | 1 << 23);
    let work = crate::c30::start();
    let c = w.create(cfg.min, cfg.tick);
    let work = crate::c30::since(work);
    if sink.wants(30) {
        let n = sink.hits.len();
        crate::c30::creation(work, &w, sink);
        for h in sink.hits[n..].iter() {
            run.hits.push((30, 0, h.1.clone()));
        }
    }
    if !c.ok() {
        run.setup_failed = Some(c.short());
        sink.count("market_creation_failed");
        return run;
    }
    cfg.fast_forward(&mut w);
    let mut led = Ledger::default();
    let mut pre = State::read(&w);
    let mut backup = Backup::take(&w);
    let owners = [w.market.owner, w.eq.owner, w.bids.owner, w.asks.owner];
    let q_cap = crate::layout::queue_capacity(cfg.kind, w.eq.data.s().len());
    let total = match &src {
        Src::Gen(g) => g.len,
        Src::List(l) => l.len(),
    };
    let mut decoy = o.decoy.and_then(Decoy::new);
    let quiet = match &src {
        Src::Gen(g) => g.quiet().min(total),
        Src::List(_) => 0,
    };
    if quiet > 0 {
        if let Src::Gen(g) = &mut src {
            let m = quiet_fill(cfg, &mut w, g, quiet, &mut led, &pre, case, sink);
            pre = State::read(&w);
            if o.digests {
                run.digests.push(w.digest(1));
            }
            if o.trace {
                run.trace.push(format!("     {} orders posted without trading -> {} bids, {} asks", quiet, pre.bids.orders.len(), pre.asks.orders.len()));
            }
            if let Some((ps, m)) = m {
                sink.hits_any(&ps, &m);
                for p in ps {
                    if sink.wants(p) {
                        run.hits.push((p, quiet - 1, m.clone()));
                    }
                }
                return run;
            }
            backup.update(&w);
        }
    }
    for step in quiet..total {
        let op = match &mut src {
            Src::Gen(g) => g.next(step, &pre, &led),
            Src::List(l) => l[step].clone(),
        };
        if let Some(d) = &mut decoy {
            d.advance();
        }
        let act = op.resolve(cfg.kind, &led);
        let before = sink.hits.len();
        let mut mon = Mon { kind: cfg.kind, cap_b: cfg.cap_b, cap_a: cfg.cap_a, q_cap, min: cfg.min, tick: cfg.tick, led: &mut led, sink, sig: 0 };
        let (pred, blame) = match &act {
            Act::New(p) => {
                let pr = mon.predict(p, &pre);
                let b = mon.blame(&pr.0, true).iter().fold(0u64, |a, p| a | 1 << *p);
                (Some(pr), b)
            }
            Act::Cancel(_) => (None, 1 << 12 | 1 << 23),
            Act::Mass(_) => (None, 1 << 13 | 1 << 23),
            _ => (None, 1 << 10 | 1 << 23),
        };
        heartbeat(case, step as u64, blame);
        let work = crate::c30::start();
        let out = w.raw_exec(&act);
        let work = crate::c30::since(work);
        heartbeat(case, u64::MAX - 1, 0);
        mon.sink.add("instructions", 1);
        mon.sig = step_sig(&pre, &act);
        let uid = if let Op::New(n) = &op { Some(n.uid) } else { None };
        let mut readable = true;
        let post;
        if out.ok() {
            post = State::read(&w);
            readable = mon.wellformed(&act, &post);
            if readable && mon.sink.wants(29) {
                let same = backup.same(&w);
                let s = mon.sig;
                mon.sink.eval(29, if same { None } else { Some(s) });
                mon.sink.count(match act {
                    Act::New(_) => "footprints_new",
                    Act::Cancel(_) => "footprints_cancel",
                    Act::Mass(_) => "footprints_mass",
                    Act::Consume(_) => "footprints_consume",
                    Act::Close => "footprints_close",
                });
                if let Some(m) = crate::c29::judge(&backup, &w, &act, &out, &pre, &post, &owners) {
                    mon.sink.hit(29, m);
                }
            }
            if readable {
                mon.step(&pre, &post, &act, &out, uid, pred.as_ref());
            }
        } else {
            if matches!(out, Outcome::Panic(_)) {
                mon.sink.count("aborted_instructions");
            }
            backup.restore(&mut w);
            post = State { bids: clone_dec(&pre.bids), asks: clone_dec(&pre.asks), q: pre.q.clone() };
            mon.step(&pre, &post, &act, &out, uid, pred.as_ref());
        }
        if readable && mon.sink.wants(30) {
            let s = mon.sig;
            crate::c30::step(work, &act, &out, &pre, &post, q_cap, s, mon.sink);
            let probe = crate::rng::mix(cfg.wid, step as u64 ^ 0x30);
            if probe % 3 == 0 {
                crate::c30::queries(cfg.kind, &mut w, &post, probe >> 8, mon.sink);
            }
            if probe % 5 == 0 {
                let c = crate::acct::Backup::take(&w);
                let t = crate::c30::start();
                let o = w.raw_exec(&Act::Close);
                let t = crate::c30::since(t);
                c.restore(&mut w);
                crate::c30::step(t, &Act::Close, &o, &post, &post, q_cap, s ^ 0x30, mon.sink);
            }
        }
        if mon.sink.prop == 23 {
            let s = mon.sig;
            mon.sink.eval(23, if out.ok() { Some(s) } else { None });
        }
        if readable && (o.api_every == 1 || step % o.api_every == 0) {
            let probe = crate::rng::mix(cfg.wid, step as u64);
            if mon.sink.wants(10) {
                heartbeat(case, step as u64, 1 << 10 | 1 << 23);
                mon.queue_api(&mut w, &post, probe);
            }
            if mon.sink.wants(15) && out.ok() {
                heartbeat(case, step as u64, 1 << 15 | 1 << 23);
                mon.book_api(&mut w, &post, probe);
            }
            if mon.sink.prop == 23 && probe % 3 == 0 {
                // what they answer is not the matter here
                heartbeat(case, step as u64, 1 << 23);
                mon.sink.count("states_queried");
                let mut none = Sink::new(255);
                let mut m = Mon { kind: mon.kind, cap_b: mon.cap_b, cap_a: mon.cap_a, q_cap: mon.q_cap, min: mon.min, tick: mon.tick, led: mon.led, sink: &mut none, sig: 0 };
                m.queue_api(&mut w, &post, probe);
                m.book_api(&mut w, &post, probe);
            }
            heartbeat(case, u64::MAX - 1, 0);
            if mon.sink.wants(29) && probe % 4 == 0 {
                mon.sink.count("queries_between_snapshots");
                if let Some(m) = crate::c29::queries(&mon, &mut w, &post, probe) {
                    mon.sink.hit(29, m);
                }
            }
        }
        if let (Op::New(n), Outcome::Ok(Some(s))) = (&op, &out) {
            if let Some(id) = s.id {
                led.uids.insert(id, n.uid);
                led.owners.insert(id, n.owner);
            }
        }
        if o.digests {
            let od = if sink.prop == 23 && !out.ok() { 0 } else { out.digest() };
            run.digests.push(w.digest(od));
        }
        if o.trace {
            run.trace.push(format!("{:4} {}  ->  {}", step, op.to_text(), out.short()));
            let ev = post.queue().len() as i64 - pre.queue().len() as i64;
            if ev > 0 {
                for e in &post.queue()[pre.queue().len()..] {
                    run.trace.push(format!("       event {} id={:x} base={} quote={}", if e.fill { "fill" } else { "out" }, e.id, e.base, e.quote));
                }
            }
        }
        let hit = sink.hits.len() > before;
        if hit {
            for (p, m) in &sink.hits[before..] {
                run.hits.push((*p, step, m.clone()));
            }
        }
        if o.keep || hit {
            run.ops.push(op);
        }
        run.outcomes.push(out);
        if (hit && o.stop_on_hit) || !readable {
            break;
        }
        if run.outcomes.last().unwrap().ok() {
            backup.update(&w);
        }
        pre = post;
    }
    run
}

/// Fill a large market with orders that must all rest, and compare the book with what was submitted.
#[allow(clippy::too_many_arguments)]
fn quiet_fill(cfg: &CaseCfg, w: &mut World, g: &mut Gen, n: usize, led: &mut Ledger, empty: &State, case: u64, sink: &mut Sink) -> Option<(Vec<u8>, String)> {
    let mut want: Vec<(u128, u64, crate::cb::Cbb, Side)> = Vec::with_capacity(n);
    for step in 0..n {
        let op = g.next(step, empty, led);
        let act = op.resolve(cfg.kind, led);
        if step % 64 == 0 {
            heartbeat(case, step as u64, 1 << 6 | 1 << 14 | 1 << 23);
        }
        let out = w.raw_exec(&act);
        let (Op::New(o), Act::New(p)) = (&op, &act) else { continue };
        match &out {
            Outcome::Ok(Some(s)) if s.id.is_some() && s.posted == p.base => {
                let id = s.id.unwrap();
                want.push((id, p.base, p.cb, p.side));
                let a = led.next_arrival;
                led.next_arrival += 1;
                let dup = led.recs.insert(
                    id,
                    crate::model::Rec { side: p.side, price: p.price, posted: p.base, arrival: a, cb: p.cb, filled: 0, released: None, resting: true, foreign: false },
                );
                if dup.is_some() {
                    return Some((vec![9], format!("order id {:x} was issued before", id)));
                }
                led.last_id.insert((p.side == Side::Bid, p.price), id);
                led.by_uid.insert(o.uid, id);
                led.uids.insert(id, o.uid);
                led.owners.insert(id, o.owner);
            }
            o => {
                let mut ps = vec![6, 14];
                if matches!(o, Outcome::Panic(_)) {
                    ps.push(23);
                }
                return Some((ps, format!("filling a market sized for {} bids and {} asks: order {} (post only, uncrossed) was not posted in full: {}", cfg.cap_b, cfg.cap_a, step, o.short())));
            }
        }
    }
    heartbeat(case, u64::MAX - 1, 0);
    sink.add("instructions", n as u64);
    sink.add("orders_filled_in_beyond_16_bits", n as u64);
    let st = State::read(w);
    for (name, side, dec) in [("bids", Side::Bid, &st.bids), ("asks", Side::Ask, &st.asks)] {
        if let Some(b) = &dec.bad {
            return Some((vec![4, 14, 15, 16, 23], format!("{} tree malformed after {} posts: {}", name, n, b)));
        }
        let mut x: Vec<_> = want.iter().filter(|o| o.3 == side).collect();
        x.sort_by_key(|o| o.0);
        if x.len() != dec.orders.len() || x.iter().zip(&dec.orders).any(|(a, b)| a.0 != b.id || a.1 != b.qty) {
            return Some((vec![3, 4, 14, 15], format!("{}: the resting orders are not those posted ({} posted, {} rest)", name, x.len(), dec.orders.len())));
        }
        if x.iter().zip(&dec.orders).any(|(a, b)| a.2 != b.cb) {
            return Some((vec![16], format!("{}: a resting order carries other callback information than submitted", name)));
        }
    }
    if !st.queue().is_empty() {
        return Some((vec![10, 11], "posting without trading produced events".into()));
    }
    None
}

fn clone_dec(d: &crate::layout::SlabDec) -> crate::layout::SlabDec {
    crate::layout::SlabDec { orders: d.orders.clone(), bad: d.bad.clone(), readable: d.readable, depth: d.depth, leaf_count: d.leaf_count }
}

/// Does this history violate `prop`?
pub fn violates(cfg: &CaseCfg, ops: &[Op], prop: u8) -> Option<(usize, String)> {
    let mut s = Sink::new(prop);
    let r = run_case(cfg, Src::List(ops), &mut s, u64::MAX, &Opts { keep: false, ..Default::default() });
    r.hits.into_iter().find(|h| h.0 == prop).map(|h| (h.1, h.2))
}

/// ddmin over the operations, then small simplifications, within a time budget.
pub fn shrink(cfg: &CaseCfg, ops: &[Op], prop: u8, budget: Duration) -> (CaseCfg, Vec<Op>) {
    let t0 = Instant::now();
    let mut cfg = cfg.clone();
    let mut ops = ops.to_vec();
    if let Some((s, _)) = violates(&cfg, &ops, prop) {
        ops.truncate(s + 1);
    } else {
        return (cfg, ops);
    }
    let mut n = 2usize;
    while ops.len() > 1 && t0.elapsed() < budget {
        let chunk = (ops.len() + n - 1) / n;
        let mut reduced = false;
        let mut i = 0;
        while i < ops.len() && t0.elapsed() < budget {
            let j = (i + chunk).min(ops.len());
            let mut cand = ops[..i].to_vec();
            cand.extend_from_slice(&ops[j..]);
            if let Some((s, _)) = violates(&cfg, &cand, prop) {
                cand.truncate(s + 1);
                ops = cand;
                reduced = true;
            } else {
                i = j;
            }
        }
        if reduced {
            n = n.saturating_sub(1).max(2);
        } else {
            if chunk == 1 {
                break;
            }
            n = (n * 2).min(ops.len());
        }
    }
    for f in [0usize, 1, 2] {
        let mut c = cfg.clone();
        match f {
            0 => c.seq0 = 0,
            1 => c.head0 = 0,
            _ => c.align = 0,
        }
        if t0.elapsed() < budget && violates(&c, &ops, prop).is_some() {
            cfg = c;
        }
    }
    (cfg, ops)
}

pub fn write_replay(dir: &str, prop: u8, cfg: &CaseCfg, ops: &[Op], note: &str) -> String {
    std::fs::create_dir_all(dir).ok();
    let mut s = format!("# property C{:02}: {}\nprop {}\n{}\n", prop, note.replace('\n', " "), prop, cfg.to_text());
    for o in ops {
        s.push_str(&o.to_text());
        s.push('\n');
    }
    let path = format!("{}/C{:02}-{:016x}.txt", dir, prop, fnv(s.as_bytes(), 3));
    std::fs::write(&path, s).ok();
    path
}

pub fn load_replay(path: &str) -> Option<(u8, CaseCfg, Vec<Op>)> {
    let t = std::fs::read_to_string(path).ok()?;
    let mut prop = 0;
    let mut cfg = None;
    let mut ops = vec![];
    for l in t.lines() {
        if l.starts_with('#') || l.trim().is_empty() {
            continue;
        }
        if let Some(p) = l.strip_prefix("prop ") {
            prop = p.trim().parse().ok()?;
        } else if l.starts_with("cfg ") {
            cfg = CaseCfg::parse(l);
        } else if let Some(o) = Op::parse(l) {
            ops.push(o);
        }
    }
    Some((prop, cfg?, ops))
}

/// A market somewhere in the middle of a generated history.
pub struct Evolved {
    pub w: World,
    pub led: Ledger,
    pub st: State,
    pub g: Gen,
    pub step: usize,
}
impl Evolved {
    pub fn new(profile: Profile, seed: u64) -> Option<Evolved> {
        Evolved::with(profile, seed, |_| {})
    }
    pub fn with(profile: Profile, seed: u64, f: impl FnOnce(&mut CaseCfg)) -> Option<Evolved> {
        let mut g = Gen::new(profile, seed, false);
        f(&mut g.cfg);
        let mut w = g.cfg.world();
        if !w.create(g.cfg.min, g.cfg.tick).ok() {
            return None;
        }
        g.cfg.fast_forward(&mut w);
        g.len = usize::MAX;
        let st = State::read(&w);
        Some(Evolved { w, led: Ledger::default(), st, g, step: 0 })
    }
    /// A market with more than 65536 orders on one side.
    pub fn huge(seed: u64, f: impl FnOnce(&mut CaseCfg)) -> Option<Evolved> {
        let mut e = Evolved::with(Profile::Huge, seed, f)?;
        let n = e.g.quiet();
        let c = e.g.cfg.clone();
        let empty = State::read(&e.w);
        let _ = quiet_fill(&c, &mut e.w, &mut e.g, n, &mut e.led, &empty, 0, &mut Sink::new(255));
        e.step = n;
        e.st = State::read(&e.w);
        Some(e)
    }
    /// One generated operation; false if the state became unreadable.
    pub fn advance(&mut self) -> bool {
        let op = self.g.next(self.step, &self.st, &self.led);
        self.step += 1;
        let act = op.resolve(self.g.cfg.kind, &self.led);
        let uid = if let Op::New(n) = &op { Some((n.uid, n.owner)) } else { None };
        self.apply(&act, uid).1
    }
    pub fn apply(&mut self, act: &Act, uid: Option<(u32, u32)>) -> (Outcome, bool) {
        let b = Backup::take(&self.w);
        let out = self.w.raw_exec(act);
        if !out.ok() {
            b.restore(&mut self.w);
            return (out, true);
        }
        let post = State::read(&self.w);
        if !post.readable() {
            return (out, false);
        }
        let mut sink = Sink::new(255);
        let c = &self.g.cfg;
        let q_cap = crate::layout::queue_capacity(c.kind, self.w.eq.data.s().len());
        let mut mon = Mon { kind: c.kind, cap_b: c.cap_b, cap_a: c.cap_a, q_cap, min: c.min, tick: c.tick, led: &mut self.led, sink: &mut sink, sig: 0 };
        let pred = if let Act::New(p) = act { Some(mon.predict(p, &self.st)) } else { None };
        mon.step(&self.st, &post, act, &out, uid.map(|u| u.0), pred.as_ref());
        if let (Some((u, o)), Outcome::Ok(Some(s))) = (uid, &out) {
            if let Some(id) = s.id {
                self.led.uids.insert(id, u);
                self.led.owners.insert(id, o);
            }
        }
        self.st = post;
        (out, true)
    }
    /// A generated operation of the wanted kind (0 new, 1 cancel, 2 mass, 3 consume) for the current state,
    /// which succeeds on a copy of the market.
    pub fn good_op(&mut self, kind: u8, tries: usize) -> Option<Act> {
        for _ in 0..tries {
            let op = self.g.next(usize::MAX, &self.st, &self.led);
            let k = match &op {
                Op::New(_) => 0,
                Op::Cancel(_) => 1,
                Op::Mass(_) => 2,
                Op::Consume(_) => 3,
            };
            if k != kind {
                continue;
            }
            let act = op.resolve(self.g.cfg.kind, &self.led);
            let mut c = self.w.clone();
            if c.raw_exec(&act).ok() {
                return Some(act);
            }
        }
        None
    }
    /// Cancel everything and consume everything.
    pub fn drain(&mut self) -> bool {
        for _ in 0..10_000 {
            let id = self.st.bids.orders.iter().chain(&self.st.asks.orders).map(|o| o.id).next();
            let act = match id {
                Some(id) => Act::Cancel(id),
                None if !self.st.queue().is_empty() => Act::Consume(u64::MAX),
                None => return true,
            };
            let (o, r) = self.apply(&act, None);
            if !o.ok() || !r {
                return false;
            }
        }
        false
    }
}

/// signature of a state for distinctness counts
pub fn state_sig(st: &State) -> u64 {
    step_sig(st, &Act::Close)
}
