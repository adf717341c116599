//! Workload generation: market shapes and state-aware operations.
use crate::acct::*;
use crate::cb::{Kind, KINDS};
use crate::layout::State;
use crate::model::*;
use crate::op::*;
use crate::rng::Rng;

#[derive(Clone, Debug)]
pub struct CaseCfg {
    pub kind: Kind,
    pub entry: bool,
    pub cap_b: usize,
    pub cap_a: usize,
    pub eq_cap: usize,
    /// additional whole callback slots appended to the side accounts (unused space)
    pub extra_b: usize,
    pub extra_a: usize,
    pub tick: u64,
    pub min: u64,
    pub seq0: u64,
    pub head0: u64,
    pub align: u8,
    pub wid: u64,
}

impl CaseCfg {
    pub fn to_text(&self) -> String {
        format!(
            "cfg kind={:?} entry={} cap_b={} cap_a={} eq_cap={} extra_b={} extra_a={} tick={} min={} seq0={} head0={} align={} wid={}",
            self.kind, self.entry as u8, self.cap_b, self.cap_a, self.eq_cap, self.extra_b, self.extra_a, self.tick, self.min, self.seq0, self.head0, self.align, self.wid
        )
    }
    pub fn parse(l: &str) -> Option<CaseCfg> {
        let f = |k: &str| l.split_whitespace().find_map(|x| x.strip_prefix(k)).map(|s| s.to_string());
        let n = |k: &str| f(k).and_then(|s| s.parse::<u64>().ok());
        Some(CaseCfg {
            kind: Kind::from_name(&f("kind=")?)?,
            entry: n("entry=")? == 1,
            cap_b: n("cap_b=")? as usize,
            cap_a: n("cap_a=")? as usize,
            eq_cap: n("eq_cap=")? as usize,
            extra_b: n("extra_b=")? as usize,
            extra_a: n("extra_a=")? as usize,
            tick: n("tick=")?,
            min: n("min=")?,
            seq0: n("seq0=")?,
            head0: n("head0=")?,
            align: n("align=")? as u8,
            wid: n("wid=")?,
        })
    }
    pub fn world(&self) -> World {
        let mut w = World::new(
            self.kind,
            self.entry,
            self.wid,
            queue_size(self.kind, self.eq_cap),
            slab_size(self.kind, self.cap_b) + self.extra_b * self.kind.size(),
            slab_size(self.kind, self.cap_a) + self.extra_a * self.kind.size(),
            self.align,
        );
        // anyone may have sent the accounts more than their rent
        let x = crate::rng::mix(self.wid, 77);
        if x & 1 == 1 {
            for (i, a) in [&mut w.market, &mut w.eq, &mut w.bids, &mut w.asks].into_iter().enumerate() {
                let y = crate::rng::mix(x, i as u64);
                a.lamports += match y % 3 {
                    0 => 0,
                    1 => y >> 54,
                    _ => y >> 22,
                };
            }
        }
        w
    }
    /// Fast-forward the market's history: sequence number and queue head.
    pub fn fast_forward(&self, w: &mut World) {
        let d = w.eq.data.m();
        d[8..16].copy_from_slice(&self.head0.to_le_bytes());
        d[24..32].copy_from_slice(&self.seq0.to_le_bytes());
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Profile {
    Tight,
    Extreme,
    Large,
    Long,
    Full,
    SelfTrade,
    Realistic,
    QueueTight,
    Churn,
    Huge,
}
pub const PROFILES: [Profile; 10] = [
    Profile::Tight,
    Profile::Extreme,
    Profile::Large,
    Profile::Long,
    Profile::Full,
    Profile::SelfTrade,
    Profile::Realistic,
    Profile::QueueTight,
    Profile::Churn,
    Profile::Huge,
];
impl Profile {
    pub fn from_name(s: &str) -> Option<Profile> {
        PROFILES.iter().copied().find(|k| format!("{:?}", k) == s)
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum PriceMode {
    Band { center: u64, width: u64 },
    Log,
    Pow2,
    /// prices that differ from `center` in one bit: the tree becomes a chain
    Chain { center: u64 },
}

pub struct Gen {
    pub rng: Rng,
    pub cfg: CaseCfg,
    pub profile: Profile,
    pub pm: PriceMode,
    qty_hi: u64,
    qty_log: bool,
    owners: Vec<u32>,
    w_new: u64,
    w_cancel: u64,
    w_mass: u64,
    w_consume: u64,
    p_aggr: u64,
    p_consume_all: u64,
    stb_mix: u64,
    pub len: usize,
    uid: u32,
    prefill: usize,
    prefill_order: u64,
    mass_big: bool,
    sweep_next: bool,
    uids_recent: Vec<u32>,
}

impl Gen {
    pub fn new(profile: Profile, seed: u64, deep: bool) -> Gen {
        let mut rng = Rng::new(seed);
        let r = &mut rng;
        let mut entry = r.pct(45);
        let mut kind = if entry { Kind::E32 } else { *r.pick(&KINDS) };
        // ticks
        let mut tick = match r.below(10) {
            0 | 1 => 1,
            2 | 3 => 1 << 32,
            4 => 1 << 30,
            5 => *r.pick(&[3, 7, 10, 1000003, 0x1_0000_0001, 0xFFFF_FFFF]),
            6 => 1u64 << r.below(44),
            7 => r.range(2, 1000),
            8 => (r.logu() >> 8).max(1),
            _ => 1 << 31,
        };
        let mut min = match r.below(8) {
            0 | 1 | 2 => 1,
            3 => 2,
            4 => 5,
            5 => 10,
            6 => r.range(1, 1000),
            _ => 1u64 << r.below(40),
        };
        let (mut cap_b, mut cap_a) = (r.range(1, 12) as usize, r.range(1, 12) as usize);
        let mut eq_cap = r.range(5, 40) as usize;
        let mut len = r.range(20, 90) as usize;
        let mut owners = r.range(1, 6);
        let (mut w_new, mut w_cancel, mut w_mass, mut w_consume) = (70, 10, 5, 15);
        let mut p_aggr = 45;
        let mut prefill = 0;
        let mut qty_log = r.pct(15);
        let mut stb_mix = 40;
        let mut mass_big = false;
        let max_ticks = u64::MAX / tick;
        let band = |r: &mut Rng, lo: u64, hi: u64, w: u64| {
            let hi = hi.min(max_ticks).max(1);
            let lo = lo.min(hi).max(1);
            PriceMode::Band { center: r.range(lo, hi), width: w }
        };
        let mut pm = match r.below(8) {
            0 => band(r, 1, 3, 3),
            1 | 2 => band(r, 5, 30, 4),
            3 => band(r, 100, 100_000, 12),
            4 => {
                let b = r.below(64);
                band(r, 1 << b, (1u64 << b).saturating_mul(2), 5)
            }
            5 => PriceMode::Log,
            6 => PriceMode::Pow2,
            _ => band(r, 1, 1 << 20, 2),
        };
        let mut qty_hi = min.saturating_mul(r.range(2, 30));
        match profile {
            Profile::Tight => {
                let w = r.range(1, 4);
                pm = band(r, 2, 40, w);
            }
            Profile::Extreme => {
                qty_log = true;
                pm = match r.below(5) {
                    0 => PriceMode::Log,
                    1 => PriceMode::Pow2,
                    2 => band(r, max_ticks.saturating_sub(20), max_ticks, 6),
                    3 => {
                        let c = (1u64 << 63) / tick;
                        band(r, c.saturating_sub(3), c.saturating_add(3), 6)
                    }
                    _ if r.pct(40) => PriceMode::Chain { center: r.next() >> 1 },
                    _ => band(r, 1, 4, 3),
                };
                if r.pct(30) {
                    min = 1 << r.below(63);
                }
                p_aggr = 55;
            }
            Profile::Large => {
                let hi = if deep { 3000 } else { 700 };
                let n = if r.pct(20) { r.range(hi / 2, hi) } else { r.range(60, hi / 2) };
                cap_b = n as usize;
                cap_a = r.range(n / 2, n) as usize;
                eq_cap = if r.pct(50) { r.range(50, 400) } else { r.range(400, 2 * hi) } as usize;
                let total = (cap_a + cap_b) as u64;
                prefill = r.range(total / 3, total) as usize;
                len = prefill + r.range(40, 120) as usize;
                pm = match r.below(5) {
                    0 => PriceMode::Log,
                    1 => band(r, 1 << 20, 1 << 21, n),
                    2 => band(r, 1000, 2000, 3),
                    3 => PriceMode::Pow2,
                    _ => band(r, 1 << 16, 1 << 17, n / 4 + 1),
                };
                w_mass = 12;
                mass_big = true;
                owners = r.range(2, 200);
                if r.pct(12) {
                    tick = *r.pick(&[1, 1, 1, 2, 3]);
                    pm = PriceMode::Chain { center: r.next() >> 1 };
                }
            }
            Profile::Long => {
                len = r.range(800, if deep { 6000 } else { 1500 }) as usize;
                let w = r.range(1, 10);
                pm = band(r, 5, 200, w);
                w_consume = 25;
            }
            Profile::Full => {
                cap_b = r.range(1, 6) as usize;
                cap_a = r.range(1, 6) as usize;
                eq_cap = r.range(5, 60) as usize;
                p_aggr = 15;
                w_cancel = 6;
                w_mass = 2;
                let w = r.range(2, 8);
                pm = band(r, 5, 60, w);
            }
            Profile::SelfTrade => {
                owners = r.range(1, 3);
                stb_mix = 85;
                p_aggr = 60;
                if r.pct(70) {
                    entry = false;
                    kind = *r.pick(&KINDS);
                }
            }
            Profile::Realistic => {
                cap_b = 60;
                cap_a = 60;
                eq_cap = 100;
                len = 200;
                owners = 25;
                pm = band(r, 2000, 10_000, 25);
                min = 1000;
                qty_hi = 2_000_000;
                stb_mix = 25;
            }
            Profile::QueueTight => {
                eq_cap = r.range(5, 9) as usize;
                p_aggr = 65;
                w_consume = 12;
                cap_b = r.range(3, 14) as usize;
                cap_a = r.range(3, 14) as usize;
                let w = r.range(1, 4);
                pm = band(r, 4, 40, w);
            }
            Profile::Huge => {
                // one side (or the queue) beyond 16-bit sizes; filled without monitoring, then watched
                let n = *r.pick(&[66_000u64, 70_000, 98_304, 131_072]) + r.below(3);
                let small = r.range(4, 3000);
                let bids_big = r.pct(50);
                cap_b = if bids_big { n } else { small } as usize;
                cap_a = if bids_big { small } else { n } as usize;
                eq_cap = if r.pct(60) { r.range(66_000, 280_000) } else { r.range(8, 400) } as usize;
                let fill = match r.below(4) {
                    0 | 1 => n,
                    2 => n - r.range(1, 300),
                    _ => r.range(65_600, n),
                };
                prefill = (fill + small / 2) as usize;
                len = prefill + r.range(24, 40) as usize;
                min = *r.pick(&[1, 2, 10, 1000]);
                tick = *r.pick(&[1 << 32, 1 << 31, 1000, 1 << 24]);
                let w = n + 10;
                pm = if r.pct(50) { PriceMode::Band { center: n + 5 + r.below(1 << 24), width: w } } else { PriceMode::Band { center: r.range(100, 100_000), width: 8 } };
                qty_hi = min * 20;
                qty_log = false;
                w_cancel = 25;
                w_mass = 10;
                w_new = 60;
                p_aggr = 35;
                mass_big = r.pct(30);
                owners = r.range(2, 200);
            }
            Profile::Churn => {
                cap_b = r.range(2, 20) as usize;
                cap_a = r.range(2, 20) as usize;
                w_new = 55;
                w_cancel = 25;
                w_mass = 12;
                p_aggr = 25;
                len = r.range(60, 250) as usize;
            }
        }
        if profile == Profile::Tight && r.pct(40) {
            qty_hi = min.saturating_mul(3).saturating_add(2);
        }
        if kind == Kind::One && owners > 200 {
            owners = 200;
        }
        // owner identities: families of near-identical ids, family 0 starts with the all-zero identity
        let basef = if r.pct(40) { 0 } else { r.below(50) as u32 * 8 };
        let owners: Vec<u32> = (0..owners as u32).map(|i| if kind == Kind::One { i } else { basef + i }).collect();
        // ids of the whole case stay below 2^63, where the two sides' numbers would meet
        let top = (1u64 << 63) - 2 * (len as u64).max(3900) - 200;
        let seq0 = if r.pct(55) {
            0
        } else {
            let b = *r.pick(&[1u64 << 8, 1 << 16, 1 << 24, 1 << 31, 1 << 32, 1 << 40, 1 << 53, 1 << 62, top]);
            b - r.below(12).min(b)
        };
        let head0 = if r.pct(40) { 0 } else { r.below(eq_cap as u64) };
        let cfg = CaseCfg {
            kind,
            entry,
            cap_b,
            cap_a,
            eq_cap,
            extra_b: if r.pct(20) { r.below((56 / kind.size().max(1) as u64).max(1)) as usize } else { 0 },
            extra_a: if r.pct(20) { r.below((56 / kind.size().max(1) as u64).max(1)) as usize } else { 0 },
            tick,
            min,
            seq0,
            head0,
            align: r.below(16) as u8,
            wid: r.next() >> 8,
        };
        let prefill_order = r.below(5);
        let p_consume_all = r.range(5, 60);
        Gen {
            rng,
            cfg,
            profile,
            pm,
            qty_hi,
            qty_log,
            owners,
            w_new,
            w_cancel,
            w_mass,
            w_consume,
            p_aggr,
            p_consume_all,
            stb_mix,
            len,
            uid: 0,
            prefill,
            prefill_order,
            mass_big,
            sweep_next: false,
            uids_recent: vec![],
        }
    }

    fn max_tick(&self) -> u64 {
        u64::MAX / self.cfg.tick
    }
    fn tick_price(&self, n: u64) -> u64 {
        n.clamp(1, self.max_tick()) * self.cfg.tick
    }
    fn any_price(&mut self) -> u64 {
        let mt = self.max_tick();
        let n = match self.pm {
            PriceMode::Band { center, width } => {
                let lo = center.saturating_sub(width).max(1);
                let hi = center.saturating_add(width).min(mt).max(lo);
                self.rng.range(lo, hi)
            }
            PriceMode::Log => {
                let v = self.rng.logu();
                (v / self.cfg.tick).max(1)
            }
            PriceMode::Chain { center } => {
                let b = 1u64 << self.rng.below(63);
                match self.rng.below(8) {
                    0 => center,
                    1 => center ^ b ^ 1,
                    _ => center ^ b,
                }
            }
            PriceMode::Pow2 => {
                let b = 1u64 << self.rng.below(64);
                match self.rng.below(4) {
                    0 => b.saturating_sub(1).max(1),
                    1 => b.saturating_add(1),
                    _ => b,
                }
            }
        };
        self.tick_price(n)
    }
    fn qty(&mut self) -> u64 {
        let min = self.cfg.min;
        if self.qty_log && self.rng.pct(60) {
            return self.rng.logu();
        }
        match self.rng.below(12) {
            0 => min,
            1 => min.saturating_sub(1),
            2 => min + 1,
            3 => min.saturating_mul(2),
            4 => min.saturating_mul(2).saturating_sub(1),
            5 if self.rng.pct(20) => self.rng.edgy(),
            6 if self.rng.pct(20) => 0,
            _ => {
                let hi = self.qty_hi.max(min);
                self.rng.range(min, hi)
            }
        }
    }
    fn owner(&mut self) -> u32 {
        *self.rng.pick(&self.owners.clone())
    }
    fn stb(&mut self) -> Stb {
        if self.rng.pct(self.stb_mix) {
            if self.rng.pct(70) {
                Stb::Cancel
            } else {
                Stb::Abort
            }
        } else {
            Stb::Dec
        }
    }
    fn match_limit(&mut self) -> u64 {
        match self.rng.below(10) {
            0 => 0,
            1 => 1,
            2 => 2,
            3 => u64::MAX,
            4 => self.rng.range(1, 6),
            5 => self.rng.edgy(),
            6 if self.rng.pct(50) => (1u64 << self.rng.range(3, 63)).saturating_add(self.rng.below(3)),
            _ => 1000,
        }
    }
    fn nextuid(&mut self) -> u32 {
        self.uid += 1;
        self.uids_recent.push(self.uid);
        self.uid
    }

    /// quote budget for `base` at `price`
    fn quote_for(&mut self, base: u64, price: u64) -> u64 {
        if self.rng.pct(60) {
            return u64::MAX;
        }
        let exact = mul(base, price, true).min(u64::MAX as u128) as u64;
        match self.rng.below(8) {
            0 => exact,
            1 => exact.saturating_add(1),
            2 => exact.saturating_sub(1),
            3 => mul(base, price, false).min(u64::MAX as u128) as u64,
            4 => exact / 2,
            5 => self.rng.range(0, exact),
            6 => mul(self.cfg.min, price, true).min(u64::MAX as u128) as u64,
            _ => self.rng.edgy(),
        }
    }

    pub fn next(&mut self, step: usize, st: &State, led: &Ledger) -> Op {
        if step < self.prefill {
            return if self.profile == Profile::Huge { self.huge_op(step) } else { self.prefill_op(step) };
        }
        if self.profile == Profile::Huge && self.rng.pct(7) {
            return self.sweep_op(st);
        }
        if step == self.prefill && self.mass_big && self.rng.pct(60) {
            return Op::Consume(u64::MAX);
        }
        if self.profile == Profile::Large {
            let n = st.bids.orders.len().max(st.asks.orders.len());
            if self.sweep_next {
                self.sweep_next = false;
                return self.long_walk_op(st, led);
            }
            if n > 60 && self.rng.pct(5) {
                self.sweep_next = true;
                return Op::Consume(u64::MAX);
            }
        }
        let q_free = self.cfg.eq_cap - st.queue().len().min(self.cfg.eq_cap);
        let mut wc = self.w_consume;
        if q_free == 0 {
            wc *= 3;
        }
        let tot = self.w_new + self.w_cancel + self.w_mass + wc;
        let mut k = self.rng.below(tot);
        if k < self.w_new {
            return self.new_op(st, led);
        }
        k -= self.w_new;
        if k < self.w_cancel {
            return Op::Cancel(self.idref(st, led));
        }
        k -= self.w_cancel;
        if k < self.w_mass {
            return self.mass_op(st, led);
        }
        let n = st.queue().len() as u64;
        Op::Consume(if self.rng.pct(self.p_consume_all) {
            n
        } else {
            match self.rng.below(8) {
                0 => 0,
                1 => n.saturating_sub(1),
                2 => n + 1,
                3 => u64::MAX,
                4 => self.rng.edgy(),
                _ => self.rng.range(0, n),
            }
        })
    }

    fn prefill_op(&mut self, step: usize) -> Op {
        let uid = self.nextuid();
        let n = self.prefill as u64;
        let i = step as u64 / 2;
        let side = if step % 2 == 0 { Side::Bid } else { Side::Ask };
        let off = match self.prefill_order {
            0 => i,
            1 => n / 2 - i.min(n / 2),
            2 => {
                // bit reversed
                let b = 64 - (n / 2 + 1).leading_zeros();
                (i << (64 - b.max(1))).reverse_bits()
            }
            3 => self.rng.below(n / 2 + 1),
            _ => self.rng.below(4),
        };
        let price = match self.pm {
            PriceMode::Band { center, .. } => {
                if side == Side::Bid {
                    self.tick_price(center.saturating_sub(1 + off))
                } else {
                    self.tick_price(center.saturating_add(off))
                }
            }
            PriceMode::Chain { center } => {
                // every bit in turn, bids below 2^63, asks above
                let n = match step / 2 % 64 {
                    63 => center,
                    k => center ^ 1 << if self.prefill_order % 2 == 0 { k } else { 62 - k },
                };
                let t = self.cfg.tick;
                ((if side == Side::Bid { n } else { n | 1 << 63 }) / t).max(1) * t
            }
            _ => {
                let p = self.any_price();
                let half = 1u64 << 40;
                // keep sides apart so that the book really fills up
                let t = self.cfg.tick;
                if side == Side::Bid {
                    ((p % half) / t).max(1) * t
                } else {
                    ((p | half) / t).max(1) * t
                }
            }
        };
        let min = self.cfg.min;
        let base = self.rng.range(min, min.saturating_mul(4));
        Op::New(NewOp {
            uid,
            side,
            price,
            base,
            quote: u64::MAX,
            limit: 1000,
            owner: self.owner(),
            nonce: uid,
            post_only: true,
            post_allowed: true,
            stb: Stb::Dec,
        })
    }

    /// Steps that are executed without monitoring.
    pub fn quiet(&self) -> usize {
        if self.profile == Profile::Huge {
            self.prefill
        } else {
            0
        }
    }
    fn huge_op(&mut self, step: usize) -> Op {
        let uid = self.nextuid();
        let big = if self.cfg.cap_b > self.cfg.cap_a { Side::Bid } else { Side::Ask };
        let small_n = (self.cfg.cap_b.min(self.cfg.cap_a) / 2) as u64;
        let (side, i) = if (step as u64) < small_n { (big.opp(), step as u64) } else { (big, step as u64 - small_n) };
        let center = if let PriceMode::Band { center, .. } = self.pm { center } else { 1000 };
        let spread = center > 200_000;
        let off = match self.prefill_order {
            0 => i,
            1 => 140_000 - i,
            2 => ((i << 47).reverse_bits()) % 140_000,
            3 => self.rng.below(140_000),
            _ => self.rng.below(4),
        } % if spread { 140_001 } else { 8 };
        let price = if side == Side::Bid { self.tick_price(center.saturating_sub(1 + off)) } else { self.tick_price(center + off) };
        let min = self.cfg.min;
        let base = self.rng.range(min, min * 4).max((1u64 << 32) / self.cfg.tick + 1);
        Op::New(NewOp { uid, side, price, base, quote: u64::MAX, limit: 1000, owner: self.owner(), nonce: uid, post_only: true, post_allowed: true, stb: Stb::Dec })
    }
    /// An order that runs through a great part of the larger side.
    fn sweep_op(&mut self, st: &State) -> Op {
        let uid = self.nextuid();
        let side = if st.bids.orders.len() > st.asks.orders.len() { Side::Ask } else { Side::Bid };
        let limit = match self.rng.below(4) {
            0 => u64::MAX,
            1 => 65_535 + self.rng.below(4),
            2 => self.rng.range(1, 70_000),
            _ => (1 << 32) + self.rng.below(3),
        };
        let price = if side == Side::Bid { self.tick_price(u64::MAX) } else { self.cfg.tick };
        Op::New(NewOp {
            uid,
            side,
            price,
            base: u64::MAX,
            quote: u64::MAX,
            limit,
            owner: self.owner(),
            nonce: uid,
            post_only: false,
            post_allowed: self.rng.pct(50),
            stb: self.stb(),
        })
    }

    /// An order that meets many makers and stops somewhere on the way.
    fn long_walk_op(&mut self, st: &State, led: &Ledger) -> Op {
        let uid = self.nextuid();
        let side = if st.bids.orders.len() > st.asks.orders.len() { Side::Ask } else { Side::Bid };
        let mut o = NewOp { uid, side, price: 0, base: 0, quote: u64::MAX, limit: 1000, owner: self.owner(), nonce: uid, post_only: false, post_allowed: self.rng.pct(60), stb: if self.rng.pct(60) { Stb::Dec } else { self.stb() } };
        let opp = led.ranked(side.opp(), &st.side(side.opp()).orders);
        let n = opp.len();
        if n == 0 {
            o.price = self.any_price();
            o.base = self.qty();
            return Op::New(o);
        }
        let room = self.cfg.eq_cap / 2;
        let k = (1 + if self.rng.pct(50) { self.rng.usize(n) } else { n - 1 }).min(if self.rng.pct(80) { room } else { n });
        let k = k.max(1);
        let (mut base, mut quote) = (0u64, 0u128);
        for m in &opp[..k] {
            base = base.saturating_add(m.qty);
            quote += mul(m.qty, m.price, side == Side::Bid);
        }
        o.price = if self.rng.pct(50) { opp[k - 1].price } else { opp[n - 1].price };
        let exact = quote.min(u64::MAX as u128) as u64;
        match self.rng.below(6) {
            0 => o.base = u64::MAX,
            1 => o.base = base.saturating_add(self.qty_hi),
            2 => o.base = base.saturating_sub(self.rng.range(0, opp[k - 1].qty)),
            3 => {
                o.base = u64::MAX;
                o.quote = exact.saturating_sub(self.rng.below(3));
            }
            4 => {
                o.base = u64::MAX;
                o.limit = k as u64;
            }
            _ => o.base = base,
        }
        if self.rng.pct(30) {
            o.limit = (k as u64).saturating_sub(self.rng.below(3));
        }
        Op::New(o)
    }

    fn idref(&mut self, st: &State, led: &Ledger) -> IdRef {
        let nb = st.bids.orders.len();
        let n = nb + st.asks.orders.len();
        let r = self.rng.below(100);
        if n > 0 && r < 70 {
            let k = self.rng.usize(n);
            let id = if k < nb { st.bids.orders[k].id } else { st.asks.orders[k - nb].id };
            return self.as_ref(id, led, 0);
        }
        if n > 0 && r < 85 {
            let k = self.rng.usize(n);
            let id = if k < nb { st.bids.orders[k].id } else { st.asks.orders[k - nb].id };
            let x = match self.rng.below(5) {
                0 => 1,
                1 => 1u128 << 63,
                2 => 1u128 << 64,
                3 => {
                    let b = self.rng.below(128);
                    1u128 << b
                }
                _ => (self.cfg.tick as u128) << 64,
            };
            return self.as_ref(id, led, x);
        }
        if !led.gone.is_empty() && r < 96 {
            let k = self.rng.usize(led.gone.len());
            return self.as_ref(led.gone[k], led, 0);
        }
        match self.rng.below(4) {
            0 => IdRef::Raw(0),
            1 => IdRef::Raw(u128::MAX),
            2 => {
                let u = self.uid + 1 + self.rng.below(5) as u32;
                IdRef::Uid(u, 0)
            }
            _ => {
                let p = self.any_price() as u128;
                IdRef::Raw(p << 64 | self.rng.edgy() as u128)
            }
        }
    }
    fn as_ref(&self, id: u128, led: &Ledger, x: u128) -> IdRef {
        // nonce of harness-posted orders is their uid; fall back to the raw id
        match led.uid_of(id) {
            Some(u) => IdRef::Uid(u, x),
            None => IdRef::Raw(id ^ x),
        }
    }

    fn mass_op(&mut self, st: &State, led: &Ledger) -> Op {
        let mut ids: Vec<u128> = st.bids.orders.iter().chain(&st.asks.orders).map(|o| o.id).collect();
        self.rng.shuffle(&mut ids);
        let n = ids.len();
        let k = match self.rng.below(6) {
            0 => 0,
            1 => n,
            2 => 1,
            3 if self.mass_big => n,
            _ => self.rng.range(0, n as u64) as usize,
        };
        ids.truncate(k.min(n));
        let mut v: Vec<IdRef> = ids.iter().map(|id| self.as_ref(*id, led, 0)).collect();
        if self.rng.pct(25) {
            let bad = if !v.is_empty() && self.rng.pct(50) {
                v[self.rng.usize(v.len())].clone()
            } else {
                self.idref(st, led)
            };
            let at = self.rng.usize(v.len() + 1);
            v.insert(at, bad);
        }
        if self.rng.pct(10) {
            v.reverse();
        }
        Op::Mass(v)
    }

    fn new_op(&mut self, st: &State, led: &Ledger) -> Op {
        let uid = self.nextuid();
        let nb = st.bids.orders.len();
        let na = st.asks.orders.len();
        let mut side = if self.rng.pct(50) { Side::Bid } else { Side::Ask };
        let aggr = self.rng.pct(self.p_aggr);
        if aggr && ((side == Side::Bid && na == 0) || (side == Side::Ask && nb == 0)) {
            side = side.opp();
        }
        let opp_n = if side == Side::Bid { na } else { nb };
        let mut o = NewOp {
            uid,
            side,
            price: 0,
            base: 0,
            quote: u64::MAX,
            limit: self.match_limit(),
            owner: self.owner(),
            nonce: uid,
            post_only: self.rng.pct(8),
            post_allowed: self.rng.pct(75),
            stb: self.stb(),
        };
        if aggr && opp_n > 0 {
            self.aggressive(&mut o, st, led);
        } else {
            self.passive(&mut o, st, led);
        }
        // perturbations
        match self.rng.below(60) {
            0 => o.price = o.price.saturating_add(1),
            1 => o.price = o.price.wrapping_sub(1),
            2 => o.price = 0,
            3 => o.price = self.cfg.tick / 2,
            4 => o.price = self.rng.edgy(),
            5 => o.price = o.price.saturating_add(self.cfg.tick),
            6 => o.price = o.price.saturating_sub(self.cfg.tick),
            7 => o.base = self.rng.edgy(),
            8 => o.quote = self.rng.edgy(),
            9 => o.price = self.tick_price(u64::MAX),
            10 => o.price = self.tick_price(1),
            _ => {}
        }
        Op::New(o)
    }

    fn passive(&mut self, o: &mut NewOp, st: &State, led: &Ledger) {
        let own = led.ranked(o.side, &st.side(o.side).orders);
        let opp_best = {
            let v = &st.side(o.side.opp()).orders;
            match o.side {
                Side::Bid => v.iter().map(|x| x.price()).min(),
                Side::Ask => v.iter().map(|x| x.price()).max(),
            }
        };
        let t = self.cfg.tick;
        let mut price = self.any_price();
        if !own.is_empty() && self.rng.pct(55) {
            let i = if self.rng.pct(35) { own.len() - 1 } else { self.rng.usize(own.len()) };
            let b = own[i].price;
            price = match self.rng.below(6) {
                0 => b.saturating_add(t),
                1 => b.saturating_sub(t).max(t),
                _ => b,
            };
        }
        if let Some(best) = opp_best {
            let crossing = crosses(o.side, price, best);
            if crossing && self.rng.pct(75) {
                let d = 1 + self.rng.below(3);
                price = match o.side {
                    Side::Bid => best.saturating_sub(t.saturating_mul(d)).max(t),
                    Side::Ask => best.saturating_add(t.saturating_mul(d)),
                };
            }
        }
        o.price = (price / t) * t;
        o.base = self.qty();
        o.quote = self.quote_for(o.base, o.price);
        o.post_allowed = self.rng.pct(93);
        if self.rng.pct(70) {
            o.limit = 1000;
        }
        if self.profile == Profile::Full || self.profile == Profile::Churn {
            o.quote = u64::MAX;
        }
    }

    fn aggressive(&mut self, o: &mut NewOp, st: &State, led: &Ledger) {
        let opp = led.ranked(o.side.opp(), &st.side(o.side.opp()).orders);
        let min = self.cfg.min;
        let t = self.cfg.tick;
        let deep = match self.rng.below(20) {
            0 if self.profile == Profile::Large && self.rng.pct(20) => 500,
            0 | 1 => 40,
            _ => 7,
        };
        let k = 1 + self.rng.usize(opp.len().min(deep));
        let lim = opp[k - 1].price;
        o.price = match self.rng.below(10) {
            0 => match o.side {
                Side::Bid => lim.saturating_add(t),
                Side::Ask => lim.saturating_sub(t).max(t),
            },
            1 => match o.side {
                Side::Bid => lim.saturating_sub(t).max(t),
                Side::Ask => lim.saturating_add(t),
            },
            2 => match o.side {
                Side::Bid => self.tick_price(u64::MAX),
                Side::Ask => {
                    if self.rng.pct(50) {
                        t
                    } else {
                        0
                    }
                }
            },
            _ => lim,
        };
        o.price = (o.price / t) * t;
        if o.price == 0 {
            o.post_allowed = self.rng.pct(20);
        }
        let j = self.rng.usize(k + 1); // makers fully consumed
        let mut base = 0u64;
        let mut quote = 0u128;
        let up = o.side == Side::Bid;
        for m in &opp[..j] {
            base = base.saturating_add(m.qty);
            quote += mul(m.qty, m.price, up);
        }
        match self.rng.below(8) {
            0 => {}
            1 => base = base.saturating_add(1),
            2 => base = base.saturating_sub(1),
            3 | 4 => {
                // partial against the next maker, aiming at what is left of it
                if let Some(m) = opp.get(j) {
                    let left = match self.rng.below(5) {
                        0 => min,
                        1 => min.saturating_sub(1),
                        2 => min.saturating_add(1),
                        3 => 1,
                        _ => self.rng.range(0, m.qty),
                    };
                    let part = m.qty.saturating_sub(left);
                    base = base.saturating_add(part);
                    quote += mul(part, m.price, up);
                }
            }
            5 => {
                // enough to post a remainder
                let q = self.qty();
                base = base.saturating_add(q);
                quote += mul(q, o.price, up);
            }
            6 => base = self.qty(),
            _ => {
                let m = min.saturating_sub(self.rng.below(2));
                base = base.saturating_add(m);
                quote += mul(m, o.price, up);
            }
        }
        o.base = base;
        let exact = quote.min(u64::MAX as u128) as u64;
        o.quote = match self.rng.below(12) {
            0 => exact,
            1 => exact.saturating_add(1),
            2 => exact.saturating_sub(1),
            3 => self.rng.range(0, exact),
            4 => {
                // the quote budget binds instead of the base budget
                o.base = if self.rng.pct(50) { u64::MAX } else { base.saturating_mul(2) };
                exact
            }
            5 => {
                let h = exact / 2;
                o.base = base.saturating_add(self.qty_hi);
                h + self.rng.range(0, h)
            }
            _ => u64::MAX,
        };
        o.limit = match self.rng.below(10) {
            0 => j as u64,
            1 => (j as u64).saturating_sub(1),
            2 => j as u64 + 1,
            3 => self.match_limit(),
            4 if self.rng.pct(25) => (1u64 << self.rng.range(3, 63)).saturating_add(self.rng.below(k as u64 + 1)),
            4 => k as u64,
            _ => 1000,
        };
        if self.rng.pct(35) {
            // collide with the owner of one of the makers to be met
            let i = self.rng.usize(k);
            if let Some(own) = led.owner_of(opp[i].id) {
                o.owner = own;
                if self.rng.pct(10) {
                    o.owner ^= 1;
                }
            }
        }
    }
}
