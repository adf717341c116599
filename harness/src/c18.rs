//! C18: market creation over parameters, sizes, owners, balances and prior contents.
use crate::acct::*;
use crate::cb::{Kind, KINDS};
use crate::engine::*;
use crate::gen::*;
use crate::layout::*;
use crate::monitor::Sink;
use crate::rng::{mix, Rng};
use crate::work::Ctx;
use solana_program::account_info::AccountInfo;

#[derive(Clone)]
struct Plan {
    kind: Kind,
    entry: bool,
    len: [usize; 4],
    lam_off: [i64; 4],
    foreign: [bool; 4],
    tag: [u8; 4],
    min: u64,
    tick: u64,
    alias: Option<(usize, usize)>,
    why_not: Vec<String>,
}

fn create(w: &mut World, p: &Plan) -> Outcome {
    let pid = w.program_id;
    let data = if p.entry {
        use asset_agnostic_orderbook::instruction as ix;
        ix::create_market(
            ix::create_market::Accounts { market: &w.market.key, event_queue: &w.eq.key, bids: &w.bids.key, asks: &w.asks.key },
            w.register.key,
            ix::create_market::Params { min_base_order_size: p.min, tick_size: p.tick },
        )
        .data
    } else {
        vec![]
    };
    let mut infos: Vec<AccountInfo> = vec![w.market.info(), w.eq.info(), w.bids.info(), w.asks.info()];
    if let Some((to, from)) = p.alias {
        infos[to] = infos[from].clone();
    }
    if p.entry {
        infos.push(w.register.info());
        match guarded(|| asset_agnostic_orderbook::entrypoint::process_instruction(&pid, &infos, &data)) {
            Err(m) => Outcome::Panic(m),
            Ok(Err(e)) => Outcome::Err(e),
            Ok(Ok(())) => Outcome::Ok(None),
        }
    } else {
        lib_create(p.kind, &pid, &infos, p.min, p.tick)
    }
}

const ROLE: [&str; 4] = ["market", "event queue", "bids", "asks"];

/// The sizes on which a side account can be operated: the node arrays must be followed by whole callback infos (or, when
/// these have no size, anything).
fn slab_ok(kind: Kind, len: usize) -> bool {
    let c = kind.size();
    let lead = 40 + 24 + c;
    len >= lead && (c == 0 || (len - lead) % (56 + c) % c == 0)
}

pub fn case(ctx: &mut Ctx, sink: &mut Sink) {
    let mut r = Rng::new(mix(mix(ctx.seed, 0x18), ctx.k));
    if ctx.k % 5 == 4 {
        return recreate(ctx, sink, &mut r);
    }
    let kind = if r.pct(40) { Kind::E32 } else { *r.pick(&KINDS) };
    let entry = kind == Kind::E32 && r.pct(70);
    let c = kind.size();
    let (nb, na, nq) = (r.range(1, 30) as usize, r.range(1, 30) as usize, r.range(5, 40) as usize);
    let mut p = Plan {
        kind,
        entry,
        len: [MARKET_LEN, queue_size(kind, nq), slab_size(kind, nb), slab_size(kind, na)],
        lam_off: [0; 4],
        foreign: [false; 4],
        tag: [0; 4],
        min: if r.pct(50) { r.range(1, 100) } else { r.edgy().max(1) },
        tick: if r.pct(50) { r.range(1, 100) } else { r.edgy().max(1) },
        alias: None,
        why_not: vec![],
    };
    // usable but not exact side sizes: further whole callback infos
    for i in 2..4 {
        if r.pct(25) {
            let more = (55 + c) / c.max(1);
            p.len[i] += c.max(1) * r.range(0, more as u64) as usize;
        }
    }
    for i in 0..4 {
        p.lam_off[i] = match r.below(4) {
            0 => 0,
            1 => 1,
            2 => r.range(0, 1 << 40) as i64,
            _ => 0,
        };
    }
    // defects
    let defects = match r.below(10) {
        0..=2 => 0,
        3..=7 => 1,
        8 => 2,
        _ => 3,
    };
    let mut class = 0u64;
    for _ in 0..defects {
        let d = r.below(9);
        class = class * 64 + d + 1;
        match d {
            0 => p.min = 0,
            1 => p.tick = 0,
            2 => {
                let i = r.usize(4);
                class = class * 4 + i as u64;
                let rent = rent(p.len[i]) as i64;
                p.lam_off[i] = -[1, rent, rent / 2, rent - 1][r.usize(4)];
            }
            3 => {
                let i = 1 + r.usize(3);
                class = class * 4 + i as u64;
                p.foreign[i] = true;
            }
            4 | 5 => {
                let i = r.usize(4);
                class = class * 4 + i as u64;
                p.tag[i] = match r.below(8) {
                    0 => 128,
                    1 => 129,
                    2 => 130,
                    3 => 131,
                    4 => 132,
                    5 => 1 << r.below(8),
                    6 => [128, 129, 130, 131][i],
                    _ => (r.next() as u8).max(1),
                };
            }
            6 => {
                // wrong size of the market or queue account
                let i = r.usize(2);
                class = class * 4 + i as u64;
                if i == 0 {
                    p.len[0] = match r.below(6) {
                        0 => MARKET_LEN - 8,
                        1 => MARKET_LEN + 8,
                        2 => MARKET_LEN + 1,
                        3 => MARKET_LEN - 1,
                        4 => MARKET_LEN * 2,
                        _ => 8 * r.below(40) as usize,
                    };
                } else {
                    let ev = 40 + 2 * c;
                    p.len[1] = match r.below(6) {
                        0 => queue_size(kind, r.below(5) as usize),
                        1 => p.len[1] + 1 + r.usize(ev - 1),
                        2 => p.len[1].saturating_sub(1),
                        3 => p.len[1] + 40,
                        4 => r.usize(40),
                        _ => p.len[1].saturating_sub(32),
                    };
                }
            }
            7 => {
                let i = 2 + r.usize(2);
                class = class * 4 + i as u64;
                p.len[i] = match r.below(6) {
                    0 => r.usize(40 + 24 + c),
                    1 => p.len[i] + 1 + r.usize(55 + c),
                    2 => p.len[i].saturating_sub(1),
                    3 => p.len[i] + 8,
                    4 => 40 + 24 + c - 1,
                    _ => r.usize(400),
                };
            }
            _ => {
                let a = r.usize(4);
                let b = (a + 1 + r.usize(3)) % 4;
                class = class * 16 + (a * 4 + b) as u64;
                p.alias = Some((a, b));
            }
        }
    }
    // the verdict expected of the program
    if p.min == 0 {
        p.why_not.push("minimum order size 0".into());
    }
    if p.tick == 0 {
        p.why_not.push("tick size 0".into());
    }
    if let Some((a, b)) = p.alias {
        p.why_not.push(format!("{} and {} are one account", ROLE[a], ROLE[b]));
    }
    for i in 0..4 {
        if p.alias.map(|x| x.0) == Some(i) {
            continue;
        }
        if p.lam_off[i] < 0 {
            p.why_not.push(format!("{} {} lamports below rent exemption", ROLE[i], -p.lam_off[i]));
        }
        if p.foreign[i] {
            p.why_not.push(format!("{} owned by another program", ROLE[i]));
        }
        if p.tag[i] != 0 {
            p.why_not.push(format!("{} tagged {}", ROLE[i], p.tag[i]));
        }
        let okl = match i {
            0 => p.len[0] == MARKET_LEN,
            1 => p.len[1] >= queue_size(kind, 5) && (p.len[1] - 32) % (40 + 2 * c) == 0,
            _ => slab_ok(kind, p.len[i]),
        };
        if !okl {
            p.why_not.push(format!("{} of {} bytes", ROLE[i], p.len[i]));
        }
    }
    let wid = r.next() >> 8;
    let mut w = World::new(kind, entry, wid, p.len[1], p.len[2], p.len[3], r.below(16) as u8);
    if p.len[0] != MARKET_LEN {
        w.market = Acct::new(w.market.key, w.program_id, rent(p.len[0]), p.len[0], 0);
    }
    for (i, a) in [&mut w.market, &mut w.eq, &mut w.bids, &mut w.asks].into_iter().enumerate() {
        a.lamports = (a.lamports as i64 + p.lam_off[i]).max(0) as u64;
        if p.foreign[i] {
            let mut k = w.program_id.to_bytes();
            k[r.usize(32)] ^= 1 << r.below(8);
            a.owner = solana_program::pubkey::Pubkey::new_from_array(k);
        }
        if p.tag[i] != 0 && !a.data.s().is_empty() {
            a.data.m()[0] = p.tag[i];
        } else if p.tag[i] != 0 {
            continue;
        }
    }
    let before = Backup::take(&w);
    let out = create(&mut w, &p);
    let ok = p.why_not.is_empty();
    sink.eval(18, Some(mix(mix(class, kind.size() as u64 * 2 + entry as u64), fnv(format!("{:?}", (&p.len, p.min.min(200), p.tick.min(200), &p.tag)).as_bytes(), 1))));
    sink.count(if ok { "valid_creations" } else { "invalid_creations" });
    ctx.digest = out.ok() as u64;
    if ctx.want_sample {
        ctx.sample = Some(format!("create kind {:?} entry {} sizes {:?} min {} tick {} defects {:?} -> {}", kind, entry, p.len, p.min, p.tick, p.why_not, out.short()));
    }
    match (&out, ok) {
        (Outcome::Ok(_), false) => {
            sink.hit(18, format!("creation succeeded although: {}", p.why_not.join(", ")));
            return;
        }
        (Outcome::Ok(_), true) => {}
        (o, true) => {
            sink.hit(18, format!("valid creation failed: {} (kind {:?}, sizes {:?}, min {}, tick {})", o.short(), kind, p.len, p.min, p.tick));
            return;
        }
        _ => return,
    }
    // recorded exactly
    let m = w.market.data.s();
    let mut want = vec![0u8; MARKET_LEN];
    want[..8].copy_from_slice(&128u64.to_le_bytes());
    want[8..40].copy_from_slice(w.eq.key.as_ref());
    want[40..72].copy_from_slice(w.bids.key.as_ref());
    want[72..104].copy_from_slice(w.asks.key.as_ref());
    want[104..112].copy_from_slice(&p.min.to_le_bytes());
    want[112..120].copy_from_slice(&p.tick.to_le_bytes());
    // the published layout: tag, queue, bids, asks, minimum size, tick size
    if m[..120] != want[..120] {
        sink.hit(18, "the market account does not record the accounts and parameters given");
    }
    for (i, (a, t)) in [(&w.eq, 129u8), (&w.bids, 130), (&w.asks, 131)].into_iter().enumerate() {
        let d = a.data.s();
        if d[0] != t || d[1..].iter().any(|b| *b != 0) {
            sink.hit(18, format!("{} account is not freshly initialised", ROLE[i + 1]));
        }
    }
    let after = Backup::take(&w);
    if after.lamports() != before.lamports() {
        sink.hit(18, "creation moved lamports");
    }
    // capacities
    let caps = (slab_capacity(kind, p.len[2]), slab_capacity(kind, p.len[3]), queue_capacity(kind, p.len[1]));
    let st = State::read(&w);
    if !st.readable() || !st.bids.orders.is_empty() || !st.asks.orders.is_empty() || !st.queue().is_empty() {
        sink.hit(18, "a new market is not empty");
        return;
    }
    if let Err(m) = crate::c21::capacity_probe(&mut w, p.min, p.tick, caps.0, caps.1, caps.2, &mut r) {
        sink.hit(18, format!("capacity of the created market: {} (kind {:?}, sizes {:?})", m, kind, p.len));
    }
    sink.count("created_and_filled");
}

/// No account of an existing or closed market can be initialised again.
fn recreate(ctx: &mut Ctx, sink: &mut Sink, r: &mut Rng) {
    let Some(mut e) = Evolved::new(*r.pick(&[Profile::Tight, Profile::Full]), r.next()) else { return };
    for _ in 0..r.range(0, 20) {
        if !e.advance() {
            return;
        }
    }
    let closed = r.pct(50);
    if closed {
        if !e.drain() {
            return;
        }
        if !e.w.raw_exec(&Act::Close).ok() {
            return;
        }
        for a in [&mut e.w.market, &mut e.w.eq, &mut e.w.bids, &mut e.w.asks] {
            a.lamports = rent(a.data.s().len());
        }
    }
    let kind = e.g.cfg.kind;
    for mask in 1..16u64 {
        let mut w = e.w.clone();
        let fresh = {
            let mut c = e.g.cfg.clone();
            c.wid += 1 << 40;
            c.world()
        };
        let World { market, eq, bids, asks, .. } = fresh;
        for (i, f) in [market, eq, bids, asks].into_iter().enumerate() {
            if mask >> i & 1 == 0 {
                match i {
                    0 => w.market = f,
                    1 => w.eq = f,
                    2 => w.bids = f,
                    _ => w.asks = f,
                }
            }
        }
        let p = Plan { kind, entry: e.g.cfg.entry, len: [0; 4], lam_off: [0; 4], foreign: [false; 4], tag: [0; 4], min: e.g.cfg.min, tick: e.g.cfg.tick, alias: None, why_not: vec![] };
        let o = create(&mut w, &p);
        sink.eval(18, Some(mix(mix(state_sig(&e.st), mask), closed as u64)));
        sink.count(if closed { "recreations_of_closed" } else { "recreations_of_open" });
        if o.ok() {
            sink.hit(18, format!("creation succeeded on accounts (mask {:04b}: market, queue, bids, asks) of {} market", mask, if closed { "a closed" } else { "an open" }));
        }
    }
    if ctx.want_sample {
        ctx.sample = Some(format!("recreation over {} market of kind {:?}, all 15 subsets of its accounts", if closed { "a closed" } else { "an open" }, kind));
    }
}

impl Backup {
    pub fn lamports(&self) -> [u64; 5] {
        self.l
    }
}
