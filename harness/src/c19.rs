//! C19: closing a market at every point of a history.
use crate::acct::*;
use crate::cb::Kind;
use crate::engine::*;
use crate::gen::*;
use crate::monitor::Sink;
use crate::rng::{mix, Rng};
use crate::work::Ctx;

pub fn case(ctx: &mut Ctx, sink: &mut Sink) {
    let mut r = Rng::new(mix(mix(ctx.seed, 0x19), ctx.k));
    // one case in fifty counts down through the multiples of 2^8, a few per worker through 2^16 too
    let k = ctx.k / 8;
    if k % 4000 == 500 || k % 50 == 7 {
        let n = if k % 4000 == 500 { (1 << 16) + 2 } else { *r.pick(&[258usize, 514, 600]) };
        if let Some(m) = countdown(&mut r, n, sink) {
            sink.hit(19, m);
        }
        return;
    }
    let prof = *r.pick(&[Profile::Tight, Profile::Full, Profile::SelfTrade, Profile::QueueTight, Profile::Churn, Profile::Extreme]);
    let Some(mut e) = Evolved::new(prof, r.next()) else { return };
    for a in [&mut e.w.market, &mut e.w.eq, &mut e.w.bids, &mut e.w.asks] {
        a.lamports += match r.below(4) {
            0 => 0,
            1 => r.below(1000),
            2 => r.below(1 << 58),
            _ => 1,
        };
    }
    e.w.target.lamports = match r.below(3) {
        0 => 0,
        1 => r.below(1 << 60),
        _ => 1,
    };
    let mut log: Vec<String> = vec![];
    let n = r.range(5, 60);
    for i in 0..=n {
        try_close(&mut e, &mut r, sink, &mut log);
        if !sink.hits.is_empty() {
            return;
        }
        if i < n && !e.advance() {
            return;
        }
        // now and then empty one part of the market only
        match r.below(14) {
            0 => {
                e.apply(&Act::Consume(u64::MAX), None);
            }
            1 => {
                let ids: Vec<u128> = e.st.bids.orders.iter().map(|o| o.id).collect();
                for id in ids {
                    e.apply(&Act::Cancel(id), None);
                }
            }
            2 => {
                let ids: Vec<u128> = e.st.asks.orders.iter().map(|o| o.id).collect();
                e.apply(&Act::Mass(ids), None);
            }
            3 => {
                // all but one order, or all but one event
                let ids: Vec<u128> = e.st.bids.orders.iter().chain(&e.st.asks.orders).map(|o| o.id).skip(1).collect();
                for id in ids {
                    e.apply(&Act::Cancel(id), None);
                }
                let q = e.st.queue().len() as u64;
                e.apply(&Act::Consume(if r.pct(50) { q } else { q.saturating_sub(1) }), None);
            }
            4 => {
                if !e.drain() {
                    return;
                }
            }
            5 => {
                let ids: Vec<u128> = e.st.bids.orders.iter().chain(&e.st.asks.orders).map(|o| o.id).collect();
                for id in ids {
                    e.apply(&Act::Cancel(id), None);
                }
            }
            _ => {}
        }
    }
    if !e.drain() {
        return;
    }
    try_close(&mut e, &mut r, sink, &mut log);
    if ctx.want_sample {
        log.truncate(10);
        ctx.sample = Some(format!("market {} : {}", e.g.cfg.to_text(), log.join(" | ")));
    }
}

fn try_close(e: &mut Evolved, r: &mut Rng, sink: &mut Sink, log: &mut Vec<String>) {
    let mut w = e.w.clone();
    let before = Backup::take(&w).lamports();
    let orders = e.st.bids.orders.len() + e.st.asks.orders.len();
    let events = e.st.queue().len();
    let drained = orders == 0 && events == 0;
    let o = w.raw_exec(&Act::Close);
    let sig = mix(mix(state_sig(&e.st), before.iter().fold(0, |a, b| mix(a, *b))), drained as u64);
    sink.eval(19, Some(sig));
    sink.count(match (orders > 0, events > 0) {
        (true, true) => "close_with_orders_and_events",
        (true, false) => {
            if e.st.bids.orders.is_empty() {
                "close_with_asks_only"
            } else if e.st.asks.orders.is_empty() {
                "close_with_bids_only"
            } else {
                "close_with_both_sides"
            }
        }
        (false, true) => "close_with_events_only",
        (false, false) => "close_drained",
    });
    log.push(format!("close with {} orders, {} events -> {}", orders, events, o.short()));
    match (&o, drained) {
        (Outcome::Ok(_), false) => {
            sink.hit(19, format!("market closed with {} bids, {} asks and {} events", e.st.bids.orders.len(), e.st.asks.orders.len(), events));
            return;
        }
        (Outcome::Ok(_), true) => {}
        (o, true) => {
            sink.hit(19, format!("closing a drained market failed: {}", o.short()));
            return;
        }
        _ => return,
    }
    let after = Backup::take(&w).lamports();
    let sum: u128 = before.iter().map(|x| *x as u128).sum();
    if after[..4] != [0, 0, 0, 0] || after[4] as u128 != sum {
        sink.hit(19, format!("lamports {:?} became {:?} (expected all {} in the target)", before, after, sum));
        return;
    }
    if w.register.lamports != e.w.register.lamports {
        sink.hit(19, "closing touched the register account's balance");
    }
    // every later instruction fails, whether or not the accounts are funded again
    let mut acts: Vec<Act> = vec![Act::Consume(0), Act::Consume(u64::MAX), Act::Mass(vec![]), Act::Close, Act::Cancel(r.next() as u128), Act::Cancel(1 << 63)];
    if let Some(id) = e.led.gone.last() {
        acts.push(Act::Cancel(*id));
        acts.push(Act::Mass(vec![*id]));
    }
    for _ in 0..6 {
        let op = e.g.next(usize::MAX, &e.st, &e.led);
        acts.push(op.resolve(e.g.cfg.kind, &e.led));
    }
    // a plain order that any open market accepts
    acts.push(Act::New(NewP {
        side: if r.pct(50) { Side::Bid } else { Side::Ask },
        price: e.g.cfg.tick,
        base: e.g.cfg.min,
        quote: u64::MAX,
        limit: 10,
        cb: e.g.cfg.kind.make(1, 1),
        post_only: false,
        post_allowed: true,
        stb: Stb::Dec,
    }));
    for fund in [false, true] {
        let mut c = w.clone();
        if fund {
            for a in [&mut c.market, &mut c.eq, &mut c.bids, &mut c.asks] {
                a.lamports = rent(a.data.s().len());
            }
        }
        for act in &acts {
            let mut d = c.clone();
            let o = d.raw_exec(act);
            sink.count("instructions_after_close");
            if o.ok() {
                sink.hit(19, format!("{:?} succeeded on a closed market", act));
                return;
            }
        }
        for mask in [15u8, 1, 2, 4, 8, 3, 12, 14] {
            let mut d = c.clone();
            let f = {
                let mut g = e.g.cfg.clone();
                g.wid += 1 << 40;
                g.world()
            };
            if mask & 1 == 0 {
                d.market = f.market;
            }
            if mask & 2 == 0 {
                d.eq = f.eq;
            }
            if mask & 4 == 0 {
                d.bids = f.bids;
            }
            if mask & 8 == 0 {
                d.asks = f.asks;
            }
            sink.count("creations_after_close");
            if d.create(e.g.cfg.min, e.g.cfg.tick).ok() {
                sink.hit(19, format!("creation succeeded on accounts of a closed market (mask {:04b})", mask));
                return;
            }
        }
    }
}

/// Closing must fail for every number of resting orders (bids, then asks) and of queued events down from n.
fn countdown(r: &mut Rng, n: usize, sink: &mut Sink) -> Option<String> {
    let kind = if r.pct(50) { Kind::E32 } else { Kind::Mid16 };
    let mut w = World::new(kind, kind == Kind::E32, r.next() >> 8, queue_size(kind, 2 * n + 8), slab_size(kind, n + 8), slab_size(kind, n + 8), 0);
    if !w.create(1, 1).ok() {
        return None;
    }
    let order = |w: &mut World, side, price, base, limit, cb| {
        w.raw_exec(&Act::New(NewP { side, price, base, quote: u64::MAX, limit, cb, post_only: false, post_allowed: price != u64::MAX, stb: Stb::Dec }))
    };
    for (side, phase) in [(Side::Bid, 0), (Side::Ask, 0), (Side::Ask, 1)] {
        let mut ids = vec![];
        for i in 0..n as u64 {
            match order(&mut w, side, 1 + r.below(1 << 34), 1, 10, kind.make(1, i as u32)) {
                Outcome::Ok(Some(Summary { id: Some(id), .. })) => ids.push(id),
                _ => return None, // other properties' business
            }
        }
        // wanted: which counts to try at
        let wanted = |left: usize| n < 1000 || left < 3 || left == 256 || left % 4096 < 2 || left == n;
        if phase == 0 {
            while let Some(id) = ids.pop() {
                if wanted(ids.len() + 1) {
                    if let Some(m) = attempt(&mut w, false, sink) {
                        return Some(format!("{} with {} orders left on the {:?} side", m, ids.len() + 1, side));
                    }
                }
                if !w.raw_exec(&Act::Cancel(id)).ok() {
                    return None;
                }
            }
        } else {
            if !order(&mut w, Side::Bid, u64::MAX, n as u64, u64::MAX, kind.make(2, 0)).ok() {
                return None;
            }
            let events = crate::layout::State::read(&w).queue().len();
            for left in (1..=events).rev() {
                if wanted(left) {
                    if let Some(m) = attempt(&mut w, false, sink) {
                        return Some(format!("{} with {} events queued", m, left));
                    }
                }
                if !w.raw_exec(&Act::Consume(1)).ok() {
                    return None;
                }
            }
            sink.count("countdowns");
            if n > 1 << 16 {
                sink.count("countdowns_through_16_bits");
            }
        }
    }
    attempt(&mut w, true, sink)
}

fn attempt(w: &mut World, drained: bool, sink: &mut Sink) -> Option<String> {
    sink.eval(19, None);
    sink.count("countdown_closes");
    let b = Backup::take(w);
    let o = w.raw_exec(&Act::Close);
    if !o.ok() {
        b.restore(w);
    }
    match (o.ok(), drained) {
        (true, false) => Some("market closed".into()),
        (false, true) => Some(format!("closing a drained market failed: {}", o.short())),
        _ => None,
    }
}
