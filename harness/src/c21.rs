//! C21: published allocation sizes and the capacities they give.
use crate::acct::*;
use crate::cb::KINDS;
use crate::layout::*;
use crate::monitor::Sink;
use crate::rng::{mix, Rng};
use crate::work::Ctx;

pub fn sizes_of(kind: crate::cb::Kind, n: usize, q: usize) -> (usize, usize) {
    with_cb!(kind, C, {
        (
            asset_agnostic_orderbook::state::critbit::Slab::<C>::compute_allocation_size(n),
            asset_agnostic_orderbook::state::event_queue::EventQueue::<C>::compute_allocation_size(q),
        )
    })
}

/// Published sizes for callback infos of any size, against the layout.
fn size_sweep(n: usize, sink: &mut Sink) -> Result<(), String> {
    use asset_agnostic_orderbook::state::{critbit::Slab, event_queue::EventQueue};
    macro_rules! sizes {
        ($($l:literal)*) => {
            $(
                let (s, q) = (Slab::<[u8; $l]>::compute_allocation_size(n), EventQueue::<[u8; $l]>::compute_allocation_size(n));
                let (ws, wq) = (40 + 24 + $l + (n - 1) * (24 + 32 + $l), 32 + n * (40 + 2 * $l));
                if (s, q) != (ws, wq) {
                    return Err(format!("for {} orders / events with callback infos of {} bytes the published sizes are {} / {}, the layout needs {} / {}", n, $l, s, q, ws, wq));
                }
                sink.count("callback_sizes_compared");
            )*
        };
    }
    sizes!(0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23 24 25 26 27 28 29 30 31 32 33 34 35 36 37 38 39 40 41 42 43 44 45 46 47 48 49 50 51 52 53 54 55 56 57 58 59 60 61 62 63 64 65 71 72 80 84 95 96 97 100 104 112 127 128 129 160 192 200 255 256 257 300 511 512 513 1000 1024 1025 4096 65535 65536 65537);
    Ok(())
}

pub fn case(ctx: &mut Ctx, sink: &mut Sink) {
    let mut r = Rng::new(mix(mix(ctx.seed, 0x21), ctx.k));
    let kind = KINDS[(ctx.k % 8) as usize];
    let i = ctx.k / 8;
    // small capacities one by one, then random larger ones
    let (nb, na, nq);
    if i < 64 {
        nb = i as usize + 1;
        na = 64 - i as usize;
        nq = 5 + i as usize;
    } else {
        let hi = if ctx.thorough { 20_000 } else { 5_000 };
        let pick = |r: &mut Rng| match r.below(3) {
            0 => r.range(1, 200) as usize,
            1 => ((1u64 << r.range(1, 11)) as i64 + r.range(0, 2) as i64 - 1).max(1) as usize,
            _ => r.range(1, hi) as usize,
        };
        let mut v = [pick(&mut r), pick(&mut r), pick(&mut r).max(5)];
        if i % 300 == 70 {
            // one of the three beyond 16 bits
            v[r.usize(3)] = *r.pick(&[65_536usize, 65_537, 70_000, 100_000, 131_072, 131_073]);
            sink.count("capacities_beyond_16_bits");
        }
        nb = v[0];
        na = v[1];
        nq = v[2];
    }
    // sizes of capacities too large to be filled here, against the layout
    for _ in 0..4 {
        let n = (r.logu() >> 24).max(1) as usize;
        match guarded(|| sizes_of(kind, n, n)) {
            Ok((s, q)) => {
                if slab_capacity(kind, s) != n || queue_capacity(kind, q) != n {
                    sink.hit(21, format!("published sizes for {} orders / events ({:?}) give room for {} / {}", n, kind, slab_capacity(kind, s), queue_capacity(kind, q)));
                    return;
                }
                sink.count("large_sizes_compared");
            }
            Err(m) => {
                sink.hit(21, format!("computing the sizes for {} panics: {}", n, m));
                return;
            }
        }
    }
    for n in [nb, na, nq, (r.logu() >> 30).max(1) as usize] {
        if i % 4 != 0 {
            break;
        }
        match guarded(|| size_sweep(n, &mut *sink)) {
            Ok(Ok(())) => {}
            Ok(Err(m)) | Err(m) => {
                sink.hit(21, m);
                return;
            }
        }
    }
    let got = guarded(|| (sizes_of(kind, nb, nq), sizes_of(kind, na, nq)));
    let ((sb, sq), (sa, _)) = match got {
        Ok(x) => x,
        Err(m) => {
            sink.hit(21, format!("computing an allocation size panics: {}", m));
            return;
        }
    };
    sink.eval(21, Some(mix(mix(nb as u64, na as u64), mix(nq as u64, kind.size() as u64))));
    if sb > 40 << 20 || sa > 40 << 20 || sq > 40 << 20 {
        sink.hit(21, format!("allocation sizes {} {} {} for capacities {} {} {}", sb, sa, sq, nb, na, nq));
        return;
    }
    let min = if r.pct(60) { 1 } else { r.range(1, 50) };
    let tick = if r.pct(60) { 1 << 32 } else { r.range(1, 1 << 33) };
    let mut w = World::new(kind, false, r.next() >> 8, sq, sb, sa, r.below(16) as u8);
    let c = w.create(min, tick);
    if !c.ok() {
        sink.hit(21, format!("no market can be created on accounts of the published sizes for {} bids, {} asks, {} events ({:?}): {}", nb, na, nq, kind, c.short()));
        return;
    }
    match guarded(|| capacity_probe(&mut w, min, tick, nb, na, nq, &mut r)) {
        Ok(Ok(n)) => sink.add("orders_and_events_inserted", n),
        Ok(Err(m)) | Err(m) => sink.hit(21, format!("{} (kind {:?}, published sizes {} {} {} for {} bids, {} asks, {} events)", m, kind, sb, sa, sq, nb, na, nq)),
    }
    sink.count("capacities_filled");
    if nq < 200 && ctx.k % 3 == 0 {
        small_queue(ctx, kind, 1 + (i as usize % 4), sink);
    }
    if ctx.want_sample {
        ctx.sample = Some(format!("{:?}: {} bids in {} bytes, {} asks in {} bytes, {} events in {} bytes", kind, nb, sb, na, sa, nq, sq));
    }
}

/// Queues below the five events a market needs can only be read as bare accounts.
fn small_queue(_ctx: &Ctx, kind: crate::cb::Kind, n: usize, sink: &mut Sink) {
    let size = guarded(|| sizes_of(kind, 1, n).1).unwrap_or(0);
    if queue_capacity(kind, size) != n || size != queue_size(kind, n) {
        sink.hit(21, format!("queue of {} events gets {} bytes", n, size));
    }
}

fn order(w: &World, side: Side, price: u64, base: u64, who: u32, post: bool) -> Act {
    Act::New(NewP { side, price, base, quote: u64::MAX, limit: 1 << 40, cb: w.kind.make(who, 1), post_only: false, post_allowed: post, stb: Stb::Dec })
}

/// Fill both sides and the queue of a fresh market to their exact bounds. `Err` says which bound is off.
pub fn capacity_probe(w: &mut World, min: u64, tick: u64, nb: usize, na: usize, nq: usize, r: &mut Rng) -> Result<u64, String> {
    let mut done = 0u64;
    let max_ticks = u64::MAX / tick;
    let need = (nb + na + 8) as u64;
    let count = |w: &World, s: Side| -> Result<usize, String> {
        let d = match s {
            Side::Bid => decode_slab(w.kind, w.bids.data.s()),
            Side::Ask => decode_slab(w.kind, w.asks.data.s()),
        };
        match d.bad {
            Some(b) => Err(format!("{:?} tree malformed: {}", s, b)),
            None => Ok(d.orders.len()),
        }
    };
    // With few representable ticks all orders of a side share a price; refusal is then observed instead of eviction.
    let spread = max_ticks > need * 4;
    let (bid_at, ask_at): (Box<dyn Fn(u64) -> u64>, Box<dyn Fn(u64) -> u64>) = if spread {
        let mid = need * 2;
        (Box::new(move |i| (mid - 1 - i % need) * tick), Box::new(move |i| (mid + i % need) * tick))
    } else if max_ticks >= 2 {
        (Box::new(move |_| tick), Box::new(move |_| 2 * tick))
    } else {
        (Box::new(move |_| tick), Box::new(move |_| tick))
    };
    // an order whose quote value is beyond u64 cannot rest, whatever the capacity
    let top = bid_at(0).max(ask_at(need - 1)).max(bid_at(2)).max(ask_at(2));
    if (top as u128 * min as u128) >> 32 >= u64::MAX as u128 {
        return Ok(done);
    }
    let pattern = r.below(4);
    for (side, n) in [(Side::Bid, nb), (Side::Ask, na)] {
        if max_ticks < 2 && side == Side::Ask {
            // a single price: asks would trade with the bids, so only the bids can be probed
            break;
        }
        let at: &dyn Fn(u64) -> u64 = if side == Side::Bid { &bid_at } else { &ask_at };
        let churn = r.pct(40);
        for i in 0..n as u64 {
            let j = match pattern {
                0 => i,
                1 => n as u64 - 1 - i,
                2 => r.below(n as u64),
                _ => i / 3,
            };
            let a = order(w, side, at(j + 2), min, (i % 250) as u32, true);
            match w.raw_exec(&a) {
                Outcome::Ok(Some(s)) if s.id.is_some() => {
                    done += 1;
                    if churn && r.pct(15) {
                        // recycle slots on the way
                        let id = s.id.unwrap();
                        if !w.raw_exec(&Act::Cancel(id)).ok() {
                            return Err(format!("cancelling a {:?} just posted failed", side));
                        }
                        let o = w.raw_exec(&a);
                        if !matches!(&o, Outcome::Ok(Some(s)) if s.id.is_some()) {
                            return Err(format!("{:?} side refused order {} of {} after a cancel: {}", side, i + 1, n, o.short()));
                        }
                    }
                }
                o => return Err(format!("{:?} side refused order {} of {}: {}", side, i + 1, n, o.short())),
            }
            if n <= 64 || i as usize % 97.max(n / 16) == 0 || i + 2 >= n as u64 {
                let c = count(w, side)?;
                if c != i as usize + 1 {
                    return Err(format!("{:?} side holds {} after {} posts (capacity {})", side, c, i + 1, n));
                }
            }
        }
        let (_, evs0, _) = queue_header(w.eq.data.s());
        if evs0 != 0 {
            return Err(format!("filling an empty {:?} side to its capacity {} produced {} events", side, n, evs0));
        }
        // one more, no better than any: refused without effect
        let worst = if side == Side::Bid { tick } else { at(need - 1).max(at(0)) };
        let o = w.raw_exec(&order(w, side, worst, min, 3, true));
        let c = count(w, side)?;
        if c != n || matches!(&o, Outcome::Ok(Some(s)) if s.id.is_some()) || !o.ok() {
            return Err(format!("{:?} side of capacity {}: one order more, worst price: {}, {} rest", side, n, o.short(), c));
        }
        if spread {
            // one more, better than all: takes a place
            let o = w.raw_exec(&order(w, side, at(0), min, 4, true));
            let c = count(w, side)?;
            if c != n || !matches!(&o, Outcome::Ok(Some(s)) if s.id.is_some()) {
                return Err(format!("{:?} side of capacity {}: one order more, best price: {}, {} rest", side, n, o.short(), c));
            }
            if !w.raw_exec(&Act::Consume(u64::MAX)).ok() {
                return Err("consume failed".into());
            }
        }
    }
    // the event queue: one event per instruction until it is full
    let d = decode_slab(w.kind, w.bids.data.s());
    let ids: Vec<u128> = d.orders.iter().map(|o| o.id).collect();
    for id in ids {
        if !w.raw_exec(&Act::Cancel(id)).ok() {
            return Err("cancelling a resting bid failed".into());
        }
    }
    // a large bid is eaten in pieces worth at least one quote unit
    let piece = ((1u128 << 32) / tick as u128 + 1) as u64;
    let total = piece as u128 * (nq as u128 + 2) + min as u128;
    if total * tick as u128 >> 32 > u64::MAX as u128 || total > u64::MAX as u128 {
        return Ok(done);
    }
    let o = w.raw_exec(&order(w, Side::Bid, tick, total as u64, 9, true));
    if !matches!(&o, Outcome::Ok(Some(s)) if s.id.is_some()) {
        return Err(format!("posting the maker for the queue probe failed: {}", o.short()));
    }
    // start anywhere in the ring
    if r.pct(50) {
        let h = r.below(nq as u64);
        w.eq.data.m()[8..16].copy_from_slice(&h.to_le_bytes());
    }
    for i in 0..=nq {
        let want_full = i == nq;
        let b = if want_full { Some(Backup::take(w)) } else { None };
        let o = w.raw_exec(&order(w, Side::Ask, tick, piece, 11, false));
        if let Some(b) = b {
            if o.ok() {
                return Err(format!("queue sized for {} events took {}", nq, i + 1));
            }
            b.restore(w);
        } else if !o.ok() {
            return Err(format!("queue sized for {} events refused number {}: {}", nq, i + 1, o.short()));
        } else {
            done += 1;
        }
    }
    let evs = decode_queue(w.kind, w.eq.data.s())?;
    if evs.len() != nq {
        return Err(format!("queue sized for {} holds {}", nq, evs.len()));
    }
    Ok(done)
}
