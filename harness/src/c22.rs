//! C22: price rounding.
use crate::acct::*;
use crate::cb::Kind;
use crate::monitor::Sink;
use crate::rng::{mix, Rng};
use crate::work::Ctx;
use asset_agnostic_orderbook::utils::round_price;

pub fn case(ctx: &mut Ctx, sink: &mut Sink) {
    let mut r = Rng::new(mix(mix(ctx.seed, 0x22), ctx.k));
    let n = 20_000;
    let mut sample = vec![];
    for i in 0..n {
        let tick = match r.below(8) {
            0 => r.range(1, 20),
            1 => 1u64 << r.below(64),
            2 => r.edgy().max(1),
            3 => u64::MAX - r.below(20),
            4 => (1u64 << 63) - 10 + r.below(20),
            _ => r.logu().max(1),
        };
        let price = match r.below(9) {
            0 => r.edgy(),
            1 => u64::MAX - r.below(50),
            2 => r.range(0, 50),
            3 | 4 => {
                // around a multiple
                let m = r.below((u64::MAX / tick).saturating_add(1).max(1));
                (m * tick).wrapping_add(r.below(5)).wrapping_sub(2)
            }
            5 => (u64::MAX / tick * tick).wrapping_add(r.below(3)).wrapping_sub(1),
            6 => tick.wrapping_add(r.below(3)).wrapping_sub(1),
            _ => r.logu(),
        };
        for side in [Side::Bid, Side::Ask] {
            let (t, p) = (tick as u128, price as u128);
            let want = match side {
                Side::Bid => p / t * t,
                Side::Ask => (p + t - 1) / t * t,
            };
            if want > u64::MAX as u128 {
                sink.count("not_representable");
                continue;
            }
            sink.eval(22, Some(mix(mix(tick, price), side as u64)));
            sink.count(if price % tick == 0 { "already_on_tick" } else { "rounded" });
            let got = guarded(|| round_price(tick, price, side.p()));
            match &got {
                Ok(g) if *g as u128 == want => {}
                o => {
                    sink.hit(22, format!("round_price({}, {}, {:?}) = {:?}, expected {}", tick, price, side, o, want));
                    return;
                }
            }
            let want = want as u64;
            for s2 in [Side::Bid, Side::Ask] {
                match guarded(|| round_price(tick, want, s2.p())) {
                    Ok(g) if g == want => {}
                    o => {
                        sink.hit(22, format!("rounding {} again (tick {}, {:?}) gives {:?}", want, tick, s2, o));
                        return;
                    }
                }
            }
            if i < 3 && ctx.want_sample {
                sample.push(format!("tick {} price {} {:?} -> {}", tick, price, side, want));
            }
            // accepted by a market of that tick size
            if want != 0 && i % 40 == 0 {
                let mut w = World::new(Kind::One, false, mix(ctx.k, i), queue_size(Kind::One, 5), slab_size(Kind::One, 2), slab_size(Kind::One, 2), 0);
                if !w.create(1, tick).ok() {
                    sink.hit(22, format!("no market of tick size {}", tick));
                    return;
                }
                let o = w.raw_exec(&Act::New(NewP { side, price: want, base: 1, quote: u64::MAX, limit: 5, cb: Kind::One.make(1, 1), post_only: false, post_allowed: true, stb: Stb::Dec }));
                sink.count("accepted_by_a_market");
                if !o.ok() {
                    sink.hit(22, format!("a market of tick size {} refuses the rounded price {} ({:?}): {}", tick, want, side, o.short()));
                    return;
                }
            }
        }
    }
    if ctx.want_sample {
        ctx.sample = Some(sample.join("; "));
    }
}
