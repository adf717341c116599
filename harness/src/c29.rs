//! C29: instructions change only the accounts that are theirs to change; reading changes nothing.
use crate::acct::*;
use crate::layout::State;
use crate::model::Ledger;
use crate::monitor::*;

/// Judge one successful instruction: `before` holds every account's bytes and balance from before it.
pub fn judge(before: &Backup, w: &World, act: &Act, out: &Outcome, pre: &State, post: &State, owners: &[solana_program::pubkey::Pubkey; 4]) -> Option<String> {
    let [market, queue, bids, asks] = before.changed(w);
    if market && !matches!(act, Act::Close) {
        return Some("the market account changed".into());
    }
    if before.l != [w.market.lamports, w.eq.lamports, w.bids.lamports, w.asks.lamports, w.target.lamports] && !matches!(act, Act::Close) {
        return Some(format!("lamports moved: {:?} became {:?}", before.l, [w.market.lamports, w.eq.lamports, w.bids.lamports, w.asks.lamports, w.target.lamports]));
    }
    if [w.market.owner, w.eq.owner, w.bids.owner, w.asks.owner] != *owners {
        return Some("an account changed its owner".into());
    }
    let side = |s: Side| if s == Side::Bid { bids } else { asks };
    match act {
        Act::New(p) => {
            let posted = matches!(out, Outcome::Ok(Some(Summary { id: Some(_), .. })));
            // every change to the opposite side is announced by an event
            if post.queue().len() == pre.queue().len() && side(p.side.opp()) {
                return Some("an order that met no other order changed the opposite side's account".into());
            }
            if !posted && side(p.side) {
                return Some("an order that was not posted changed its own side's account".into());
            }
        }
        Act::Cancel(_) | Act::Mass(_) => {
            if queue {
                return Some("cancelling changed the event queue account".into());
            }
            for (s, c) in [(Side::Bid, bids), (Side::Ask, asks)] {
                let ids: &[u128] = match act {
                    Act::Cancel(id) => std::slice::from_ref(id),
                    Act::Mass(ids) => ids,
                    _ => &[],
                };
                if c && !ids.iter().any(|id| pre.side(s).orders.iter().any(|o| o.id == *id)) {
                    return Some(format!("cancelling no {:?} changed that side's account", s));
                }
            }
        }
        Act::Consume(_) => {
            if bids || asks {
                return Some("consuming events changed the book".into());
            }
        }
        Act::Close => {}
    }
    None
}

/// Read everything through the public API, and try the wrong tags: no byte may change.
pub fn queries(mon: &Mon, w: &mut World, post: &State, probe: u64) -> Option<String> {
    let b = Backup::take(w);
    let mut led = Ledger::default();
    led.gone = mon.led.gone.iter().rev().take(3).copied().collect();
    let mut sink = Sink::new(255);
    let mut m = Mon { kind: mon.kind, cap_b: mon.cap_b, cap_a: mon.cap_a, q_cap: mon.q_cap, min: mon.min, tick: mon.tick, led: &mut led, sink: &mut sink, sig: 0 };
    m.queue_api(w, post, probe);
    if !b.same(w) {
        return Some("reading the event queue changed an account".into());
    }
    m.book_api(w, post, probe);
    if !b.same(w) {
        return Some("reading the book changed an account".into());
    }
    let r = with_cb!(mon.kind, C, {
        guarded(|| {
            use asset_agnostic_orderbook::state::critbit::Slab;
            use asset_agnostic_orderbook::state::event_queue::EventQueue;
            use asset_agnostic_orderbook::state::market_state::MarketState;
            use asset_agnostic_orderbook::state::AccountTag as T;
            let mut got = vec![];
            got.push(MarketState::from_buffer(w.market.data.m(), T::Market).is_ok());
            for t in [T::Bids, T::Asks, T::EventQueue, T::Disabled] {
                got.push(!MarketState::from_buffer(w.market.data.m(), t).is_ok());
            }
            for t in [T::Market, T::Bids, T::Asks, T::Disabled] {
                got.push(!EventQueue::<C>::from_buffer(w.eq.data.m(), t).is_ok());
            }
            for t in [T::Market, T::Asks, T::EventQueue, T::Disabled] {
                got.push(!Slab::<C>::from_buffer(w.bids.data.m(), t).is_ok());
            }
            for t in [T::Market, T::Bids, T::EventQueue, T::Disabled] {
                got.push(!Slab::<C>::from_buffer(w.asks.data.m(), t).is_ok());
            }
            got
        })
    });
    if !b.same(w) {
        return Some("opening an account under some tag changed it".into());
    }
    match r {
        Ok(v) if v.iter().all(|x| *x) => {}
        Ok(_) => return Some("an account was read under another account's tag".into()),
        Err(m) => return Some(format!("opening an account panicked: {}", m)),
    }
    // accounts in other conditions: not yet created, closed, of another kind
    let tags = [0u64, 128, 129, 130, 131, 132];
    let small = w.eq.data.s().len() + w.bids.data.s().len() + w.asks.data.s().len() < 1 << 17;
    if !small && probe % 16 != 0 {
        return None;
    }
    for has in tags {
        for (i, own) in [(0usize, 128u64), (1, 129), (2, 130), (3, 131)] {
            if has == own {
                continue;
            }
            let d = match i {
                0 => w.market.data.m(),
                1 => w.eq.data.m(),
                2 => w.bids.data.m(),
                _ => w.asks.data.m(),
            };
            d[..8].copy_from_slice(&has.to_le_bytes());
            let r = with_cb!(mon.kind, C, {
                guarded(|| {
                    use asset_agnostic_orderbook::state::critbit::Slab;
                    use asset_agnostic_orderbook::state::event_queue::EventQueue;
                    use asset_agnostic_orderbook::state::market_state::MarketState;
                    use asset_agnostic_orderbook::state::AccountTag as T;
                    match i {
                        0 => MarketState::from_buffer(d, T::Market).is_err(),
                        1 => EventQueue::<C>::from_buffer(d, T::EventQueue).is_err(),
                        2 => Slab::<C>::from_buffer(d, T::Bids).is_err(),
                        _ => Slab::<C>::from_buffer(d, T::Asks).is_err(),
                    }
                })
            });
            let d = match i {
                0 => w.market.data.m(),
                1 => w.eq.data.m(),
                2 => w.bids.data.m(),
                _ => w.asks.data.m(),
            };
            let kept = d[..8] == has.to_le_bytes();
            d[..8].copy_from_slice(&own.to_le_bytes());
            if r != Ok(true) {
                return Some(format!("an account tagged {} was opened as {}", has, own));
            }
            if !kept || !b.same(w) {
                return Some(format!("trying to open an account tagged {} as {} changed it", has, own));
            }
        }
    }
    None
}
