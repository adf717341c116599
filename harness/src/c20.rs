//! C20: builders, dispatcher and register.
use crate::acct::*;
use crate::cb::Kind;
use crate::engine::*;
use crate::gen::*;
use crate::monitor::Sink;
use crate::rng::{mix, Rng};
use crate::work::Ctx;
use asset_agnostic_orderbook::instruction as ix;
use asset_agnostic_orderbook::state::{OrderSummary, ORDER_SUMMARY_SIZE};
use bonfida_utils::BorshSize;
use borsh::{BorshDeserialize, BorshSerialize};
use solana_program::account_info::AccountInfo;
use solana_program::instruction::Instruction;
use solana_program::pubkey::Pubkey;

const REG_LEN: usize = 96;

/// Run a built instruction over a world: accounts found by key through the metas. Returns the outcome and
/// the keys of the accounts whose bytes or balance changed.
fn run_built(w: &mut World, i: &Instruction) -> (Outcome, Vec<Pubkey>) {
    let before: Vec<(Pubkey, Vec<u8>, u64)> = [&w.market, &w.eq, &w.bids, &w.asks, &w.register, &w.target].iter().map(|a| (a.key, a.data.s().to_vec(), a.lamports)).collect();
    let res = {
        let infos = [w.market.info(), w.eq.info(), w.bids.info(), w.asks.info(), w.register.info(), w.target.info()];
        let mut list: Vec<AccountInfo> = vec![];
        for m in &i.accounts {
            if let Some(x) = infos.iter().find(|x| *x.key == m.pubkey) {
                let mut x = x.clone();
                x.is_writable = m.is_writable;
                x.is_signer = m.is_signer;
                list.push(x);
            } else {
                return (Outcome::Panic(format!("the instruction names an account it was not given: {}", m.pubkey)), vec![]);
            }
        }
        guarded(|| asset_agnostic_orderbook::entrypoint::process_instruction(&i.program_id, &list, &i.data))
    };
    let o = match res {
        Err(m) => Outcome::Panic(m),
        Ok(Err(e)) => Outcome::Err(e),
        Ok(Ok(())) => Outcome::Ok(None),
    };
    let changed = [&w.market, &w.eq, &w.bids, &w.asks, &w.register, &w.target]
        .iter()
        .zip(&before)
        .filter(|(a, b)| a.data.s() != &b.1[..] || a.lamports != b.2)
        .map(|(a, _)| a.key)
        .collect();
    (o, changed)
}

fn len_check<T: BorshSize + BorshSerialize>(what: &str, t: &T, sink: &mut Sink) {
    let n = t.try_to_vec().map(|v| v.len()).unwrap_or(usize::MAX);
    sink.count("borsh_sizes_compared");
    match guarded(|| t.borsh_len()) {
        Ok(l) if l == n => {}
        Ok(l) => sink.hit(20, format!("borsh_len of {} is {}, serialised length {}", what, l, n)),
        Err(m) => sink.hit(20, format!("borsh_len of {} panics: {}", what, m)),
    }
}

fn sizes(act: &Act, sink: &mut Sink) {
    match act {
        Act::New(p) => {
            let k = new_params_key(p);
            len_check("new_order::Params", &k, sink);
            len_check("Side", &p.side.p(), sink);
            len_check("SelfTradeBehavior", &p.stb.p(), sink);
        }
        Act::Cancel(id) => len_check("cancel_order::Params", &ix::cancel_order::Params { order_id: *id }, sink),
        Act::Mass(ids) => len_check("mass_cancel_orders::Params", &ix::mass_cancel_orders::Params { order_ids: ids.clone() }, sink),
        Act::Consume(n) => len_check("consume_events::Params", &ix::consume_events::Params { number_of_entries_to_consume: *n }, sink),
        Act::Close => len_check("close_market::Params", &ix::close_market::Params {}, sink),
    }
}

/// Long lists of orders: mass cancels of hundreds to thousands of orders (now and then beyond 2^16), then large events and
/// crossings, through the builders.
fn large(ctx: &Ctx, r: &mut Rng, sink: &mut Sink) {
    let n = if ctx.k % (101 * 19) == 20 {
        r.range(65_600, 70_000)
    } else {
        match r.below(3) {
            0 => r.range(200, 700),
            1 => (1u64 << r.range(8, 12)) + r.below(3),
            _ => r.range(250, 5000),
        }
    } as usize;
    let Some(mut e) = Evolved::with(Profile::Tight, r.next(), |c| {
        c.kind = Kind::E32;
        c.entry = false;
        c.wid &= !1;
        c.extra_a = 0;
        c.extra_b = 0;
        c.min = 1;
        c.tick = 1 << 32;
        c.cap_b = n + 5;
        c.cap_a = n + 5;
        c.eq_cap = 2 * n + 20;
    }) else {
        sink.count("market_creation_failed");
        return;
    };
    e.w.register = Acct::new(e.w.register.key, e.w.program_id, rent(REG_LEN), REG_LEN, 0);
    let bids = r.below(n as u64 + 1);
    let one_price = r.pct(20);
    let mut ids = vec![];
    for i in 0..n as u64 {
        let side = if i < bids { Side::Bid } else { Side::Ask };
        let off = if one_price { 0 } else { r.below(1000) };
        let price = if side == Side::Bid { 2000 - off } else { 3000 + off } << 32;
        let act = Act::New(NewP { side, price, base: r.range(1, 1000), quote: u64::MAX, limit: 4, cb: Kind::E32.make(i as u32, 0), post_only: false, post_allowed: true, stb: Stb::Dec });
        match e.w.raw_exec(&act) {
            Outcome::Ok(Some(s)) if s.id.is_some() => ids.push(s.id.unwrap()),
            _ => {
                sink.count("large_fill_failed");
                return;
            }
        }
    }
    let sig0 = mix(fnv(e.w.bids.data.s(), 1), fnv(e.w.asks.data.s(), 2));
    for i in (1..ids.len()).rev() {
        let j = r.usize(i + 1);
        ids.swap(i, j);
    }
    let mut bad = ids.clone();
    let last = bad.len() - 1;
    bad[last] ^= 1 << 40;
    let some = ids[..ids.len() - r.usize(ids.len() / 2)].to_vec();
    let half = ids[..ids.len() / 2].to_vec();
    let cross = |side, limit| Act::New(NewP { side, price: if side == Side::Bid { u64::MAX } else { 1 << 32 }, base: u64::MAX >> 20, quote: u64::MAX, limit, cb: Kind::E32.make(9_999_999, 0), post_only: false, post_allowed: r_bool(limit), stb: Stb::Dec });
    let mut log = vec![];
    for act in [Act::Mass(ids.clone()), Act::Mass(bad), Act::Mass(some), Act::Mass(half), cross(Side::Bid, n as u64), cross(Side::Ask, n as u64 - 1), cross(Side::Bid, u64::MAX)] {
        sizes(&act, sink);
        one(&mut e, &act, sig0, r, sink, &mut log);
        if !sink.hits.is_empty() {
            return;
        }
    }
    // many events, consumed in long strides
    let _ = e.w.raw_exec(&cross(Side::Ask, n as u64));
    for k in [n as u64 / 2, n as u64 / 2 + 1, 256, u64::MAX] {
        one(&mut e, &Act::Consume(k), sig0, r, sink, &mut log);
        if !sink.hits.is_empty() {
            return;
        }
    }
    sink.count("built_on_large_markets");
}

fn r_bool(x: u64) -> bool {
    x % 2 == 1
}

pub fn case(ctx: &mut Ctx, sink: &mut Sink) {
    let mut r = Rng::new(mix(mix(ctx.seed, 0x20), ctx.k));
    if ctx.k % 101 == 20 {
        return large(ctx, &mut r, sink);
    }
    let prof = *r.pick(&[Profile::Tight, Profile::SelfTrade, Profile::Full, Profile::Extreme, Profile::Churn]);
    let Some(mut e) = Evolved::with(prof, r.next(), |c| {
        c.kind = Kind::E32;
        c.entry = false;
        c.wid &= !1;
        c.extra_a = 0;
        c.extra_b = 0;
    }) else {
        sink.count("market_creation_failed");
        return;
    };
    creation(ctx, &mut r, sink);
    e.w.register = Acct::new(e.w.register.key, e.w.program_id, rent(REG_LEN), REG_LEN, 0);
    let mut log = vec![];
    let n = r.range(6, 30);
    for step in 0..n {
        if step > 0 && !e.advance() {
            return;
        }
        // candidate operations: the generated ones, plus extremes of every parameter
        let mut acts: Vec<Act> = vec![];
        for _ in 0..3 {
            acts.push(e.g.next(usize::MAX, &e.st, &e.led).resolve(Kind::E32, &e.led));
        }
        let k = r.below(7);
        acts.push(match k {
            0 => Act::Consume(r.edgy()),
            1 => Act::Cancel((r.edgy() as u128) << 64 | r.edgy() as u128),
            2 => {
                let n = if r.pct(20) { r.range(0, 600) } else { r.range(0, 8) };
                Act::Mass((0..n).map(|_| (r.edgy() as u128) << 64 | r.edgy() as u128).collect())
            }
            3 => Act::Mass(e.st.bids.orders.iter().chain(&e.st.asks.orders).map(|o| o.id).collect()),
            4 => Act::New(NewP {
                side: if r.pct(50) { Side::Bid } else { Side::Ask },
                price: r.edgy(),
                base: r.edgy(),
                quote: r.edgy(),
                limit: r.edgy(),
                cb: Kind::E32.make(r.below(40) as u32, 0),
                post_only: r.pct(50),
                post_allowed: r.pct(50),
                stb: *r.pick(&[Stb::Dec, Stb::Cancel, Stb::Abort]),
            }),
            5 => Act::Cancel(e.st.bids.orders.iter().chain(&e.st.asks.orders).map(|o| o.id).next().unwrap_or(5)),
            _ => Act::Close,
        });
        if step == n - 1 && e.drain() {
            acts.push(Act::Close);
        }
        let sig0 = state_sig(&e.st);
        for act in &acts {
            sizes(act, sink);
            one(&mut e, act, sig0, &mut r, sink, &mut log);
            if !sink.hits.is_empty() {
                return;
            }
        }
    }
    if ctx.want_sample {
        log.truncate(12);
        ctx.sample = Some(log.join(" | "));
    }
}

fn opname(a: &Act) -> &'static str {
    match a {
        Act::New(_) => "new_order",
        Act::Cancel(_) => "cancel_order",
        Act::Mass(_) => "mass_cancel_orders",
        Act::Consume(_) => "consume_events",
        Act::Close => "close_market",
    }
}

fn one(e: &mut Evolved, act: &Act, sig0: u64, r: &mut Rng, sink: &mut Sink, log: &mut Vec<String>) {
    // the library's own function on a copy
    let mut direct = e.w.clone();
    direct.entry = false;
    let want = direct.raw_exec(act);
    // the built instruction on another copy
    let mut via = e.w.clone();
    let fill = r.next() as u8;
    via.register.data.m().fill(fill);
    let built = match guarded(|| e.w.build_ix(act)) {
        Ok(i) => i,
        Err(m) => {
            sink.hit(20, format!("building {} panics: {}", opname(act), m));
            return;
        }
    };
    let (got, changed) = run_built(&mut via, &built);
    sink.eval(20, Some(mix(sig0, fnv(&built.data, 7))));
    sink.count(match act {
        Act::New(_) => "built_new",
        Act::Cancel(_) => "built_cancel",
        Act::Mass(_) => "built_mass",
        Act::Consume(_) => "built_consume",
        Act::Close => "built_close",
    });
    log.push(format!("{} ({} bytes, {} accounts) -> {}", opname(act), built.data.len(), built.accounts.len(), want.short()));
    if let Some(m) = built.accounts.iter().find(|m| m.is_signer) {
        sink.hit(20, format!("{} asks account {} to sign", opname(act), m.pubkey));
    }
    if built.program_id != asset_agnostic_orderbook::id() {
        sink.hit(20, format!("{} is addressed to {}", opname(act), built.program_id));
    }
    match (&want, &got) {
        (Outcome::Ok(_), Outcome::Ok(_)) => {
            sink.count("built_and_succeeded");
            for (n, a, b) in [("market", &direct.market, &via.market), ("event queue", &direct.eq, &via.eq), ("bids", &direct.bids, &via.bids), ("asks", &direct.asks, &via.asks), ("target", &direct.target, &via.target)] {
                if a.data.s() != b.data.s() || a.lamports != b.lamports {
                    sink.hit(20, format!("built {} left the {} account different from the direct call", opname(act), n));
                }
            }
        }
        (Outcome::Err(a), Outcome::Err(b)) if a == b => {
            sink.count("built_and_failed");
            return;
        }
        (Outcome::Panic(_), Outcome::Panic(_)) => {
            sink.count("built_and_failed");
            return;
        }
        (a, b) => {
            sink.hit(20, format!("{} called directly: {}; as a built instruction: {}", opname(act), a.short(), b.short()));
            return;
        }
    }
    for k in &changed {
        if !built.accounts.iter().any(|m| m.pubkey == *k && m.is_writable) {
            let n = [("market", via.market.key), ("event queue", via.eq.key), ("bids", via.bids.key), ("asks", via.asks.key), ("register", via.register.key), ("target", via.target.key)].iter().find(|x| x.1 == *k).map(|x| x.0).unwrap_or("?");
            sink.hit(20, format!("{} modified the {} account, which the builder does not mark writable", opname(act), n));
        }
    }
    check_register(act_has_summary(act), &want, via.register.data.s(), fill, opname(act), sink);
}

fn act_has_summary(a: &Act) -> bool {
    matches!(a, Act::New(_) | Act::Cancel(_) | Act::Mass(_))
}

fn check_register(present: bool, want: &Outcome, reg: &[u8], fill: u8, what: &str, sink: &mut Sink) {
    let mut d: &[u8] = reg;
    let got = match Option::<OrderSummary>::deserialize(&mut d) {
        Ok(g) => g,
        Err(e) => {
            sink.hit(20, format!("register unreadable after {}: {}", what, e));
            return;
        }
    };
    let used = reg.len() - d.len();
    sink.count(if present { "register_present" } else { "register_absent" });
    if got.is_some() != present {
        sink.hit(20, format!("register after {} {} a result", what, if got.is_some() { "holds" } else { "lacks" }));
        return;
    }
    if used > 1 + ORDER_SUMMARY_SIZE as usize {
        sink.hit(20, format!("register result takes {} bytes after {}", used, what));
    }
    if reg[used..].iter().any(|b| *b != fill) {
        sink.hit(20, format!("bytes beyond the register's result were written by {}", what));
    }
    if let (Some(g), Outcome::Ok(Some(w))) = (got, want) {
        let n = g.try_to_vec().map(|v| v.len()).unwrap_or(usize::MAX);
        if n > ORDER_SUMMARY_SIZE as usize {
            sink.hit(20, format!("serialised summary of {} bytes exceeds ORDER_SUMMARY_SIZE {}", n, ORDER_SUMMARY_SIZE));
        }
        let g: Summary = g.into();
        if g != *w {
            sink.hit(20, format!("register after {} holds {:?}, the operation returned {:?}", what, g, w));
        }
        if w.id.is_some() {
            sink.count("register_with_posted_id");
        }
    }
}

/// The create_market builder against the library function.
fn creation(ctx: &Ctx, r: &mut Rng, sink: &mut Sink) {
    let (min, tick) = (r.edgy(), r.edgy());
    let nq = r.range(4, 9) as usize;
    let wid = mix(ctx.k, 5) & !1;
    let w0 = World::new(Kind::E32, false, wid, queue_size(Kind::E32, nq), slab_size(Kind::E32, 3), slab_size(Kind::E32, 4), 0);
    let mut direct = w0.clone();
    let want = direct.create(min, tick);
    let mut via = w0.clone();
    via.register = Acct::new(via.register.key, via.program_id, rent(REG_LEN), REG_LEN, 0);
    let fill = r.next() as u8;
    via.register.data.m().fill(fill);
    let p = ix::create_market::Params { min_base_order_size: min, tick_size: tick };
    len_check("create_market::Params", &p, sink);
    let i = ix::create_market(ix::create_market::Accounts { market: &via.market.key, event_queue: &via.eq.key, bids: &via.bids.key, asks: &via.asks.key }, via.register.key, p);
    if i.accounts.iter().any(|m| m.is_signer) {
        sink.hit(20, "create_market asks an account to sign");
    }
    let (got, changed) = run_built(&mut via, &i);
    sink.eval(20, Some(fnv(&i.data, 20)));
    sink.count("built_create");
    if i.program_id != asset_agnostic_orderbook::id() {
        sink.hit(20, "create_market is addressed to another program");
    }
    match (&want, &got) {
        (Outcome::Ok(_), Outcome::Ok(_)) => {
            for (n, a, b) in [("market", &direct.market, &via.market), ("event queue", &direct.eq, &via.eq), ("bids", &direct.bids, &via.bids), ("asks", &direct.asks, &via.asks)] {
                if a.data.s() != b.data.s() || a.lamports != b.lamports {
                    sink.hit(20, format!("built create_market left the {} account different from the direct call", n));
                }
            }
            for k in &changed {
                if !i.accounts.iter().any(|m| m.pubkey == *k && m.is_writable) {
                    sink.hit(20, "create_market modified an account the builder does not mark writable");
                }
            }
            check_register(false, &want, via.register.data.s(), fill, "create_market", sink);
        }
        (Outcome::Ok(_), b) => sink.hit(20, format!("create_market called directly succeeds, as a built instruction: {}", b.short())),
        (a, Outcome::Ok(_)) => sink.hit(20, format!("create_market called directly: {}, as a built instruction it succeeds", a.short())),
        _ => {}
    }
}
