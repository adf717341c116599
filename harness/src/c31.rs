//! C31: an instruction refused for breaking one rule reports that rule's published error.
use crate::acct::*;
use crate::cb::{Kind, KINDS};
use crate::engine::*;
use crate::gen::*;
use crate::monitor::Sink;
use crate::rng::{mix, Rng};
use crate::work::Ctx;
use solana_program::account_info::AccountInfo;
use solana_program::program_error::ProgramError;
use solana_program::pubkey::Pubkey;

const ROLE: [&str; 4] = ["market", "event queue", "bids", "asks"];
const TAG: [u8; 4] = [128, 129, 130, 131];
const E_OWNER: [u32; 4] = [16, 13, 14, 15];
/// key of the queue, bids, asks not the recorded one
const E_KEY: [u32; 4] = [0, 3, 1, 2];
const E_TAG: u32 = 24;

fn custom(n: u32) -> ProgramError {
    ProgramError::Custom(n)
}
fn n_given(a: &Act) -> usize {
    if matches!(a, Act::Consume(_)) {
        2
    } else {
        4
    }
}
/// roles whose content the instruction reads
fn reads(a: &Act) -> &'static [usize] {
    match a {
        Act::Consume(_) => &[0, 1],
        Act::Cancel(_) | Act::Mass(_) => &[0, 2, 3],
        _ => &[0, 1, 2, 3],
    }
}
fn name(a: &Act) -> &'static str {
    match a {
        Act::New(_) => "new order",
        Act::Cancel(_) => "cancel",
        Act::Mass(_) => "mass cancel",
        Act::Consume(_) => "consume",
        Act::Close => "close",
    }
}

/// The rules about accounts that this set of accounts breaks.
fn broken(a: &Act, set: &[Acct], pid: &Pubkey) -> Vec<ProgramError> {
    let mut v = vec![];
    for role in 0..n_given(a) {
        if set[role].owner != *pid {
            v.push(custom(E_OWNER[role]));
        }
    }
    let m = set[0].data.s();
    if m.len() != MARKET_LEN || m[0] != TAG[0] || m[1..8] != [0; 7] {
        v.push(custom(E_TAG));
    } else {
        for role in 1..n_given(a) {
            if set[role].key.as_ref() != &m[8 + 32 * (role - 1)..8 + 32 * role] {
                v.push(custom(E_KEY[role]));
            }
        }
        if let Act::New(p) = a {
            // the tick size is that of the market given
            let tick = u64::from_le_bytes(m[112..120].try_into().unwrap());
            if tick == 0 || p.price % tick != 0 || (p.post_allowed && p.price < tick) {
                v.push(custom(E_LIMIT_PRICE));
            }
        }
    }
    for role in reads(a).iter().copied().filter(|r| *r > 0) {
        if set[role].data.s()[0] != TAG[role] {
            v.push(custom(E_TAG));
        }
    }
    v
}

fn call(kind: Kind, entry: bool, pid: &Pubkey, act: &Act, set: &mut [Acct], target: &mut Acct, register: &mut Acct, data: &[u8], n_accounts: usize) -> Outcome {
    let mut infos: Vec<AccountInfo> = set.iter_mut().map(|a| a.info()).collect();
    let t = target.info();
    if entry {
        let mut list: Vec<AccountInfo> = infos[..n_given(act)].to_vec();
        if matches!(act, Act::Close) {
            list.push(t);
        }
        list.truncate(n_accounts);
        list.push(register.info());
        match guarded(|| asset_agnostic_orderbook::entrypoint::process_instruction(pid, &list, data)) {
            Err(m) => Outcome::Panic(m),
            Ok(Err(e)) => Outcome::Err(e),
            Ok(Ok(())) => Outcome::Ok(None),
        }
    } else {
        infos.push(t);
        lib_call(kind, pid, &infos, act)
    }
}

fn flip(r: &mut Rng, k: &Pubkey) -> Pubkey {
    let mut b = k.to_bytes();
    b[r.usize(32)] ^= 1 << r.below(8);
    Pubkey::new_from_array(b)
}

pub fn case(ctx: &mut Ctx, sink: &mut Sink) {
    let mut r = Rng::new(mix(mix(ctx.seed, 0x31), ctx.k));
    match ctx.k / 2 % 4 {
        0 | 1 => accounts(ctx, sink, &mut r),
        2 => data(ctx, sink, &mut r),
        _ => creation(ctx, sink, &mut r),
    }
}

fn market(r: &mut Rng, entry_only: bool) -> Option<(Evolved, Kind, bool)> {
    let kind = if entry_only || r.pct(45) { Kind::E32 } else { *r.pick(&KINDS) };
    let entry = entry_only || (kind == Kind::E32 && r.pct(70));
    let prof = *r.pick(&[Profile::Tight, Profile::Full, Profile::SelfTrade]);
    let mut e = Evolved::with(prof, r.next(), |c| {
        c.kind = kind;
        c.entry = entry;
        c.extra_a = 0;
        c.extra_b = 0;
    })?;
    for _ in 0..r.range(0, 50) {
        if !e.advance() {
            return None;
        }
    }
    Some((e, kind, entry))
}

fn acts_for(e: &mut Evolved, r: &mut Rng) -> Vec<Act> {
    let mut acts = vec![];
    for k in 0..4 {
        if let Some(a) = e.good_op(k, 80) {
            acts.push(a);
        }
    }
    if r.pct(40) && e.drain() {
        acts = vec![Act::Close];
        if let Some(a) = e.good_op(0, 40) {
            acts.push(a);
        }
    }
    acts
}

fn accounts(ctx: &mut Ctx, sink: &mut Sink, r: &mut Rng) {
    let Some((mut e, kind, entry)) = market(r, false) else { return };
    let acts = acts_for(&mut e, r);
    // another market of the same program
    let other = {
        let mut c = e.g.cfg.clone();
        c.wid += 1 << 40;
        let mut w = c.world();
        if !w.create(c.min, if r.pct(50) { c.tick } else { r.range(1, 1 << 20) }).ok() {
            return;
        }
        vec![w.market.clone(), w.eq.clone(), w.bids.clone(), w.asks.clone()]
    };
    let pid = e.w.program_id;
    let base = vec![e.w.market.clone(), e.w.eq.clone(), e.w.bids.clone(), e.w.asks.clone()];
    let sig0 = state_sig(&e.st);
    let mut log: Vec<String> = vec![];
    for act in &acts {
        let data = e.w.build_or_empty(act, entry);
        let run = |set: &mut [Acct]| {
            let (mut t, mut g) = (e.w.target.clone(), e.w.register.clone());
            call(kind, entry, &pid, act, set, &mut t, &mut g, &data, 9)
        };
        if !run(&mut base.clone()).ok() {
            sink.count("control_failed");
            continue;
        }
        sink.count("control_succeeded");
        let n = n_given(act);
        for it in 0..40u64 {
            let mut s = base.clone();
            let mut what = String::new();
            let mut class = 0;
            let times = if it < 30 { 1 } else { r.range(2, 3) };
            for _ in 0..times {
                let role = r.usize(n);
                let d = r.below(6);
                class = class * 32 + role as u64 * 6 + d + 1;
                match d {
                    0 => {
                        s[role].owner = match r.below(3) {
                            0 => solana_program::system_program::id(),
                            1 => flip(r, &pid),
                            _ => key_of(ctx.k, 0xF0F0),
                        };
                        what += &format!("{} owned by another program; ", ROLE[role]);
                    }
                    1 => {
                        if role == 0 {
                            continue;
                        }
                        s[role].key = if r.pct(50) { flip(r, &base[role].key) } else { key_of(ctx.k, 0xABC + role as u64) };
                        what += &format!("{} at another address; ", ROLE[role]);
                    }
                    2 => {
                        s[role] = other[role].clone();
                        what += &format!("{} of another market; ", ROLE[role]);
                    }
                    3 => {
                        let t = match r.below(3) {
                            0 => *r.pick(&TAG),
                            1 => *r.pick(&[0, 132, 255]),
                            _ => TAG[role] ^ (1 << r.below(8)),
                        };
                        s[role].data.m()[0] = t;
                        what += &format!("{} tagged {}; ", ROLE[role], t);
                    }
                    4 => {
                        // the right kind of account of this market, in the wrong place: both its key and its tag are wrong
                        let from = r.usize(4);
                        if role == 0 || from == role || from == 0 || s[from].data.s().len() < 64 + 2 * kind.size() {
                            continue;
                        }
                        s[role] = base[from].clone();
                        what += &format!("{} in the place of {}; ", ROLE[from], ROLE[role]);
                    }
                    _ => {
                        s[role].data.m().fill(0);
                        what += &format!("{} never initialised; ", ROLE[role]);
                    }
                }
            }
            let v = broken(act, &s, &pid);
            // a market without a tick size does not exist
            let m = s[0].data.s();
            if m.len() == MARKET_LEN && m[0] == TAG[0] && m[112..120] == [0; 8] {
                continue;
            }
            // closing a market looks at the owner of the market account only
            if v.is_empty() || (matches!(act, Act::Close) && v.iter().all(|e| matches!(e, ProgramError::Custom(13..=15)))) {
                continue;
            }
            let o = run(&mut s);
            sink.eval(31, Some(mix(mix(sig0, class), act_no(act) * 2 + entry as u64)));
            sink.count(if v.len() == 1 { "one_account_rule_broken" } else { "several_account_rules_broken" });
            sink.count(["accounts_new", "accounts_cancel", "accounts_mass", "accounts_consume", "accounts_close"][act_no(act) as usize]);
            if log.len() < 10 && it % 7 == 0 {
                log.push(format!("{} with {} -> {}", name(act), what, o.short()));
            }
            let good = match &o {
                Outcome::Ok(_) => continue, // C17's business
                Outcome::Err(e) => v.contains(e),
                Outcome::Panic(_) => false,
            };
            if !good {
                sink.hit(31, format!("{} with {}: {} reported, rules broken {:?}", name(act), what, o.short(), v));
                return;
            }
        }
    }
    // a market that is not drained
    for _ in 0..6 {
        if !e.advance() {
            break;
        }
        let left = e.st.bids.orders.len() + e.st.asks.orders.len() + e.st.queue().len();
        if left == 0 {
            continue;
        }
        let o = e.w.clone().raw_exec(&Act::Close);
        sink.eval(31, Some(mix(state_sig(&e.st), 77)));
        sink.count("closes_of_active_markets");
        match &o {
            Outcome::Ok(_) => {} // C19's business
            o if o.custom(E_ACTIVE) => {}
            o => {
                sink.hit(31, format!("closing a market with {} bids, {} asks and {} events: {} reported", e.st.bids.orders.len(), e.st.asks.orders.len(), e.st.queue().len(), o.short()));
                return;
            }
        }
    }
    if ctx.want_sample {
        ctx.sample = Some(format!("market kind {:?} entry {}: {}", kind, entry, log.join(" | ")));
    }
}

fn act_no(a: &Act) -> u64 {
    match a {
        Act::New(_) => 0,
        Act::Cancel(_) => 1,
        Act::Mass(_) => 2,
        Act::Consume(_) => 3,
        Act::Close => 4,
    }
}

/// Instruction data that does not decode, and account lists that are too short.
fn data(ctx: &mut Ctx, sink: &mut Sink, r: &mut Rng) {
    let Some((mut e, kind, entry)) = market(r, true) else { return };
    let acts = acts_for(&mut e, r);
    let pid = e.w.program_id;
    let base = vec![e.w.market.clone(), e.w.eq.clone(), e.w.bids.clone(), e.w.asks.clone()];
    let mut log: Vec<String> = vec![];
    for act in &acts {
        let good = e.w.build_or_empty(act, entry);
        let full = n_given(act) + matches!(act, Act::Close) as usize;
        let run = |d: &[u8], n: usize| {
            let (mut t, mut g) = (e.w.target.clone(), e.w.register.clone());
            call(kind, entry, &pid, act, &mut base.clone(), &mut t, &mut g, d, n)
        };
        if !run(&good, 9).ok() {
            continue;
        }
        // what the bytes at the end of a new order are: side, limit, callback, two flags, behaviour
        let l = good.len();
        for it in 0..24 {
            let mut d = good.clone();
            let mut bad_data = true;
            let what: String;
            match if matches!(act, Act::Close) { 0 } else { it % 6 } {
                0 => {
                    d[0] = r.range(6, 255) as u8;
                    what = format!("opcode {}", d[0]);
                }
                1 => {
                    let n = if r.pct(10) { 0 } else { 1 + r.usize(l - 1) };
                    d.truncate(n);
                    what = format!("{} of {} bytes", n, l);
                }
                2 => {
                    let n = 1 + r.usize(20);
                    for _ in 0..n {
                        d.push(r.next() as u8);
                    }
                    what = format!("{} bytes too many", n);
                }
                3 if matches!(act, Act::New(_)) => {
                    d[l - 1] = r.range(3, 255) as u8;
                    what = format!("self-trade behaviour {}", d[l - 1]);
                }
                4 if matches!(act, Act::New(_)) => {
                    let i = l - 2 - r.usize(2);
                    d[i] = r.range(2, 255) as u8;
                    what = format!("flag {}", d[i]);
                }
                5 if matches!(act, Act::New(_)) => {
                    d[25] = r.range(2, 255) as u8;
                    what = format!("side {}", d[25]);
                }
                3 if matches!(act, Act::Mass(_)) => {
                    // more ids announced than given
                    let n = u32::from_le_bytes(d[1..5].try_into().unwrap());
                    let m = match r.below(3) {
                        0 => n + 1,
                        1 => u32::MAX,
                        _ => n + r.range(1, 1 << 20) as u32,
                    };
                    d[1..5].copy_from_slice(&m.to_le_bytes());
                    what = format!("{} ids announced, {} given", m, n);
                }
                _ => {
                    bad_data = false;
                    what = "good data".into();
                }
            }
            let n = if !bad_data || r.pct(15) { r.usize(full) } else { 9 };
            let o = run(&d, n);
            let mut v = vec![];
            if bad_data {
                v.push(ProgramError::InvalidInstructionData);
            }
            // a longer list may be needed by no instruction when the opcode is unknown
            if n < full {
                v.push(ProgramError::NotEnoughAccountKeys);
            }
            sink.eval(31, Some(mix(fnv(&d, 3), n as u64)));
            sink.count(match (bad_data, n < full) {
                (true, false) => "malformed_data",
                (false, true) => "missing_accounts",
                _ => "malformed_data_and_missing_accounts",
            });
            if log.len() < 10 && it % 5 == 0 {
                log.push(format!("{} with {} and {} of {} accounts -> {}", name(act), what, n.min(full), full, o.short()));
            }
            match &o {
                Outcome::Ok(_) => sink.hit(31, format!("{} with {} and {} of {} accounts succeeded", name(act), what, n.min(full), full)),
                Outcome::Err(e) if v.contains(e) => continue,
                o => sink.hit(31, format!("{} with {} and {} of {} accounts: {} reported, rules broken {:?}", name(act), what, n.min(full), full, o.short(), v)),
            }
            return;
        }
    }
    if ctx.want_sample {
        ctx.sample = Some(log.join(" | "));
    }
}

/// Creations with one rule broken.
fn creation(ctx: &mut Ctx, sink: &mut Sink, r: &mut Rng) {
    let mut log: Vec<String> = vec![];
    for _ in 0..12 {
        let kind = if r.pct(40) { Kind::E32 } else { *r.pick(&KINDS) };
        let entry = kind == Kind::E32 && r.pct(60);
        let c = kind.size();
        let (mut ql, mut bl, mut al) = (queue_size(kind, r.range(5, 30) as usize), slab_size(kind, r.range(1, 20) as usize), slab_size(kind, r.range(1, 20) as usize));
        let (mut min, mut tick) = (r.edgy().max(1), r.edgy().max(1));
        let defect = r.below(9);
        // a side size that leaves a fraction of a callback info: none for 1-byte infos
        let side = 2 + r.usize(2);
        let mut want: ProgramError = ProgramError::InvalidAccountData;
        match defect {
            0 => ql = queue_size(kind, r.range(1, 4) as usize),
            1 => ql += 1 + r.usize(39 + 2 * c),
            2 => {
                let l = if r.pct(50) || c < 2 { r.usize(64 + c) } else { slab_size(kind, 3) + 1 + r.usize(c - 1) };
                *(if side == 2 { &mut bl } else { &mut al }) = l;
            }
            _ => {}
        }
        let wid = r.next() >> 8;
        let mut w = World::new(kind, entry, wid, ql, bl, al, r.below(16) as u8);
        let pid = w.program_id;
        let what = match defect {
            0 | 1 => format!("a queue of {} bytes", ql),
            2 => format!("a {} account of {} bytes", ROLE[side], if side == 2 { bl } else { al }),
            3 => {
                if r.pct(50) {
                    min = 0;
                } else {
                    tick = 0;
                }
                want = ProgramError::InvalidArgument;
                format!("minimum {} tick {}", min, tick)
            }
            4 => {
                let i = r.usize(4);
                let a = [&mut w.market, &mut w.eq, &mut w.bids, &mut w.asks];
                let a = a.into_iter().nth(i).unwrap();
                let short = match r.below(4) {
                    0 => a.lamports,
                    1 => 1,
                    2 => a.lamports - 1,
                    _ => 1 + r.below(a.lamports),
                };
                a.lamports -= short;
                want = ProgramError::AccountNotRentExempt;
                format!("{} {} lamports short", ROLE[i], short)
            }
            5 => {
                let i = 1 + r.usize(3);
                let f = flip(r, &pid);
                let a = [&mut w.market, &mut w.eq, &mut w.bids, &mut w.asks];
                a.into_iter().nth(i).unwrap().owner = f;
                want = custom(E_OWNER[i]);
                format!("{} owned by another program", ROLE[i])
            }
            6 => {
                let t = match r.below(3) {
                    0 => *r.pick(&TAG),
                    1 => 132,
                    _ => 1 << r.below(8),
                };
                let i = r.usize(2);
                (if i == 0 { &mut w.market } else { &mut w.eq }).data.m()[0] = t;
                want = custom(E_TAG);
                format!("{} tagged {}", ROLE[i], t)
            }
            7 => {
                let t = match r.below(3) {
                    0 => *r.pick(&TAG),
                    1 => 132,
                    _ => 1 << r.below(8),
                };
                (if side == 2 { &mut w.bids } else { &mut w.asks }).data.m()[0] = t;
                want = ProgramError::AccountAlreadyInitialized;
                format!("{} tagged {}", ROLE[side], t)
            }
            _ => {
                let l = match r.below(4) {
                    0 => MARKET_LEN - 8,
                    1 => MARKET_LEN + 8,
                    2 => MARKET_LEN * 2,
                    _ => MARKET_LEN + 1 + r.usize(200),
                };
                w.market = Acct::new(w.market.key, pid, rent(l), l, 0);
                format!("a market account of {} bytes", l)
            }
        };
        let o = w.create(min, tick);
        sink.eval(31, Some(mix(fnv(what.as_bytes(), 9), kind.size() as u64 * 2 + entry as u64)));
        sink.count("creations_refused");
        if log.len() < 8 {
            log.push(format!("creation with {} -> {}", what, o.short()));
        }
        match &o {
            Outcome::Ok(_) => {} // C18's business
            Outcome::Err(e) if *e == want => {}
            o => {
                sink.hit(31, format!("creation (kind {:?}) with {}: {} reported, expected {:?}", kind, what, o.short(), want));
                return;
            }
        }
    }
    if ctx.want_sample {
        ctx.sample = Some(log.join(" | "));
    }
}
