//! C17: every instruction with wrong accounts.
use crate::acct::*;
use crate::cb::{Kind, KINDS};
use crate::engine::*;
use crate::gen::*;
use crate::monitor::Sink;
use crate::op::Op;
use crate::rng::{mix, Rng};
use crate::work::Ctx;
use solana_program::account_info::AccountInfo;
use solana_program::pubkey::Pubkey;

const TAGS: [u8; 6] = [0, 128, 129, 130, 131, 132];
const ROLE: [&str; 4] = ["market", "event queue", "bids", "asks"];

fn ordinal(a: &Act) -> u64 {
    match a {
        Act::New(_) => 0,
        Act::Cancel(_) => 1,
        Act::Mass(_) => 2,
        Act::Consume(_) => 3,
        Act::Close => 4,
    }
}
fn name(a: &Act) -> &'static str {
    ["new order", "cancel", "mass cancel", "consume", "close"][ordinal(a) as usize]
}
/// roles an instruction is given
fn given(a: &Act) -> &'static [usize] {
    match a {
        Act::Consume(_) => &[0, 1],
        _ => &[0, 1, 2, 3],
    }
}
/// roles whose content an instruction reads
fn reads(a: &Act) -> &'static [usize] {
    match a {
        Act::Consume(_) => &[0, 1],
        Act::Cancel(_) | Act::Mass(_) => &[0, 2, 3],
        _ => &[0, 1, 2, 3],
    }
}

fn clone_accts(w: &World) -> Vec<Acct> {
    vec![w.market.clone(), w.eq.clone(), w.bids.clone(), w.asks.clone()]
}

pub struct Call<'a> {
    pub kind: Kind,
    pub entry: bool,
    pub pid: Pubkey,
    pub act: &'a Act,
}

fn exec(c: &Call, set: &mut [Acct], alias: Option<(usize, usize)>, target: &mut Acct, register: &mut Acct, data: &[u8]) -> Outcome {
    let mut infos: Vec<AccountInfo> = set.iter_mut().map(|a| a.info()).collect();
    if let Some((to, from)) = alias {
        infos[to] = infos[from].clone();
    }
    let t = target.info();
    if c.entry {
        let mut list: Vec<AccountInfo> = given(c.act).iter().map(|r| infos[*r].clone()).collect();
        if matches!(c.act, Act::Close) {
            list.push(t);
        }
        list.push(register.info());
        match guarded(|| asset_agnostic_orderbook::entrypoint::process_instruction(&c.pid, &list, data)) {
            Err(m) => Outcome::Panic(m),
            Ok(Err(e)) => Outcome::Err(e),
            Ok(Ok(())) => Outcome::Ok(None),
        }
    } else {
        infos.push(t);
        lib_call(c.kind, &c.pid, &infos, c.act)
    }
}

fn flip_key(r: &mut Rng, k: &Pubkey) -> Pubkey {
    let mut b = k.to_bytes();
    match r.below(5) {
        0 => b[0] ^= 1 << r.below(8),
        1 => b[31] ^= 1 << r.below(8),
        _ => b[r.usize(32)] ^= 1 << r.below(8),
    }
    Pubkey::new_from_array(b)
}

pub fn case(ctx: &mut Ctx, sink: &mut Sink) {
    let mut r = Rng::new(mix(mix(ctx.seed, 0x17), ctx.k));
    let kind = if r.pct(45) { Kind::E32 } else { *r.pick(&KINDS) };
    let entry = kind == Kind::E32 && r.pct(70);
    let prof = *r.pick(&[Profile::Tight, Profile::Full, Profile::SelfTrade]);
    let seed2 = r.next();
    let mk = |seed: u64, wid: Option<u64>| {
        Evolved::with(prof, seed, |c| {
            c.kind = kind;
            c.entry = entry;
            c.extra_a = 0;
            c.extra_b = 0;
            if let Some(w) = wid {
                c.wid = w;
            }
        })
    };
    let Some(mut e) = mk(r.next(), None) else { return };
    // the other market lives under the same program
    let wid2 = e.g.cfg.wid + (1 << 40);
    let Some(mut e2) = mk(seed2, Some(wid2)) else { return };
    for _ in 0..r.range(0, 40) {
        if !e.advance() {
            return;
        }
    }
    for _ in 0..r.range(0, 30) {
        if !e2.advance() {
            return;
        }
    }
    let mut closed = e.w.clone();
    let drained_case = ctx.k % 4 == 3;
    if drained_case {
        if !e.drain() {
            return;
        }
    } else {
        // make sure that something rests and something is queued, as far as the generator gets there
        for _ in 0..60 {
            if !e.st.queue().is_empty() && (!e.st.bids.orders.is_empty() || !e.st.asks.orders.is_empty()) {
                break;
            }
            if !e.advance() {
                return;
            }
        }
    }
    let mut acts: Vec<Act> = vec![];
    if drained_case {
        acts.push(Act::Close);
    }
    for k in 0..4 {
        if let Some(a) = e.good_op(k, 80) {
            acts.push(a);
        }
    }
    if !e2.drain() {
        return;
    }
    // e2 closed: its accounts serve as closed ones; keep an open copy as well
    let open2 = e2.w.clone();
    if !e2.w.raw_exec(&Act::Close).ok() {
        return;
    }
    closed.market = e2.w.market.clone();
    closed.eq = e2.w.eq.clone();
    closed.bids = e2.w.bids.clone();
    closed.asks = e2.w.asks.clone();
    let pid = e.w.program_id;
    let foreign = key_of(ctx.k, 0xF0F0);
    let sig0 = state_sig(&e.st);
    let mut sample: Vec<String> = vec![];
    for act in &acts {
        let data = e.w.build_or_empty(act, entry);
        let c = Call { kind, entry, pid, act };
        // positive control
        {
            let mut set = clone_accts(&e.w);
            let (mut t, mut g) = (e.w.target.clone(), e.w.register.clone());
            let o = exec(&c, &mut set, None, &mut t, &mut g, &data);
            if !o.ok() {
                sink.count("control_failed");
                continue;
            }
            sink.count("control_succeeded");
        }
        let mut tried = 0u64;
        // (description, account set, program id, alias)
        let mut attempt = |what: String, class: u64, mut set: Vec<Acct>, pid2: Pubkey, alias: Option<(usize, usize)>, sink: &mut Sink, sample: &mut Vec<String>| {
            let (mut t, mut g) = (e.w.target.clone(), e.w.register.clone());
            let c2 = Call { kind, entry, pid: pid2, act };
            let o = exec(&c2, &mut set, alias, &mut t, &mut g, &data);
            sink.eval(17, Some(mix(mix(sig0, ordinal(act) * 100_000 + class), entry as u64 + 2 * kind.size() as u64)));
            tried += 1;
            match &o {
                Outcome::Ok(_) => sink.hit(17, format!("{} succeeded with {}", name(act), what)),
                Outcome::Err(_) => sink.count("refused_with_error"),
                Outcome::Panic(_) => sink.count("refused_by_abort"),
            }
            if sample.len() < 12 && tried % 9 == 1 {
                sample.push(format!("{} with {} -> {}", name(act), what, o.short()));
            }
        };
        let roles = given(act);
        let base = clone_accts(&e.w);
        let other = clone_accts(&open2);
        let shut = clone_accts(&closed);
        for &role in roles {
            let rd = reads(act).contains(&role);
            // another market's account of the same role (for the market role: its recorded keys differ)
            let mut s = base.clone();
            s[role] = other[role].clone();
            attempt(format!("{} of another market", ROLE[role]), role as u64 * 100 + 1, s, pid, None, sink, &mut sample);
            let mut s = base.clone();
            s[role] = shut[role].clone();
            attempt(format!("{} of a closed market", ROLE[role]), role as u64 * 100 + 2, s, pid, None, sink, &mut sample);
            // wrong role: any other account of this market
            for from in 0..4 {
                if from != role {
                    let s = base.clone();
                    attempt(format!("the {} account as {} (same account)", ROLE[from], ROLE[role]), role as u64 * 100 + 3 + from as u64, s, pid, Some((role, from)), sink, &mut sample);
                    if role != 0 {
                        let mut s = base.clone();
                        let k = s[role].key;
                        s[role] = base[from].clone();
                        if rd {
                            s[role].key = k;
                            attempt(format!("{} holding a copy of the {}", ROLE[role], ROLE[from]), role as u64 * 100 + 10 + from as u64, s, pid, None, sink, &mut sample);
                        }
                    } else {
                        let mut s = base.clone();
                        s[role].data = base[from].data.clone();
                        attempt(format!("market holding a copy of the {}", ROLE[from]), 10 + from as u64, s, pid, None, sink, &mut sample);
                    }
                }
            }
            // look-alikes: identical contents under another address
            if role != 0 {
                for n in 0..3 {
                    let mut s = base.clone();
                    s[role].key = if n == 0 { key_of(ctx.k, 0xABC + role as u64) } else { flip_key(&mut r, &base[role].key) };
                    attempt(format!("a look-alike {} under another address", ROLE[role]), role as u64 * 100 + 20 + n, s, pid, None, sink, &mut sample);
                }
            }
            // another owner
            let close = matches!(act, Act::Close);
            if role == 0 || !close {
                for n in 0..3 {
                    let mut s = base.clone();
                    s[role].owner = match n {
                        0 => foreign,
                        1 => flip_key(&mut r, &pid),
                        _ => solana_program::system_program::id(),
                    };
                    attempt(format!("{} owned by another program", ROLE[role]), role as u64 * 100 + 30 + n, s, pid, None, sink, &mut sample);
                }
            }
            // type tags
            if rd {
                let cur = base[role].data.s()[0];
                for t in TAGS.iter().copied().chain([1, 2, 3, 4, 5, cur ^ 1, cur ^ 2, cur ^ 4, cur ^ 0x80, 255, r.next() as u8]) {
                    if t == cur {
                        continue;
                    }
                    let mut s = base.clone();
                    s[role].data.m()[0] = t;
                    attempt(format!("{} tagged {}", ROLE[role], t), role as u64 * 100 + 40 + (t as u64 % 16), s, pid, None, sink, &mut sample);
                }
                // uninitialised
                let mut s = base.clone();
                s[role].data.m().fill(0);
                attempt(format!("{} zeroed", ROLE[role]), role as u64 * 100 + 60, s, pid, None, sink, &mut sample);
            }
        }
        // all of them under another program
        attempt("another program id".into(), 500, base.clone(), foreign, None, sink, &mut sample);
        attempt("a program id one bit away".into(), 501, base.clone(), flip_key(&mut r, &pid), None, sink, &mut sample);
        {
            let mut s = base.clone();
            for a in s.iter_mut() {
                a.owner = foreign;
            }
            attempt("all accounts owned by another program".into(), 502, s, pid, None, sink, &mut sample);
        }
        if roles.len() == 4 {
            // sides swapped, with and without swapping addresses
            let mut s = base.clone();
            s.swap(2, 3);
            attempt("sides swapped".into(), 503, s, pid, None, sink, &mut sample);
            let mut s = base.clone();
            s.swap(2, 3);
            let (k2, k3) = (s[3].key, s[2].key);
            s[2].key = k2;
            s[3].key = k3;
            attempt("side contents swapped".into(), 504, s, pid, None, sink, &mut sample);
            // pairs and whole sets from elsewhere
            for _ in 0..10 {
                let mut s = base.clone();
                let n = r.range(1, 3);
                let mut d = String::new();
                let mut cl = 0u64;
                for _ in 0..n {
                    let role = r.usize(4);
                    let src = r.below(3);
                    cl = cl * 16 + role as u64 * 3 + src;
                    match src {
                        0 => s[role] = other[role].clone(),
                        1 => s[role] = shut[role].clone(),
                        _ => {
                            if role == 0 {
                                s[0].owner = foreign;
                            } else {
                                s[role].key = flip_key(&mut r, &base[role].key);
                            }
                        }
                    }
                    d += &format!("{} {}; ", ROLE[role], ["of another market", "of a closed market", "under another address or owner"][src as usize]);
                }
                // a complete other market is legitimate
                if s.iter().zip(&other).all(|(a, b)| a.key == b.key) {
                    continue;
                }
                attempt(d, 1000 + cl, s, pid, None, sink, &mut sample);
            }
            let mut s = other.clone();
            s[0] = base[0].clone();
            attempt("queue and sides of another market".into(), 505, s, pid, None, sink, &mut sample);
            attempt("a whole closed market".into(), 506, shut.clone(), pid, None, sink, &mut sample);
        } else {
            let mut s = other.clone();
            s[0] = base[0].clone();
            attempt("the queue of another market".into(), 507, s, pid, None, sink, &mut sample);
            attempt("a closed market".into(), 508, shut.clone(), pid, None, sink, &mut sample);
        }
        sink.add("substitutions_tried", tried);
        sink.count(["control_new", "control_cancel", "control_mass", "control_consume", "control_close"][ordinal(act) as usize]);
    }
    let _ = Op::Consume(0);
    if ctx.want_sample {
        ctx.sample = Some(format!("market kind {:?} entry {} with {} orders and {} events: {}", kind, entry, e.st.bids.orders.len() + e.st.asks.orders.len(), e.st.queue().len(), sample.join(" | ")));
    }
}

impl World {
    pub fn build_or_empty(&self, act: &Act, entry: bool) -> Vec<u8> {
        if entry {
            self.build_ix(act).data
        } else {
            vec![]
        }
    }
}
