//! C23: arbitrary instruction bytes and account lists against evolved markets.
use crate::acct::*;
use crate::cb::Kind;
use crate::engine::*;
use crate::gen::*;
use crate::layout::State;
use crate::monitor::Sink;
use crate::rng::{mix, Rng};
use crate::work::Ctx;
use solana_program::account_info::AccountInfo;

pub fn case(ctx: &mut Ctx, sink: &mut Sink) {
    let mut r = Rng::new(mix(mix(ctx.seed, 0x23), ctx.k));
    let prof = *r.pick(&[Profile::Tight, Profile::Full, Profile::Extreme, Profile::QueueTight, Profile::Churn]);
    let Some(mut e) = Evolved::with(prof, r.next(), |c| {
        c.kind = Kind::E32;
        c.entry = true;
        c.wid &= !1;
        c.extra_a = 0;
        c.extra_b = 0;
    }) else {
        return;
    };
    for _ in 0..r.range(0, 40) {
        if !e.advance() {
            return;
        }
    }
    let pid = e.w.program_id;
    let mut log = vec![];
    let n = r.range(40, 120);
    for step in 0..n {
        let act = match r.below(8) {
            0 => Act::Close,
            _ => e.g.next(usize::MAX, &e.st, &e.led).resolve(Kind::E32, &e.led),
        };
        let i = e.w.build_ix(&act);
        let mut data = i.data.clone();
        let muts = r.below(4);
        for _ in 0..muts {
            match r.below(9) {
                0 => {
                    let n = r.usize(data.len() + 1);
                    data.truncate(n);
                }
                1 => {
                    let n = r.range(1, 40);
                    for _ in 0..n {
                        data.push(r.next() as u8);
                    }
                }
                2 | 3 => {
                    if !data.is_empty() {
                        let k = r.usize(data.len());
                        data[k] ^= 1 << r.below(8);
                    }
                }
                4 | 5 => {
                    // an extreme 64-bit value somewhere
                    if data.len() > 9 {
                        let k = 1 + r.usize(data.len() - 8);
                        let v = r.edgy();
                        data[k..k + 8].copy_from_slice(&v.to_le_bytes());
                    }
                }
                6 => {
                    if !data.is_empty() {
                        data[0] = r.below(9) as u8;
                    }
                }
                7 => {
                    // a list length
                    if data.len() >= 5 {
                        let v = r.edgy() as u32;
                        data[1..5].copy_from_slice(&v.to_le_bytes());
                    }
                }
                _ => {
                    let n = r.usize(90);
                    data = (0..n).map(|_| r.next() as u8).collect();
                    if n > 0 && r.pct(80) {
                        data[0] = r.below(7) as u8;
                    }
                }
            }
        }
        let before = Backup::take(&e.w);
        let acc_mut = r.below(12);
        let res = {
            let w = &mut e.w;
            let infos = [w.market.info(), w.eq.info(), w.bids.info(), w.asks.info(), w.register.info(), w.target.info()];
            let mut list: Vec<AccountInfo> = vec![];
            for m in &i.accounts {
                if let Some(x) = infos.iter().find(|x| *x.key == m.pubkey) {
                    list.push(x.clone());
                }
            }
            match acc_mut {
                0 => {
                    let n = r.usize(list.len() + 1);
                    list.truncate(n);
                }
                1 => {
                    let a = r.usize(list.len());
                    let b = r.usize(list.len());
                    list.swap(a, b);
                }
                2 => {
                    let a = r.usize(list.len());
                    let b = r.usize(6);
                    list[a] = infos[b].clone();
                }
                3 => {
                    let b = r.usize(6);
                    let at = r.usize(list.len() + 1);
                    list.insert(at, infos[b].clone());
                }
                _ => {}
            }
            heartbeat(ctx.k, step, 1 << 23);
            guarded(|| asset_agnostic_orderbook::entrypoint::process_instruction(&pid, &list, &data))
        };
        let (cls, ok) = match &res {
            Ok(Ok(())) => ("arbitrary_succeeded", true),
            Ok(Err(_)) => ("arbitrary_failed", false),
            Err(_) => ("arbitrary_aborted", false),
        };
        sink.count(cls);
        sink.add("instructions", 1);
        sink.eval(23, Some(mix(state_sig(&e.st), fnv(&data, acc_mut))));
        if log.len() < 6 {
            log.push(format!("{} bytes starting {:02x?}, account change {} -> {}", data.len(), &data[..data.len().min(6)], acc_mut, cls));
        }
        // a list that is not as declared may legitimately pass the register for another account
        ctx.digest = mix(ctx.digest, ok as u64);
        if ok {
            let st = State::read(&e.w);
            let tags = [e.w.market.data.s()[0], e.w.eq.data.s()[0], e.w.bids.data.s()[0], e.w.asks.data.s()[0]];
            ctx.digest = e.w.digest(ctx.digest);
            if tags == [132; 4] {
                // closed: start over from the state before
                before.restore(&mut e.w);
                continue;
            }
            let reg_clash = acc_mut <= 3;
            for (n, s) in [("bids", &st.bids), ("asks", &st.asks)] {
                if let Some(b) = &s.bad {
                    if reg_clash {
                        continue;
                    }
                    sink.hit(23, format!("{} tree malformed after {:02x?}: {}", n, data, b));
                }
            }
            if let Err(m) = &st.q {
                if !reg_clash {
                    sink.hit(23, format!("event queue malformed after {:02x?}: {}", data, m));
                }
            }
            if !sink.hits.is_empty() {
                return;
            }
            if reg_clash || !st.readable() {
                // the register, wherever it was written, is the caller's business
                before.restore(&mut e.w);
                continue;
            }
            e.st = st;
            // orders posted here are unknown to the ledger; the generator falls back to raw ids
        } else {
            before.restore(&mut e.w);
        }
    }
    if ctx.want_sample {
        ctx.sample = Some(log.join(" | "));
    }
}
