//! One worker process: runs its share of the cases of one property and reports JSON lines on stdout.
use crate::engine::*;
use crate::gen::*;
use crate::monitor::*;
use crate::rng::mix;
use serde_json::json;
use std::io::Write;
use std::time::{Duration, Instant};

pub struct Args {
    pub prop: u8,
    pub thorough: bool,
    pub seed: u64,
    pub shard: u64,
    pub nshards: u64,
    pub start: u64,
    pub cases: u64,
    pub secs: u64,
    pub hb: String,
    pub sigs: String,
    pub dig: String,
    pub replays: String,
    pub decoy: bool,
}
impl Args {
    pub fn parse(a: &[String]) -> Args {
        let f = |k: &str| a.iter().find_map(|x| x.strip_prefix(k)).map(|s| s.to_string());
        let n = |k: &str, d: u64| f(k).and_then(|s| s.parse().ok()).unwrap_or(d);
        Args {
            prop: n("prop=", 0) as u8,
            thorough: f("tier=").as_deref() == Some("thorough"),
            seed: n("seed=", 1),
            shard: n("shard=", 0),
            nshards: n("nshards=", 1),
            start: n("start=", 0),
            cases: n("cases=", 100),
            secs: n("secs=", 60),
            hb: f("hb=").unwrap_or_default(),
            sigs: f("sigs=").unwrap_or_default(),
            dig: f("dig=").unwrap_or_default(),
            replays: f("replays=").unwrap_or_else(|| "/verif/replays".into()),
            decoy: n("decoy=", 0) == 1,
        }
    }
}

/// Cases of the history monitors come in rounds; a round holds this many cases of each profile.
pub fn round_of(prop: u8) -> Vec<Profile> {
    use Profile::*;
    let mut w: Vec<(Profile, usize)> = vec![(Tight, 30), (Extreme, 30), (Large, 1), (Long, 2), (Full, 20), (SelfTrade, 20), (Realistic, 6), (QueueTight, 20), (Churn, 12)];
    let boost: &[(Profile, usize)] = match prop {
        1 => &[(Tight, 60), (Realistic, 20), (Long, 4)],
        2 => &[(Extreme, 120), (Realistic, 10)],
        3 => &[(Extreme, 100), (Tight, 60)],
        4 => &[(Churn, 30), (Long, 6)],
        5 | 6 | 7 => &[(Tight, 80), (Extreme, 60), (SelfTrade, 40)],
        8 => &[(SelfTrade, 160)],
        9 => &[(Long, 10), (Churn, 24)],
        10 => &[(QueueTight, 150), (Long, 4)],
        11 => &[(Full, 60), (SelfTrade, 60), (Tight, 60)],
        12 => &[(Churn, 60), (Large, 2)],
        13 => &[(Churn, 60), (Large, 3)],
        14 => &[(Full, 160), (Churn, 30)],
        15 => &[(Churn, 40), (Large, 2)],
        16 => &[(Churn, 40), (Full, 60)],
        31 => &[(QueueTight, 60), (SelfTrade, 80)],
        30 => &[(Large, 12), (Long, 4)],
        29 => &[(Churn, 20), (Full, 30)],
        _ => &[],
    };
    for (p, n) in boost {
        w.iter_mut().find(|x| x.0 == *p).unwrap().1 = *n;
    }
    // interleave so that every profile is met early
    let total: usize = w.iter().map(|x| x.1).sum();
    let mut out = Vec::with_capacity(total);
    let mut acc: Vec<f64> = w.iter().map(|_| 0.0).collect();
    for _ in 0..total {
        for (a, x) in acc.iter_mut().zip(&w) {
            *a += x.1 as f64;
        }
        let (i, _) = acc.iter().enumerate().fold((0, -1.0), |m, (i, a)| if *a > m.1 { (i, *a) } else { m });
        acc[i] -= total as f64;
        out.push(w[i].0);
    }
    out
}

pub fn gen_for(round: &[Profile], prop: u8, seed: u64, k: u64, thorough: bool) -> Gen {
    let p = if is_huge(prop, k) { Profile::Huge } else { round[(k % round.len() as u64) as usize] };
    Gen::new(p, mix(mix(seed, 0xA0B0 + prop as u64), mix(k, p as u64)), thorough)
}

/// A few cases of every worker run on markets of more than 2^16 orders or events.
pub fn is_huge(prop: u8, k: u64) -> bool {
    match prop {
        // half of the cases are histories; the sanitizer build runs the later ones
        23 => k / 8 % 4000 == 500 || k / 8 % 4000 == 1900,
        24 => k / 3 % 9000 == 500,
        30 => k / 8 % 5 == 0,
        _ => k / 8 % 4000 == 500,
    }
}

/// Which cases of a property are histories under the online monitors.
pub fn is_history(prop: u8, k: u64) -> bool {
    match prop {
        0..=16 | 24 | 29 | 30 => true,
        23 | 31 => k % 2 == 0,
        _ => false,
    }
}

pub struct Ctx {
    pub seed: u64,
    pub k: u64,
    pub thorough: bool,
    /// a written-out account of the case, when asked for
    pub want_sample: bool,
    pub sample: Option<String>,
    /// outcome digest used for comparing builds
    pub digest: u64,
}

/// Run one non-history case.
pub fn bespoke(prop: u8, ctx: &mut Ctx, sink: &mut Sink) {
    match prop {
        17 => c17_(ctx, sink),
        18 => crate::c18::case(ctx, sink),
        19 => crate::c19::case(ctx, sink),
        20 => crate::c20::case(ctx, sink),
        21 => crate::c21::case(ctx, sink),
        22 => crate::c22::case(ctx, sink),
        23 => crate::c23::case(ctx, sink),
        31 => crate::c31::case(ctx, sink),
        _ => panic!("no such property"),
    }
}
fn c17_(ctx: &mut Ctx, sink: &mut Sink) {
    crate::c17::case(ctx, sink)
}

fn emit(v: serde_json::Value) {
    let o = std::io::stdout();
    let mut o = o.lock();
    let _ = writeln!(o, "{}", v);
    let _ = o.flush();
}

pub fn gen_replay(dir: &str, prop: u8, seed: u64, k: u64, thorough: bool, note: &str) -> String {
    std::fs::create_dir_all(dir).ok();
    let s = format!("# property C{:02}: {}\ngen prop={} seed={} case={} tier={}\n", prop, note.replace('\n', " "), prop, seed, k, if thorough { "thorough" } else { "quick" });
    let path = format!("{}/C{:02}-gen-{}-{}.txt", dir, prop, seed, k);
    std::fs::write(&path, s).ok();
    path
}

pub fn work(a: &[String]) -> i32 {
    let a = Args::parse(a);
    if !a.hb.is_empty() {
        let f = std::fs::OpenOptions::new().create(true).write(true).truncate(true).open(&a.hb).expect("heartbeat file");
        let _ = HB_FILE.set(f);
    }
    let t0 = Instant::now();
    let mut sink = Sink::new(a.prop);
    let round = round_of(a.prop);
    let mut k = a.start + (a.shard + a.nshards - a.start % a.nshards) % a.nshards;
    let mut ran = 0u64;
    let mut capped = false;
    let mut nsamples = 0;
    let mut setup_failed: Option<String> = None;
    let mut digs: Vec<u8> = vec![];
    while k < a.cases {
        if t0.elapsed() > Duration::from_secs(a.secs) {
            capped = true;
            break;
        }
        ran += 1;
        let want_sample = a.shard == 0 && a.start == 0 && nsamples < 3 && (ran == 1 || ran % 37 == 0);
        if is_history(a.prop, k) {
            let mut g = gen_for(&round, a.prop, a.seed, k, a.thorough);
            let mut cfg = g.cfg.clone();
            if a.prop == 24 && a.decoy {
                cfg.align ^= 0xF;
            }
            let o = Opts {
                digests: !a.dig.is_empty(),
                trace: want_sample,
                decoy: if a.decoy { Some(mix(a.seed, k)) } else { None },
                api_every: if g.profile == Profile::Huge || (g.profile == Profile::Large && !a.thorough) { 7 } else { 1 },
                ..Default::default()
            };
            let r = run_case(&cfg, Src::Gen(&mut g), &mut sink, k, &o);
            if want_sample {
                nsamples += 1;
                let n = r.trace.len();
                let mut lines: Vec<String> = r.trace.iter().take(14).cloned().collect();
                if n > 14 {
                    lines.push(format!("... {} more lines", n - 14));
                }
                emit(json!({"t": "sample", "v": {"profile": format!("{:?}", g.profile), "market": cfg.to_text(), "history": lines}}));
            }
            if let Some(e) = r.setup_failed {
                setup_failed = Some(format!("{} for {}", e, cfg.to_text()));
            }
            if !a.dig.is_empty() {
                let mut d = 0u64;
                for x in &r.digests {
                    d = mix(d, *x);
                }
                digs.extend_from_slice(&k.to_le_bytes());
                digs.extend_from_slice(&d.to_le_bytes());
            }
            if let Some((p, step, m)) = r.hits.iter().find(|h| a.prop == 0 || h.0 == a.prop) {
                if g.profile == Profile::Huge || a.prop == 0 {
                    let path = gen_replay(&a.replays, *p, a.seed, k, a.thorough, m);
                    emit(json!({"t": "viol", "replay": path, "msg": m, "case": k, "step": step, "shrunk": true, "prop": p}));
                    break;
                }
                let path = write_replay(&a.replays, *p, &cfg, &r.ops, m);
                emit(json!({"t": "viol", "replay": path, "msg": m, "case": k, "step": step}));
                heartbeat(u64::MAX - 2, 0, 0);
                let (c2, ops2) = shrink(&cfg, &r.ops, *p, Duration::from_secs(10));
                if let Some((_, m2)) = violates(&c2, &ops2, *p) {
                    let path2 = write_replay(&a.replays, *p, &c2, &ops2, &m2);
                    emit(json!({"t": "viol", "replay": path2, "msg": m2, "case": k, "step": ops2.len() - 1, "shrunk": true}));
                }
                break;
            }
        } else {
            heartbeat(k, 0, 1 << a.prop);
            let mut ctx = Ctx { seed: a.seed, k, thorough: a.thorough, want_sample, sample: None, digest: 0 };
            bespoke(a.prop, &mut ctx, &mut sink);
            if let Some(s) = ctx.sample {
                nsamples += 1;
                emit(json!({"t": "sample", "v": s}));
            }
            if !a.dig.is_empty() {
                digs.extend_from_slice(&k.to_le_bytes());
                digs.extend_from_slice(&ctx.digest.to_le_bytes());
            }
            if let Some((p, m)) = sink.hits.iter().find(|h| h.0 == a.prop) {
                let path = gen_replay(&a.replays, *p, a.seed, k, a.thorough, m);
                emit(json!({"t": "viol", "replay": path, "msg": m, "case": k, "step": 0}));
                break;
            }
        }
        k += a.nshards;
    }
    if !a.sigs.is_empty() {
        let mut b = Vec::with_capacity(sink.distinct.len() * 8);
        for s in &sink.distinct {
            b.extend_from_slice(&s.to_le_bytes());
        }
        let _ = std::fs::write(&a.sigs, b);
    }
    if !a.dig.is_empty() {
        let _ = std::fs::write(&a.dig, digs);
    }
    emit(json!({"t": "done", "cases": ran, "evals": sink.evals, "counts": sink.counts, "capped": capped, "setup_failed": setup_failed, "wall": t0.elapsed().as_secs_f64()}));
    0
}

/// Count distinct signatures over the files of several workers.
pub fn union(files: &[String]) -> i32 {
    let mut v: Vec<u64> = vec![];
    for f in files {
        if let Ok(b) = std::fs::read(f) {
            v.extend(b.chunks_exact(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())));
        }
    }
    v.sort_unstable();
    v.dedup();
    println!("{}", v.len());
    0
}

pub fn replay(path: &str, trace: bool) -> i32 {
    let text = std::fs::read_to_string(path).unwrap_or_default();
    if let Some(l) = text.lines().find(|l| l.starts_with("gen ")) {
        let f = |k: &str| l.split_whitespace().find_map(|x| x.strip_prefix(k)).map(|s| s.to_string());
        let n = |k: &str| f(k).and_then(|s| s.parse::<u64>().ok()).unwrap_or(0);
        let prop = n("prop=") as u8;
        let thorough = f("tier=").as_deref() == Some("thorough");
        let mut sink = Sink::new(prop);
        let k = n("case=");
        if is_history(prop, k) {
            let mut g = gen_for(&round_of(prop), prop, n("seed="), k, thorough);
            let cfg = g.cfg.clone();
            if trace {
                println!("{}", cfg.to_text());
            }
            let r = run_case(&cfg, Src::Gen(&mut g), &mut sink, k, &Opts { trace, ..Default::default() });
            for t in &r.trace {
                println!("{}", t);
            }
        } else {
            let mut ctx = Ctx { seed: n("seed="), k, thorough, want_sample: true, sample: None, digest: 0 };
            bespoke(prop, &mut ctx, &mut sink);
            if let Some(s) = ctx.sample {
                println!("{}", s);
            }
        }
        return match sink.hits.first() {
            Some((p, m)) => {
                println!("violated: C{:02}: {}", p, m);
                1
            }
            None => {
                println!("not reproduced: C{:02}", prop);
                0
            }
        };
    }
    let Some((prop, cfg, ops)) = load_replay(path) else {
        eprintln!("cannot read {}", path);
        return 2;
    };
    let mut s = Sink::new(prop);
    let r = run_case(&cfg, Src::List(&ops), &mut s, u64::MAX, &Opts { trace: true, ..Default::default() });
    println!("{}", cfg.to_text());
    for t in &r.trace {
        println!("{}", t);
    }
    match r.hits.iter().find(|h| h.0 == prop) {
        Some((p, st, m)) => {
            println!("violated at step {}: C{:02}: {}", st, p, m);
            1
        }
        None => {
            println!("not reproduced: C{:02}", prop);
            0
        }
    }
}
