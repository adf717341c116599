//! C24 helper: digests after every step of one case, to locate the first difference between builds.
use crate::engine::*;
use crate::monitor::Sink;
use crate::rng::mix;
use crate::work::*;

pub fn stepdigest(a: &[String]) -> i32 {
    let a = Args::parse(a);
    let k = a.start;
    let mut g = gen_for(&round_of(a.prop), a.prop, a.seed, k, a.thorough);
    let mut cfg = g.cfg.clone();
    if a.decoy {
        cfg.align ^= 0xF;
    }
    let mut sink = Sink::new(a.prop);
    let o = Opts { digests: true, trace: true, decoy: if a.decoy { Some(mix(a.seed, k)) } else { None }, ..Default::default() };
    let r = run_case(&cfg, Src::Gen(&mut g), &mut sink, k, &o);
    println!("{}", cfg.to_text());
    let ops: Vec<&String> = r.trace.iter().filter(|l| !l.starts_with("       ")).collect();
    for (d, t) in r.digests.iter().zip(ops) {
        println!("{:016x} {}", d, t);
    }
    0
}
