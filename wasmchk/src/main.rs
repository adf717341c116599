//! C27: the wasm reader, run natively on random order trees in the layout it declares, against a sorted list.
use std::collections::{BTreeMap, HashSet};
use std::io::Write;
use std::os::unix::fs::FileExt;
use std::panic::{catch_unwind, AssertUnwindSafe};

fn mix(a: u64, b: u64) -> u64 {
    let mut z = a.wrapping_mul(0x9E3779B97F4A7C15).wrapping_add(b).wrapping_add(0x9E3779B97F4A7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}
struct Rng(u64);
impl Rng {
    fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        mix(self.0, 1)
    }
    fn below(&mut self, n: u64) -> u64 {
        self.next() % n.max(1)
    }
    fn range(&mut self, a: u64, b: u64) -> u64 {
        a + self.below(b - a + 1)
    }
    fn pct(&mut self, p: u64) -> bool {
        self.below(100) < p
    }
}

const HEADER: usize = 65;

#[derive(Clone)]
struct Tree {
    leaves: BTreeMap<u128, u64>,
    handles: BTreeMap<u128, u32>,
    data: Vec<u8>,
    cb: usize,
    slot: usize,
}

struct Builder<'a> {
    keys: &'a [u128],
    qty: &'a BTreeMap<u128, u64>,
    slots: Vec<u32>,
    data: Vec<u8>,
    cb: usize,
    slot: usize,
    handles: BTreeMap<u128, u32>,
    fill: u64,
}
impl Builder<'_> {
    fn put(&mut self, h: u32, bytes: &[u8]) {
        let o = HEADER + h as usize * self.slot;
        self.data[o..o + bytes.len()].copy_from_slice(bytes);
    }
    /// the critbit tree over keys[lo..hi]
    fn node(&mut self, lo: usize, hi: usize) -> u32 {
        let h = self.slots.pop().unwrap();
        if hi - lo == 1 {
            let k = self.keys[lo];
            let mut b = vec![2u8];
            b.extend_from_slice(&k.to_le_bytes());
            for i in 0..self.cb {
                b.push(mix(self.fill, i as u64 ^ k as u64) as u8);
            }
            b.extend_from_slice(&self.qty[&k].to_le_bytes());
            self.handles.insert(k, h);
            self.put(h, &b);
            return h;
        }
        let (a, z) = (self.keys[lo], self.keys[hi - 1]);
        let p = (a ^ z).leading_zeros();
        let bit = (1u128 << 127) >> p;
        let mid = lo + self.keys[lo..hi].partition_point(|k| k & bit == 0);
        let l = self.node(lo, mid);
        let r = self.node(mid, hi);
        let mut b = vec![1u8];
        b.extend_from_slice(&p.to_le_bytes());
        // the key of an inner node is that of any leaf below it
        let k = if self.fill & 1 == 0 { a } else { z };
        b.extend_from_slice(&k.to_le_bytes());
        b.extend_from_slice(&l.to_le_bytes());
        b.extend_from_slice(&r.to_le_bytes());
        self.put(h, &b);
        h
    }
}

fn make(r: &mut Rng, huge: bool) -> Tree {
    let n = match r.below(12) {
        _ if huge => r.range(30_000, 80_000),
        0 => 0,
        1 => 1,
        2 => 2,
        3 => r.range(60, 300),
        _ => r.range(2, 40),
    } as usize;
    let cb = match r.below(12) {
        0 if !huge => r.range(65, 1100) as usize,
        1 => [127usize, 128, 230, 231, 255, 256, 257][r.below(7) as usize] / if huge { 4 } else { 1 },
        i => [0usize, 1, 7, 8, 32, 40, 64][i as usize % 7],
    };
    let slot = (cb + 25).max(32) + if r.pct(20) { r.below(20) as usize } else { 0 };
    let style = r.below(5);
    let levels = r.range(1, 12);
    let base = match r.below(4) {
        0 => 0,
        1 => r.next() >> r.below(64),
        2 => u64::MAX - levels * 4,
        _ => r.below(1 << 40),
    };
    let ask = r.pct(50);
    let mut leaves = BTreeMap::new();
    let mut level_total: BTreeMap<u64, u64> = BTreeMap::new();
    let mut tries = 0;
    while leaves.len() < n && tries < n * if huge { 2 } else { 20 } + 20 {
        tries += 1;
        let price = match style {
            0 => base.wrapping_add(r.below(levels)),
            1 => base.wrapping_add(r.below(levels) << (r.below(20))),
            2 => r.next(),
            3 => 1u64 << r.below(64),
            _ => base.wrapping_add(r.below(n as u64 * 2)),
        };
        let seq = match r.below(3) {
            0 => r.below(1 << 20),
            1 => leaves.len() as u64,
            _ => r.next(),
        };
        let key = (price as u128) << 64 | (if ask { seq } else { !seq }) as u128;
        let q = match r.below(3) {
            0 => r.below(100),
            1 => r.next() >> r.below(64),
            _ => r.below(1 << 40),
        };
        let t = level_total.entry(price).or_insert(0);
        // a level's total beyond 64 bits has no representation in the reader's answer
        if leaves.contains_key(&key) || t.checked_add(q).is_none() {
            continue;
        }
        *t += q;
        leaves.insert(key, q);
    }
    let n = leaves.len();
    let nodes = (2 * n).saturating_sub(1);
    let spare = r.below(8) as usize;
    let total = nodes + spare;
    let mut slots: Vec<u32> = (0..total as u32).collect();
    for i in (1..slots.len()).rev() {
        let j = r.below(i as u64 + 1) as usize;
        slots.swap(i, j);
    }
    let mut data = vec![0u8; HEADER + total * slot];
    // what lies in unused slots must not matter: free-list nodes or remains of leaves
    for (i, b) in data[HEADER..].iter_mut().enumerate() {
        *b = mix(n as u64, i as u64) as u8;
    }
    for s in 0..total {
        data[HEADER + s * slot] = [0u8, 2, 3, 4][r.below(4) as usize];
    }
    let keys: Vec<u128> = leaves.keys().copied().collect();
    let mut b = Builder { keys: &keys, qty: &leaves, slots, data, cb, slot, handles: BTreeMap::new(), fill: r.next() };
    let root = if n > 0 { b.node(0, n) } else { r.below(total as u64 + 1) as u32 };
    let (mut data, handles) = (b.data, b.handles);
    let mut h = vec![if ask { 4u8 } else { 3 }];
    h.extend_from_slice(&(total as u64).to_le_bytes());
    h.extend_from_slice(&(spare as u64).to_le_bytes());
    h.extend_from_slice(&(r.below(total as u64 + 1) as u32).to_le_bytes());
    h.extend_from_slice(&root.to_le_bytes());
    h.extend_from_slice(&(n as u64).to_le_bytes());
    for _ in 0..32 {
        h.push(r.next() as u8);
    }
    assert_eq!(h.len(), HEADER);
    data[..HEADER].copy_from_slice(&h);
    Tree { leaves, handles, data, cb, slot }
}

struct Out {
    evals: u64,
    distinct: HashSet<u64>,
    counts: BTreeMap<&'static str, u64>,
}

fn call<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|e| {
        let m = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
        format!("panicked: {}", m)
    })
}

fn price(k: u128) -> u64 {
    (k >> 64) as u64
}

fn case(seed: u64, k: u64, o: &mut Out, sample: &mut Option<String>) -> Result<(), String> {
    let mut r = Rng(mix(mix(seed, 0x27), k));
    let t = make(&mut r, k % 30_001 == 7_777);
    let n = t.leaves.len();
    if t.handles.values().any(|h| *h > 0xffff) {
        *o.counts.entry("trees_beyond_16_bits").or_insert(0) += 1;
    }
    if t.cb > 255 {
        *o.counts.entry("long_callback_infos").or_insert(0) += 1;
    }
    // exactly sized heap copy, so that the address sanitizer sees accesses beyond it
    let mut data = t.data.clone().into_boxed_slice();
    let (cb, slot) = (t.cb as u64, t.slot as u64);
    let sig = t.data.iter().fold(0u64, |h, b| mix(h, *b as u64));
    let desc = |m: String| format!("{} ({} orders, callback length {}, slot size {})", m, n, cb, slot);
    for max in [false, true] {
        let name = if max { "find_max" } else { "find_min" };
        let got = call(|| if max { dex_wasm::find_max(&mut data, cb, slot) } else { dex_wasm::find_min(&mut data, cb, slot) }).map_err(|m| desc(format!("{} {}", name, m)))?;
        let want = if max { t.leaves.keys().next_back() } else { t.leaves.keys().next() };
        match (got, want) {
            (None, None) => {}
            (Some(h), Some(w)) => match t.handles.iter().find(|x| *x.1 == h) {
                Some((key, _)) if key == w => {}
                Some((key, _)) => return Err(desc(format!("{} gives handle {} of order {:032x}, best is {:032x}", name, h, key, w))),
                None => return Err(desc(format!("{} gives handle {}, which is no order", name, h))),
            },
            (g, w) => return Err(desc(format!("{} gives {:?}, best order {:?}", name, g, w))),
        }
        o.evals += 1;
    }
    let mut lv: Vec<(u64, u64)> = vec![];
    for (k, q) in &t.leaves {
        match lv.last_mut() {
            Some(l) if l.0 == price(*k) => l.1 += q,
            _ => lv.push((price(*k), *q)),
        }
    }
    if lv.len() < n {
        *o.counts.entry("trees_with_shared_levels").or_insert(0) += 1;
    }
    let nl = lv.len() as u64;
    let mut depths = vec![0, 1, 2, nl.saturating_sub(1), nl, nl + 1, nl + 1 + r.below(50), r.below(nl + 2)];
    depths.dedup();
    for d in depths {
        for inc in [true, false] {
            let got = call(|| dex_wasm::find_l2_depth(&mut data, cb, slot, d, inc)).map_err(|m| desc(format!("find_l2_depth {}", m)))?;
            let mut want = vec![];
            let it: Box<dyn Iterator<Item = &(u64, u64)>> = if inc { Box::new(lv.iter()) } else { Box::new(lv.iter().rev()) };
            for (p, q) in it.take(d as usize) {
                want.extend([*q, *p]);
            }
            if got != want {
                return Err(desc(format!("find_l2_depth({}, {}) gives {:?}, the orders make {:?}", d, if inc { "increasing" } else { "decreasing" }, &got[..got.len().min(12)], &want[..want.len().min(12)])));
            }
            o.evals += 1;
            if d > 0 && d < nl {
                *o.counts.entry("depth_cut_short").or_insert(0) += 1;
            }
        }
    }
    if data[..] != t.data[..] {
        return Err(desc("a query changed the data".into()));
    }
    if n > 0 {
        o.distinct.insert(sig);
    }
    *o.counts
        .entry(match n {
            0 => "empty_trees",
            1 => "single_order_trees",
            _ => "trees",
        })
        .or_insert(0) += 1;
    if sample.is_none() && n > 2 && n < 6 {
        *sample = Some(format!("orders {:?}, callback length {}, slot size {}, levels {:?}", t.leaves, cb, slot, lv));
    }
    Ok(())
}

fn esc(s: &str) -> String {
    s.replace('\\', "\\\\").replace('"', "\\\"").replace('\n', " ")
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let a: Vec<String> = std::env::args().skip(1).collect();
    let f = |k: &str| a.iter().find_map(|x| x.strip_prefix(k)).map(|s| s.to_string());
    let n = |k: &str, d: u64| f(k).and_then(|s| s.parse().ok()).unwrap_or(d);
    if a.first().map(|s| s.as_str()) == Some("union") {
        let mut v: Vec<u64> = vec![];
        for f in &a[1..] {
            if let Ok(b) = std::fs::read(f) {
                v.extend(b.chunks_exact(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())));
            }
        }
        v.sort_unstable();
        v.dedup();
        println!("{}", v.len());
        return;
    }
    let (seed, shard, nshards, cases) = (n("seed=", 1), n("shard=", 0), n("nshards=", 1), n("cases=", 100));
    let mut o = Out { evals: 0, distinct: HashSet::new(), counts: BTreeMap::new() };
    let mut sample = None;
    if let Some(k) = f("only=") {
        let k = k.parse().unwrap();
        match case(seed, k, &mut o, &mut sample) {
            Ok(()) => println!("not reproduced"),
            Err(m) => {
                println!("violated: {}", m);
                std::process::exit(1);
            }
        }
        return;
    }
    let hb = f("hb=").map(|p| std::fs::File::create(p).unwrap());
    let start = n("start=", 0);
    let mut k = start + (shard + nshards - start % nshards) % nshards;
    let mut ran = 0;
    let t0 = std::time::Instant::now();
    let mut capped = false;
    while k < cases {
        if t0.elapsed().as_secs() > n("secs=", 60) {
            capped = true;
            break;
        }
        ran += 1;
        if let Some(h) = &hb {
            let mut b = [0u8; 24];
            b[..8].copy_from_slice(&k.to_le_bytes());
            b[8] = 1;
            b[16..].copy_from_slice(&(1u64 << 27).to_le_bytes());
            let _ = h.write_at(&b, 0);
        }
        let had = sample.is_some();
        if let Err(m) = case(seed, k, &mut o, &mut sample) {
            let dir = f("replays=").unwrap_or_else(|| "/verif/replays".into());
            std::fs::create_dir_all(&dir).ok();
            let path = format!("{}/C27-{}-{}.txt", dir, seed, k);
            std::fs::write(&path, format!("# property C27: {}\nwasm prop=C27 seed={} case={}\n", m, seed, k)).ok();
            println!("{{\"t\":\"viol\",\"replay\":\"{}\",\"msg\":\"{}\",\"case\":{},\"step\":0,\"shrunk\":true}}", path, esc(&m), k);
            break;
        }
        if let (false, Some(s), 0) = (had, &sample, shard) {
            println!("{{\"t\":\"sample\",\"v\":\"{}\"}}", esc(s));
        }
        k += nshards;
    }
    if let Some(s) = f("sigs=") {
        let mut b = vec![];
        for x in &o.distinct {
            b.extend_from_slice(&x.to_le_bytes());
        }
        std::fs::write(s, b).ok();
    }
    let counts: Vec<String> = o.counts.iter().map(|(k, v)| format!("\"{}\":{}", k, v)).collect();
    println!("{{\"t\":\"done\",\"cases\":{},\"evals\":{},\"counts\":{{{}}},\"capped\":{},\"setup_failed\":null,\"wall\":{}}}", ran, o.evals, counts.join(","), capped, t0.elapsed().as_secs_f64());
    std::io::stdout().flush().ok();
}
