//! C30: the work of an instruction and of a query is bounded by what it processes, not by the sizes of the book,
//! the queue or the accounts. Work is counted by the compiler's edge instrumentation (the "cov" build).
use crate::acct::*;
use crate::cb::Kind;
use crate::layout::State;
use crate::monitor::*;

#[cfg(aob_cov)]
mod m {
    extern "C" {
        static aob_cov_edges: u64;
    }
    pub fn edges() -> u64 {
        unsafe { std::ptr::read_volatile(&aob_cov_edges) }
    }
    pub struct Counting;
    static BYTES: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
    pub fn bytes() -> u64 {
        BYTES.load(std::sync::atomic::Ordering::Relaxed)
    }
    unsafe impl std::alloc::GlobalAlloc for Counting {
        unsafe fn alloc(&self, l: std::alloc::Layout) -> *mut u8 {
            BYTES.fetch_add(l.size() as u64, std::sync::atomic::Ordering::Relaxed);
            std::alloc::System.alloc(l)
        }
        unsafe fn dealloc(&self, p: *mut u8, l: std::alloc::Layout) {
            std::alloc::System.dealloc(p, l)
        }
        unsafe fn alloc_zeroed(&self, l: std::alloc::Layout) -> *mut u8 {
            BYTES.fetch_add(l.size() as u64, std::sync::atomic::Ordering::Relaxed);
            std::alloc::System.alloc_zeroed(l)
        }
        unsafe fn realloc(&self, p: *mut u8, l: std::alloc::Layout, n: usize) -> *mut u8 {
            BYTES.fetch_add(n as u64, std::sync::atomic::Ordering::Relaxed);
            std::alloc::System.realloc(p, l, n)
        }
    }
    #[global_allocator]
    static A: Counting = Counting;
}
#[cfg(not(aob_cov))]
mod m {
    pub fn edges() -> u64 {
        0
    }
    pub fn bytes() -> u64 {
        0
    }
}

#[derive(Clone, Copy)]
pub struct Work {
    pub edges: u64,
    pub bytes: u64,
}
pub fn start() -> Work {
    let bytes = m::bytes();
    Work { edges: m::edges(), bytes }
}
pub fn since(w: Work) -> Work {
    Work { edges: m::edges() - w.edges, bytes: m::bytes() - w.bytes }
}

/// per unit of work: this many edges at once, and this many more per level of the deeper tree
const EDGES: u64 = 4000;
const EDGES_PER_LEVEL: u64 = 100;
/// heap bytes
const BYTES: u64 = 8192;
/// a line or two in the log for each thing processed is no matter of the market's size
const BYTES_PER_UNIT: u64 = 2048;

/// How many things the instruction had to deal with.
pub fn units(act: &Act, out: &Outcome, pre: &State, post: &State, q_cap: usize) -> u64 {
    match act {
        Act::New(p) => {
            if out.ok() {
                1 + (post.queue().len() as u64).saturating_sub(pre.queue().len() as u64)
            } else {
                // it may have matched before it failed: every match fills the queue by one event at least
                let free = (q_cap - pre.queue().len().min(q_cap)) as u64;
                1 + p.limit.min(free + 1).min(pre.side(p.side.opp()).orders.len() as u64)
            }
        }
        Act::Mass(ids) => 1 + ids.len() as u64,
        Act::Consume(n) => 1 + (*n).min(pre.queue().len() as u64),
        Act::Cancel(_) | Act::Close => 1,
    }
}

pub fn judge(w: Work, units: u64, depth: u64, what: &str, sink: &mut Sink) {
    let per = EDGES + EDGES_PER_LEVEL * depth;
    let lim = per.saturating_mul(units);
    for (i, name) in ["work_up_to_1_64", "work_up_to_1_16", "work_up_to_1_4", "work_up_to_1_1"].iter().enumerate() {
        if w.edges <= lim >> (6 - 2 * i) {
            sink.count(name);
            break;
        }
    }
    let e = sink.counts.entry("most_edges_per_unit").or_insert(0);
    *e = (*e).max(w.edges / units);
    if std::env::var("C30_DEBUG").is_ok() {
        eprintln!("{} units={} depth={} edges={} per-unit={} bytes={} ratio={:.4}", what.split(' ').next().unwrap(), units, depth, w.edges, w.edges / units, w.bytes, w.edges as f64 / lim as f64);
    }
    if w.edges > lim {
        sink.hit(30, format!("{} took {} steps for {} unit(s) of work at depth {} (bound {})", what, w.edges, units, depth, lim));
    }
    if w.bytes > BYTES + BYTES_PER_UNIT.saturating_mul(units) {
        sink.hit(30, format!("{} allocated {} bytes for {} unit(s) of work", what, w.bytes, units));
    }
}

/// One instruction just executed.
#[allow(clippy::too_many_arguments)]
pub fn step(w: Work, act: &Act, out: &Outcome, pre: &State, post: &State, q_cap: usize, sig: u64, sink: &mut Sink) {
    if cfg!(not(aob_cov)) {
        return;
    }
    let depth = pre.bids.depth.max(pre.asks.depth).max(post.bids.depth).max(post.asks.depth) as u64;
    let resting = pre.bids.orders.len().max(pre.asks.orders.len());
    let big = resting > 1 << 14 || pre.queue().len() > 1 << 14;
    sink.eval(30, if big { Some(sig) } else { None });
    if resting > 1 << 14 {
        sink.count("measured_on_books_beyond_2_14");
    }
    if pre.queue().len() > 1 << 14 {
        sink.count("measured_on_queues_beyond_2_14");
    }
    if big {
        sink.count(match act {
            Act::New(_) => "large_new",
            Act::Cancel(_) => "large_cancel",
            Act::Mass(_) => "large_mass",
            Act::Consume(_) => "large_consume",
            Act::Close => "large_close",
        });
    }
    sink.add("edges_counted", w.edges);
    let u = units(act, out, pre, post, q_cap);
    let what = match act {
        Act::New(_) => "new order",
        Act::Cancel(_) => "cancel",
        Act::Mass(_) => "mass cancel",
        Act::Consume(_) => "consume",
        Act::Close => "close",
    };
    judge(w, u, depth, &format!("{} ({}) with {} bids, {} asks and {} events", what, out.short(), pre.bids.orders.len(), pre.asks.orders.len(), pre.queue().len()), sink);
}

/// The market was just created.
pub fn creation(w: Work, m: &World, sink: &mut Sink) {
    if cfg!(not(aob_cov)) {
        return;
    }
    let (q, b, a) = (m.eq.data.s().len(), m.bids.data.s().len(), m.asks.data.s().len());
    if q.max(b).max(a) > 1 << 20 {
        sink.count("large_create");
    }
    judge(w, 1, 0, &format!("creation with accounts of {}, {} and {} bytes", q, b, a), sink);
}

/// The queries that answer about one order, one event or the best prices.
pub fn queries(kind: Kind, w: &mut World, st: &State, probe: u64, sink: &mut Sink) {
    if cfg!(not(aob_cov)) {
        return;
    }
    let depth = st.bids.depth.max(st.asks.depth) as u64;
    let ctx = format!("with {} bids, {} asks and {} events", st.bids.orders.len(), st.asks.orders.len(), st.queue().len());
    let mut got: Vec<(&'static str, Work)> = Vec::with_capacity(32);
    let id = |s: &State, side: Side| {
        let o = &s.side(side).orders;
        if o.is_empty() { probe as u128 } else { o[probe as usize % o.len()].id }
    };
    let (bid, ask) = (id(st, Side::Bid), id(st, Side::Ask));
    let idx = probe % (st.queue().len() as u64 + 2);
    let r = with_cb!(kind, C, {
        let got = &mut got;
        guarded(|| {
            use asset_agnostic_orderbook::state::critbit::Slab;
            use asset_agnostic_orderbook::state::event_queue::EventQueue;
            use asset_agnostic_orderbook::state::orderbook::OrderBookState;
            use asset_agnostic_orderbook::state::{AccountTag, Side as PS};
            use std::hint::black_box as bb;
            macro_rules! time {
                ($n:expr, $e:expr) => {{
                    let s = start();
                    let r = bb($e);
                    got.push(($n, since(s)));
                    r
                }};
            }
            {
                let (b, a) = (w.bids.info(), w.asks.info());
                time!("get_spread", asset_agnostic_orderbook::utils::get_spread::<C>(&b, &a));
            }
            let q = time!("opening the queue", EventQueue::<C>::from_buffer(w.eq.data.m(), AccountTag::EventQueue)).unwrap();
            time!("queue length", (q.len(), q.is_empty()));
            time!("peek", q.peek_at(idx).is_some());
            let bids = time!("opening the bids", Slab::<C>::from_buffer(w.bids.data.m(), AccountTag::Bids)).unwrap();
            let asks = Slab::<C>::from_buffer(w.asks.data.m(), AccountTag::Asks).unwrap();
            let ob = OrderBookState::<C> { bids, asks };
            time!("spread", ob.get_spread());
            time!("best bid", ob.find_bbo(PS::Bid));
            time!("best ask", ob.find_bbo(PS::Ask));
            time!("is_empty", ob.is_empty());
            time!("lookup", ob.bids.find_by_key(bid));
            time!("lookup", ob.asks.find_by_key(ask));
            time!("lookup", ob.asks.find_by_key(bid));
            time!("lookup", ob.bids.find_by_key(ask ^ 1));
            time!("minimum", (ob.bids.find_min(), ob.asks.find_min()));
            time!("maximum", (ob.bids.find_max(), ob.asks.find_max()));
            time!("root", (ob.bids.root(), ob.asks.root()));
        })
    });
    if r.is_ok() {
        sink.add("queries_measured", got.len() as u64);
    }
    for (n, w) in got {
        judge(w, 1, depth, &format!("{} {}", n, ctx), sink);
    }
}
