//! Independent decoders for the published account layouts (raw bytes only).
use crate::cb::{Cbb, Kind};

#[derive(Clone, Copy, PartialEq, Debug)]
pub struct Ord_ {
    pub id: u128,
    pub qty: u64,
    pub h: u32,
    pub cb: Cbb,
}
impl Ord_ {
    pub fn price(&self) -> u64 {
        (self.id >> 64) as u64
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub struct Ev {
    pub fill: bool,
    /// taker side of a fill, side of an out: 0 bid, 1 ask
    pub side: u8,
    pub id: u128,
    pub base: u64,
    pub quote: u64,
    pub cb: Cbb,
    pub taker: Option<Cbb>,
}

fn u32_at(d: &[u8], o: usize) -> u32 {
    u32::from_le_bytes(d[o..o + 4].try_into().unwrap())
}
pub fn u64_at(d: &[u8], o: usize) -> u64 {
    u64::from_le_bytes(d[o..o + 8].try_into().unwrap())
}
fn u128_at(d: &[u8], o: usize) -> u128 {
    u128::from_le_bytes(d[o..o + 16].try_into().unwrap())
}

pub fn slab_capacity(kind: Kind, len: usize) -> usize {
    let leaf = 24 + kind.size();
    (len - 40 - leaf) / (leaf + 32) + 1
}

pub struct SlabDec {
    /// ascending in-order walk
    pub orders: Vec<Ord_>,
    /// None: well formed. Some: what is wrong (orders is still the set reached, when `readable`)
    pub bad: Option<String>,
    pub readable: bool,
    pub depth: usize,
    pub leaf_count: u32,
}

impl SlabDec {
    pub fn find(&self, id: u128) -> Option<Ord_> {
        if self.bad.is_none() {
            self.orders.binary_search_by_key(&id, |o| o.id).ok().map(|i| self.orders[i])
        } else {
            self.orders.iter().find(|o| o.id == id).copied()
        }
    }
}

pub fn decode_slab(kind: Kind, d: &[u8]) -> SlabDec {
    let cbl = kind.size();
    let inner_cap = slab_capacity(kind, d.len()) - 1;
    let leaf_cap = inner_cap + 1;
    let root = u32_at(d, 8 + 24);
    let count = u32_at(d, 8 + 28);
    let leaves = 40;
    let inner = leaves + leaf_cap * 24;
    let cbs = inner + inner_cap * 32;
    let mut out = SlabDec { orders: vec![], bad: None, readable: true, depth: 0, leaf_count: count };
    if count == 0 {
        return out;
    }
    if count as usize > leaf_cap {
        out.bad = Some(format!("leaf count {} exceeds the {} slots", count, leaf_cap));
        out.readable = false;
        return out;
    }
    out.orders.reserve(count as usize);
    // (handle, depth, prefix length, prefix key bits that must match above prefix length)
    let mut stack: Vec<(u32, usize, u32, u128)> = vec![(root, 1, 0, 0)];
    let mut visits = 0usize;
    while let Some((h, depth, plen, pkey)) = stack.pop() {
        visits += 1;
        if visits > 2 * leaf_cap + 2 {
            out.bad = Some("the tree has a cycle or shared nodes".into());
            out.readable = false;
            return out;
        }
        // the first plen bits below this point are fixed to pkey's
        let mask = if plen == 0 { 0 } else { u128::MAX << (128 - plen) };
        if h >> 31 == 1 {
            let i = !h as usize;
            if i >= inner_cap {
                out.bad = Some(format!("inner handle {} out of range", i));
                out.readable = false;
                return out;
            }
            let o = inner + i * 32;
            let key = u128_at(d, o);
            let pl = u64_at(d, o + 16);
            if pl > 127 {
                out.bad.get_or_insert(format!("inner node {} has prefix length {}", i, pl));
                out.readable = false;
                return out;
            }
            let pl = pl as u32;
            if depth > 1 && pl < plen {
                out.bad.get_or_insert(format!("inner node {} at depth {} has prefix length {} above its parent's", i, depth, pl));
            }
            if (key ^ pkey) & mask != 0 {
                out.bad.get_or_insert(format!("inner node {} has a prefix that differs from its path", i));
            }
            let m2 = if pl == 0 { 0 } else { u128::MAX << (128 - pl) };
            let bit = (1u128 << 127) >> pl;
            let (c0, c1) = (u32_at(d, o + 24), u32_at(d, o + 28));
            // child 1 first so that child 0 is popped first (ascending)
            stack.push((c1, depth + 1, pl + 1, (key & m2) | bit));
            stack.push((c0, depth + 1, pl + 1, key & m2));
        } else {
            let i = h as usize;
            if i >= leaf_cap {
                out.bad = Some(format!("leaf handle {} out of range", i));
                out.readable = false;
                return out;
            }
            let o = leaves + i * 24;
            let id = u128_at(d, o);
            if (id ^ pkey) & mask != 0 {
                out.bad.get_or_insert(format!("order {:x} is not on the path its id selects", id));
            }
            out.depth = out.depth.max(depth);
            out.orders.push(Ord_ { id, qty: u64_at(d, o + 16), h, cb: Cbb::from(&d[cbs + i * cbl..cbs + (i + 1) * cbl]) });
        }
    }
    if out.orders.len() != count as usize {
        out.bad.get_or_insert(format!("tree reaches {} orders, header counts {}", out.orders.len(), count));
    }
    if out.orders.windows(2).any(|w| w[0].id >= w[1].id) {
        out.bad.get_or_insert("in-order walk is not ascending".into());
    }
    out
}

/// Depth of the crit-bit tree over a sorted list of distinct ids (its shape is a function of the set).
pub fn canonical_depth(ids: &[u128]) -> usize {
    if ids.is_empty() {
        return 0;
    }
    // iterative split on the highest differing bit
    let mut best = 0;
    let mut st = vec![(0usize, ids.len(), 1usize)];
    while let Some((a, b, d)) = st.pop() {
        if b - a == 1 {
            best = best.max(d);
            continue;
        }
        let x = ids[a] ^ ids[b - 1];
        let bit = (1u128 << 127) >> x.leading_zeros();
        let split = a + ids[a..b].partition_point(|v| v & bit == 0);
        st.push((a, split, d + 1));
        st.push((split, b, d + 1));
    }
    best
}

pub fn queue_capacity(kind: Kind, len: usize) -> usize {
    (len - 32) / (40 + 2 * kind.size())
}
pub fn queue_header(d: &[u8]) -> (u64, u64, u64) {
    (u64_at(d, 8), u64_at(d, 16), u64_at(d, 24))
}

pub fn decode_queue(kind: Kind, d: &[u8]) -> Result<Vec<Ev>, String> {
    let cbl = kind.size();
    let cap = queue_capacity(kind, d.len());
    let (head, count, _) = queue_header(d);
    if count as usize > cap {
        return Err(format!("queue count {} exceeds capacity {}", count, cap));
    }
    let mut v = Vec::with_capacity(count as usize);
    for k in 0..count as usize {
        let i = ((head % cap as u64) as usize + k) % cap;
        v.push(decode_event(kind, d, cap, cbl, i)?);
    }
    Ok(v)
}

fn decode_event(_kind: Kind, d: &[u8], cap: usize, cbl: usize, i: usize) -> Result<Ev, String> {
    let o = 32 + i * 40;
    let c = 32 + cap * 40 + 2 * i * cbl;
    let tag = d[o];
    if tag > 1 {
        return Err(format!("event with tag {}", tag));
    }
    let fill = tag == 0;
    Ok(Ev {
        fill,
        side: d[o + 1],
        id: u128_at(d, o + 16),
        base: u64_at(d, o + 32),
        quote: if fill { u64_at(d, o + 8) } else { 0 },
        cb: Cbb::from(&d[c..c + cbl]),
        taker: if fill { Some(Cbb::from(&d[c + cbl..c + 2 * cbl])) } else { None },
    })
}

pub struct State {
    pub bids: SlabDec,
    pub asks: SlabDec,
    pub q: Result<Vec<Ev>, String>,
}
impl State {
    pub fn read(w: &crate::acct::World) -> State {
        State { bids: decode_slab(w.kind, w.bids.data.s()), asks: decode_slab(w.kind, w.asks.data.s()), q: decode_queue(w.kind, w.eq.data.s()) }
    }
    pub fn side(&self, s: crate::acct::Side) -> &SlabDec {
        match s {
            crate::acct::Side::Bid => &self.bids,
            crate::acct::Side::Ask => &self.asks,
        }
    }
    pub fn readable(&self) -> bool {
        self.bids.readable && self.asks.readable && self.q.is_ok()
    }
    pub fn queue(&self) -> &[Ev] {
        self.q.as_deref().unwrap_or(&[])
    }
}
