//! Operations of a history, their text form (replay files) and resolution to concrete actions.
use crate::acct::{Act, NewP, Side, Stb};
use crate::cb::Kind;
use crate::model::Ledger;

#[derive(Clone, Debug, PartialEq)]
pub enum IdRef {
    /// the order posted by operation `uid` (xor mask)
    Uid(u32, u128),
    Raw(u128),
}

#[derive(Clone, Debug, PartialEq)]
pub struct NewOp {
    pub uid: u32,
    pub side: Side,
    pub price: u64,
    pub base: u64,
    pub quote: u64,
    pub limit: u64,
    pub owner: u32,
    pub nonce: u32,
    pub post_only: bool,
    pub post_allowed: bool,
    pub stb: Stb,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Op {
    New(NewOp),
    Cancel(IdRef),
    Mass(Vec<IdRef>),
    Consume(u64),
}

fn idref_s(r: &IdRef) -> String {
    match r {
        IdRef::Uid(u, 0) => format!("u{}", u),
        IdRef::Uid(u, x) => format!("u{}^{:x}", u, x),
        IdRef::Raw(x) => format!("r{:x}", x),
    }
}
fn idref_p(s: &str) -> Option<IdRef> {
    if let Some(x) = s.strip_prefix('r') {
        return Some(IdRef::Raw(u128::from_str_radix(x, 16).ok()?));
    }
    let s = s.strip_prefix('u')?;
    let mut it = s.split('^');
    let u = it.next()?.parse().ok()?;
    let x = match it.next() {
        None => 0,
        Some(x) => u128::from_str_radix(x, 16).ok()?,
    };
    Some(IdRef::Uid(u, x))
}

impl Op {
    pub fn to_text(&self) -> String {
        match self {
            Op::New(n) => format!(
                "new {} {:?} price={} base={} quote={} limit={} owner={} nonce={} post_only={} post_allowed={} stb={:?}",
                n.uid, n.side, n.price, n.base, n.quote, n.limit, n.owner, n.nonce, n.post_only as u8, n.post_allowed as u8, n.stb
            ),
            Op::Cancel(r) => format!("cancel {}", idref_s(r)),
            Op::Mass(v) => {
                let mut s = "mass".to_string();
                for r in v {
                    s.push(' ');
                    s.push_str(&idref_s(r));
                }
                s
            }
            Op::Consume(n) => format!("consume {}", n),
        }
    }
    pub fn parse(l: &str) -> Option<Op> {
        let t: Vec<&str> = l.split_whitespace().collect();
        match *t.first()? {
            "new" => {
                let f = |k: &str| t.iter().find_map(|x| x.strip_prefix(k)).map(|s| s.to_string());
                Some(Op::New(NewOp {
                    uid: t.get(1)?.parse().ok()?,
                    side: if *t.get(2)? == "Bid" { Side::Bid } else { Side::Ask },
                    price: f("price=")?.parse().ok()?,
                    base: f("base=")?.parse().ok()?,
                    quote: f("quote=")?.parse().ok()?,
                    limit: f("limit=")?.parse().ok()?,
                    owner: f("owner=")?.parse().ok()?,
                    nonce: f("nonce=")?.parse().ok()?,
                    post_only: f("post_only=")? == "1",
                    post_allowed: f("post_allowed=")? == "1",
                    stb: match f("stb=")?.as_str() {
                        "Dec" => Stb::Dec,
                        "Cancel" => Stb::Cancel,
                        _ => Stb::Abort,
                    },
                }))
            }
            "cancel" => Some(Op::Cancel(idref_p(t.get(1)?)?)),
            "mass" => Some(Op::Mass(t[1..].iter().map(|s| idref_p(s)).collect::<Option<Vec<_>>>()?)),
            "consume" => Some(Op::Consume(t.get(1)?.parse().ok()?)),
            _ => None,
        }
    }
    pub fn resolve(&self, kind: Kind, l: &Ledger) -> Act {
        let id = |r: &IdRef| match r {
            IdRef::Raw(x) => *x,
            IdRef::Uid(u, x) => l.by_uid.get(u).copied().unwrap_or((7u128 << 64) | (*u as u128) << 20 | 0xABCDE) ^ *x,
        };
        match self {
            Op::New(n) => Act::New(NewP {
                side: n.side,
                price: n.price,
                base: n.base,
                quote: n.quote,
                limit: n.limit,
                cb: kind.make(n.owner, n.nonce),
                post_only: n.post_only,
                post_allowed: n.post_allowed,
                stb: n.stb,
            }),
            Op::Cancel(r) => Act::Cancel(id(r)),
            Op::Mass(v) => Act::Mass(v.iter().map(id).collect()),
            Op::Consume(n) => Act::Consume(*n),
        }
    }
}
