//! Simulated accounts and the two ways of driving the program: its entrypoint (through the crate's
//! own instruction builders) and its library functions.
use crate::cb::{Cbb, Kind};
use asset_agnostic_orderbook::instruction as ix;
use asset_agnostic_orderbook::state::{OrderSummary, SelfTradeBehavior, Side as PSide};
use borsh::BorshDeserialize;
use solana_program::{account_info::AccountInfo, program_error::ProgramError, pubkey::Pubkey};
use std::alloc::{alloc_zeroed, dealloc, Layout};
use std::panic::{catch_unwind, AssertUnwindSafe};

/// Exactly sized heap buffer, 16-aligned plus an optional offset of 8, so that the address sanitizer
/// sees every access beyond its end and 16-byte alignment is never guaranteed. In the sanitizer build wide
/// forbidden zones lie on both sides.
pub struct Buf {
    base: *mut u8,
    layout: Layout,
    off: usize,
    len: usize,
}
#[cfg(aob_asan)]
const ZONE: usize = 16384;
#[cfg(not(aob_asan))]
const ZONE: usize = 0;
#[cfg(aob_asan)]
extern "C" {
    fn __asan_poison_memory_region(p: *const u8, n: usize);
    fn __asan_unpoison_memory_region(p: *const u8, n: usize);
}
unsafe impl Send for Buf {}
impl Buf {
    pub fn new(len: usize, off: usize) -> Buf {
        let off = off + ZONE;
        let layout = Layout::from_size_align((len + off + ZONE).max(1), 16).unwrap();
        let base = unsafe { alloc_zeroed(layout) };
        assert!(!base.is_null());
        #[cfg(aob_asan)]
        unsafe {
            __asan_poison_memory_region(base, off);
            __asan_poison_memory_region(base.add(off + len), ZONE);
        }
        Buf { base, layout, off, len }
    }
    pub fn s(&self) -> &[u8] {
        unsafe { std::slice::from_raw_parts(self.base.add(self.off), self.len) }
    }
    pub fn m(&mut self) -> &mut [u8] {
        unsafe { std::slice::from_raw_parts_mut(self.base.add(self.off), self.len) }
    }
}
impl Drop for Buf {
    fn drop(&mut self) {
        #[cfg(aob_asan)]
        unsafe {
            __asan_unpoison_memory_region(self.base, self.layout.size());
        }
        unsafe { dealloc(self.base, self.layout) }
    }
}
impl Clone for Buf {
    fn clone(&self) -> Buf {
        let mut b = Buf::new(self.len, self.off - ZONE);
        b.m().copy_from_slice(self.s());
        b
    }
}

#[derive(Clone)]
pub struct Acct {
    pub key: Pubkey,
    pub owner: Pubkey,
    pub lamports: u64,
    pub data: Buf,
}
impl Acct {
    pub fn new(key: Pubkey, owner: Pubkey, lamports: u64, len: usize, off: usize) -> Acct {
        Acct { key, owner, lamports, data: Buf::new(len, off) }
    }
    pub fn info(&mut self) -> AccountInfo<'_> {
        let data: &mut [u8] = unsafe { std::slice::from_raw_parts_mut(self.data.base.add(self.data.off), self.data.len) };
        AccountInfo::new(&self.key, false, true, &mut self.lamports, data, &self.owner, false, 0)
    }
}

pub fn key_of(a: u64, b: u64) -> Pubkey {
    let mut k = [0u8; 32];
    let mut x = crate::rng::mix(a, b);
    for c in k.chunks_mut(8) {
        x = crate::rng::mix(x, 17);
        c.copy_from_slice(&x.to_le_bytes());
    }
    Pubkey::new_from_array(k)
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Side {
    Bid,
    Ask,
}
impl Side {
    pub fn opp(self) -> Side {
        match self {
            Side::Bid => Side::Ask,
            Side::Ask => Side::Bid,
        }
    }
    pub fn p(self) -> PSide {
        match self {
            Side::Bid => PSide::Bid,
            Side::Ask => PSide::Ask,
        }
    }
}
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Stb {
    Dec,
    Cancel,
    Abort,
}
impl Stb {
    pub fn p(self) -> SelfTradeBehavior {
        match self {
            Stb::Dec => SelfTradeBehavior::DecrementTake,
            Stb::Cancel => SelfTradeBehavior::CancelProvide,
            Stb::Abort => SelfTradeBehavior::AbortTransaction,
        }
    }
}

#[derive(Clone, Debug, PartialEq)]
pub struct NewP {
    pub side: Side,
    pub price: u64,
    pub base: u64,
    pub quote: u64,
    pub limit: u64,
    pub cb: Cbb,
    pub post_only: bool,
    pub post_allowed: bool,
    pub stb: Stb,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Act {
    New(NewP),
    Cancel(u128),
    Mass(Vec<u128>),
    Consume(u64),
    Close,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub struct Summary {
    pub id: Option<u128>,
    pub base: u64,
    pub quote: u64,
    pub posted: u64,
}
impl From<OrderSummary> for Summary {
    fn from(o: OrderSummary) -> Self {
        Summary { id: o.posted_order_id, base: o.total_base_qty, quote: o.total_quote_qty, posted: o.total_base_qty_posted }
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Outcome {
    Ok(Option<Summary>),
    Err(ProgramError),
    Panic(String),
}
impl Outcome {
    pub fn ok(&self) -> bool {
        matches!(self, Outcome::Ok(_))
    }
    pub fn custom(&self, c: u32) -> bool {
        *self == Outcome::Err(ProgramError::Custom(c))
    }
    pub fn short(&self) -> String {
        match self {
            Outcome::Ok(None) => "ok".into(),
            Outcome::Ok(Some(s)) => match s.id {
                Some(id) => format!("ok(posted {:x} qty {}, base {}, quote {})", id, s.posted, s.base, s.quote),
                None => format!("ok(not posted, base {}, quote {})", s.base, s.quote),
            },
            Outcome::Err(e) => format!("err({:?})", e),
            Outcome::Panic(m) => format!("panic({})", m),
        }
    }
    /// class used to compare builds: a panic is a panic whatever its text
    pub fn digest(&self) -> u64 {
        let s = match self {
            Outcome::Panic(_) => "panic".to_string(),
            o => format!("{:?}", o),
        };
        fnv(s.as_bytes(), 1)
    }
}

pub fn fnv(b: &[u8], seed: u64) -> u64 {
    let mut h = seed ^ 0xcbf2_9ce4_8422_2325;
    let mut it = b.chunks_exact(8);
    for c in &mut it {
        h = (h ^ u64::from_le_bytes(c.try_into().unwrap())).wrapping_mul(0x0000_0100_0000_01B3).rotate_left(23);
        h = h.wrapping_mul(0x9E37_79B9_7F4A_7C15);
    }
    for x in it.remainder() {
        h = (h ^ *x as u64).wrapping_mul(0x0000_0100_0000_01B3).rotate_left(9);
    }
    h ^ (h >> 31)
}

pub const E_WRONG_BIDS: u32 = 1;
pub const E_EQ_FULL: u32 = 5;
pub const E_NOT_FOUND: u32 = 6;
pub const E_SELF_TRADE: u32 = 7;
pub const E_OUT_OF_SPACE: u32 = 8;
pub const E_ACTIVE: u32 = 11;
pub const E_LIMIT_PRICE: u32 = 21;

pub const MARKET_LEN: usize = 8 + 32 * 3 + 16;

pub fn slab_size(kind: Kind, n: usize) -> usize {
    40 + 24 + kind.size() + (n - 1) * (24 + 32 + kind.size())
}
pub fn queue_size(kind: Kind, n: usize) -> usize {
    32 + n * (40 + 2 * kind.size())
}
pub fn rent(len: usize) -> u64 {
    solana_program::rent::Rent::default().minimum_balance(len)
}

/// One market: its four accounts and the register account the test entrypoint wants.
#[derive(Clone)]
pub struct World {
    pub kind: Kind,
    /// drive through the entrypoint and the instruction builders (kind E32 only)
    pub entry: bool,
    pub program_id: Pubkey,
    pub market: Acct,
    pub eq: Acct,
    pub bids: Acct,
    pub asks: Acct,
    pub register: Acct,
    pub target: Acct,
    pub last_panic: Option<String>,
}

thread_local! {
    static PANIC_MSG: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
    pub static REG: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}

struct Stubs;
impl solana_program::program_stubs::SyscallStubs for Stubs {
    fn sol_log(&self, _m: &str) {}
    fn sol_get_rent_sysvar(&self, var: *mut u8) -> u64 {
        unsafe { *(var as *mut solana_program::rent::Rent) = solana_program::rent::Rent::default() };
        0
    }
}

pub fn init_env() {
    solana_program::program_stubs::set_syscall_stubs(Box::new(Stubs));
    let default = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |i| {
        if REG.with(|r| r.get()) {
            let m = if let Some(s) = i.payload().downcast_ref::<&str>() {
                s.to_string()
            } else if let Some(s) = i.payload().downcast_ref::<String>() {
                s.clone()
            } else {
                "?".into()
            };
            let l = i.location().map(|l| format!("{}:{}", l.file().rsplit('/').next().unwrap_or(""), l.line())).unwrap_or_default();
            PANIC_MSG.with(|p| *p.borrow_mut() = format!("{} at {}", m, l));
        } else {
            default(i)
        }
    }));
}

/// Run `f`, turning a panic into Outcome::Panic.
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    REG.with(|r| r.set(true));
    let r = catch_unwind(AssertUnwindSafe(f));
    REG.with(|r| r.set(false));
    r.map_err(|_| PANIC_MSG.with(|p| p.borrow().clone()))
}

pub fn outcome(r: Result<Result<Option<Summary>, ProgramError>, String>) -> Outcome {
    match r {
        Err(m) => Outcome::Panic(m),
        Ok(Err(e)) => Outcome::Err(e),
        Ok(Ok(s)) => Outcome::Ok(s),
    }
}

pub fn cast_cb<C: bytemuck::Pod>(c: &Cbb) -> C {
    bytemuck::pod_read_unaligned(c.get())
}

pub fn new_params<C: bytemuck::Pod>(p: &NewP) -> ix::new_order::Params<C> {
    ix::new_order::Params {
        max_base_qty: p.base,
        max_quote_qty: p.quote,
        limit_price: p.price,
        side: p.side.p(),
        match_limit: p.limit,
        callback_info: cast_cb(&p.cb),
        post_only: p.post_only,
        post_allowed: p.post_allowed,
        self_trade_behavior: p.stb.p(),
    }
}

/// The builder wants a callback type with a borsh size: a public key has the same encoding as [u8; 32].
pub fn new_params_key(p: &NewP) -> ix::new_order::Params<Pubkey> {
    ix::new_order::Params {
        max_base_qty: p.base,
        max_quote_qty: p.quote,
        limit_price: p.price,
        side: p.side.p(),
        match_limit: p.limit,
        callback_info: Pubkey::new_from_array(p.cb.get().try_into().unwrap()),
        post_only: p.post_only,
        post_allowed: p.post_allowed,
        self_trade_behavior: p.stb.p(),
    }
}

/// Call the library function for `act` on explicit account infos [market, eq, bids, asks, target].
pub fn lib_call(kind: Kind, pid: &Pubkey, a: &[AccountInfo], act: &Act) -> Outcome {
    outcome(guarded(|| {
        with_cb!(kind, C, {
            match act {
                Act::New(p) => ix::new_order::process::<C>(
                    pid,
                    ix::new_order::Accounts { market: &a[0], event_queue: &a[1], bids: &a[2], asks: &a[3] },
                    new_params::<C>(p),
                )
                .map(|s| Some(s.into())),
                Act::Cancel(id) => ix::cancel_order::process::<C>(
                    pid,
                    ix::cancel_order::Accounts { market: &a[0], event_queue: &a[1], bids: &a[2], asks: &a[3] },
                    ix::cancel_order::Params { order_id: *id },
                )
                .map(|s| Some(s.into())),
                Act::Mass(ids) => ix::mass_cancel_orders::process::<C>(
                    pid,
                    ix::mass_cancel_orders::Accounts { market: &a[0], event_queue: &a[1], bids: &a[2], asks: &a[3] },
                    ix::mass_cancel_orders::Params { order_ids: ids.clone() },
                )
                .map(|s| Some(s.into())),
                Act::Consume(n) => ix::consume_events::process::<C>(
                    pid,
                    ix::consume_events::Accounts { market: &a[0], event_queue: &a[1] },
                    ix::consume_events::Params { number_of_entries_to_consume: *n },
                )
                .map(|_| None),
                Act::Close => ix::close_market::process::<C>(
                    pid,
                    ix::close_market::Accounts { market: &a[0], event_queue: &a[1], bids: &a[2], asks: &a[3], lamports_target_account: &a[4] },
                    ix::close_market::Params {},
                )
                .map(|_| None),
            }
        })
    }))
}

pub fn lib_create(kind: Kind, pid: &Pubkey, a: &[AccountInfo], min: u64, tick: u64) -> Outcome {
    outcome(guarded(|| {
        with_cb!(kind, C, {
            ix::create_market::process::<C>(
                pid,
                ix::create_market::Accounts { market: &a[0], event_queue: &a[1], bids: &a[2], asks: &a[3] },
                ix::create_market::Params { min_base_order_size: min, tick_size: tick },
            )
            .map(|_| None)
        })
    }))
}

impl World {
    pub fn new(kind: Kind, entry: bool, wid: u64, eq_len: usize, bids_len: usize, asks_len: usize, align: u8) -> World {
        let program_id = if entry || wid % 2 == 0 { asset_agnostic_orderbook::id() } else { key_of(wid & 0xffff_ffff, 1000) };
        let o = |i: u8| if align >> i & 1 == 1 { 8 } else { 0 };
        let mk = |i: u64, len: usize, off: usize| Acct::new(key_of(wid, i), program_id, rent(len), len, off);
        World {
            kind,
            entry,
            program_id,
            market: mk(1, MARKET_LEN, o(0)),
            eq: mk(2, eq_len, o(1)),
            bids: mk(3, bids_len, o(2)),
            asks: mk(4, asks_len, o(3)),
            register: mk(5, 42, 0),
            target: Acct::new(key_of(wid, 6), solana_program::system_program::id(), 7, 0, 0),
            last_panic: None,
        }
    }

    pub fn create(&mut self, min: u64, tick: u64) -> Outcome {
        if self.entry {
            let i = ix::create_market(
                ix::create_market::Accounts { market: &self.market.key, event_queue: &self.eq.key, bids: &self.bids.key, asks: &self.asks.key },
                self.register.key,
                ix::create_market::Params { min_base_order_size: min, tick_size: tick },
            );
            self.run_ix(&i)
        } else {
            let kind = self.kind;
            let pid = self.program_id;
            let a = [self.market.info(), self.eq.info(), self.bids.info(), self.asks.info()];
            lib_create(kind, &pid, &a, min, tick)
        }
    }

    pub fn build_ix(&self, act: &Act) -> solana_program::instruction::Instruction {
        let (m, e, b, s, r) = (self.market.key, self.eq.key, self.bids.key, self.asks.key, self.register.key);
        match act {
            Act::New(p) => ix::new_order::<Pubkey>(ix::new_order::Accounts { market: &m, event_queue: &e, bids: &b, asks: &s }, r, new_params_key(p)),
            Act::Cancel(id) => ix::cancel_order(ix::cancel_order::Accounts { market: &m, event_queue: &e, bids: &b, asks: &s }, r, ix::cancel_order::Params { order_id: *id }),
            Act::Mass(ids) => ix::mass_cancel_orders(
                ix::mass_cancel_orders::Accounts { market: &m, event_queue: &e, bids: &b, asks: &s },
                r,
                ix::mass_cancel_orders::Params { order_ids: ids.clone() },
            ),
            Act::Consume(n) => ix::consume_events(ix::consume_events::Accounts { market: &m, event_queue: &e }, r, ix::consume_events::Params { number_of_entries_to_consume: *n }),
            Act::Close => ix::close_market(
                ix::close_market::Accounts { market: &m, event_queue: &e, bids: &b, asks: &s, lamports_target_account: &self.target.key },
                r,
                ix::close_market::Params {},
            ),
        }
    }

    /// Execute a built instruction as the runtime would: accounts looked up by key, in the order of the metas.
    pub fn run_ix(&mut self, i: &solana_program::instruction::Instruction) -> Outcome {
        self.register.data.m().fill(0xEE);
        let pid = self.program_id;
        let res = {
            let infos = [self.market.info(), self.eq.info(), self.bids.info(), self.asks.info(), self.register.info(), self.target.info()];
            let mut list = Vec::with_capacity(i.accounts.len());
            for m in &i.accounts {
                if let Some(x) = infos.iter().find(|x| *x.key == m.pubkey) {
                    list.push(x.clone());
                }
            }
            guarded(|| asset_agnostic_orderbook::entrypoint::process_instruction(&pid, &list, &i.data))
        };
        match res {
            Err(m) => Outcome::Panic(m),
            Ok(Err(e)) => Outcome::Err(e),
            Ok(Ok(())) => {
                let mut d: &[u8] = self.register.data.s();
                match Option::<OrderSummary>::deserialize(&mut d) {
                    Ok(s) => Outcome::Ok(s.map(|s| s.into())),
                    Err(_) => Outcome::Panic("register unreadable".into()),
                }
            }
        }
    }

    /// Execute without any rollback.
    pub fn raw_exec(&mut self, act: &Act) -> Outcome {
        if self.entry {
            // A mass cancel is sent with its own opcode whatever the builder does (the builder is C20's business).
            let i = self.build_ix(act);
            self.run_ix(&i)
        } else {
            let kind = self.kind;
            let pid = self.program_id;
            let a = [self.market.info(), self.eq.info(), self.bids.info(), self.asks.info(), self.target.info()];
            lib_call(kind, &pid, &a, act)
        }
    }

    pub fn digest(&self, seed: u64) -> u64 {
        let mut h = seed;
        for a in [&self.market, &self.eq, &self.bids, &self.asks, &self.target] {
            h = fnv(a.data.s(), h).wrapping_add(a.lamports);
        }
        h
    }
}

/// Bytes and balances to restore when an instruction fails, as the runtime does.
pub struct Backup {
    d: [Vec<u8>; 4],
    pub l: [u64; 5],
}
impl Backup {
    pub fn take(w: &World) -> Backup {
        Backup {
            d: [w.market.data.s().to_vec(), w.eq.data.s().to_vec(), w.bids.data.s().to_vec(), w.asks.data.s().to_vec()],
            l: [w.market.lamports, w.eq.lamports, w.bids.lamports, w.asks.lamports, w.target.lamports],
        }
    }
    pub fn update(&mut self, w: &World) {
        for (d, a) in self.d.iter_mut().zip([&w.market, &w.eq, &w.bids, &w.asks]) {
            d.copy_from_slice(a.data.s());
        }
        self.l = [w.market.lamports, w.eq.lamports, w.bids.lamports, w.asks.lamports, w.target.lamports];
    }
    pub fn restore(&self, w: &mut World) {
        for (d, a) in self.d.iter().zip([&mut w.market, &mut w.eq, &mut w.bids, &mut w.asks]) {
            a.data.m().copy_from_slice(d);
        }
        w.market.lamports = self.l[0];
        w.eq.lamports = self.l[1];
        w.bids.lamports = self.l[2];
        w.asks.lamports = self.l[3];
        w.target.lamports = self.l[4];
    }
    /// which of market, queue, bids and asks hold other bytes than before
    pub fn changed(&self, w: &World) -> [bool; 4] {
        [self.d[0] != w.market.data.s(), self.d[1] != w.eq.data.s(), self.d[2] != w.bids.data.s(), self.d[3] != w.asks.data.s()]
    }
    /// true if nothing changed since the backup
    pub fn same(&self, w: &World) -> bool {
        self.d[0] == w.market.data.s() && self.d[1] == w.eq.data.s() && self.d[2] == w.bids.data.s() && self.d[3] == w.asks.data.s()
            && self.l == [w.market.lamports, w.eq.lamports, w.bids.lamports, w.asks.lamports, w.target.lamports]
    }
}
