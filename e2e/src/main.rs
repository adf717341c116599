//! C28: the program executed by the real Solana bank (solana-program-test), transaction by transaction, against the
//! library functions applied to a shadow copy of the accounts.
#![allow(dead_code)]
#[macro_use]
#[path = "../../harness/src/cb.rs"]
mod cb;
#[path = "../../harness/src/acct.rs"]
mod acct;
#[path = "../../harness/src/c29.rs"]
mod c29;
#[path = "../../harness/src/c30.rs"]
mod c30;
#[path = "../../harness/src/engine.rs"]
mod engine;
#[path = "../../harness/src/gen.rs"]
mod gen;
#[path = "../../harness/src/layout.rs"]
mod layout;
#[path = "../../harness/src/model.rs"]
mod model;
#[path = "../../harness/src/monitor.rs"]
mod monitor;
#[path = "../../harness/src/op.rs"]
mod op;
#[path = "../../harness/src/rng.rs"]
mod rng;

use acct::*;
use asset_agnostic_orderbook::instruction as ix;
use asset_agnostic_orderbook::state::OrderSummary;
use borsh::BorshDeserialize;
use cb::{Kind, KINDS};
use gen::*;
use layout::State;
use model::Ledger;
use monitor::{step_sig, Mon, Sink};
use op::*;
use rng::{mix, Rng};
use solana_program_test::{processor, ProgramTest, ProgramTestContext};
use solana_sdk::account::{Account, AccountSharedData};
use solana_sdk::account_info::AccountInfo;
use solana_sdk::compute_budget::ComputeBudgetInstruction;
use solana_sdk::entrypoint::ProgramResult;
use solana_sdk::instruction::Instruction;
use solana_sdk::program_error::ProgramError;
use solana_sdk::program_stubs::{set_syscall_stubs, SyscallStubs};
use solana_sdk::pubkey::Pubkey;
use solana_sdk::signature::Signer;
use solana_sdk::system_instruction;
use solana_sdk::transaction::{Transaction, TransactionError};
use std::cell::Cell;
use std::collections::{BTreeMap, HashMap, HashSet};
use std::io::Write;
use std::sync::Mutex;

const PANICKED: u32 = 0xDEAD_0001;

thread_local! {
    /// set while a library function runs outside the bank
    static DIRECT: Cell<bool> = const { Cell::new(false) };
}

/// Inside the bank the bank's own stubs, outside plain ones.
struct Split(Box<dyn SyscallStubs>);
impl SyscallStubs for Split {
    fn sol_log(&self, m: &str) {
        if !DIRECT.with(|d| d.get()) {
            self.0.sol_log(m)
        }
    }
    fn sol_log_data(&self, f: &[&[u8]]) {
        if !DIRECT.with(|d| d.get()) {
            self.0.sol_log_data(f)
        }
    }
    fn sol_log_compute_units(&self) {}
    fn sol_invoke_signed(&self, i: &Instruction, a: &[AccountInfo], s: &[&[&[u8]]]) -> ProgramResult {
        self.0.sol_invoke_signed(i, a, s)
    }
    fn sol_get_clock_sysvar(&self, v: *mut u8) -> u64 {
        self.0.sol_get_clock_sysvar(v)
    }
    fn sol_get_rent_sysvar(&self, v: *mut u8) -> u64 {
        if DIRECT.with(|d| d.get()) {
            unsafe { *(v as *mut solana_sdk::rent::Rent) = solana_sdk::rent::Rent::default() };
            return 0;
        }
        self.0.sol_get_rent_sysvar(v)
    }
    fn sol_set_return_data(&self, d: &[u8]) {
        if !DIRECT.with(|d| d.get()) {
            self.0.sol_set_return_data(d)
        }
    }
    fn sol_get_return_data(&self) -> Option<(Pubkey, Vec<u8>)> {
        if DIRECT.with(|d| d.get()) {
            return None;
        }
        self.0.sol_get_return_data()
    }
}

fn direct<T>(f: impl FnOnce() -> T) -> T {
    DIRECT.with(|d| d.set(true));
    let r = f();
    DIRECT.with(|d| d.set(false));
    r
}

/// The program as the chain would run it: an abnormal abort is a failed instruction.
fn aob(pid: &Pubkey, infos: &[AccountInfo], data: &[u8]) -> ProgramResult {
    match guarded(|| asset_agnostic_orderbook::entrypoint::process_instruction(pid, infos, data)) {
        Ok(r) => r,
        Err(m) => {
            if std::env::var("E2E_PANICS").is_ok() {
                eprintln!("panic in the bank: {}", m);
            }
            Err(ProgramError::Custom(PANICKED))
        }
    }
}

#[derive(Clone)]
enum LibOp {
    Create(u64, u64),
    Act(Act),
}
static OPS: Mutex<Option<HashMap<u64, (Kind, LibOp)>>> = Mutex::new(None);

/// A program that embeds the order book as a library, with its own callback type.
fn embedding(pid: &Pubkey, infos: &[AccountInfo], data: &[u8]) -> ProgramResult {
    let n = u64::from_le_bytes(data.try_into().map_err(|_| ProgramError::InvalidInstructionData)?);
    let (kind, op) = OPS.lock().unwrap().as_ref().unwrap()[&n].clone();
    let o = match op {
        LibOp::Create(min, tick) => lib_create(kind, pid, infos, min, tick),
        LibOp::Act(a) => lib_call(kind, pid, infos, &a),
    };
    match o {
        Outcome::Ok(_) => Ok(()),
        Outcome::Err(e) => Err(e),
        Outcome::Panic(_) => Err(ProgramError::Custom(PANICKED)),
    }
}

fn wrap_id() -> Pubkey {
    key_of(0xE2E, 0xE2E)
}

#[derive(Clone, Debug)]
enum Step {
    Act(Act),
    /// an action with two of the accounts exchanged
    Swapped(u8, Act),
    Create(u64, u64),
    Garbage(Vec<u8>),
    /// lamports from the payer to one of the four accounts
    Refund(usize, u64),
    /// a system transfer that cannot succeed
    Broke,
}

fn four(w: &World) -> [&Acct; 4] {
    [&w.market, &w.eq, &w.bids, &w.asks]
}
fn acct_mut(w: &mut World, i: usize) -> &mut Acct {
    match i {
        0 => &mut w.market,
        1 => &mut w.eq,
        2 => &mut w.bids,
        3 => &mut w.asks,
        _ => &mut w.target,
    }
}
const NAMES: [&str; 5] = ["market", "event queue", "bids", "asks", "target"];

fn swap(w: &mut World, how: u8) {
    let s = |a: &mut Acct, b: &mut Acct| std::mem::swap(a, b);
    match how % 5 {
        0 => s(&mut w.bids, &mut w.asks),
        1 => s(&mut w.eq, &mut w.bids),
        2 => s(&mut w.market, &mut w.eq),
        3 => s(&mut w.market, &mut w.asks),
        _ => s(&mut w.eq, &mut w.asks),
    }
}

struct Out {
    evals: u64,
    distinct: HashSet<u64>,
    counts: BTreeMap<&'static str, u64>,
    sample: Option<String>,
}
impl Out {
    fn count(&mut self, k: &'static str) {
        *self.counts.entry(k).or_insert(0) += 1;
    }
}

struct Env {
    ctx: ProgramTestContext,
    n: u64,
    uses: u64,
}

static STUBS: std::sync::Once = std::sync::Once::new();

async fn start() -> Env {
    let mut t = ProgramTest::default();
    t.prefer_bpf(false);
    t.add_program("agnostic_orderbook", asset_agnostic_orderbook::ID, processor!(aob));
    t.add_program("embedding", wrap_id(), processor!(embedding));
    let ctx = t.start_with_context().await;
    STUBS.call_once(|| {
        struct Nothing;
        impl SyscallStubs for Nothing {}
        let old = set_syscall_stubs(Box::new(Nothing));
        set_syscall_stubs(Box::new(Split(old)));
    });
    Env { ctx, n: 0, uses: 0 }
}

fn build(w: &World, wrapped: bool, n: &mut u64, s: &Step, payer: &Pubkey) -> Instruction {
    let embed = |mut i: Instruction, op: LibOp, n: &mut u64| {
        if wrapped {
            // the library's account list without the register account, which is the entrypoint's own
            i.accounts.pop();
            i.program_id = w.program_id;
            *n += 1;
            i.data = n.to_le_bytes().to_vec();
            OPS.lock().unwrap().get_or_insert_with(HashMap::new).insert(*n, (w.kind, op));
        }
        i
    };
    let plain = |w: &World, a: &Act| {
        let mut a2 = a.clone();
        if let (Act::New(p), true) = (&mut a2, w.kind != Kind::E32) {
            p.cb = cb::Cbb::from(&[0; 32]);
        }
        w.build_ix(&a2)
    };
    match s {
        Step::Act(a) => embed(plain(w, a), LibOp::Act(a.clone()), n),
        Step::Swapped(h, a) => {
            let mut w2 = w.clone();
            swap(&mut w2, *h);
            embed(plain(&w2, a), LibOp::Act(a.clone()), n)
        }
        Step::Create(min, tick) => embed(
            ix::create_market(
                ix::create_market::Accounts { market: &w.market.key, event_queue: &w.eq.key, bids: &w.bids.key, asks: &w.asks.key },
                w.register.key,
                ix::create_market::Params { min_base_order_size: *min, tick_size: *tick },
            ),
            LibOp::Create(*min, *tick),
            n,
        ),
        Step::Garbage(d) => {
            let mut i = w.build_ix(&Act::Consume(0));
            i.data = d.clone();
            i.program_id = asset_agnostic_orderbook::ID;
            i
        }
        Step::Refund(a, l) => system_instruction::transfer(payer, &[w.market.key, w.eq.key, w.bids.key, w.asks.key][*a], *l),
        Step::Broke => system_instruction::transfer(payer, &w.target.key, u64::MAX / 2),
    }
}

/// The same step through the library functions on the shadow.
fn shadow(w: &mut World, s: &Step) -> Outcome {
    direct(|| match s {
        Step::Act(a) => w.raw_exec(a),
        Step::Swapped(h, a) => {
            swap(w, *h);
            let o = w.raw_exec(a);
            swap(w, *h);
            o
        }
        Step::Create(min, tick) => w.create(*min, *tick),
        Step::Garbage(d) => {
            if w.program_id != asset_agnostic_orderbook::ID {
                return Outcome::Err(ProgramError::IncorrectProgramId);
            }
            let i = Instruction { data: d.clone(), ..w.build_ix(&Act::Consume(0)) };
            w.run_ix(&i)
        }
        Step::Refund(i, l) => {
            acct_mut(w, *i).lamports += l;
            Outcome::Ok(None)
        }
        Step::Broke => Outcome::Err(ProgramError::InsufficientFunds),
    })
}

fn shared(a: &Acct) -> AccountSharedData {
    AccountSharedData::from(Account { lamports: a.lamports, data: a.data.s().to_vec(), owner: a.owner, executable: false, rent_epoch: u64::MAX })
}

fn step_text(s: &Step) -> String {
    match s {
        Step::Garbage(d) => format!("garbage of {} bytes", d.len()),
        s => format!("{:?}", s),
    }
}

async fn case(env: &mut Env, seed: u64, k: u64, o: &mut Out, trace: bool) -> Result<(), String> {
    let mut r = Rng::new(mix(mix(seed, 0x28), k));
    let wrapped = r.pct(35);
    let prof = *r.pick(&[Profile::Tight, Profile::SelfTrade, Profile::Full, Profile::Extreme, Profile::Churn, Profile::Tight]);
    let mut g = Gen::new(prof, r.next(), false);
    g.len = usize::MAX;
    g.cfg.entry = false;
    g.cfg.kind = if wrapped { *r.pick(&KINDS) } else { Kind::E32 };
    g.cfg.wid = mix(mix(seed, k), 0x77) & !1;
    g.cfg.extra_a = 0;
    g.cfg.extra_b = 0;
    let kind = g.cfg.kind;
    let mut w = g.cfg.world();
    if wrapped {
        w.program_id = wrap_id();
        for i in 0..4 {
            acct_mut(&mut w, i).owner = wrap_id();
        }
        w.register.owner = wrap_id();
    }
    w.target.lamports = if r.pct(50) { 0 } else { 1_000_000 };
    env.ctx.last_blockhash = env.ctx.banks_client.get_latest_blockhash().await.map_err(|e| format!("HARNESS {}", e))?;
    for a in [&w.market, &w.eq, &w.bids, &w.asks, &w.register, &w.target] {
        if a.lamports > 0 {
            env.ctx.set_account(&a.key, &shared(a));
        }
    }
    let mut led = Ledger::default();
    let mut st: Option<State> = None;
    let mut closed = false;
    let mut reached = vec![];
    let mut log: Vec<String> = vec![];
    let n = r.range(6, 26) as usize;
    let wind_down = r.pct(40);
    for t in 0..n {
        // one transaction
        let mut steps: Vec<Step> = vec![];
        if t == 0 {
            steps.push(Step::Create(g.cfg.min, g.cfg.tick));
        } else if closed {
            let act = match r.below(5) {
                0 => Act::Cancel(1 << 64),
                1 => Act::Mass(vec![]),
                2 => Act::Consume(1),
                3 => Act::Close,
                _ => Op::New(NewOp { uid: 1, side: Side::Bid, price: g.cfg.tick, base: 1 << 20, quote: 1 << 20, limit: 1, owner: 1, nonce: 1, post_only: false, post_allowed: true, stb: Stb::Dec }).resolve(kind, &led),
            };
            steps.push(if r.pct(35) { Step::Create(1, 1) } else { Step::Act(act) });
        } else {
            let st = st.as_ref().unwrap();
            let last = wind_down && t + 4 >= n;
            if last {
                // drain and close, sometimes refunding the accounts in the same transaction
                for o in st.bids.orders.iter().chain(&st.asks.orders).take(20) {
                    steps.push(Step::Act(Act::Cancel(o.id)));
                }
                steps.push(Step::Act(Act::Consume(u64::MAX)));
                steps.push(Step::Act(Act::Close));
                if r.pct(60) {
                    for i in 0..4 {
                        if r.pct(80) {
                            steps.push(Step::Refund(i, rent(four(&w)[i].data.s().len())));
                        }
                    }
                    match r.below(4) {
                        0 => steps.push(Step::Create(g.cfg.min, g.cfg.tick)),
                        1 => steps.push(Step::Act(Act::Consume(1))),
                        2 => steps.push(Step::Act(Act::Close)),
                        _ => {}
                    }
                }
            } else {
                let m = *r.pick(&[1, 1, 1, 1, 1, 2, 3, 5]);
                for j in 0..m {
                    let op = g.next(if j == 0 { t } else { usize::MAX }, st, &led);
                    let act = op.resolve(kind, &led);
                    let p = r.below(100);
                    steps.push(if p < 84 {
                        Step::Act(act)
                    } else if p < 90 {
                        Step::Swapped(r.next() as u8, act)
                    } else if p < 93 {
                        Step::Act(match r.below(3) {
                            0 => Act::Close,
                            1 => Act::Cancel((r.edgy() as u128) << 64 | r.edgy() as u128),
                            _ => Act::Mass(st.bids.orders.iter().chain(&st.asks.orders).map(|o| o.id).take(8).chain([12345]).collect()),
                        })
                    } else if p < 95 {
                        Step::Create(1, 1)
                    } else if p < 97 && !wrapped {
                        Step::Garbage((0..r.below(90)).map(|i| if i == 0 { r.below(8) as u8 } else { r.edgy() as u8 }).collect())
                    } else if p < 98 {
                        Step::Refund(r.below(4) as usize, r.range(1, 1000))
                    } else if p < 99 {
                        Step::Broke
                    } else {
                        Step::Act(Act::Consume(r.edgy()))
                    });
                }
            }
        }
        // the shadow first
        let mut after = w.clone();
        let mut fail_at = None;
        let mut outs = vec![];
        for (i, s) in steps.iter().enumerate() {
            let before = after.clone();
            let out = shadow(&mut after, s);
            if out.ok() {
                // what the instruction modified must be declared writable and belong to the program
                if !matches!(s, Step::Refund(..)) {
                    let b = build(&before, wrapped, &mut env.n, s, &env.ctx.payer.pubkey());
                    for j in 0..5 {
                        let (x, y) = (acct_mut(&mut after, j).clone(), if j < 4 { four(&before)[j].clone() } else { before.target.clone() });
                        if x.data.s() != y.data.s() || x.lamports != y.lamports {
                            if !b.accounts.iter().any(|m| m.pubkey == x.key && m.is_writable) {
                                return Err(format!("{} modifies the {} account, which the builder does not declare writable", step_text(s), NAMES[j]));
                            }
                            if j < 4 && y.owner != b.program_id {
                                return Err(format!("{} modifies the {} account, which the program does not own", step_text(s), NAMES[j]));
                            }
                        }
                    }
                }
            }
            let ok = out.ok();
            outs.push(out);
            if !ok {
                fail_at = Some(i);
                break;
            }
        }
        // the runtime also refuses a transaction that leaves an account below the rent exemption
        let underfunded = fail_at.is_none() && four(&after).iter().any(|a| a.lamports > 0 && a.lamports < rent(a.data.s().len()));
        let expected = if fail_at.is_some() || underfunded { &w } else { &after };
        // the bank
        env.n += 1;
        let mut ixs = vec![ComputeBudgetInstruction::set_compute_unit_limit(1_000_000 + (env.n % 400_000) as u32)];
        for s in &steps {
            let i = build(&w, wrapped, &mut env.n, s, &env.ctx.payer.pubkey());
            if let Some(m) = i.accounts.iter().find(|m| m.is_signer && m.pubkey != env.ctx.payer.pubkey()) {
                return Err(format!("{}: the builder asks account {} to sign", step_text(s), m.pubkey));
            }
            ixs.push(i);
        }
        let mut tx = Transaction::new_with_payer(&ixs, Some(&env.ctx.payer.pubkey()));
        tx.sign(&[&env.ctx.payer], env.ctx.last_blockhash);
        let text = || steps.iter().map(step_text).collect::<Vec<_>>().join("; ");
        let res = env.ctx.banks_client.process_transaction_with_metadata(tx).await.map_err(|e| format!("HARNESS the bank does not answer: {}", e))?;
        let got = res.result;
        if trace {
            println!("{:3} {} -> expected {:?} got {:?}", t, text(), outs.last().map(|o| o.short()), got);
        }
        match (&got, fail_at) {
            (Err(TransactionError::InsufficientFundsForRent { .. }), None) if underfunded => o.count("transactions_failed_for_rent"),
            (Ok(()), None) if !underfunded => o.count("transactions_succeeded"),
            (Ok(()), None) => return Err(format!("HARNESS an account below the rent exemption is left by [{}]", text())),
            (Err(TransactionError::InstructionError(i, _)), Some(f)) if *i as usize == f + 1 => {
                o.count("transactions_failed");
                if f > 0 {
                    o.count("failed_after_successful_instructions");
                }
            }
            (Err(e @ (TransactionError::BlockhashNotFound | TransactionError::AlreadyProcessed | TransactionError::InsufficientFundsForFee | TransactionError::InsufficientFundsForRent { .. } | TransactionError::SanitizeFailure)), _) => {
                return Err(format!("HARNESS {:?} for [{}]", e, text()));
            }
            (Ok(()), Some(f)) => return Err(format!("the bank executes [{}], directly instruction {} fails with {}", text(), f, outs[f].short())),
            (Err(e), None) => return Err(format!("the bank refuses [{}] with {:?}, directly all succeed", text(), e)),
            (Err(e), Some(f)) => return Err(format!("the bank fails [{}] with {:?}, directly instruction {} fails with {}", text(), e, f, outs[f].short())),
        }
        // accounts
        let mut gone = [false; 5];
        for j in 0..5 {
            let x = if j < 4 { four(expected)[j].clone() } else { expected.target.clone() };
            let y = env.ctx.banks_client.get_account(x.key).await.map_err(|e| format!("HARNESS {}", e))?;
            let what = || format!("after {} transaction [{}] the {} account", if got.is_ok() { "successful" } else { "failed" }, text(), NAMES[j]);
            match y {
                None => {
                    if x.lamports != 0 {
                        return Err(format!("{} is gone, with {} lamports expected", what(), x.lamports));
                    }
                    gone[j] = true;
                }
                Some(y) => {
                    if y.lamports != x.lamports {
                        return Err(format!("{} holds {} lamports, {} expected", what(), y.lamports, x.lamports));
                    }
                    if y.owner != x.owner && x.lamports > 0 {
                        return Err(format!("{} is owned by {}", what(), y.owner));
                    }
                    if x.lamports == 0 {
                        gone[j] = true;
                    } else if y.data[..] != *x.data.s() {
                        let d = y.data.iter().zip(x.data.s()).position(|(a, b)| a != b);
                        return Err(format!("{} differs from what the library functions make of it, at byte {:?} (lengths {} and {})", what(), d, y.data.len(), x.data.s().len()));
                    }
                }
            }
        }
        if !wrapped && got.is_ok() {
            // the register holds the result of the last instruction
            if let (Some(Step::Act(a)), Some(Outcome::Ok(s))) = (steps.last(), outs.last()) {
                let y = env.ctx.banks_client.get_account(w.register.key).await.ok().flatten().map(|y| y.data).unwrap_or_default();
                match Option::<OrderSummary>::deserialize(&mut &y[..]).map(|v| v.map(Summary::from)) {
                    Ok(v) if v == *s => o.count("registers_compared"),
                    Ok(v) => return Err(format!("the register holds {:?} after {:?}, which returned {:?}", v, a, s)),
                    Err(e) => return Err(format!("the register is unreadable after {:?}: {}", a, e)),
                }
            }
        }
        o.evals += 1;
        let sig = match &st {
            Some(st) => steps.iter().fold(0, |h, s| mix(h, if let Step::Act(a) = s { step_sig(st, a) } else { 3 })),
            None => t as u64,
        };
        if t > 0 {
            o.distinct.insert(mix(sig, got.is_ok() as u64));
        }
        if log.len() < 8 {
            log.push(format!("[{}] -> {:?}", text(), got));
        }
        if got.is_err() {
            continue;
        }
        if wrapped {
            o.count("embedded_program_transactions");
        }
        // bookkeeping for the generator
        let mut had_close = false;
        for s in &steps {
            o.count(match s {
                Step::Act(Act::New(_)) => "executed_new",
                Step::Act(Act::Cancel(_)) => "executed_cancel",
                Step::Act(Act::Mass(_)) => "executed_mass",
                Step::Act(Act::Consume(_)) => "executed_consume",
                Step::Act(Act::Close) => {
                    had_close = true;
                    "executed_close"
                }
                Step::Create(..) => "executed_create",
                Step::Refund(..) => "executed_refund",
                Step::Swapped(..) => "executed_with_swapped_accounts",
                Step::Garbage(_) => "executed_garbage",
                Step::Broke => "executed_broke",
            });
        }
        w = after;
        if had_close {
            closed = true;
            if steps.iter().any(|s| matches!(s, Step::Refund(..))) {
                o.count("closed_accounts_refunded");
            }
        }
        for j in 0..5 {
            if gone[j] {
                let a = acct_mut(&mut w, j);
                *a = Acct::new(a.key, solana_sdk::system_program::id(), 0, 0, 0);
            }
        }
        if closed {
            st = None;
            continue;
        }
        if t == 0 {
            // markets late in their life
            g.cfg.fast_forward(&mut w);
            for a in [&w.market, &w.eq, &w.bids, &w.asks] {
                env.ctx.set_account(&a.key, &shared(a));
            }
            st = Some(State::read(&w));
            continue;
        }
        let post = State::read(&w);
        if !post.readable() {
            return Ok(());
        }
        if let (1, Step::Act(act)) = (steps.len(), &steps[0]) {
            let mut sink = Sink::new(255);
            let q_cap = layout::queue_capacity(kind, w.eq.data.s().len());
            let mut mon = Mon { kind, cap_b: g.cfg.cap_b, cap_a: g.cfg.cap_a, q_cap, min: g.cfg.min, tick: g.cfg.tick, led: &mut led, sink: &mut sink, sig: 0 };
            let pre = st.as_ref().unwrap();
            let pred = if let Act::New(p) = act { Some(mon.predict(p, pre)) } else { None };
            mon.step(pre, &post, act, &outs[0], None, pred.as_ref());
        }
        if got.is_ok() {
            reached.push(post.bids.orders.len() + post.asks.orders.len());
        }
        st = Some(post);
    }
    if o.sample.is_none() && n > 8 {
        let mut s = log.join(" | ");
        s.truncate(1400);
        o.sample = Some(s);
    }
    Ok(())
}

fn esc(s: &str) -> String {
    s.replace('\\', "\\\\").replace('"', "\\\"").replace('\n', " ")
}

fn main() {
    std::env::set_var("RUST_LOG", "off");
    init_env();
    let a: Vec<String> = std::env::args().skip(1).collect();
    let f = |k: &str| a.iter().find_map(|x| x.strip_prefix(k)).map(|s| s.to_string());
    let num = |k: &str, d: u64| f(k).and_then(|s| s.parse().ok()).unwrap_or(d);
    if a.first().map(|s| s.as_str()) == Some("union") {
        let mut v: Vec<u64> = vec![];
        for f in &a[1..] {
            if let Ok(b) = std::fs::read(f) {
                v.extend(b.chunks_exact(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())));
            }
        }
        v.sort_unstable();
        v.dedup();
        println!("{}", v.len());
        return;
    }
    let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(2).enable_all().build().unwrap();
    let code = rt.block_on(run(f, num));
    std::io::stdout().flush().ok();
    std::process::exit(code);
}

async fn run(f: impl Fn(&str) -> Option<String>, num: impl Fn(&str, u64) -> u64) -> i32 {
    let (seed, shard, nshards, cases) = (num("seed=", 1), num("shard=", 0), num("nshards=", 1), num("cases=", 10));
    let mut o = Out { evals: 0, distinct: HashSet::new(), counts: BTreeMap::new(), sample: None };
    let mut env = start().await;
    if let Some(k) = f("only=") {
        return match case(&mut env, seed, k.parse().unwrap(), &mut o, true).await {
            Ok(()) => {
                println!("not reproduced");
                0
            }
            Err(m) => {
                println!("violated: {}", m);
                1
            }
        };
    }
    if let Some(p) = f("hb=") {
        let _ = engine::HB_FILE.set(std::fs::File::create(p).unwrap());
    }
    let start_at = num("start=", 0);
    let mut k = start_at + (shard + nshards - start_at % nshards) % nshards;
    let (mut ran, mut capped) = (0, false);
    let t0 = std::time::Instant::now();
    while k < cases {
        if t0.elapsed().as_secs() > num("secs=", 60) {
            capped = true;
            break;
        }
        ran += 1;
        env.uses += 1;
        if env.uses > 200 {
            env = start().await;
            *OPS.lock().unwrap() = None;
        }
        engine::heartbeat(k, 0, 1 << 28);
        let had = o.sample.is_some();
        match case(&mut env, seed, k, &mut o, false).await {
            Ok(()) => {}
            Err(m) if m.starts_with("HARNESS") => {
                eprintln!("case {}: {}", k, m);
                return 101;
            }
            Err(m) => {
                let dir = f("replays=").unwrap_or_else(|| "/verif/replays".into());
                std::fs::create_dir_all(&dir).ok();
                let path = format!("{}/C28-{}-{}.txt", dir, seed, k);
                std::fs::write(&path, format!("# property C28: {}\ne2e prop=C28 seed={} case={}\n", m.replace('\n', " "), seed, k)).ok();
                println!("{{\"t\":\"viol\",\"replay\":\"{}\",\"msg\":\"{}\",\"case\":{},\"step\":0,\"shrunk\":true}}", path, esc(&m), k);
                break;
            }
        }
        if let (false, Some(s), 0) = (had, &o.sample, shard) {
            println!("{{\"t\":\"sample\",\"v\":\"{}\"}}", esc(s));
        }
        k += nshards;
    }
    if let Some(s) = f("sigs=") {
        let b: Vec<u8> = o.distinct.iter().flat_map(|x| x.to_le_bytes()).collect();
        std::fs::write(s, b).ok();
    }
    let counts: Vec<String> = o.counts.iter().map(|(k, v)| format!("\"{}\":{}", k, v)).collect();
    println!("{{\"t\":\"done\",\"cases\":{},\"evals\":{},\"counts\":{{{}}},\"capped\":{},\"setup_failed\":null,\"wall\":{}}}", ran, o.evals, counts.join(","), capped, t0.elapsed().as_secs_f64());
    0
}
