//! The simulated world of one comparison: logical clock, event trace, scripts, faults, resources.
//!
//! Everything the library calls goes through [`ev`], which is the single place where an execution
//! can be observed, delayed, interrupted, interleaved with others, or made to fail.

use crate::graph::Vd;
use crate::prng::{mix, mix2, Prng};
use std::cell::Cell;

#[derive(Clone, Copy, PartialEq, Eq, Debug, PartialOrd, Ord, Hash)]
#[repr(u8)]
pub enum K {
    // Node.
    Id,
    Cmp,
    Edge,
    Clone,
    // Cmp.
    NewEquiv,
    IsEquiv,
    FromOrd,
    // Index.
    IxInc,
    // Identity.
    IdEq,
    IdHash,
    IdClone,
    // Table.
    TNew,
    TGet,
    TIns,
    // Shared pointer.
    RcNew,
    RcClone,
    RcDeref,
    // Random generator.
    RngNew,
    Rng,
    // Recursion mode.
    RecNew,
    Recur,
    RecNext,
    RecReset,
    // Descend mode.
    DoTrav,
    DoEdges,
}
pub const NK: usize = 25;
pub const KN: [&str; NK] = [
    "id", "equiv_modulo_edges", "get_edge", "clone", "new_equiv", "is_equiv", "from_ord",
    "index_increment", "id_eq", "id_hash", "id_clone", "table_new", "table_get", "table_insert",
    "rc_new", "rc_clone", "rc_deref", "rng_new", "rng_draw", "recur_new", "recur", "recur_next",
    "recur_reset", "do_traverse", "do_edges",
];

/// One recorded call.
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Ev {
    pub k: K,
    /// Side of the node handle: 0 left, 1 right.
    pub side: u8,
    pub side2: u8,
    /// Handle serials (0 when none).
    pub h: u32,
    pub h2: u32,
    /// Nodes (for other kinds: other data).
    pub n: u32,
    pub m: u32,
    pub pos: u64,
    pub pos2: u64,
    /// Index, value, result.
    pub x: u64,
}

impl Ev {
    pub const fn of(k: K) -> Ev {
        Ev { k, side: 0, side2: 0, h: 0, h2: 0, n: 0, m: 0, pos: 0, pos2: 0, x: 0 }
    }
    /// Equality of what happened, whatever the handles' serials.
    pub fn same(&self, o: &Ev) -> bool {
        Ev { h: 0, h2: 0, ..*self } == Ev { h: 0, h2: 0, ..*o }
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
#[repr(usize)]
pub enum Live {
    Node,
    Id,
    Rc,
    Table,
    Cmp,
    Pool,
    Pinned,
}
pub const NL: usize = 7;
pub const LN: [&str; NL] =
    ["node handles", "identities", "class pointers", "tables", "results", "pools", "store slots"];

/// Random numbers to give.
#[derive(Clone, Debug, PartialEq, Default)]
pub struct Script {
    /// First these (65535 means the maximum possible).
    pub v: Vec<u16>,
    /// Then: 0 zeros, 1 maximums, 2 repeat `v`, 3 pseudo-random of `seed`, 4 the real generator.
    pub tail: u8,
    pub seed: u64,
}

impl Script {
    pub fn at(&self, i: u64, end: u16) -> Option<u16> {
        let raw = match self.v.get(i as usize) {
            Some(v) => *v,
            None => match self.tail {
                0 => 0,
                1 => u16::MAX,
                2 if !self.v.is_empty() => self.v[i as usize % self.v.len()],
                4 => return None,
                _ => return Some((mix2(self.seed, i) % u64::from(end)) as u16),
            },
        };
        Some(raw.min(end - 1))
    }
}

/// Order in which the pool takes up pending work.
#[derive(Clone, Copy, Debug, PartialEq, Default)]
pub struct Order {
    /// 0 oldest, 1 newest, 2 any, 3 alternating ends.
    pub policy: u8,
    /// Percentage handled immediately by recursion.
    pub imm: u8,
    pub seed: u64,
}

/// Decisions of a scripted controller: 0 go, 1 skip, else fail with this code.
#[derive(Clone, Debug, PartialEq, Default)]
pub struct Decide {
    pub trav: Vec<u16>,
    pub desc: Vec<u16>,
    /// Percentage of skips after the scripts (seeded by position in the sequence).
    pub skip: u8,
    pub seed: u64,
}

impl Decide {
    pub fn trav(&self, i: u64) -> u16 {
        match self.trav.get(i as usize) {
            Some(v) => *v,
            None => u16::from(mix2(self.seed, 2 * i) % 100 < u64::from(self.skip)),
        }
    }
    pub fn desc(&self, i: u64) -> u16 {
        match self.desc.get(i as usize) {
            Some(v) => *v,
            None => u16::from(mix2(self.seed, 2 * i + 1) % 100 < u64::from(self.skip)),
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Default)]
pub enum Fault {
    #[default]
    None,
    /// Panic at this event (1-based).
    Panic(u64),
    /// Panic when this node handle gets released (1-based).
    Release(u64),
    /// The recursion component fails at its n-th call (0-based).
    Recur(u64, u16),
    /// The controller fails from this simulated time on.
    Deadline(u64, u16),
    /// The recursion component fails once this many node handles are alive.
    Quota(u64, u16),
}

pub struct SimPanic(pub u64);
pub struct CapHit;

#[derive(Clone, Debug, PartialEq)]
pub enum Res {
    Ok(Vd),
    Limit,
    Err(u32),
    Panicked(u64),
    RealPanic(String),
    Cap,
}

#[derive(Clone, Default)]
pub struct Stats {
    pub events: u64,
    pub clock: u64,
    pub hash: u64,
    pub counts: [u64; 32],
    pub live: [i64; NL],
    pub peak_nodes: i64,
    /// Visits (first look at the identity of a left handle), by phase.
    pub visits: u64,
    pub expansions: u64,
    /// For every time the root pair was taken up: (visits before, expansions before, seq).
    pub starts: Vec<(u64, u64, u64)>,
    pub tables: u64,
    pub table_live_max: i64,
    pub stack: usize,
    pub drop_stack: usize,
    pub fault_fired: u64,
    pub stalls: u64,
    pub rng_draws: u64,
    pub rng_max: u64,
    pub rng_zero: u64,
    pub rng_hash: u64,
    pub net_bytes: i64,
    pub peak_bytes: i64,
    pub recurs: u64,
    /// Node handles released.
    pub releases: u64,
    pub trav: u64,
    pub desc: u64,
    /// Events after the fault fired.
    pub after_fault: u64,
}

pub struct Ctx {
    pub s: Stats,
    pub rec: bool,
    pub trace: Vec<Ev>,
    pub cap: u64,
    pub lat: u64,
    pub lat_rng: Prng,
    pub fault: Fault,
    pub rng: Script,
    pub order: Order,
    pub dec: Decide,
    pub hash_mask: u64,
    pub ix_cap: u64,
    pub serial: u32,
    pub base_sp: usize,
    /// Called at every event (when not already inside it).
    pub hook: Option<Box<dyn FnMut(u64)>>,
    /// The generator's interference period (0 none).
    pub reseed: u64,
    /// Layout of memory, or type of indexes.
    pub mem: u64,
}

impl Ctx {
    pub fn new() -> Self {
        Ctx {
            s: Stats::default(),
            rec: false,
            trace: Vec::new(),
            cap: u64::MAX,
            lat: 0,
            lat_rng: Prng::new(0),
            fault: Fault::None,
            rng: Script::default(),
            order: Order::default(),
            dec: Decide::default(),
            hash_mask: u64::MAX,
            ix_cap: u64::MAX,
            serial: 0,
            base_sp: 0,
            hook: None,
            reseed: 0,
            mem: 0,
        }
    }
}

/// Longer traces are not kept; the run is then not judged by its trace.
pub const TRACE_MAX: usize = 10_000_000;

thread_local! {
    pub static TRUNCATED: Cell<bool> = const { Cell::new(false) };
    pub static MISHAP: Cell<bool> = const { Cell::new(false) };
    static CUR: Cell<*mut Ctx> = const { Cell::new(std::ptr::null_mut()) };
}

/// Make `c` the world of this thread, and return the previous one.
pub fn swap(c: *mut Ctx) -> *mut Ctx {
    CUR.with(|x| x.replace(c))
}

pub fn present() -> bool {
    CUR.with(|x| !x.get().is_null())
}

/// The current world.  Only for short uses that call nothing else.
#[allow(clippy::mut_from_ref)]
#[inline(always)]
pub fn cx() -> &'static mut Ctx {
    let p = CUR.with(Cell::get);
    assert!(!p.is_null(), "HARNESS: callback outside of a simulated comparison");
    // SAFETY: set by `swap` to a live box for the time of the comparison; one thread; short uses.
    unsafe { &mut *p }
}

#[inline(never)]
pub fn here() -> usize {
    let x = 0u8;
    std::hint::black_box(&x) as *const u8 as usize
}

#[inline(always)]
pub fn note_stack() {
    let c = cx();
    let d = c.base_sp.wrapping_sub(here());
    if d < (1 << 40) && d > c.s.stack {
        c.s.stack = d;
    }
}

#[inline(always)]
pub fn note_drop_stack() {
    if !present() {
        return;
    }
    let c = cx();
    let d = c.base_sp.wrapping_sub(here());
    if d < (1 << 40) && d > c.s.drop_stack {
        c.s.drop_stack = d;
    }
}

#[inline(always)]
pub fn live(l: Live, d: i64) {
    if !present() {
        return;
    }
    let c = cx();
    let v = &mut c.s.live[l as usize];
    *v += d;
    if l as usize == 0 && *v > c.s.peak_nodes {
        c.s.peak_nodes = *v;
    }
    if l == Live::Table && d > 0 {
        c.s.tables += 1;
        c.s.table_live_max = c.s.table_live_max.max(*v);
    }
}

/// A node handle has been released.
#[inline]
pub fn node_released() {
    note_drop_stack();
    live(Live::Node, -1);
    if !present() {
        return;
    }
    let c = cx();
    c.s.releases += 1;
    if c.fault == Fault::Release(c.s.releases) && !std::thread::panicking() {
        c.s.fault_fired += 1;
        std::panic::resume_unwind(Box::new(SimPanic(c.s.releases)));
    }
}

/// Something called something.
#[inline]
pub fn ev(e: Ev) {
    note_stack();
    let c = cx();
    c.s.events += 1;
    c.s.counts[e.k as usize] += 1;
    c.s.clock += 1;
    if c.lat != 0 {
        c.s.clock += c.lat_rng.below(c.lat);
        if c.lat_rng.chance(1, 97) {
            c.s.clock += c.lat_rng.below(1 << 20);
            c.s.stalls += 1;
        }
    }
    let w = (e.k as u64)
        | (u64::from(e.side) << 8)
        | (u64::from(e.side2) << 9)
        | (u64::from(e.n) << 10)
        | (u64::from(e.m) << 37);
    c.s.hash = mix(c.s.hash.rotate_left(9) ^ w ^ e.pos.rotate_left(17) ^ e.pos2.rotate_left(31))
        .wrapping_add(e.x.wrapping_mul(0x9E37_79B9_7F4A_7C15));
    if c.s.fault_fired > 0 {
        c.s.after_fault += 1;
    }
    if c.rec {
        if c.trace.len() < TRACE_MAX {
            c.trace.push(e);
        } else {
            TRUNCATED.with(|t| t.set(true));
        }
    }
    let seq = c.s.events;
    if seq > c.cap {
        std::panic::resume_unwind(Box::new(CapHit));
    }
    if let Fault::Panic(at) = c.fault {
        if seq == at {
            c.s.fault_fired += 1;
            std::panic::resume_unwind(Box::new(SimPanic(at)));
        }
    }
    if c.reseed != 0 && seq % c.reseed == 0 {
        fastrand::seed(seq / c.reseed % 3);
    }
    if c.hook.is_some() {
        let mut h = c.hook.take();
        if let Some(f) = &mut h {
            f(seq);
        }
        cx().hook = h;
    }
}
