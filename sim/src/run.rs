//! One simulated comparison: its full description, and its execution.

use crate::alloc;
use crate::api::{self, Api, Rm, Stopped, F};
use crate::ctx::*;
use crate::graph::{naive, Decision, Graph, Naive, Strategy, Vd};
use crate::json::J;
use crate::parts::*;
#[cfg(feature = "full")]
use crate::refs::{self, K_DYN, K_OBJ, K_PIN, K_SLICE};
#[cfg(feature = "full")]
use graph_safe_compare::cycle_safe::modes::interleave::random::default::set_driver;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::Arc;

/// Kind of node: 0..=5 are [`KINDS`], 6 is the store that materialises nodes on demand.
pub const K_STORE: u8 = 6;
/// 7 to 10 are those of [`crate::refs`]; this has indexes of any primitive type.
pub const K_INDEX: u8 = 11;

#[derive(Clone, Debug, PartialEq)]
pub struct Cmpn {
    /// Which graph.
    pub g: usize,
    pub l: u32,
    pub r: u32,
    pub api: Api,
    pub kind: u8,
    pub rng: Script,
    pub order: Order,
    pub dec: Decide,
    pub lat: u64,
    pub fault: Fault,
    pub hash_mask: u64,
    pub ix_cap: u64,
    pub reseed: u64,
    /// Layout of memory.
    pub mem: u64,
}

impl Cmpn {
    pub fn new(l: u32, r: u32, api: Api) -> Cmpn {
        Cmpn {
            g: 0,
            l,
            r,
            api,
            kind: 0,
            rng: Script::default(),
            order: Order::default(),
            dec: Decide::default(),
            lat: 0,
            fault: Fault::None,
            hash_mask: u64::MAX,
            ix_cap: u64::MAX,
            reseed: 0,
            mem: 0,
        }
    }
    pub fn rich(&self) -> u8 {
        KINDS.get(self.kind as usize).map_or(2, |k| k.0)
    }
    /// Edges a node of this kind can number.
    pub fn max_width(&self) -> u64 {
        let cap = KINDS.get(self.kind as usize).map_or(u64::MAX, |k| k.1);
        if matches!(self.kind, 0 | K_INDEX) {
            self.ix_cap
        } else {
            cap
        }
    }
    pub fn strategy(&self) -> Option<Strategy> {
        strat_of(self.api.main_rm())
    }
    pub fn to_json(&self) -> J {
        let u = |x: u64| J::Str(x.to_string());
        let w = |v: &[u16]| J::Arr(v.iter().map(|x| J::Int((*x).into())).collect());
        let (fk, fa, fc) = match self.fault {
            Fault::None => ("none", 0, 0),
            Fault::Panic(a) => ("panic", a, 0),
            Fault::Release(a) => ("release", a, 0),
            Fault::Recur(a, c) => ("recur", a, c),
            Fault::Deadline(a, c) => ("deadline", a, c),
            Fault::Quota(a, c) => ("quota", a, c),
        };
        J::obj(vec![
            ("g", J::Int(self.g as i64)),
            ("l", J::Int(self.l.into())),
            ("r", J::Int(self.r.into())),
            ("api", self.api.to_json()),
            ("kind", J::Int(self.kind.into())),
            ("rng", w(&self.rng.v)),
            ("rng_tail", J::Int(self.rng.tail.into())),
            ("rng_seed", u(self.rng.seed)),
            ("order", J::ints(&[self.order.policy, self.order.imm])),
            ("order_seed", u(self.order.seed)),
            ("trav", w(&self.dec.trav)),
            ("desc", w(&self.dec.desc)),
            ("skip", J::Int(self.dec.skip.into())),
            ("dec_seed", u(self.dec.seed)),
            ("lat", u(self.lat)),
            ("fault", J::Arr(vec![J::s(fk), J::Int(fa as i64), J::Int(fc.into())])),
            ("hash_mask", u(self.hash_mask)),
            ("ix_cap", u(self.ix_cap)),
            ("reseed", u(self.reseed)),
            ("mem", u(self.mem)),
        ])
    }
    pub fn from_json(j: &J) -> Cmpn {
        let u = |k: &str| j.get(k).str().parse::<u64>().unwrap_or(0);
        let w = |k: &str| j.get(k).arr().iter().map(|x| x.int() as u16).collect::<Vec<_>>();
        let f = j.get("fault").arr();
        let (fa, fc) = (
            f.get(1).map_or(0, |x| x.int() as u64),
            f.get(2).map_or(0, |x| x.int() as u16),
        );
        let o = j.get("order").arr();
        Cmpn {
            g: j.get("g").int() as usize,
            l: j.get("l").int() as u32,
            r: j.get("r").int() as u32,
            api: Api::from_json(j.get("api")),
            kind: j.get("kind").int() as u8,
            rng: Script { v: w("rng"), tail: j.get("rng_tail").int() as u8, seed: u("rng_seed") },
            order: Order {
                policy: o.first().map_or(0, |x| x.int() as u8),
                imm: o.get(1).map_or(0, |x| x.int() as u8),
                seed: u("order_seed"),
            },
            dec: Decide {
                trav: w("trav"),
                desc: w("desc"),
                skip: j.get("skip").int() as u8,
                seed: u("dec_seed"),
            },
            lat: u("lat"),
            fault: match f.first().map_or("none", J::str) {
                "panic" => Fault::Panic(fa),
                "release" => Fault::Release(fa),
                "recur" => Fault::Recur(fa, fc),
                "deadline" => Fault::Deadline(fa, fc),
                "quota" => Fault::Quota(fa, fc),
                _ => Fault::None,
            },
            hash_mask: u("hash_mask"),
            ix_cap: u("ix_cap"),
            reseed: u("reseed"),
            mem: u("mem"),
        }
    }
}

pub fn strat_of(rm: Rm) -> Option<Strategy> {
    match rm {
        Rm::Call | Rm::Stack => Some(Strategy::Dfs),
        Rm::Queue => Some(Strategy::Bfs),
        Rm::Pool => None,
    }
}

/// What to watch during an execution.
#[derive(Default)]
pub struct Watch {
    pub trace: bool,
    pub cap: u64,
    pub hook: Option<Box<dyn FnMut(u64)>>,
}

pub struct Out {
    pub res: Res,
    pub s: Stats,
    pub trace: Vec<Ev>,
    pub slots_reused: u64,
}

/// Events beyond which an execution is considered endless.
pub const CAP: u64 = 60_000_000;

/// Digest of all executions of this process, whatever their order.
pub static EXECS: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);

thread_local! {
    pub static PANIC_MSG: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|i| {
        let m = i
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| i.payload().downcast_ref::<String>().cloned())
            .unwrap_or_else(|| "?".into());
        let at = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        if m.contains("HARNESS") {
            eprintln!("harness panic: {m} at {at}");
        }
        let _ = PANIC_MSG.try_with(|p| *p.borrow_mut() = format!("{m} ({at})"));
    }));
}

#[inline(never)]
fn dispatch(c: &Cmpn, g: &Arc<Graph>) -> Result<Vd, Stopped> {
    macro_rules! s {
        ($k:ty, $f:ident) => {{
            let (a, b) = (SNode::<$k>::root(g, c.l, 0), SNode::<$k>::root(g, c.r, 1));
            cx().base_sp = here();
            api::$f(&c.api, a, b).map(|v| v.vd())
        }};
    }
    match c.kind {
        0 => s!(KV, call_full),
        #[cfg(feature = "full")]
        1 => s!(KB, call_few),
        #[cfg(feature = "full")]
        2 => s!(KO, call_few),
        #[cfg(feature = "full")]
        3 => s!(KI, call_least),
        #[cfg(feature = "full")]
        4 => s!(KU, call_least),
        #[cfg(feature = "full")]
        5 => s!(KW, call_least),
        K_INDEX => s!(KX, call_least),
        #[cfg(feature = "full")]
        K_SLICE => refs::run::<refs::Slices>(c, g),
        #[cfg(feature = "full")]
        K_OBJ => refs::run::<refs::Objs>(c, g),
        #[cfg(feature = "full")]
        K_DYN => refs::run::<refs::Dyns>(c, g),
        #[cfg(feature = "full")]
        K_PIN => refs::run::<refs::Pins>(c, g),
        #[cfg(not(feature = "full"))]
        _ => panic!("HARNESS: not available"),
        #[cfg(feature = "full")]
        _ => {
            let st = Store::new(g);
            let (a, b) = (TNode::root(&st, c.l, 0), TNode::root(&st, c.r, 1));
            cx().base_sp = here();
            let r = api::call_few(&c.api, a, b).map(|v| v.vd());
            note_reused(st.reused.get());
            r
        }
    }
}

pub fn note_reused(n: u64) {
    REUSED.with(|x| x.set(n));
}

thread_local! {
    static REUSED: std::cell::Cell<u64> = const { std::cell::Cell::new(0) };
}

/// Run it.  May be nested (called from a hook).
pub fn execute(g: &Arc<Graph>, c: &Cmpn, w: Watch) -> Out {
    let mut ctx = Box::new(Ctx::new());
    ctx.rec = w.trace;
    ctx.cap = if w.cap == 0 { CAP } else { w.cap };
    ctx.hook = w.hook;
    ctx.rng = c.rng.clone();
    ctx.order = c.order;
    ctx.dec = c.dec.clone();
    ctx.lat = c.lat;
    ctx.lat_rng = crate::prng::Prng::new(c.lat);
    ctx.lat = c.lat % 1024;
    ctx.fault = c.fault;
    ctx.hash_mask = c.hash_mask;
    ctx.ix_cap = c.ix_cap;
    ctx.reseed = c.reseed;
    ctx.mem = c.mem;
    ctx.s.starts.reserve(8);
    if c.reseed != 0 || c.api.rng == 3 || !cfg!(feature = "full") {
        fastrand::seed(c.rng.seed);
    }
    // Sampled by the premade functions' generator.
    #[cfg(feature = "full")]
    set_driver(Some(driver));
    let quiet = QUIET_IDS.with(|q| q.replace(c.api.premade_table()));
    let prev = swap(&mut *ctx);
    let net0 = alloc::net();
    let outer = alloc::peak();
    alloc::set_peak(net0);
    let r = catch_unwind(AssertUnwindSafe(|| dispatch(c, g)));
    let res = match r {
        Ok(Ok(v)) => Res::Ok(v),
        Ok(Err(Stopped::Limit)) => Res::Limit,
        Ok(Err(Stopped::Sim(c))) => Res::Err(c),
        Err(p) => {
            if let Some(s) = p.downcast_ref::<SimPanic>() {
                Res::Panicked(s.0)
            } else if p.downcast_ref::<CapHit>().is_some() {
                Res::Cap
            } else {
                Res::RealPanic(PANIC_MSG.with(|m| m.borrow().clone()))
            }
        }
    };
    let msg = if let Res::RealPanic(m) = &res { m.capacity() as i64 } else { 0 };
    ctx.s.peak_bytes = alloc::peak() - net0;
    alloc::set_peak(outer.max(alloc::peak()));
    ctx.s.net_bytes = alloc::net() - net0 - msg;
    swap(prev);
    QUIET_IDS.with(|q| q.set(quiet));
    let mut s = std::mem::take(&mut ctx.s);
    s.hash ^= match &res {
        Res::Ok(v) => v.tag.rotate_left(7) ^ (v.ord as i8 as u64),
        Res::Err(c) => u64::from(*c) << 20,
        _ => 0,
    };
    EXECS.fetch_add(crate::prng::mix(s.hash), std::sync::atomic::Ordering::Relaxed);
    Out { res, s, trace: std::mem::take(&mut ctx.trace), slots_reused: REUSED.with(|x| x.replace(0)) }
}

pub fn plain(g: &Arc<Graph>, c: &Cmpn) -> Out {
    execute(g, c, Watch::default())
}
pub fn traced(g: &Arc<Graph>, c: &Cmpn) -> Out {
    execute(g, c, Watch { trace: true, ..Watch::default() })
}

// ------------------------------------------------------------------ bounds

/// Documented bound on descents of the interleave.
pub fn descent_bound(n_branches: u64, f: u16, s: u16) -> u64 {
    let n1 = n_branches.saturating_sub(1);
    n1 + n1 / u64::from(s.max(1)) * (u64::from(f) + 1)
}

/// Model of the traversal without any detection (as of the basic functions).
pub fn model(g: &Graph, c: &Cmpn, strat: Strategy, budget: Option<u128>, cap: u64) -> Naive {
    naive(g, c.l, c.r, strat, false, budget, cap, |_| Decision::Go, |_| Decision::Go)
}

/// Upper estimate of the pairs traversed by this comparison; `None` when unbounded.
pub fn work(g: &Graph, c: &Cmpn) -> Option<u64> {
    const MUCH: u64 = 3_000_000;
    match c.api.f {
        F::Cyc | F::CycPre | F::Rob | F::RobPre | F::Inter | F::Pre => {
            let (p, f, s) = c.api.limits();
            let n = g.branches(&[c.l, c.r]);
            let roots = [c.l, c.r];
            let (first, w) = match g.inner_width(&roots) {
                Some(w) => (g.reach_width(&roots), w),
                None => (0, g.reach_width(&roots)),
            };
            let e = descent_bound(n, f, s).saturating_mul(w).saturating_add(first + 1);
            Some(e + if c.api.has_precheck() { u64::from(p) } else { 0 })
        }
        F::Basic | F::Deep | F::Wide | F::Unl => {
            let st = match c.api.main_rm() {
                Rm::Queue => Strategy::Bfs,
                _ => Strategy::Dfs,
            };
            if c.api.main_rm() == Rm::Pool {
                // Any order: everything may be visited.
                if !g.acyclic(&[c.l, c.r]) {
                    return None;
                }
                return paths(g, c.l, c.r, MUCH);
            }
            if c.api.budget.is_none() && !g.acyclic(&[c.l, c.r]) {
                return None;
            }
            let m = model(g, c, st, c.api.budget, MUCH);
            (m.stop != crate::graph::Stop::GaveUp).then_some(m.visits)
        }
        F::Lim => Some(c.api.budget.unwrap_or(0).min(u128::from(u64::MAX)) as u64),
        F::Desc => {
            // Bounded by its decisions only; callers check with the model.
            if !g.acyclic(&[c.l, c.r]) {
                return None;
            }
            paths(g, c.l, c.r, MUCH)
        }
    }
}

/// Amount of counterpart pairs when everything is visited (acyclic).
fn paths(g: &Graph, l: u32, r: u32, much: u64) -> Option<u64> {
    fn go(
        g: &Graph,
        l: u32,
        r: u32,
        memo: &mut std::collections::HashMap<(u32, u32), u64>,
        depth: u32,
    ) -> u64 {
        if l == r {
            return 1;
        }
        if depth > 3000 {
            return u64::MAX;
        }
        if let Some(v) = memo.get(&(l, r)) {
            return *v;
        }
        let mut t = 1u64;
        for (a, b) in g.edges[l as usize].iter().zip(&g.edges[r as usize]) {
            t = t.saturating_add(go(g, *a, *b, memo, depth + 1));
        }
        memo.insert((l, r), t);
        t
    }
    let t = go(g, l, r, &mut std::collections::HashMap::new(), 0);
    (t <= much).then_some(t)
}
