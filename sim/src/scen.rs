//! Scenarios: complete descriptions of runs, their generators' common parts, and bookkeeping.

use crate::api::*;
use crate::ctx::*;
use crate::graph::*;
use crate::json::J;
use crate::prng::Prng;
use crate::run::*;
use std::collections::BTreeMap;
use std::sync::Arc;

#[derive(Clone, Debug, PartialEq)]
pub struct Scen {
    pub prop: String,
    pub graphs: Vec<Graph>,
    pub cmps: Vec<Cmpn>,
    pub extra: BTreeMap<String, Vec<i64>>,
}

impl Scen {
    pub fn new(prop: &str, graphs: Vec<Graph>, cmps: Vec<Cmpn>) -> Scen {
        Scen { prop: prop.into(), graphs, cmps, extra: BTreeMap::new() }
    }
    pub fn one(prop: &str, g: Graph, c: Cmpn) -> Scen {
        Scen::new(prop, vec![g], vec![c])
    }
    pub fn with(mut self, k: &str, v: Vec<i64>) -> Scen {
        self.extra.insert(k.into(), v);
        self
    }
    pub fn ex(&self, k: &str) -> &[i64] {
        self.extra.get(k).map_or(&[], Vec::as_slice)
    }
    pub fn ex1(&self, k: &str) -> i64 {
        self.ex(k).first().copied().unwrap_or(0)
    }
    pub fn to_json(&self) -> J {
        J::obj(vec![
            ("property", J::s(&self.prop)),
            ("graphs", J::Arr(self.graphs.iter().map(Graph::to_json).collect())),
            ("comparisons", J::Arr(self.cmps.iter().map(Cmpn::to_json).collect())),
            ("extra", J::Obj(self.extra.iter().map(|(k, v)| (k.clone(), J::ints(v))).collect())),
        ])
    }
    pub fn from_json(j: &J) -> Scen {
        Scen {
            prop: j.get("property").str().into(),
            graphs: j.get("graphs").arr().iter().map(Graph::from_json).collect(),
            cmps: j.get("comparisons").arr().iter().map(Cmpn::from_json).collect(),
            extra: match j.get("extra") {
                J::Obj(m) => m
                    .iter()
                    .map(|(k, v)| (k.clone(), v.arr().iter().map(J::int).collect()))
                    .collect(),
                _ => BTreeMap::new(),
            },
        }
    }
    /// Is it meaningful at all?  (The minimiser may produce what is not.)
    pub fn well_formed(&self) -> bool {
        self.graphs.iter().all(|g| {
            g.n() > 0
                && g.label.len() == g.edges.len()
                && g.edges.iter().flatten().all(|e| (*e as usize) < g.n())
        }) && self.cmps.iter().all(|c| {
            c.g < self.graphs.len()
                && (c.l as usize) < self.graphs[c.g].n()
                && (c.r as usize) < self.graphs[c.g].n()
                && self.graphs[c.g].width() as u64 <= c.max_width()
                && c.ix_cap >= 1
        })
    }
    pub fn describe(&self) -> String {
        let c: Vec<String> = self
            .cmps
            .iter()
            .take(4)
            .map(|c| {
                let g = &self.graphs[c.g];
                format!(
                    "{} limits {:?} kind {} on {} nodes (roots {},{}) rng {:?}/{} fault {:?}{}",
                    c.api.name(),
                    c.api.limits(),
                    c.kind,
                    g.n(),
                    c.l,
                    c.r,
                    &c.rng.v[..c.rng.v.len().min(6)],
                    c.rng.tail,
                    c.fault,
                    c.api.budget.map_or(String::new(), |b| format!(" budget {b}")),
                )
            })
            .collect();
        c.join("; ")
    }
}

/// What was covered; summed over runs.
#[derive(Default, Clone)]
pub struct Agg {
    pub sums: BTreeMap<String, u64>,
    pub maxs: BTreeMap<String, u64>,
}

impl Agg {
    pub fn add(&mut self, k: &str, v: u64) {
        if v > 0 {
            match self.sums.get_mut(k) {
                Some(x) => *x += v,
                None => {
                    self.sums.insert(k.into(), v);
                }
            }
        }
    }
    pub fn max(&mut self, k: &str, v: u64) {
        let x = self.maxs.entry(k.into()).or_insert(0);
        *x = (*x).max(v);
    }
    pub fn out(&mut self, c: &Cmpn, o: &Out) {
        self.add("comparisons", 1);
        self.add("events", o.s.events);
        self.add("sim_time", o.s.clock);
        self.add("stalls", o.s.stalls);
        self.add("rng_draws", o.s.rng_draws);
        if c.api.rng == 0 {
            self.add("rng_forced_max", o.s.rng_max);
            self.add("rng_forced_zero", o.s.rng_zero);
        }
        self.add("class_hits_and_merges_lookups", o.s.counts[K::TGet as usize]);
        self.add(&format!("api: {}", c.api.name()), 1);
        if c.kind != 0 {
            self.add(&format!("node kind {}", c.kind), 1);
        }
        if c.api.has_precheck() && (o.s.starts.len() > 1 || o.s.tables > 0) {
            self.add("fault: precheck cut off", 1);
        }
        if c.hash_mask != u64::MAX {
            self.add("fault: colliding identity hashes", 1);
        }
        self.add("store slots reused", o.slots_reused);
        match (&o.res, &c.fault) {
            (Res::Ok(_), _) => self.add(
                if matches!(o.res, Res::Ok(v) if v.ord.is_eq()) { "verdict equivalent" } else { "verdict different" },
                1,
            ),
            (Res::Limit, _) => self.add("fault: budget exhausted", 1),
            (Res::Err(_), Fault::Recur(..)) => self.add("fault: recursion component error", 1),
            (Res::Err(_), Fault::Quota(..)) => self.add("fault: memory quota exceeded", 1),
            (Res::Err(_), Fault::Deadline(..)) => self.add("fault: deadline passed", 1),
            (Res::Err(_), _) => self.add("fault: controller error", 1),
            (Res::Panicked(_), _) => {
                self.add("fault: panic", 1);
            }
            _ => (),
        }
        self.max("stack bytes", o.s.stack.max(o.s.drop_stack) as u64);
        self.max("events in one comparison", o.s.events);
        self.max("live node handles", o.s.peak_nodes as u64);
    }
    pub fn merge(&mut self, o: &J) {
        if let J::Obj(m) = o.get("sums") {
            for (k, v) in m {
                self.add(k, v.int() as u64);
            }
        }
        if let J::Obj(m) = o.get("maxs") {
            for (k, v) in m {
                self.max(k, v.int() as u64);
            }
        }
    }
    pub fn to_json(&self) -> J {
        let f = |m: &BTreeMap<String, u64>| {
            J::Obj(m.iter().map(|(k, v)| (k.clone(), J::Int(*v as i64))).collect())
        };
        J::obj(vec![("sums", f(&self.sums)), ("maxs", f(&self.maxs))])
    }
}

pub enum Held {
    /// Distinctness key of the execution, and whether it is non-trivial.
    Yes(u64, bool),
    /// Not a case of this property.
    Skip,
}
pub type Checked = Result<Held, String>;

// ------------------------------------------------------------------- parts

pub fn gen_script(r: &mut Prng) -> Script {
    let n = if r.chance(1, 2) { 0 } else { r.range(1, 8) };
    let v = (0..n)
        .map(|_| match r.below(5) {
            0 => 0,
            1 | 2 => u16::MAX,
            3 => r.below(4) as u16,
            _ => r.below(1000) as u16,
        })
        .collect();
    Script { v, tail: *r.pick(&[0u8, 1, 1, 2, 3, 3]), seed: r.next() }
}

pub fn gen_order(r: &mut Prng) -> Order {
    Order {
        policy: r.below(4) as u8,
        imm: *r.pick(&[0u8, 0, 30, 60, 100]),
        seed: r.next(),
    }
}

/// A cycle-capable way to compare.
pub fn gen_cyc_api(r: &mut Prng, allow_rng: bool) -> Api {
    let f = *r.pick(&[
        F::Cyc, F::CycPre, F::Rob, F::RobPre, F::Inter, F::Inter, F::Inter, F::Inter, F::Pre,
        F::Pre, F::Pre, F::Pre,
    ]);
    let mut a = Api::new(f);
    match f {
        F::Inter => a.rm = r.below(4) as u8,
        F::Pre => a.rm = r.below(7) as u8,
        _ => (),
    }
    if matches!(f, F::Inter | F::Pre) {
        if allow_rng && r.chance(1, 12) {
            a.rng = r.range(1, 3) as u8;
            a.lim = *r.pick(&LIM_FEW);
        } else if r.chance(1, 4) {
            a.tab = r.range(1, 2) as u8;
            a.lim = *r.pick(&LIM_FEW);
        } else {
            a.lim = r.below(NLIM) as u8;
        }
        if f == F::Pre && a.tab == 0 && a.rng == 0 && r.chance(1, 5) {
            a.rm += 7;
            a.lim = *r.pick(&LIM_CHAIN);
        }
    }
    a
}

pub fn gen_plain_api(r: &mut Prng) -> Api {
    let f = *r.pick(&[F::Basic, F::Deep, F::Wide, F::Unl]);
    let mut a = Api::new(f);
    if f == F::Unl {
        a.rm = r.below(4) as u8;
    }
    a
}

/// Pick a node kind that this API is available for, and adapt.
pub fn gen_kind(r: &mut Prng, c: &mut Cmpn) {
    if r.chance(4, 5) {
        return;
    }
    let k = *r.pick(&[1u8, 2, 3, 4, 5, K_STORE]);
    if c.api.rng != 0 || c.api.by_hand() {
        return;
    }
    if matches!(c.api.f, F::Inter | F::Pre) {
        match k {
            3..=5 => {
                if c.api.tab != 0 {
                    return;
                }
                c.api.lim = 8;
            }
            _ => {
                if c.api.tab == 1 {
                    return;
                }
                c.api.lim = *r.pick(&LIM_FEW);
            }
        }
    }
    c.kind = k;
}

pub fn gen_env(r: &mut Prng, c: &mut Cmpn) {
    c.rng = gen_script(r);
    c.order = gen_order(r);
    if r.chance(1, 3) {
        c.lat = r.next() | 1;
    }
    if r.chance(1, 10) {
        c.hash_mask = *r.pick(&[0u64, 1, 3, 0xF]);
    }
    if c.api.rng == 3 && r.chance(1, 2) {
        c.reseed = r.range(1, 40);
    }
}

/// Suitable graph size for exercising these limits.
pub fn size_for(r: &mut Prng, c: &Cmpn) -> Size {
    if !c.api.cyclic_ok() {
        return pick_size(r, 150, 10);
    }
    let (p, f, s) = c.api.limits();
    if s > 30 || (c.api.has_precheck() && p > 100) {
        pick_size(r, 500, 120)
    } else if f > 1000 {
        pick_size(r, 50, 0)
    } else {
        pick_size(r, 250, 20)
    }
}

/// Graph for the comparison; sets its roots.  Keeps the estimated work within bounds.
pub fn gen_graph(r: &mut Prng, c: &mut Cmpn, acyclic: bool, perturb: u64, max_work: u64) -> Graph {
    for attempt in 0..12 {
        let mut size = size_for(r, c);
        if attempt > 4 {
            size = Size::Small;
        }
        if attempt > 8 {
            size = Size::Tiny;
        }
        if c.hash_mask != u64::MAX && matches!(size, Size::Large) {
            size = Size::Small;
        }
        let o = GenOpts {
            size,
            acyclic,
            tree: false,
            max_width: (c.max_width().min(40)) as usize,
            perturb,
        };
        let (g, a, b) = gen_pair(r, &o);
        if g.width() as u64 > c.max_width() {
            continue;
        }
        c.l = a;
        c.r = b;
        if work(&g, c).is_some_and(|w| w <= max_work) {
            return g;
        }
    }
    let mut g = Graph::default();
    let x = g.add(0, vec![]);
    c.l = g.add(0, vec![x]);
    let y = g.add(r.below(2) as u32, vec![]);
    c.r = g.add(0, vec![y]);
    g
}

pub fn usual_work(r: &mut Prng) -> u64 {
    if r.chance(1, 40) {
        1_000_000
    } else {
        60_000
    }
}

/// Cap on events, far above anything allowed.
pub fn event_cap(g: &Graph, c: &Cmpn) -> u64 {
    // Colliding hashes make looking up slow, by nature.
    let per = if c.hash_mask == u64::MAX { 200 } else { 200 + 8 * g.n() as u64 };
    work(g, c).unwrap_or(1_000_000).saturating_mul(per).saturating_add(100_000).min(400_000_000)
}

pub fn watch(g: &Graph, c: &Cmpn, trace: bool) -> Watch {
    Watch { trace, cap: event_cap(g, c), hook: None }
}

/// Run, and report what no comparison may do by itself.
pub fn run_ok(g: &Arc<Graph>, c: &Cmpn, trace: bool, agg: &mut Agg) -> Result<Out, String> {
    let o = execute(g, c, watch(g, c, trace));
    agg.out(c, &o);
    no_mishap(c, &o)?;
    Ok(o)
}

pub fn no_mishap(c: &Cmpn, o: &Out) -> Result<(), String> {
    MISHAP.with(|m| m.set(m.get() || matches!(o.res, Res::RealPanic(_) | Res::Cap)));
    match &o.res {
        Res::RealPanic(m) if m.contains("HARNESS") => panic!("{m}"),
        Res::RealPanic(m) => Err(format!("{}: panicked by itself: {m}", c.api.name())),
        Res::Cap => Err(format!(
            "{}: gave no result within {} steps ({} pairs visited)",
            c.api.name(),
            o.s.events,
            o.s.visits
        )),
        _ => Ok(()),
    }
}

pub fn verdict(o: &Out) -> Option<Vd> {
    match o.res {
        Res::Ok(v) => Some(v),
        _ => None,
    }
}
