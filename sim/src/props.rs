//! The properties: generation of scenarios, and judgement of their executions.

use crate::api::*;
use crate::ctx::*;
use crate::graph::*;
use crate::parts::{ix_amount, reduce, IX_TYPES, KINDS};
use crate::prng::{mix, mix2, Prng};
use crate::refs::*;
use crate::run::*;
use crate::scen::*;
use std::cmp::Ordering;
use std::collections::{HashMap, HashSet};
use std::sync::Arc;

pub const PROPS: [&str; 19] = [
    "C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13",
    "C14", "C15", "C16", "C17", "C18", "C20",
];

pub fn generate(prop: &str, seed: u64, i: u64) -> Scen {
    let p = prop.bytes().fold(0u64, |h, b| mix2(h, b.into()));
    let mut r = Prng::new(mix2(mix2(seed, p), i));
    let r = &mut r;
    match prop {
        "C01" => gen_c01(r),
        "C02" => gen_c02(r),
        "C03" => gen_c03(r),
        "C04" => gen_c04(r),
        "C05" => gen_c05(r),
        "C06" => gen_c06(r),
        "C07" => gen_c07(r),
        "C08" => gen_c08(r),
        "C09" => crate::hist::gen_c09(r),
        "C10" => crate::hist::gen_c10(r),
        "C11" => gen_c11(r),
        "C12" => gen_c12(r),
        "C13" => gen_c13(r),
        "C14" => gen_c14(r),
        "C15" => gen_c15(r),
        "C16" => gen_c16(r),
        "C17" => gen_c17(r),
        "C18" => gen_c18(r),
        "C20" => gen_c20(r),
        _ => panic!("HARNESS: unknown property {prop}"),
    }
}

pub fn check(s: &Scen, agg: &mut Agg) -> Checked {
    if !s.well_formed() {
        return Ok(Held::Skip);
    }
    TRUNCATED.with(|t| t.set(false));
    MISHAP.with(|t| t.set(false));
    let r = check_by_property(s, agg);
    if TRUNCATED.with(|t| t.get()) && !MISHAP.with(|t| t.get()) {
        agg.add("skipped: trace too long", 1);
        return Ok(Held::Skip);
    }
    r
}

fn check_by_property(s: &Scen, agg: &mut Agg) -> Checked {
    let gs: Vec<Arc<Graph>> = s.graphs.iter().map(|g| Arc::new(g.clone())).collect();
    match s.prop.as_str() {
        "C01" => check_c01(s, &gs, agg),
        "C02" => check_c02(s, &gs, agg),
        "C03" => check_c03(s, &gs, agg),
        "C04" => check_c04(s, &gs, agg),
        "C05" => check_c05(s, &gs, agg),
        "C06" => check_c06(s, &gs, agg),
        "C07" => check_c07(s, &gs, agg),
        "C08" => check_c08(s, &gs, agg),
        "C09" => crate::hist::check_c09(s, &gs, agg),
        "C10" => crate::hist::check_c10(s, &gs, agg),
        "C11" => check_c11(s, &gs, agg),
        "C12" => check_c12(s, &gs, agg),
        "C13" => check_c13(s, &gs, agg),
        "C14" => check_c14(s, &gs, agg),
        "C15" => check_c15(s, &gs, agg),
        "C16" => check_c16(s, &gs, agg),
        "C17" => check_c17(s, &gs, agg),
        "C18" => check_c18(s, &gs, agg),
        "C20" => check_c20(s, &gs, agg),
        p => panic!("HARNESS: unknown property {p}"),
    }
}

/// Estimated work admitted when checking (well above what generators make).
const ADMIT: u64 = 6_000_000;

fn admissible(g: &Graph, c: &Cmpn) -> bool {
    work(g, c).is_some_and(|w| w <= ADMIT)
}

/// The true verdict, by two independent models when small.
pub fn truth(g: &Graph, l: u32, r: u32) -> bool {
    let t = bisim(g, l, r);
    if g.n() <= 12 {
        assert_eq!(t, bisim_refine(g, l, r), "HARNESS: oracles disagree");
    }
    t
}

pub fn check_verdict(g: &Graph, c: &Cmpn, o: &Out) -> Result<(), String> {
    let t = truth(g, c.l, c.r);
    match verdict(o) {
        Some(v) if v.ord.is_eq() == t => Ok(()),
        Some(v) => Err(format!(
            "{}: the graphs are {}, but the comparison said {:?}",
            c.api.name(),
            if t { "equivalent" } else { "not equivalent" },
            v.ord
        )),
        None => Err(format!("{}: no verdict but {:?}", c.api.name(), o.res)),
    }
}

// ---------------------------------------------------------------------- C01

fn gen_c01(r: &mut Prng) -> Scen {
    let mut c = Cmpn::new(0, 0, gen_cyc_api(r, true));
    gen_kind(r, &mut c);
    gen_env(r, &mut c);
    if r.chance(1, 800) {
        // More nodes than any table begins with room for.
        c.kind = 0;
        c.hash_mask = u64::MAX;
        if r.chance(1, 4) {
            let (g, l, rr) = gen_pending(r);
            (c.l, c.r) = (l, rr);
            if work(&g, &c).is_some_and(|w| w <= 3_000_000) {
                return Scen::one("C01", g, c);
            }
        }
        let most = *r.pick(&[60_000, 60_000, 70_000, 140_000]);
        for size in [most, 10_000, 2_000] {
            let (mut g, l, rr) = gen_extreme(r, size, false);
            (c.l, c.r) = (l, rr);
            match r.below(4) {
                0 | 1 => (),
                2 => {
                    let n = g.n();
                    g.label[r.usize(n)] += 1;
                }
                // Near the end of one or the other.
                _ => {
                    let at = (g.n() / (1 + r.usize(2))).saturating_sub(1 + r.usize(8));
                    g.label[at] += 1;
                }
            }
            if work(&g, &c).is_some_and(|w| w <= 3_000_000) {
                return Scen::one("C01", g, c);
            }
        }
    }
    let w = usual_work(r);
    let acyclic = r.chance(1, 6);
    let g = gen_graph(r, &mut c, acyclic, 45, w);
    Scen::one("C01", g, c)
}

fn check_c01(s: &Scen, gs: &[Arc<Graph>], agg: &mut Agg) -> Checked {
    let c = &s.cmps[0];
    let g = &gs[c.g];
    if !c.api.cyclic_ok() || !admissible(g, c) {
        return Ok(Held::Skip);
    }
    let small = work(g, c).is_some_and(|w| w <= 100_000);
    let o = run_ok(g, c, small, agg)?;
    check_verdict(g, c, &o)?;
    if small {
        well_founded(g, c, &o, agg)?;
    }
    Ok(Held::Yes(o.s.hash, o.s.expansions >= 2))
}

/// Equivalence may be reported only if what was looked at implies it, assuming nothing of the rest. If
/// it does not, then there are graphs that look the same so far, and yet are not equivalent: such are
/// tried, and judged by the verdict on them.
fn well_founded(g: &Graph, c: &Cmpn, o: &Out, agg: &mut Agg) -> Result<(), String> {
    if !verdict(o).is_some_and(|v| v.ord.is_eq()) || o.trace.len() >= TRACE_MAX {
        return Ok(());
    }
    let Some((x, mut class)) = unrelated(g, c, o) else {
        agg.add("verdicts implied by what was looked at", 1);
        return Ok(());
    };
    agg.add("verdicts not implied by what was looked at", 1);
    let n = g.n();
    let of_x = class.find(x);
    let members: Vec<usize> = (0..n).filter(|&i| class.find(i as u32) == of_x).collect();
    let fresh = g.label.iter().max().map_or(0, |l| l + 1);
    for way in 0..4 {
        let mut h = g.clone();
        let leaf = h.add(fresh, vec![]);
        for &i in &members {
            let e = &mut h.edges[i];
            match way {
                0 => h.label[i] = fresh,
                1 if (e.len() as u64) < c.max_width() => e.push(leaf),
                2 if !e.is_empty() => *e.last_mut().unwrap() = leaf,
                3 if !e.is_empty() => e[0] = leaf,
                _ => (),
            }
        }
        if work(&h, c).is_none_or(|w| w > 1_000_000) {
            continue;
        }
        let h = Arc::new(h);
        let o = run_ok(&h, c, false, agg)?;
        check_verdict(&h, c, &o)
            .map_err(|m| format!("changed where this comparison had not looked (at nodes {members:?}): {m}"))?;
    }
    Ok(())
}

struct Classes(Vec<u32>);
impl Classes {
    fn find(&mut self, mut x: u32) -> u32 {
        while self.0[x as usize] != x {
            self.0[x as usize] = self.0[self.0[x as usize] as usize];
            x = self.0[x as usize];
        }
        x
    }
    fn join(&mut self, x: u32, y: u32) {
        let (x, y) = (self.find(x), self.find(y));
        self.0[x as usize] = y;
    }
}

/// A node that had to be shown equivalent to another and was not, with the classes of what was: the
/// least equivalence of all pairs that were compared equal and of which all edges were requested.
fn unrelated(g: &Graph, c: &Cmpn, o: &Out) -> Option<(u32, Classes)> {
    #[derive(Clone, Copy, Default)]
    struct H {
        n: u32,
        partner: u32,
        full: bool,
    }
    let mut hs: HashMap<u32, H> = HashMap::new();
    let last = c.max_width().saturating_sub(1);
    for e in &o.trace {
        match e.k {
            K::Cmp if e.x == 0 => {
                hs.insert(e.h, H { n: e.n, partner: e.h2, full: false });
                hs.insert(e.h2, H { n: e.m, partner: 0, full: false });
            }
            K::Edge if e.m == 0 || e.x == last => {
                if let Some(h) = hs.get_mut(&e.h) {
                    h.full = true;
                }
            }
            _ => (),
        }
    }
    let mut class = Classes((0..g.n() as u32).collect());
    let mut shown = vec![];
    for a in hs.values().filter(|h| h.full && h.partner != 0) {
        if let Some(b) = hs.get(&a.partner).filter(|b| b.full) {
            class.join(a.n, b.n);
            shown.push((a.n, b.n));
        }
    }
    shown.sort_unstable();
    shown.dedup();
    if class.find(c.l) != class.find(c.r) {
        return Some((c.l, class));
    }
    for (a, b) in shown {
        for (x, y) in g.edges[a as usize].iter().zip(&g.edges[b as usize]) {
            if class.find(*x) != class.find(*y) {
                return Some((*x, class));
            }
        }
    }
    None
}

// ---------------------------------------------------------------------- C02

fn gen_c02(r: &mut Prng) -> Scen {
    let mut c = Cmpn::new(0, 0, gen_cyc_api(r, true));
    gen_env(r, &mut c);
    // Adversarial schedules more often.
    if r.chance(1, 2) {
        c.rng = Script { v: vec![], tail: 1, seed: 0 };
    }
    c.hash_mask = u64::MAX;
    if r.chance(1, 60) {
        return gen_c02_finds(r, c);
    }
    let w = usual_work(r);
    let g = if r.chance(1, 3) {
        // Shapes that need as many merges as possible and leave as much work as possible.
        let mut g = tight_cycles(r, &mut c);
        if work(&g, &c).is_none_or(|x| x > 1_500_000) {
            g = gen_graph(r, &mut c, false, 10, w);
        }
        g
    } else {
        gen_graph(r, &mut c, false, 15, w)
    };
    Scen::one("C02", g, c)
}

/// One long slow phase that merges classes of equal weight by pairs, so that link chains get as long
/// as weighted union lets them, and then looks up, again and again, what is the farthest from its
/// representative.
fn gen_c02_finds(r: &mut Prng, mut c: Cmpn) -> Scen {
    let f = *r.pick(&[F::Inter, F::Inter, F::Pre]);
    c.api = Api { rm: r.range(1, 2) as u8, lim: 11, ..Api::new(f) };
    let huge = r.chance(1, 20);
    if huge {
        // Premade tables that grow far.
        c.api = if r.chance(1, 4) {
            Api::new(*r.pick(&[F::Rob, F::RobPre]))
        } else {
            Api { rm: r.range(1, 2) as u8, tab: 2, lim: 8, ..Api::new(F::Inter) }
        };
    }
    c.rng = Script { v: vec![], tail: 0, seed: 0 };
    let n = 1usize << if huge { r.range(14, 16) as u32 } else { *r.pick(&[6u32, 8, 9, 10, 10, 11, 12, 13]) };
    let flip = r.chance(1, 2);
    let any = r.usize(n);
    let far = *r.pick(&[n - 1, n - 1, 0, any]);
    let any = r.usize(n);
    let other = *r.pick(&[far, far, far ^ 1, any]);
    let repeats = r.range(3, 6) * n as u64;
    let mut g = tournament(&mut c, n, flip, (far, other), repeats);
    if huge && r.chance(1, 2) {
        // Then what is without end if its nodes, after so many others, are not recorded.
        let levels = r.range(30, 60);
        for root in [c.l, c.r] {
            let mut x = g.add(0, vec![]);
            for _ in 0..levels {
                x = g.add(0, vec![x, x]);
            }
            g.edges[root as usize].push(x);
        }
        return Scen::one("C02", g, c);
    }
    Scen::one("C02", g, c).with("repeats", vec![repeats as i64])
}

/// Pairs by themselves, then pairs of pairs, and so on; then one pair again and again.
fn tournament(c: &mut Cmpn, n: usize, flip: bool, (far, other): (usize, usize), repeats: u64) -> Graph {
    let mut g = Graph::default();
    let (l, m) = (g.add(0, vec![]), g.add(0, vec![]));
    let left: Vec<u32> = (0..n).map(|_| g.add(0, vec![l])).collect();
    let right: Vec<u32> = (0..n).map(|_| g.add(0, vec![m])).collect();
    let mut script: Vec<(u32, u32)> = (0..n).map(|i| (left[i], right[i])).collect();
    let mut step = 1;
    while step < n {
        for i in (0..n).step_by(2 * step) {
            let (x, y) = if flip { (i + step, i) } else { (i, i + step) };
            script.push((left[x], right[y]));
        }
        step *= 2;
    }
    for _ in 0..repeats {
        script.push((left[far], right[other]));
    }
    c.l = g.add(0, script.iter().map(|p| p.0).collect());
    c.r = g.add(0, script.iter().map(|p| p.1).collect());
    g
}

/// Two cycles of coprime lengths with every edge doubled: one class, endless work if undetected.
fn tight_cycles(r: &mut Prng, c: &mut Cmpn) -> Graph {
    let (_, f, s) = c.api.limits();
    let top = if f > 1000 { 12 } else { (20 * u64::from(s) / 10).clamp(8, 500) };
    let mut g = Graph::default();
    let (p, q) = (r.range(1, top), r.range(1, top));
    let k = r.range(1, 3) as usize;
    let mut roots = vec![];
    for len in [p, q] {
        let st = g.n() as u32;
        for i in 0..len as u32 {
            g.add(0, vec![st + (i + 1) % len as u32; k]);
        }
        roots.push(st);
    }
    c.l = roots[0];
    c.r = roots[1];
    g
}

fn check_c02(s: &Scen, gs: &[Arc<Graph>], agg: &mut Agg) -> Checked {
    let c = &s.cmps[0];
    let g = &gs[c.g];
    if !c.api.cyclic_ok() || !admissible(g, c) {
        return Ok(Held::Skip);
    }
    let o = run_ok(g, c, false, agg)?;
    work_bounds(g, c, &o, agg)?;
    if let [repeats] = s.ex("repeats") {
        settled_cost(g, c, &o, *repeats as usize, agg)?;
    }
    Ok(Held::Yes(o.s.hash, o.s.expansions >= 3))
}

/// What 100 further lookups of the same pair cost, once it has been looked up often: accesses of
/// class pointers, and clones of these.
fn settled(g: &Graph, c: &Cmpn, o: &Out, repeats: usize, agg: &mut Agg) -> Result<Option<u64>, String> {
    let fewer = repeats / 2;
    let edges = [&g.edges[c.l as usize], &g.edges[c.r as usize]];
    let same = |e: &Vec<u32>| e.len() > repeats && e[e.len() - repeats..].windows(2).all(|w| w[0] == w[1]);
    if c.api.f != F::Inter || c.api.tab != 0 || fewer < 64 || c.l == c.r || !edges.iter().all(|e| same(e)) {
        return Ok(None);
    }
    let mut less = g.clone();
    for n in [c.l, c.r] {
        let e = &mut less.edges[n as usize];
        e.truncate(e.len() - fewer);
    }
    let half = run_ok(&Arc::new(less), c, false, agg)?;
    let acc = |o: &Out| o.s.counts[K::RcDeref as usize] + o.s.counts[K::RcClone as usize];
    let cost = acc(o).saturating_sub(acc(&half));
    let lookups = o.s.counts[K::TGet as usize].saturating_sub(half.s.counts[K::TGet as usize]) / 2;
    Ok((lookups >= 50).then(|| cost * 100 / lookups))
}

/// However long a chain got, once settled it costs about what the shortest do.
fn settled_cost(g: &Graph, c: &Cmpn, o: &Out, repeats: usize, agg: &mut Agg) -> Result<(), String> {
    static SHORT: std::sync::OnceLock<u64> = std::sync::OnceLock::new();
    let Some(cost) = settled(g, c, o, repeats, agg)? else { return Ok(()) };
    let short = match SHORT.get() {
        Some(x) => *x,
        None => {
            let mut max = 0;
            let mut c = Cmpn::new(0, 0, Api { rm: 1, lim: 11, ..Api::new(F::Inter) });
            c.rng = Script { v: vec![], tail: 0, seed: 0 };
            for i in 0..32 {
                let g = tournament(&mut c, 4, i & 1 != 0, (i >> 1 & 3, i >> 3), 400);
                let o = run_ok(&Arc::new(g.clone()), &c, false, agg)?;
                max = max.max(settled(&g, &c, &o, 400, agg)?.unwrap_or(0));
            }
            *SHORT.get_or_init(|| max)
        }
    };
    agg.max("class accesses per 100 settled lookups", cost);
    agg.max("class accesses per 100 settled lookups in short chains", short);
    if short != 0 && cost > 2 * short + 800 {
        return Err(format!(
            "{}: after many lookups of the same pair, 100 further ones take {cost} accesses to classes, \
             where classes are small {short}",
            c.api.name()
        ));
    }
    Ok(())
}

fn work_bounds(g: &Graph, c: &Cmpn, o: &Out, agg: &mut Agg) -> Result<(), String> {
    let (p, f, sl) = c.api.limits();
    let roots = [c.l, c.r];
    let n = g.branches(&roots);
    let last = o.s.starts.last().copied().unwrap_or((0, 0, 0));
    // Without a second start, a precheck that ended.
    let precheck_only = c.api.has_precheck() && o.s.starts.len() < 2 && p > 0;
    let (pre_visits, main_exp) = if precheck_only {
        (o.s.visits, 0)
    } else if c.api.has_precheck() {
        (last.0, o.s.expansions - last.1)
    } else {
        (0, o.s.expansions)
    };
    if pre_visits > u64::from(p) {
        return Err(format!(
            "{}: the precheck traversed {pre_visits} pairs, its limit is {p}",
            c.api.name()
        ));
    }
    let mut bound = descent_bound(n, f, sl);
    if matches!(o.res, Res::Ok(v) if v.ord.is_eq()) {
        // Merges never exceed the nodes minus the classes of equivalent nodes.
        let m = n - classes(g, &roots).min(n);
        bound = bound.min(descent_bound(m + 1, f, sl));
    }
    agg.max("descents as per mille of the bound", main_exp * 1000 / bound.max(1));
    if main_exp > bound {
        return Err(format!(
            "{}: descended into {main_exp} pairs, the bound is {bound} ({n} branch nodes, fast \
             limit {f}, slow limit {sl})",
            c.api.name()
        ));
    }
    if c.api.tab == 0 && c.api.rng == 0 && matches!(c.api.f, F::Inter | F::Pre) {
        let pairs = o.s.counts[K::TGet as usize] / 2;
        let acc = o.s.counts[K::RcDeref as usize] + o.s.counts[K::RcClone as usize];
        // Both classes looked up, maybe united, maybe new: constant, but for what is spread over
        // all lookups by shortening the chains.
        let allowed = 100 + 80 * pairs + 24 * n;
        agg.max("class accesses as per mille of the bound", acc * 1000 / allowed);
        if acc > allowed {
            return Err(format!(
                "{}: {acc} accesses to classes for {pairs} lookups of pairs among {n} branch nodes",
                c.api.name()
            ));
        }
    }
    Ok(())
}

/// Classes of bisimilar branch nodes reachable from the roots.
fn classes(g: &Graph, roots: &[u32]) -> u64 {
    let reach = g.reach(roots);
    let n = g.n();
    let mut class: Vec<u32> = g.label.clone();
    let mut count = 0;
    loop {
        let mut ids: HashMap<(u32, Vec<u32>), u32> = HashMap::new();
        let next: Vec<u32> = (0..n)
            .map(|i| {
                let key = (class[i], g.edges[i].iter().map(|e| class[*e as usize]).collect());
                let k = ids.len() as u32;
                *ids.entry(key).or_insert(k)
            })
            .collect();
        let k = ids.len();
        class = next;
        // Refinement is costly on long graphs: fewer classes only weaken the bound.
        if k == count || k * n > 2_000_000 {
            break;
        }
        count = k;
    }
    let set: HashSet<u32> =
        (0..n).filter(|&i| reach[i] && !g.edges[i].is_empty()).map(|i| class[i]).collect();
    set.len() as u64
}

// ---------------------------------------------------------------------- C03

fn gen_c03(r: &mut Prng) -> Scen {
    let plain = r.chance(2, 5);
    let api = if plain { gen_plain_api(r) } else { gen_cyc_api(r, false) };
    let mut c = Cmpn::new(0, 0, api);
    gen_kind(r, &mut c);
    gen_env(r, &mut c);
    let acyclic = plain || r.chance(1, 2);
    if r.chance(1, 400) {
        if let Some((g, c)) = giant(r, &c, acyclic) {
            return Scen::one("C03", g, c);
        }
    }
    let g = gen_graph(r, &mut c, acyclic, 85, 40_000);
    Scen::one("C03", g, c)
}

/// The value that must come out, where it is determined by the graphs alone.
pub fn expected(g: &Graph, c: &Cmpn) -> Option<Vd> {
    if let Some(pre) = c.api.pre_rm() {
        let (p, ..) = c.api.limits();
        let m = model(g, c, strat_of(pre)?, Some(p.into()), u64::MAX);
        match m.stop {
            Stop::Done(v) => return Some(v),
            Stop::Limit => (),
            other => panic!("HARNESS: model {other:?}"),
        }
    }
    let st = c.strategy()?;
    if st == Strategy::Dfs && !g.acyclic(&[c.l, c.r]) {
        return None;
    }
    first_difference(g, c.l, c.r, st)
}

fn check_c03(s: &Scen, gs: &[Arc<Graph>], agg: &mut Agg) -> Checked {
    let c = &s.cmps[0];
    let g = &gs[c.g];
    if matches!(c.api.f, F::Lim | F::Desc) || c.api.budget.is_some() || !admissible(g, c) {
        return Ok(Held::Skip);
    }
    let o = run_ok(g, c, true, agg)?;
    check_verdict(g, c, &o)?;
    let got = verdict(&o).unwrap();
    let rich = c.rich();
    if let Some(e) = expected(g, c) {
        agg.add("exact first difference known", 1);
        if reduce(e, rich) != got {
            return Err(format!(
                "{}: the first difference gives {:?}{}, but the result was {:?}",
                c.api.name(),
                e.ord,
                if e.tag == 0 { " (amounts of edges)" } else { " (own values)" },
                got
            ));
        }
    }
    let mirror = genuine(c, &o, got, rich)?;
    // Exchange the operands.
    let mut c2 = c.clone();
    (c2.l, c2.r) = (c.r, c.l);
    let o2 = run_ok(g, &c2, false, agg)?;
    let got2 = verdict(&o2).ok_or_else(|| format!("exchanged: {:?}", o2.res))?;
    if let Some(m) = mirror {
        if got2 != reduce(m, rich) {
            return Err(format!(
                "{}: the result is {:?}, with operands exchanged it is {:?} instead of {:?}",
                c.api.name(),
                got,
                got2,
                reduce(m, rich)
            ));
        }
    }
    Ok(Held::Yes(o.s.hash, got.ord.is_ne() && o.s.visits > 2))
}

/// The result is that of the last thing looked at.  Returns what exchanged operands must give.
fn genuine(c: &Cmpn, o: &Out, got: Vd, rich: u8) -> Result<Option<Vd>, String> {
    let name = c.api.name();
    let looks: Vec<&Ev> =
        o.trace.iter().filter(|e| matches!(e.k, K::Id | K::Cmp | K::Edge)).collect();
    let differing: Vec<usize> =
        (0..looks.len()).filter(|&i| looks[i].k == K::Cmp && looks[i].x != 0).collect();
    if got.ord.is_eq() {
        return if differing.is_empty() {
            Ok(Some(Vd::EQ))
        } else {
            Err(format!("{name}: equivalent, though a pair compared as different"))
        };
    }
    match differing[..] {
        [] => {
            // The amounts of edges must differ for the last looks.
            let n = looks.len();
            let mut l = None;
            let mut r = None;
            for e in looks[n.saturating_sub(2)..].iter().filter(|e| e.k == K::Edge) {
                if e.side == 0 {
                    l = Some(e);
                } else {
                    r = Some(e);
                }
            }
            match (l, r) {
                (Some(l), Some(r)) if l.pos == r.pos && l.x == r.x && (l.m == 0) != (r.m == 0) => {
                    let v = Vd { ord: if l.m == 0 { Ordering::Less } else { Ordering::Greater }, tag: 0 };
                    if reduce(v, rich) != got {
                        return Err(format!(
                            "{name}: the {} node has fewer edges, the result was {got:?}",
                            if l.m == 0 { "left" } else { "right" }
                        ));
                    }
                    Ok(Some(Vd { ord: v.ord.reverse(), tag: 0 }))
                }
                _ => Err(format!(
                    "{name}: different ({got:?}), but the last things looked at do not differ"
                )),
            }
        }
        [i] if i + 1 == looks.len() => {
            let e = looks[i];
            let ord = if e.x as i64 as i8 > 0 { Ordering::Greater } else { Ordering::Less };
            let v = Vd { ord, tag: tag_of(e.n, e.m) };
            if reduce(v, rich) != got {
                return Err(format!("{name}: the pair compared as {ord:?}, the result was {got:?}"));
            }
            Ok(Some(Vd { ord: ord.reverse(), tag: tag_of(e.m, e.n) }))
        }
        _ => Err(format!("{name}: went on looking after a pair compared as different")),
    }
}

// ---------------------------------------------------------------------- C04

fn gen_c04(r: &mut Prng) -> Scen {
    let mut a = loop {
        let a = gen_cyc_api(r, true);
        if a.has_precheck() {
            break a;
        }
    };
    if a.f == F::Pre && !a.by_hand() && a.tab == 0 && a.rng == 0 && r.chance(1, 2) {
        // Cut off at many different points.
        a.lim = *r.pick(&[1u8, 2, 4, 5, 7, 8, 9, 10, 11, 13, 14, 16, 17]);
    }
    let mut c = Cmpn::new(0, 0, a);
    gen_kind(r, &mut c);
    gen_env(r, &mut c);
    if r.chance(1, 60) {
        // Limits and lengths about the greatest possible.
        c.api = Api { rm: r.below(7) as u8, lim: *r.pick(&[15u8, 15, 3]), ..Api::new(F::Pre) };
        c.kind = 0;
        c.hash_mask = u64::MAX;
        let g = long_tree(r, &mut c);
        if work(&g, &c).is_some_and(|w| w <= 400_000) {
            return Scen::one("C04", g, c);
        }
    }
    let w = usual_work(r);
    let acyclic = r.chance(1, 3);
    let g = gen_graph(r, &mut c, acyclic, 40, w);
    Scen::one("C04", g, c)
}

/// Now and then, more of everything than 16 bits can count: long, wide or deep, perhaps with a difference
/// somewhere.
fn giant(r: &mut Prng, c: &Cmpn, acyclic: bool) -> Option<(Graph, Cmpn)> {
    let mut c = c.clone();
    c.kind = 0;
    c.hash_mask = u64::MAX;
    c.ix_cap = u64::MAX;
    if c.api.budget.is_some() && r.chance(1, 2) {
        c.api.budget = c.api.budget.map(|b| b + 60_000);
    }
    let size = *r.pick(&[3_000, 9_000, 20_000, 33_000, 66_000, 66_000, 70_000, 100_000]);
    let which = r.below(5);
    let g = if which == 0 {
        long_tree(r, &mut c)
    } else if which < 3 {
        let (g, l, rr) = gen_pending(r);
        (c.l, c.r) = (l, rr);
        g
    } else {
        let (mut g, l, rr) = gen_extreme(r, size, acyclic);
        (c.l, c.r) = (l, rr);
        let n = g.n();
        let (any, near) = (r.usize(n), r.usize(4).min(n - 1));
        let at = *r.pick(&[any, any, near, n - 1 - near, (n / 2).saturating_sub(1 + near)]);
        match r.below(5) {
            0 | 1 => g.label[at] += 1,
            2 => {
                g.edges[at].pop();
            }
            _ => (),
        }
        g
    };
    work(&g, &c).is_some_and(|w| w <= 3_000_000).then_some((g, c))
}

/// Acyclic graphs of as many pairs as 15 or 16 bits can just count, or just not.
fn long_tree(r: &mut Prng, c: &mut Cmpn) -> Graph {
    let total = *r.pick(&[
        32_766u64, 32_767, 32_768, 32_769, 40_000, 65_534, 65_535, 65_536, 65_537, 65_538, 70_000,
    ]) + if r.chance(1, 4) { r.below(5) } else { 0 };
    let mut g = Graph::default();
    // Some at the end of the traversal.
    let diff = r.below(4);
    let roots = [0u32, 1].map(|side| {
        let mut left = total - 1;
        // Of depth d are 2^(d+1)-1.
        let mut full = vec![g.add(0, vec![])];
        while (2u64 << full.len()) - 1 <= left {
            let x = *full.last().unwrap();
            full.push(g.add(0, vec![x, x]));
        }
        let mut edges = vec![];
        while left > 0 {
            let d = full.len() - 1;
            let n = (2u64 << d) - 1;
            if n <= left {
                edges.push(full[d]);
                left -= n;
            } else {
                full.pop();
            }
        }
        if side == 1 && diff == 0 {
            let l = g.add(1, vec![]);
            *edges.last_mut().unwrap() = l;
        }
        g.add(0, edges)
    });
    c.l = roots[0];
    c.r = roots[1];
    g
}

fn check_c04(s: &Scen, gs: &[Arc<Graph>], agg: &mut Agg) -> Checked {
    let c = &s.cmps[0];
    let g = &gs[c.g];
    if !c.api.has_precheck() || !admissible(g, c) {
        return Ok(Held::Skip);
    }
    let name = c.api.name();
    let (p, ..) = c.api.limits();
    let o = run_ok(g, c, true, agg)?;
    check_verdict(g, c, &o)?;
    let got = verdict(&o).unwrap();
    let rich = c.rich();
    let observable = c.api.tab != 2 && c.api.f == F::Pre;
    let expect = match strat_of(c.api.pre_rm().unwrap()) {
        Some(st) => Some(model(g, c, st, Some(p.into()), u64::MAX)),
        None => None,
    };
    let aborted = match &expect {
        Some(m) => m.stop == Stop::Limit,
        None => p == 0 || o.s.starts.len() > 1,
    };
    if let Some(m) = &expect {
        agg.add("precheck predicted by model", 1);
        if let Stop::Done(v) = m.stop {
            if reduce(v, rich) != got {
                return Err(format!(
                    "{name}: the precheck completes with {:?}, but the result was {:?}",
                    v.ord, got.ord
                ));
            }
        }
        let starts = 1 + usize::from(aborted && p > 0);
        if o.s.starts.len() != starts {
            return Err(format!(
                "{name}: the original pair was taken up {} times, expected {starts} (precheck limit {p})",
                o.s.starts.len()
            ));
        }
        let pre_visits = if !aborted {
            o.s.visits
        } else if p == 0 {
            0
        } else {
            o.s.starts[1].0
        };
        if pre_visits != m.visits {
            return Err(format!(
                "{name}: the precheck traversed {pre_visits} pairs, it should have {} (limit {p})",
                m.visits
            ));
        }
        let cut = if aborted { o.s.starts.last().unwrap().2 as usize } else { o.trace.len() };
        let pre: Vec<u64> = if aborted && p == 0 { vec![] } else {
            o.trace[..cut].iter().filter(|e| e.k == K::Cmp).map(|e| e.pos).collect()
        };
        if pre != m.compared {
            return Err(format!("{name}: the precheck compared other pairs than those of its order"));
        }
    }
    if o.s.starts.len() > 2 {
        return Err(format!("{name}: the original pair was taken up {} times", o.s.starts.len()));
    }
    if aborted {
        if p > 0 && o.s.starts[1].0 != u64::from(p) {
            return Err(format!(
                "{name}: the precheck was cut off after {} pairs, its limit is {p}",
                o.s.starts[1].0
            ));
        }
        if observable && o.s.tables != 1 {
            return Err(format!("{name}: {} tables were made", o.s.tables));
        }
    } else {
        if o.s.visits > u64::from(p) {
            return Err(format!("{name}: the precheck traversed {} pairs of {p}", o.s.visits));
        }
        if (observable && o.s.tables != 0) || o.s.rng_draws != 0 {
            return Err(format!(
                "{name}: the precheck completed but cycle detection was started ({} tables, {} draws)",
                o.s.tables, o.s.rng_draws
            ));
        }
    }
    let clones: Vec<&Ev> = o.trace.iter().filter(|e| e.k == K::Clone).collect();
    let roots = clones.iter().all(|e| e.pos == root_pos());
    let per = |side| clones.iter().filter(|e| e.side == side).count();
    if !roots || per(0) > 1 || per(1) > 1 {
        return Err(format!("{name}: nodes were cloned {} times", clones.len()));
    }
    // The second phase must be as if alone.
    let mut c2 = c.clone();
    c2.api.f = match c.api.f {
        F::CycPre => F::Cyc,
        F::RobPre => F::Rob,
        _ => F::Inter,
    };
    if c.api.f == F::Pre {
        c2.api.rm = RMS.iter().position(|m| *m == COMBOS[c.api.rm as usize].1).unwrap() as u8;
    }
    let o2 = run_ok(g, &c2, true, agg)?;
    check_verdict(g, &c2, &o2)?;
    if aborted {
        let interfering = c.reseed != 0;
        if !interfering && o2.res != o.res {
            return Err(format!(
                "{name}: the result is {:?}, without precheck {:?}",
                o.res, o2.res
            ));
        }
        // With the real thread-local generator shared, draws of both runs agree as it is reseeded.
        let a = &o.trace[o.s.starts.last().unwrap().2 as usize..];
        let b = &o2.trace[o2.s.starts[0].2 as usize..];
        // In a store, places (and so hashes) depend on what had been there before.
        let steady = |e: &&Ev| {
            c.kind != K_STORE || !matches!(e.k, K::IdHash | K::IdEq)
        };
        let a: Vec<&Ev> = a.iter().filter(steady).collect();
        let b: Vec<&Ev> = b.iter().filter(steady).collect();
        if !interfering && !(a.len() == b.len() && a.iter().zip(&b).all(|(x, y)| x.same(y))) {
            let i = a.iter().zip(&b).position(|(x, y)| !x.same(y)).unwrap_or(a.len().min(b.len()));
            return Err(format!(
                "{name}: after the precheck was cut off, step {i} of the second phase is {:?} \
                 instead of {:?}",
                a.get(i).map(|e| (KN[e.k as usize], e.n, e.x)),
                b.get(i).map(|e| (KN[e.k as usize], e.n, e.x))
            ));
        }
    }
    Ok(Held::Yes(o.s.hash, aborted && o.s.expansions > 1))
}

// ---------------------------------------------------------------------- C05

fn gen_c05(r: &mut Prng) -> Scen {
    let f = *r.pick(&[F::Basic, F::Deep, F::Wide, F::Basic, F::Deep, F::Wide, F::Lim]);
    let mut a = Api::new(f);
    if f == F::Lim {
        a.rm = r.below(4) as u8;
    }
    a.budget = Some(50);
    let mut c = Cmpn::new(0, 0, a);
    gen_kind(r, &mut c);
    gen_env(r, &mut c);
    c.hash_mask = u64::MAX;
    let acyclic = r.chance(1, 2);
    let g = gen_graph(r, &mut c, acyclic, 40, 20_000);
    // How many pairs would it take?
    let st = c.strategy().unwrap_or(Strategy::Dfs);
    let mut v = u128::from(model(&g, &c, st, None, 20_000).visits);
    let mut g = g;
    let acyclic = if r.chance(1, 100) {
        g = long_tree(r, &mut c);
        v = u128::from(model(&g, &c, st, None, 80_000).visits);
        c.kind = 0;
        true
    } else {
        acyclic
    };
    c.api.bty = if c.api.f == F::Lim { 2 } else { r.below(6) as u8 };
    let b = match r.below(9) {
        0 => v,
        1 => v.saturating_sub(1),
        2 => v + 1,
        3 => 0,
        4 => 1,
        5 | 6 => u128::from(r.below(v.min(80_000) as u64 + 2)),
        7 => u128::from(r.below(300)),
        _ => {
            // The greatest of the type and those at which narrower ones would wrap, when it ends
            // anyway.
            let bits = match c.api.bty {
                0 => 8,
                1 => 16,
                2 => 32,
                4 => 128,
                _ => 64,
            };
            if !acyclic {
                *r.pick(&[127, 128, 256, 260, 32768])
            } else if r.chance(1, 4) {
                u128::MAX >> (128 - bits)
            } else {
                let k = *r.pick(&[7, 8, 15, 16, 31, 32, 63, 64, 127]);
                (1 << (k % bits)) + u128::from(r.below(7)) - 1
            }
        }
    };
    let top = match c.api.bty {
        0 => 255,
        1 => 65535,
        2 => u128::from(u32::MAX),
        4 => u128::MAX,
        _ => u128::from(u64::MAX),
    };
    c.api.budget = Some(b.min(top));
    Scen::one("C05", g, c)
}

fn check_c05(s: &Scen, gs: &[Arc<Graph>], agg: &mut Agg) -> Checked {
    let c = &s.cmps[0];
    let g = &gs[c.g];
    let Some(l) = c.api.budget else { return Ok(Held::Skip) };
    let bits = match c.api.bty {
        0 => 8,
        1 => 16,
        2 => 32,
        4 => 128,
        _ => 64,
    };
    if !matches!(c.api.f, F::Basic | F::Deep | F::Wide | F::Lim)
        || (c.api.f == F::Lim && c.api.bty != 2)
        || (bits < 128 && l >> bits != 0)
    {
        return Ok(Held::Skip);
    }
    let name = c.api.name();
    let rich = c.rich();
    const TOP: u64 = 120_000;
    let Some(st) = c.strategy() else {
        // Any order: against the unlimited comparison under the same order.
        let mut c2 = c.clone();
        c2.api.f = F::Unl;
        if !g.acyclic(&[c.l, c.r]) || !work(g, &c2).is_some_and(|w| w <= 200_000) {
            return Ok(Held::Skip);
        }
        let u = run_ok(g, &c2, true, agg)?;
        let o = execute(g, c, Watch { trace: true, cap: 40 * u.s.events + 10_000, hook: None });
        agg.out(c, &o);
        no_mishap(c, &o)?;
        let cmps = |o: &Out| -> Vec<u64> {
            o.trace.iter().filter(|e| e.k == K::Cmp).map(|e| e.pos).collect()
        };
        if u128::from(u.s.visits) <= l {
            if o.res != u.res || o.s.visits != u.s.visits || cmps(&o) != cmps(&u) {
                return Err(format!(
                    "{name}: {} pairs suffice and {l} were granted, but {:?} instead of {:?}",
                    u.s.visits, o.res, u.res
                ));
            }
        } else if o.res != Res::Limit || u128::from(o.s.visits) != l {
            return Err(format!(
                "{name}: {} pairs needed and {l} granted, but {:?} after {}",
                u.s.visits, o.res, o.s.visits
            ));
        } else if !cmps(&u).starts_with(&cmps(&o)) {
            return Err(format!("{name}: a limit changed which pairs are compared"));
        }
        return Ok(Held::Yes(o.s.hash, o.s.visits > 1));
    };
    let m = model(g, c, st, Some(l), TOP);
    if m.stop == Stop::GaveUp {
        return Ok(Held::Skip);
    }
    let o = execute(g, c, Watch { trace: true, cap: 400 * m.visits + 10_000, hook: None });
    agg.out(c, &o);
    no_mishap(c, &o)?;
    let want = match m.stop {
        Stop::Limit => Res::Limit,
        Stop::Done(v) => Res::Ok(reduce(v, rich)),
        other => panic!("HARNESS: {other:?}"),
    };
    if o.res != want {
        return Err(format!(
            "{name}: with {l} pairs granted the result must be {want:?}, it was {:?}",
            o.res
        ));
    }
    if o.s.visits != m.visits {
        return Err(format!(
            "{name}: with {l} pairs granted, {} were traversed instead of {}",
            o.s.visits, m.visits
        ));
    }
    let cmps: Vec<u64> = o.trace.iter().filter(|e| e.k == K::Cmp).map(|e| e.pos).collect();
    if cmps != m.compared {
        return Err(format!("{name}: other pairs were compared than those of the order"));
    }
    Ok(Held::Yes(o.s.hash ^ mix(l as u64), o.s.visits > 1 || l < 2))
}

// ---------------------------------------------------------------------- C06

fn gen_c06(r: &mut Prng) -> Scen {
    let mut a = Api::new(*r.pick(&[F::Inter, F::Pre, F::Pre, F::Unl, F::Lim, F::Desc, F::Desc, F::Desc]));
    match a.f {
        F::Inter | F::Pre => {
            a.rm = if a.f == F::Inter { 3 } else { *r.pick(&[3u8, 3, 3, 6, 10, 13]) };
            a.lim = if a.rm >= 7 { *r.pick(&LIM_CHAIN) } else { r.below(NLIM) as u8 };
        }
        F::Unl | F::Lim => a.rm = 3,
        _ => a.rm = r.below(4) as u8,
    }
    if a.f == F::Lim {
        a.budget = Some(r.below(200).into());
    }
    let mut c = Cmpn::new(0, 0, a);
    gen_env(r, &mut c);
    c.hash_mask = u64::MAX;
    c.dec = Decide { trav: vec![], desc: vec![], skip: *r.pick(&[0u8, 0, 5, 30]), seed: r.next() };
    let cyc = a.cyclic_ok() && r.chance(2, 3);
    let large = if r.chance(1, 1000) { giant(r, &c, !cyc) } else { None };
    let g = if let Some((g, large)) = large {
        c = large;
        c.dec.skip = 0;
        g
    } else {
        gen_graph(r, &mut c, !cyc, 15, 20_000)
    };
    // When.
    let clean = execute(&Arc::new(g.clone()), &c, Watch { trace: false, cap: 3_000_000, hook: None });
    let code = r.range(2, 65535) as u16;
    c.fault = if a.f == F::Desc {
        match r.below(3) {
            0 => {
                let at = r.below(clean.s.trav + 1);
                c.dec.trav = (0..at).map(|i| c.dec.trav(i)).collect();
                c.dec.trav.push(code);
                Fault::None
            }
            1 => {
                let at = r.below(clean.s.desc + 1);
                c.dec.desc = (0..at).map(|i| c.dec.desc(i)).collect();
                c.dec.desc.push(code);
                Fault::None
            }
            _ => {
                c.lat |= 1;
                Fault::Deadline(r.below(clean.s.clock + 2), code)
            }
        }
    } else if r.chance(1, 3) {
        Fault::Quota(r.range(2, clean.s.peak_nodes as u64 + 2), code)
    } else {
        Fault::Recur(r.below(clean.s.recurs + 1), code)
    };
    Scen::one("C06", g, c)
}

fn check_c06(s: &Scen, gs: &[Arc<Graph>], agg: &mut Agg) -> Checked {
    let c = &s.cmps[0];
    let g = &gs[c.g];
    let name = c.api.name();
    if c.api.budget.is_some_and(|b| b > 100_000) || matches!(c.fault, Fault::Panic(_) | Fault::Release(_)) {
        return Ok(Held::Skip);
    }
    // Without the fault.
    let mut c0 = c.clone();
    c0.fault = Fault::None;
    c0.dec.trav.iter_mut().chain(&mut c0.dec.desc).for_each(|d| {
        if *d > 1 {
            *d = 0
        }
    });
    if !admissible(g, &c0) {
        return Ok(Held::Skip);
    }
    let clean = execute(g, &c0, watch(g, &c0, true));
    agg.out(&c0, &clean);
    no_mishap(c, &clean)?;
    let ok = match clean.res {
        Res::Ok(_) => true,
        Res::Limit => c.api.f == F::Lim,
        _ => false,
    };
    if !ok {
        return Err(format!("{name}: without any fault the result is {:?}", clean.res));
    }
    if c.api.cyclic_ok() {
        check_verdict(g, c, &clean)?;
    }
    let o = execute(g, c, watch(g, c, true));
    agg.out(c, &o);
    no_mishap(c, &o)?;
    if o.s.fault_fired > 0 {
        let codes: Vec<u16> = c.dec.trav.iter().chain(&c.dec.desc).copied().filter(|d| *d > 1).collect();
        let want: Vec<u32> = match c.fault {
            Fault::Recur(_, code) | Fault::Quota(_, code) | Fault::Deadline(_, code) => {
                let mut v = vec![u32::from(code)];
                v.extend(codes.iter().map(|x| u32::from(*x)));
                v
            }
            _ => codes.iter().map(|x| u32::from(*x)).collect(),
        };
        match o.res {
            Res::Err(code) if want.contains(&code) => (),
            ref other => {
                return Err(format!(
                    "{name}: a component failed with {want:?}, but the comparison ended with {other:?}"
                ))
            }
        }
        if o.s.fault_fired > 1 || o.s.after_fault > 0 {
            return Err(format!(
                "{name}: {} further calls were made after a component failed",
                o.s.after_fault.max(1)
            ));
        }
        let n = o.trace.len().saturating_sub(1);
        let decided = c.dec.trav.iter().chain(&c.dec.desc).any(|d| *d > 1);
        let last_may_differ = usize::from(decided);
        if n > clean.trace.len()
            || !o.trace[..n + 1 - last_may_differ]
                .iter()
                .zip(&clean.trace)
                .all(|(a, b)| a.same(b))
        {
            return Err(format!("{name}: a fault to come changed the steps before it"));
        }
        let (p, ..) = c.api.limits();
        if c.api.has_precheck() && p > 0 && o.s.starts.len() == 1 && c.api.pre_rm() == Some(Rm::Pool) {
            agg.add("fault: error during precheck", 1);
            if o.s.tables > 0 {
                return Err(format!("{name}: the second phase was prepared after the precheck failed"));
            }
        }
    } else if o.res != clean.res {
        return Err(format!(
            "{name}: no component failed, but the result is {:?} instead of {:?}",
            o.res, clean.res
        ));
    }
    if o.s.live.iter().any(|l| *l != 0) {
        return Err(format!("{name}: not everything was released ({:?})", o.s.live));
    }
    let again = execute(g, &c0, watch(g, &c0, false));
    if again.s.hash != clean.s.hash || again.res != clean.res {
        return Err(format!("{name}: after the fault, the comparison goes differently"));
    }
    Ok(Held::Yes(o.s.hash, o.s.fault_fired > 0 && o.s.visits > 1))
}

// ---------------------------------------------------------------------- C07

fn gen_any(r: &mut Prng, max_work: u64) -> (Graph, Cmpn) {
    let api = match r.below(10) {
        0 | 1 => gen_plain_api(r),
        2 => {
            let mut a = gen_plain_api(r);
            if a.f == F::Unl {
                a.f = F::Lim;
            }
            a.budget = Some(r.below(100).into());
            a
        }
        3 => {
            let mut a = Api::new(F::Desc);
            a.rm = r.below(4) as u8;
            a
        }
        _ => gen_cyc_api(r, false),
    };
    let mut c = Cmpn::new(0, 0, api);
    gen_kind(r, &mut c);
    gen_env(r, &mut c);
    if api.f == F::Desc {
        c.dec = Decide { trav: vec![], desc: vec![], skip: r.below(20) as u8, seed: r.next() };
    }
    let cyc = (api.cyclic_ok() || api.budget.is_some()) && r.chance(4, 5);
    if r.chance(1, 1000) {
        if let Some(x) = giant(r, &c, !cyc) {
            return x;
        }
    }
    let g = gen_graph(r, &mut c, !cyc, 30, max_work);
    (g, c)
}

fn gen_c07(r: &mut Prng) -> Scen {
    let (g, mut c) = gen_any(r, 20_000);
    let clean = execute(&Arc::new(g.clone()), &c, Watch { trace: true, cap: 3_000_000, hook: None });
    let n = clean.s.events.max(1);
    let at = match r.below(4) {
        0 => r.range(1, n.min(60)),
        1 => r.range(1, n),
        _ if clean.trace.is_empty() => 1,
        _ => {
            // Any kind of call, rare ones as likely as others.
            let k = clean.trace[r.usize(clean.trace.len())].k;
            let kinds: Vec<K> = {
                let s: HashSet<K> = clean.trace.iter().map(|e| e.k).collect();
                let mut v: Vec<K> = s.into_iter().collect();
                v.sort();
                v
            };
            let k = if r.chance(3, 4) { *r.pick(&kinds) } else { k };
            let ats: Vec<u64> = clean
                .trace
                .iter()
                .enumerate()
                .filter(|(_, e)| e.k == k)
                .map(|(i, _)| i as u64 + 1)
                .collect();
            *r.pick(&ats)
        }
    };
    c.fault = Fault::Panic(at);
    if r.chance(1, 5) {
        let n = clean.s.releases.max(1);
        let (near, any, late) = (r.range(1, n.min(30)), r.range(1, n), n - r.below(n.min(10)));
        c.fault = Fault::Release(*r.pick(&[near, any, late]));
    }
    Scen::one("C07", g, c)
}

fn check_c07(s: &Scen, gs: &[Arc<Graph>], agg: &mut Agg) -> Checked {
    let c = &s.cmps[0];
    let g = &gs[c.g];
    let name = c.api.name();
    let (Fault::Panic(at) | Fault::Release(at)) = c.fault else { return Ok(Held::Skip) };
    let mut c0 = c.clone();
    c0.fault = Fault::None;
    if c.api.budget.is_some_and(|b| b > 100_000) || !admissible(g, &c0) {
        return Ok(Held::Skip);
    }
    let clean = run_ok(g, &c0, true, agg)?;
    let o = execute(g, c, watch(g, c, false));
    agg.out(c, &o);
    no_mishap(c, &o)?;
    let release = matches!(c.fault, Fault::Release(_));
    if at <= if release { clean.s.releases } else { clean.s.events } {
        let what = if release { "the release of a node" } else { KN[clean.trace[at as usize - 1].k as usize] };
        agg.add(&format!("fault: panic in {what}"), 1);
        if o.res != Res::Panicked(at) {
            return Err(format!(
                "{name}: a panic in {what} (step {at}) did not reach the caller: {:?}",
                o.res
            ));
        }
        if o.s.after_fault > 0 {
            return Err(format!(
                "{name}: {} further calls were made after a panic in {what} (step {at})",
                o.s.after_fault
            ));
        }
    } else if o.res != clean.res {
        return Err(format!("{name}: {:?} instead of {:?} without fault", o.res, clean.res));
    }
    // What is returned while something released panics is leaked by the compiler (rust-lang/rust#47949).
    if !release {
        released(c, &o)?;
    }
    let again = run_ok(g, &c0, false, agg)?;
    if again.s.hash != clean.s.hash || again.res != clean.res {
        return Err(format!(
            "{name}: after a panic (step {at}) the same comparison goes differently: {:?} in {} \
             steps instead of {:?} in {}",
            again.res, again.s.events, clean.res, clean.s.events
        ));
    }
    Ok(Held::Yes(o.s.hash ^ mix(at), clean.s.visits > 1))
}

fn released(c: &Cmpn, o: &Out) -> Result<(), String> {
    for (i, v) in o.s.live.iter().enumerate() {
        if *v != 0 {
            return Err(format!(
                "{}: {v} {} were not released (ended with {:?})",
                c.api.name(),
                LN[i],
                o.res
            ));
        }
    }
    Ok(())
}

// ---------------------------------------------------------------------- C08

fn gen_c08(r: &mut Prng) -> Scen {
    let (g, mut c) = gen_any(r, 30_000);
    let clean = execute(&Arc::new(g.clone()), &c, Watch { trace: false, cap: 3_000_000, hook: None });
    let code = r.range(2, 60000) as u16;
    c.fault = match r.below(6) {
        0 | 1 => Fault::None,
        2 | 3 => Fault::Panic(r.range(1, clean.s.events.max(1))),
        4 => Fault::Recur(r.below(clean.s.recurs + 1), code),
        _ => {
            if c.api.f == F::Desc {
                Fault::Deadline(r.below(clean.s.clock + 1), code)
            } else {
                Fault::Quota(r.range(2, clean.s.peak_nodes as u64 + 2), code)
            }
        }
    };
    Scen::one("C08", g, c)
}

fn check_c08(s: &Scen, gs: &[Arc<Graph>], agg: &mut Agg) -> Checked {
    let c = &s.cmps[0];
    let g = &gs[c.g];
    let mut c0 = c.clone();
    c0.fault = Fault::None;
    if c.api.budget.is_some_and(|b| b > 100_000) || !admissible(g, &c0) {
        return Ok(Held::Skip);
    }
    let name = c.api.name();
    let o = execute(g, c, watch(g, c, false));
    agg.out(c, &o);
    no_mishap(c, &o)?;
    released(c, &o)?;
    if o.s.net_bytes != 0 {
        return Err(format!(
            "{name}: {} bytes of allocated memory remain after the comparison ended with {:?}",
            o.s.net_bytes, o.res
        ));
    }
    let clones = o.s.counts[K::Clone as usize];
    if clones > if c.api.has_precheck() { 2 } else { 0 } {
        return Err(format!("{name}: cloned node handles {clones} times"));
    }
    if o.s.table_live_max > 1 {
        return Err(format!("{name}: {} tables at once", o.s.table_live_max));
    }
    agg.add("allocation balances checked", 1);
    Ok(Held::Yes(o.s.hash ^ mix(o.s.events), o.s.visits > 1))
}

// ---------------------------------------------------------------------- C11

fn gen_c11(r: &mut Prng) -> Scen {
    let api = match r.below(4) {
        0 => gen_plain_api(r),
        1 => {
            let mut a = gen_plain_api(r);
            if a.f == F::Unl {
                a.f = F::Lim;
            }
            a.budget = Some(r.below(300).into());
            a
        }
        _ => gen_cyc_api(r, false),
    };
    let mut c = Cmpn::new(0, 0, api);
    gen_kind(r, &mut c);
    gen_env(r, &mut c);
    if r.chance(1, 3) {
        // Nodes as wide as their indexes can number.
        if r.chance(1, 2) || matches!(c.api.f, F::Inter | F::Pre) {
            c.kind = 0;
            c.ix_cap = r.range(1, 12);
        } else {
            c.kind = *r.pick(&[1u8, 3]);
        }
        let cap = c.max_width() as usize;
        if cap < 1000 {
            let cyc = c.api.cyclic_ok() || c.api.budget.is_some();
            let g = full_width(r, &mut c, cap, cyc);
            if work(&g, &c).is_some_and(|w| w <= 60_000) {
                return Scen::one("C11", g, c);
            }
        }
        c.kind = 0;
        c.ix_cap = u64::MAX;
    }
    let cyc = (c.api.cyclic_ok() || c.api.budget.is_some()) && r.chance(2, 3);
    if r.chance(1, 1000) {
        if let Some((g, c)) = giant(r, &c, !cyc) {
            return Scen::one("C11", g, c);
        }
    }
    let g = gen_graph(r, &mut c, !cyc, 50, 20_000);
    Scen::one("C11", g, c)
}

/// Nodes with exactly as many edges as indexes, or nearly.
fn full_width(r: &mut Prng, c: &mut Cmpn, cap: usize, cyc: bool) -> Graph {
    let mut g = Graph::default();
    let levels = if cap > 20 { r.range(1, 2) } else { r.range(1, 5) } as usize;
    let leaf = g.add(0, vec![]);
    let diff = r.below(7);
    let mut roots = vec![];
    for side in 0..2 {
        let mut below = vec![leaf];
        let first = g.n() as u32;
        for lv in 0..levels {
            let k = r.range(1, 2);
            let mut next = vec![];
            for _ in 0..k {
                let mut w = cap;
                if side == 1 && diff == 0 && lv == 0 {
                    w = cap - 1;
                }
                let e = (0..w)
                    .map(|i| if lv == 0 || i + 1 < w && r.chance(1, 2) { leaf } else { *r.pick(&below) })
                    .collect();
                next.push(g.add(0, e));
            }
            below = next;
        }
        if side == 1 && diff == 1 {
            let l = g.add(1, vec![]);
            let x = first as usize;
            if let Some(e) = g.edges[x].last_mut() {
                *e = l;
            }
        }
        let root = below[0];
        if cyc && r.chance(1, 2) {
            if let Some(e) = g.edges[first as usize].last_mut() {
                *e = root;
            }
        }
        roots.push(root);
    }
    c.l = roots[0];
    c.r = roots[1];
    g
}

fn check_c11(s: &Scen, gs: &[Arc<Graph>], agg: &mut Agg) -> Checked {
    let c = &s.cmps[0];
    let g = &gs[c.g];
    if c.api.budget.is_some_and(|b| b > 100_000) || !admissible(g, c) {
        return Ok(Held::Skip);
    }
    let o = run_ok(g, c, true, agg)?;
    if c.api.budget.is_none() && c.api.f != F::Desc {
        check_verdict(g, c, &o)?;
    }
    protocol(g, c, &o.trace)?;
    Ok(Held::Yes(o.s.hash, o.s.expansions > 1))
}

pub fn protocol(g: &Graph, c: &Cmpn, trace: &[Ev]) -> Result<(), String> {
    let name = c.api.name();
    #[derive(Default, Clone)]
    struct H {
        partner: u32,
        equal: bool,
        /// Least index at which either has no edge.
        end: u64,
        /// Requests of each index.
        asked: Vec<u8>,
        side: u8,
        n: u32,
        ided: bool,
    }
    let mut hs: HashMap<u32, H> = HashMap::new();
    for e in trace {
        match e.k {
            K::Id => {
                hs.entry(e.h).or_default().ided = true;
            }
            K::Cmp => {
                if e.side != 0 || e.side2 != 1 {
                    return Err(format!(
                        "{name}: compared a node of the {} graph with one of the {}",
                        ["left", "right"][e.side as usize],
                        ["left", "right"][e.side2 as usize]
                    ));
                }
                if e.pos != e.pos2 {
                    return Err(format!("{name}: compared nodes of different positions"));
                }
                if e.n == e.m {
                    return Err(format!("{name}: looked into a pair of identical nodes"));
                }
                let end = g.edges[e.n as usize].len().min(g.edges[e.m as usize].len()) as u64;
                for (h, p, side, n) in [(e.h, e.h2, 0, e.n), (e.h2, e.h, 1, e.m)] {
                    let x = hs.entry(h).or_default();
                    if x.partner != 0 {
                        return Err(format!("{name}: compared a pair twice in one visit"));
                    }
                    if !x.ided {
                        return Err(format!("{name}: compared nodes before their identities"));
                    }
                    x.partner = p;
                    x.equal = e.x == 0;
                    x.end = end;
                    x.side = side;
                    x.n = n;
                }
            }
            K::Edge => {
                let x = hs.entry(e.h).or_default();
                if x.partner == 0 {
                    return Err(format!("{name}: edges requested of nodes that were not compared"));
                }
                if !x.equal {
                    return Err(format!("{name}: edges requested of nodes that compared as different"));
                }
                if e.x > x.end {
                    return Err(format!(
                        "{name}: edge {} requested though one of the nodes has only {}",
                        e.x, x.end
                    ));
                }
                let i = e.x as usize;
                if i > x.asked.len() {
                    return Err(format!("{name}: edge {i} requested before edge {}", x.asked.len()));
                }
                if i + 1 < x.asked.len() {
                    return Err(format!("{name}: edge {i} requested after edge {}", i + 1));
                }
                if i == x.asked.len() {
                    x.asked.push(0);
                }
                x.asked[i] += 1;
                if x.asked[i] > 2 {
                    return Err(format!("{name}: edge {i} requested {} times in one visit", x.asked[i]));
                }
            }
            _ => (),
        }
    }
    for x in hs.values().filter(|x| x.side == 0 && x.partner != 0) {
        if hs.get(&x.partner).is_some_and(|y| y.asked != x.asked) {
            return Err(format!("{name}: edges were not requested alike of both nodes of a pair"));
        }
    }
    Ok(())
}

// ---------------------------------------------------------------------- C12

const STACK_BOUND: usize = 48 * 1024;
const PER_PRECHECK_PAIR: usize = 3 * 1024;

fn gen_c12(r: &mut Prng) -> Scen {
    if r.chance(1, 6) {
        return gen_c12_classes(r);
    }
    let mut a = match r.below(12) {
        0 => Api::new(F::Deep),
        1 => Api::new(F::Wide),
        2 => Api { budget: Some(u128::from(r.below(200_000))), ..Api::new(*r.pick(&[F::Deep, F::Wide])) },
        3 => Api::new(F::Rob),
        4 => Api::new(F::RobPre),
        5 => Api { rm: r.range(1, 2) as u8, ..Api::new(F::Unl) },
        6 | 7 => Api { rm: r.range(1, 2) as u8, ..Api::new(F::Inter) },
        8 | 9 => Api { rm: *r.pick(&[1u8, 2, 4, 5, 8, 9, 11, 12]), ..Api::new(F::Pre) },
        10 => Api { rm: r.range(1, 2) as u8, budget: Some(u128::from(r.below(200_000))), ..Api::new(F::Lim) },
        _ => Api { rm: r.range(1, 2) as u8, ..Api::new(F::Desc) },
    };
    if matches!(a.f, F::Inter | F::Pre) {
        if a.by_hand() {
            a.lim = *r.pick(&LIM_CHAIN);
        } else if r.chance(1, 3) {
            a.tab = r.range(1, 2) as u8;
            a.lim = *r.pick(&LIM_FEW);
        } else {
            a.lim = r.below(NLIM) as u8;
        }
        // A call-stack precheck of great limit may use much stack by design.
        if a.f == F::Pre && a.rm >= 4 && LIMS[a.lim as usize].0 > 2000 {
            a.lim = 0;
        }
    }
    let mut c = Cmpn::new(0, 0, a);
    gen_env(r, &mut c);
    c.hash_mask = u64::MAX;
    let acyclic = !a.cyclic_ok();
    let mut g;
    // Now and then so deep that even recursion once in a thousand levels would show.
    let top = if r.chance(1, 10) { 300_000 } else { 15_000 };
    let mut tries = 0;
    loop {
        tries += 1;
        if r.chance(1, 3) && !acyclic {
            let o = GenOpts {
                size: Size::Large,
                acyclic: false,
                tree: false,
                max_width: if r.chance(1, 2) { 2 } else { 100_000 },
                perturb: 20,
            };
            let (x, l, rr) = merge_script(r, &o);
            (g, c.l, c.r) = (x, l, rr);
        } else {
            let size = r.range(if top > 15_000 { 100_000 } else { 2000 }, if tries > 6 { 100_001.min(top) } else { top });
            let size = if tries > 9 { size.min(3000) } else { size };
            let (x, l, rr) = gen_extreme(r, size as usize, acyclic);
            (g, c.l, c.r) = (x, l, rr);
            if r.chance(1, 5) {
                let n = g.n();
                g.label[r.usize(n)] += 1;
            }
        }
        if work(&g, &c).is_some_and(|w| w <= 1_200_000) {
            break;
        }
        if tries > 12 {
            g = Graph::default();
            let mut t = g.add(0, vec![]);
            let mut u = g.add(0, vec![]);
            for _ in 0..3000 {
                t = g.add(0, vec![t]);
                u = g.add(0, vec![u]);
            }
            (c.l, c.r) = (t, u);
            break;
        }
    }
    match r.below(8) {
        0 if r.chance(1, 3) => c.fault = Fault::Release(r.range(1, 20_000)),
        0 => c.fault = Fault::Panic(r.range(1, 200_000)),
        1 if a.f == F::Desc => c.fault = Fault::Deadline(r.range(1, 500_000), 7),
        _ => (),
    }
    Scen::one("C12", g, c)
}

/// Long slow phases that merge many classes, so that chains of links, if any can get long, do.
fn gen_c12_classes(r: &mut Prng) -> Scen {
    let f = *r.pick(&[F::Inter, F::Inter, F::Inter, F::Pre, F::Pre, F::Rob, F::RobPre]);
    let mut a = Api { rm: r.range(1, 2) as u8, ..Api::new(f) };
    if matches!(f, F::Inter | F::Pre) {
        a.lim = *r.pick(&[3u8, 11, 11, 11, 12, 0]);
        if a.lim == 0 {
            a.tab = r.range(1, 2) as u8;
        }
    }
    let mut c = Cmpn::new(0, 0, a);
    gen_env(r, &mut c);
    c.hash_mask = u64::MAX;
    c.rng = Script { v: vec![], tail: 0, seed: 0 };
    let o = GenOpts {
        size: Size::Large,
        acyclic: false,
        tree: false,
        max_width: if r.chance(1, 2) { 2 } else { 100_000 },
        perturb: 10,
    };
    loop {
        let (g, l, rr) = merge_script(r, &o);
        (c.l, c.r) = (l, rr);
        if work(&g, &c).is_some_and(|w| w <= 1_200_000) {
            return Scen::one("C12", g, c);
        }
    }
}

fn check_c12(s: &Scen, gs: &[Arc<Graph>], agg: &mut Agg) -> Checked {
    let c = &s.cmps[0];
    let g = &gs[c.g];
    let mut c0 = c.clone();
    c0.fault = Fault::None;
    if matches!(c.api.main_rm(), Rm::Call | Rm::Pool)
        || c.api.pre_rm() == Some(Rm::Pool)
        || c.api.budget.is_some_and(|b| b > 10_000_000)
        || !admissible(g, &c0)
    {
        return Ok(Held::Skip);
    }
    let name = c.api.name();
    let mut touched = 0;
    let w = watch(g, &c0, false);
    let o = crate::stack::measured(&mut touched, || execute(g, c, w));
    agg.out(c, &o);
    no_mishap(c, &o)?;
    let mut bound = STACK_BOUND;
    if c.api.pre_rm() == Some(Rm::Call) {
        bound += PER_PRECHECK_PAIR * c.api.limits().0 as usize;
    }
    let used = o.s.stack.max(o.s.drop_stack);
    if c.api.pre_rm() != Some(Rm::Call) {
        agg.max("stack bytes touched (whole call)", touched as u64);
    }
    if used > bound || (touched > bound && c.api.pre_rm() != Some(Rm::Call)) {
        return Err(format!(
            "{name}: used {} bytes of call stack (in callbacks {}, in releases {}) on {} nodes",
            used.max(touched),
            o.s.stack,
            o.s.drop_stack,
            g.n()
        ));
    }
    Ok(Held::Yes(o.s.hash, o.s.visits > 1000))
}

// ---------------------------------------------------------------------- C13

fn gen_c13(r: &mut Prng) -> Scen {
    let f = *r.pick(&[F::Deep, F::Wide, F::Rob, F::RobPre, F::Unl, F::Inter, F::Inter, F::Pre, F::Desc]);
    let mut a = Api::new(f);
    match f {
        F::Unl | F::Desc => a.rm = r.range(1, 2) as u8,
        F::Inter => {
            a.rm = r.range(1, 2) as u8;
            a.lim = r.below(NLIM) as u8;
        }
        F::Pre => {
            a.rm = *r.pick(&[1u8, 2, 8, 9]);
            a.lim = if a.by_hand() { *r.pick(&LIM_CHAIN) } else { r.below(NLIM) as u8 };
        }
        _ => (),
    }
    let mut c = Cmpn::new(0, 0, a);
    gen_env(r, &mut c);
    c.hash_mask = u64::MAX;
    let mut g;
    if r.chance(1, 2) {
        g = gen_graph(r, &mut c, !a.cyclic_ok(), 20, 60_000);
    } else {
        let mut n = r.range(50, 4000);
        loop {
            let (x, l, rr) = gen_extreme(r, n as usize, !a.cyclic_ok());
            (g, c.l, c.r) = (x, l, rr);
            if work(&g, &c).is_some_and(|w| w <= 400_000) || n <= 2 {
                break;
            }
            n /= 2;
        }
        if r.chance(1, 5) {
            let n = g.n();
            g.label[r.usize(n)] += 1;
        }
    }
    if !work(&g, &c).is_some_and(|w| w <= 2_000_000) {
        g = Graph::default();
        let l = g.add(0, vec![]);
        let m = g.add(0, vec![]);
        c.l = g.add(0, vec![l; 500]);
        c.r = g.add(0, vec![m; 500]);
    }
    Scen::one("C13", g, c)
}

fn check_c13(s: &Scen, gs: &[Arc<Graph>], agg: &mut Agg) -> Checked {
    let c = &s.cmps[0];
    let g = &gs[c.g];
    let lazy = |m| matches!(m, Rm::Queue | Rm::Stack);
    if !lazy(c.api.main_rm())
        || c.api.pre_rm().is_some_and(|m| !lazy(m))
        || c.api.budget.is_some()
        || !work(g, c).is_some_and(|w| w <= 2_000_000)
        || c.fault != Fault::None
    {
        return Ok(Held::Skip);
    }
    let o = run_ok(g, c, true, agg)?;
    let most = pending(g, c, &o, agg)?;
    // The trace takes memory itself.
    let p = run_ok(g, c, false, agg)?;
    let distinct = if c.api.cyclic_ok() { g.n() as u64 } else { 0 };
    let bytes = p.s.peak_bytes as u64;
    let besides = if distinct == 0 { BYTES_BESIDES } else { BYTES_BESIDES_TABLE };
    let allowed = besides + BYTES_PER_PAIR * most + BYTES_PER_NODE * distinct;
    let name = if distinct == 0 { "permille of allowed bytes" } else { "permille of allowed bytes with table" };
    agg.max(name, bytes * 1000 / allowed);
    if bytes > allowed {
        return Err(format!(
            "{}: {bytes} bytes are held while at most {most} pairs are incompletely consumed",
            c.api.name()
        ));
    }
    Ok(Held::Yes(o.s.hash, o.s.visits > 20))
}

/// Bytes of memory held: for a pair incompletely consumed, for each node that may be recorded, and besides.
const BYTES_PER_PAIR: u64 = 600;
const BYTES_PER_NODE: u64 = 400;
const BYTES_BESIDES: u64 = 20_000;
/// Tables begin with room for many.
const BYTES_BESIDES_TABLE: u64 = 600_000;

/// Node handles held for each incompletely consumed pair: itself and, at most, its next children.
const PER_PAIR: u64 = 4;
/// Handles held besides: roots and their clones, the pair at hand, and its edges being looked at.
const BESIDES: u64 = 12;

/// At every visit: no more handles than the pending pairs justify.
/// The most pairs incompletely consumed.
fn pending(g: &Graph, c: &Cmpn, o: &Out, agg: &mut Agg) -> Result<u64, String> {
    let mut most = 0;
    // A pair is pending from its comparison until its last child pair was taken up; pairs none of
    // whose children was ever taken up count only if the traversal was cut short.
    let full = matches!(o.res, Res::Ok(v) if v.ord.is_eq());
    let starts: Vec<usize> = o.s.starts.iter().map(|x| x.2 as usize).collect();
    let phases = starts.len();
    for ph in 0..phases {
        let from = starts[ph];
        let to = starts.get(ph + 1).copied().unwrap_or(o.trace.len());
        let t = &o.trace[from..to];
        let cut = ph + 1 < phases || !full;
        // Children positions to parents.
        let mut parent: HashMap<u32, (u32, u64)> = HashMap::new(); // child handle -> (parent, index)
        let mut need: HashMap<u32, u64> = HashMap::new(); // handle -> amount of edges
        let mut start: HashMap<u32, usize> = HashMap::new();
        let mut end: HashMap<u32, usize> = HashMap::new();
        let mut any: HashSet<u32> = HashSet::new();
        let mut seen: HashSet<u32> = HashSet::new();
        for (i, e) in t.iter().enumerate() {
            match e.k {
                K::Cmp if e.x == 0 => {
                    let k = g.edges[e.n as usize].len().min(g.edges[e.m as usize].len()) as u64;
                    let more = g.edges[e.n as usize].len() != g.edges[e.m as usize].len();
                    if k > 0 {
                        need.insert(e.h, k + u64::from(more));
                        start.insert(e.h, i);
                    }
                }
                K::Edge if e.side == 0 && e.h2 != 0 => {
                    parent.insert(e.h2, (e.h, e.x));
                }
                K::Id if e.side == 0 && seen.insert(e.h) => {
                    if let Some((p, ix)) = parent.get(&e.h) {
                        any.insert(*p);
                        if need.get(p) == Some(&(ix + 1)) {
                            end.insert(*p, i);
                        }
                    }
                }
                _ => (),
            }
        }
        let mut delta = vec![0i64; t.len() + 1];
        for (h, st) in &start {
            if !any.contains(h) && !cut {
                continue;
            }
            delta[*st] += 1;
            if let Some(en) = end.get(h) {
                delta[*en] -= 1;
            }
        }
        let mut pend = 0i64;
        for (i, e) in t.iter().enumerate() {
            pend += delta[i];
            if e.k == K::Id {
                let live = u64::from(e.h2);
                let allowed = PER_PAIR * pend.max(0) as u64 + BESIDES;
                agg.max("pending pairs", pend.max(0) as u64);
                most = most.max(pend.max(0) as u64);
                agg.max("node handles beyond pending", live.saturating_sub(PER_PAIR * pend.max(0) as u64));
                if live > allowed {
                    return Err(format!(
                        "{}: {live} node handles are held while {pend} pairs are incompletely consumed",
                        c.api.name()
                    ));
                }
            }
        }
    }
    Ok(most)
}

// ---------------------------------------------------------------------- C14

fn gen_c14(r: &mut Prng) -> Scen {
    let which = r.range(1, 3) as u8;
    if r.chance(1, 3) {
        // The generator by itself.
        let end = match r.below(4) {
            0 => r.range(1, 12),
            1 => *r.pick(&[1u64, 2, 21, 51, 801, 65534, 65535, 32768, 256, 257]),
            2 => r.range(1, 2000),
            _ => r.range(1, 65535),
        };
        let n = if end <= 2000 { end * 45 } else { 20_000 };
        let reseed = if which == 3 && r.chance(1, 2) { r.range(1, 50) } else { 0 };
        let mut s = Scen::new("C14", vec![], vec![]);
        s.extra.insert(
            "generator".into(),
            vec![which.into(), end as i64, n as i64, reseed as i64, r.below(1 << 40) as i64],
        );
        return s;
    }
    let mut a = Api::new(*r.pick(&[F::Inter, F::Pre]));
    a.rm = r.below(if a.f == F::Inter { 4 } else { 7 }) as u8;
    a.lim = if r.chance(1, 5) { 0 } else { *r.pick(&LIM_FEW) };
    a.rng = which;
    let mut c = Cmpn::new(0, 0, a);
    if r.chance(1, 6) {
        // The premade functions with what they come with.
        c.api = Api::new(*r.pick(&[F::Cyc, F::CycPre, F::Rob, F::RobPre]));
    } else if r.chance(1, 5) {
        // Scripted: only how it is asked.
        c.api.rng = 0;
        c.api.lim = r.below(NLIM) as u8;
    }
    gen_env(r, &mut c);
    c.hash_mask = u64::MAX;
    if c.api.rng == 0 && !matches!(c.api.f, F::Inter | F::Pre) {
        c.rng = Script { v: vec![], tail: 4, seed: 0 };
    }
    if which == 3 && r.chance(2, 3) {
        c.reseed = r.range(1, 60);
    }
    let g = gen_graph(r, &mut c, false, 25, 150_000);
    Scen::one("C14", g, c)
}

fn check_c14(s: &Scen, gs: &[Arc<Graph>], agg: &mut Agg) -> Checked {
    if let [which, end, n, reseed, seed] = s.ex("generator")[..] {
        let (Ok(end), true) = (u16::try_from(end), (1..=5_000_000).contains(&n)) else {
            return Ok(Held::Skip);
        };
        let Some(e) = std::num::NonZeroU16::new(end) else { return Ok(Held::Skip) };
        if !(1..=3).contains(&which) {
            return Ok(Held::Skip);
        }
        let name = ["", "wyrng", "oorandom", "fastrand"][which as usize];
        fastrand::seed(seed as u64);
        let drawn = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
            let mut g = generator(which as u8);
            let mut v = Vec::with_capacity(n as usize);
            for i in 0..n {
                if reseed > 0 && i % reseed == 0 {
                    // Someone else uses the same state.
                    fastrand::seed(mix2(seed as u64, i as u64 / 2));
                    agg.add("fault: shared generator state reseeded", 1);
                }
                v.push(g(e));
            }
            v
        }));
        let Ok(drawn) = drawn else {
            return Err(format!(
                "{name}: panicked: {}",
                PANIC_MSG.with(|m| m.borrow().clone())
            ));
        };
        agg.add("generator draws", n as u64);
        let mut hit = vec![0u32; usize::from(end)];
        for v in &drawn {
            match hit.get_mut(usize::from(*v)) {
                Some(h) => *h += 1,
                None => return Err(format!("{name}: gave {v} for the bound {end}")),
            }
        }
        let kinds = hit.iter().filter(|h| **h > 0).count();
        if reseed == 0 && n >= 45 * i64::from(end) && kinds < usize::from(end) {
            let miss = hit.iter().position(|h| *h == 0).unwrap();
            return Err(format!(
                "{name}: {n} draws below {end} gave only {kinds} of the values (never {miss})"
            ));
        }
        // Reseeded at random: still spread.
        if n >= 20_000 && end >= 64 && (reseed == 0 || n / reseed >= 400) {
            let q = usize::from(end) / 8;
            for (i, part) in hit.chunks(q.max(1)).take(8).enumerate() {
                if part.iter().all(|h| *h == 0) {
                    return Err(format!("{name}: nothing in part {i} of 8 of the range below {end}"));
                }
            }
            let top = usize::from(end) - 1 - usize::from(end) / 16;
            if hit[top..].iter().all(|h| *h == 0) {
                return Err(format!("{name}: nothing near the top of the range below {end}"));
            }
        }
        let h = drawn.iter().fold(u64::from(end), |h, v| mix2(h, u64::from(*v)));
        return Ok(Held::Yes(h, end > 1));
    }
    let Some(c) = s.cmps.first() else { return Ok(Held::Skip) };
    let g = &gs[c.g];
    if !c.api.cyclic_ok() || !admissible(g, c) {
        return Ok(Held::Skip);
    }
    let name = c.api.name();
    let o = run_ok(g, c, true, agg)?;
    check_verdict(g, c, &o)?;
    work_bounds(g, c, &o, agg)?;
    let (_, f, _) = c.api.limits();
    if c.reseed != 0 {
        agg.add("fault: shared generator state reseeded", o.s.events / c.reseed);
    }
    for e in o.trace.iter().filter(|e| e.k == K::Rng) {
        if e.n != u32::from(f) + 1 {
            return Err(format!(
                "{name}: asked for a number below {} while the fast limit is at most {f}",
                e.n
            ));
        }
        if e.x != u64::MAX && e.x > u64::from(f) {
            return Err(format!("{name}: the generator gave {} for a maximum of {f}", e.x));
        }
    }
    let o2 = run_ok(g, c, false, agg)?;
    if o2.s.hash != o.s.hash {
        return Err(format!("{name}: the same comparison with the same generator state goes differently"));
    }
    Ok(Held::Yes(o.s.hash, o.s.rng_draws > 0))
}

// ---------------------------------------------------------------------- C15

fn gen_c15(r: &mut Prng) -> Scen {
    let plain = r.chance(1, 6);
    let mut c = Cmpn::new(0, 0, if plain { gen_plain_api(r) } else { gen_cyc_api(r, false) });
    if matches!(c.api.f, F::Inter | F::Pre) {
        if c.api.by_hand() {
            c.api.rm -= 7;
        }
        c.api.lim = *r.pick(&LIM_FEW);
        if c.api.tab == 1 {
            c.api.tab = 0;
        }
    }
    c.kind = K_STORE;
    gen_env(r, &mut c);
    if r.chance(4, 5) {
        c.hash_mask = u64::MAX;
    }
    let w = usual_work(r);
    let g = gen_graph(r, &mut c, plain, 45, w);
    Scen::one("C15", g, c)
}

fn check_c15(s: &Scen, gs: &[Arc<Graph>], agg: &mut Agg) -> Checked {
    let c = &s.cmps[0];
    let g = &gs[c.g];
    let available = !matches!(c.api.f, F::Inter | F::Pre)
        || (LIM_FEW.contains(&c.api.lim) && c.api.tab != 1 && c.api.rng == 0);
    if c.kind != K_STORE || !available || c.api.by_hand() || c.api.budget.is_some() || !admissible(g, c) {
        return Ok(Held::Skip);
    }
    let small = work(g, c).is_some_and(|w| w <= 100_000);
    let o = run_ok(g, c, small, agg)?;
    check_verdict(g, c, &o)?;
    if small {
        well_founded(g, c, &o, agg)?;
    }
    released(c, &o)?;
    // As for permanent nodes.
    let mut c2 = c.clone();
    c2.kind = 0;
    let o2 = run_ok(g, &c2, false, agg)?;
    if o2.res != o.res {
        return Err(format!(
            "{}: {:?} with nodes made on demand, {:?} with permanent nodes",
            c.api.name(),
            o.res,
            o2.res
        ));
    }
    Ok(Held::Yes(o.s.hash, o.slots_reused > 0))
}

// ---------------------------------------------------------------------- C16

fn gen_c16(r: &mut Prng) -> Scen {
    let mut a = Api::new(F::Desc);
    a.rm = r.below(4) as u8;
    let mut c = Cmpn::new(0, 0, a);
    gen_kind(r, &mut c);
    if r.chance(1, 8) {
        c.ix_cap = 40;
    }
    gen_env(r, &mut c);
    let bits = |r: &mut Prng, n: u64, pct: u64| -> Vec<u16> {
        let n = r.below(n);
        (0..n)
            .map(|_| {
                if r.chance(pct, 100) {
                    if r.chance(1, 25) {
                        r.range(2, 900) as u16
                    } else {
                        1
                    }
                } else {
                    0
                }
            })
            .collect()
    };
    let pct = *r.pick(&[0u64, 10, 50, 90]);
    let pct2 = *r.pick(&[0u64, 10, 50, 90]);
    c.dec = Decide {
        trav: bits(r, 40, pct),
        desc: bits(r, 40, pct2),
        skip: *r.pick(&[0u8, 3, 20, 50, 80, 100]),
        seed: r.next(),
    };
    if r.chance(1, 1000) {
        if let Some((g, mut c)) = giant(r, &c, true) {
            // Late decisions.
            c.dec = Decide { skip: 0, seed: r.next(), ..Decide::default() };
            for d in [&mut c.dec.trav, &mut c.dec.desc] {
                if r.chance(1, 2) {
                    *d = vec![0; r.usize(g.n())];
                    d.push(r.range(1, 3) as u16);
                }
            }
            return Scen::one("C16", g, c);
        }
    }
    let o = GenOpts {
        size: if r.chance(1, 3) { Size::Medium } else { Size::Small },
        acyclic: r.chance(1, 2),
        tree: false,
        max_width: (c.max_width().min(20)) as usize,
        perturb: 45,
    };
    let (g, a, b) = gen_pair(r, &o);
    c.l = a;
    c.r = b;
    if g.width() as u64 > c.max_width() {
        c.kind = 0;
        c.ix_cap = u64::MAX;
    }
    Scen::one("C16", g, c)
}

fn check_c16(s: &Scen, gs: &[Arc<Graph>], agg: &mut Agg) -> Checked {
    let c = &s.cmps[0];
    let g = &gs[c.g];
    if c.api.f != F::Desc || c.fault != Fault::None {
        return Ok(Held::Skip);
    }
    let name = c.api.name();
    let rich = c.rich();
    let dec = |v: u16| match v {
        0 => Decision::Go,
        1 => Decision::Skip,
        x => Decision::Fail(x.into()),
    };
    let top = if g.n() > 5_000 { 300_000 } else { 15_000 };
    let model = |st| {
        naive(g, c.l, c.r, st, false, None, top, |i| dec(c.dec.trav(i)), |i| dec(c.dec.desc(i)))
    };
    let Some(st) = c.strategy() else {
        // Any order: judged by the asked questions alone.
        if !g.acyclic(&[c.l, c.r]) || !admissible(g, c) {
            return Ok(Held::Skip);
        }
        let o = run_ok(g, c, true, agg)?;
        monitor_decisions(g, c, &o)?;
        return Ok(Held::Yes(o.s.hash, o.s.trav > 3));
    };
    let m = model(st);
    if m.stop == Stop::GaveUp || (st == Strategy::Dfs && c.api.main_rm() == Rm::Call && m.peak_pending > 20_000) {
        return Ok(Held::Skip);
    }
    let o = execute(g, c, Watch { trace: true, cap: 400 * m.visits + 100_000, hook: None });
    agg.out(c, &o);
    no_mishap(c, &o)?;
    let want = match m.stop {
        Stop::Done(v) => Res::Ok(reduce(v, rich)),
        Stop::Fail(code) => Res::Err(code),
        other => panic!("HARNESS: {other:?}"),
    };
    if o.res != want {
        return Err(format!("{name}: the decisions lead to {want:?}, the result was {:?}", o.res));
    }
    if o.s.trav != m.visits {
        return Err(format!(
            "{name}: the controller was asked about {} pairs, there were {} to traverse",
            o.s.trav, m.visits
        ));
    }
    let cmps: Vec<u64> = o.trace.iter().filter(|e| e.k == K::Cmp).map(|e| e.pos).collect();
    if cmps != m.compared {
        return Err(format!("{name}: other pairs were compared than those decided"));
    }
    monitor_decisions(g, c, &o)?;
    agg.add("fault: comparison skipped", o.trace.iter().filter(|e| e.k == K::DoTrav && e.n == 1).count() as u64);
    agg.add("fault: descendants skipped", o.trace.iter().filter(|e| e.k == K::DoEdges && e.n == 1).count() as u64);
    Ok(Held::Yes(o.s.hash, o.s.trav > 3))
}

fn monitor_decisions(g: &Graph, c: &Cmpn, o: &Out) -> Result<(), String> {
    let name = c.api.name();
    // Between questions about traversal, at most one pair is compared, and only after a yes.
    let (mut go, mut compared, mut branch_equal, mut asked_edges) = (true, true, false, 0u64);
    let mut last = None;
    let mut diff = false;
    let mut questions = 0u64;
    for e in &o.trace {
        match e.k {
            K::DoTrav => {
                if branch_equal {
                    return Err(format!("{name}: edges were not asked about before going on"));
                }
                go = e.n == 0;
                compared = false;
                questions += 1;
            }
            K::Cmp => {
                if !go || compared {
                    return Err(format!("{name}: a pair was compared without being asked about"));
                }
                compared = true;
                last = Some((e.side, e.side2, e.h, e.h2, e.pos, e.pos2));
                diff |= e.x != 0;
                let (a, b) = (g.edges[e.n as usize].len(), g.edges[e.m as usize].len());
                branch_equal = e.x == 0 && a > 0 && b > 0;
                asked_edges += u64::from(branch_equal);
            }
            K::DoEdges => {
                if !branch_equal {
                    return Err(format!("{name}: edges asked about without need"));
                }
                if last != Some((e.side, e.side2, e.h, e.h2, e.pos, e.pos2)) {
                    return Err(format!(
                        "{name}: asked about the edges of others than the pair just compared, or \
                         of these exchanged"
                    ));
                }
                branch_equal = false;
            }
            _ => (),
        }
    }
    if asked_edges != o.s.desc || questions != o.s.trav {
        return Err(format!(
            "{name}: asked {} times about edges, for {asked_edges} distinct equal pairs with edges",
            o.s.desc
        ));
    }
    match o.res {
        Res::Ok(v) if diff && v.ord.is_eq() => {
            Err(format!("{name}: a pair compared as different, the result is equivalent"))
        }
        _ => Ok(()),
    }
}

/// For evidence.
pub fn kinds_described() -> usize {
    KINDS.len()
}

// ---------------------------------------------------------------------- C17

fn gen_c17(r: &mut Prng) -> Scen {
    let f = *r.pick(&[
        F::Basic, F::Deep, F::Wide, F::Cyc, F::CycPre, F::Rob, F::RobPre, F::Inter, F::Inter,
        F::Inter, F::Inter, F::Inter, F::Inter,
    ]);
    let mut a = Api::new(f);
    if f == F::Inter {
        a.rm = r.below(4) as u8;
        a.tab = *r.pick(&[2u8, 3, 3, 3]);
        a.lim = *r.pick(&[0u8, 8, 8, 9]);
    }
    let mut c = Cmpn::new(0, 0, a);
    gen_env(r, &mut c);
    c.hash_mask = u64::MAX;
    c.kind = *r.pick(&[K_SLICE, K_SLICE, K_OBJ, K_DYN, K_PIN]);
    c.mem = r.next();
    let acyclic = !a.cyclic_ok();
    let g = gen_graph(r, &mut c, acyclic, 40, 20_000);
    Scen::one("C17", g, c)
}

/// What is looked at, and the numbers drawn.
fn looks(o: &Out) -> Vec<(u8, u8, u32, u32, u64, u64)> {
    o.trace
        .iter()
        .filter(|e| matches!(e.k, K::Id | K::Cmp | K::Edge | K::Rng))
        .map(|e| (e.k as u8, e.side, e.n, e.m, e.pos, e.x))
        .collect()
}

fn check_c17(s: &Scen, gs: &[Arc<Graph>], agg: &mut Agg) -> Checked {
    let c = &s.cmps[0];
    let g = &gs[c.g];
    let api_ok = match c.api.f {
        F::Inter => LIM_REFS.contains(&c.api.lim) && matches!(c.api.tab, 2 | 3),
        f => !matches!(f, F::Pre | F::Unl | F::Lim | F::Desc),
    };
    if !(K_SLICE..=K_PIN).contains(&c.kind)
        || !api_ok
        || c.api.rng != 0
        || c.api.budget.is_some()
        || c.fault != Fault::None
        || g.n() > ROOM
        || !admissible(g, c)
    {
        return Ok(Held::Skip);
    }
    let _ = found();
    let o = execute(g, c, watch(g, c, true));
    let (bad, pairs, same) = found();
    agg.out(c, &o);
    agg.add("pairs of identities judged", pairs);
    agg.add("of these the same", same);
    if let Some(m) = bad {
        return Err(format!("{}: {m}", c.api.name()));
    }
    no_mishap(c, &o)?;
    check_verdict(g, c, &o)?;
    // As with plain numbers for identities.
    let mut c2 = c.clone();
    c2.kind = 0;
    if c2.api.tab == 3 {
        c2.api.tab = if c2.api.lim == 9 { 0 } else { 2 };
    } else if c2.api.lim == 9 {
        c2.api.tab = 0;
    }
    let o2 = run_ok(g, &c2, true, agg)?;
    let (l, l2) = (looks(&o), looks(&o2));
    if o.res != o2.res || l != l2 {
        let at = l.iter().zip(&l2).take_while(|(a, b)| a == b).count();
        return Err(format!(
            "{}: {:?} with references for identities, {:?} with numbers; the calls differ from the \
             {at}th",
            c.api.name(),
            o.res,
            o2.res
        ));
    }
    Ok(Held::Yes(o.s.hash ^ mix2(c.mem, c.kind.into()), o.s.visits > 3))
}

// ---------------------------------------------------------------------- C18

fn gen_c18(r: &mut Prng) -> Scen {
    let f = *r.pick(&[
        F::Basic, F::Deep, F::Wide, F::Cyc, F::CycPre, F::Rob, F::RobPre, F::Cyc, F::Rob, F::Inter, F::Inter,
        F::Inter, F::Pre, F::Pre, F::Unl, F::Lim, F::Desc,
    ]);
    let mut a = Api::new(f);
    match f {
        F::Basic | F::Deep | F::Wide => {
            if r.chance(1, 2) {
                a.budget = Some(u128::from(r.below(200)));
                a.bty = r.below(6) as u8;
            }
        }
        F::Inter | F::Pre => {
            a.rm = r.below(if f == F::Pre { 7 } else { 4 }) as u8;
            (a.tab, a.rng) = *r.pick(&[(0u8, 0u8), (0, 0), (1, 0), (2, 0), (0, 1), (0, 2), (0, 3)]);
            a.lim = *r.pick(&LIM_LEAN);
        }
        F::Unl | F::Desc => a.rm = r.below(4) as u8,
        F::Lim => {
            a.rm = r.below(4) as u8;
            a.budget = Some(u128::from(r.below(200)));
        }
        _ => (),
    }
    let mut c = Cmpn::new(0, 0, a);
    gen_env(r, &mut c);
    c.lat = 0;
    c.reseed = 0;
    c.hash_mask = u64::MAX;
    let acyclic = !a.cyclic_ok();
    let premade = matches!(f, F::Cyc | F::CycPre | F::Rob | F::RobPre);
    if !premade && a.tab == 0 && a.rng == 0 && r.chance(1, 3) {
        c.kind = K_INDEX;
        c.mem = r.below(12);
        if matches!(f, F::Inter | F::Pre) {
            c.api.lim = 8;
        }
        c.ix_cap = ix_amount(c.mem).min(r.range(2, 200));
        if r.chance(1, 2) {
            let cap = c.ix_cap as usize;
            let g = full_width(r, &mut c, cap, !acyclic);
            if work(&g, &c).is_some_and(|w| w <= 20_000) {
                return Scen::one("C18", g, c);
            }
        }
    } else if matches!(f, F::Inter | F::Pre | F::Unl) && r.chance(1, 6) {
        c.fault = Fault::Recur(r.below(20), r.range(2, 60_000) as u16);
    }
    // Enough for several phases of the default limits.
    let w = if r.chance(1, 3) { 300_000 } else { 5_000 };
    let g = gen_graph(r, &mut c, acyclic, 30, w);
    Scen::one("C18", g, c)
}

fn check_c18(s: &Scen, gs: &[Arc<Graph>], agg: &mut Agg) -> Checked {
    use crate::variants::{ask, Answer, VARIANTS};
    let c = &s.cmps[0];
    let g = &gs[c.g];
    let premade = matches!(c.api.f, F::Cyc | F::CycPre | F::Rob | F::RobPre);
    let api_ok = match c.api.f {
        F::Inter | F::Pre => {
            LIM_LEAN.contains(&c.api.lim)
                && !c.api.by_hand()
                && (c.api.tab == 0 && c.api.rng <= 3 || c.api.rng == 0 && c.api.tab <= 2)
                && (c.kind == 0 || c.api.lim == 8 && c.api.tab == 0 && c.api.rng == 0)
        }
        _ => c.api.tab == 0 && c.api.rng == 0,
    };
    if !api_ok
        || !matches!(c.kind, 0 | K_INDEX)
        || c.kind == K_INDEX && !(1..=ix_amount(c.mem).min(70_000)).contains(&c.ix_cap)
        || !matches!(c.fault, Fault::None | Fault::Recur(..))
        || c.lat != 0
        || c.reseed != 0
        || premade && c.kind != 0
        || !work(g, c).is_some_and(|w| w <= 1_000_000)
    {
        return Ok(Held::Skip);
    }
    let mut here: Vec<Option<Answer>> = vec![None; 4];
    let mut at = |generator: u8, agg: &mut Agg| -> Result<Answer, String> {
        if here[usize::from(generator)].is_none() {
            let mut c = c.clone();
            if premade {
                // Put together from the generic parts, with the generator that must be chosen.
                c.api = Api {
                    f: if c.api.has_precheck() { F::Pre } else { F::Inter },
                    rm: u8::from(c.api.main_rm() == Rm::Queue),
                    rng: generator,
                    ..Api::new(F::Inter)
                };
            }
            let o = execute(g, &c, watch(g, &c, true));
            agg.out(&c, &o);
            no_mishap(&c, &o)?;
            if matches!(o.res, Res::Ok(_)) && c.api.f != F::Desc {
                check_verdict(g, &c, &o)?;
            }
            here[usize::from(generator)] = Some(Answer::of(&o));
        }
        Ok(here[usize::from(generator)].clone().unwrap())
    };
    let line = s.to_json().text();
    let (mut key, mut deep) = (0, false);
    for (i, v) in VARIANTS.iter().enumerate() {
        if premade && v.generator == 0 {
            continue;
        }
        let Some(there) = ask(i, &line)? else { continue };
        let here = at(if premade { v.generator } else { 0 }, agg)?;
        agg.add(&format!("executed with features {}", v.features), 1);
        let same = here.res == there.res
            && here.looks == there.looks
            && (premade || here.all == there.all);
        if !same {
            return Err(format!(
                "{} with features \"{}\": {}, but {} with all of them{}",
                c.api.name(),
                v.features,
                if there.res == here.res { "proceeds otherwise".into() } else { there.res },
                here.res,
                if premade { ", put together from the generic parts" } else { "" }
            ));
        }
        key = here.all;
        deep = here.calls > 10;
    }
    Ok(Held::Yes(key, deep))
}

// ---------------------------------------------------------------------- C20

fn gen_c20(r: &mut Prng) -> Scen {
    let mut a = match r.below(3) {
        0 => gen_plain_api(r),
        _ => gen_cyc_api(r, false),
    };
    if matches!(a.f, F::Inter | F::Pre) {
        a.tab = 0;
        a.lim = 8;
        a.rm %= if a.f == F::Pre { 7 } else { 4 };
    }
    let mut c = Cmpn::new(0, 0, a);
    gen_env(r, &mut c);
    c.kind = K_INDEX;
    c.mem = r.below(12);
    // Counted so that the type's last index is that of the last edge possible; across zero too.
    let small = ix_amount(c.mem);
    let wide = small <= 256 || matches!(c.mem, 2 | 3) && r.chance(1, 400);
    c.ix_cap = match r.below(5) {
        0 if wide => small,
        1 if wide => small / 2 + r.range(0, 3),
        2 => r.range(13, 250),
        _ => r.range(1, 12),
    }
    .min(small);
    let cyc = a.cyclic_ok();
    if r.chance(3, 4) {
        let cap = c.ix_cap as usize;
        let g = full_width(r, &mut c, cap, cyc);
        if work(&g, &c).is_some_and(|w| w <= 400_000) {
            return Scen::one("C20", g, c);
        }
    }
    let g = gen_graph(r, &mut c, !cyc, 50, 20_000);
    Scen::one("C20", g, c)
}

fn check_c20(s: &Scen, gs: &[Arc<Graph>], agg: &mut Agg) -> Checked {
    let c = &s.cmps[0];
    let g = &gs[c.g];
    let api_ok = match c.api.f {
        F::Inter | F::Pre => c.api.lim == 8 && c.api.tab == 0 && !c.api.by_hand(),
        F::Lim | F::Desc => false,
        _ => true,
    };
    if c.kind != K_INDEX
        || !api_ok
        || c.api.rng != 0
        || c.api.budget.is_some()
        || c.fault != Fault::None
        || c.ix_cap > ix_amount(c.mem)
        || c.ix_cap == 0
        || c.ix_cap > 70_000
        || !admissible(g, c)
    {
        return Ok(Held::Skip);
    }
    let name = format!("{} with {} for indexes", c.api.name(), IX_TYPES[c.mem as usize % 12]);
    let o = run_ok(g, c, true, agg)?;
    let at_end = o.trace.iter().any(|e| e.k == K::Edge && e.x + 1 == c.ix_cap);
    agg.add(&format!("index type {}", IX_TYPES[c.mem as usize % 12]), 1);
    agg.add("last index requested", u64::from(at_end));
    // The next is the next.
    let mut next: HashMap<(u32, u8), u64> = HashMap::new();
    for e in o.trace.iter().filter(|e| e.k == K::Edge) {
        let n = next.entry((e.h, e.side)).or_insert(0);
        if e.x > *n || e.x >= c.ix_cap {
            return Err(format!("{name}: after index {} of {} came {}", *n as i64 - 1, c.ix_cap, e.x));
        }
        *n = e.x + 1;
    }
    check_verdict(g, c, &o).map_err(|m| format!("{name}: {m}"))?;
    // As with numbers that end there.
    let mut c2 = c.clone();
    c2.kind = 0;
    let o2 = run_ok(g, &c2, true, agg)?;
    if o.res != o2.res || looks(&o) != looks(&o2) {
        return Err(format!(
            "{name}: {:?}, {:?} with plain numbers ending at {}, or other calls",
            o.res, o2.res, c.ix_cap
        ));
    }
    Ok(Held::Yes(mix2(o.s.hash, c.mem), o.s.visits > 1 && at_end))
}
