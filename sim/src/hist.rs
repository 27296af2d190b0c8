//! Histories: comparisons after, inside of, and concurrent with other comparisons.

use crate::api::*;
use crate::ctx::*;
use crate::graph::*;
use crate::prng::{mix2, Prng};
use crate::props::check_verdict;
use crate::run::*;
use crate::scen::*;
use std::cell::RefCell;
use std::rc::Rc;
use std::sync::{Arc, Condvar, Mutex};
use std::time::Duration;

const ADMIT: u64 = 300_000;

/// What of an execution must be the same in whatever company.
#[derive(Clone, Debug, PartialEq)]
struct Digest {
    res: Res,
    hash: u64,
    events: u64,
    visits: u64,
    released: bool,
}

fn digest(o: &Out) -> Digest {
    Digest {
        res: o.res.clone(),
        hash: o.s.hash,
        events: o.s.events,
        visits: o.s.visits,
        released: o.s.live.iter().all(|l| *l == 0),
    }
}

/// The real generator with state shared by the thread is not a function of the scenario.
fn repeatable(c: &Cmpn) -> bool {
    c.api.rng == 0 && c.rng.tail != 4
}

fn in_thread<T: Send + 'static>(f: impl FnOnce() -> T + Send + 'static) -> T {
    std::thread::Builder::new()
        .stack_size(96 << 20)
        .spawn(f)
        .expect("HARNESS: thread")
        .join()
        .unwrap_or_else(|_| panic!("HARNESS: solo thread died"))
}

fn solo(g: &Arc<Graph>, c: &Cmpn) -> Out {
    let (g, c) = (Arc::clone(g), c.clone());
    in_thread(move || execute(&g, &c, watch(&g, &c, false)))
}

fn judge(g: &Graph, c: &Cmpn, o: &Out) -> Result<(), String> {
    no_mishap(c, o)?;
    match &o.res {
        Res::Ok(_) if c.api.budget.is_none() && c.api.f != F::Desc => check_verdict(g, c, o),
        Res::Ok(_) => Ok(()),
        Res::Limit if c.api.budget.is_some() => Ok(()),
        Res::Panicked(_) if matches!(c.fault, Fault::Panic(_) | Fault::Release(_)) => Ok(()),
        Res::Err(_) if !matches!(c.fault, Fault::None | Fault::Panic(_) | Fault::Release(_)) => Ok(()),
        r => Err(format!("{}: ended with {r:?}", c.api.name())),
    }
}

fn admit(g: &Graph, c: &Cmpn) -> bool {
    let mut c0 = c.clone();
    c0.fault = Fault::None;
    c.api.budget.is_none_or(|b| b <= 100_000) && work(g, &c0).is_some_and(|w| w <= ADMIT)
}

fn any_api(r: &mut Prng) -> Api {
    match r.below(8) {
        0 => gen_plain_api(r),
        1 => {
            let mut a = gen_plain_api(r);
            if a.f == F::Unl {
                a.f = F::Lim;
            }
            a.budget = Some(r.below(60).into());
            a
        }
        _ => gen_cyc_api(r, true),
    }
}

fn any_fault(r: &mut Prng, c: &mut Cmpn) {
    let code = r.range(2, 60000) as u16;
    c.fault = match r.below(6) {
        0 => Fault::Panic(r.range(1, 400)),
        1 => Fault::Panic(r.range(1, 60)),
        2 if c.api.main_rm() == Rm::Pool => Fault::Recur(r.below(60), code),
        3 if c.api.main_rm() == Rm::Pool => Fault::Quota(r.range(3, 30), code),
        4 if r.chance(1, 3) => Fault::Release(r.range(1, 60)),
        _ => Fault::None,
    };
}

/// Some edits: what was there may be gone, and its identity belong to something else.
fn mutate(r: &mut Prng, g: &Graph, roots: &[u32]) -> Graph {
    let mut g = g.clone();
    let reach: Vec<usize> = {
        let m = g.reach(roots);
        (0..g.n()).filter(|i| m[*i]).collect()
    };
    for _ in 0..r.range(1, 3) {
        let x = *r.pick(&reach);
        match r.below(6) {
            0 | 1 => g.label[x] ^= 1,
            2 => {
                g.edges[x].pop();
            }
            3 => {
                if !g.edges[x].is_empty() {
                    let i = r.usize(g.edges[x].len());
                    g.edges[x][i] = *r.pick(&reach) as u32;
                }
            }
            4 => {
                // Exchange two nodes' identities.
                let y = *r.pick(&reach);
                g.label.swap(x, y);
                g.edges.swap(x, y);
            }
            _ => {
                let t = *r.pick(&reach) as u32;
                let w = g.width();
                if g.edges[x].len() < w.max(1) {
                    g.edges[x].push(t);
                }
            }
        }
    }
    g
}

// ---------------------------------------------------------------------- C09

pub fn gen_c09(r: &mut Prng) -> Scen {
    let mut base = Cmpn::new(0, 0, gen_cyc_api(r, false));
    base.hash_mask = u64::MAX;
    let g0 = gen_graph(r, &mut base, r.clone().chance(1, 6), 30, 15_000);
    let mut graphs = vec![g0];
    for _ in 0..r.below(4) {
        let from = r.usize(graphs.len());
        let n = if r.chance(1, 4) {
            // All freed, and other things built with the same identities.
            let mut c = base.clone();
            let mut g = gen_graph(r, &mut c, false, 30, 15_000);
            while g.n() <= base.l.max(base.r) as usize {
                g.add(0, vec![]);
            }
            g
        } else {
            mutate(r, &graphs[from], &[base.l, base.r])
        };
        graphs.push(n);
    }
    let same_api = r.chance(1, 2);
    let mut cmps: Vec<Cmpn> = Vec::new();
    for _ in 0..r.range(2, 6) {
        for _ in 0..8 {
            let mut c = if same_api { base.clone() } else { Cmpn::new(0, 0, any_api(r)) };
            c.g = r.usize(graphs.len());
            let g = &graphs[c.g];
            (c.l, c.r) = (base.l, base.r);
            if r.chance(1, 3) || c.l as usize >= g.n() || c.r as usize >= g.n() {
                c.l = r.usize(g.n()) as u32;
                c.r = r.usize(g.n()) as u32;
            } else if r.chance(1, 8) {
                (c.l, c.r) = (c.r, c.l);
            }
            gen_kind(r, &mut c);
            gen_env(r, &mut c);
            if r.chance(1, 3) {
                any_fault(r, &mut c);
            }
            if g.width() as u64 <= c.max_width() && admit(g, &c) {
                cmps.push(c);
                break;
            }
        }
    }
    if cmps.is_empty() {
        cmps.push(Cmpn { l: 0, r: 0, ..base.clone() });
    }
    // Inside of which, at which permille of its steps, which.
    let mut nest = Vec::new();
    if cmps.len() > 1 {
        for _ in 0..r.below(4) {
            let outer = r.usize(cmps.len() - 1);
            let inner = outer + 1 + r.usize(cmps.len() - outer - 1);
            nest.extend([outer as i64, r.below(1000) as i64, inner as i64]);
        }
    }
    let order = (0..r.range(2, 7)).map(|_| r.usize(cmps.len()) as i64).collect();
    Scen::new("C09", graphs, cmps).with("order", order).with("nest", nest)
}

type Nest = Vec<(usize, u64, usize)>;

/// Runs comparison `i` with those nested in it; collects outcomes in order of completion.
fn run_nested(
    i: usize,
    depth: u32,
    s: &Arc<Scen>,
    gs: &Rc<Vec<Arc<Graph>>>,
    events: &Rc<Vec<u64>>,
    nest: &Rc<Nest>,
    outs: &Rc<RefCell<Vec<(usize, u32, Out)>>>,
) {
    let c = &s.cmps[i];
    let mine: Vec<(u64, usize)> = nest
        .iter()
        .filter(|n| n.0 == i && n.2 > i)
        .map(|n| (1 + n.1 * events[i] / 1000, n.2))
        .collect();
    let mut w = watch(&gs[c.g], c, false);
    if !mine.is_empty() && depth < 3 {
        let (s2, gs2, ev2, n2, o2) = (s.clone(), gs.clone(), events.clone(), nest.clone(), outs.clone());
        w.hook = Some(Box::new(move |seq| {
            for (at, inner) in &mine {
                if *at == seq {
                    run_nested(*inner, depth + 1, &s2, &gs2, &ev2, &n2, &o2);
                }
            }
        }));
    }
    let o = execute(&gs[c.g], c, w);
    outs.borrow_mut().push((i, depth, o));
}

pub fn check_c09(s: &Scen, gs: &[Arc<Graph>], agg: &mut Agg) -> Checked {
    for c in &s.cmps {
        if !admit(&gs[c.g], c) {
            return Ok(Held::Skip);
        }
    }
    let order: Vec<usize> =
        s.ex("order").iter().map(|x| *x as usize).filter(|x| *x < s.cmps.len()).collect();
    let nest: Nest = s
        .ex("nest")
        .chunks(3)
        .filter(|x| x.len() == 3 && (x[0] as usize) < s.cmps.len() && (x[2] as usize) < s.cmps.len())
        .map(|x| (x[0] as usize, x[1] as u64, x[2] as usize))
        .collect();
    if order.is_empty() {
        return Ok(Held::Skip);
    }
    // Each alone.
    let mut alone = Vec::new();
    for c in &s.cmps {
        let o = solo(&gs[c.g], c);
        judge(&gs[c.g], c, &o).map_err(|m| format!("alone: {m}"))?;
        alone.push(o);
    }
    let outs = Rc::new(RefCell::new(Vec::new()));
    let sa = Arc::new(s.clone());
    let ga = Rc::new(gs.to_vec());
    let events = Rc::new(alone.iter().map(|o| o.s.events).collect::<Vec<_>>());
    let nest = Rc::new(nest);
    for i in &order {
        run_nested(*i, 0, &sa, &ga, &events, &nest, &outs);
    }
    let mut h = 0;
    let mut big = 0;
    for (k, (i, depth, o)) in outs.borrow().iter().enumerate() {
        let c = &s.cmps[*i];
        agg.out(c, o);
        if *depth > 0 {
            agg.add("nested comparisons", 1);
        }
        let place = if *depth > 0 {
            format!("comparison {i} nested inside of another (completed as number {k} of the history)")
        } else {
            format!("comparison {i} (completed as number {k} of the history)")
        };
        judge(&gs[c.g], c, o).map_err(|m| format!("{place}: {m}"))?;
        let (a, b) = (digest(o), digest(&alone[*i]));
        if repeatable(c) && a != b {
            return Err(format!(
                "{place}, {}: {:?} in {} steps and {} pairs; alone it is {:?} in {} steps and {} pairs{}",
                c.api.name(), a.res, a.events, a.visits, b.res, b.events, b.visits,
                if a.events == b.events { " (the calls differ)" } else { "" }
            ));
        }
        if !a.released && !matches!(c.fault, Fault::Release(_)) {
            return Err(format!("{place}: did not release everything"));
        }
        h = mix2(h, o.s.hash);
        big += u64::from(o.s.visits > 2);
    }
    agg.add("history steps", outs.borrow().len() as u64);
    if s.graphs.len() > 1 {
        agg.add("fault: graphs changed between comparisons", s.graphs.len() as u64 - 1);
    }
    Ok(Held::Yes(h, big >= 2))
}

// ---------------------------------------------------------------------- C10

pub fn gen_c10(r: &mut Prng) -> Scen {
    let threads = r.range(2, 4);
    let mut base = Cmpn::new(0, 0, gen_cyc_api(r, false));
    let g0 = gen_graph(r, &mut base, false, 30, 3_000);
    let graphs = vec![g0];
    let mut cmps = Vec::new();
    let mut who = Vec::new();
    let same = r.chance(1, 2);
    for t in 0..threads {
        for _ in 0..r.range(1, 3) {
            for _ in 0..6 {
                let mut c = if same { base.clone() } else { Cmpn::new(0, 0, any_api(r)) };
                let g = &graphs[0];
                (c.l, c.r) = (base.l, base.r);
                if r.chance(1, 3) {
                    c.l = r.usize(g.n()) as u32;
                    c.r = r.usize(g.n()) as u32;
                }
                gen_kind(r, &mut c);
                gen_env(r, &mut c);
                if r.chance(1, 4) {
                    any_fault(r, &mut c);
                }
                if g.width() as u64 <= c.max_width() && work(g, &c).is_some_and(|w| w <= 6_000) {
                    cmps.push(c);
                    who.push(t as i64);
                    break;
                }
            }
        }
    }
    if cmps.is_empty() {
        cmps.push(Cmpn { l: 0, r: 0, ..base });
        who.push(0);
    }
    // Schedule: seed, steps between switches at most, stalled thread, its stall (in switches).
    let sched = vec![
        r.below(1 << 40) as i64,
        *r.pick(&[1i64, 3, 10, 40, 150]),
        r.below(threads + 1) as i64,
        r.below(400) as i64,
    ];
    Scen::new("C10", graphs, cmps).with("thread", who).with("schedule", sched)
}

struct Sched {
    m: Mutex<State>,
    cv: Condvar,
}
struct State {
    rng: Prng,
    turn: usize,
    alive: Vec<bool>,
    /// Steps until the next switch.
    quantum: u64,
    max_quantum: u64,
    stalled: usize,
    stall: u64,
    switches: u64,
    steps: u64,
    hash: u64,
    dead: bool,
}

impl State {
    /// Somebody else's turn, perhaps.
    fn pass(&mut self) {
        let can: Vec<usize> = (0..self.alive.len())
            .filter(|t| self.alive[*t] && !(*t == self.stalled && self.stall > 0))
            .collect();
        self.stall = self.stall.saturating_sub(1);
        let can = if can.is_empty() {
            self.stall = 0;
            (0..self.alive.len()).filter(|t| self.alive[*t]).collect()
        } else {
            can
        };
        if can.is_empty() {
            return;
        }
        self.turn = can[self.rng.usize(can.len())];
        self.quantum = 1 + self.rng.below(self.max_quantum);
        self.switches += 1;
        self.hash = mix2(self.hash, mix2(self.turn as u64, self.quantum));
    }
}

impl Sched {
    fn wait(&self, t: usize) {
        let mut s = self.m.lock().unwrap();
        while s.turn != t && !s.dead {
            s = self.cv.wait(s).unwrap();
        }
        if s.dead {
            drop(s);
            // Given up: never go on.
            loop {
                std::thread::park();
            }
        }
    }
    fn step(&self, t: usize) {
        let mut s = self.m.lock().unwrap();
        s.steps += 1;
        s.quantum = s.quantum.saturating_sub(1);
        if s.quantum > 0 {
            return;
        }
        s.pass();
        if s.turn != t {
            self.cv.notify_all();
            drop(s);
            self.wait(t);
        }
    }
    fn leave(&self, t: usize) {
        let mut s = self.m.lock().unwrap();
        s.alive[t] = false;
        s.pass();
        self.cv.notify_all();
    }
}

/// Without progress for this long while it has the turn, a thread is waiting for another.
const BLOCKED: Duration = Duration::from_secs(25);

pub fn check_c10(s: &Scen, gs: &[Arc<Graph>], agg: &mut Agg) -> Checked {
    let who = s.ex("thread");
    let [seed, quantum, stalled, stall] = s.ex("schedule")[..] else { return Ok(Held::Skip) };
    if who.len() < s.cmps.len() || s.cmps.is_empty() {
        return Ok(Held::Skip);
    }
    for c in &s.cmps {
        if !admit(&gs[c.g], c) {
            return Ok(Held::Skip);
        }
    }
    let mut threads: Vec<Vec<usize>> = Vec::new();
    {
        let mut ids: Vec<i64> = who[..s.cmps.len()].to_vec();
        ids.sort_unstable();
        ids.dedup();
        for id in ids {
            threads.push((0..s.cmps.len()).filter(|i| who[*i] == id).collect());
        }
    }
    let mut alone = Vec::new();
    for c in &s.cmps {
        let o = solo(&gs[c.g], c);
        judge(&gs[c.g], c, &o).map_err(|m| format!("alone: {m}"))?;
        alone.push(digest(&o));
    }
    let n = threads.len();
    let sched = Arc::new(Sched {
        m: Mutex::new(State {
            rng: Prng::new(seed as u64),
            turn: 0,
            alive: vec![true; n],
            quantum: 1,
            max_quantum: (quantum as u64).clamp(1, 100_000),
            stalled: stalled as usize,
            stall: stall as u64,
            switches: 0,
            steps: 0,
            hash: 0,
            dead: false,
        }),
        cv: Condvar::new(),
    });
    let results: Arc<Mutex<Vec<(usize, Out)>>> = Arc::new(Mutex::new(Vec::new()));
    let mut handles = Vec::new();
    for (t, mine) in threads.iter().cloned().enumerate() {
        let (sched, results) = (sched.clone(), results.clone());
        let cmps = s.cmps.clone();
        let gs = gs.to_vec();
        handles.push(
            std::thread::Builder::new()
                .stack_size(96 << 20)
                .spawn(move || {
                    sched.wait(t);
                    for i in mine {
                        let c = &cmps[i];
                        let mut w = watch(&gs[c.g], c, false);
                        let sc = sched.clone();
                        w.hook = Some(Box::new(move |_| sc.step(t)));
                        let o = execute(&gs[c.g], c, w);
                        results.lock().unwrap().push((i, o));
                    }
                    sched.leave(t);
                })
                .expect("HARNESS: thread"),
        );
    }
    // Supervise.
    let mut last = u64::MAX;
    let mut since = std::time::Instant::now();
    let mut nap = Duration::from_micros(50);
    while !handles.iter().all(|h| h.is_finished()) {
        std::thread::sleep(nap);
        nap = (nap * 2).min(Duration::from_millis(20));
        let mut st = sched.m.lock().unwrap();
        let mark = st.steps.wrapping_mul(7).wrapping_add(st.alive.iter().filter(|a| **a).count() as u64);
        if mark != last {
            last = mark;
            since = std::time::Instant::now();
        } else if since.elapsed() > BLOCKED {
            let t = st.turn;
            st.dead = true;
            let msg = format!(
                "thread {t} makes no progress while it alone may run (after {} steps of all): it waits for another",
                st.steps
            );
            drop(st);
            sched.cv.notify_all();
            // The stuck threads are left behind; this process ends soon.
            std::mem::forget(handles);
            return Err(msg);
        }
    }
    for h in handles {
        if h.join().is_err() {
            panic!("HARNESS: simulated thread died");
        }
    }
    let st = sched.m.lock().unwrap();
    agg.add("thread switches", st.switches);
    agg.add("threads", n as u64);
    if stall > 0 && (stalled as usize) < n {
        agg.add("fault: thread stalled", 1);
    }
    let mut h = st.hash;
    let results = results.lock().unwrap();
    if results.len() != s.cmps.len() {
        return Err(format!("{} of {} comparisons ended", results.len(), s.cmps.len()));
    }
    for (i, o) in results.iter() {
        let c = &s.cmps[*i];
        agg.out(c, o);
        judge(&gs[c.g], c, o).map_err(|m| format!("with other threads: {m}"))?;
        let (a, b) = (digest(o), &alone[*i]);
        if repeatable(c) && a != *b {
            return Err(format!(
                "comparison {i}, {}: with other threads {:?} in {} steps and {} pairs; alone {:?} in {} steps and {} pairs{}",
                c.api.name(), a.res, a.events, a.visits, b.res, b.events, b.visits,
                if a.events == b.events { " (the calls differ)" } else { "" }
            ));
        }
        h = mix2(h, o.s.hash);
    }
    Ok(Held::Yes(h, n > 1 && st.switches > 2))
}
