//! Graphs, their generators, and the reference models (oracles).

use crate::json::J;
use crate::prng::{mix2, Prng};
use std::cmp::Ordering;
use std::collections::{HashMap, HashSet, VecDeque};

#[derive(Clone, Debug, PartialEq, Default)]
pub struct Graph {
    pub label: Vec<u32>,
    pub edges: Vec<Vec<u32>>,
}

impl Graph {
    pub fn n(&self) -> usize {
        self.label.len()
    }
    pub fn add(&mut self, label: u32, edges: Vec<u32>) -> u32 {
        self.label.push(label);
        self.edges.push(edges);
        (self.label.len() - 1) as u32
    }
    pub fn width(&self) -> usize {
        self.edges.iter().map(Vec::len).max().unwrap_or(0)
    }
    pub fn to_json(&self) -> J {
        J::obj(vec![
            ("label", J::ints(&self.label)),
            ("edges", J::Arr(self.edges.iter().map(|e| J::ints(e)).collect())),
        ])
    }
    pub fn from_json(j: &J) -> Self {
        Graph {
            label: j.get("label").arr().iter().map(|x| x.int() as u32).collect(),
            edges: j
                .get("edges")
                .arr()
                .iter()
                .map(|e| e.arr().iter().map(|x| x.int() as u32).collect())
                .collect(),
        }
    }
    /// Nodes reachable from the given roots.
    pub fn reach(&self, roots: &[u32]) -> Vec<bool> {
        let mut seen = vec![false; self.n()];
        let mut st: Vec<u32> = roots.to_vec();
        while let Some(x) = st.pop() {
            if std::mem::replace(&mut seen[x as usize], true) {
                continue;
            }
            st.extend(self.edges[x as usize].iter().filter(|y| !seen[**y as usize]));
        }
        seen
    }
    /// Distinct non-leaf nodes reachable from the roots.
    pub fn branches(&self, roots: &[u32]) -> u64 {
        let r = self.reach(roots);
        (0..self.n()).filter(|&i| r[i] && !self.edges[i].is_empty()).count() as u64
    }
    pub fn reach_width(&self, roots: &[u32]) -> u64 {
        let r = self.reach(roots);
        (0..self.n()).filter(|&i| r[i]).map(|i| self.edges[i].len()).max().unwrap_or(0) as u64
    }
    /// The same without the roots, when these are nowhere else.
    pub fn inner_width(&self, roots: &[u32]) -> Option<u64> {
        let r = self.reach(roots);
        let mut w = 0;
        for i in (0..self.n()).filter(|&i| r[i]) {
            if self.edges[i].iter().any(|e| roots.contains(e)) {
                return None;
            }
            if !roots.contains(&(i as u32)) {
                w = w.max(self.edges[i].len() as u64);
            }
        }
        Some(w)
    }
    /// Depth-first heights; `None` when a cycle is reachable.
    pub fn heights(&self, roots: &[u32]) -> Option<Vec<u32>> {
        let n = self.n();
        let mut state = vec![0u8; n];
        let mut h = vec![0u32; n];
        for &r in roots {
            let mut st: Vec<(u32, usize)> = Vec::new();
            if state[r as usize] == 0 {
                state[r as usize] = 1;
                st.push((r, 0));
            }
            while let Some((x, i)) = st.pop() {
                let xi = x as usize;
                if i < self.edges[xi].len() {
                    let y = self.edges[xi][i];
                    st.push((x, i + 1));
                    match state[y as usize] {
                        0 => {
                            state[y as usize] = 1;
                            st.push((y, 0));
                        }
                        1 => return None,
                        _ => (),
                    }
                } else {
                    h[xi] = self.edges[xi].iter().map(|y| h[*y as usize] + 1).max().unwrap_or(0);
                    state[xi] = 2;
                }
            }
        }
        Some(h)
    }
    pub fn acyclic(&self, roots: &[u32]) -> bool {
        self.heights(roots).is_some()
    }
    pub fn hash(&self) -> u64 {
        let mut h = 7;
        for (l, e) in self.label.iter().zip(&self.edges) {
            h = mix2(h, u64::from(*l));
            for x in e {
                h = mix2(h, u64::from(*x) + 1);
            }
        }
        h
    }
}

// ------------------------------------------------------------------ models

/// Are the nodes bisimilar?  (Hopcroft-Karp on plain integer arrays.)
pub fn bisim(g: &Graph, a: u32, b: u32) -> bool {
    let mut parent: Vec<u32> = (0..g.n() as u32).collect();
    fn find(p: &mut [u32], mut x: u32) -> u32 {
        while p[x as usize] != x {
            p[x as usize] = p[p[x as usize] as usize];
            x = p[x as usize];
        }
        x
    }
    let mut work = vec![(a, b)];
    while let Some((x, y)) = work.pop() {
        let (rx, ry) = (find(&mut parent, x), find(&mut parent, y));
        if rx == ry {
            continue;
        }
        let (xi, yi) = (x as usize, y as usize);
        if g.label[xi] != g.label[yi] || g.edges[xi].len() != g.edges[yi].len() {
            return false;
        }
        parent[rx as usize] = ry;
        work.extend(g.edges[xi].iter().copied().zip(g.edges[yi].iter().copied()));
    }
    true
}

/// Second, independent model (partition refinement), used to cross-check the first on small graphs.
pub fn bisim_refine(g: &Graph, a: u32, b: u32) -> bool {
    let n = g.n();
    let mut class: Vec<u64> = (0..n).map(|i| u64::from(g.label[i])).collect();
    let mut count = 0;
    loop {
        let mut ids: HashMap<(u64, Vec<u64>), u64> = HashMap::new();
        let next: Vec<u64> = (0..n)
            .map(|i| {
                let key = (class[i], g.edges[i].iter().map(|e| class[*e as usize]).collect());
                let k = ids.len() as u64;
                *ids.entry(key).or_insert(k)
            })
            .collect();
        class = next;
        if ids.len() == count {
            break;
        }
        count = ids.len();
    }
    class[a as usize] == class[b as usize]
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Strategy {
    Dfs,
    Bfs,
}

pub fn tag_of(l: u32, r: u32) -> u64 {
    mix2(u64::from(l) + 1, u64::from(r) + 1) | 1
}

pub fn root_pos() -> u64 {
    1
}
pub fn child_pos(pos: u64, idx: u64) -> u64 {
    mix2(pos, idx.wrapping_add(0x51))
}

/// A verdict: the ordering, and which pair gave it (0 for the amount of edges).
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Vd {
    pub ord: Ordering,
    pub tag: u64,
}

impl Vd {
    pub const EQ: Vd = Vd { ord: Ordering::Equal, tag: 0 };
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Stop {
    Done(Vd),
    /// Budget ran out.
    Limit,
    /// Controller failed with this code.
    Fail(u32),
    /// The model itself gave up (too much work).
    GaveUp,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Decision {
    Go,
    Skip,
    Fail(u32),
}

pub struct Naive {
    pub stop: Stop,
    /// Pairs traversed (asked about).
    pub visits: u64,
    /// Pairs actually compared by position, in order.
    pub compared: Vec<u64>,
    /// Greatest number of pending pairs (partly consumed).
    pub peak_pending: u64,
}

/// Straightforward traversal with explicit pending list, as the naive specification.
///
/// `dedup`: do not descend a pair that was descended before (needed for sharing and cycles).
pub fn naive(
    g: &Graph,
    a: u32,
    b: u32,
    strat: Strategy,
    dedup: bool,
    budget: Option<u128>,
    cap: u64,
    mut traverse: impl FnMut(u64) -> Decision,
    mut descend: impl FnMut(u64) -> Decision,
) -> Naive {
    let mut pend: VecDeque<(u32, u32, u64, usize)> = VecDeque::new();
    let mut seen: HashSet<(u32, u32)> = HashSet::new();
    let mut out = Naive { stop: Stop::GaveUp, visits: 0, compared: Vec::new(), peak_pending: 0 };
    let mut left = budget;
    let mut cur = (a, b, root_pos());
    let mut descents = 0;
    loop {
        // Visit.
        'visit: {
            if let Some(l) = &mut left {
                if *l == 0 {
                    out.stop = Stop::Limit;
                    return out;
                }
                *l -= 1;
            }
            let asked = out.visits;
            out.visits += 1;
            if out.visits > cap {
                out.stop = Stop::GaveUp;
                return out;
            }
            match traverse(asked) {
                Decision::Go => (),
                Decision::Skip => break 'visit,
                Decision::Fail(c) => {
                    out.stop = Stop::Fail(c);
                    return out;
                }
            }
            let (l, r, pos) = cur;
            if l == r {
                break 'visit;
            }
            out.compared.push(pos);
            let ord = g.label[l as usize].cmp(&g.label[r as usize]);
            if ord != Ordering::Equal {
                out.stop = Stop::Done(Vd { ord, tag: tag_of(l, r) });
                return out;
            }
            let (nl, nr) = (g.edges[l as usize].len(), g.edges[r as usize].len());
            if nl == 0 && nr == 0 {
                break 'visit;
            }
            if nl == 0 || nr == 0 {
                out.stop = Stop::Done(Vd { ord: nl.cmp(&nr), tag: 0 });
                return out;
            }
            match descend(descents) {
                Decision::Go => (),
                Decision::Skip => {
                    descents += 1;
                    break 'visit;
                }
                Decision::Fail(c) => {
                    out.stop = Stop::Fail(c);
                    return out;
                }
            }
            descents += 1;
            if dedup && !seen.insert((l, r)) {
                break 'visit;
            }
            pend.push_back((l, r, pos, 0));
            out.peak_pending = out.peak_pending.max(pend.len() as u64);
        }
        // Next.
        let slot = match strat {
            Strategy::Dfs => pend.back_mut(),
            Strategy::Bfs => pend.front_mut(),
        };
        let Some((l, r, pos, i)) = slot else {
            out.stop = Stop::Done(Vd::EQ);
            return out;
        };
        let (el, er) = (&g.edges[*l as usize], &g.edges[*r as usize]);
        match (el.get(*i), er.get(*i)) {
            (Some(x), Some(y)) => {
                cur = (*x, *y, child_pos(*pos, *i as u64));
                *i += 1;
                if *i >= el.len() && *i >= er.len() {
                    match strat {
                        Strategy::Dfs => pend.pop_back(),
                        Strategy::Bfs => pend.pop_front(),
                    };
                }
            }
            (None, None) => unreachable!(),
            (x, y) => {
                out.stop = Stop::Done(Vd { ord: x.is_some().cmp(&y.is_some()), tag: 0 });
                return out;
            }
        }
    }
}

/// The first difference, in traversal order; independent of any schedule for breadth-first on all
/// graphs, and for depth-first on acyclic graphs.
pub fn first_difference(g: &Graph, a: u32, b: u32, strat: Strategy) -> Option<Vd> {
    match naive(g, a, b, strat, true, None, 4_000_000, |_| Decision::Go, |_| Decision::Go).stop {
        Stop::Done(v) => Some(v),
        _ => None,
    }
}

// -------------------------------------------------------------- generators

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Size {
    Tiny,
    Small,
    Medium,
    Large,
}

#[derive(Clone, Debug)]
pub struct GenOpts {
    pub size: Size,
    pub acyclic: bool,
    /// No sharing: every node has one parent.
    pub tree: bool,
    pub max_width: usize,
    /// Chance (percent) of perturbing one copy.
    pub perturb: u64,
}

pub fn pick_size(r: &mut Prng, medium: u64, large: u64) -> Size {
    let x = r.below(1000);
    if x < large {
        Size::Large
    } else if x < large + medium {
        Size::Medium
    } else if x < large + medium + 300 {
        Size::Small
    } else {
        Size::Tiny
    }
}

fn nodes_for(r: &mut Prng, s: Size) -> usize {
    match s {
        Size::Tiny => r.range(1, 6) as usize,
        Size::Small => r.range(4, 30) as usize,
        Size::Medium => r.range(30, 400) as usize,
        Size::Large => r.range(400, 6000) as usize,
    }
}

/// Base graph (one copy) and its root.
fn base(r: &mut Prng, o: &GenOpts) -> (Graph, u32) {
    let n = nodes_for(r, o.size);
    let labels = *r.pick(&[1u64, 1, 1, 2, 3]);
    let mut g = Graph::default();
    let fam = if o.tree { *r.pick(&[1usize, 2, 3, 8, 11]) } else { r.usize(11) };
    let w = o.max_width.max(1);
    match fam {
        // Random digraph / DAG.
        0 => {
            let deg = r.range(1, 3.min(w as u64));
            let leaf = r.range(0, 60);
            for i in 0..n {
                let k = if r.chance(leaf, 100) { 0 } else { r.range(1, deg) };
                let e = if o.acyclic {
                    if i == 0 {
                        vec![]
                    } else {
                        (0..k).map(|_| r.below(i as u64) as u32).collect()
                    }
                } else {
                    (0..k).map(|_| r.below(n as u64) as u32).collect()
                };
                g.add(r.below(labels) as u32, e);
            }
            let root = if o.acyclic { n - 1 } else { r.usize(n) };
            (g, root as u32)
        }
        // Random tree (children have larger construction order).
        1 => {
            let mut kids: Vec<Vec<u32>> = vec![vec![]; n];
            for i in 1..n {
                for _ in 0..20 {
                    let lo = if r.chance(1, 2) { 0 } else { i.saturating_sub(4) };
                    let p = r.range(lo as u64, i as u64 - 1) as usize;
                    if kids[p].len() < w {
                        kids[p].push(i as u32);
                        break;
                    }
                }
            }
            for k in kids {
                g.add(r.below(labels) as u32, k);
            }
            (g, 0)
        }
        // List, long edge last / first / only.
        2 => {
            let style = r.below(4);
            let mut tail = g.add(0, vec![]);
            for _ in 0..n {
                let l = r.below(labels) as u32;
                tail = if w < 2 || style == 3 {
                    g.add(l, vec![tail])
                } else {
                    let leaf = g.add(r.below(labels) as u32, vec![]);
                    let last = match style {
                        0 => true,
                        1 => false,
                        _ => r.chance(1, 2),
                    };
                    g.add(l, if last { vec![leaf, tail] } else { vec![tail, leaf] })
                };
            }
            (g, tail)
        }
        // Wide node(s).
        3 => {
            let per = n.clamp(1, w);
            let mut kids = Vec::new();
            for _ in 0..per {
                let l = r.below(labels) as u32;
                let k = if o.tree || r.chance(1, 2) || kids.is_empty() {
                    let leaf = r.chance(2, 3);
                    let e = if leaf { vec![] } else { vec![g.add(0, vec![])] };
                    g.add(l, e)
                } else {
                    *r.pick(&kids)
                };
                kids.push(k);
            }
            let root = g.add(0, kids);
            (g, root)
        }
        // Degenerate DAG / degenerate cyclic (every level shares one next node).
        4 => {
            let cyc = !o.acyclic && r.chance(1, 2);
            let k = r.range(1, 3.min(w as u64)) as usize;
            let tail = g.add(0, vec![]);
            let mut head = tail;
            for _ in 0..n {
                head = g.add(r.below(labels) as u32, vec![head; k]);
            }
            if cyc {
                g.edges[tail as usize] = vec![head; k];
            }
            (g, head)
        }
        // Cycle with stubs (acyclic: chain).
        5 => {
            let per = r.range(1, 4) as usize;
            let pat: Vec<u32> = (0..per).map(|_| r.below(labels) as u32).collect();
            let stub = r.chance(1, 2) && w >= 2;
            let first = r.chance(1, 2);
            let len = n.max(1);
            for i in 0..len {
                g.add(pat[i % per], vec![]);
            }
            for i in 0..len {
                let next = ((i + 1) % len) as u32;
                if o.acyclic && i + 1 == len {
                    continue;
                }
                let mut e = vec![next];
                if stub {
                    let l = g.add(0, vec![]);
                    if first {
                        e.insert(0, l)
                    } else {
                        e.push(l)
                    }
                }
                g.edges[i] = e;
            }
            (g, 0)
        }
        // Grid (a lot of sharing), possibly toroidal.
        6 if w >= 2 => {
            let side = (n as f64).sqrt().ceil() as usize;
            let tor = !o.acyclic && r.chance(1, 2);
            for i in 0..side * side {
                let _ = i;
                g.add(r.below(labels) as u32, vec![]);
            }
            for y in 0..side {
                for x in 0..side {
                    let mut e = vec![];
                    if x + 1 < side {
                        e.push((y * side + x + 1) as u32)
                    } else if tor {
                        e.push((y * side) as u32)
                    }
                    if y + 1 < side {
                        e.push(((y + 1) * side + x) as u32)
                    } else if tor {
                        e.push(x as u32)
                    }
                    g.edges[y * side + x] = e;
                }
            }
            (g, 0)
        }
        // Layered DAG, wide sharing between layers; optionally fed back.
        7 => {
            let lw = r.range(1, 4) as usize;
            let layers = (n / lw).max(1);
            for _ in 0..layers * lw {
                g.add(r.below(labels) as u32, vec![]);
            }
            let back = !o.acyclic && r.chance(1, 2);
            for l in 0..layers {
                for i in 0..lw {
                    let k = r.range(1, 3.min(w as u64));
                    let next = if l + 1 < layers {
                        l + 1
                    } else if back {
                        0
                    } else {
                        continue;
                    };
                    g.edges[l * lw + i] =
                        (0..k).map(|_| (next * lw + r.usize(lw)) as u32).collect();
                }
            }
            (g, 0)
        }
        // Perfect tree / vee like.
        8 => {
            let k = 2.min(w);
            fn build(g: &mut Graph, d: usize, k: usize, r: &mut Prng, labels: u64) -> u32 {
                let e = if d == 0 { vec![] } else { (0..k).map(|_| build(g, d - 1, k, r, labels)).collect() };
                g.add(r.below(labels) as u32, e)
            }
            let d = if k == 1 { n.min(60) } else { (usize::BITS - n.leading_zeros()) as usize };
            let root = build(&mut g, d.saturating_sub(1), k, r, labels);
            (g, root)
        }
        // Automaton-like: all nodes same arity, labels by few final states (deep differences).
        9 if !o.acyclic => {
            let k = r.range(1, 3.min(w as u64)) as usize;
            for _ in 0..n {
                let e = (0..k).map(|_| r.below(n as u64) as u32).collect();
                g.add(u32::from(r.chance(1, n as u64)), e);
            }
            (g, r.usize(n) as u32)
        }
        10 | 9 | 6 => {
            // Chain where each node also points back (or ahead) by some jump.
            let jump = r.range(1, 5) as usize;
            for i in 0..n {
                let mut e = vec![];
                if i + 1 < n {
                    e.push((i + 1) as u32);
                }
                if w >= 2 {
                    if !o.acyclic && i >= jump && r.chance(2, 3) {
                        e.push((i - jump) as u32);
                    } else if i + jump < n {
                        e.push((i + jump) as u32);
                    }
                }
                if r.chance(1, 4) {
                    e.reverse();
                }
                g.add(r.below(labels) as u32, e);
            }
            (g, 0)
        }
        // (Only trees) caterpillar with bushy legs.
        _ => {
            let mut spine = g.add(0, vec![]);
            for _ in 0..n {
                let legs = r.below(w as u64) as usize;
                let mut e: Vec<u32> = (0..legs.min(5)).map(|_| g.add(r.below(labels) as u32, vec![])).collect();
                let at = r.usize(e.len() + 1);
                e.insert(at, spine);
                spine = g.add(r.below(labels) as u32, e);
            }
            (g, spine)
        }
    }
}

fn perturb(r: &mut Prng, g: &mut Graph, o: &GenOpts, roots: &[u32]) {
    // Prefer something reachable from only one side, to make it matter.
    let ra = g.reach(&roots[..1]);
    let rb = g.reach(&roots[1..]);
    let only: Vec<u32> =
        (0..g.n()).filter(|&i| ra[i] != rb[i]).map(|i| i as u32).collect();
    let all: Vec<u32> = (0..g.n()).filter(|&i| ra[i] || rb[i]).map(|i| i as u32).collect();
    let pool = if !only.is_empty() && r.chance(9, 10) { only } else { all };
    let x = *r.pick(&pool) as usize;
    match r.below(if o.acyclic { 4 } else { 6 }) {
        0 | 1 => {
            g.label[x] = if r.chance(1, 2) { g.label[x] + 1 } else { g.label[x].saturating_sub(1) }
        }
        2 => {
            if g.edges[x].pop().is_none() {
                g.label[x] += 1;
            }
        }
        3 => {
            if g.edges[x].len() < o.max_width {
                let leaf = g.add(0, vec![]);
                let at = r.usize(g.edges[x].len() + 1);
                g.edges[x].insert(at, leaf);
            } else {
                g.label[x] += 1;
            }
        }
        4 => {
            if !g.edges[x].is_empty() {
                let i = r.usize(g.edges[x].len());
                g.edges[x][i] = *r.pick(&pool);
            }
        }
        _ => {
            let n = g.edges[x].len();
            if n >= 2 {
                let (i, j) = (r.usize(n), r.usize(n));
                g.edges[x].swap(i, j);
            } else {
                g.label[x] += 1;
            }
        }
    }
}

/// Two graphs, in one arena: (graph, left root, right root).
pub fn gen_pair(r: &mut Prng, o: &GenOpts) -> (Graph, u32, u32) {
    let x = r.below(100);
    if !o.tree && x < 12 && o.size != Size::Large {
        // Two random nodes of one arena.
        let (g, root) = base(r, o);
        let n = g.n() as u64;
        let other = r.below(n) as u32;
        return (g, root, other);
    }
    if !o.tree && x < 30 {
        return merge_script(r, o);
    }
    if !o.acyclic && !o.tree && x < 38 {
        return two_cycles(r, o);
    }
    let (bg, root) = base(r, o);
    let mut g = Graph::default();
    let n = bg.n();
    // Copies of each base node, by side: 0 left, 1 right, 2 shared.
    let mut copies: Vec<[Vec<u32>; 3]> = vec![Default::default(); n];
    let dup = if o.tree { 0 } else { *r.pick(&[0u64, 0, 20, 50]) };
    let share = if o.tree { 0 } else { *r.pick(&[0u64, 0, 0, 15, 60]) };
    for i in 0..n {
        for side in 0..2 {
            let mut k = 1;
            while r.chance(dup, 100) && k < 4 {
                k += 1;
            }
            for _ in 0..k {
                let c = g.add(bg.label[i], vec![]);
                copies[i][side].push(c);
            }
        }
        if r.chance(share, 100) {
            let c = g.add(bg.label[i], vec![]);
            copies[i][2].push(c);
        }
    }
    for i in 0..n {
        for side in 0..3 {
            for ci in 0..copies[i][side].len() {
                let c = copies[i][side][ci];
                let e: Vec<u32> = bg.edges[i]
                    .iter()
                    .map(|&t| {
                        let t = &copies[t as usize];
                        let from = match side {
                            2 => {
                                if !t[2].is_empty() {
                                    2
                                } else {
                                    r.usize(2)
                                }
                            }
                            s if !t[2].is_empty() && r.chance(1, 2) => {
                                let _ = s;
                                2
                            }
                            s => {
                                if dup > 0 && r.chance(1, 40) {
                                    1 - s
                                } else {
                                    s
                                }
                            }
                        };
                        let v = &t[from];
                        v[r.usize(v.len())]
                    })
                    .collect();
                g.edges[c as usize] = e;
            }
        }
    }
    let ra = copies[root as usize][0][0];
    let rb = copies[root as usize][1][0];
    if r.chance(o.perturb, 100) {
        let k = *r.pick(&[1, 1, 1, 2]);
        for _ in 0..k {
            perturb(r, &mut g, o, &[ra, rb]);
        }
    }
    (g, ra, rb)
}

/// Cycles of different lengths (bisimilar unless perturbed).
fn two_cycles(r: &mut Prng, o: &GenOpts) -> (Graph, u32, u32) {
    let n = (nodes_for(r, o.size) as u64).min(700);
    let (p, q) = (r.range(1, n), r.range(1, n));
    let mut g = Graph::default();
    let k = r.range(1, 2.min(o.max_width as u64)) as usize;
    let mk = |g: &mut Graph, len: u64, r: &mut Prng| {
        let st = g.n() as u32;
        for i in 0..len as u32 {
            let e = (0..k)
                .map(|j| if j == 0 { st + (i + 1) % len as u32 } else { st + r.below(len) as u32 })
                .collect();
            g.add(0, e);
        }
        st
    };
    let a = mk(&mut g, p, r);
    let b = mk(&mut g, q, r);
    if r.chance(o.perturb, 100) {
        let x = r.usize(g.n());
        if r.chance(1, 2) {
            g.label[x] = 1;
        } else {
            g.edges[x].pop();
        }
    }
    (g, a, b)
}

/// A root (or list) whose children pairs drive the equivalence classes through an arbitrary
/// sequence of unions and queries, with possibly a deep difference hidden under one of them.
pub fn merge_script(r: &mut Prng, o: &GenOpts) -> (Graph, u32, u32) {
    let mut g = Graph::default();
    let pool = (nodes_for(r, o.size)).max(2);
    let under = r.range(1, 3);
    let share_tail = r.chance(1, 3);
    let common: Option<u32> = share_tail.then(|| g.add(0, vec![]));
    let mut bottoms = Vec::new();
    let mut mk = |g: &mut Graph, bottoms: &mut Vec<u32>| {
        let mut x = common.unwrap_or_else(|| g.add(0, vec![]));
        bottoms.push(x);
        for _ in 0..under {
            x = g.add(0, vec![x]);
        }
        x
    };
    let half = pool.div_ceil(2);
    let left: Vec<u32> = (0..half).map(|_| mk(&mut g, &mut bottoms)).collect();
    let right: Vec<u32> = (0..half).map(|_| mk(&mut g, &mut bottoms)).collect();
    let mut script: Vec<(u32, u32)> = Vec::new();
    match r.below(5) {
        // Arbitrary.
        0 => {
            for _ in 0..r.range(1, 3 * pool as u64) {
                script.push((*r.pick(&left), *r.pick(&right)));
            }
        }
        // Fresh classes first, then merged in a row (long chains if unions are not weighted).
        1 | 2 => {
            for i in 0..half {
                script.push((left[i], right[i]));
            }
            let fwd = r.chance(1, 2);
            // Either operand may be on the growing side, always or by turns.
            let side = r.below(3);
            // The growing class is met at its newest member, or at its oldest, or at any.
            let at = r.below(4);
            for i in 0..half - 1 {
                let new = if fwd { i + 1 } else { half - 2 - i };
                let newest = if fwd { i } else { half - 1 - i };
                let old = match at {
                    0 => {
                        if fwd {
                            0
                        } else {
                            half - 1
                        }
                    }
                    1 => {
                        if fwd {
                            r.usize(i + 1)
                        } else {
                            half - 1 - r.usize(i + 1)
                        }
                    }
                    _ => newest,
                };
                let grown_left = match side {
                    0 => true,
                    1 => false,
                    _ => r.chance(1, 2),
                };
                script.push(if grown_left { (left[old], right[new]) } else { (left[new], right[old]) });
            }
        }
        // Tournament.
        3 => {
            for i in 0..half {
                script.push((left[i], right[i]));
            }
            let mut step = 1;
            while step < half {
                let mut i = 0;
                while i + step < half {
                    let (x, y) = (i + r.usize(step), i + step + r.usize(step.min(half - i - step)));
                    script.push(if r.chance(1, 2) { (left[x], right[y]) } else { (left[y], right[x]) });
                    i += 2 * step;
                }
                step *= 2;
            }
        }
        // Star: one node against all, one side at a time.
        _ => {
            for i in 0..half {
                script.push((left[0], right[i]));
            }
            for i in 0..half {
                script.push((left[i], right[r.usize(half)]));
            }
        }
    }
    // Queries shorten whatever chains there are, so leave some alone.
    if r.chance(1, 2) {
        for _ in 0..r.range(0, pool as u64) {
            script.push((*r.pick(&left), *r.pick(&right)));
        }
    }
    if r.chance(o.perturb, 100) && !share_tail {
        let i = r.usize(bottoms.len());
        if r.chance(2, 3) {
            g.label[bottoms[i] as usize] = 1;
        } else {
            let l = g.add(0, vec![]);
            g.edges[bottoms[i] as usize] = vec![l];
        }
    }
    let as_list = r.chance(1, 2) || script.len() > o.max_width;
    if as_list && o.max_width >= 2 {
        let (mut x, mut y) = (g.add(0, vec![]), g.add(0, vec![]));
        let tail_last = r.chance(2, 3);
        for &(a, b) in script.iter().rev() {
            let (ea, eb) = if tail_last { (vec![a, x], vec![b, y]) } else { (vec![x, a], vec![y, b]) };
            x = g.add(0, ea);
            y = g.add(0, eb);
        }
        (g, x, y)
    } else {
        script.truncate(o.max_width);
        let x = g.add(0, script.iter().map(|p| p.0).collect());
        let y = g.add(0, script.iter().map(|p| p.1).collect());
        (g, x, y)
    }
}

/// Very deep or very wide shapes for the resource properties; both sides separate copies.
/// Breadth-first or depth-first, more gets pending than 16 bits count; perhaps with a difference at what is
/// pending longest or shortest.
pub fn gen_pending(r: &mut Prng) -> (Graph, u32, u32) {
    let mut g = Graph::default();
    let size = *r.pick(&[65_535usize, 65_537, 65_545, 66_000, 70_000]);
    let wide = r.chance(1, 2);
    let mut one = || {
        // What is pending, first to last.
        let leaves: Vec<u32> = (0..size).map(|_| g.add(0, vec![])).collect();
        let root = if wide {
            let e = leaves.iter().map(|l| g.add(0, vec![*l])).collect();
            g.add(0, e)
        } else {
            leaves.iter().fold(g.add(0, vec![]), |t, l| g.add(0, vec![t, *l]))
        };
        (root, leaves)
    };
    let (l, ll) = one();
    let (rr, rl) = one();
    let near = r.usize(6);
    let at = *r.pick(&[near, size - 1 - near, near, size - 1 - near, r.clone().usize(size)]);
    match r.below(4) {
        0 => (),
        1 => g.label[ll[at] as usize] += 1,
        2 => g.label[rl[at] as usize] += 1,
        _ => g.edges[ll[at] as usize].push(rl[0]),
    }
    (g, l, rr)
}

pub fn gen_extreme(r: &mut Prng, size: usize, acyclic: bool) -> (Graph, u32, u32) {
    let mut g = Graph::default();
    let kind = if acyclic { r.below(6) } else { r.below(8) };
    let seed = r.next();
    let one = |g: &mut Graph| -> u32 {
        let mut r = Prng::new(seed);
        match kind {
            0 => {
                // List, long edge last.
                let mut t = g.add(0, vec![]);
                for _ in 0..size {
                    let l = g.add(0, vec![]);
                    t = g.add(0, vec![l, t]);
                }
                t
            }
            1 => {
                // Long edge first.
                let mut t = g.add(0, vec![]);
                for _ in 0..size {
                    let l = g.add(0, vec![]);
                    t = g.add(0, vec![t, l]);
                }
                t
            }
            2 => {
                // Only edge.
                let mut t = g.add(0, vec![]);
                for _ in 0..size {
                    t = g.add(0, vec![t]);
                }
                t
            }
            3 => {
                // Very wide, of few nodes or of many.
                let l = g.add(0, vec![]);
                if r.chance(1, 2) {
                    let own = r.chance(1, 2);
                    let e = (0..size).map(|_| {
                        let l = if own { g.add(0, vec![]) } else { l };
                        g.add(0, vec![l])
                    });
                    let e = e.collect();
                    return g.add(0, e);
                }
                let bs: Vec<u32> = (0..3).map(|_| g.add(0, vec![l, l])).collect();
                let e = (0..size).map(|_| if r.chance(1, 3) { *r.pick(&bs) } else { l }).collect();
                g.add(0, e)
            }
            4 => {
                // Wide levels.
                let lv = r.range(2, 4) as u32;
                let w = ((size as f64).powf(1.0 / f64::from(lv)).round() as usize).max(2);
                let mut t = g.add(0, vec![]);
                for _ in 0..lv {
                    t = g.add(0, vec![t; w]);
                }
                t
            }
            5 => {
                // Vee: long left side on first edges, long right side on last edges.
                let mut a = g.add(0, vec![]);
                let mut b = g.add(0, vec![]);
                for _ in 0..size / 2 {
                    let l = g.add(0, vec![]);
                    a = g.add(0, vec![a, l]);
                    b = g.add(0, vec![l, b]);
                }
                g.add(0, vec![a, b])
            }
            6 => {
                // Degenerate cyclic.
                let t = g.add(0, vec![]);
                let mut h = t;
                for _ in 0..size {
                    h = g.add(0, vec![h, h]);
                }
                g.edges[t as usize] = vec![h, h];
                h
            }
            _ => {
                // Long cycle with stubs.
                let t = g.add(0, vec![]);
                let mut h = t;
                for _ in 0..size {
                    let l = g.add(0, vec![]);
                    h = g.add(0, if r.chance(1, 2) { vec![l, h] } else { vec![h, l] });
                }
                g.edges[t as usize] = vec![h];
                h
            }
        }
    };
    let a = one(&mut g);
    let b = one(&mut g);
    (g, a, b)
}
