//! Minimisation of failing scenarios.

use crate::ctx::*;
use crate::graph::Graph;
use crate::scen::Scen;
use std::time::{Duration, Instant};

pub struct Shrink<'a> {
    /// Does it still fail?
    pub fails: &'a mut dyn FnMut(&Scen) -> bool,
    pub until: Instant,
    pub tried: u64,
    pub kept: u64,
}

fn size(s: &Scen) -> usize {
    s.graphs.iter().map(|g| g.n() + g.edges.iter().map(Vec::len).sum::<usize>()).sum()
}

impl Shrink<'_> {
    pub fn new(fails: &mut dyn FnMut(&Scen) -> bool, limit: Duration) -> Shrink<'_> {
        Shrink { fails, until: Instant::now() + limit, tried: 0, kept: 0 }
    }

    fn attempt(&mut self, cur: &mut Scen, new: Scen) -> bool {
        if new == *cur || !new.well_formed() || Instant::now() > self.until {
            return false;
        }
        self.tried += 1;
        if (self.fails)(&new) {
            *cur = new;
            self.kept += 1;
            true
        } else {
            false
        }
    }

    pub fn run(&mut self, s: Scen) -> Scen {
        let mut cur = s;
        loop {
            let before = cur.clone();
            self.history(&mut cur);
            self.roots(&mut cur);
            self.edges(&mut cur);
            self.collect(&mut cur);
            self.bypass(&mut cur);
            self.labels(&mut cur);
            self.environment(&mut cur);
            self.extras(&mut cur);
            if cur == before || Instant::now() > self.until {
                return cur;
            }
        }
    }

    /// Fewer comparisons, nestings, graph versions.
    fn history(&mut self, cur: &mut Scen) {
        for key in ["order", "nest"] {
            let unit = if key == "nest" { 3 } else { 1 };
            let mut i = 0;
            while i * unit < cur.ex(key).len() {
                let mut n = cur.clone();
                n.extra.get_mut(key).unwrap().drain(i * unit..(i + 1) * unit);
                if !self.attempt(cur, n) {
                    i += 1;
                }
            }
        }
        let mut i = 0;
        while cur.cmps.len() > 1 && i < cur.cmps.len() {
            let mut n = cur.clone();
            n.cmps.remove(i);
            if let Some(t) = n.extra.get_mut("thread") {
                if i < t.len() {
                    t.remove(i);
                }
            }
            let k = i as i64;
            let mut ok = true;
            if let Some(o) = n.extra.get_mut("order") {
                ok &= !o.contains(&k);
                o.iter_mut().for_each(|x| *x -= i64::from(*x > k));
            }
            if let Some(o) = n.extra.get_mut("nest") {
                for t in o.chunks_mut(3) {
                    ok &= t[0] != k && t[2] != k;
                    t[0] -= i64::from(t[0] > k);
                    t[2] -= i64::from(t[2] > k);
                }
            }
            if !(ok && self.attempt(cur, n)) {
                i += 1;
            }
        }
        let mut i = 0;
        while cur.graphs.len() > 1 && i < cur.graphs.len() {
            if cur.cmps.iter().any(|c| c.g == i) {
                // All on another version?
                let mut n = cur.clone();
                n.cmps.iter_mut().filter(|c| c.g == i).for_each(|c| c.g = usize::from(i == 0));
                self.attempt(cur, n);
            }
            if cur.cmps.iter().all(|c| c.g != i) {
                let mut n = cur.clone();
                n.graphs.remove(i);
                n.cmps.iter_mut().for_each(|c| c.g -= usize::from(c.g > i));
                if self.attempt(cur, n) {
                    continue;
                }
            }
            i += 1;
        }
    }

    /// Deeper roots.
    fn roots(&mut self, cur: &mut Scen) {
        for i in 0..cur.cmps.len() {
            let mut hops = 0;
            'again: loop {
                let c = &cur.cmps[i];
                let g = &cur.graphs[c.g];
                let (a, b) = (&g.edges[c.l as usize], &g.edges[c.r as usize]);
                let pairs: Vec<(u32, u32)> =
                    a.iter().zip(b).map(|(x, y)| (*x, *y)).take(40).collect();
                hops += 1;
                if hops > 3000 {
                    break;
                }
                for (x, y) in pairs {
                    let mut n = cur.clone();
                    let (l, r) = (n.cmps[i].l, n.cmps[i].r);
                    for c in n.cmps.iter_mut().filter(|c| (c.l, c.r) == (l, r)) {
                        (c.l, c.r) = (x, y);
                    }
                    if self.attempt(cur, n) {
                        continue 'again;
                    }
                }
                break;
            }
        }
    }

    /// Fewer edges, in chunks.
    fn edges(&mut self, cur: &mut Scen) {
        for gi in 0..cur.graphs.len() {
            let total: usize = cur.graphs[gi].edges.iter().map(Vec::len).sum();
            let mut chunk = (total / 2).max(1);
            loop {
                let mut at = 0;
                loop {
                    let all: Vec<(usize, usize)> = cur.graphs[gi]
                        .edges
                        .iter()
                        .enumerate()
                        .flat_map(|(n, e)| (0..e.len()).map(move |i| (n, i)))
                        .collect();
                    if at >= all.len() {
                        break;
                    }
                    let cut = &all[at..(at + chunk).min(all.len())];
                    let mut n = cur.clone();
                    for (x, i) in cut.iter().rev() {
                        n.graphs[gi].edges[*x].remove(*i);
                    }
                    if !self.attempt(cur, n) {
                        at += chunk;
                    }
                    if Instant::now() > self.until {
                        return;
                    }
                }
                if chunk == 1 {
                    break;
                }
                chunk /= 2;
            }
        }
        // The same edge of two nodes at once (keeps counterparts alike).
        if size(cur) < 80 {
            for gi in 0..cur.graphs.len() {
                let n = cur.graphs[gi].n();
                for x in 0..n {
                    for y in x + 1..n {
                        let g = &cur.graphs[gi];
                        let w = g.edges[x].len().min(g.edges[y].len());
                        for i in (0..w).rev() {
                            let mut new = cur.clone();
                            if i < new.graphs[gi].edges[x].len().min(new.graphs[gi].edges[y].len()) {
                                new.graphs[gi].edges[x].remove(i);
                                new.graphs[gi].edges[y].remove(i);
                                self.attempt(cur, new);
                            }
                        }
                    }
                }
            }
        }
    }

    /// Without nodes that are of no use.
    fn collect(&mut self, cur: &mut Scen) {
        let top = cur.graphs.iter().map(Graph::n).max().unwrap_or(0);
        let mut used = vec![false; top];
        for c in &cur.cmps {
            let m = cur.graphs[c.g].reach(&[c.l, c.r]);
            for (i, u) in m.iter().enumerate() {
                used[i] |= *u;
            }
        }
        if used.iter().all(|u| *u) || cur.cmps.is_empty() {
            return;
        }
        let mut to = vec![0u32; top];
        let mut k = 0;
        for i in 0..top {
            to[i] = k;
            k += u32::from(used[i]);
        }
        let mut n = cur.clone();
        for g in &mut n.graphs {
            let mut h = Graph::default();
            for i in 0..g.n() {
                if used[i] {
                    // Targets that are of no use can only be those of nodes of no use here.
                    let e = g.edges[i].iter().filter(|t| used[**t as usize]).map(|t| to[*t as usize]);
                    h.add(g.label[i], e.collect());
                }
            }
            *g = h;
        }
        for c in &mut n.cmps {
            c.l = to[c.l as usize];
            c.r = to[c.r as usize];
        }
        self.attempt(cur, n);
    }

    /// Edges leading further.
    fn bypass(&mut self, cur: &mut Scen) {
        if size(cur) > 400 {
            return;
        }
        for gi in 0..cur.graphs.len() {
            for x in 0..cur.graphs[gi].n() {
                for i in 0..cur.graphs[gi].edges[x].len() {
                    if i >= cur.graphs[gi].edges[x].len() {
                        break;
                    }
                    let t = cur.graphs[gi].edges[x][i];
                    let mut tos = vec![x as u32];
                    tos.extend(cur.graphs[gi].edges[t as usize].iter().take(3));
                    if let Some(leaf) = cur.graphs[gi].edges.iter().position(Vec::is_empty) {
                        tos.push(leaf as u32);
                    }
                    for to in tos {
                        if to == t || cur.graphs[gi].edges[t as usize].is_empty() {
                            continue;
                        }
                        let mut n = cur.clone();
                        n.graphs[gi].edges[x][i] = to;
                        // Only towards fewer nodes.
                        let before = cur.graphs[gi].reach(&[cur.cmps[0].l, cur.cmps[0].r]);
                        let after = n.graphs[gi].reach(&[n.cmps[0].l, n.cmps[0].r]);
                        let c = |v: &[bool]| v.iter().filter(|b| **b).count();
                        if c(&after) < c(&before) && self.attempt(cur, n) {
                            break;
                        }
                    }
                }
            }
        }
    }

    fn labels(&mut self, cur: &mut Scen) {
        for gi in 0..cur.graphs.len() {
            let mut n = cur.clone();
            n.graphs[gi].label.iter_mut().for_each(|l| *l = 0);
            if self.attempt(cur, n) || size(cur) > 400 {
                continue;
            }
            for x in 0..cur.graphs[gi].n() {
                for v in [0, 1] {
                    if cur.graphs[gi].label[x] > v {
                        let mut n = cur.clone();
                        n.graphs[gi].label[x] = v;
                        if self.attempt(cur, n) {
                            break;
                        }
                    }
                }
            }
        }
    }

    fn environment(&mut self, cur: &mut Scen) {
        for i in 0..cur.cmps.len() {
            macro_rules! set {
                ($c:ident => $e:expr) => {{
                    let mut n = cur.clone();
                    {
                        let $c = &mut n.cmps[i];
                        $e;
                    }
                    self.attempt(cur, n)
                }};
            }
            set!(c => c.lat = 0);
            set!(c => c.hash_mask = u64::MAX);
            set!(c => c.ix_cap = u64::MAX);
            set!(c => c.reseed = 0);
            set!(c => c.mem = 0);
            for m in 1..12 {
                if cur.cmps[i].mem <= m || set!(c => c.mem = m) {
                    break;
                }
            }
            set!(c => c.fault = Fault::None);
            set!(c => c.kind = 0);
            set!(c => c.order = Order::default());
            set!(c => c.order.imm = 0);
            set!(c => c.rng = Script::default());
            set!(c => c.rng = Script { v: vec![], tail: 1, seed: 0 });
            set!(c => { c.rng.tail = 0; c.rng.seed = 0 });
            set!(c => { c.rng.tail = 1; c.rng.seed = 0 });
            if cur.cmps[i].rng.tail < 3 {
                set!(c => c.rng.seed = 0);
            }
            while !cur.cmps[i].rng.v.is_empty() && set!(c => { c.rng.v.pop(); }) {}
            for k in 0..cur.cmps[i].rng.v.len() {
                for v in [0u16, 1, 2, 3] {
                    if cur.cmps[i].rng.v[k] <= v || set!(c => c.rng.v[k] = v) {
                        break;
                    }
                }
            }
            set!(c => { c.dec.skip = 0; c.dec.seed = 0 });
            for d in [0, 1] {
                loop {
                    let len = if d == 0 { cur.cmps[i].dec.trav.len() } else { cur.cmps[i].dec.desc.len() };
                    if len == 0
                        || !set!(c => { if d == 0 { c.dec.trav.pop(); } else { c.dec.desc.pop(); } })
                    {
                        break;
                    }
                }
                for k in 0..200 {
                    let v = if d == 0 { &cur.cmps[i].dec.trav } else { &cur.cmps[i].dec.desc };
                    match v.get(k) {
                        None => break,
                        Some(0) => (),
                        Some(_) => {
                            set!(c => if d == 0 { c.dec.trav[k] = 0 } else { c.dec.desc[k] = 0 });
                        }
                    }
                }
            }
            // Earlier faults.
            loop {
                let f = |at: u64, f: Fault| match f {
                    Fault::Panic(_) => Fault::Panic(at),
                    Fault::Release(_) => Fault::Release(at),
                    Fault::Recur(_, c) => Fault::Recur(at, c),
                    Fault::Deadline(_, c) => Fault::Deadline(at, c),
                    Fault::Quota(_, c) => Fault::Quota(at, c),
                    Fault::None => Fault::None,
                };
                let at = match cur.cmps[i].fault {
                    Fault::None => break,
                    Fault::Panic(a)
                    | Fault::Release(a)
                    | Fault::Recur(a, _)
                    | Fault::Deadline(a, _)
                    | Fault::Quota(a, _) => a,
                };
                let now = cur.cmps[i].fault;
                let floor = u64::from(matches!(now, Fault::Panic(_) | Fault::Release(_)));
                let mut ok = false;
                for to in [at / 2, at - at / 4, at.saturating_sub(1)] {
                    if to >= floor && to < at && set!(c => c.fault = f(to, now)) {
                        ok = true;
                        break;
                    }
                }
                if !ok {
                    break;
                }
            }
            // Smaller budget.
            while let Some(b) = cur.cmps[i].api.budget {
                if !(b > 0 && (set!(c => c.api.budget = Some(b / 2)) || set!(c => c.api.budget = Some(b - 1)))) {
                    break;
                }
            }
        }
    }

    fn extras(&mut self, cur: &mut Scen) {
        if let Some(s) = cur.extra.get("schedule").cloned() {
            for (k, v) in [(3, 0), (2, 99), (1, 1), (1, 1000), (0, 0), (0, 1), (0, 2)] {
                if s.get(k).is_some_and(|x| *x != v) {
                    let mut n = cur.clone();
                    n.extra.get_mut("schedule").unwrap()[k] = v;
                    self.attempt(cur, n);
                }
            }
        }
        if cur.ex("generator").len() == 5 {
            for _ in 0..40 {
                let v = cur.ex("generator").to_vec();
                let mut any = false;
                for (k, to) in [(2, v[2] / 2), (2, v[2] - 1), (1, v[1] / 2), (4, 0), (3, 0)] {
                    if to < v[k] {
                        let mut n = cur.clone();
                        n.extra.get_mut("generator").unwrap()[k] = to;
                        if self.attempt(cur, n) {
                            any = true;
                            break;
                        }
                    }
                }
                if !any {
                    break;
                }
            }
        }
        for k in 0..cur.ex("nest").len() / 3 {
            for to in [0, 1, 10, 100] {
                if cur.ex("nest")[3 * k + 1] > to {
                    let mut n = cur.clone();
                    n.extra.get_mut("nest").unwrap()[3 * k + 1] = to;
                    if self.attempt(cur, n) {
                        break;
                    }
                }
            }
        }
    }
}
