//! Nodes identified by real references ([`RefId`]), at places in memory that the simulation
//! decides, and a monitor of how such identities compare, order and hash.

use crate::api;
use crate::ctx::*;
use crate::graph::{child_pos, root_pos, tag_of, Graph, Vd};
use crate::parts::{note_id, FixedHasher, Pinned, SRc, Store, View, V};
use crate::prng::{mix2, Prng};
use crate::run::Cmpn;
use graph_safe_compare::generic::equiv_classes;
use graph_safe_compare::utils::RefId;
use graph_safe_compare::Node;
use std::cell::{Cell, RefCell};
use std::cmp::Ordering;
use std::collections::{BTreeMap, HashMap};
use std::hash::{BuildHasherDefault, Hash, Hasher};
use std::ops::Deref;
use std::rc::Rc;
use std::sync::{Arc, OnceLock};

/// Kinds of nodes: references to parts of an array, to objects, to objects of various types, and
/// to places that are reused as soon as nobody refers to them.
pub const K_SLICE: u8 = 7;
pub const K_OBJ: u8 = 8;
pub const K_DYN: u8 = 9;
pub const K_PIN: u8 = 10;
/// Nodes that the layouts have room for.
pub const ROOM: usize = 20_000;

// ------------------------------------------------------------------- memory

pub struct Obj(pub u16);

pub static BYTES: [u8; 2 * ROOM + 8] = [7; 2 * ROOM + 8];
pub static OBJS: [Obj; ROOM] = {
    let mut a = [const { Obj(0) }; ROOM];
    let mut i = 0;
    while i < ROOM {
        a[i].0 = i as u16;
        i += 1;
    }
    a
};

pub trait Any2 {
    /// Which type.
    fn which(&self) -> usize;
}
struct Inner(u16);
/// Begins with what is an object in its own right, so that two lie at the same address.
#[repr(C)]
struct Outer {
    inner: Inner,
    more: u16,
}
impl Any2 for Inner {
    fn which(&self) -> usize {
        usize::from(self.0) & 1
    }
}
impl Any2 for Outer {
    fn which(&self) -> usize {
        2 + usize::from(self.more)
    }
}
type Dyn = &'static (dyn Any2 + Send + Sync);

fn dyns() -> &'static [Dyn] {
    static D: OnceLock<Vec<Dyn>> = OnceLock::new();
    D.get_or_init(|| {
        let os: &'static [Outer] = Box::leak(
            (0..ROOM / 2).map(|_| Outer { inner: Inner(2), more: 1 }).collect::<Vec<_>>().into(),
        );
        let mut v: Vec<Dyn> = Vec::with_capacity(ROOM);
        for o in os {
            v.push(o);
            v.push(&o.inner);
        }
        v
    })
}

/// Where an identity really points.
pub trait Truth {
    fn at(&self) -> (usize, usize);
}
impl Truth for RefId<&'static [u8]> {
    fn at(&self) -> (usize, usize) {
        (self.0.as_ptr() as usize, self.0.len())
    }
}
impl Truth for RefId<&'static Obj> {
    fn at(&self) -> (usize, usize) {
        (self.0 as *const Obj as usize, 0)
    }
}
impl Truth for RefId<Dyn> {
    fn at(&self) -> (usize, usize) {
        (self.0 as *const _ as *const u8 as usize, self.0.which())
    }
}
impl Truth for RefId<Pinned> {
    fn at(&self) -> (usize, usize) {
        ((&*self.0) as *const Obj as usize, 0)
    }
}

/// A way of referring to nodes.
pub trait Mem: Sized + 'static {
    type Ref: Deref + Clone;
    fn place(w: &World<Self>, n: u32) -> Self::Ref;
    /// May the monitor keep identities?
    const KEEP: bool;
}

pub struct World<M: Mem> {
    pub g: Arc<Graph>,
    store: Rc<Store>,
    /// Layout, and how nodes are permuted over the places.
    mode: u64,
    mul: usize,
    add: usize,
    n: usize,
    kept: RefCell<Vec<RefId<M::Ref>>>,
    made: Cell<u64>,
}

fn gcd(a: usize, b: usize) -> usize {
    if b == 0 {
        a
    } else {
        gcd(b, a % b)
    }
}

impl<M: Mem> World<M> {
    pub fn new(g: &Arc<Graph>, mem: u64) -> Rc<Self> {
        let n = g.n().max(1);
        assert!(n <= ROOM, "HARNESS: no room");
        let mut r = Prng::new(mem);
        let mut mul = match r.below(3) {
            0 => 1,
            _ => r.below(n as u64) as usize + 1,
        };
        while gcd(mul, n) != 1 {
            mul += 1;
        }
        let add = r.below(n as u64) as usize;
        Rc::new(World {
            g: g.clone(),
            store: Store::new(g),
            mode: r.below(7),
            mul,
            add,
            n,
            kept: RefCell::default(),
            made: Cell::new(0),
        })
    }
    /// Which place.
    fn at(&self, n: u32) -> usize {
        (n as usize * self.mul + self.add) % self.n
    }
}

pub struct Slices;
impl Mem for Slices {
    type Ref = &'static [u8];
    const KEEP: bool = true;
    fn place(w: &World<Self>, n: u32) -> &'static [u8] {
        let i = w.at(n);
        let (off, len) = match w.mode {
            // All begin at the same place.
            0 => (5, i),
            // Empty ones.
            1 => (i, 0),
            // Overlapping.
            2 => (i, 4),
            // Three beginning at each place.
            3 => (i / 3 * 2, i % 3),
            // All end at the same place.
            4 => (w.n - i, i),
            // Longer ones further down.
            5 => (w.n - i, 2),
            // Adjacent.
            _ => (i * 2, 2),
        };
        &BYTES[off..off + len]
    }
}

pub struct Objs;
impl Mem for Objs {
    type Ref = &'static Obj;
    const KEEP: bool = true;
    fn place(w: &World<Self>, n: u32) -> &'static Obj {
        &OBJS[w.at(n)]
    }
}

pub struct Dyns;
impl Mem for Dyns {
    type Ref = Dyn;
    const KEEP: bool = true;
    fn place(w: &World<Self>, n: u32) -> Dyn {
        dyns()[w.at(n)]
    }
}

pub struct Pins;
impl Mem for Pins {
    type Ref = Pinned;
    const KEEP: bool = false;
    fn place(w: &World<Self>, n: u32) -> Pinned {
        Pinned::new(Store::get(&w.store, n))
    }
}

// ------------------------------------------------------------------ monitor

thread_local! {
    static BAD: RefCell<Option<String>> = const { RefCell::new(None) };
    static PAIRS: Cell<(u64, u64)> = const { Cell::new((0, 0)) };
}
/// What the monitor found, and how many pairs of identities it judged, and how many were the same.
pub fn found() -> (Option<String>, u64, u64) {
    let (a, b) = PAIRS.with(|p| p.replace((0, 0)));
    (BAD.with(|b| b.borrow_mut().take()), a, b)
}
fn bad(m: String) {
    BAD.with(|b| {
        b.borrow_mut().get_or_insert(m);
    });
}

fn hash<T: Hash>(x: &T) -> (u64, u64) {
    let mut a = FixedHasher::default();
    let mut b = std::collections::hash_map::DefaultHasher::new();
    x.hash(&mut a);
    x.hash(&mut b);
    (a.finish(), b.finish())
}

/// Is everything that can be asked of two identities in accordance with where they point?
fn judge<I: Truth + Hash + Ord>(x: &I, y: &I) {
    let (tx, ty) = (x.at(), y.at());
    let same = tx == ty;
    PAIRS.with(|p| p.set((p.get().0 + 1, p.get().1 + u64::from(same))));
    let what = || {
        format!(
            "of {} ({:?} and {:?} from there)",
            if same { "the same reference" } else { "different references" },
            (0, tx.1),
            (ty.0 as i64 - tx.0 as i64, ty.1)
        )
    };
    if (x == y) != same || (y == x) != same || (x != y) == same {
        bad(format!("identities {} are wrongly equal or unequal", what()));
    }
    if same && hash(x) != hash(y) {
        bad(format!("identities {} hash differently", what()));
    }
    let o = x.cmp(y);
    if (o == Ordering::Equal) != same || y.cmp(x) != o.reverse() {
        bad(format!("identities {} are ordered {o:?}, exchanged {:?}", what(), y.cmp(x)));
    }
    let ops = [x < y, x <= y, x > y, x >= y];
    if x.partial_cmp(y) != Some(o) || ops != [o.is_lt(), o.is_le(), o.is_gt(), o.is_ge()] {
        bad(format!(
            "identities {} are ordered {o:?}, but partially {:?}, and < <= > >= are {ops:?}",
            what(),
            x.partial_cmp(y)
        ));
    }
}

fn judge3<I: Truth + Ord>(x: &I, y: &I, z: &I) {
    if x <= y && y <= z && x.cmp(z) == Ordering::Greater {
        bad("the order of identities is not transitive".into());
    }
}

/// A table by hash, one by order, and one by equality alone, which must agree.
pub struct RTable<N: Node> {
    truth: HashMap<(usize, usize), usize>,
    by_hash: HashMap<N::Id, usize, BuildHasherDefault<FixedHasher>>,
    by_order: BTreeMap<N::Id, usize>,
    list: Vec<N::Id>,
    vals: Vec<SRc>,
    looks: Cell<u64>,
}
impl<N: Node> Default for RTable<N>
where
    N::Id: Ord,
{
    fn default() -> Self {
        ev(Ev::of(K::TNew));
        RTable {
            truth: HashMap::new(),
            by_hash: HashMap::default(),
            by_order: BTreeMap::new(),
            list: Vec::new(),
            vals: Vec::new(),
            looks: Cell::new(0),
        }
    }
}
impl<N: Node> RTable<N>
where
    N::Id: Hash + Ord + Clone + Truth,
{
    fn find(&self, k: &N::Id) -> Option<usize> {
        let i = self.truth.get(&k.at()).copied();
        let n = self.looks.replace(self.looks.get() + 1);
        let l = self.list.len();
        if self.by_hash.get(k).copied() != i {
            bad(format!("a table of {l} identities by hash finds the wrong one, or none"));
        }
        if self.by_order.get(k).copied() != i {
            bad(format!("a table of {l} identities by order finds the wrong one, or none"));
        }
        if (l < 60 || n % 64 == 0) && self.list.iter().position(|x| x == k) != i {
            bad(format!("a list of {l} identities has the wrong one, or none"));
        }
        if l > 0 {
            let at = |j: u64| &self.list[(mix2(n, j) % l as u64) as usize];
            judge(k, at(0));
            judge3(k, at(0), at(1));
            judge3(at(0), k, at(1));
            judge3(at(0), at(1), k);
        }
        if let Some(i) = i {
            judge(k, &self.list[i]);
        }
        i
    }
}
impl<N: Node> equiv_classes::Table for RTable<N>
where
    N::Id: Hash + Ord + Clone + Truth,
{
    type Node = N;
    type Rc = SRc;
    fn get(&self, k: &N::Id) -> Option<&SRc> {
        ev(Ev::of(K::TGet));
        self.find(k).map(|i| &self.vals[i])
    }
    fn insert(&mut self, k: N::Id, v: SRc) {
        ev(Ev { x: self.list.len() as u64, ..Ev::of(K::TIns) });
        match self.find(&k) {
            Some(i) => self.vals[i] = v,
            None => {
                let i = self.list.len();
                self.truth.insert(k.at(), i);
                if self.by_hash.insert(k.clone(), i).is_some() {
                    bad(format!("a table of {i} identities by hash takes a new one for another"));
                }
                if self.by_order.insert(k.clone(), i).is_some() {
                    bad(format!("a table of {i} identities by order takes a new one for another"));
                }
                self.list.push(k);
                self.vals.push(v);
            }
        }
    }
}

// -------------------------------------------------------------------- nodes

pub struct MNode<M: Mem> {
    w: Rc<World<M>>,
    x: M::Ref,
    n: u32,
    h: u32,
    pos: u64,
    side: u8,
    first: bool,
    seen: Cell<bool>,
}

impl<M: Mem> MNode<M> {
    fn root(w: &Rc<World<M>>, n: u32, side: u8) -> Self {
        live(Live::Node, 1);
        MNode {
            x: M::place(w, n),
            w: w.clone(),
            n,
            h: crate::parts::serial(),
            pos: root_pos(),
            side,
            first: false,
            seen: Cell::new(false),
        }
    }
}
impl<M: Mem> Clone for MNode<M> {
    fn clone(&self) -> Self {
        let h = crate::parts::serial();
        ev(Ev { side: self.side, h: self.h, h2: h, n: self.n, pos: self.pos, ..Ev::of(K::Clone) });
        live(Live::Node, 1);
        MNode { w: self.w.clone(), x: self.x.clone(), h, seen: Cell::new(false), ..*self }
    }
}
impl<M: Mem> Drop for MNode<M> {
    fn drop(&mut self) {
        note_drop_stack();
        node_released();
    }
}

impl<M: Mem> Node for MNode<M>
where
    RefId<M::Ref>: Truth + Hash + Ord + Clone,
{
    type Cmp = V;
    type Id = RefId<M::Ref>;
    type Index = usize;

    fn id(&self) -> Self::Id {
        note_id(self.side, self.h, self.n, self.pos, self.first, &self.seen);
        let id = RefId(self.x.clone());
        let k = self.w.made.replace(self.w.made.get() + 1);
        judge(&id, &RefId(self.x.clone()));
        if M::KEEP {
            let mut v = self.w.kept.borrow_mut();
            let l = v.len() as u64;
            if l > 0 {
                let at = |j: u64| &v[(mix2(k, j) % l) as usize];
                judge(&id, at(0));
                judge(at(1), &id);
                judge3(&id, at(0), at(1));
                judge3(at(0), &id, at(1));
            }
            if l < 24 {
                v.push(id.clone());
            } else if k % 7 == 0 {
                let i = (mix2(k, 9) % l) as usize;
                v[i] = id.clone();
            }
        }
        id
    }

    fn get_edge(&self, index: &usize) -> Option<Self> {
        let to = self.w.g.edges[self.n as usize].get(*index).copied();
        let h2 = if to.is_some() { crate::parts::serial() } else { 0 };
        ev(Ev {
            side: self.side,
            h: self.h,
            h2,
            n: self.n,
            m: to.map_or(0, |t| t + 1),
            pos: self.pos,
            x: *index as u64,
            ..Ev::of(K::Edge)
        });
        to.map(|t| {
            live(Live::Node, 1);
            MNode {
                x: M::place(&self.w, t),
                w: self.w.clone(),
                n: t,
                h: h2,
                pos: child_pos(self.pos, *index as u64),
                side: self.side,
                first: *index == 0,
                seen: Cell::new(false),
            }
        })
    }

    fn equiv_modulo_edges(&self, o: &Self) -> V {
        let l = &self.w.g.label;
        let ord = l[self.n as usize].cmp(&l[o.n as usize]);
        ev(Ev {
            side: self.side,
            side2: o.side,
            h: self.h,
            h2: o.h,
            n: self.n,
            m: o.n,
            pos: self.pos,
            pos2: o.pos,
            x: ord as i8 as u64,
            ..Ev::of(K::Cmp)
        });
        V::make(if ord.is_eq() { Vd::EQ } else { Vd { ord, tag: tag_of(self.n, o.n) } })
    }
}

#[cfg(feature = "full")]
pub fn run<M: Mem>(c: &Cmpn, g: &Arc<Graph>) -> Result<Vd, api::Stopped>
where
    RefId<M::Ref>: Truth + Hash + Ord + Clone,
{
    let w = World::<M>::new(g, c.mem);
    let (a, b) = (MNode::<M>::root(&w, c.l, 0), MNode::<M>::root(&w, c.r, 1));
    cx().base_sp = here();
    let r = api::call_refs(&c.api, a, b).map(|v| v.vd());
    crate::run::note_reused(w.store.reused.get());
    r
}
