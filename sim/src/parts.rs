//! Simulated components that the library is given: nodes, identities, tables, shared pointers,
//! generators, recursion and descend modes.

use crate::ctx::*;
use crate::graph::{child_pos, root_pos, tag_of, Graph, Vd};
use crate::prng::mix2;
use graph_safe_compare::basic::recursion::callstack::CallStack;
use graph_safe_compare::cycle_safe::modes::interleave::random::NumberGenerator;
use graph_safe_compare::generic::equiv::{
    self, CounterpartsResult, DescendMode, EdgesIter, Equiv, RecurMode,
};
use graph_safe_compare::generic::equiv_classes::{self, Class};
use graph_safe_compare::generic::precheck_interleave::{InterleaveError, PrecheckError};
#[cfg(not(feature = "anticipate"))]
use graph_safe_compare::Step;
use graph_safe_compare::{Cmp, Node};
#[cfg(feature = "anticipate")]
use std::iter::Step;
use std::cell::{Cell, RefCell};
use std::cmp::Ordering;
use std::collections::{HashMap, VecDeque};
use std::hash::{BuildHasherDefault, Hash, Hasher};
use std::marker::PhantomData;
use std::num::NonZeroU16;
use std::ops::Deref;
use std::sync::Arc;

// ------------------------------------------------------------------ results

/// Rich result: which pair decided.
#[derive(Debug)]
pub struct V(Vd);

impl V {
    fn new(v: Vd) -> V {
        live(Live::Cmp, 1);
        V(v)
    }
}

impl Drop for V {
    fn drop(&mut self) {
        live(Live::Cmp, -1);
    }
}

impl Cmp for V {
    fn new_equiv() -> Self {
        ev(Ev::of(K::NewEquiv));
        V::new(Vd::EQ)
    }
    fn is_equiv(&self) -> bool {
        ev(Ev::of(K::IsEquiv));
        self.0.ord.is_eq()
    }
    fn from_ord(ord: Ordering) -> Self {
        ev(Ev { x: ord as i8 as u64, ..Ev::of(K::FromOrd) });
        V::new(Vd { ord, tag: 0 })
    }
}

/// How the harness sees results.
pub trait View: Cmp {
    /// 0: only whether equivalent; 1: the ordering; 2: also which pair.
    const RICH: u8;
    fn vd(&self) -> Vd;
    fn make(v: Vd) -> Self;
}

impl View for V {
    const RICH: u8 = 2;
    fn vd(&self) -> Vd {
        self.0
    }
    fn make(v: Vd) -> Self {
        V::new(v)
    }
}
impl View for Ordering {
    const RICH: u8 = 1;
    fn vd(&self) -> Vd {
        Vd { ord: *self, tag: 0 }
    }
    fn make(v: Vd) -> Self {
        v.ord
    }
}
impl View for bool {
    const RICH: u8 = 0;
    fn vd(&self) -> Vd {
        Vd { ord: if *self { Ordering::Equal } else { Ordering::Less }, tag: 0 }
    }
    fn make(v: Vd) -> Self {
        v.ord.is_eq()
    }
}

/// Reduce a verdict to what a kind can express.
pub fn reduce(v: Vd, rich: u8) -> Vd {
    match rich {
        0 => Vd { ord: if v.ord.is_eq() { Ordering::Equal } else { Ordering::Less }, tag: 0 },
        1 => Vd { ord: v.ord, tag: 0 },
        _ => v,
    }
}

// ------------------------------------------------------------------ indexes

pub trait IxView: Step + Default + Ord {
    fn ix(&self) -> u64;
    /// Amount of distinct indexes.
    const CAP: u64;
}

/// Index type whose capacity is set by the simulation.
#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Default, Debug)]
pub struct Ix(u64);

impl Ix {
    fn after(&self) -> Option<Self> {
        ev(Ev { x: self.0, ..Ev::of(K::IxInc) });
        if self.0 + 1 >= cx().ix_cap {
            None
        } else {
            Some(Ix(self.0 + 1))
        }
    }
}
#[cfg(not(feature = "anticipate"))]
impl Step for Ix {
    fn increment(&self) -> Option<Self> {
        self.after()
    }
}
impl IxView for Ix {
    fn ix(&self) -> u64 {
        self.0
    }
    const CAP: u64 = u64::MAX;
}

macro_rules! ix {
    ($($t:ty, $cap:expr;)*) => { $(
        impl IxView for $t {
            fn ix(&self) -> u64 { *self as u64 }
            const CAP: u64 = $cap;
        }
    )* };
}
ix! { u8, 256; i8, 128; u16, 65536; i16, 32768; u32, 1 << 32; usize, u64::MAX; u64, u64::MAX; u128, u64::MAX; }

/// Index of any primitive type, counted from anywhere, so that its end can be reached.
#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Debug)]
pub struct AnyIx {
    /// How far from where the counting starts, as witnessed.
    n: u64,
    /// The primitive, sign-extended.
    bits: u128,
}

fn next_of<T: Step + Clone>(i: &T) -> Option<T> {
    #[cfg(not(feature = "anticipate"))]
    return i.increment();
    #[cfg(feature = "anticipate")]
    return Step::forward_checked(i.clone(), 1);
}

macro_rules! any_ix {
    ($($i:literal $t:ty;)*) => {
        pub const IX_TYPES: [&str; 12] = [$(stringify!($t)),*];
        impl Default for AnyIx {
            fn default() -> Self {
                let (t, cap) = (cx().mem % 12, u128::from(cx().ix_cap - 1));
                let bits = match t {
                    $($i => (<$t>::MAX as u128).wrapping_sub(cap),)*
                    _ => unreachable!(),
                };
                AnyIx { n: 0, bits }
            }
        }
        impl AnyIx {
            fn after(&self) -> Option<Self> {
                ev(Ev { x: self.n, ..Ev::of(K::IxInc) });
                let bits = match cx().mem % 12 {
                    $($i => next_of(&(self.bits as $t))? as u128,)*
                    _ => unreachable!(),
                };
                Some(AnyIx { n: self.n + 1, bits })
            }
        }
        /// Amount of distinct indexes of the types, when small.
        pub fn ix_amount(t: u64) -> u64 {
            match t % 12 {
                $($i => if <$t>::BITS < 20 { 1 << <$t>::BITS } else { u64::MAX },)*
                _ => unreachable!(),
            }
        }
    };
}
any_ix! { 0 u8; 1 i8; 2 u16; 3 i16; 4 u32; 5 i32; 6 u64; 7 i64; 8 u128; 9 i128; 10 usize; 11 isize; }

#[cfg(not(feature = "anticipate"))]
impl Step for AnyIx {
    fn increment(&self) -> Option<Self> {
        self.after()
    }
}

#[cfg(feature = "anticipate")]
mod std_step {
    use super::{AnyIx, Ix, Step};
    macro_rules! by_ones {
        ($($t:ty)*) => { $(
            impl Step for $t {
                fn steps_between(_: &Self, _: &Self) -> (usize, Option<usize>) {
                    unreachable!()
                }
                fn forward_checked(start: Self, n: usize) -> Option<Self> {
                    (0..n).try_fold(start, |i, _| i.after())
                }
                fn backward_checked(_: Self, _: usize) -> Option<Self> {
                    unreachable!()
                }
                fn forward_overflowing(start: Self, n: usize) -> (Self, bool) {
                    Step::forward_checked(start.clone(), n).map_or((start, true), |i| (i, false))
                }
                fn backward_overflowing(_: Self, _: usize) -> (Self, bool) {
                    unreachable!()
                }
            }
        )* };
    }
    by_ones! { Ix AnyIx }
}

impl IxView for AnyIx {
    /// By the primitive's value, so that a wrong next value leads to a wrong edge.
    fn ix(&self) -> u64 {
        let d = self.bits.wrapping_sub(AnyIx::default().bits);
        u64::try_from(d).unwrap_or(u64::MAX)
    }
    const CAP: u64 = u64::MAX;
}

pub trait Kind: 'static {
    type C: View + 'static;
    type I: IxView + 'static;
}
macro_rules! kind {
    ($($k:ident $c:ty, $i:ty;)*) => { $(
        pub struct $k;
        impl Kind for $k { type C = $c; type I = $i; }
    )* };
}
kind! {
    KV V, Ix;
    KB bool, u8;
    KO Ordering, u16;
    KI V, i8;
    KU bool, usize;
    KW V, u128;
    KX V, AnyIx;
}
/// (rich, index capacity) of the kinds.
pub const KINDS: [(u8, u64); 6] =
    [(2, u64::MAX), (0, 256), (1, 65536), (2, 128), (0, u64::MAX), (2, u64::MAX)];

// --------------------------------------------------------------- identities

pub struct SId(pub u32);

impl SId {
    pub fn new(n: u32) -> SId {
        live(Live::Id, 1);
        SId(n)
    }
}
impl Clone for SId {
    fn clone(&self) -> Self {
        ev(Ev { n: self.0, ..Ev::of(K::IdClone) });
        SId::new(self.0)
    }
}
impl Drop for SId {
    fn drop(&mut self) {
        note_drop_stack();
        live(Live::Id, -1);
    }
}
impl PartialEq for SId {
    fn eq(&self, o: &Self) -> bool {
        id_ev(K::IdEq, self.0, o.0);
        self.0 == o.0
    }
}
impl Eq for SId {}
impl Hash for SId {
    fn hash<H: Hasher>(&self, h: &mut H) {
        id_ev(K::IdHash, self.0, 0);
        // Deliberately weak when the mask says so.
        h.write_u64(u64::from(self.0) & cx().hash_mask);
    }
}

thread_local! {
    /// Set while a premade hash table (whose probing is randomised by its hasher) may call
    /// identities: these calls are then not part of the execution's events.
    pub static QUIET_IDS: Cell<bool> = const { Cell::new(false) };
}
fn id_ev(k: K, n: u32, m: u32) {
    if QUIET_IDS.with(Cell::get) {
        note_stack();
    } else {
        ev(Ev { n, m, ..Ev::of(k) });
    }
}

// -------------------------------------------------------------------- nodes

pub struct SNode<T: Kind> {
    g: Arc<Graph>,
    n: u32,
    h: u32,
    pos: u64,
    side: u8,
    /// Is a first edge?
    first: bool,
    seen: Cell<bool>,
    k: PhantomData<fn() -> T>,
}

pub fn serial() -> u32 {
    let c = cx();
    c.serial += 1;
    c.serial
}

/// Node handles alive.
fn handles() -> u32 {
    cx().s.live[Live::Node as usize] as u32
}

impl<T: Kind> SNode<T> {
    pub fn root(g: &Arc<Graph>, n: u32, side: u8) -> Self {
        live(Live::Node, 1);
        SNode {
            g: g.clone(),
            n,
            h: serial(),
            pos: root_pos(),
            side,
            first: false,
            seen: Cell::new(false),
            k: PhantomData,
        }
    }
}

impl<T: Kind> Clone for SNode<T> {
    fn clone(&self) -> Self {
        let h = serial();
        ev(Ev { side: self.side, h: self.h, h2: h, n: self.n, pos: self.pos, ..Ev::of(K::Clone) });
        live(Live::Node, 1);
        SNode {
            g: self.g.clone(),
            h,
            seen: Cell::new(false),
            k: PhantomData,
            ..*self
        }
    }
}
impl<T: Kind> Drop for SNode<T> {
    fn drop(&mut self) {
        node_released();
    }
}

/// A left handle's identity is looked at for the first time: its pair is being visited.
pub fn visit(pos: u64, first: bool) {
    let c = cx();
    if pos == root_pos() {
        let at = (c.s.visits, c.s.expansions, c.s.events);
        c.s.starts.push(at);
    }
    c.s.visits += 1;
    if first {
        c.s.expansions += 1;
    }
}

pub fn note_id(side: u8, h: u32, n: u32, pos: u64, first: bool, seen: &Cell<bool>) {
    if side == 0 && !seen.replace(true) {
        visit(pos, first);
    }
    ev(Ev { side, h, h2: handles(), n, pos, ..Ev::of(K::Id) });
}

/// What a node handle given to a component is.
pub struct Handle {
    pub side: u8,
    pub h: u32,
    pub pos: u64,
}
pub trait Seen {
    fn seen(&self) -> Handle;
}
impl<T: Kind> Seen for SNode<T> {
    fn seen(&self) -> Handle {
        Handle { side: self.side, h: self.h, pos: self.pos }
    }
}
impl Seen for TNode {
    fn seen(&self) -> Handle {
        Handle { side: self.side, h: self.h, pos: self.pos }
    }
}

impl<T: Kind> Node for SNode<T> {
    type Cmp = T::C;
    type Id = SId;
    type Index = T::I;

    fn id(&self) -> SId {
        if self.side == 0 && !self.seen.replace(true) {
            visit(self.pos, self.first);
        }
        ev(Ev { side: self.side, h: self.h, h2: handles(), n: self.n, pos: self.pos, ..Ev::of(K::Id) });
        SId::new(self.n)
    }

    fn get_edge(&self, index: &T::I) -> Option<Self> {
        let i = index.ix();
        let to = self.g.edges[self.n as usize].get(i as usize).copied();
        let h2 = if to.is_some() { serial() } else { 0 };
        ev(Ev {
            side: self.side,
            h: self.h,
            h2,
            n: self.n,
            m: to.map_or(0, |t| t + 1),
            pos: self.pos,
            x: i,
            ..Ev::of(K::Edge)
        });
        to.map(|t| {
            live(Live::Node, 1);
            SNode {
                g: self.g.clone(),
                n: t,
                h: h2,
                pos: child_pos(self.pos, i),
                side: self.side,
                first: i == 0,
                seen: Cell::new(false),
                k: PhantomData,
            }
        })
    }

    fn equiv_modulo_edges(&self, o: &Self) -> T::C {
        let ord = self.g.label[self.n as usize].cmp(&o.g.label[o.n as usize]);
        ev(Ev {
            side: self.side,
            side2: o.side,
            h: self.h,
            h2: o.h,
            n: self.n,
            m: o.n,
            pos: self.pos,
            pos2: o.pos,
            x: ord as i8 as u64,
            ..Ev::of(K::Cmp)
        });
        T::C::make(if ord.is_eq() { Vd::EQ } else { Vd { ord, tag: tag_of(self.n, o.n) } })
    }
}

// ------------------------------------------- nodes materialised on demand

/// A store that materialises nodes only while someone refers to them, and reuses their places
/// (identities) at once, last freed first.
pub struct Store {
    g: Arc<Graph>,
    /// Place of each node, and how many refer to it.
    at: RefCell<HashMap<u32, (u32, std::rc::Weak<TInner>)>>,
    free: RefCell<Vec<u32>>,
    next: Cell<u32>,
    pub reused: Cell<u64>,
}

pub struct TInner {
    store: std::rc::Rc<Store>,
    n: u32,
    slot: u32,
}

impl Drop for TInner {
    fn drop(&mut self) {
        note_drop_stack();
        live(Live::Pinned, -1);
        self.store.at.borrow_mut().remove(&self.n);
        self.store.free.borrow_mut().push(self.slot);
    }
}

impl Store {
    pub fn new(g: &Arc<Graph>) -> std::rc::Rc<Store> {
        std::rc::Rc::new(Store {
            g: g.clone(),
            at: RefCell::default(),
            free: RefCell::default(),
            next: Cell::new(0),
            reused: Cell::new(0),
        })
    }
    pub fn get(it: &std::rc::Rc<Store>, n: u32) -> std::rc::Rc<TInner> {
        if let Some(x) = it.at.borrow().get(&n).and_then(|x| x.1.upgrade()) {
            return x;
        }
        let reuse = it.free.borrow_mut().pop();
        let slot = reuse.unwrap_or_else(|| it.next.replace(it.next.get() + 1));
        it.reused.set(it.reused.get() + u64::from(reuse.is_some()));
        live(Live::Pinned, 1);
        let x = std::rc::Rc::new(TInner { store: it.clone(), n, slot });
        it.at.borrow_mut().insert(n, (slot, std::rc::Rc::downgrade(&x)));
        x
    }
}

/// Like a reference to the object at its place.
#[derive(Clone)]
pub struct Pinned(std::rc::Rc<TInner>);
impl Pinned {
    pub fn new(x: std::rc::Rc<TInner>) -> Self {
        Pinned(x)
    }
}
impl Deref for Pinned {
    type Target = crate::refs::Obj;
    fn deref(&self) -> &Self::Target {
        &crate::refs::OBJS[self.0.slot as usize]
    }
}

pub struct TNode {
    x: std::rc::Rc<TInner>,
    h: u32,
    pos: u64,
    side: u8,
    first: bool,
    seen: Cell<bool>,
}

impl TNode {
    pub fn root(s: &std::rc::Rc<Store>, n: u32, side: u8) -> TNode {
        live(Live::Node, 1);
        TNode {
            x: Store::get(s, n),
            h: serial(),
            pos: root_pos(),
            side,
            first: false,
            seen: Cell::new(false),
        }
    }
}
impl Clone for TNode {
    fn clone(&self) -> Self {
        let h = serial();
        ev(Ev { side: self.side, h: self.h, h2: h, n: self.x.n, pos: self.pos, ..Ev::of(K::Clone) });
        live(Live::Node, 1);
        TNode { x: self.x.clone(), h, seen: Cell::new(false), ..*self }
    }
}
impl Drop for TNode {
    fn drop(&mut self) {
        node_released();
    }
}

/// Keeps what it identifies in existence, like a reference would.
pub struct TId(std::rc::Rc<TInner>);
impl TId {
    fn new(x: std::rc::Rc<TInner>) -> Self {
        live(Live::Id, 1);
        TId(x)
    }
}
impl Clone for TId {
    fn clone(&self) -> Self {
        ev(Ev { n: self.0.n, ..Ev::of(K::IdClone) });
        TId::new(self.0.clone())
    }
}
impl Drop for TId {
    fn drop(&mut self) {
        note_drop_stack();
        live(Live::Id, -1);
    }
}
impl PartialEq for TId {
    fn eq(&self, o: &Self) -> bool {
        id_ev(K::IdEq, self.0.n, o.0.n);
        self.0.slot == o.0.slot
    }
}
impl Eq for TId {}
impl Hash for TId {
    fn hash<H: Hasher>(&self, h: &mut H) {
        id_ev(K::IdHash, self.0.n, 0);
        h.write_u64(u64::from(self.0.slot) & cx().hash_mask);
    }
}

impl Node for TNode {
    type Cmp = V;
    type Id = TId;
    type Index = usize;

    fn id(&self) -> TId {
        if self.side == 0 && !self.seen.replace(true) {
            visit(self.pos, self.first);
        }
        ev(Ev { side: self.side, h: self.h, h2: handles(), n: self.x.n, pos: self.pos, ..Ev::of(K::Id) });
        TId::new(self.x.clone())
    }
    fn get_edge(&self, index: &usize) -> Option<Self> {
        let st = &self.x.store;
        let to = st.g.edges[self.x.n as usize].get(*index).copied();
        let h2 = if to.is_some() { serial() } else { 0 };
        ev(Ev {
            side: self.side,
            h: self.h,
            h2,
            n: self.x.n,
            m: to.map_or(0, |t| t + 1),
            pos: self.pos,
            x: *index as u64,
            ..Ev::of(K::Edge)
        });
        to.map(|t| {
            live(Live::Node, 1);
            TNode {
                x: Store::get(st, t),
                h: h2,
                pos: child_pos(self.pos, *index as u64),
                side: self.side,
                first: *index == 0,
                seen: Cell::new(false),
            }
        })
    }
    fn equiv_modulo_edges(&self, o: &Self) -> V {
        let l = &self.x.store.g.label;
        let ord = l[self.x.n as usize].cmp(&l[o.x.n as usize]);
        ev(Ev {
            side: self.side,
            side2: o.side,
            h: self.h,
            h2: o.h,
            n: self.x.n,
            m: o.x.n,
            pos: self.pos,
            pos2: o.pos,
            x: ord as i8 as u64,
            ..Ev::of(K::Cmp)
        });
        V::new(if ord.is_eq() { Vd::EQ } else { Vd { ord, tag: tag_of(self.x.n, o.x.n) } })
    }
}

// ----------------------------------------------------------- shared pointers

/// Shared pointer that counts what is done with it.
pub struct SRc(std::rc::Rc<RcCell>);

pub struct RcCell(Cell<Class<SRc>>);

impl Drop for RcCell {
    fn drop(&mut self) {
        note_drop_stack();
        live(Live::Rc, -1);
    }
}
impl Clone for SRc {
    fn clone(&self) -> Self {
        ev(Ev::of(K::RcClone));
        SRc(self.0.clone())
    }
}
impl Drop for SRc {
    fn drop(&mut self) {
        note_drop_stack();
    }
}
impl Deref for SRc {
    type Target = Cell<Class<Self>>;
    fn deref(&self) -> &Self::Target {
        ev(Ev::of(K::RcDeref));
        &self.0 .0
    }
}
impl equiv_classes::Rc for SRc {
    fn new(v: Cell<Class<Self>>) -> Self {
        ev(Ev::of(K::RcNew));
        live(Live::Rc, 1);
        SRc(std::rc::Rc::new(RcCell(v)))
    }
}

// -------------------------------------------------------------------- tables

#[derive(Default)]
pub struct FixedHasher(u64);
impl Hasher for FixedHasher {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for x in b {
            self.0 = mix2(self.0, u64::from(*x));
        }
    }
    fn write_u64(&mut self, v: u64) {
        self.0 = mix2(self.0, v);
    }
}

pub struct SimTable<N: Node, R>(HashMap<N::Id, R, BuildHasherDefault<FixedHasher>>);

impl<N: Node, R> Default for SimTable<N, R> {
    fn default() -> Self {
        ev(Ev::of(K::TNew));
        live(Live::Table, 1);
        SimTable(HashMap::default())
    }
}
impl<N: Node, R> Drop for SimTable<N, R> {
    fn drop(&mut self) {
        note_drop_stack();
        live(Live::Table, -1);
    }
}
impl<N: Node, R: equiv_classes::Rc> equiv_classes::Table for SimTable<N, R> {
    type Node = N;
    type Rc = R;
    fn get(&self, k: &N::Id) -> Option<&R> {
        ev(Ev::of(K::TGet));
        self.0.get(k)
    }
    fn insert(&mut self, k: N::Id, v: R) {
        ev(Ev { x: self.0.len() as u64, ..Ev::of(K::TIns) });
        self.0.insert(k, v);
    }
}

// ---------------------------------------------------------------- generators

/// Draw from the script of the current world.
pub fn draw(end: NonZeroU16) -> Option<u16> {
    let c = cx();
    let v = c.rng.at(c.s.rng_draws, end.get());
    c.s.rng_draws += 1;
    if let Some(v) = v {
        c.s.rng_hash = mix2(c.s.rng_hash, u64::from(v));
        c.s.rng_max += u64::from(v == end.get() - 1);
        c.s.rng_zero += u64::from(v == 0);
    }
    ev(Ev { n: u32::from(end.get()), x: v.map_or(u64::MAX, u64::from), ..Ev::of(K::Rng) });
    v
}

/// For the premade functions.
pub fn driver(end: NonZeroU16) -> Option<u16> {
    if !present() {
        return None;
    }
    draw(end)
}

pub struct SimRng;
impl Default for SimRng {
    fn default() -> Self {
        ev(Ev::of(K::RngNew));
        SimRng
    }
}
impl NumberGenerator for SimRng {
    fn rand_upto(&mut self, end: NonZeroU16) -> u16 {
        draw(end).unwrap_or(0)
    }
}

/// Observes a real generator.
#[derive(Default)]
pub struct Watched<G>(G);
impl<G: NumberGenerator> NumberGenerator for Watched<G> {
    fn rand_upto(&mut self, end: NonZeroU16) -> u16 {
        let v = self.0.rand_upto(end);
        let c = cx();
        c.s.rng_draws += 1;
        c.s.rng_hash = mix2(c.s.rng_hash, u64::from(v));
        c.s.rng_max = c.s.rng_max.max(u64::from(v));
        ev(Ev { n: u32::from(end.get()), x: u64::from(v), ..Ev::of(K::Rng) });
        v
    }
}

// ------------------------------------------------------------ recursion mode

#[cfg(not(feature = "anticipate"))]
pub type Never = std::convert::Infallible;
#[cfg(feature = "anticipate")]
pub type Never = !;

/// Error of simulated components.
#[derive(Debug, PartialEq, Clone, Copy)]
pub struct SimErr(pub u32);

impl From<Never> for SimErr {
    fn from(x: Never) -> Self {
        match x {}
    }
}
impl From<SimErr> for PrecheckError<SimErr> {
    fn from(e: SimErr) -> Self {
        PrecheckError::RecurError(e)
    }
}
impl From<SimErr> for InterleaveError<SimErr> {
    fn from(e: SimErr) -> Self {
        InterleaveError(e)
    }
}

/// Either way of a bounded comparison with a failing component to end.
#[derive(Debug, PartialEq, Clone, Copy)]
pub enum LimErr {
    Limit,
    Sim(SimErr),
}
impl From<Never> for LimErr {
    fn from(x: Never) -> Self {
        match x {}
    }
}
impl From<SimErr> for LimErr {
    fn from(e: SimErr) -> Self {
        LimErr::Sim(e)
    }
}
impl From<graph_safe_compare::basic::modes::limited::LimitReached> for LimErr {
    fn from(_: graph_safe_compare::basic::modes::limited::LimitReached) -> Self {
        LimErr::Limit
    }
}

/// Recursion mode that takes up pending work in any order the simulation decides, partly
/// recurring at once, and that fails when the simulation says so.
pub struct Pool<N: Node> {
    pend: VecDeque<EdgesIter<N>>,
    picks: u64,
    recurs: u64,
    depth: u32,
}

impl<N: Node> Default for Pool<N> {
    fn default() -> Self {
        ev(Ev::of(K::RecNew));
        live(Live::Pool, 1);
        Pool { pend: VecDeque::new(), picks: 0, recurs: 0, depth: 0 }
    }
}
impl<N: Node> Drop for Pool<N> {
    fn drop(&mut self) {
        live(Live::Pool, -1);
    }
}

fn recur_fault() -> Option<SimErr> {
    let c = cx();
    let i = c.s.recurs;
    c.s.recurs += 1;
    let e = match c.fault {
        Fault::Recur(at, code) if i == at => Some(SimErr(u32::from(code))),
        Fault::Quota(q, code) if c.s.live[Live::Node as usize] as u64 >= q => {
            Some(SimErr(u32::from(code)))
        }
        _ => None,
    };
    if e.is_some() {
        c.s.fault_fired += 1;
        c.s.after_fault = 0;
    }
    e
}

impl<N, P> RecurMode<P> for Pool<N>
where
    N: Node,
    P: equiv::Params<Node = N, RecurMode = Pool<N>>,
    SimErr: Into<P::Error>,
{
    // So that errors of nested calls can be passed on as they are.
    type Error = P::Error;

    fn recur(it: &mut Equiv<P>, mut edges: EdgesIter<N>) -> Result<N::Cmp, P::Error> {
        ev(Ev::of(K::Recur));
        if let Some(e) = recur_fault() {
            return Err(e.into());
        }
        let o = cx().order;
        let p = &mut it.recur_mode;
        let r = mix2(o.seed, 3 * p.recurs + 1);
        p.recurs += 1;
        if o.imm > 0 && r % 100 < u64::from(o.imm) && p.depth < 300 {
            p.depth += 1;
            let res = loop {
                match edges.next() {
                    None => break Ok(N::Cmp::new_equiv()),
                    Some(Err(c)) => break Ok(c),
                    Some(Ok([a, b])) => match it.equiv_main(a, b) {
                        Ok(c) if c.is_equiv() => (),
                        other => break other,
                    },
                }
            };
            it.recur_mode.depth -= 1;
            res
        } else {
            p.pend.push_back(edges);
            Ok(N::Cmp::new_equiv())
        }
    }

    fn next(&mut self) -> Option<CounterpartsResult<N>> {
        ev(Ev::of(K::RecNext));
        while !self.pend.is_empty() {
            let o = cx().order;
            let n = self.pend.len();
            let i = match o.policy {
                0 => 0,
                1 => n - 1,
                3 if self.picks % 2 == 0 => 0,
                3 => n - 1,
                _ => (mix2(o.seed, 3 * self.picks) % n as u64) as usize,
            };
            self.picks += 1;
            match self.pend[i].next() {
                Some(x) => return Some(x),
                None if o.policy == 0 => drop(self.pend.pop_front()),
                None => drop(self.pend.swap_remove_back(i)),
            }
        }
        None
    }

    fn reset(mut self) -> Self {
        ev(Ev { x: self.pend.len() as u64, ..Ev::of(K::RecReset) });
        self.pend.clear();
        self.picks = 0;
        self.recurs = 0;
        self.depth = 0;
        self
    }
}

impl<N: Node> From<CallStack> for Pool<N> {
    fn from(_: CallStack) -> Self {
        Self::default()
    }
}

// -------------------------------------------------------------- descend mode

/// Controller that skips or fails as scripted, or when simulated time runs out.
#[derive(Default)]
pub struct ScriptDescend;

fn decide(code: u16) -> Result<bool, SimErr> {
    let c = cx();
    let late = match c.fault {
        Fault::Deadline(t, code) if c.s.clock >= t => Some(code),
        _ => None,
    };
    let r = match (late, code) {
        (Some(code), _) => Err(SimErr(u32::from(code))),
        (None, 0) => Ok(true),
        (None, 1) => Ok(false),
        (None, c) => Err(SimErr(u32::from(c))),
    };
    if r.is_err() {
        c.s.fault_fired += 1;
        c.s.after_fault = 0;
    }
    r
}

impl<P> DescendMode<P> for ScriptDescend
where
    P: equiv::Params<DescendMode = Self>,
    P::Node: Seen,
    SimErr: Into<P::Error>,
{
    type Error = SimErr;
    fn do_edges(&mut self, a: &P::Node, b: &P::Node) -> Result<bool, SimErr> {
        let i = cx().s.desc;
        cx().s.desc += 1;
        let d = cx().dec.desc(i);
        let (a, b) = (a.seen(), b.seen());
        ev(Ev {
            x: i,
            n: u32::from(d),
            side: a.side,
            side2: b.side,
            h: a.h,
            h2: b.h,
            pos: a.pos,
            pos2: b.pos,
            ..Ev::of(K::DoEdges)
        });
        decide(d)
    }
    fn do_traverse(&mut self) -> Result<bool, SimErr> {
        let i = cx().s.trav;
        cx().s.trav += 1;
        let d = cx().dec.trav(i);
        ev(Ev { x: i, n: u32::from(d), ..Ev::of(K::DoTrav) });
        decide(d)
    }
}
