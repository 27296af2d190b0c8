//! All the ways to compare: premade functions and combinations through the generic API.

use crate::json::J;
use crate::parts::*;
#[cfg(feature = "full")]
use crate::refs::{RTable, Truth};
use graph_safe_compare::basic::modes::limited::{LimitReached, Limited};
use graph_safe_compare::basic::modes::unlimited::Unlimited;
use graph_safe_compare::basic::recursion::callstack::CallStack;
#[cfg(all(feature = "std", feature = "fastrand"))]
use graph_safe_compare::cycle_safe::modes::interleave::random::fastrand as g_fastrand;
#[cfg(feature = "oorandom")]
use graph_safe_compare::cycle_safe::modes::interleave::random::oorandom as g_oorandom;
#[cfg(feature = "wyrng")]
use graph_safe_compare::cycle_safe::modes::interleave::random::wyrng as g_wyrng;
use graph_safe_compare::cycle_safe::modes::interleave::random::NumberGenerator;
use graph_safe_compare::cycle_safe::modes::interleave::{self, Interleave};
#[cfg(feature = "alloc")]
use graph_safe_compare::deep_safe::recursion::queue::{self, RecurQueue};
use graph_safe_compare::generic::equiv::{self, Equiv, RecurMode};
#[cfg(feature = "std")]
use graph_safe_compare::generic::equiv_classes::premade::hash_map;
#[cfg(feature = "alloc")]
use graph_safe_compare::generic::equiv_classes::premade::rc::Rc as PremadeRc;
use graph_safe_compare::generic::equiv_classes::Table;
use graph_safe_compare::generic::precheck_interleave;
#[cfg(feature = "alloc")]
use graph_safe_compare::wide_safe::recursion::stack::{self, RecurStack};
use graph_safe_compare::{basic, Node};
#[cfg(all(feature = "std", any(feature = "wyrng", feature = "oorandom", feature = "fastrand")))]
use graph_safe_compare::{cycle_safe, robust};
#[cfg(feature = "alloc")]
use graph_safe_compare::{deep_safe, wide_safe};
use std::marker::PhantomData;

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum F {
    Basic,
    Deep,
    Wide,
    Cyc,
    CycPre,
    Rob,
    RobPre,
    /// Generic interleave, with recursion mode.
    Inter,
    /// Generic precheck and interleave, with combination of recursion modes.
    Pre,
    /// Generic unlimited, with recursion mode.
    Unl,
    /// Generic limited, with recursion mode.
    Lim,
    /// Generic with scripted controller, with recursion mode.
    Desc,
}
pub const FS: [(F, &str); 12] = [
    (F::Basic, "basic"),
    (F::Deep, "deep_safe"),
    (F::Wide, "wide_safe"),
    (F::Cyc, "cycle_safe::equiv"),
    (F::CycPre, "cycle_safe::precheck_equiv"),
    (F::Rob, "robust::equiv"),
    (F::RobPre, "robust::precheck_equiv"),
    (F::Inter, "generic interleave"),
    (F::Pre, "generic precheck_interleave"),
    (F::Unl, "generic unlimited"),
    (F::Lim, "generic limited"),
    (F::Desc, "generic scripted"),
];

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Rm {
    Call,
    Queue,
    Stack,
    Pool,
}
pub const RMS: [Rm; 4] = [Rm::Call, Rm::Queue, Rm::Stack, Rm::Pool];

/// Precheck combinations; from 7, the same put together by hand from the parts of the generic API.
pub const COMBOS: [(Rm, Rm); 14] = [
    (Rm::Call, Rm::Call),
    (Rm::Queue, Rm::Queue),
    (Rm::Stack, Rm::Stack),
    (Rm::Pool, Rm::Pool),
    (Rm::Call, Rm::Queue),
    (Rm::Call, Rm::Stack),
    (Rm::Call, Rm::Pool),
    (Rm::Call, Rm::Call),
    (Rm::Queue, Rm::Queue),
    (Rm::Stack, Rm::Stack),
    (Rm::Pool, Rm::Pool),
    (Rm::Call, Rm::Queue),
    (Rm::Call, Rm::Stack),
    (Rm::Call, Rm::Pool),
];

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Api {
    pub f: F,
    /// Recursion mode, or combination of precheck.
    pub rm: u8,
    pub lim: u8,
    /// 0 simulated table and pointers, 1 simulated table and premade pointers, 2 premade table,
    /// 3 tables by hash, order, and equality alone, of references.
    pub tab: u8,
    /// 0 scripted, 1 wyrng, 2 oorandom, 3 fastrand.
    pub rng: u8,
    pub budget: Option<u128>,
    /// 0..=5: u8 u16 u32 u64 u128 usize.
    pub bty: u8,
}

impl Api {
    pub const fn new(f: F) -> Api {
        Api { f, rm: 0, lim: 0, tab: 0, rng: 0, budget: None, bty: 2 }
    }
    pub fn name(&self) -> String {
        let mut s = FS.iter().find(|x| x.0 == self.f).unwrap().1.to_string();
        match self.f {
            F::Inter | F::Unl | F::Desc | F::Lim => {
                s += &format!(" {:?}", RMS[self.rm as usize]);
            }
            F::Pre => s += &format!(" {:?}", COMBOS[self.rm as usize]),
            _ => (),
        }
        if self.by_hand() {
            s += " by hand";
        }
        s
    }
    pub fn to_json(&self) -> J {
        J::obj(vec![
            ("f", J::s(FS.iter().find(|x| x.0 == self.f).unwrap().1)),
            ("rm", J::Int(self.rm.into())),
            ("lim", J::Int(self.lim.into())),
            ("tab", J::Int(self.tab.into())),
            ("rng", J::Int(self.rng.into())),
            ("budget", self.budget.map_or(J::Null, |b| J::Str(b.to_string()))),
            ("bty", J::Int(self.bty.into())),
        ])
    }
    pub fn from_json(j: &J) -> Api {
        Api {
            f: FS.iter().find(|x| x.1 == j.get("f").str()).map_or(F::Basic, |x| x.0),
            rm: j.get("rm").int() as u8,
            lim: j.get("lim").int() as u8,
            tab: j.get("tab").int() as u8,
            rng: j.get("rng").int() as u8,
            budget: j.get("budget").str().parse().ok(),
            bty: j.get("bty").int() as u8,
        }
    }
    pub fn cyclic_ok(&self) -> bool {
        matches!(self.f, F::Cyc | F::CycPre | F::Rob | F::RobPre | F::Inter | F::Pre)
    }
    pub fn has_precheck(&self) -> bool {
        matches!(self.f, F::CycPre | F::RobPre | F::Pre)
    }
    pub fn by_hand(&self) -> bool {
        self.f == F::Pre && self.rm >= 7
    }
    /// Recursion mode of the main (last) phase.
    pub fn main_rm(&self) -> Rm {
        match self.f {
            F::Basic | F::Cyc | F::CycPre => Rm::Call,
            F::Deep | F::Rob | F::RobPre => Rm::Queue,
            F::Wide => Rm::Stack,
            F::Inter | F::Unl | F::Lim | F::Desc => RMS[self.rm as usize],
            F::Pre => COMBOS[self.rm as usize].1,
        }
    }
    pub fn pre_rm(&self) -> Option<Rm> {
        match self.f {
            F::CycPre => Some(Rm::Call),
            F::RobPre => Some(Rm::Queue),
            F::Pre => Some(COMBOS[self.rm as usize].0),
            _ => None,
        }
    }
    /// (precheck limit, fast limit maximum, slow limit)
    pub fn limits(&self) -> (u16, u16, u16) {
        match self.f {
            F::Inter | F::Pre => LIMS[self.lim as usize],
            _ => LIMS[0],
        }
    }
    pub fn premade_table(&self) -> bool {
        match self.f {
            F::Inter | F::Pre => self.tab == 2,
            F::Cyc | F::CycPre | F::Rob | F::RobPre => true,
            _ => false,
        }
    }
}

// ------------------------------------------------------------------- limits

/// What limits each configuration is documented to have.  Configurations 0 to 5 leave some or all
/// to be derived.
pub const LIMS: [(u16, u16, u16); 18] = [
    (400, 800, 40),
    (10, 20, 1),
    (25, 50, 2),
    (32767, 65534, 3276),
    (1, 2, 1),
    (9, 18, 1),
    (0, 0, 1),
    (1, 0, 1),
    (3, 1, 2),
    (7, 5, 1),
    (2, 65534, 3),
    (20, 3, 65535),
    (2000, 500, 1000),
    (50, 2, 7),
    (16, 16, 4),
    (65535, 800, 40),
    (30, 9, 3),
    (5, 0, 5),
];
pub const NLIM: u64 = LIMS.len() as u64;
/// Limits also offered with other tables and generators and node kinds.
pub const LIM_FEW: [u8; 4] = [0, 1, 8, 14];
/// Limits offered in reduced builds.
pub const LIM_LEAN: [u8; 2] = [0, 8];

/// All the default limits.
pub struct L0<N, T, G>(PhantomData<(N, T, G)>);
impl<N: Node, T: Table<Node = N>, G: NumberGenerator> interleave::Params for L0<N, T, G> {
    type Node = N;
    type Table = T;
    type RNG = G;
}
/// Only the precheck limit redefined.
pub struct LD<N, T, G, const P: u16>(PhantomData<(N, T, G)>);
impl<N: Node, T: Table<Node = N>, G: NumberGenerator, const P: u16> interleave::Params
    for LD<N, T, G, P>
{
    const PRECHECK_LIMIT: u16 = P;
    type Node = N;
    type Table = T;
    type RNG = G;
}
/// All redefined.
pub struct LE<N, T, G, const L: usize>(PhantomData<(N, T, G)>);
impl<N: Node, T: Table<Node = N>, G: NumberGenerator, const L: usize> interleave::Params
    for LE<N, T, G, L>
{
    const PRECHECK_LIMIT: u16 = LIMS[L].0;
    const FAST_LIMIT_MAX: u16 = LIMS[L].1;
    const SLOW_LIMIT: u16 = LIMS[L].2;
    type Node = N;
    type Table = T;
    type RNG = G;
}

// ------------------------------------------------------------- combinations

pub struct QP<N>(PhantomData<N>);
#[cfg(feature = "alloc")]
impl<N: Node> queue::Params for QP<N> {
    type Node = N;
}
#[cfg(feature = "alloc")]
impl<N: Node> stack::Params for QP<N> {
    type Node = N;
}
#[cfg(feature = "std")]
impl<N: Node> hash_map::Params for QP<N> {
    const INITIAL_CAPACITY: usize = 3;
    type Node = N;
}
#[cfg(feature = "alloc")]
type Queue<N> = RecurQueue<QP<N>>;
#[cfg(feature = "alloc")]
type Stack<N> = RecurStack<QP<N>>;
// Never used then.
#[cfg(not(feature = "alloc"))]
type Queue<N> = Pool<N>;
#[cfg(not(feature = "alloc"))]
type Stack<N> = Pool<N>;

/// Without any initial capacity.
pub struct Q0<N>(PhantomData<N>);
#[cfg(feature = "alloc")]
impl<N: Node> queue::Params for Q0<N> {
    const INITIAL_CAPACITY: usize = 0;
    type Node = N;
}
#[cfg(feature = "alloc")]
impl<N: Node> stack::Params for Q0<N> {
    const INITIAL_CAPACITY: usize = 0;
    type Node = N;
}

macro_rules! combo {
    ($($t:ident $pre:ty, $main:ty;)*) => { $(
        pub struct $t<N, I>(PhantomData<(N, I)>);
        impl<N: Node, I: interleave::Params<Node = N>> precheck_interleave::Params<N> for $t<N, I> {
            type PrecheckRecurMode = $pre;
            type InterleaveRecurMode = $main;
            type InterleaveParams = I;
            type Error = SimErr;
        }
    )* };
}
combo! {
    C0 CallStack, CallStack;
    C1 Queue<N>, Queue<N>;
    C2 Stack<N>, Stack<N>;
    C3 Pool<N>, Pool<N>;
    C4 CallStack, Queue<N>;
    C5 CallStack, Stack<N>;
    C6 CallStack, Pool<N>;
}

pub enum Stopped {
    Limit,
    Sim(u32),
}
impl From<SimErr> for Stopped {
    fn from(e: SimErr) -> Self {
        Stopped::Sim(e.0)
    }
}
impl From<LimitReached> for Stopped {
    fn from(_: LimitReached) -> Self {
        Stopped::Limit
    }
}
impl From<LimErr> for Stopped {
    fn from(e: LimErr) -> Self {
        match e {
            LimErr::Limit => Stopped::Limit,
            LimErr::Sim(e) => e.into(),
        }
    }
}

type R<N> = Result<<N as Node>::Cmp, Stopped>;

fn inter<N: Node, I: interleave::Params<Node = N>>(rm: Rm, a: N, b: N) -> R<N> {
    macro_rules! go {
        ($r:ty) => {{
            struct A<N, I>(PhantomData<(N, I)>);
            impl<N: Node, I: interleave::Params<Node = N>> equiv::Params for A<N, I> {
                type Node = N;
                type DescendMode = Interleave<I>;
                type RecurMode = $r;
                type Error = SimErr;
            }
            Equiv::<A<N, I>>::default().equiv(a, b)?
        }};
    }
    Ok(match rm {
        Rm::Call => go!(CallStack),
        Rm::Queue => go!(Queue<N>),
        Rm::Stack => go!(Stack<N>),
        Rm::Pool => go!(Pool<N>),
    })
}

fn pre<N: Node + Clone, I: interleave::Params<Node = N>>(combo: u8, a: N, b: N) -> R<N> {
    use precheck_interleave::equiv;
    Ok(match combo {
        0 => equiv::<N, C0<N, I>>(a, b)?,
        1 => equiv::<N, C1<N, I>>(a, b)?,
        2 => equiv::<N, C2<N, I>>(a, b)?,
        3 => equiv::<N, C3<N, I>>(a, b)?,
        4 => equiv::<N, C4<N, I>>(a, b)?,
        5 => equiv::<N, C5<N, I>>(a, b)?,
        _ => equiv::<N, C6<N, I>>(a, b)?,
    })
}

#[cfg(feature = "alloc")]
type Queue0<N> = RecurQueue<Q0<N>>;
#[cfg(feature = "alloc")]
type Stack0<N> = RecurStack<Q0<N>>;
#[cfg(not(feature = "alloc"))]
type Queue0<N> = Pool<N>;
#[cfg(not(feature = "alloc"))]
type Stack0<N> = Pool<N>;

/// As users can build it: limited comparison, and if that is cut off its recursion mode taken over.
fn chain<N: Node + Clone, I: interleave::Params<Node = N>>(combo: u8, a: N, b: N) -> R<N> {
    macro_rules! chain {
        (from $e:ident, $t:ty) => {
            Equiv::<$t>::from($e)
        };
        (into $e:ident, $t:ty) => {
            $e.into::<$t>()
        };
    }
    macro_rules! go {
        ($pre:ty, $main:ty, $how:ident) => {{
            struct A<N, I>(PhantomData<(N, I)>);
            impl<N: Node, I: interleave::Params<Node = N>> equiv::Params for A<N, I> {
                type Node = N;
                type DescendMode = Limited<u32>;
                type RecurMode = $pre;
                type Error = LimErr;
            }
            struct B<N, I>(PhantomData<(N, I)>);
            impl<N: Node, I: interleave::Params<Node = N>> equiv::Params for B<N, I> {
                type Node = N;
                type DescendMode = Interleave<I>;
                type RecurMode = $main;
                type Error = SimErr;
            }
            let mut e = Equiv::<A<N, I>>::new(Limited(I::PRECHECK_LIMIT.into()));
            match e.equiv(a.clone(), b.clone()) {
                Ok(v) => v,
                Err(LimErr::Sim(e)) => return Err(e.into()),
                Err(LimErr::Limit) => {
                    let mut e = chain!($how e, B<N, I>);
                    e.equiv(a, b)?
                }
            }
        }};
    }
    Ok(match combo {
        0 => go!(CallStack, CallStack, from),
        1 => go!(Queue0<N>, Queue0<N>, from),
        2 => go!(Stack0<N>, Stack0<N>, into),
        3 => go!(Pool<N>, Pool<N>, from),
        4 => go!(CallStack, Queue0<N>, into),
        5 => go!(CallStack, Stack0<N>, from),
        _ => go!(CallStack, Pool<N>, into),
    })
}

fn chain_few<N: Node + Clone>(api: &Api, a: N, b: N) -> R<N> {
    match api.lim {
        0 => chain::<N, L0<N, SimTable<N, SRc>, SimRng>>(api.rm - 7, a, b),
        1 => chain::<N, LD<N, SimTable<N, SRc>, SimRng, 10>>(api.rm - 7, a, b),
        8 => chain::<N, LE<N, SimTable<N, SRc>, SimRng, 8>>(api.rm - 7, a, b),
        9 => chain::<N, LE<N, SimTable<N, SRc>, SimRng, 9>>(api.rm - 7, a, b),
        14 => chain::<N, LE<N, SimTable<N, SRc>, SimRng, 14>>(api.rm - 7, a, b),
        other => panic!("HARNESS: limits {other} not available for this combination"),
    }
}
/// Limits offered for those.
pub const LIM_CHAIN: [u8; 5] = [0, 1, 8, 9, 14];

fn inter_or_pre<N: Node + Clone, I: interleave::Params<Node = N>>(api: &Api, a: N, b: N) -> R<N> {
    if api.f == F::Pre {
        pre::<N, I>(api.rm, a, b)
    } else {
        inter::<N, I>(RMS[api.rm as usize], a, b)
    }
}

fn few<N: Node + Clone, T: Table<Node = N>, G: NumberGenerator>(api: &Api, a: N, b: N) -> R<N> {
    match api.lim {
        0 => inter_or_pre::<N, L0<N, T, G>>(api, a, b),
        #[cfg(feature = "full")]
        1 => inter_or_pre::<N, LD<N, T, G, 10>>(api, a, b),
        8 => inter_or_pre::<N, LE<N, T, G, 8>>(api, a, b),
        #[cfg(feature = "full")]
        14 => inter_or_pre::<N, LE<N, T, G, 14>>(api, a, b),
        other => panic!("HARNESS: limits {other} not available for this combination"),
    }
}

#[cfg(feature = "full")]
fn many<N: Node + Clone, T: Table<Node = N>, G: NumberGenerator>(api: &Api, a: N, b: N) -> R<N> {
    macro_rules! at {
        ($($i:literal)*) => {
            match api.lim {
                2 => inter_or_pre::<N, LD<N, T, G, 25>>(api, a, b),
                3 => inter_or_pre::<N, LD<N, T, G, 32767>>(api, a, b),
                4 => inter_or_pre::<N, LD<N, T, G, 1>>(api, a, b),
                5 => inter_or_pre::<N, LD<N, T, G, 9>>(api, a, b),
                $($i => inter_or_pre::<N, LE<N, T, G, $i>>(api, a, b),)*
                _ => few::<N, T, G>(api, a, b),
            }
        };
    }
    at!(6 7 9 10 11 12 13 15 16 17)
}

macro_rules! plain_mode {
    ($rm:expr, $a:expr, $b:expr, $nodes:path, $d:ty, $e:ty, $make:ident($($arg:expr)?)) => {{
        macro_rules! go {
            ($r:ty) => {{
                struct A<N>(PhantomData<N>);
                impl<N: Node + $nodes> equiv::Params for A<N> {
                    type Node = N;
                    type DescendMode = $d;
                    type RecurMode = $r;
                    type Error = $e;
                }
                Equiv::<A<N>>::$make($($arg)?).equiv($a, $b)?
            }};
        }
        Ok(match $rm {
            Rm::Call => go!(CallStack),
            Rm::Queue => go!(Queue<N>),
            Rm::Stack => go!(Stack<N>),
            Rm::Pool => go!(Pool<N>),
        })
    }};
}

fn desc<N: Node + Seen>(rm: Rm, a: N, b: N) -> R<N> {
    plain_mode!(rm, a, b, Seen, ScriptDescend, SimErr, new(ScriptDescend {}))
}

fn unl<N: Node>(rm: Rm, a: N, b: N) -> R<N> {
    plain_mode!(rm, a, b, Node, Unlimited, SimErr, default())
}

fn lim<N: Node>(rm: Rm, l: u32, a: N, b: N) -> R<N> {
    plain_mode!(rm, a, b, Node, Limited<u32>, LimErr, new(Limited(l)))
}

macro_rules! limited {
    ($m:ident, $api:expr, $l:expr, $a:expr, $b:expr) => {
        match $api.bty {
            0 => $m::limited_equiv($l as u8, $a, $b)?,
            1 => $m::limited_equiv($l as u16, $a, $b)?,
            2 => $m::limited_equiv($l as u32, $a, $b)?,
            3 => $m::limited_equiv($l as u64, $a, $b)?,
            4 => $m::limited_equiv($l, $a, $b)?,
            _ => $m::limited_equiv($l as usize, $a, $b)?,
        }
    };
}

fn common<N: Node + Clone + Seen>(api: &Api, a: N, b: N) -> R<N> {
    Ok(match (api.f, api.budget) {
        (F::Basic, None) => basic::equiv(a, b),
        #[cfg(feature = "alloc")]
        (F::Deep, None) => deep_safe::equiv(a, b),
        #[cfg(feature = "alloc")]
        (F::Wide, None) => wide_safe::equiv(a, b),
        (F::Basic, Some(l)) => limited!(basic, api, l, a, b),
        #[cfg(feature = "alloc")]
        (F::Deep, Some(l)) => limited!(deep_safe, api, l, a, b),
        #[cfg(feature = "alloc")]
        (F::Wide, Some(l)) => limited!(wide_safe, api, l, a, b),
        #[cfg(all(feature = "std", any(feature = "wyrng", feature = "oorandom", feature = "fastrand")))]
        (F::Cyc, _) => cycle_safe::equiv(a, b),
        #[cfg(all(feature = "std", any(feature = "wyrng", feature = "oorandom", feature = "fastrand")))]
        (F::CycPre, _) => cycle_safe::precheck_equiv(a, b),
        #[cfg(all(feature = "std", any(feature = "wyrng", feature = "oorandom", feature = "fastrand")))]
        (F::Rob, _) => robust::equiv(a, b),
        #[cfg(all(feature = "std", any(feature = "wyrng", feature = "oorandom", feature = "fastrand")))]
        (F::RobPre, _) => robust::precheck_equiv(a, b),
        (F::Unl, _) => return unl(RMS[api.rm as usize], a, b),
        (F::Lim, l) => return lim(RMS[api.rm as usize], l.unwrap_or(0) as u32, a, b),
        (F::Desc, _) => return desc(RMS[api.rm as usize], a, b),
        #[allow(unreachable_patterns)]
        _ => panic!("HARNESS: not available"),
    })
}

/// For the main node kind: everything.
pub fn call_full<N: Node + Clone + Seen>(api: &Api, a: N, b: N) -> R<N> {
    if !matches!(api.f, F::Inter | F::Pre) {
        return common(api, a, b);
    }
    if api.by_hand() {
        if api.tab != 0 || api.rng != 0 {
            panic!("HARNESS: not available by hand");
        }
        #[cfg(feature = "full")]
        return chain_few::<N>(api, a, b);
    }
    match (api.tab, api.rng) {
        #[cfg(feature = "full")]
        (0, 0) => many::<N, SimTable<N, SRc>, SimRng>(api, a, b),
        #[cfg(not(feature = "full"))]
        (0, 0) => few::<N, SimTable<N, SRc>, SimRng>(api, a, b),
        #[cfg(feature = "alloc")]
        (1, 0) => few::<N, SimTable<N, PremadeRc>, SimRng>(api, a, b),
        #[cfg(feature = "std")]
        (2, 0) => few::<N, hash_map::Table<QP<N>>, SimRng>(api, a, b),
        #[cfg(feature = "wyrng")]
        (_, 1) => few::<N, SimTable<N, SRc>, Watched<g_wyrng::RandomNumberGenerator>>(api, a, b),
        #[cfg(feature = "oorandom")]
        (_, 2) => {
            few::<N, SimTable<N, SRc>, Watched<g_oorandom::RandomNumberGenerator>>(api, a, b)
        }
        #[cfg(all(feature = "std", feature = "fastrand"))]
        (_, 3) => {
            few::<N, SimTable<N, SRc>, Watched<g_fastrand::RandomNumberGenerator>>(api, a, b)
        }
        _ => panic!("HARNESS: no such combination"),
    }
}

/// For the other node kinds: fewer limits.
#[cfg(feature = "full")]
pub fn call_few<N: Node + Clone + Seen>(api: &Api, a: N, b: N) -> R<N> {
    if !matches!(api.f, F::Inter | F::Pre) {
        return common(api, a, b);
    }
    if api.by_hand() {
        panic!("HARNESS: not available by hand");
    }
    match api.tab {
        2 => few::<N, hash_map::Table<QP<N>>, SimRng>(api, a, b),
        _ => few::<N, SimTable<N, SRc>, SimRng>(api, a, b),
    }
}

/// For nodes identified by references.
#[cfg(feature = "full")]
pub fn call_refs<N: Node + Clone>(api: &Api, a: N, b: N) -> R<N>
where
    N::Id: std::hash::Hash + Ord + Clone + Truth,
{
    macro_rules! go {
        ($t:ty) => {
            match api.lim {
                0 => inter::<N, L0<N, $t, SimRng>>(RMS[api.rm as usize], a, b),
                8 => inter::<N, LE<N, $t, SimRng, 8>>(RMS[api.rm as usize], a, b),
                9 => inter::<N, LE<N, $t, SimRng, 9>>(RMS[api.rm as usize], a, b),
                _ => panic!("HARNESS: not available for references"),
            }
        };
    }
    Ok(match (api.f, api.tab) {
        (F::Basic, _) => basic::equiv(a, b),
        (F::Deep, _) => deep_safe::equiv(a, b),
        (F::Wide, _) => wide_safe::equiv(a, b),
        (F::Cyc, _) => cycle_safe::equiv(a, b),
        (F::CycPre, _) => cycle_safe::precheck_equiv(a, b),
        (F::Rob, _) => robust::equiv(a, b),
        (F::RobPre, _) => robust::precheck_equiv(a, b),
        (F::Inter, 2) => return go!(hash_map::Table<QP<N>>),
        (F::Inter, 3) => return go!(RTable<N>),
        _ => panic!("HARNESS: not available for references"),
    })
}
/// Limits offered for those.
pub const LIM_REFS: [u8; 3] = [0, 8, 9];

/// Least common: only what has no limits.
pub fn call_least<N: Node + Clone + Seen>(api: &Api, a: N, b: N) -> R<N> {
    if !matches!(api.f, F::Inter | F::Pre) {
        return common(api, a, b);
    }
    if api.by_hand() {
        panic!("HARNESS: not available by hand");
    }
    inter_or_pre::<N, LE<N, SimTable<N, SRc>, SimRng, 8>>(&Api { lim: 8, ..*api }, a, b)
}

#[allow(dead_code)]
pub fn result_ok<T, E>(r: Result<T, E>) -> Option<T> {
    r.ok()
}

/// Direct access to the generators.
pub fn generator(which: u8) -> Box<dyn FnMut(std::num::NonZeroU16) -> u16> {
    match which {
        #[cfg(feature = "wyrng")]
        1 => {
            let mut g = g_wyrng::RandomNumberGenerator::default();
            Box::new(move |e| g.rand_upto(e))
        }
        #[cfg(feature = "oorandom")]
        2 => {
            let mut g = g_oorandom::RandomNumberGenerator::default();
            Box::new(move |e| g.rand_upto(e))
        }
        #[cfg(all(feature = "std", feature = "fastrand"))]
        3 => {
            let mut g = g_fastrand::RandomNumberGenerator::default();
            Box::new(move |e| g.rand_upto(e))
        }
        _ => panic!("HARNESS: no such generator"),
    }
}
