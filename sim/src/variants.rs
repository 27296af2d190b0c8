//! Reduced builds: one per selection of the library's features, executing the same scenarios.

use crate::api::*;
use crate::ctx::*;
use crate::json::J;
use crate::prng::mix2;
use crate::run::*;
use crate::scen::Scen;
use std::cell::RefCell;
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};
use std::sync::Arc;

pub struct Variant {
    /// Directory of the build.
    pub name: &'static str,
    pub features: &'static str,
    /// What the premade functions must draw from, of those of [`Api::rng`]; 0 without any.
    pub generator: u8,
}
const fn v(name: &'static str, features: &'static str, generator: u8) -> Variant {
    Variant { name, features, generator }
}
/// As check.sh builds them.
pub const VARIANTS: [Variant; 14] = [
    v("default", "std wyrng", 1),
    v("fastrand", "std fastrand", 3),
    v("oorandom", "std oorandom", 2),
    v("every", "std wyrng oorandom fastrand", 1),
    v("nostd", "alloc wyrng oorandom", 0),
    v("alloc", "alloc", 0),
    v("none", "", 0),
    v("anticipate", "std oorandom fastrand anticipate", 2),
    v("std", "std", 0),
    v("fastrand-bare", "fastrand", 0),
    v("two-others", "std oorandom fastrand", 2),
    v("wyrng-fastrand", "std wyrng fastrand", 1),
    v("bare", "wyrng oorandom fastrand", 0),
    v("anticipate-bare", "anticipate", 0),
];

/// What an execution was, as far as it must be the same in every build.
#[derive(Clone, PartialEq, Debug)]
pub struct Answer {
    pub res: String,
    /// Digest of all calls but those of shared pointers (debug assertions make some).
    pub all: u64,
    /// Digest of the calls of nodes.
    pub looks: u64,
    pub calls: u64,
}
impl Answer {
    pub fn of(o: &Out) -> Answer {
        let mut a = Answer { res: format!("{:?}", o.res), all: 0, looks: 0, calls: 0 };
        if let Res::RealPanic(m) = &o.res {
            a.res = format!("panicked: {m}");
        }
        for e in &o.trace {
            let h = [
                u64::from(e.side) << 8 | u64::from(e.side2),
                u64::from(e.h) << 32 | u64::from(e.h2),
                u64::from(e.n) << 32 | u64::from(e.m),
                e.pos,
                e.pos2,
                e.x,
            ]
            .iter()
            .fold(e.k as u64, |h, x| mix2(h, *x));
            if matches!(e.k, K::Id | K::Cmp | K::Edge | K::Clone) {
                a.looks = mix2(a.looks, h);
                a.calls += 1;
            }
            if !matches!(e.k, K::RcNew | K::RcClone | K::RcDeref) {
                a.all = mix2(a.all, h);
            }
        }
        a
    }
}

// ------------------------------------------------------------------ the asked

/// Is everything there that this comparison uses?
fn available(c: &Cmpn) -> bool {
    let alloc = cfg!(feature = "alloc");
    let std = cfg!(feature = "std");
    let lazy = |m: Rm| matches!(m, Rm::Queue | Rm::Stack);
    let parts = !lazy(c.api.main_rm()) && !c.api.pre_rm().is_some_and(lazy) || alloc;
    parts
        && match c.api.f {
            F::Cyc | F::CycPre | F::Rob | F::RobPre => {
                std && cfg!(any(feature = "wyrng", feature = "oorandom", feature = "fastrand"))
            }
            F::Inter | F::Pre => {
                (match c.api.tab {
                    0 => true,
                    1 => alloc,
                    _ => std,
                }) && (match c.api.rng {
                    0 => true,
                    1 => cfg!(feature = "wyrng"),
                    2 => cfg!(feature = "oorandom"),
                    _ => cfg!(all(feature = "std", feature = "fastrand")),
                })
            }
            _ => true,
        }
}

/// Executes what it is asked to, until there is nothing more.
pub fn serve() -> i32 {
    let mut out = std::io::stdout();
    for line in std::io::stdin().lock().lines() {
        let Some(j) = line.ok().and_then(|l| J::parse(&l).ok()) else { return 3 };
        let s = Scen::from_json(&j);
        let c = &s.cmps[0];
        let mut r = vec![];
        if available(c) {
            let g = Arc::new(s.graphs[c.g].clone());
            let o = execute(&g, c, Watch { trace: true, ..Watch::default() });
            let a = Answer::of(&o);
            r = vec![
                ("res", J::s(&a.res)),
                ("all", J::s(&a.all.to_string())),
                ("looks", J::s(&a.looks.to_string())),
                ("calls", J::Int(a.calls as i64)),
            ];
        }
        if writeln!(out, "{}", J::obj(r).text()).and_then(|()| out.flush()).is_err() {
            return 3;
        }
    }
    0
}

// ----------------------------------------------------------------- the asking

struct Peer {
    child: Child,
    to: ChildStdin,
    from: BufReader<ChildStdout>,
}
thread_local! {
    static PEERS: RefCell<[Option<Peer>; VARIANTS.len()]> = const { RefCell::new([const { None }; VARIANTS.len()]) };
}

/// `None` if it has not what is needed.
pub fn ask(i: usize, line: &str) -> Result<Option<Answer>, String> {
    let name = VARIANTS[i].name;
    PEERS.with_borrow_mut(|peers| {
        if peers[i].is_none() {
            let me = std::env::current_exe().expect("exe");
            let dir = me.parent().and_then(|d| d.parent()).expect("target directory");
            let bin = dir.join("variants").join(name).join("gsc_sim");
            let mut child = Command::new(&bin)
                .arg("serve")
                .stdin(Stdio::piped())
                .stdout(Stdio::piped())
                .stderr(Stdio::null())
                .spawn()
                .unwrap_or_else(|e| panic!("HARNESS: cannot start {}: {e}", bin.display()));
            let to = child.stdin.take().unwrap();
            let from = BufReader::new(child.stdout.take().unwrap());
            peers[i] = Some(Peer { child, to, from });
        }
        let p = peers[i].as_mut().unwrap();
        let sent = writeln!(p.to, "{line}").and_then(|()| p.to.flush());
        let mut reply = String::new();
        let got = p.from.read_line(&mut reply).unwrap_or(0);
        if sent.is_err() || got == 0 {
            let st = p.child.wait().map_or_else(|e| e.to_string(), |s| s.to_string());
            peers[i] = None;
            return Err(format!(
                "with features \"{}\" the process crashed ({st})",
                VARIANTS[i].features
            ));
        }
        let j = J::parse(reply.trim()).unwrap_or(J::Null);
        if matches!(j.get("res"), J::Null) {
            return Ok(None);
        }
        let u = |k: &str| j.get(k).str().parse().unwrap_or(0);
        Ok(Some(Answer {
            res: j.get("res").str().into(),
            all: u("all"),
            looks: u("looks"),
            calls: j.get("calls").int() as u64,
        }))
    })
}
