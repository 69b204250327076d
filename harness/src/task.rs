//! Tasks: one harness with fixed sizes; explored symbolically, replayed natively.
use crate::eng::{self, Abort, Stats, Strategy};
use crate::val::{native, native_reset, panic_msg, Vacuous};
use ark_bls12_381::Fr;
use ark_ec::pairing::Pairing;
use std::collections::{BTreeMap, BTreeSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::time::{Duration, Instant};

/// a pairing whose scalars speak the harness vocabulary
pub trait Be: Pairing<ScalarField: crate::val::Val> {}
impl<T: Pairing<ScalarField: crate::val::Val>> Be for T {}

pub struct Task {
    pub name: String,
    pub thorough: bool,
    pub sym: Box<dyn Fn() + Send + Sync>,
    pub nat: Box<dyn Fn() + Send + Sync>,
}
pub struct Prop {
    pub id: &'static str,
    pub functions: &'static [&'static str],
    pub bounds: &'static str,
    pub assumptions: &'static [&'static str],
    pub tasks: Vec<Task>,
}
/// task!(list, quick|thorough, "name", harness(args..))
#[macro_export]
macro_rules! task {
    ($v:expr, $tier:ident, $name:expr, [$rows:expr, $seed:expr, $picks:expr] $f:ident ( $($a:expr),* )) => {
        $v.push($crate::task::Task {
            name: $name.to_string(),
            thorough: stringify!($tier) == "thorough",
            sym: Box::new(move || $crate::val::sparse($rows, $seed, $picks, || $f::<$crate::grp::SymPairing>($($a),*))),
            nat: Box::new(move || $crate::val::sparse($rows, $seed, $picks, || $f::<ark_bls12_381::Bls12_381>($($a),*))),
        })
    };
    ($v:expr, $tier:ident, $name:expr, $f:ident ( $($a:expr),* )) => {
        $v.push($crate::task::Task {
            name: $name.to_string(),
            thorough: stringify!($tier) == "thorough",
            sym: Box::new(move || $f::<$crate::grp::SymPairing>($($a),*)),
            nat: Box::new(move || $f::<ark_bls12_381::Bls12_381>($($a),*)),
        })
    };
}

#[derive(Clone, Debug, Default)]
pub struct Failure {
    pub label: String,
    pub model: BTreeMap<String, Fr>,
    pub native: Vec<String>,
    pub reproduced: bool,
}
#[derive(Clone, Debug, Default)]
pub struct Outcome {
    pub stats: Stats,
    pub failures: Vec<Failure>,
    pub errors: Vec<String>,
    pub witnesses: u64,
    pub native_checks: u64,
    pub sample: String,
    pub wall: f64,
}

/// native run with given values: (failed assertions, assertions evaluated, assumptions held)
pub fn run_native(t: &Task, model: &BTreeMap<String, Fr>) -> (Vec<String>, u64, bool) {
    native_reset(model.clone());
    let r = catch_unwind(AssertUnwindSafe(|| (t.nat)()));
    let mut extra = vec![];
    if let Err(p) = r {
        if !p.is::<Vacuous>() {
            extra.push(format!("panic: {}", panic_msg(&p)));
        }
    }
    native(|n| {
        let mut f = n.fails.clone();
        if !n.vacuous {
            f.extend(extra);
        }
        (f, n.checked, !n.vacuous)
    })
}

/// one symbolic execution, on a thread of its own: hash maps start from the same keys every time,
/// so that re-executing a path meets the same decisions in the same order
fn run_sym(t: &Task) -> std::thread::Result<()> {
    std::thread::scope(|s| {
        std::thread::Builder::new().stack_size(1 << 30).spawn_scoped(s, || (t.sym)()).unwrap().join()
    })
}

/// turn a strategy into values: challenge-dependent ones by running the harness on constants
/// and reading off the real transcript challenges until nothing changes
fn concretise(t: &Task, s: &Strategy) -> BTreeMap<String, Fr> {
    let mut vals = s.values(&[]);
    if !s.challenge_dependent() {
        return vals;
    }
    let stats = eng::with(|e| e.stats.clone());
    for _ in 0..24 {
        eng::with(|e| {
            e.reset_path();
            e.model = Some(vals.clone());
        });
        let _ = run_sym(t);
        let log = eng::with(|e| e.chal_log.clone());
        let nv = s.values(&log);
        if nv == vals {
            break;
        }
        vals = nv;
    }
    eng::with(|e| {
        e.model = None;
        e.stats = stats;
    });
    vals
}

pub fn explore(t: &Task, budget: Duration, seed: u64) -> Outcome {
    let t0 = Instant::now();
    let mut out = Outcome::default();
    eng::with(|e| {
        e.seed = seed;
        e.reset_all();
        e.deadline = Some(t0 + budget);
    });
    let mut seen: BTreeSet<String> = BTreeSet::new();
    loop {
        let r = run_sym(t);
        let r: Result<(), Abort> = match r {
            Ok(()) => eng::with(|e| e.flush()),
            Err(p) => match p.downcast::<Abort>() {
                Ok(a) => {
                    // goals collected before an assumption cut the path still stand
                    match *a {
                        Abort::Infeasible => match eng::with(|e| if e.goals_pending() { e.flush() } else { Ok(()) }) {
                            Err(x) => Err(x),
                            Ok(()) => Err(Abort::Infeasible),
                        },
                        x => Err(x),
                    }
                }
                Err(p) => {
                    let m = panic_msg(&p);
                    eng::with(|e| Err(e.fail_here(&format!("panic: {}", m))))
                }
            },
        };
        match r {
            Ok(()) => {
                eng::with(|e| e.stats.paths += 1);
                if out.witnesses < 3 && out.errors.is_empty() && eng::with(|e| e.hit || !e.conditional) {
                    if let Some(s) = eng::with(|e| e.find_model(None)) {
                        let vals = concretise(t, &s);
                        let (fails, checked, held) = run_native(t, &vals);
                        if !fails.is_empty() {
                            let label = format!("native witness: {}", fails[0]);
                            if seen.insert(label.clone()) {
                                out.failures.push(Failure { label, model: vals, native: fails, reproduced: true });
                            }
                        } else if held {
                            out.witnesses += 1;
                            out.native_checks += checked;
                            if out.sample.is_empty() {
                                out.sample = vals
                                    .iter()
                                    .take(6)
                                    .map(|(k, v)| format!("{}={}", k, short(v)))
                                    .collect::<Vec<_>>()
                                    .join(" ");
                            }
                        }
                    }
                }
            }
            Err(Abort::Infeasible) => eng::with(|e| e.stats.infeasible += 1),
            Err(Abort::Fail(label, s)) => {
                eng::with(|e| e.stats.paths += 1);
                if seen.insert(label.clone()) {
                    let (mut vals, mut fails) = (BTreeMap::new(), vec![]);
                    for st in std::iter::once(&*s).chain(&s.alts) {
                        vals = concretise(t, st);
                        // what failed natively before a later assumption did not hold is a violation as well
                        fails = run_native(t, &vals).0;
                        if !fails.is_empty() {
                            break;
                        }
                    }
                    let reproduced = !fails.is_empty();
                    out.failures.push(Failure { label, model: vals, native: fails, reproduced });
                }
            }
            Err(Abort::Budget) => {
                out.errors.push("time budget exhausted".into());
                break;
            }
            Err(Abort::Unsupported(m)) => out.errors.push(format!("unsupported: {}", m)),
            Err(Abort::Inconclusive(m)) => out.errors.push(format!("inconclusive: {}", m)),
        }
        if out.failures.len() >= 6 || out.errors.len() >= 6 {
            break;
        }
        if !eng::with(|e| e.next_path()) {
            break;
        }
    }
    out.stats = eng::with(|e| e.stats.clone());
    if out.failures.is_empty() && out.errors.is_empty() && eng::with(|e| e.conditional) && out.stats.reached == 0 {
        out.errors.push("the hypotheses are never satisfied".into());
    }
    if out.failures.is_empty() && out.errors.is_empty() && out.witnesses == 0 {
        out.errors.push("no reachable path could be witnessed natively".into());
    }
    out.wall = t0.elapsed().as_secs_f64();
    out
}
pub fn short(v: &Fr) -> String {
    use ark_ff::PrimeField;
    let b: num_bigint::BigUint = v.into_bigint().into();
    let s = b.to_string();
    if s.len() > 24 {
        format!("{}..", &s[..12])
    } else {
        s
    }
}
