//! Execution context of a simulated run: violations, counters, event digest, coverage signature.
use crate::plan::Plan;
use crate::rng::{Fnv, Rng};
use std::collections::BTreeMap;

#[derive(Clone, Debug, PartialEq)]
pub struct Viol {
    /// stable class: what kind of disagreement (used to keep minimisation on one bug)
    pub class: String,
    pub detail: String,
}
pub type R = Result<(), Viol>;

pub struct Cx {
    pub digest: Fnv,
    /// abstracted trace: what the run did, without concrete data
    pub sig: Fnv,
    pub faults: BTreeMap<&'static str, u64>,
    pub counts: BTreeMap<&'static str, u64>,
    pub sim_ticks: u64,
    pub events: u64,
    pub nontrivial: bool,
    pub log: Option<Vec<String>>,
    pub thorough: bool,
}
impl Cx {
    pub fn new(trace: bool) -> Self {
        Cx {
            digest: Fnv::new(),
            sig: Fnv::new(),
            faults: BTreeMap::new(),
            counts: BTreeMap::new(),
            sim_ticks: 0,
            events: 0,
            nontrivial: false,
            log: if trace { Some(vec![]) } else { None },
            thorough: false,
        }
    }
    pub fn fault(&mut self, k: &'static str) {
        *self.faults.entry(k).or_insert(0) += 1;
        self.nontrivial = true;
    }
    pub fn count(&mut self, k: &'static str, n: u64) {
        *self.counts.entry(k).or_insert(0) += n;
    }
    /// one abstract event (goes to the signature and the digest)
    pub fn ev(&mut self, kind: u64, outcome: u64) {
        self.events += 1;
        self.sim_ticks += 1;
        self.sig.u(kind << 8 | outcome);
        self.digest.u(kind << 8 | outcome);
    }
    pub fn bytes(&mut self, b: &[u8]) {
        self.digest.s(b);
    }
    pub fn say(&mut self, f: impl FnOnce() -> String) {
        if let Some(l) = self.log.as_mut() {
            let s = f();
            l.push(s);
        }
    }
}
pub fn bucket(n: usize) -> u64 {
    match n {
        0..=4 => n as u64,
        _ => 4 + (64 - (n as u64).leading_zeros()) as u64,
    }
}
pub fn viol<T>(class: &str, detail: impl Into<String>) -> Result<T, Viol> {
    Err(Viol { class: class.to_string(), detail: detail.into() })
}
#[macro_export]
macro_rules! ensure {
    ($c:expr, $class:expr, $($f:tt)*) => {
        if !($c) { return Err($crate::core::Viol { class: $class.to_string(), detail: format!($($f)*) }); }
    };
}

pub trait World: Sync {
    fn name(&self) -> &'static str;
    /// a plan from the seeded generator
    fn gen(&self, r: &mut Rng, thorough: bool) -> Plan;
    fn exec(&self, p: &Plan, cx: &mut Cx) -> R;
}

// ---- panics -------------------------------------------------------------------------------
use std::cell::RefCell;
use std::panic::{catch_unwind, AssertUnwindSafe};
thread_local! {
    static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}
pub fn install_hook() {
    std::panic::set_hook(Box::new(|i| {
        let msg = if let Some(s) = i.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = i.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "<payload>".into()
        };
        let loc = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        LAST_PANIC.with(|p| *p.borrow_mut() = format!("{msg} at {loc}"));
    }));
}
pub enum Caught {
    /// a simulator-originated unwind (crash, budget): payload
    Sim(SimUnwind),
    Panic(String),
}
#[derive(Clone, Debug, PartialEq)]
pub enum SimUnwind {
    /// the process running the writer died here
    Crash,
    /// the decoder performed more parser operations than the bound allows
    Budget,
    /// an element source failed
    Source,
}
/// run code under test; a panic is data
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, Caught> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(p) => match p.downcast_ref::<SimUnwind>() {
            Some(u) => Err(Caught::Sim(u.clone())),
            None => Err(Caught::Panic(LAST_PANIC.with(|p| p.borrow().clone()))),
        },
    }
}
/// as `guarded`, but any panic is a violation
pub fn no_panic<T>(what: &str, f: impl FnOnce() -> T) -> Result<T, Viol> {
    match guarded(f) {
        Ok(v) => Ok(v),
        Err(Caught::Sim(SimUnwind::Budget)) => viol("no-termination", format!("{what}: more parser operations than the bound allows")),
        Err(Caught::Sim(u)) => viol("harness", format!("{what}: unexpected simulator unwind {u:?}")),
        Err(Caught::Panic(m)) => viol("panic", format!("{what}: panicked: {m}")),
    }
}
