pub mod bounded;
pub mod console;
pub mod damage;
pub mod diagnosis;
pub mod faults;
pub mod gateway;
pub mod hex;
pub mod hist;
pub mod len;
pub mod link;
pub mod log;
pub mod mem;
pub mod pool;
pub mod pos;
pub mod router;
pub mod store;
pub mod targets;
pub mod util;
use crate::core::World;
use hist::{Focus, Hist};
use std::sync::OnceLock;

pub const RULE: &str = "one case = one simulated run (plan generated from the run's seed, executed against the real code); it is non-trivial when at least one fault was injected or one operation was refused; distinct = distinct abstract traces (sequence of operation kinds, outcome classes and fault kinds, without the data), counted per world and variant";
pub const REAL: &str = "all of tezos-data-model (lib, encode_derive, decode_derive, estimable_derive) rebuilt from the working tree of /repo in every listed variant";
pub const STUBS: &str = "link, disk, fault-injecting Parser and Target, element sources, allocator accounting, and the reference peer codec are simulator components";
pub const ASSUMPTIONS: [&str; 2] = [
    "the reference codec and the reference cursor state the documented wire format and parser model correctly",
    "types and message sizes are those of the workload (message types in sim/src/types.rs, messages up to a few KB)",
];

/// property -> (world, quick runs, thorough runs)
pub fn jobs(prop: &str) -> Vec<(&'static str, u64, u64)> {
    match prop {
        "C01" => vec![("hist-model", 300_000, 40_000_000)],
        "C02" => vec![("hist-lockstep", 200_000, 40_000_000), ("damage-parsers", 200_000, 20_000_000)],
        "C03" => vec![("hist-refusal", 200_000, 40_000_000)],
        "C04" => vec![("damage-decode", 2_500_000, 60_000_000)],
        "C05" => vec![("log-recovery", 300_000, 20_000_000)],
        "C08" => vec![("lengths", 80_000, 20_000_000)],
        "C09" => vec![("hist-leftover", 150_000, 30_000_000), ("complete-parse", 300_000, 30_000_000)],
        "C10" => vec![("source-faults", 2_000_000, 20_000_000)],
        "C11" => vec![("frame", 1200_000, 30_000_000)],
        "C12" => vec![("memory", 1000_000, 50_000_000)],
        "C13" => vec![("damage-relay", 3_000_000, 60_000_000)],
        "C06" => vec![("link", 300_000, 20_000_000)],
        "C07" => vec![("targets", 250_000, 15_000_000)],
        "C14" => vec![("hist-trace", 150_000, 30_000_000), ("builder-segments", 120_000, 20_000_000)],
        "C15" => vec![("bounded", 1000_000, 50_000_000)],
        "C16" => vec![("hex", 1_200_000, 30_000_000)],
        "C17" => vec![("hist-skip", 120_000, 30_000_000), ("kv-log", 200_000, 40_000_000)],
        "C18" => vec![("position", 1500_000, 50_000_000)],
        "C19" => vec![("gateway-int", 400_000, 30_000_000)],
        "C20" => vec![("gateway-float", 400_000, 30_000_000)],
        "C23" => vec![("gateway-fixed", 400_000, 30_000_000)],
        "C21" => vec![("store", 400_000, 30_000_000)],
        "C24" => vec![("diagnosis", 1_000_000, 50_000_000)],
        "C25" => vec![("console", 1_000_000, 50_000_000)],
        "C26" => vec![("pool", 1_500_000, 60_000_000)],
        "C22" => vec![("router", 1_000_000, 40_000_000)],
        _ => vec![],
    }
}
pub fn all() -> &'static [Box<dyn World + Send>] {
    static W: OnceLock<Vec<Box<dyn World + Send>>> = OnceLock::new();
    W.get_or_init(|| {
        let mut v: Vec<Box<dyn World + Send>> = vec![];
        for f in [Focus::C01, Focus::C02, Focus::C03, Focus::C09, Focus::C14, Focus::C17, Focus::Log] {
            v.push(Box::new(Hist(f)));
        }
        for f in [damage::Focus::C02, damage::Focus::C04, damage::Focus::C13] {
            v.push(Box::new(damage::Damage(f)));
        }
        v.push(Box::new(pos::Position));
        v.push(Box::new(pos::Complete));
        v.push(Box::new(faults::Inject));
        v.push(Box::new(faults::Frame));
        v.push(Box::new(faults::Memory));
        v.push(Box::new(log::Log));
        v.push(Box::new(bounded::Bounded));
        v.push(Box::new(pool::Pool));
        v.push(Box::new(link::Link));
        v.push(Box::new(hex::Hex));
        v.push(Box::new(len::Lengths));
        v.push(Box::new(diagnosis::Diagnosis));
        v.push(Box::new(console::Console));
        v.push(Box::new(router::Router));
        v.push(Box::new(store::Store));
        for f in [gateway::Focus::Int, gateway::Focus::Float, gateway::Focus::Fixed] {
            v.push(Box::new(gateway::Gateway(f)));
        }
        v.push(Box::new(targets::Targets(targets::Focus::C07)));
        v.push(Box::new(targets::Targets(targets::Focus::C14)));
        v
    })
}
