//! Deterministic simulator and fault injector for tezos-data-model: supervisor, workers, replay.
mod core;
mod plan;
mod refcodec;
mod rng;
mod simparser;
mod simtarget;
mod types;
mod world;

use crate::core::*;
use crate::plan::{esc, shrink, Json, Plan};
use crate::rng::Rng;
use std::collections::{BTreeMap, HashSet};
use std::io::Write;
use std::process::{Child, Command, Stdio};
use std::time::{Duration, Instant};

#[global_allocator]
static ALLOC: world::mem::Counting = world::mem::Counting;

extern "C" {
    fn setrlimit(r: i32, l: *const [u64; 2]) -> i32;
    fn dup2(a: i32, b: i32) -> i32;
}
fn mute_stderr() {
    use std::os::fd::AsRawFd;
    if let Ok(f) = std::fs::OpenOptions::new().write(true).open("/dev/null") {
        unsafe {
            dup2(f.as_raw_fd(), 2);
        }
    }
}
fn limits(gb: u64) {
    unsafe {
        let l = [gb << 30, gb << 30];
        setrlimit(9, &l); // RLIMIT_AS
        setrlimit(4, &[0, 0]); // RLIMIT_CORE
    }
}
/// run on a thread with a fixed, generous stack
fn on_big_stack<T: Send>(f: impl FnOnce() -> T + Send) -> T {
    std::thread::scope(|s| std::thread::Builder::new().stack_size(512 << 20).spawn_scoped(s, f).unwrap().join().unwrap())
}

struct Opts(BTreeMap<String, String>);
impl Opts {
    fn parse(a: &[String]) -> (Vec<String>, Opts) {
        let mut pos = vec![];
        let mut m = BTreeMap::new();
        let mut i = 0;
        while i < a.len() {
            if let Some(k) = a[i].strip_prefix("--") {
                m.insert(k.to_string(), a.get(i + 1).cloned().unwrap_or_default());
                i += 2;
            } else {
                pos.push(a[i].clone());
                i += 1;
            }
        }
        (pos, Opts(m))
    }
    fn s(&self, k: &str) -> &str {
        self.0.get(k).map(|s| s.as_str()).unwrap_or("")
    }
    fn n(&self, k: &str, d: u64) -> u64 {
        self.s(k).parse().unwrap_or(d)
    }
}

fn find_world(name: &str) -> Option<&'static dyn World> {
    world::all().iter().map(|b| &**b as &'static dyn World).find(|w| w.name() == name)
}
fn run_plan(w: &dyn World, p: &Plan, trace: bool, thorough: bool) -> (Cx, R) {
    let mut cx = Cx::new(trace);
    cx.thorough = thorough;
    let r = match guarded(|| w.exec(p, &mut cx)) {
        Ok(r) => r,
        // these files run no code of the crate under test
        Err(Caught::Panic(m)) if ["refcodec.rs:", "plan.rs:", "rng.rs:"].iter().any(|f| m.contains(&format!("at src/{f}"))) => {
            viol("harness", format!("the simulator itself panicked: {m}"))
        }
        Err(Caught::Panic(m)) => viol("panic", format!("uncaught panic: {m}")),
        Err(Caught::Sim(u)) => viol("harness", format!("uncaught simulator unwind {u:?}")),
    };
    if let Err(v) = &r {
        cx.digest.s(v.class.as_bytes());
        cx.digest.s(v.detail.as_bytes());
    }
    (cx, r)
}

/// known findings: lines `finding: property=<id> class=<class> match=<text>`
fn known_for(path: &str, prop: &str) -> Vec<(String, String)> {
    let t = std::fs::read_to_string(path).unwrap_or_default();
    t.lines()
        .filter_map(|l| l.strip_prefix("finding: property="))
        .filter_map(|l| {
            let (id, rest) = l.split_once(' ')?;
            let (c, m) = rest.strip_prefix("class=")?.split_once(" match=")?;
            (id == prop).then(|| (c.to_string(), m.trim().to_string()))
        })
        .collect()
}

// ---- worker ------------------------------------------------------------------------------

fn worker(o: &Opts) -> i32 {
    limits(12);
    let w = find_world(o.s("world")).expect("world");
    let seed = o.n("seed", 1);
    let (lane, lanes, runs) = (o.n("lane", 0), o.n("lanes", 1), o.n("runs", 0));
    let thorough = o.s("tier") == "thorough";
    let until = Instant::now() + Duration::from_secs(o.n("secs", 60));
    let known = known_for(o.s("known"), o.s("prop"));
    let stream = format!("{}/{}", w.name(), o.s("variant"));
    let status = std::fs::OpenOptions::new().write(true).create(true).truncate(true).open(o.s("status")).unwrap();
    let out = o.s("out").to_string();
    install_hook();
    mute_stderr();
    on_big_stack(move || {
        use std::os::unix::fs::FileExt;
        let mut faults: BTreeMap<&'static str, u64> = BTreeMap::new();
        let mut counts: BTreeMap<&'static str, u64> = BTreeMap::new();
        let (mut n, mut ticks, mut events, mut nontriv, mut recheck) = (0u64, 0u64, 0u64, 0u64, 0u64);
        let mut sigs: HashSet<u64> = HashSet::new();
        let mut digest = rng::Fnv::new();
        let mut sample = String::new();
        let mut bad: Option<(u64, Viol, u64, Plan)> = None;
        let mut nknown: BTreeMap<usize, u64> = BTreeMap::new();
        let mut i = lane;
        while i < runs {
            if n % 64 == 0 && Instant::now() > until {
                break;
            }
            let _ = status.write_at(&i.to_le_bytes(), 0);
            let p = w.gen(&mut Rng::for_run(seed, &stream, i), thorough);
            let (cx, r) = run_plan(w, &p, false, thorough);
            n += 1;
            if n % 400 == 1 {
                // the same plan must give the very same execution
                let (c2, r2) = run_plan(w, &p, false, thorough);
                recheck += 1;
                if c2.digest.0 != cx.digest.0 || r2.is_err() != r.is_err() {
                    bad = Some((i, Viol { class: "nondeterminism".into(), detail: format!("{} {r:?} / {r2:?}", w.name()) }, 0, p));
                    break;
                }
            }
            digest.u(cx.digest.0);
            ticks += cx.sim_ticks;
            events += cx.events;
            for (k, v) in &cx.faults {
                *faults.entry(k).or_insert(0) += v;
            }
            for (k, v) in &cx.counts {
                *counts.entry(k).or_insert(0) += v;
            }
            if cx.nontrivial {
                nontriv += 1;
                if sigs.len() < 3_000_000 {
                    sigs.insert(cx.sig.0);
                }
                if sample.is_empty() && lane == 0 && n > 3 && p.to_json().len() < 3000 {
                    let (c3, _) = run_plan(w, &p, true, thorough);
                    let log: Vec<String> =
                        c3.log.unwrap_or_default().iter().take(12).map(|l| format!("\"{}\"", esc(&l.chars().take(160).collect::<String>()))).collect();
                    sample = format!("{{\"run\":{i},\"plan\":{},\"trace\":[{}]}}", p.to_json(), log.join(","));
                }
            }
            if let Err(v) = r {
                if let Some(k) = known.iter().position(|(c, m)| *c == v.class && v.detail.contains(m)) {
                    *nknown.entry(k).or_insert(0) += 1;
                } else {
                    bad = Some((i, v, cx.digest.0, p));
                    break;
                }
            }
            i += lanes;
        }
        let mut s = String::from("{");
        let map = |m: &BTreeMap<&'static str, u64>| {
            m.iter().map(|(k, v)| format!("\"{}\":{v}", esc(k))).collect::<Vec<_>>().join(",")
        };
        s += &format!(
            "\"runs\":{n},\"ticks\":{ticks},\"events\":{events},\"nontrivial\":{nontriv},\"recheck\":{recheck},\"faults\":{{{}}},\"counts\":{{{}}},\"digest\":\"{:016x}\",\"sample\":{}",
            map(&faults),
            map(&counts),
            digest.0,
            if sample.is_empty() { "null".to_string() } else { sample }
        );
        s += &format!(",\"known\":[{}]", nknown.iter().map(|(k, v)| format!("[{k},{v}]")).collect::<Vec<_>>().join(","));
        if let Some((i, v, d, p)) = bad {
            s += &format!(
                ",\"bad\":{{\"index\":{i},\"class\":\"{}\",\"detail\":\"{}\",\"digest\":\"{d:016x}\",\"plan\":{}}}",
                esc(&v.class),
                esc(&v.detail),
                p.to_json()
            );
        }
        s.push('}');
        std::fs::write(&out, s).unwrap();
        let mut b = Vec::with_capacity(sigs.len() * 8);
        for x in sigs {
            b.extend(x.to_le_bytes());
        }
        std::fs::write(format!("{out}.sig"), b).unwrap();
    });
    0
}

// ---- replay and minimisation -------------------------------------------------------------

struct Rep {
    prop: String,
    variant: String,
    class: String,
    detail: String,
    digest: String,
    seed: i64,
    index: i64,
    thorough: bool,
    plan: Plan,
}
impl Rep {
    fn load(path: &str) -> Option<Rep> {
        let j = Json::parse(&std::fs::read_to_string(path).ok()?)?;
        let s = |k: &str| j.get(k).and_then(|x| x.str()).unwrap_or("").to_string();
        Some(Rep {
            prop: s("property"),
            variant: s("variant"),
            class: s("class"),
            detail: s("detail"),
            digest: s("digest"),
            seed: j.get("seed").and_then(|x| x.int()).unwrap_or(0),
            index: j.get("run").and_then(|x| x.int()).unwrap_or(0),
            thorough: s("tier") == "thorough",
            plan: Plan::from_json(j.get("plan")?)?,
        })
    }
    fn save(&self, path: &str) {
        let s = format!(
            "{{\"property\":\"{}\",\"variant\":\"{}\",\"class\":\"{}\",\"detail\":\"{}\",\"digest\":\"{}\",\"seed\":{},\"run\":{},\"tier\":\"{}\",\"plan\":{}}}\n",
            self.prop,
            self.variant,
            esc(&self.class),
            esc(&self.detail),
            self.digest,
            self.seed,
            self.index,
            if self.thorough { "thorough" } else { "quick" },
            self.plan.to_json()
        );
        std::fs::write(path, s).unwrap();
    }
}
/// exit 1: the recorded violation was reproduced; 0: no violation; 3: another one
fn replay(path: &str, o: &Opts) -> i32 {
    let Some(r) = Rep::load(path) else {
        println!("cannot read {path}");
        return 2;
    };
    let Some(w) = find_world(&r.plan.world) else {
        println!("unknown world {}", r.plan.world);
        return 2;
    };
    limits(12);
    install_hook();
    mute_stderr();
    let quiet = o.s("quiet") == "1";
    if !quiet {
        println!("property {} variant {} world {} ({}): {}", r.prop, r.variant, r.plan.world, r.class, r.detail);
        let _ = std::io::stdout().flush();
    }
    on_big_stack(move || {
        let (cx, res) = run_plan(w, &r.plan, !quiet, r.thorough);
        if !quiet {
            for l in cx.log.unwrap_or_default() {
                println!("  {l}");
            }
        }
        match res {
            Ok(()) => {
                println!("no violation");
                0
            }
            Err(v) => {
                let d = format!("{:016x}", cx.digest.0);
                println!("{}: {}", v.class, v.detail);
                if !quiet && !r.digest.is_empty() {
                    println!("execution digest {d} ({})", if d == r.digest { "identical to the recorded one" } else { "DIFFERS from the recorded one" });
                }
                if v.class == r.class {
                    1
                } else {
                    3
                }
            }
        }
    })
}
fn wait_for(c: &mut Child, secs: u64) -> Option<std::process::ExitStatus> {
    let t = Instant::now();
    loop {
        if let Ok(Some(s)) = c.try_wait() {
            return Some(s);
        }
        if t.elapsed() > Duration::from_secs(secs) {
            let _ = c.kill();
            let _ = c.wait();
            return None;
        }
        std::thread::sleep(Duration::from_millis(5));
    }
}
/// what replaying does, from the outside
fn outcome(bin: &str, path: &str, secs: u64) -> &'static str {
    let mut c = Command::new(bin).args(["replay", path, "--quiet", "1"]).stdout(Stdio::null()).stderr(Stdio::null()).spawn().unwrap();
    match wait_for(&mut c, secs) {
        None => "hang",
        Some(s) => match s.code() {
            Some(0) => "ok",
            Some(1) | Some(3) => "violation",
            Some(2) => "error",
            _ => "abort",
        },
    }
}
fn minimise(input: &str, output: &str) -> i32 {
    let Some(mut r) = Rep::load(input) else { return 2 };
    let Some(w) = find_world(&r.plan.world) else { return 2 };
    limits(12);
    install_hook();
    mute_stderr();
    let class = r.class.clone();
    let th = r.thorough;
    let until = Instant::now() + Duration::from_secs(45);
    if class == "abort" || class == "hang" {
        let me = std::env::current_exe().unwrap();
        let me = me.to_str().unwrap().to_string();
        let tmp = format!("{output}.try");
        let base = Rep { plan: Plan::default(), ..Rep::load(input).unwrap() };
        let (p, _) = shrink(&r.plan, if class == "hang" { 12 } else { 250 }, |c| {
            if Instant::now() > until {
                return false;
            }
            let t = Rep { plan: c.clone(), prop: base.prop.clone(), variant: base.variant.clone(), class: class.clone(), detail: String::new(), digest: String::new(), ..base_copy(&base) };
            t.save(&tmp);
            outcome(&me, &tmp, 3) == class
        });
        let _ = std::fs::remove_file(&tmp);
        r.plan = p;
    } else {
        let p0 = r.plan.clone();
        let (p, v, d) = on_big_stack(|| {
            let (p, _) = shrink(&p0, 20_000, |c| {
                if Instant::now() > until {
                    return false;
                }
                matches!(run_plan(w, c, false, th).1, Err(v) if v.class == class)
            });
            let (cx, res) = run_plan(w, &p, false, th);
            (p, res.err(), cx.digest.0)
        });
        if let Some(v) = v {
            r.plan = p;
            r.detail = v.detail;
            r.digest = format!("{d:016x}");
        }
    }
    r.save(output);
    0
}
fn base_copy(b: &Rep) -> Rep {
    Rep {
        prop: String::new(),
        variant: String::new(),
        class: String::new(),
        detail: String::new(),
        digest: String::new(),
        seed: b.seed,
        index: b.index,
        thorough: b.thorough,
        plan: Plan::default(),
    }
}

// ---- supervisor --------------------------------------------------------------------------

struct Lane {
    child: Child,
    status: String,
    out: String,
    last: u64,
    since: Instant,
    variant: String,
    bin: String,
    world: String,
}
fn check(prop: &str, o: &Opts) -> i32 {
    let t0 = Instant::now();
    let tier = if o.s("tier") == "thorough" { "thorough" } else { "quick" };
    let thorough = tier == "thorough";
    let seed = o.n("seed", 1);
    let root = if o.s("root").is_empty() { "/verif".to_string() } else { o.s("root").to_string() };
    let bins: Vec<(String, String)> =
        o.s("bins").split(',').filter_map(|x| x.split_once('=').map(|(a, b)| (a.to_string(), b.to_string()))).collect();
    let jobs = world::jobs(prop);
    if jobs.is_empty() {
        println!("unknown property {prop}");
        return 2;
    }
    let known_path = format!("{root}/known-findings.txt");
    let known = known_for(&known_path, prop);
    let work = format!("{root}/work/{prop}.{}", std::process::id());
    std::fs::create_dir_all(&work).unwrap();
    std::fs::create_dir_all(format!("{root}/replays")).unwrap();
    std::fs::create_dir_all(format!("{root}/evidence")).unwrap();
    let lanes = 8u64;
    let cap = o.n("secs", if thorough { 5400 } else { 300 });
    let scale = o.n("scale", 100);
    let njobs = (jobs.len() * bins.len()).max(1) as u64;
    let mut faults: BTreeMap<String, i64> = BTreeMap::new();
    let mut counts: BTreeMap<String, i64> = BTreeMap::new();
    let mut per_world: Vec<String> = vec![];
    let (mut runs_total, mut ticks, mut events, mut nontriv, mut recheck) = (0i64, 0i64, 0i64, 0i64, 0i64);
    let mut distinct = 0usize;
    let mut samples: Vec<String> = vec![];
    let mut known_hits: BTreeMap<usize, i64> = BTreeMap::new();
    let mut found: Option<Rep> = None;
    let mut found_bin = String::new();
    let mut broken: Option<String> = None;
    'all: for (variant, bin) in &bins {
        for (jn, job) in jobs.iter().enumerate() {
            let runs = (if thorough { job.2 } else { job.1 }) * scale / 100;
            let mut ls: Vec<Lane> = vec![];
            let tw = Instant::now();
            for lane in 0..lanes {
                let status = format!("{work}/{variant}.{jn}.{lane}.st");
                let out = format!("{work}/{variant}.{jn}.{lane}.out");
                let child = Command::new(bin)
                    .args(["worker", "--world", job.0, "--prop", prop, "--variant", variant, "--tier", tier, "--known", &known_path])
                    .args(["--seed", &seed.to_string(), "--lane", &lane.to_string(), "--lanes", &lanes.to_string()])
                    .args(["--runs", &runs.to_string(), "--secs", &(cap / njobs).max(2).to_string(), "--status", &status, "--out", &out])
                    .stdout(Stdio::null())
                    .stderr(Stdio::null())
                    .spawn()
                    .unwrap();
                ls.push(Lane { child, status, out, last: u64::MAX, since: Instant::now(), variant: variant.clone(), bin: bin.clone(), world: job.0.to_string() });
            }
            let mut sigset: HashSet<u64> = HashSet::new();
            let mut wruns = 0i64;
            let mut cands: Vec<(u64, Rep)> = vec![];
            while !ls.is_empty() {
                std::thread::sleep(Duration::from_millis(20));
                let mut k = 0;
                while k < ls.len() {
                    let l = &mut ls[k];
                    let cur = std::fs::read(&l.status).ok().filter(|b| b.len() == 8).map(|b| u64::from_le_bytes(b.try_into().unwrap()));
                    let done = l.child.try_wait().ok().flatten();
                    if done.is_none() {
                        if cur.unwrap_or(u64::MAX) != l.last {
                            l.last = cur.unwrap_or(u64::MAX);
                            l.since = Instant::now();
                        }
                        if l.since.elapsed() < Duration::from_secs(25) {
                            k += 1;
                            continue;
                        }
                        let _ = l.child.kill();
                        let _ = l.child.wait();
                    }
                    let l = ls.remove(k);
                    let ok = done.map_or(false, |s| s.success());
                    if ok {
                        let j = match std::fs::read_to_string(&l.out).ok().and_then(|s| Json::parse(&s)) {
                            Some(j) => j,
                            None => {
                                broken = Some(format!("worker of {} wrote no readable result", l.world));
                                continue;
                            }
                        };
                        let int = |k: &str| j.get(k).and_then(|x| x.int()).unwrap_or(0);
                        wruns += int("runs");
                        ticks += int("ticks");
                        events += int("events");
                        nontriv += int("nontrivial");
                        recheck += int("recheck");
                        for (key, m) in [("faults", &mut faults), ("counts", &mut counts)] {
                            if let Some(Json::Obj(v)) = j.get(key) {
                                for (k, x) in v {
                                    *m.entry(k.clone()).or_insert(0) += x.int().unwrap_or(0);
                                }
                            }
                        }
                        if let Some(Json::Arr(v)) = j.get("known") {
                            for e in v {
                                if let Some([a, b]) = e.arr() {
                                    *known_hits.entry(a.int().unwrap_or(0) as usize).or_insert(0) += b.int().unwrap_or(0);
                                }
                            }
                        }
                        if let Some(s) = std::fs::read_to_string(&l.out).ok().and_then(|t| {
                            let a = t.find("\"sample\":{")? + 9;
                            let b = t.rfind(",\"known\":")?;
                            Some(t[a..b].to_string())
                        }) {
                            if samples.len() < 6 {
                                samples.push(format!("{{\"variant\":\"{}\",\"world\":\"{}\",\"case\":{s}}}", l.variant, l.world));
                            }
                        }
                        if let Ok(b) = std::fs::read(format!("{}.sig", l.out)) {
                            sigset.extend(b.chunks_exact(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())));
                        }
                        if let Some(b) = j.get("bad") {
                            let s = |k: &str| b.get(k).and_then(|x| x.str()).unwrap_or("").to_string();
                            let idx = b.get("index").and_then(|x| x.int()).unwrap_or(0);
                            if let Some(plan) = b.get("plan").and_then(Plan::from_json) {
                                cands.push((
                                    idx as u64,
                                    Rep { prop: prop.into(), variant: l.variant.clone(), class: s("class"), detail: s("detail"), digest: s("digest"), seed: seed as i64, index: idx, thorough, plan },
                                ));
                            }
                        }
                    } else {
                        // the worker died or hung in the run named by the status file
                        let idx = cur.unwrap_or(0);
                        let w = find_world(&l.world).unwrap();
                        let _ = w;
                        let path = format!("{work}/suspect.json");
                        let st = Command::new(&l.bin)
                            .args(["genplan", &l.world, "--variant", &l.variant, "--prop", prop, "--seed", &seed.to_string(), "--index", &idx.to_string(), "--tier", tier, "--out", &path])
                            .stderr(Stdio::null())
                            .status();
                        let how = if done.is_none() { "hang" } else { "abort" };
                        if st.map_or(false, |s| s.success()) {
                            let got = outcome(&l.bin, &path, 30);
                            if got == "hang" || got == "abort" {
                                let mut r = Rep::load(&path).unwrap();
                                r.class = got.into();
                                r.detail = format!("the simulated process {}", if got == "hang" { "did not finish within 30 s" } else { "was killed (memory fault, abort, stack or memory exhaustion)" });
                                cands.push((idx, r));
                            } else {
                                broken = Some(format!("worker of {} ended by {how} at run {idx}, not reproduced ({got})", l.world));
                            }
                        } else {
                            broken = Some(format!("worker of {} ended by {how} at run {idx}", l.world));
                        }
                    }
                }
            }
            runs_total += wruns;
            distinct += sigset.len();
            per_world.push(format!(
                "{{\"variant\":\"{variant}\",\"world\":\"{}\",\"runs\":{wruns},\"distinct_signatures\":{},\"wall_s\":{:.2}}}",
                job.0,
                sigset.len(),
                tw.elapsed().as_secs_f64()
            ));
            if let Some((_, r)) = cands.into_iter().min_by_key(|c| c.0) {
                found = Some(r);
                found_bin = bin.clone();
                break 'all;
            }
            if broken.is_some() {
                break 'all;
            }
        }
    }
    let explored = t0.elapsed().as_secs_f64();
    for (i, (c, m)) in known.iter().enumerate() {
        println!("KNOWN-FINDING: property={prop} {c}: {m} (met in {} runs)", known_hits.get(&i).copied().unwrap_or(0));
    }
    let mut code = 0;
    let mut nviol = 0;
    if let Some(r) = found {
        if r.class == "nondeterminism" || r.class == "harness" {
            broken = Some(format!("{}: {}", r.class, r.detail));
        } else {
            let raw = format!("{work}/raw.json");
            r.save(&raw);
            let name = format!("{root}/replays/{prop}-{}-{seed}-{}.json", r.variant, r.index);
            let mut c = Command::new(&found_bin).args(["minimise", &raw, &name]).stderr(Stdio::null()).stdout(Stdio::null()).spawn().unwrap();
            let ok = wait_for(&mut c, 90).map_or(false, |s| s.success());
            if !ok || Rep::load(&name).is_none() {
                r.save(&name);
            }
            let m = Rep::load(&name).unwrap();
            println!("{} [{}] {}: {}", prop, m.variant, m.class, m.detail);
            println!("VIOLATION property={prop} replay={name}");
            nviol = 1;
            code = 1;
        }
    }
    if let Some(b) = &broken {
        println!("check error: {b}");
        code = 2;
    }
    let wall = t0.elapsed().as_secs_f64();
    let map = |m: &BTreeMap<String, i64>| m.iter().map(|(k, v)| format!("\"{}\":{v}", esc(k))).collect::<Vec<_>>().join(",");
    if samples.is_empty() {
        samples.push("\"none collected\"".into());
    }
    let ev = format!(
        "{{\"property\":\"{prop}\",\"tier\":\"{tier}\",\"seed\":{seed},\"level\":\"exploration\",\"coverage\":{{\"evaluations\":{runs_total},\"distinct_nontrivial\":{distinct},\"rule\":\"{}\",\"nontrivial_runs\":{nontriv},\"simulated_runs_per_hour\":{:.0},\"simulated_time_ticks\":{ticks},\"simulated_events\":{events},\"faults_injected\":{{{}}},\"counters\":{{{}}},\"determinism_reexecutions\":{recheck},\"worlds\":[{}],\"real_code\":\"{}\",\"stubs\":\"{}\",\"samples\":[{}]}},\"assumptions\":[{}],\"wall_s\":{wall:.2},\"violations\":{nviol}}}\n",
        esc(world::RULE),
        runs_total as f64 / explored.max(0.001) * 3600.0,
        map(&faults),
        map(&counts),
        per_world.join(","),
        esc(world::REAL),
        esc(world::STUBS),
        samples.join(","),
        world::ASSUMPTIONS.iter().map(|a| format!("\"{}\"", esc(a))).collect::<Vec<_>>().join(",")
    );
    std::fs::write(format!("{root}/evidence/{prop}.json"), ev).unwrap();
    let _ = std::fs::remove_dir_all(&work);
    println!(
        "{prop} {tier}: {runs_total} simulated runs, {nontriv} non-trivial, {distinct} distinct signatures, {} faults injected, {wall:.1} s: {}",
        faults.values().sum::<i64>(),
        if code == 0 { "held" } else if code == 1 { "VIOLATED" } else { "check error" }
    );
    code
}

fn main() {
    let a: Vec<String> = std::env::args().skip(1).collect();
    let (pos, o) = Opts::parse(&a);
    let code = match pos.first().map(|s| s.as_str()) {
        Some("worker") => worker(&o),
        Some("replay") => replay(&pos[1], &o),
        Some("minimise") => minimise(&pos[1], &pos[2]),
        Some("check") => check(&pos[1], &o),
        Some("genplan") => {
            let w = find_world(&pos[1]).unwrap();
            let th = o.s("tier") == "thorough";
            let p = w.gen(&mut Rng::for_run(o.n("seed", 1), &format!("{}/{}", w.name(), o.s("variant")), o.n("index", 0)), th);
            Rep {
                prop: o.s("prop").into(),
                variant: o.s("variant").into(),
                class: "abort".into(),
                detail: String::new(),
                digest: String::new(),
                seed: o.n("seed", 1) as i64,
                index: o.n("index", 0) as i64,
                thorough: th,
                plan: p,
            }
            .save(o.s("out"));
            0
        }
        Some("types") => {
            for (i, t) in types::all().iter().enumerate() {
                println!("{i} {}", t.name);
            }
            0
        }
        _ => {
            println!("usage: sim check|replay|minimise|worker");
            2
        }
    };
    std::process::exit(code);
}
