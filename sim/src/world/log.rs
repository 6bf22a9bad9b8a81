//! World `log` (C05): an append-only log of messages on a simulated disk. The writer is killed
//! inside writes, unsynced tails are lost, and every restart recovers, truncates and resumes.
use super::util::*;
use crate::core::*;
use crate::ensure;
use crate::plan::{Plan, Step};
use crate::refcodec::Val;
use crate::rng::Rng;
use crate::simparser::{Cfg, SimParser, KINDS};
use crate::simtarget::{corpse, SimTarget};
use crate::types::{Tgt, TypeOps};

pub struct Log;
const APPEND_REC: u16 = 0;
const SYNC: u16 = 30;
const CRASH: u16 = 31;
const CRASH_IDLE: u16 = 32;
impl World for Log {
    fn name(&self) -> &'static str {
        "log-recovery"
    }
    fn gen(&self, rng: &mut Rng, thorough: bool) -> Plan {
        let mut p = Plan::new(self.name());
        let l = framed_types().len() as u64;
        let n = rng.range(1, if thorough { 24 } else { 8 });
        // one record type for the whole log, or one per record
        let one = if rng.chance(1, 2) { Some(rng.below(l) as i64) } else { None };
        for _ in 0..n {
            if rng.chance(1, 3) {
                p.steps.push(Step::new(SYNC, &[]));
            }
            if rng.chance(2, 5) {
                // the next append dies at this write, after so many of its bytes
                let at = if rng.chance(1, 2) { rng.below(4) } else { rng.below(30) };
                let torn = if rng.chance(1, 2) { 0 } else { rng.below(9) };
                let lost = if rng.chance(1, 3) { rng.below(60) } else { 0 };
                p.steps.push(Step::new(CRASH, &[at as i64, torn as i64, lost as i64]));
            } else if rng.chance(1, 6) {
                p.steps.push(Step::new(CRASH_IDLE, &[rng.below(80) as i64]));
            }
            let t = one.unwrap_or_else(|| rng.below(l) as i64);
            let mut m = gen_msg_t(rng, t);
            if m.a[1] > 300 && !rng.chance(1, 10) {
                m.a[1] = 300;
            }
            p.steps.push(m);
        }
        p.params = vec![rng.below(4) as i64, rng.below(1000) as i64];
        p
    }
    fn exec(&self, p: &Plan, cx: &mut Cx) -> R {
        struct Rec {
            t: &'static TypeOps,
            val: Val,
            end: usize,
        }
        let mut disk: Vec<u8> = vec![];
        let mut synced = 0usize;
        // records believed complete on the medium
        let mut log: Vec<Rec> = vec![];
        let mut crash: Option<(u64, usize, usize)> = None;
        let kind = KINDS[p.upar(0) % 4];
        let mut inc = 0u64;
        let mut kind_of = || {
            inc += 1;
            KINDS[(inc as usize + kind as usize) % 4]
        };
        // recover: what a restarted reader finds; returns the cut
        fn recover(disk: &[u8], log: &[Rec], next: Option<&'static TypeOps>, kind: crate::simparser::Kind, cx: &mut Cx) -> Result<usize, Viol> {
            let r = guarded(|| -> Result<usize, Viol> {
                let mut q = SimParser::with(disk, Cfg { kind, budget: op_budget(disk.len()), ..Default::default() });
                let mut cut = 0;
                for (i, r) in log.iter().enumerate() {
                    let v = match (r.t.parse_sim)(&mut q) {
                        Ok(v) => v,
                        Err(e) => return viol("lost-record", format!("{kind:?}: recovery rejects record {i} ({}), which was completely written at {cut}..{}: {e:?}", r.t.name, r.end)),
                    };
                    ensure!(v == r.val, "record-changed", "{kind:?}: recovery reads record {i} ({}) as {}, written was {}", r.t.name, shortv(&v), shortv(&r.val));
                    ensure!(q.consumed == r.end, "record-extent", "{kind:?}: recovery ends record {i} ({}) at {}, it was written up to {}", r.t.name, q.consumed, r.end);
                    cut = r.end;
                }
                if let Some(t) = next {
                    let v = (t.parse_sim)(&mut q);
                    ensure!(v.is_err(), "torn-accepted", "{kind:?}: recovery accepts the torn record {} ({} of its bytes on the medium) as {}", t.name, disk.len() - cut, shortv(&v.unwrap()));
                }
                Ok(cut)
            });
            cx.ev(5, log.len().min(20) as u64);
            match r {
                Ok(r) => r,
                Err(Caught::Panic(e)) => viol("recovery-panic", format!("{kind:?}: recovery of a log of {} bytes panics: {e}", disk.len())),
                Err(_) => viol("recovery-hang", format!("{kind:?}: recovery of a log of {} bytes does not end", disk.len())),
            }
        }
        for (i, s) in p.steps.iter().enumerate() {
            match s.op {
                SYNC => {
                    synced = disk.len();
                    cx.ev(1, 0);
                }
                CRASH => crash = Some((s.arg(0).max(0) as u64, s.uarg(1), s.uarg(2))),
                CRASH_IDLE => {
                    let keep = disk.len().saturating_sub(s.uarg(0)).max(synced);
                    if keep < disk.len() {
                        cx.fault("unsynced tail lost in a crash");
                    } else {
                        cx.fault("writer crash between appends");
                    }
                    disk.truncate(keep);
                    let torn_type = log.iter().find(|r| r.end > keep).map(|r| r.t);
                    log.retain(|r| r.end <= keep);
                    let cut = recover(&disk, &log, torn_type, kind_of(), cx)?;
                    disk.truncate(cut);
                    synced = cut;
                }
                APPEND_REC => {
                    let m = framed_msg(s);
                    // a crash is followed by recovery and a retry of the same record
                    for attempt in 0..3 {
                        let c = crash.take();
                        let sim = SimTarget { out: disk.clone(), crash_at: c.map(|c| c.0), torn: c.map_or(0, |c| c.1), ..Default::default() };
                        match guarded(|| (m.t.encode)(&m.val, if i % 2 == 0 { Tgt::Sim } else { Tgt::EncSim }, &[], sim)) {
                            Ok(o) => {
                                let o = o.sim.unwrap();
                                let n = o.out.len();
                                disk = o.out;
                                log.push(Rec { t: m.t, val: m.val.clone(), end: n });
                                cx.ev(2, attempt);
                                cx.say(|| format!("record {} ({}) appended up to {n}", log.len() - 1, m.t.name));
                                break;
                            }
                            Err(Caught::Sim(SimUnwind::Crash)) => {
                                disk = corpse().out;
                                let last = log.last().map_or(0, |r| r.end);
                                cx.fault(if disk.len() == last { "writer crash before anything reached the disk" } else { "torn write" });
                                // when everything of the record reached the medium, it counts as written
                                let mut lens = disk.len();
                                let lost = c.unwrap().2;
                                if lost > 0 && disk.len() > synced {
                                    lens = disk.len().saturating_sub(lost).max(synced);
                                    disk.truncate(lens);
                                    cx.fault("unsynced tail lost in a crash");
                                }
                                let full = last + m.bytes.len();
                                let mut torn_type = Some(m.t);
                                if lens < last {
                                    torn_type = log.iter().find(|r| r.end > lens).map(|r| r.t);
                                    log.retain(|r| r.end <= lens);
                                } else if lens == full {
                                    log.push(Rec { t: m.t, val: m.val.clone(), end: full });
                                    torn_type = None;
                                }
                                cx.ev(3, (lens as i64 - last as i64).signum() as u64 & 3);
                                cx.say(|| format!("crash while appending {}: {lens} bytes on the medium, last record ended at {last}", m.t.name));
                                let cut = recover(&disk, &log, torn_type, kind_of(), cx)?;
                                disk.truncate(cut);
                                synced = cut;
                                if torn_type.is_none() {
                                    break;
                                }
                            }
                            // a writer that panics is not what this property is about
                            Err(_) => return Ok(()),
                        }
                    }
                }
                _ => {}
            }
        }
        let cut = recover(&disk, &log, None, kind, cx)?;
        ensure!(cut == disk.len(), "record-extent", "after all appends the log holds {} bytes, its records {cut}", disk.len());
        cx.bytes(&disk);
        // every strict prefix of a message is rejected
        if let Some(s) = p.steps.iter().rev().find(|s| s.op == APPEND_REC) {
            let m = framed_msg(s);
            cx.sig.s(m.t.name.as_bytes());
            let n = m.bytes.len();
            let step = (n / 64).max(1);
            let mut k = if step == 1 { 0 } else { p.upar(1) % step };
            while k < n {
                cut_rejected(&m, k, KINDS[(k + p.upar(0)) % 4], cx)?;
                k += step;
            }
            for k in [n - 1, n / 2] {
                for kd in KINDS {
                    cut_rejected(&m, k, kd, cx)?;
                }
                for e in 0..5u8 {
                    match guarded(|| (m.t.try_decode)(e, &m.bytes[..k])) {
                        Ok(Err(_)) => {}
                        Ok(Ok(v)) => return viol("torn-accepted", format!("{}::try_decode (entry {e}) accepts the first {k} of the {n} bytes {} as {}", m.t.name, short(&m.bytes), shortv(&v))),
                        Err(_) => return viol("recovery-panic", format!("{}::try_decode (entry {e}) panics on the first {k} of the {n} bytes {}", m.t.name, short(&m.bytes))),
                    }
                }
            }
        }
        Ok(())
    }
}
fn cut_rejected(m: &Msg, k: usize, kind: crate::simparser::Kind, cx: &mut Cx) -> R {
    cx.fault("message truncated");
    match sim_dec(m.t, &m.bytes[..k], kind) {
        Ok(SimDec { res: Err(_), .. }) => Ok(()),
        Ok(SimDec { res: Ok(v), .. }) => viol("torn-accepted", format!("{} ({kind:?}) accepts the first {k} of the {} bytes {} as {}", m.t.name, m.bytes.len(), short(&m.bytes), shortv(&v))),
        Err(Caught::Panic(e)) => viol("recovery-panic", format!("{} ({kind:?}) panics on the first {k} of the {} bytes {}: {e}", m.t.name, m.bytes.len(), short(&m.bytes))),
        Err(_) => viol("recovery-hang", format!("{} ({kind:?}) does not end on the first {k} of the {} bytes {}", m.t.name, m.bytes.len(), short(&m.bytes))),
    }
}
