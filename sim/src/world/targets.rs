//! World `targets` (C07, and the builder half of C14): one writer history is replayed into every
//! output target; writers are killed between and inside writes.
use super::hist::groups;
use super::util::*;
use crate::core::*;
use crate::ensure;
use crate::plan::{hex, Plan, Step};
use crate::rng::Rng;
use crate::simtarget::{corpse, SimTarget};
use crate::types::{Tgt, TGTS};
use std::io::Write;
use tedium::conv::target::ByteCounter;
use tedium::{Builder, HexString, MemoBuilder, StrictBuilder, Target};

#[derive(Clone, Copy, PartialEq)]
pub enum Focus {
    C07,
    C14,
}
pub struct Targets(pub Focus);
const ONE: u16 = 40;
const MANY: u16 = 41;
const ALL: u16 = 42;
const STREAM: u16 = 43;
const RESOLVE: u16 = 44;
const FLUSH: u16 = 45;
const ANTICIPATE: u16 = 46;
const CLONE: u16 = 47;
const RZERO: u16 = 48;
const VALUE: u16 = MSG;

fn many<U: Target>(t: &mut U, b: &[u8]) -> (usize, usize) {
    macro_rules! go { ($($n:expr),*) => { match b.len() { $( $n => (t.push_many::<$n>(b.try_into().unwrap()), $n), )* n => (t.push_all(b), n) } } }
    go!(0, 1, 2, 3, 4, 5, 7, 8, 16, 20, 32, 64)
}
/// the io::Write face of a target
trait Out: Target + Clone + 'static {
    fn stream(&mut self, b: &[u8], how: i64) -> bool;
    fn flush_it(&mut self);
    fn bytes(&self) -> Vec<u8>;
}
fn streamed<W: Write>(w: &mut W, b: &[u8], how: i64) -> bool {
    match how.rem_euclid(4) {
        0 => w.write(b).map(|n| n == b.len()).unwrap_or(false),
        1 => w.write_all(b).is_ok(),
        2 => b.chunks(3).all(|c| w.write_all(c).is_ok()),
        _ => {
            let (x, y) = b.split_at(b.len() / 2);
            let mut io = [std::io::IoSlice::new(x), std::io::IoSlice::new(y)];
            // a vectored write may be partial; finish it
            match w.write_vectored(&mut io) {
                Ok(n) if n <= b.len() => w.write_all(&b[n..]).is_ok(),
                _ => false,
            }
        }
    }
}
macro_rules! out { ($t:ty, $s:ident => $b:expr) => {
    impl Out for $t {
        fn stream(&mut self, b: &[u8], how: i64) -> bool { streamed(self, b, how) }
        fn flush_it(&mut self) { let _ = Write::flush(self); }
        fn bytes(&self) -> Vec<u8> { let $s = self; $b }
    }
} }
out!(Vec<u8>, s => s.clone());
out!(HexString, s => s.as_bytes().to_vec());
out!(StrictBuilder, s => s.clone().into_vec());
out!(MemoBuilder, s => s.clone().into_vec());

struct Model {
    bytes: Vec<u8>,
    /// the finished groups
    done: Vec<usize>,
    /// the group being written, if any: a write opens one even if it adds no byte (as documented)
    open: Option<usize>,
    marks: usize,
}
impl Model {
    fn new(data: &[u8], open: bool) -> Self {
        Model { bytes: data.to_vec(), done: vec![], open: open.then_some(data.len()), marks: 0 }
    }
    fn write(&mut self, b: &[u8]) {
        self.bytes.extend_from_slice(b);
        *self.open.get_or_insert(0) += b.len();
    }
    fn mark(&mut self) {
        self.marks += 1;
        if let Some(n) = self.open.take() {
            self.done.push(n);
        }
    }
    fn groups(&self) -> Vec<Vec<u8>> {
        let mut v = vec![];
        let mut from = 0;
        for n in self.done.iter().copied().chain(self.open) {
            v.push(self.bytes[from..from + n].to_vec());
            from += n;
        }
        v
    }
}
/// run the history into one target
fn drive<T: Out>(name: &str, mk: &dyn Fn(&[u8], i64) -> T, p: &Plan, msgs: &[Option<Written>], cx: &mut Cx, segs: Option<&dyn Fn(&T) -> String>) -> Result<(T, Model), Viol> {
    let mut t = mk(&p.data, p.par(0));
    let mut m = Model::new(&p.data, p.par(0) < 3 || !p.data.is_empty());
    for (i, s) in p.steps.iter().enumerate() {
        let before = m.bytes.len();
        let what = || format!("{name}: step {i}");
        let n: Option<(usize, usize)> = match s.op {
            VALUE => {
                let w = match &msgs[i] {
                    Some(w) => w,
                    None => continue,
                };
                let r = no_panic(&what(), || (w.put)(&mut t as &mut dyn std::any::Any))?;
                let mut at = 0;
                for e in &w.sim.log {
                    match e {
                        Some(n) => {
                            m.write(&w.sim.out[at..at + n]);
                            at += n;
                        }
                        None => m.mark(),
                    }
                }
                Some((r, w.sim.out.len()))
            }
            ONE => {
                let b = s.arg(0) as u8;
                m.write(&[b]);
                Some((no_panic(&what(), || t.push_one(b))?, 1))
            }
            MANY => {
                m.write(&s.b);
                Some(no_panic(&what(), || many(&mut t, &s.b))?)
            }
            ALL => {
                m.write(&s.b);
                Some((no_panic(&what(), || t.push_all(&s.b))?, s.b.len()))
            }
            STREAM => {
                m.write(&s.b);
                // an empty write_all need not reach the target at all; an empty write does
                let how = if s.b.is_empty() { 0 } else { s.arg(0) };
                let ok = no_panic(&what(), || t.stream(&s.b, how))?;
                ensure!(ok, "stream-write", "{name}: step {i}: streaming {} bytes (way {}) was not a complete successful write", s.b.len(), s.arg(0).rem_euclid(4));
                None
            }
            RESOLVE => {
                no_panic(&what(), || t.resolve())?;
                m.mark();
                None
            }
            RZERO => {
                m.mark();
                Some((no_panic(&what(), || t.resolve_zero())?, 0))
            }
            FLUSH => {
                no_panic(&what(), || t.flush_it())?;
                m.mark();
                None
            }
            ANTICIPATE => {
                no_panic(&what(), || t.anticipate(s.uarg(0) % 200_000))?;
                None
            }
            CLONE => {
                let c = no_panic(&what(), || t.clone())?;
                t = c;
                None
            }
            _ => continue,
        };
        if let Some((got, want)) = n {
            ensure!(got == want, "count", "{name}: step {i} (op {}) reports {got} bytes written, {want} were given", s.op);
        }
        cx.ev(s.op as u64, bucket(m.bytes.len() - before));
        if p.par(1) == 0 || i + 1 == p.steps.len() {
            let b = no_panic(&what(), || t.bytes())?;
            ensure!(b == m.bytes, "contents", "{name}: after step {i} (op {}) holds {}, written were {}", s.op, short(&b), short(&m.bytes));
            if let Some(f) = segs {
                let d = no_panic(&what(), || f(&t))?;
                check_groups(name, &d, &m, i)?;
                cx.count("segmentations compared", 1);
            }
        }
    }
    Ok((t, m))
}
/// "[|ab||cd|]" -> groups, with the empty ones
fn all_groups(s: &str) -> Option<Vec<Vec<u8>>> {
    let s = s.trim().strip_prefix("[|")?.strip_suffix(']')?;
    if s.trim().is_empty() {
        return Some(vec![]);
    }
    let s = s.trim_end().strip_suffix('|')?;
    s.split('|').map(|g| crate::plan::unhex(&g.chars().filter(|c| !c.is_whitespace()).collect::<String>())).collect()
}
fn check_groups(name: &str, d: &str, m: &Model, i: usize) -> R {
    let g = match all_groups(d) {
        Some(g) => g,
        None => return viol("segments", format!("{name}: after step {i}: unreadable segmentation {d:?}")),
    };
    ensure!(g.concat() == m.bytes, "segments", "{name}: after step {i}: the segments list {}, written were {}", short(&g.concat()), short(&m.bytes));
    ensure!(g == m.groups(), "segment-bounds", "{name}: after step {i}: segments {}, group marks give {}", shortv(&g.iter().map(|x| hex(x)).collect::<Vec<_>>()), shortv(&m.groups().iter().map(|x| hex(x)).collect::<Vec<_>>()));
    Ok(())
}
/// a value about to be written: what a plain user-written target receives from it
struct Written {
    msg: Msg,
    sim: SimTarget,
    put: Box<dyn Fn(&mut dyn std::any::Any) -> usize>,
}
fn builder_faces<B: Builder + Clone>(name: &str, b: &B, m: &Model, fin: impl Fn(&B) -> Vec<Vec<u8>>) -> R {
    let want = &m.bytes;
    let r = no_panic(name, || {
        let n = b.len();
        let e = b.is_empty();
        let h = b.clone().into_hex();
        let s = b.clone().into_bin();
        let v: Vec<u8> = b.clone().finalize().into();
        (n, e, h, s, v, b.clone().into_vec(), fin(b))
    })?;
    ensure!(r.0 == want.len() && r.1 == want.is_empty(), "builder-len", "{name}: len {} and is_empty {} of {} bytes", r.0, r.1, want.len());
    ensure!(r.2 == hex(want), "contents", "{name}: into_hex gives {}, written were {}", r.2, short(want));
    match (String::from_utf8(want.clone()), r.3) {
        (Ok(a), Ok(b)) => ensure!(a == b, "contents", "{name}: into_bin gives {b:?}, written were {}", short(want)),
        (Err(_), Err(_)) => {}
        (a, b) => return viol("contents", format!("{name}: into_bin succeeds: {}; the bytes {} are text: {}", b.is_ok(), short(want), a.is_ok())),
    }
    for v in [&r.4, &r.5].into_iter().chain(r.6.iter()) {
        ensure!(v == want, "contents", "{name}: conversion gives {}, written were {}", short(v), short(want));
    }
    Ok(())
}
impl World for Targets {
    fn name(&self) -> &'static str {
        match self.0 {
            Focus::C07 => "targets",
            Focus::C14 => "builder-segments",
        }
    }
    fn gen(&self, rng: &mut Rng, thorough: bool) -> Plan {
        let mut p = Plan::new(self.name());
        let c14 = self.0 == Focus::C14;
        let k = match rng.below(4) {
            0 => 0,
            1 => 1,
            _ => rng.range(2, 40),
        };
        p.data = if rng.chance(1, 4) { b"already there \xf0\x9f\xa6\x80"[..k.min(18) as usize].to_vec() } else { rng.bytes(k as usize) };
        p.params = vec![rng.below(4) as i64, rng.chance(1, 3) as i64];
        let n = match rng.below(8) {
            0 => 1,
            1..=5 => rng.range(2, 10),
            _ => rng.range(8, if thorough { 80 } else { 25 }),
        };
        for _ in 0..n {
            let s = match rng.weighted(if c14 { &[3, 4, 3, 4, 4, 5, 3, 1, 1, 1] } else { &[6, 3, 3, 3, 3, 1, 1, 2, 1, 1] }) {
                0 => {
                    let mut s = gen_msg(rng);
                    if s.a[1] > 300 && !rng.chance(1, 6) {
                        s.a[1] = 300;
                    }
                    // where this writer dies
                    s.a.push(if rng.chance(1, 2) { rng.below(6) } else { rng.below(60) } as i64);
                    s.a.push(rng.below(7) as i64);
                    s
                }
                1 => Step::new(ONE, &[rng.below(256) as i64]),
                2 => {
                    let k = *rng.pick(&[0usize, 1, 2, 3, 4, 5, 7, 8, 16, 20, 32, 64]);
                    Step::with(MANY, &[], rng.bytes(k))
                }
                3 => {
                    let k = if rng.chance(1, 12) { scale8(rng) } else { *rng.pick(&[0usize, 1, 2, 3, 9, 40, 200]) };
                    Step::with(ALL, &[], rng.bytes(k))
                }
                4 => {
                    let k = if rng.chance(1, 40) { scale8(rng) } else { rng.below(12) as usize };
                    Step::with(STREAM, &[rng.below(4) as i64], rng.bytes(k))
                }
                5 => Step::new(RESOLVE, &[]),
                6 => Step::new(FLUSH, &[]),
                7 => Step::new(ANTICIPATE, &[if rng.chance(1, 3) { rng.below(100_000) } else { rng.below(10) } as i64]),
                8 => Step::new(CLONE, &[]),
                _ => Step::new(RZERO, &[]),
            };
            p.steps.push(s);
        }
        p
    }
    fn exec(&self, p: &Plan, cx: &mut Cx) -> R {
        let c14 = self.0 == Focus::C14;
        // what a user-written target receives from each value; the other targets are held to it
        let mut msgs: Vec<Option<Written>> = vec![];
        let mut prior = p.data.len();
        for s in &p.steps {
            if s.op != VALUE {
                msgs.push(None);
                continue;
            }
            let m = msg(s);
            let (t, val) = (m.t, m.val.clone());
            match guarded(|| (t.encode)(&val, Tgt::Sim, &[], SimTarget::default())) {
                Ok(o) => {
                    let put = Box::new(move |x: &mut dyn std::any::Any| (t.put)(&val, x));
                    msgs.push(Some(Written { msg: m, sim: o.sim.unwrap(), put }))
                }
                // whether a value can be encoded at all is not what this property is about
                Err(_) => msgs.push(None),
            }
        }
        // every target against the concatenation of what was written
        let (memo, m) = drive(
            "MemoBuilder",
            &|d, k| match k {
                0 => MemoBuilder::from(d),
                1 => MemoBuilder::from(d.to_vec()),
                2 => MemoBuilder::promote(d.to_vec()),
                _ => {
                    let mut b = if d.len() == 1 { MemoBuilder::word(d[0]) } else if d.len() == 2 { MemoBuilder::words([d[0], d[1]]) } else { <MemoBuilder as Target>::create() };
                    if d.len() > 2 {
                        b.push_all(d);
                    }
                    b
                }
            },
            p,
            &msgs,
            cx,
            if c14 { Some(&|b: &MemoBuilder| b.to_string()) } else { None },
        )?;
        cx.bytes(&m.bytes);
        cx.say(|| format!("memo builder: {memo}"));
        if c14 {
            cx.nontrivial = m.marks > 1;
            check_groups("MemoBuilder", &no_panic("display", || memo.to_string())?, &m, p.steps.len())?;
            // the finalized form lists the same segments
            let d = no_panic("finalize", || memo.clone().finalize().to_string())?;
            check_groups("finalized MemoBuilder", &d, &m, p.steps.len())?;
            let v: Vec<u8> = memo.clone().finalize().into();
            ensure!(v == m.bytes && memo.len() == m.bytes.len(), "segments", "finalized MemoBuilder holds {}, written were {}", short(&v), short(&m.bytes));
            return Ok(());
        }
        builder_faces("MemoBuilder", &memo, &m, |b| vec![Vec::from(b.clone())])?;
        let (strict, m) = drive(
            "StrictBuilder",
            &|d, k| match k {
                0 => StrictBuilder::from(d),
                1 => StrictBuilder::from(d.to_vec()),
                2 => StrictBuilder::promote(StrictBuilder::from(d)),
                _ => {
                    let mut b = if d.len() == 1 { StrictBuilder::word(d[0]) } else if d.len() == 2 { StrictBuilder::words([d[0], d[1]]) } else { StrictBuilder::empty() };
                    if d.len() > 2 {
                        b.push_all(d);
                    }
                    b
                }
            },
            p,
            &msgs,
            cx,
            None,
        )?;
        builder_faces("StrictBuilder", &strict, &m, |b| vec![Vec::from(b.clone()), std::borrow::Borrow::<[u8]>::borrow(b).to_vec()])?;
        drive("Vec<u8>", &|d, _| d.to_vec(), p, &msgs, cx, None)?;
        let (h, m) = drive("HexString", &|d, _| HexString::from_vec(d.to_vec()), p, &msgs, cx, None)?;
        ensure!(h.to_hex() == hex(&m.bytes) && h.len() == m.bytes.len(), "contents", "HexString spells {} ({} bytes), written were {}", h.to_hex(), h.len(), short(&m.bytes));
        // the counting sink
        let mut sink = <ByteCounter as Target>::create();
        for (i, s) in p.steps.iter().enumerate() {
            let (got, want) = match s.op {
                VALUE => match &msgs[i] {
                    Some(w) => (no_panic("sink", || (w.put)(&mut sink))?, w.sim.out.len()),
                    None => continue,
                },
                ONE => (sink.push_one(s.arg(0) as u8), 1),
                MANY => many(&mut sink, &s.b),
                ALL => (sink.push_all(&s.b), s.b.len()),
                RZERO => (sink.resolve_zero(), 0),
                ANTICIPATE => {
                    sink.anticipate(s.uarg(0));
                    (0, 0)
                }
                _ => continue,
            };
            ensure!(got == want, "count", "byte counter: step {i} (op {}) counts {got} bytes, {want} were written", s.op);
        }
        // every entry point for whole values, and a writer that dies
        for (i, s) in p.steps.iter().enumerate() {
            let w = match &msgs[i] {
                Some(w) => w,
                None => {
                    prior += s.b.len();
                    continue;
                }
            };
            let name = w.msg.t.name;
            let pre = &m.bytes[..prior.min(m.bytes.len()).min(50)];
            let whole = [pre, &w.sim.out[..]].concat();
            for t in TGTS {
                let sim = SimTarget { out: pre.to_vec(), ..Default::default() };
                let o = no_panic(&format!("{name} into {t:?}"), || (w.msg.t.encode)(&w.msg.val, t, pre, sim))?;
                if let Some(b) = &o.bytes {
                    // entry points that create their target start from nothing (SimTarget's creates a preloaded one)
                    let want = match t {
                        Tgt::ToBytes | Tgt::EncVec | Tgt::EncHex | Tgt::EncStrict | Tgt::EncMemo | Tgt::Full => &w.sim.out,
                        _ => &whole,
                    };
                    ensure!(b == want, "targets-differ", "{name} into {t:?} over {} held bytes: {}, a plain target gets {}", pre.len(), short(b), short(want));
                }
                if let Some(n) = o.count {
                    ensure!(n == w.sim.out.len(), "count", "{name} into {t:?} reports {n} bytes, {} were written", w.sim.out.len());
                }
            }
            // crash before, inside and after chosen writes
            let writes = w.sim.writes;
            if writes > 0 {
                for (k, torn) in [(s.arg(2).max(0) as u64 % writes, s.uarg(3)), (writes - 1, 0), (0, 0)] {
                    let sim = SimTarget { out: pre.to_vec(), crash_at: Some(k), torn, ..Default::default() };
                    match guarded(|| (w.msg.t.encode)(&w.msg.val, if s.arg(3) % 2 == 0 { Tgt::Sim } else { Tgt::EncSim }, &[], sim)) {
                        Err(Caught::Sim(SimUnwind::Crash)) => {
                            let c = corpse();
                            cx.fault(if torn > 0 { "writer killed inside a write" } else { "writer killed between writes" });
                            ensure!(whole.starts_with(&c.out) && c.out.len() >= pre.len(), "torn-not-prefix", "{name}: writer killed at write {k} of {writes} leaves {}, the whole is {}", short(&c.out), short(&whole));
                            let done: usize = w.sim.lens[..k as usize].iter().map(|x| *x as usize).sum();
                            ensure!(c.out.len() >= pre.len() + done, "torn-not-prefix", "{name}: writer killed at write {k} of {writes} leaves {} bytes, {} were written before", c.out.len() - pre.len(), done);
                        }
                        Err(Caught::Sim(_)) => return viol("harness", "unexpected unwind"),
                        Err(Caught::Panic(e)) => return viol("panic", format!("{name} writing to a crashing target: {e}")),
                        Ok(_) => return viol("nondeterminism", format!("{name}: {writes} writes in one run, fewer than {k} in another")),
                    }
                }
            }
            prior += w.sim.out.len();
        }
        Ok(())
    }
}
