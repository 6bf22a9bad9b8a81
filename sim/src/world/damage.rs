//! World `damage`: messages damaged in transit, at rest or in addressing, handed to every decoder.
//! C04: no crash, hang or over-read, and exactly the outcome the wire format dictates.
//! C02: the same outcome on every parser. C13: whatever is accepted is legal and survives relaying.
use super::util::*;
use crate::core::*;
use crate::ensure;
use crate::plan::{Plan, Step};
use crate::refcodec as rc;
use crate::rng::Rng;
use crate::simparser::{Kind, KINDS};
use crate::types::{self, DErr};
use tedium::parse::buffer::{SliceBuffer, VecBuffer};
use tedium::{ByteParser, MemoParser, Parser, SliceParser};

#[derive(Clone, Copy, PartialEq)]
pub enum Focus {
    C02,
    C04,
    C13,
}
pub struct Damage(pub Focus);

impl World for Damage {
    fn name(&self) -> &'static str {
        match self.0 {
            Focus::C02 => "damage-parsers",
            Focus::C04 => "damage-decode",
            Focus::C13 => "damage-relay",
        }
    }
    fn gen(&self, rng: &mut Rng, thorough: bool) -> Plan {
        let mut p = Plan::new(self.name());
        // 1: raw bytes instead of a message
        let raw = rng.chance(1, 12);
        p.params = vec![raw as i64, rng.below(types::all().len() as u64) as i64];
        if raw {
            let n = rng.range(0, 80) as usize;
            let mode = rng.below(3);
            p.data = rng.bytes(n);
            if mode == 0 {
                for x in p.data.iter_mut() {
                    *x = *rng.pick(&[0, 0, 0, 1, 2, 3, 8, 0xff, 0x80, 0x7f]);
                }
            }
        } else {
            p.steps.push(gen_msg(rng));
        }
        let n = match rng.below(10) {
            0 => 0,
            1..=5 => 1,
            6..=8 => rng.range(2, 3),
            _ => rng.range(3, if thorough { 16 } else { 8 }),
        };
        let w = damage_weights();
        for _ in 0..n {
            p.steps.push(gen_damage(rng, &w));
        }
        p
    }
    fn exec(&self, p: &Plan, cx: &mut Cx) -> R {
        let mut t = types::ty(p.upar(1));
        let mut d = p.data.clone();
        let mut start = 0;
        if let (0, Some(Step { op: MSG, .. })) = (p.par(0), p.steps.first()) {
            let m = msg(&p.steps[0]);
            t = m.t;
            d = m.bytes;
            start = 1;
        }
        for s in &p.steps[start.min(p.steps.len())..] {
            if s.op == RESEND {
                t = types::ty(s.uarg(0));
                cx.fault(DAMAGE[RESEND as usize]);
                continue;
            }
            damage(&mut d, s, cx);
        }
        cx.bytes(&d);
        cx.say(|| format!("{} <- {}", t.name, short(&d)));
        cx.sig.s(t.name.as_bytes());
        cx.ev(1, bucket(d.len()));
        match self.0 {
            Focus::C04 => against_format(t, &d, cx),
            Focus::C02 => parsers(t, &d, cx),
            Focus::C13 => relay(t, &d, cx),
        }
    }
}

fn against_format(t: &types::TypeOps, d: &[u8], cx: &mut Cx) -> R {
    let want = ref_dec(&(t.sch)(), d);
    cx.ev(2, want.is_ok() as u64);
    cx.count(if want.is_ok() { "accepted" } else { "rejected" }, 1);
    if want.is_err() {
        cx.nontrivial = true;
    }
    let dict = |w: &Result<(rc::Val, usize), ()>| match w {
        Ok((v, n)) => format!("accepts {n} bytes as {}", shortv(v)),
        Err(()) => "has no value for these bytes".into(),
    };
    for k in KINDS {
        let s = match sim_dec(t, d, k) {
            Ok(s) => s,
            Err(Caught::Panic(e)) => return viol("decode-panic", format!("{} on {} ({k:?}): panicked: {e}", t.name, short(d))),
            Err(Caught::Sim(SimUnwind::Budget)) => {
                return viol("no-termination", format!("{} on {} ({k:?}): more than {} parser operations for {} bytes", t.name, short(d), op_budget(d.len()), d.len()))
            }
            Err(_) => return viol("harness", "sim unwind"),
        };
        ensure!(s.consumed <= d.len(), "over-read", "{} on {} ({k:?}): consumed {} of {} bytes", t.name, short(d), s.consumed, d.len());
        let same = match (&s.res, &want) {
            (Ok(v), Ok((w, n))) => v == w && s.consumed == *n,
            (Err(_), Err(())) => true,
            _ => false,
        };
        ensure!(same, "format", "{} on {} ({k:?}): decoder gives {} after {} bytes, the format {}", t.name, short(d), shortv(&s.res), s.consumed, dict(&want));
        if s.max_depth >= 2 {
            cx.count("decodes with nested windows", 1);
        }
    }
    for k in 0..5u8 {
        let r = match guarded(|| (t.try_decode)(k, d)) {
            Ok(r) => r,
            Err(Caught::Panic(e)) => return viol("decode-panic", format!("{}::try_decode (entry {k}) on {}: panicked: {e}", t.name, short(d))),
            Err(_) => return viol("harness", "sim unwind"),
        };
        let same = match (&r, &want) {
            (Ok(v), Ok((w, n))) => v == w && (!cfg!(feature = "complete") || *n == d.len()),
            (Err(DErr::NonEmpty(_)), Ok((_, n))) => cfg!(feature = "complete") && *n < d.len(),
            (Err(_), Err(())) => true,
            _ => false,
        };
        ensure!(same, "format", "{}::try_decode (entry {k}) on {}: gives {}, the format {}", t.name, short(d), shortv(&r), dict(&want));
    }
    Ok(())
}

fn parsers(t: &types::TypeOps, d: &[u8], cx: &mut Cx) -> R {
    let mut a = ByteParser::from_buffer(VecBuffer::from(d));
    let mut b = MemoParser::from_buffer(VecBuffer::from(d));
    let mut c = SliceParser::from_buffer(SliceBuffer::from(d));
    // a decoder that does not terminate is another property's business
    if sim_dec(t, d, Kind::Model).is_err() {
        return Ok(());
    }
    type Y = (Result<Option<rc::Val>, String>, usize);
    fn run<P: Parser>(p: &mut P, f: impl FnOnce(&mut P) -> tedium::parse::error::ParseResult<rc::Val>) -> Y {
        let r = match guarded(|| f(p).ok()) {
            Ok(v) => Ok(v),
            Err(_) => Err("panic".into()),
        };
        (r, p.remainder())
    }
    let x = run(&mut a, t.parse_byte);
    let y = run(&mut b, t.parse_memo);
    let z = run(&mut c, t.parse_slice);
    cx.ev(3, matches!(x.0, Ok(Some(_))) as u64);
    if !matches!(x.0, Ok(Some(_))) {
        cx.nontrivial = true;
    }
    ensure!(x == y && y == z, "parsers-differ", "{} on {}: (outcome, bytes left in view) byte {}, memo {}, slice {}", t.name, short(d), shortv(&x), shortv(&y), shortv(&z));
    let mut rs = vec![];
    for k in [0u8, 1, 2, 3, 4] {
        rs.push(match guarded(|| (t.try_decode)(k, d)) {
            Ok(Ok(v)) => Ok(Some(v)),
            Ok(Err(DErr::NonEmpty(l))) => Err(format!("leftover {}", crate::plan::hex(&l))),
            Ok(Err(_)) => Ok(None),
            Err(_) => Err("panic".into()),
        });
    }
    for k in 1..5 {
        ensure!(rs[0] == rs[k], "parsers-differ", "{}::try_decode on {}: entry 0 (byte parser) gives {}, entry {k} gives {}", t.name, short(d), shortv(&rs[0]), shortv(&rs[k]));
    }
    match (guarded(|| a.cleanup()), guarded(|| b.cleanup()), guarded(|| c.cleanup())) {
        (Ok(x), Ok(y), Ok(z)) => {
            let f = |r: tedium::parse::cleanup::CleanupResult| r.ok().map(|l| types::flat(l).0.concat());
            let (x, y, z) = (f(x), f(y), f(z));
            ensure!(x == y && y == z, "parsers-differ", "{} on {}: unread bytes byte {x:02x?}, memo {y:02x?}, slice {z:02x?}", t.name, short(d));
        }
        (x, y, z) => ensure!(x.is_err() && y.is_err() && z.is_err(), "parsers-differ", "{} on {}: cleanup panics on some parsers only", t.name, short(d)),
    }
    Ok(())
}

fn relay(t: &types::TypeOps, d: &[u8], cx: &mut Cx) -> R {
    let sch = (t.sch)();
    // only what a decoder accepts is relayed; how it treats the rest is C04's business
    let accepted = match sim_dec(t, d, Kind::Byte) {
        Ok(SimDec { res: Ok(v), .. }) => v,
        _ => {
            cx.ev(4, 0);
            return Ok(());
        }
    };
    cx.ev(4, 1);
    ensure!(rc::legal(&sch, &accepted), "illegal-value", "{} accepts {} as {}, which violates a constraint of the type", t.name, short(d), shortv(&accepted));
    // a boolean, option tag, tag or padding byte leaves no trace in the value: whether the bytes that were accepted hold
    // a legal one is told by the format
    ensure!(ref_dec(&sch, d).is_ok(), "illegal-bytes", "{} accepts {} as {}; a byte of it has no legal reading", t.name, short(d), shortv(&accepted));
    let mut cur = d.to_vec();
    let mut last: Option<rc::Val> = None;
    for hop in 0..4 {
        let r = match guarded(|| (t.relay)(&cur)) {
            Ok(r) => r,
            Err(Caught::Panic(e)) => {
                if hop == 0 && rc::lossy_text(&sch) && !rc::fits(&sch, &accepted) {
                    return viol("lossy-text-outgrows-prefix", format!("{} accepts {} (invalid UTF-8), and re-encoding the replacement text panics: {e}", t.name, short(d)));
                }
                return viol("relay-refused", format!("{}: hop {hop}: the value decoded from {} cannot be re-encoded: {e}", t.name, short(&cur)));
            }
            Err(_) => return viol("harness", "sim unwind"),
        };
        let Some((v, out, used)) = r else {
            return viol("relay-rejected", format!("{}: hop {hop}: rejects {}, which the previous hop produced from {}", t.name, short(&cur), shortv(&last)));
        };
        cx.fault("relay hop");
        if let Some(l) = &last {
            ensure!(v == *l, "relay-changed", "{}: hop {hop}: value changed from {} to {}", t.name, shortv(l), shortv(&v));
            ensure!(used == cur.len(), "relay-changed", "{}: hop {hop}: only {used} of the {} bytes the previous hop produced are read", t.name, cur.len());
            ensure!(out == cur, "relay-changed", "{}: hop {hop}: bytes changed from {} to {}", t.name, short(&cur), short(&out));
        } else {
            ensure!(v == accepted, "relay-changed", "{}: first hop decodes {} as {}, a parser behind the simulator as {}", t.name, short(d), shortv(&v), shortv(&accepted));
        }
        ensure!(rc::legal(&sch, &v), "illegal-value", "{}: hop {hop}: {} violates a constraint of the type", t.name, shortv(&v));
        cur = out;
        last = Some(v);
    }
    cx.bytes(&cur);
    Ok(())
}
