//! World `source-faults` (C10): the input source fails at every operation of a decode in turn.
//! World `frame` (C11): damage confined to a length-prefixed payload.
//! World `memory` (C12): heap use of decoders under hostile announcements.
use super::mem;
use super::util::*;
use crate::core::*;
use crate::ensure;
use crate::plan::{Plan, Step};
use crate::rng::Rng;
use crate::simparser::{Cfg, FaultStyle, Kind, SimParser, KINDS};
use crate::types::PREFS;
use tedium::parse::buffer::{SliceBuffer, VecBuffer};
use tedium::parse::ParserExt;
use tedium::{u30, ByteParser, MemoParser, Parser, SliceParser};

pub struct Inject;
const STYLES: [FaultStyle; 3] = [FaultStyle::External, FaultStyle::Short, FaultStyle::Window];
impl World for Inject {
    fn name(&self) -> &'static str {
        "source-faults"
    }
    fn gen(&self, rng: &mut Rng, thorough: bool) -> Plan {
        let mut p = Plan::new(self.name());
        let mut m = gen_msg(rng);
        if !thorough && m.a[1] > 300 {
            m.a[1] = 300;
        }
        p.steps.push(m);
        if rng.chance(1, 4) {
            let w = damage_weights();
            p.steps.push(gen_damage(rng, &w));
        }
        // first failing operation, stride, parser, dyn wrapping
        p.params = vec![rng.below(64) as i64, rng.below(4) as i64, rng.below(6) as i64];
        p
    }
    fn exec(&self, p: &Plan, cx: &mut Cx) -> R {
        let Some(first) = p.steps.first().filter(|s| s.op == MSG) else { return Ok(()) };
        let m = msg(first);
        let mut d = m.bytes.clone();
        let kind = KINDS[p.upar(1) % 4];
        // the type itself, or the type below a length prefix
        let wrap = p.upar(2) % 6;
        let mut dy = None;
        if wrap < 3 && d.len() <= PREFS[wrap].max() {
            let mut h = (d.len() as u32).to_be_bytes()[4 - PREFS[wrap].width()..].to_vec();
            h.extend_from_slice(&d);
            d = h;
            dy = Some(wrap as u8);
        }
        for s in &p.steps[1..] {
            damage(&mut d, s, cx);
        }
        let t = m.t;
        let run = |cfg: Cfg| {
            guarded(|| {
                let mut q = SimParser::with(&d, cfg);
                let r = match dy {
                    Some(k) => (t.parse_dyn)(k, &mut q).ok(),
                    None => (t.parse_sim)(&mut q).ok(),
                };
                (r, q.ops, q.consumed, q.fired, q.after_fault, q.fired_kind)
            })
        };
        let budget = op_budget(d.len());
        let Ok((base, n, _, _, _, _)) = run(Cfg { kind, budget, ..Default::default() }) else { return Ok(()) };
        cx.sig.s(t.name.as_bytes());
        cx.sig.u(wrap as u64);
        cx.bytes(&d);
        cx.ev(1, base.is_some() as u64);
        cx.ev(2, bucket(n as usize));
        // every operation of short decodes, a seeded selection of long ones
        let stride = (n / 48).max(1);
        let mut k = if stride == 1 { 0 } else { p.par(0) as u64 % stride };
        let mut j = p.upar(0);
        while k < n {
            let style = STYLES[j % 3];
            let permanent = j % 2 == 0;
            j += 1;
            let r = run(Cfg { kind, fail_at: Some(k), style, permanent, budget });
            let what = || format!("{}{} on {} ({kind:?}), operation {k} of {n} fails ({style:?}{})", t.name, dy.map_or(String::new(), |w| format!(" below a {:?} prefix", PREFS[w as usize])), short(&d), if permanent { ", permanently" } else { "" });
            let (v, _, _, fired, after, fk) = match r {
                Ok(x) => x,
                Err(Caught::Panic(e)) => return viol("fault-panic", format!("{}: panicked: {e}", what())),
                Err(Caught::Sim(SimUnwind::Budget)) => return viol("fault-hang", format!("{}: the decoder does not stop", what())),
                Err(_) => return viol("harness", "sim unwind"),
            };
            ensure!(fired, "harness", "fault not reached");
            cx.fault(match fk {
                0 => "source failure while consuming",
                1 => "source failure while opening a window",
                2 => "source failure while testing a window",
                _ => "source failure while closing a window",
            });
            ensure!(v.is_none(), "fabricated", "{}: the decode returns the value {}", what(), shortv(&v));
            ensure!(after == 0, "read-on", "{}: {after} further reads were issued after the failure", what());
            k += stride;
        }
        // the source recovered: retry from the start of the message
        let Ok((again, ..)) = run(Cfg { kind, budget, ..Default::default() }) else { return Ok(()) };
        ensure!(again == base, "retry", "{}: retry gives {}, first {}", t.name, shortv(&again), shortv(&base));
        if p.steps.len() == 1 {
            ensure!(again.as_ref() == Some(&m.val), "retry", "{} on {}: retry after the source recovered gives {}, sent was {}", t.name, short(&d), shortv(&again), shortv(&m.val));
        }
        Ok(())
    }
}

pub struct Frame;
impl World for Frame {
    fn name(&self) -> &'static str {
        "frame"
    }
    fn gen(&self, rng: &mut Rng, _thorough: bool) -> Plan {
        let mut p = Plan::new(self.name());
        let l = framed_types().len() as u64;
        let small = |rng: &mut Rng| {
            let t = rng.below(l) as i64;
            let mut s = gen_msg_t(rng, t);
            s.a[1] = s.a[1].min(60);
            s
        };
        let a = small(rng);
        let b = small(rng);
        let mut f = gen_msg(rng);
        f.a[1] = f.a[1].min(600);
        p.steps = vec![a, f, b];
        // prefix, own outer window?
        // and what lies behind the field: a message, nothing, or a message outside its window
        p.params = vec![rng.below(3) as i64, rng.chance(1, 3) as i64, *rng.pick(&[0, 0, 1, 2])];
        for _ in 0..rng.range(1, 4) {
            // damage that keeps the length
            let w = [0, 8, 6, 0, 0, 0, 0, 2, 0, 0, 5, 3, 0];
            p.steps.push(gen_damage(rng, &w));
        }
        p
    }
    fn exec(&self, p: &Plan, cx: &mut Cx) -> R {
        if p.steps.len() < 3 || p.steps[..3].iter().any(|s| s.op != MSG) {
            return Ok(());
        }
        let (a, f, b) = (framed_msg(&p.steps[0]), msg(&p.steps[1]), framed_msg(&p.steps[2]));
        let mut k = p.upar(0) % 3;
        while f.bytes.len() > PREFS[k].max() {
            k += 1;
        }
        let mut payload = f.bytes.clone();
        for s in &p.steps[3..] {
            if matches!(s.op, FLIP | SET | FILL | SWAP | HUGE) {
                damage(&mut payload, s, cx);
            }
        }
        if payload.len() != f.bytes.len() {
            return Ok(());
        }
        let mut buf = a.bytes.clone();
        let fs = buf.len();
        buf.extend_from_slice(&(payload.len() as u32).to_be_bytes()[4 - PREFS[k].width()..]);
        let ps = buf.len();
        buf.extend_from_slice(&payload);
        let fe = buf.len();
        let behind = p.par(2);
        if behind != 1 {
            buf.extend_from_slice(&b.bytes);
        }
        cx.sig.s(f.t.name.as_bytes());
        cx.sig.u(k as u64);
        cx.bytes(&buf);
        let outer = p.par(1) != 0;
        for kind in KINDS {
            let r = guarded(|| -> R {
                let mut q = SimParser::with(&buf, Cfg { kind, budget: op_budget(buf.len()), ..Default::default() });
                if outer && q.set_fit(if behind == 2 { fe } else { buf.len() }).is_err() {
                    return Ok(());
                }
                let d0 = q.depth();
                // neighbours that do not decode on their own are other properties' business
                match (a.t.parse_sim)(&mut q) {
                    Ok(v) if q.consumed == fs => ensure!(v == a.val, "neighbour", "{kind:?}: the message before the field ({}) decodes as {}", a.t.name, shortv(&v)),
                    _ => return Ok(()),
                }
                let r = (f.t.parse_dyn)(k as u8, &mut q);
                let what = || format!("{kind:?}: {:?}-prefixed {} with payload {} (sent {})", PREFS[k], f.t.name, short(&payload), short(&f.bytes));
                cx.ev(1, r.is_ok() as u64);
                match r {
                    Ok(v) => {
                        ensure!(q.consumed == fe, "field-extent", "{}: decoded, having consumed up to {} where the field ends at {}", what(), q.consumed - fs, fe - fs);
                        ensure!(q.depth() == d0, "field-extent", "{}: decoded, {} windows are open instead of {d0}", what(), q.depth());
                        if payload == f.bytes {
                            ensure!(v == f.val, "field-value", "{}: decodes as {}", what(), shortv(&v));
                        } else {
                            cx.count("damaged payload accepted", 1);
                        }
                    }
                    Err(e) => {
                        ensure!(payload != f.bytes, "field-value", "{}: intact field rejected: {e:?}", what());
                        ensure!(q.consumed <= fe, "field-extent", "{}: rejected after reading {} bytes beyond the field", what(), q.consumed.saturating_sub(fe));
                        cx.count("damaged payload rejected", 1);
                        cx.fault("resynchronisation by discarding the window");
                        let mut guard = 0;
                        while q.depth() > d0 {
                            let n = q.remainder();
                            ensure!(q.consume(n).is_ok() && q.enforce_target().is_ok(), "resync", "{}: after the failure, discarding the {n} bytes left in the window and closing it is refused", what());
                            guard += 1;
                            ensure!(guard < 200, "resync", "{}: windows do not close", what());
                        }
                        ensure!(q.consumed == fe, "resync", "{}: after discarding the open windows the reader stands {} bytes into the field of {}", what(), q.consumed as i64 - fs as i64, fe - fs);
                    }
                }
                if outer && behind == 2 {
                    ensure!(q.enforce_target().is_ok(), "neighbour", "{}: the enclosing window does not close", what());
                }
                if behind == 1 {
                    ensure!(q.remainder() == 0, "neighbour", "{}: {} bytes remain behind the last field", what(), q.remainder());
                } else {
                match (b.t.parse_sim)(&mut q) {
                    Ok(v) => ensure!(v == b.val && q.consumed == buf.len(), "neighbour", "{}: the message behind it ({}) decodes as {} up to {} of {}", what(), b.t.name, shortv(&v), q.consumed, buf.len()),
                    Err(e) => return viol("neighbour", format!("{}: the message behind it ({}, {}) is rejected: {e:?}", what(), b.t.name, short(&b.bytes))),
                }
                }
                if outer && behind != 2 {
                    ensure!(q.enforce_target().is_ok(), "neighbour", "{}: the enclosing window does not close", what());
                }
                Ok(())
            });
            match r {
                Ok(r) => r?,
                // crashes and hangs are C04's business, but then nothing behind the field decodes
                Err(Caught::Panic(e)) => return viol("field-panic", format!("{kind:?}: {:?}-prefixed {} with payload {}: panicked: {e}", PREFS[k], f.t.name, short(&payload))),
                Err(_) => return Ok(()),
            }
        }
        // resynchronisation on the prefix, without looking inside
        fn skip<P: Parser + ParserExt>(
            q: &mut P, k: usize, fs: usize, f: impl Fn(&mut P) -> tedium::parse::error::ParseResult<crate::refcodec::Val>,
        ) -> Option<(usize, Option<crate::refcodec::Val>, usize)> {
            q.skip_exactly(fs).ok()?;
            let n = match k {
                0 => q.skip_dynamic::<u8>(),
                1 => q.skip_dynamic::<u16>(),
                _ => q.skip_dynamic::<u30>(),
            }
            .ok()?;
            let v = f(q).ok();
            Some((n, v, q.remainder()))
        }
        if behind == 1 {
            return Ok(());
        }
        let n = payload.len();
        let rs = guarded(|| {
            vec![
                ("ByteParser", skip(&mut ByteParser::from_buffer(VecBuffer::from(&buf[..])), k, fs, b.t.parse_byte)),
                ("MemoParser", skip(&mut MemoParser::from_buffer(VecBuffer::from(&buf[..])), k, fs, b.t.parse_memo)),
                ("SliceParser", skip(&mut SliceParser::from_buffer(SliceBuffer::from(&buf[..])), k, fs, |q| (b.t.parse_slice)(q))),
            ]
        });
        cx.fault("resynchronisation by skipping on the prefix");
        let Ok(rs) = rs else { return viol("resync", format!("skipping a {:?}-prefixed field of {n} bytes panics", PREFS[k])) };
        for (name, r) in rs {
            ensure!(r == Some((n, Some(b.val.clone()), 0)), "resync", "{name}: skipping a {:?}-prefixed field of {n} bytes at {ps}: (skipped, message behind it, rest) = {}", PREFS[k], shortv(&r));
        }
        Ok(())
    }
}

pub struct Memory;
const LOWDEC: u16 = 20;
impl World for Memory {
    fn name(&self) -> &'static str {
        "memory"
    }
    fn gen(&self, rng: &mut Rng, _thorough: bool) -> Plan {
        let mut p = Plan::new(self.name());
        p.params = vec![rng.below(3) as i64, rng.below(5) as i64];
        if rng.chance(1, 40) {
            let n = *rng.pick(&[4i64, 16, 60, 250, 250, 1000, 1000, 3000]);
            let k = rng.range(1, 5) as usize;
            p.steps.push(Step::with(BULK, &[rng.below(14) as i64, n, rng.below(3) as i64], rng.bytes(k)));
            return p;
        }
        p.steps.push(gen_msg(rng));
        let mut w = damage_weights();
        w[HUGE as usize] = 20;
        w[TRUNC as usize] = 10;
        for _ in 0..rng.range(1, 4) {
            p.steps.push(gen_damage(rng, &w));
        }
        for _ in 0..rng.below(5) {
            // low-level reads with hostile requests
            let big = *rng.pick(&[0i64, 1, 2, 40, 255, 65535, 0x3fff_ffff, 0xffff_ffff, i64::MAX, i64::MAX / 2]);
            p.steps.push(Step::new(LOWDEC, &[rng.below(9) as i64, big, rng.below(30) as i64]));
        }
        p
    }
    fn exec(&self, p: &Plan, cx: &mut Cx) -> R {
        for s in p.steps.iter().filter(|s| s.op == BULK) {
            bulk_of(s.uarg(0), s.uarg(1) % 4096, s.uarg(2), &s.b, cx)?;
            cx.nontrivial = true;
        }
        let Some(first) = p.steps.first().filter(|s| s.op == MSG) else { return Ok(()) };
        let m = msg(first);
        let mut d = m.bytes.clone();
        let dy = p.upar(1) % 5;
        if dy < 3 && d.len() <= PREFS[dy].max() {
            let mut h = (d.len() as u32).to_be_bytes()[4 - PREFS[dy].width()..].to_vec();
            h.extend_from_slice(&d);
            d = h;
        }
        for s in &p.steps[1..] {
            damage(&mut d, s, cx);
        }
        let t = m.t;
        cx.sig.s(t.name.as_bytes());
        cx.bytes(&d);
        // constant of the type + constant factor of the bytes given
        let limit = |inner: usize| 640 + 6 * t.mem as u64 + FACTOR * inner as u64;
        let what = |k: &str| format!("{} on {} ({k})", t.name, short(&d));
        if sim_dec(t, &d, Kind::Model).is_err() {
            return Ok(());
        }
        let judge = |k: &str, ok: bool, u: mem::Usage, cx: &mut Cx| -> R {
            cx.ev(1, ok as u64);
            cx.count("heap bytes accounted", u.total);
            cx.nontrivial = true;
            ensure!(u.peak <= limit(d.len()), "memory", "{}: heap peak {} bytes (largest single allocation {}) for {} input bytes, bound {}", what(k), u.peak, u.largest, d.len(), limit(d.len()));
            Ok(())
        };
        let k = p.upar(0) % 3;
        macro_rules! go {
            ($name:expr, $mk:expr, $f:expr) => {{
                let mut q = $mk;
                let (r, u) = mem::measure(|| guarded(|| $f(&mut q).map_err(|e| drop(e)).map(|v| v)));
                match r {
                    Ok(r) => judge($name, r.is_ok(), u, cx)?,
                    Err(_) => return Ok(()),
                }
            }};
        }
        if dy < 3 {
            // through the simulated seam, below a prefix
            let kind = KINDS[k];
            let mut q = SimParser::with(&d, Cfg { kind, ..Default::default() });
            let (r, u) = mem::measure(|| guarded(|| (t.parse_dyn)(dy as u8, &mut q).is_ok()));
            if let Ok(ok) = r {
                judge("below a length prefix", ok, u, cx)?;
            }
        }
        match k {
            0 => go!("ByteParser", ByteParser::from_buffer(VecBuffer::from(&d[..])), t.parse_byte),
            1 => go!("MemoParser", MemoParser::from_buffer(VecBuffer::from(&d[..])), t.parse_memo),
            _ => go!("SliceParser", SliceParser::from_buffer(SliceBuffer::from(&d[..])), |q| (t.parse_slice)(q)),
        }
        // low-level reads
        fn low<P: Parser + ParserExt>(q: &mut P, s: &Step) -> bool {
            let n = s.uarg(1);
            match s.arg(0) {
                0 => q.take_dynamic(n).is_ok(),
                1 => q.consume(n).is_ok(),
                2 => q.set_fit(n).is_ok(),
                3 => q.skip(n).is_ok(),
                4 => q.skip_exactly(n).is_ok(),
                5 => q.take_self_terminating(|b| b as usize == s.uarg(2)).is_ok(),
                6 => q.process_prefix::<u30>().is_ok(),
                7 => q.skip_dynamic::<u16>().is_ok(),
                _ => q.fast_kv_search::<[u8; 2], Vec<u8>, _, 2, 3>(&[s.uarg(1) as u8, s.uarg(2) as u8], |v| v.to_vec()).is_ok(),
            }
        }
        for s in p.steps.iter().filter(|s| s.op == LOWDEC) {
            if s.uarg(1) > d.len() {
                cx.fault("request far beyond the received bytes");
            }
            let u = match k {
                0 => {
                    let mut q = ByteParser::from_buffer(VecBuffer::from(&d[..]));
                    mem::measure(|| guarded(|| low(&mut q, s))).1
                }
                1 => {
                    let mut q = MemoParser::from_buffer(VecBuffer::from(&d[..]));
                    mem::measure(|| guarded(|| low(&mut q, s))).1
                }
                _ => {
                    let mut q = SliceParser::from_buffer(SliceBuffer::from(&d[..]));
                    mem::measure(|| guarded(|| low(&mut q, s))).1
                }
            };
            let b = 640 + FACTOR * d.len() as u64;
            cx.ev(2, s.arg(0) as u64);
            ensure!(u.peak <= b, "memory", "parser {k}, read kind {} with operand {} on {} bytes: heap peak {} (largest single allocation {}), bound {b}", s.arg(0), s.uarg(1), d.len(), u.peak, u.largest);
        }
        // the size of an announcement that cannot be kept must not matter: the smallest impossible
        // one and the largest representable one fail with the same memory
        let m0 = msg(first).bytes;
        for (i, pf) in PREFS.iter().enumerate() {
            let body = &m0[..m0.len().min(pf.max() - 1).min(40)];
            let peak = |announced: usize| {
                let mut b = (announced as u32).to_be_bytes()[4 - pf.width()..].to_vec();
                b.extend_from_slice(body);
                let mut q = SimParser::with(&b, Cfg { kind: KINDS[k], ..Default::default() });
                let (r, u) = mem::measure(|| guarded(|| (t.parse_dyn)(i as u8, &mut q).is_ok()));
                r.ok().map(|ok| (ok, u))
            };
            cx.fault("announced length larger than the bytes received");
            if let (Some((false, a)), Some((false, b))) = (peak(body.len() + 1), peak(pf.max())) {
                ensure!(b.peak <= a.peak + SLACK, "announced-allocation", "{pf:?}-prefixed {} with {} payload bytes: heap peak {} when {} bytes are announced, {} when {} are", t.name, body.len(), a.peak, body.len() + 1, b.peak, pf.max());
            }
        }
        for kind in [0i64, 1, 2, 4] {
            let peak = |n: i64| {
                let s = Step::new(LOWDEC, &[kind, n]);
                let b = &d[..d.len().min(40)];
                match k {
                    0 => {
                        let mut q = ByteParser::from_buffer(VecBuffer::from(b));
                        mem::measure(|| guarded(|| low(&mut q, &s)))
                    }
                    1 => {
                        let mut q = MemoParser::from_buffer(VecBuffer::from(b));
                        mem::measure(|| guarded(|| low(&mut q, &s)))
                    }
                    _ => {
                        let mut q = SliceParser::from_buffer(SliceBuffer::from(b));
                        mem::measure(|| guarded(|| low(&mut q, &s)))
                    }
                }
                .1
            };
            let n = d.len().min(40) as i64 + 1;
            let a = peak(n);
            for big in [n + 300, 0x3fff_ffff, i64::MAX] {
                let b = peak(big);
                ensure!(b.peak <= a.peak + SLACK, "announced-allocation", "parser {k}, read kind {kind} on {} bytes: heap peak {} when {n} bytes are requested, {} when {big} are", n - 1, a.peak, b.peak);
            }
        }
        Ok(())
    }
}
const FACTOR: u64 = 512;
/// long lists: a[0] = form, a[1] = elements, a[2] = parser
const BULK: u16 = 21;

/// decode `n` and `4 * n` elements: memory may grow with the message, not faster, and what is kept
/// may exceed what the value needs by a small factor only
fn bulk<T: tedium::Decode + Clone>(name: &str, n: usize, parser: usize, fixed: u64, wire: impl Fn(usize) -> Vec<u8>, cx: &mut Cx) -> R {
    let run = |n: usize| -> Result<(usize, bool, u64, u64, u64), Viol> {
        let d = wire(n);
        let mut b = ByteParser::from_buffer(VecBuffer::from(&d[..]));
        let mut m = MemoParser::from_buffer(VecBuffer::from(&d[..]));
        let mut s = SliceParser::from_buffer(SliceBuffer::from(&d[..]));
        let ((v, kept), u) = mem::measure(|| {
            let v = guarded(|| match parser % 3 {
                0 => T::parse(&mut b).ok(),
                1 => T::parse(&mut s).ok(),
                _ => T::parse(&mut m).ok(),
            });
            (v, mem::live())
        });
        let v = v.ok().flatten();
        let (_c, uc) = mem::measure(|| v.clone());
        Ok((d.len(), v.is_some(), u.peak, kept, uc.peak))
    };
    let (l1, ok1, p1, ..) = run(n)?;
    let (l4, ok4, p4, kept, need) = run(4 * n)?;
    cx.ev(3, ok4 as u64 | (parser as u64 % 3) << 1);
    cx.fault("long list");
    if !(ok1 && ok4) {
        return Ok(());
    }
    cx.say(|| format!("{name}: {n} elements ({l1} bytes) peak {p1}; {} elements ({l4} bytes) peak {p4}, kept {kept}, needed {need}", 4 * n));
    ensure!(p4 <= 7 * p1 + 8192, "memory", "{name}, parser {}: {l1} bytes of {n} elements take {p1} bytes of memory, {l4} bytes of {} take {p4}", parser % 3, 4 * n);
    // a tracing parser keeps its trace
    if parser % 3 != 2 {
        ensure!(kept <= 4 * need + fixed * 4 * n as u64 + 4096, "memory", "{name}, parser {}: {l4} bytes of {} elements: the value keeps {kept} bytes, {need} would do", parser % 3, 4 * n);
    }
    Ok(())
}
fn bulk_of(form: usize, n: usize, parser: usize, b: &[u8], cx: &mut Cx) -> R {
    use tedium::{AutoBox, Bytes, Dynamic, FixSeq, FixedBytes, FixedString, LimSeq, Padded, Sequence, N, Z};
    let at = |i: usize| b.get(i % b.len().max(1)).copied().unwrap_or(7);
    macro_rules! list {
        ($t:ty, $fixed:expr, |$i:ident, $o:ident| $e:expr) => {
            bulk::<$t>(stringify!($t), n, parser, $fixed, |n| {
                let mut $o = Vec::new();
                for $i in 0..n {
                    $e;
                }
                $o
            }, cx)
        };
    }
    // `k` bytes behind a prefix of one byte
    fn body(o: &mut Vec<u8>, k: usize, x: u8) {
        o.extend(std::iter::repeat(x & 0x7f).take(k));
    }
    match form % 14 {
        0 => list!(Sequence<Dynamic<u8, Bytes>>, 0, |i, o| { let k = at(i) as usize % 4; o.push(k as u8); body(&mut o, k, at(i)) }),
        1 => list!(Sequence<Dynamic<u16, String>>, 0, |i, o| { let k = at(i) as usize % 6; o.extend([0, k as u8]); body(&mut o, k, at(i)) }),
        2 => list!(Sequence<N>, 64, |i, o| { let k = at(i) as usize % 3; o.extend(std::iter::repeat(0x81).take(k)); o.push(1 + at(i) % 100) }),
        3 => list!(Sequence<Z>, 64, |i, o| { let k = at(i) as usize % 12; o.extend(std::iter::repeat(0x81).take(k)); o.push(1 + at(i) % 100) }),
        4 => list!(Sequence<u64>, 0, |i, o| o.extend([at(i); 8])),
        5 => list!(Sequence<FixedBytes<64>>, 0, |i, o| o.extend([at(i); 64])),
        6 => list!(Sequence<Option<Dynamic<u8, Bytes>>>, 0, |i, o| if at(i) % 2 == 0 { o.push(0) } else { o.extend([0xff, 1, at(i)]) }),
        7 => list!(Sequence<AutoBox<FixedBytes<32>>>, 0, |i, o| o.extend([at(i); 32])),
        8 => list!(Sequence<FixedString<24>>, 0, |i, o| o.extend([at(i); 24])),
        9 => list!(Sequence<Dynamic<u8, LimSeq<u16, 6>>>, 16, |i, o| { let k = at(i) as usize % 7; o.push(2 * k as u8); body(&mut o, 2 * k, at(i)) }),
        10 => list!(Sequence<FixSeq<u32, 5>>, 24, |i, o| o.extend([at(i); 20])),
        11 => list!(Sequence<Padded<u16, 3>>, 0, |i, o| o.extend([at(i), 3, 0, 0, 0])),
        12 => list!(Bytes, 0, |i, o| o.push(at(i))),
        _ => list!(Sequence<Dynamic<u8, Sequence<u16>>>, 64, |i, o| { let k = at(i) as usize % 5; o.push(2 * k as u8); body(&mut o, 2 * k, at(i)) }),
    }
}
/// error values may mention the numbers they are about
const SLACK: u64 = 128;
