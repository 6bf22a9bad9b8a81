//! World `position` (C18): the same bytes decoded alone, and inside a buffer after a history of
//! reads, skips, refused operations and reader restarts, below nested windows.
//! World `complete` (C09): every decoding entry point on messages with trailing bytes.
use super::hist::Px;
use super::util::*;
use crate::core::*;
use crate::ensure;
use crate::plan::{Plan, Step};
use crate::refcodec::Val;
use crate::rng::Rng;
use crate::types::{DErr, TypeOps};
use tedium::parse::buffer::{SliceBuffer, VecBuffer};
use tedium::{ByteParser, MemoParser, Parser, SliceParser};

pub struct Position;
const READ: u16 = 20;
const SKIP: u16 = 21;
const SKIPX: u16 = 22;
const INNER: u16 = 23;
const REFUSED: u16 = 24;
const OPEN: u16 = 25;
const RESTART: u16 = 26;
const BYTE: u16 = 27;
const FAILDEC: u16 = 28;

impl World for Position {
    fn name(&self) -> &'static str {
        "position"
    }
    fn gen(&self, rng: &mut Rng, thorough: bool) -> Plan {
        let mut p = Plan::new(self.name());
        let n = match rng.below(4) {
            0 => 0,
            1 | 2 => rng.range(1, 20),
            _ if rng.chance(1, 30) => scale(rng, 13) as u64,
            _ => rng.range(20, 120),
        };
        p.data = rng.bytes(n as usize);
        // trailing bytes behind the message, and whether the message is still used as a whole window
        p.params = vec![rng.below(20) as i64 * rng.below(2) as i64, rng.below(256) as i64];
        p.steps.push(gen_msg(rng));
        if rng.chance(1, 3) {
            let w = damage_weights();
            for _ in 0..rng.range(1, 3) {
                p.steps.push(gen_damage(rng, &w));
            }
        }
        let n = rng.range(1, if thorough { 40 } else { 16 });
        if rng.chance(1, 40) {
            // far down
            let depth = if rng.chance(1, 3) { rng.range(60, 300) } else { rng.range(10, 60) };
            for _ in 0..depth {
                p.steps.push(Step::new(OPEN, &[rng.below(12) as i64, 0]));
            }
        }
        for _ in 0..n {
            let op = *rng.pick(&[READ, READ, SKIP, SKIPX, INNER, REFUSED, REFUSED, OPEN, OPEN, OPEN, RESTART, BYTE, FAILDEC]);
            let a = if p.data.len() > 200 && rng.chance(1, 4) { 1000 } else { rng.below(12) as i64 * if rng.chance(1, 8) { 7 } else { 1 } };
            p.steps.push(Step::new(op, &[a, rng.below(8) as i64]));
        }
        // mostly end with the message filling its window, as in framed formats
        if rng.chance(2, 3) {
            p.steps.push(Step::new(OPEN, &[0, 0]));
        }
        p
    }
    fn exec(&self, p: &Plan, cx: &mut Cx) -> R {
        let Some(first) = p.steps.first().filter(|s| s.op == MSG) else { return Ok(()) };
        let m = msg(first);
        let mut d = m.bytes.clone();
        for s in &p.steps[1..] {
            damage(&mut d, s, cx);
        }
        let start = p.data.len();
        let mut buf = p.data.clone();
        buf.extend_from_slice(&d);
        let mend = buf.len();
        let fill = Rng::new(p.par(1) as u64).bytes(p.upar(0).min(200));
        buf.extend_from_slice(&fill);
        cx.sig.s(m.t.name.as_bytes());
        cx.bytes(&buf);
        one(&p.steps, m.t, &buf, start, mend, "ByteParser", |b| ByteParser::from_buffer(VecBuffer::from(b)), cx)?;
        one(&p.steps, m.t, &buf, start, mend, "MemoParser", |b| MemoParser::from_buffer(VecBuffer::from(b)), cx)?;
        one(&p.steps, m.t, &buf, start, mend, "SliceParser", |b| SliceParser::from_buffer(SliceBuffer::from(b)), cx)
    }
}
#[allow(clippy::too_many_arguments)]
fn one<'a, P: Px>(
    steps: &[Step],
    t: &'static TypeOps,
    buf: &'a [u8],
    start: usize,
    mend: usize,
    kind: &str,
    mk: impl Fn(&'a [u8]) -> P,
    cx: &mut Cx,
) -> R {
    let mut p = mk(buf);
    let mut pos = 0usize;
    let mut lim: Vec<usize> = vec![];
    let end = |lim: &[usize]| lim.last().copied().unwrap_or(buf.len());
    // whatever does not go as the parser contract says is another property's business: no verdict
    macro_rules! need {
        ($e:expr) => {
            match guarded(|| $e) {
                Ok(true) => {}
                _ => return Ok(()),
            }
        };
    }
    for s in steps {
        let n = if s.arg(0) >= 1000 { start - pos } else { s.uarg(0).min(start - pos) };
        let rem = end(&lim) - pos;
        match s.op {
            READ => {
                need!(p.consume(n).map_or(false, |b| b.len() == n));
                pos += n;
            }
            BYTE if pos < start => {
                need!(p.consume_byte().is_ok());
                pos += 1;
            }
            SKIP => {
                need!(tedium::parse::ParserExt::skip(&mut p, n).ok() == Some(n));
                pos += n;
            }
            SKIPX => {
                need!(p.skip_exactly(n).is_ok());
                pos += n;
            }
            INNER => {
                // a window opened and closed again before the message
                need!(p.set_fit(n).is_ok() && p.consume(n / 2).is_ok() && p.skip_exactly(n - n / 2).is_ok() && p.enforce_target().is_ok());
                pos += n;
            }
            REFUSED => {
                let k = rem + 1 + s.uarg(0);
                cx.fault("refused operation before the message");
                match s.arg(1) % 6 {
                    0 => need!(p.consume(k).is_err()),
                    1 => need!(p.skip_exactly(k).is_err()),
                    2 => need!(p.set_fit(k).is_err()),
                    3 => need!(p.take_dynamic(usize::MAX - s.uarg(0)).is_err()),
                    4 if rem < 8 => need!(p.take_u64().is_err()),
                    _ if rem > 0 || lim.is_empty() => need!(p.enforce_target().is_err()),
                    _ => {}
                }
            }
            OPEN => {
                let e = (mend + s.uarg(0)).min(end(&lim));
                need!(p.set_fit(e - pos).is_ok());
                lim.push(e);
                cx.count("windows opened around the message", 1);
            }
            FAILDEC | RESTART => {
                if s.op == FAILDEC {
                    cx.fault("failed decode before the message, reader restarted");
                    let _ = guarded(|| p.ty(crate::types::ty(s.uarg(0) + 8 * s.uarg(1))).is_ok());
                } else {
                    cx.fault("reader crash and restart from checkpoint");
                }
                p = mk(buf);
                for l in &lim {
                    need!(p.set_fit(*l).is_ok());
                }
                need!(p.skip_exactly(pos).is_ok());
            }
            _ => continue,
        }
        cx.ev(s.op as u64, 0);
    }
    need!(p.skip_exactly(start - pos).is_ok());
    let view = &buf[start..end(&lim)];
    need!(p.remainder() == view.len());
    // alone
    let mut q = mk(view);
    type O = Result<Option<Val>, ()>;
    let alone: O = guarded(|| q.ty(t).ok()).map_err(|_| ());
    let here: O = match guarded(|| p.ty(t).ok()) {
        Ok(v) => Ok(v),
        Err(_) => Err(()),
    };
    cx.ev(2, matches!(here, Ok(Some(_))) as u64);
    cx.ev(3, lim.len().min(5) as u64);
    cx.nontrivial |= start > 0 || !lim.is_empty();
    cx.say(|| format!("{kind}: {} at {start} of {}, {} windows: {}", t.name, buf.len(), lim.len(), shortv(&here)));
    let ctx = || format!("{kind}: {} on {} at offset {start} of {} bytes, below {} windows", t.name, short(view), buf.len(), lim.len());
    ensure!(here == alone, "position", "{}: gives {}, decoded alone it gives {}", ctx(), shortv(&here), shortv(&alone));
    if let Ok(Some(_)) = here {
        let (r1, r2) = (p.remainder(), q.remainder());
        ensure!(r1 == r2, "position", "{}: leaves {r1} bytes of the view, decoded alone it leaves {r2}", ctx());
        // the windows around the message must be the ones that were open before
        pos = start + view.len() - r1;
        for i in (0..lim.len()).rev() {
            let n = lim[i] - pos;
            let ok = guarded(|| p.remainder() == n && p.skip_exactly(n).is_ok() && p.enforce_target().is_ok()).unwrap_or(false);
            ensure!(ok, "windows-changed", "{}: after it, window {i} does not close where it was opened to end", ctx());
            pos = lim[i];
        }
        let left = guarded(|| p.remainder()).unwrap_or(usize::MAX);
        ensure!(left == buf.len() - pos, "windows-changed", "{}: after closing all windows {left} bytes are in view instead of {}", ctx(), buf.len() - pos);
        let n = left;
        let extra = guarded(|| p.skip_exactly(n).is_ok() && p.enforce_target().is_ok()).unwrap_or(false);
        ensure!(!extra, "windows-changed", "{}: an extra window was left open", ctx());
    }
    Ok(())
}

pub struct Complete;
impl World for Complete {
    fn name(&self) -> &'static str {
        "complete-parse"
    }
    fn gen(&self, rng: &mut Rng, _thorough: bool) -> Plan {
        let mut p = Plan::new(self.name());
        p.steps.push(gen_msg(rng));
        match rng.below(5) {
            0 => {}
            1 | 2 => {
                // bytes of the next message, or line noise, behind this one
                let n = match rng.below(3) {
                    0 => 1,
                    1 => rng.range(1, 8),
                    _ => rng.range(8, 60),
                } as usize;
                let b = if rng.chance(1, 3) { vec![0u8; n] } else { rng.bytes(n) };
                p.steps.push(Step::with(APPEND, &[0], b));
            }
            _ => {
                let w = damage_weights();
                for _ in 0..rng.range(1, 3) {
                    p.steps.push(gen_damage(rng, &w));
                }
            }
        }
        p
    }
    fn exec(&self, p: &Plan, cx: &mut Cx) -> R {
        let Some(first) = p.steps.first().filter(|s| s.op == MSG) else { return Ok(()) };
        let m = msg(first);
        let t = m.t;
        let mut d = m.bytes.clone();
        for s in &p.steps[1..] {
            damage(&mut d, s, cx);
        }
        cx.sig.s(t.name.as_bytes());
        cx.bytes(&d);
        // what an incremental decode does with these bytes
        let base = guarded(|| {
            let mut q = ByteParser::from_buffer(VecBuffer::from(&d[..]));
            let v = (t.parse_byte)(&mut q).ok();
            (v, q.remainder())
        });
        let Ok((base, rem)) = base else { return Ok(()) };
        cx.ev(1, base.is_some() as u64 * 2 + (rem > 0) as u64);
        if base.is_some() && rem > 0 {
            cx.nontrivial = true;
            cx.fault("trailing bytes behind a message");
        }
        let rest = d[d.len() - rem.min(d.len())..].to_vec();
        for k in 0..5u8 {
            let name = ["&[u8] by ByteParser", "Vec<u8> by ByteParser", "HexString by ByteParser", "&[u8] by MemoParser", "&[u8] by SliceParser"][k as usize];
            let r = match guarded(|| (t.try_decode)(k, &d)) {
                Ok(r) => r,
                Err(Caught::Panic(e)) => return viol("entry-panic", format!("{}::try_decode({name}) on {}: panicked: {e}", t.name, short(&d))),
                Err(_) => return viol("harness", "sim unwind"),
            };
            cx.say(|| format!("{name}: {}", shortv(&r)));
            let ok = match (&base, &r) {
                (None, Err(DErr::NonEmpty(_))) => false,
                (None, Err(_)) => true,
                (Some(v), Ok(w)) => v == w && (!cfg!(feature = "complete") || rem == 0),
                (Some(_), Err(DErr::NonEmpty(l))) => cfg!(feature = "complete") && rem > 0 && *l == rest,
                _ => false,
            };
            ensure!(ok, "complete-parse", "{}::try_decode({name}) on {}: gives {}; a decode yields {} and leaves {rem} bytes ({})", t.name, short(&d), shortv(&r), shortv(&base), if cfg!(feature = "complete") { "complete parse required" } else { "trailing bytes allowed" });
        }
        let accepted = base.is_some() && (!cfg!(feature = "complete") || rem == 0);
        for k in 0..2u8 {
            let name = ["decode", "decode_memo"][k as usize];
            match guarded(|| (t.decode)(k, &d)) {
                Ok(v) => ensure!(accepted && Some(&v) == base.as_ref(), "complete-parse", "{}::{name} on {}: returns {}; a decode yields {} and leaves {rem} bytes", t.name, short(&d), shortv(&v), shortv(&base)),
                Err(Caught::Panic(_)) => ensure!(!accepted, "complete-parse", "{}::{name} on {}: panics; a decode yields {} and leaves {rem} bytes", t.name, short(&d), shortv(&base)),
                Err(_) => return viol("harness", "sim unwind"),
            }
        }
        Ok(())
    }
}
