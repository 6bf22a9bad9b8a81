//! World `hist`: arbitrary histories of parser operations, including refused ones, driven against
//! the three real parsers. The focus selects the oracle: a reference cursor (C01), each other (C02),
//! a twin that never saw the refused operations (C03), the leftover report (C09), the printed trace
//! (C14), a twin that reads instead of skipping (C17).
use crate::core::*;
use crate::ensure;
use crate::plan::{Plan, Step};
use crate::refcodec::{self as rc, Val};
use crate::rng::{Choices, Rng};
use super::util::scale;
use crate::simparser::ModelParser;
use crate::types::{self, TypeOps};
use tedium::parse::buffer::{SliceBuffer, VecBuffer};
use tedium::parse::cleanup::{CleanupResult, LeftoverState};
use tedium::parse::error::{ParseError, ParseResult, WindowError};
use tedium::parse::ParserExt;
use tedium::{u30, ByteParser, MemoParser, Parser, SliceParser};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Focus {
    C01,
    C02,
    C03,
    C09,
    C14,
    C17,
    /// C17 over logs of key/value records
    Log,
}
pub struct Hist(pub Focus);

#[derive(Clone, Debug, PartialEq)]
pub enum Out {
    Bytes(Vec<u8>),
    Num(i128),
    Bool(bool),
    Unit,
    Size(usize),
    Val(Val),
    Opt(Option<Vec<u8>>),
    /// 1 any refusal, 2 close without window, 3 close with residue
    Err(u8),
}
impl Out {
    pub fn failed(&self) -> bool {
        matches!(self, Out::Err(_))
    }
}

pub const CONSUME: u16 = 0;
pub const BYTE: u16 = 1;
pub const ARR: u16 = 2;
pub const TYPED: u16 = 3;
pub const DYN: u16 = 4;
pub const TAG: u16 = 5;
pub const TERM: u16 = 6;
pub const SKIP: u16 = 7;
pub const SKIPX: u16 = 8;
pub const OPEN: u16 = 9;
pub const TEST: u16 = 10;
pub const CLOSE: u16 = 11;
pub const PREFIX: u16 = 12;
pub const SKIPDYN: u16 = 13;
pub const KV: u16 = 14;
pub const DECODE: u16 = 15;
pub const NEXT: u16 = 16;
pub const RESTART: u16 = 17;
pub const FIXED: u16 = 18;
pub const DUMP: u16 = 19;
pub const NAMES: [&str; 20] = [
    "consume", "consume_byte", "consume_arr", "take_typed", "take_dynamic", "take_tagword", "take_self_terminating",
    "skip", "skip_exactly", "set_fit", "test_target", "enforce_target", "process_prefix", "skip_dynamic",
    "fast_kv_search", "decode", "next", "checkpoint/restart", "take_fixed", "dump_state",
];
/// operations that either happen entirely or are refused entirely
pub fn primitive(code: u16) -> bool {
    matches!(code, CONSUME | BYTE | ARR | DYN | SKIPX | OPEN | CLOSE | NEXT | FIXED)
}

#[derive(Clone, Debug)]
pub struct Op {
    pub code: u16,
    pub n: usize,
    pub x: usize,
    pub y: usize,
    pub key: Vec<u8>,
}

pub trait Px: Parser + ParserExt + Iterator<Item = u8> {
    fn ty(&mut self, t: &TypeOps) -> ParseResult<Val>;
}
impl Px for ByteParser {
    fn ty(&mut self, t: &TypeOps) -> ParseResult<Val> {
        (t.parse_byte)(self)
    }
}
impl Px for MemoParser {
    fn ty(&mut self, t: &TypeOps) -> ParseResult<Val> {
        (t.parse_memo)(self)
    }
}
impl Px for SliceParser<'_> {
    fn ty(&mut self, t: &TypeOps) -> ParseResult<Val> {
        (t.parse_slice)(self)
    }
}

const ARRS: [usize; 10] = [0, 1, 2, 3, 4, 5, 7, 8, 16, 33];
const KVS: [(usize, usize); 7] = [(1, 1), (2, 1), (2, 3), (4, 4), (3, 0), (1, 8), (8, 2)];
const TAGS8: [u8; 4] = [0, 1, 7, 255];
const TAGS16: [u16; 3] = [0, 258, 65535];
const TAGS32: [u32; 3] = [0, 1, 0x01020304];

fn err(e: ParseError) -> Out {
    Out::Err(match e {
        ParseError::Window(WindowError::CloseWithoutWindow) => 2,
        ParseError::Window(WindowError::CloseWithResidue { .. }) => 3,
        _ => 1,
    })
}
fn o<T>(r: ParseResult<T>, f: impl FnOnce(T) -> Out) -> Out {
    match r {
        Ok(x) => f(x),
        Err(e) => err(e),
    }
}
fn arr<P: Parser>(p: &mut P, k: usize, fixed: bool) -> Out {
    macro_rules! a { ($($n:literal),*) => { match k { $($n => if fixed { o(p.take_fixed::<$n>(), |x| Out::Bytes(x.to_vec())) } else { o(p.consume_arr::<$n>(), |x| Out::Bytes(x.to_vec())) },)* _ => unreachable!() } } }
    a!(0, 1, 2, 3, 4, 5, 7, 8, 16, 33)
}
fn kv<P: ParserExt>(p: &mut P, i: usize, key: &[u8]) -> Out {
    macro_rules! a { ($($i:literal $m:literal $n:literal),*) => { match i { $($i => {
        let k: [u8; $m] = key.try_into().unwrap();
        o(p.fast_kv_search::<[u8; $m], Vec<u8>, _, $m, $n>(&k, |v: [u8; $n]| v.to_vec()), Out::Opt)
    })* _ => unreachable!() } } }
    a!(0 1 1, 1 2 1, 2 2 3, 3 4 4, 4 3 0, 5 1 8, 6 8 2)
}
fn term(kind: usize) -> fn(u8) -> bool {
    match kind % 4 {
        0 => |b| b & 0x80 == 0,
        1 => |b| b == 0,
        2 => |_| false,
        _ => |_| true,
    }
}
pub fn apply<P: Px>(p: &mut P, op: &Op) -> Out {
    let n = op.n;
    match op.code {
        CONSUME => o(p.consume(n).map(|x| x.to_vec()), Out::Bytes),
        BYTE => o(p.consume_byte(), |x| Out::Num(x as i128)),
        ARR => arr(p, op.x, false),
        FIXED => arr(p, op.x, true),
        TYPED => match op.x {
            0 => o(p.take_u8(), |x| Out::Num(x as i128)),
            1 => o(p.take_i8(), |x| Out::Num(x as i128)),
            2 => o(p.take_u16(), |x| Out::Num(x as i128)),
            3 => o(p.take_i16(), |x| Out::Num(x as i128)),
            4 => o(p.take_u32(), |x| Out::Num(x as i128)),
            5 => o(p.take_i32(), |x| Out::Num(x as i128)),
            6 => o(p.take_u64(), |x| Out::Num(x as i128)),
            7 => o(p.take_i64(), |x| Out::Num(x as i128)),
            8 => o(p.take_f64(), |x| Out::Num(x.to_bits() as i128)),
            _ => o(p.take_bool(), Out::Bool),
        },
        DYN => o(p.take_dynamic(n), Out::Bytes),
        TAG => match op.x {
            0 => o(p.take_tagword::<(), u8, _>(TAGS8), |x| Out::Num(x as i128)),
            1 => o(p.take_tagword::<(), u16, _>(&TAGS16[..]), |x| Out::Num(x as i128)),
            2 => o(p.take_tagword::<(), u32, _>(TAGS32.to_vec()), |x| Out::Num(x as i128)),
            3 => o(p.take_tagword::<(), u8, _>(Vec::<u8>::new()), |x| Out::Num(x as i128)),
            _ => o(p.take_tagword::<(), u16, _>(TAGS16.iter().copied().collect::<std::collections::HashSet<u16>>()), |x| {
                Out::Num(x as i128)
            }),
        },
        TERM => o(p.take_self_terminating(term(op.x)), Out::Bytes),
        SKIP => o(p.skip(n), Out::Size),
        SKIPX => o(p.skip_exactly(n), |_| Out::Unit),
        OPEN => o(p.set_fit(n), |_| Out::Unit),
        TEST => o(p.test_target(), Out::Bool),
        CLOSE => o(p.enforce_target(), |_| Out::Unit),
        PREFIX => o(
            match op.x {
                0 => p.process_prefix::<u8>(),
                1 => p.process_prefix::<u16>(),
                _ => p.process_prefix::<u30>(),
            },
            Out::Size,
        ),
        SKIPDYN => o(
            match op.x {
                0 => p.skip_dynamic::<u8>(),
                1 => p.skip_dynamic::<u16>(),
                _ => p.skip_dynamic::<u30>(),
            },
            Out::Size,
        ),
        KV => kv(p, op.x, &op.key),
        DECODE => o(p.ty(types::ty(op.x)), Out::Val),
        NEXT => match p.next() {
            Some(b) => Out::Num(b as i128),
            None => Out::Err(1),
        },
        _ => Out::Unit,
    }
}

fn be(b: &[u8]) -> u128 {
    b.iter().fold(0, |a, &x| a << 8 | x as u128)
}
fn sx(b: &[u8]) -> i128 {
    let s = 128 - 8 * b.len() as u32;
    ((be(b) << s) as i128) >> s
}
/// what the reference cursor does; `None`: a failed decode, whose final position is unspecified
pub fn model(m: &mut ModelParser, op: &Op) -> Option<Out> {
    let bytes = |x: Option<&[u8]>| x.map_or(Out::Err(1), |b| Out::Bytes(b.to_vec()));
    let num = |x: Option<&[u8]>| x.map_or(Out::Err(1), |b| Out::Num(be(b) as i128));
    let snum = |x: Option<&[u8]>| x.map_or(Out::Err(1), |b| Out::Num(sx(b)));
    Some(match op.code {
        CONSUME | DYN => bytes(m.take(op.n)),
        BYTE | NEXT => num(m.take(1)),
        ARR | FIXED => bytes(m.take(op.x)),
        TYPED => match op.x {
            0 => num(m.take(1)),
            1 => snum(m.take(1)),
            2 => num(m.take(2)),
            3 => snum(m.take(2)),
            4 => num(m.take(4)),
            5 => snum(m.take(4)),
            6 | 8 => num(m.take(8)),
            7 => snum(m.take(8)),
            _ => match m.take(1) {
                Some([0]) => Out::Bool(false),
                Some([0xff]) => Out::Bool(true),
                _ => Out::Err(1),
            },
        },
        TAG => {
            let w = [1, 2, 4, 1, 2][op.x];
            match m.take(w) {
                None => Out::Err(1),
                Some(b) => {
                    let v = be(b);
                    let ok = match op.x {
                        0 => TAGS8.iter().any(|&t| t as u128 == v),
                        2 => TAGS32.iter().any(|&t| t as u128 == v),
                        3 => false,
                        _ => TAGS16.iter().any(|&t| t as u128 == v),
                    };
                    if ok {
                        Out::Num(v as i128)
                    } else {
                        Out::Err(1)
                    }
                }
            }
        }
        TERM => {
            let f = term(op.x);
            let mut v = vec![];
            loop {
                match m.take(1) {
                    None => break Out::Err(1),
                    Some(b) => {
                        v.push(b[0]);
                        if f(b[0]) {
                            break Out::Bytes(v);
                        }
                    }
                }
            }
        }
        SKIP => {
            let k = op.n.min(m.rem());
            m.take(k);
            Out::Size(k)
        }
        SKIPX => m.take(op.n).map_or(Out::Err(1), |_| Out::Unit),
        OPEN => {
            if m.open(op.n) {
                Out::Unit
            } else {
                Out::Err(1)
            }
        }
        TEST => Out::Bool(m.may_close()),
        CLOSE => {
            if m.lim.is_empty() {
                Out::Err(2)
            } else if m.close() {
                Out::Unit
            } else {
                Out::Err(3)
            }
        }
        PREFIX | SKIPDYN => match m.take([1, 2, 4][op.x]) {
            None => Out::Err(1),
            Some(b) => {
                let l = be(b) as usize;
                if l > 0x3fff_ffff || !m.open(l) {
                    Out::Err(1)
                } else {
                    if op.code == SKIPDYN {
                        m.take(l);
                        m.close();
                    }
                    Out::Size(l)
                }
            }
        },
        KV => {
            let (ks, vs) = KVS[op.x];
            loop {
                if m.rem() == 0 {
                    break Out::Opt(None);
                }
                match m.take(ks) {
                    None => break Out::Err(1),
                    Some(k) => match (k == &op.key[..], m.take(vs)) {
                        (_, None) => break Out::Err(1),
                        (true, Some(v)) => break Out::Opt(Some(v.to_vec())),
                        _ => {}
                    },
                }
            }
        }
        DECODE => {
            let mut c = rc::Cur { b: m.b, pos: m.pos, end: m.limit() };
            match rc::dec(&(types::ty(op.x).sch)(), &mut c) {
                Ok(v) => {
                    m.pos = c.pos;
                    Out::Val(v)
                }
                Err(()) => return None,
            }
        }
        _ => Out::Unit,
    })
}

/// the state operands are relative to
pub struct Rel {
    pub pos: usize,
    pub rem: usize,
    pub outer: usize,
    pub total: usize,
}
impl Rel {
    fn of(m: &ModelParser) -> Rel {
        let n = m.lim.len();
        let outer = if n >= 2 { m.lim[n - 2] } else { m.b.len() };
        Rel { pos: m.pos, rem: m.rem(), outer: outer - m.pos, total: m.b.len() - m.pos }
    }
}
pub fn resolve(s: &Step, rel: &Rel, buf: &[u8]) -> Op {
    let v = s.arg(1);
    let d = |b: usize| if v < 0 { b.saturating_sub(v.unsigned_abs() as usize) } else { b.saturating_add(v as usize) };
    let w = |b: usize| b.wrapping_add(v as usize);
    let n = match s.arg(0) {
        0 => v.max(0) as usize,
        1 => d(rel.rem),
        2 => usize::MAX - v.unsigned_abs() as usize,
        3 => d(rel.outer),
        4 => d(rel.total),
        5 => w(0usize.wrapping_sub(rel.pos)),
        6 => w(isize::MAX as usize),
        _ => w(1usize << 32),
    };
    let x = s.uarg(2);
    let mut op = Op { code: s.op % 20, n, x, y: s.uarg(3), key: vec![] };
    op.x = match op.code {
        ARR | FIXED => ARRS[x % ARRS.len()],
        TYPED => x % 10,
        TAG => x % 5,
        PREFIX | SKIPDYN => x % 3,
        KV => x % KVS.len(),
        DECODE => x % types::all().len(),
        _ => x,
    };
    if op.code == KV {
        let (m, n) = KVS[op.x];
        let at = rel.pos + (op.y % 8) * (m + n);
        op.key = match buf.get(at..at + m) {
            Some(k) if s.arg(0) & 1 == 1 => k.to_vec(),
            _ => (0..m).map(|i| s.b.get(i).copied().unwrap_or(0)).collect(),
        };
    }
    op
}

fn byte(b: &[u8]) -> ByteParser {
    ByteParser::from_buffer(VecBuffer::from(b))
}
fn memo(b: &[u8]) -> MemoParser {
    MemoParser::from_buffer(VecBuffer::from(b))
}
fn slice(b: &[u8]) -> SliceParser<'_> {
    SliceParser::from_buffer(SliceBuffer::from(b))
}
/// bring a fresh parser to a checkpointed state: windows, then position
fn rewind<P: Px>(p: &mut P, pos: usize, lim: &[usize]) -> Result<(), Viol> {
    for l in lim {
        if p.set_fit(*l).is_err() {
            return viol("restart", format!("a fresh parser refuses to re-open the checkpointed window ending at {l}"));
        }
    }
    if p.skip_exactly(pos).is_err() {
        return viol("restart", format!("a fresh parser refuses to skip to the checkpointed position {pos}"));
    }
    Ok(())
}

/// queries; `abs`: offset and view length are absolute
fn queries<P: Px>(p: &mut P, with_test: bool) -> (usize, usize, usize, Option<Option<bool>>) {
    let t = if with_test { Some(p.test_target().ok()) } else { None };
    (p.view_len(), p.offset(), p.remainder(), t)
}

struct Run<'a> {
    f: Focus,
    quiet: bool,
    buf: &'a [u8],
    steps: &'a [Step],
}

fn show(op: &Op) -> String {
    format!("{}(n={}, x={})", NAMES[op.code as usize], op.n, op.x)
}
fn code(out: &Out) -> u64 {
    match out {
        Out::Err(_) => 1,
        Out::Opt(None) => 2,
        Out::Bool(true) => 3,
        _ => 0,
    }
}

/// C01, C09: one real parser against the reference cursor
fn vs_model<'a, P: Px>(r: &Run<'a>, kind: &str, mk: impl Fn(&'a [u8]) -> P, cx: &mut Cx) -> R {
    let mut m = ModelParser::new(r.buf);
    let mut p = mk(r.buf);
    let abs = kind != "SliceParser";
    for (i, s) in r.steps.iter().enumerate() {
        let op = resolve(s, &Rel::of(&m), r.buf);
        if op.code == RESTART {
            cx.fault("reader crash and restart from checkpoint");
            p = mk(r.buf);
            let res = no_panic(&format!("{kind}: step {i}: restart"), || rewind(&mut p, m.pos, &m.lim))?;
            if r.f == Focus::C01 {
                res?;
            } else if res.is_err() {
                return Ok(());
            }
            continue;
        }
        if op.code == DUMP {
            continue;
        }
        let saved = (m.pos, m.lim.clone());
        let want = model(&mut m, &op);
        let got = match guarded(|| apply(&mut p, &op)) {
            Ok(g) => g,
            Err(_) if r.f == Focus::C09 => return Ok(()),
            Err(Caught::Panic(e)) => {
                return viol("panic", format!("{kind}: step {i}: {}: panicked: {e}", show(&op)));
            }
            Err(_) => return viol("harness", "sim unwind"),
        };
        cx.ev(op.code as u64, code(&got));
        cx.say(|| format!("{kind} step {i}: {} -> {got:?}", show(&op)));
        if got.failed() {
            cx.fault("operation refused");
        }
        match want {
            None => {
                // a decode that must fail: what it leaves behind is unspecified, so the reader restarts
                if !got.failed() {
                    if r.f == Focus::C09 {
                        return Ok(());
                    }
                    return viol("model-outcome", format!("{kind}: step {i}: {}: decoded {got:?} where the format has no value", show(&op)));
                }
                cx.fault("damaged message met, reader restarted");
                p = mk(r.buf);
                m.pos = saved.0;
                m.lim = saved.1.clone();
                let res = no_panic(&format!("{kind}: step {i}: restart"), || rewind(&mut p, m.pos, &m.lim))?;
                if r.f == Focus::C01 {
                    res?;
                } else if res.is_err() {
                    return Ok(());
                }
            }
            Some(w) => {
                if w != got {
                    if r.f == Focus::C09 {
                        return Ok(());
                    }
                    return viol("model-outcome", format!("{kind}: step {i}: {} gives {got:?}, the reference cursor {w:?} (position {}, limits {:?} of {})", show(&op), saved.0, saved.1, r.buf.len()));
                }
            }
        }
        if got.failed() && matches!(op.code, TAG | TERM | PREFIX | SKIPDYN | KV) {
            // how far a refused composite operation got is not specified, as long as it stays in its window
            let rem = no_panic("remainder", || p.remainder())?;
            if m.lim == saved.1 && rem <= m.limit() - saved.0 {
                m.pos = m.limit() - rem;
            }
        }
        if r.f == Focus::C01 && (!r.quiet || i + 1 == r.steps.len()) {
            let (v, off, rem, t) = no_panic("queries", || queries(&mut p, true))?;
            ensure!(rem == m.rem(), "model-query", "{kind}: after step {i} ({}): remainder() = {rem}, reference {}", show(&op), m.rem());
            ensure!(v.wrapping_sub(off) == rem, "model-query", "{kind}: after step {i}: view_len {v} - offset {off} != remainder {rem}");
            ensure!(!abs || (v == m.limit() && off == m.pos), "model-query", "{kind}: after step {i}: view_len {v}, offset {off}; reference limit {}, position {}", m.limit(), m.pos);
            ensure!(t == Some(Some(m.may_close())), "model-query", "{kind}: after step {i} ({}): test_target() = {t:?}, reference {}", show(&op), m.may_close());
        }
    }
    cx.ev(40, m.lim.len().min(6) as u64 * 8 + (m.rem() > 0) as u64);
    if r.f == Focus::C09 {
        let want = m.spans();
        let res = no_panic(&format!("{kind}: cleanup"), || p.cleanup())?;
        leftovers(kind, res, &want, m.lim.len())?;
        if !want.is_empty() {
            cx.nontrivial = true;
            cx.fault("parser abandoned with unread bytes or open windows");
        }
    }
    Ok(())
}

fn leftovers(kind: &str, res: CleanupResult, want: &[Vec<u8>], depth: usize) -> R {
    let l = match res {
        Ok(l) => l,
        Err(e) => return viol("leftover", format!("{kind}: cleanup failed: {e:?}")),
    };
    let variant = match &l {
        LeftoverState::Empty => 0,
        LeftoverState::Windowless(_) => 1,
        LeftoverState::Windowed(_) => 2,
    };
    let dbg = format!("{l:?}");
    let (spans, empty, len) = types::flat(l);
    let flat = spans.concat();
    let wflat = want.concat();
    ensure!(flat == wflat, "leftover", "{kind}: unread bytes reported as {flat:02x?}, in fact {wflat:02x?}");
    ensure!(len == wflat.len(), "leftover", "{kind}: leftover length {len}, unread bytes {}", wflat.len());
    ensure!(empty == wflat.is_empty(), "leftover", "{kind}: leftover is_empty() = {empty} with {} unread bytes ({dbg})", wflat.len());
    ensure!((variant == 2) == (depth > 0), "leftover", "{kind}: {depth} windows were open, leftover is {dbg}");
    ensure!(depth > 0 || (variant == 0) == wflat.is_empty(), "leftover", "{kind}: no window was open, {} unread bytes, leftover is {dbg}", wflat.len());
    if depth > 0 {
        // grouped by the windows still open, innermost first; trailing root residue only if present
        let g: Vec<&Vec<u8>> = spans.iter().collect();
        let w: Vec<&Vec<u8>> = want.iter().collect();
        let mut g2 = g.clone();
        while g2.len() > w.len() && g2.last().map_or(false, |x| x.is_empty()) {
            g2.pop();
        }
        ensure!(g2 == w, "leftover", "{kind}: unread bytes grouped as {g:02x?}, by the open windows they are {w:02x?}");
    }
    Ok(())
}

/// C02: lock step
fn lockstep(r: &Run, cx: &mut Cx) -> R {
    let mut a = byte(r.buf);
    let mut b = memo(r.buf);
    let mut c = slice(r.buf);
    // only used to resolve operands, and only as long as it is certain
    let mut m = Some(ModelParser::new(r.buf));
    for (i, s) in r.steps.iter().enumerate() {
        let rel = match &m {
            Some(m) => Rel::of(m),
            None => {
                let rem = no_panic("remainder", || a.remainder())?;
                let pos = no_panic("offset", || a.offset())?;
                Rel { pos, rem, outer: rem, total: r.buf.len().saturating_sub(pos) }
            }
        };
        let op = resolve(s, &rel, r.buf);
        if op.code == RESTART || op.code == DUMP {
            if op.code == RESTART {
                if let Some(m) = &m {
                    cx.fault("reader crash and restart from checkpoint");
                    a = byte(r.buf);
                    b = memo(r.buf);
                    c = slice(r.buf);
                    let x = rewind(&mut a, m.pos, &m.lim).is_ok();
                    let y = rewind(&mut b, m.pos, &m.lim).is_ok();
                    let z = rewind(&mut c, m.pos, &m.lim).is_ok();
                    ensure!(x == y && y == z, "parsers-differ", "step {i}: restart works on some parsers only: byte {x} memo {y} slice {z}");
                }
            }
            continue;
        }
        let x = guarded(|| apply(&mut a, &op));
        let y = guarded(|| apply(&mut b, &op));
        let z = guarded(|| apply(&mut c, &op));
        let st = |v: &Result<Out, Caught>| match v {
            Ok(o) => format!("{o:?}"),
            Err(Caught::Panic(e)) => format!("panic: {e}"),
            Err(Caught::Sim(_)) => "?".into(),
        };
        if x.is_err() || y.is_err() || z.is_err() {
            ensure!(x.is_err() && y.is_err() && z.is_err(), "parsers-differ", "step {i}: {}: byte {}, memo {}, slice {}", show(&op), st(&x), st(&y), st(&z));
            return Ok(());
        }
        let (x, y, z) = (x.ok().unwrap(), y.ok().unwrap(), z.ok().unwrap());
        cx.ev(op.code as u64, code(&x));
        cx.say(|| format!("step {i}: {} -> {x:?}", show(&op)));
        let same = |p: &Out, q: &Out| p.failed() && q.failed() || p == q;
        ensure!(same(&x, &y) && same(&y, &z), "parsers-differ", "step {i}: {}: byte {x:?}, memo {y:?}, slice {z:?}", show(&op));
        if x.failed() {
            cx.fault("operation refused");
        }
        if let Some(mm) = m.as_mut() {
            match model(mm, &op) {
                Some(w) if same(&w, &x) => {}
                _ => {
                    cx.fault("damaged message met, history continued");
                    m = None
                }
            }
        }
        if !r.quiet || i + 1 == r.steps.len() {
            let (x, y, z) = (
                no_panic("byte queries", || queries(&mut a, true))?,
                no_panic("memo queries", || queries(&mut b, true))?,
                no_panic("slice queries", || queries(&mut c, true))?,
            );
            ensure!(x.2 == y.2 && y.2 == z.2, "parsers-differ", "after step {i} ({}): remainder byte {}, memo {}, slice {}", show(&op), x.2, y.2, z.2);
            ensure!(x.3 == y.3 && y.3 == z.3, "parsers-differ", "after step {i} ({}): test_target byte {:?}, memo {:?}, slice {:?}", show(&op), x.3, y.3, z.3);
        }
    }
    let u = |n: &str, r: Result<CleanupResult, Viol>| -> Result<Option<Vec<u8>>, Viol> {
        match r {
            Ok(Ok(l)) => Ok(Some(types::flat(l).0.concat())),
            Ok(Err(_)) => Ok(None),
            Err(v) => viol("panic", format!("{n}: {}", v.detail)),
        }
    };
    let x = u("byte", no_panic("cleanup", || a.cleanup()))?;
    let y = u("memo", no_panic("cleanup", || b.cleanup()))?;
    let z = u("slice", no_panic("cleanup", || c.cleanup()))?;
    ensure!(x == y && y == z, "parsers-differ", "at the end of the history: unread bytes byte {x:02x?}, memo {y:02x?}, slice {z:02x?}");
    Ok(())
}

/// C03 (twin without the refused primitives), C17 (twin that reads instead of skipping)
fn twins<'a, P: Px>(r: &Run<'a>, kind: &str, mk: impl Fn(&'a [u8]) -> P, cx: &mut Cx) -> R {
    let mut a = mk(r.buf);
    let mut b = mk(r.buf);
    let mut m = Some(ModelParser::new(r.buf));
    let c17 = matches!(r.f, Focus::C17 | Focus::Log);
    let class = if c17 { "skip-differs" } else { "refusal-effect" };
    for (i, s) in r.steps.iter().enumerate() {
        let rel = match &m {
            Some(m) => Rel::of(m),
            None => {
                let rem = no_panic("remainder", || b.remainder())?;
                let pos = no_panic("offset", || b.offset())?;
                Rel { pos, rem, outer: rem, total: r.buf.len().saturating_sub(pos) }
            }
        };
        let op = resolve(s, &rel, r.buf);
        if op.code == RESTART || op.code == DUMP {
            continue;
        }
        let before = no_panic("queries", || queries(&mut a, true))?;
        let x = match guarded(|| apply(&mut a, &op)) {
            Ok(x) => x,
            // elsewhere a panic is C01's and C04's business; a refusal by panic is not one this property is about
            Err(Caught::Panic(e)) => {
                let ours = if c17 { matches!(op.code, SKIP | SKIPX | SKIPDYN | KV) } else { primitive(op.code) };
                ensure!(!ours, "panic", "{kind}: step {i}: {}: panicked: {e}", show(&op));
                return Ok(());
            }
            Err(_) => return viol("harness", "sim unwind"),
        };
        cx.ev(op.code as u64, code(&x));
        cx.say(|| format!("{kind} step {i}: {} -> {x:?}", show(&op)));
        if c17 {
            let y = match op.code {
                SKIP => {
                    let k = op.n.min(b.remainder());
                    if k < op.n {
                        cx.fault("skip cut short by the window");
                    }
                    cx.nontrivial = true;
                    match apply(&mut b, &Op { code: CONSUME, n: k, ..op.clone() }) {
                        Out::Bytes(v) => Out::Size(v.len()),
                        e => e,
                    }
                }
                SKIPX => {
                    cx.nontrivial = true;
                    if x.failed() {
                        cx.fault("skip refused");
                    }
                    match apply(&mut b, &Op { code: CONSUME, ..op.clone() }) {
                        Out::Bytes(_) => Out::Unit,
                        e => e,
                    }
                }
                SKIPDYN => {
                    // reading: the prefix opens the window, the payload is read, the window is closed
                    cx.nontrivial = true;
                    let y = match apply(&mut b, &Op { code: PREFIX, ..op.clone() }) {
                        Out::Size(l) => match apply(&mut b, &Op { code: CONSUME, n: l, ..op.clone() }) {
                            Out::Bytes(_) => match apply(&mut b, &Op { code: CLOSE, ..op.clone() }) {
                                Out::Unit => Out::Size(l),
                                e => e,
                            },
                            e => e,
                        },
                        e => e,
                    };
                    if x.failed() && y.failed() {
                        // how much of a refused skip on a prefix has happened is not specified
                        cx.fault("skip on a prefix refused");
                        return Ok(());
                    }
                    y
                }
                _ => match guarded(|| apply(&mut b, &op)) {
                    Ok(y) => y,
                    Err(_) => return Ok(()),
                },
            };
            if op.code == KV {
                let mut mm = match m.clone() {
                    Some(m) => m,
                    None => continue,
                };
                let want = model(&mut mm, &op);
                cx.nontrivial = true;
                if x.failed() {
                    cx.fault("torn record met");
                }
                if x.failed() && a.remainder() != mm.rem() {
                    // where a search stops at a torn record is not specified
                    m = None;
                }
                ensure!(Some(&x) == want.as_ref(), "kv-search", "{kind}: step {i}: searching {:02x?} with key/value widths {:?} in {:02x?} gives {x:?}, a linear scan gives {:?}", op.key, KVS[op.x], &r.buf[rel.pos..rel.pos + rel.rem], want.unwrap());
                if !x.failed() {
                    let rem = a.remainder();
                    ensure!(rem == mm.rem(), "kv-search", "{kind}: step {i}: after the search {rem} bytes remain, a linear scan leaves {}", mm.rem());
                }
            }
            ensure!(x == y, class, "{kind}: step {i}: {} gives {x:?}, reading instead gives {y:?}", show(&op));
            let qa = no_panic("queries", || queries(&mut a, true))?;
            let qb = no_panic("queries", || queries(&mut b, true))?;
            ensure!(qa == qb, class, "{kind}: after step {i} ({}): (view_len, offset, remainder, may-close) {qa:?} where skipping, {qb:?} where reading", show(&op));
        } else {
            if x.failed() && primitive(op.code) {
                cx.nontrivial = true;
                cx.fault("operation refused");
                let after = no_panic("queries", || queries(&mut a, true))?;
                ensure!(before == after, class, "{kind}: step {i}: refused {} changed (view_len, offset, remainder, may-close) from {before:?} to {after:?}", show(&op));
                continue;
            }
            let y = match guarded(|| apply(&mut b, &op)) {
                Ok(y) => y,
                Err(_) => return Ok(()),
            };
            ensure!(x == y, class, "{kind}: step {i}: {} gives {x:?} on the parser that met refusals, {y:?} on its twin", show(&op));
            if !r.quiet {
                let qa = no_panic("queries", || queries(&mut a, true))?;
                let qb = no_panic("queries", || queries(&mut b, true))?;
                ensure!(qa == qb, class, "{kind}: after step {i} ({}): queries {qa:?} on the parser that met refusals, {qb:?} on its twin", show(&op));
            }
        }
        if let Some(mm) = m.as_mut() {
            match model(mm, &op) {
                Some(w) if w == x && no_panic("remainder", || a.remainder())? == mm.rem() => {}
                _ => m = None,
            }
        }
    }
    let x = no_panic("cleanup", || a.cleanup())?;
    let y = no_panic("cleanup", || b.cleanup())?;
    match (x, y) {
        (Ok(x), Ok(y)) => ensure!(x == y, class, "{kind}: leftovers {x:?} against the twin's {y:?}"),
        (x, y) => ensure!(x.is_ok() == y.is_ok(), class, "{kind}: cleanup {x:?} against the twin's {y:?}"),
    }
    Ok(())
}

// ---- C14: the printed trace ----------------------------------------------------------------

extern "C" {
    fn memfd_create(name: *const std::os::raw::c_char, flags: u32) -> i32;
    fn dup2(a: i32, b: i32) -> i32;
    fn dup(a: i32) -> i32;
    fn lseek(fd: i32, off: i64, whence: i32) -> i64;
    fn read(fd: i32, p: *mut std::os::raw::c_void, n: usize) -> isize;
    fn ftruncate(fd: i32, n: i64) -> i32;
    fn close(fd: i32) -> i32;
}
/// what `f` prints on the error stream
pub fn capture_stderr(f: impl FnOnce()) -> String {
    use std::sync::OnceLock;
    static FD: OnceLock<i32> = OnceLock::new();
    unsafe {
        let fd = *FD.get_or_init(|| memfd_create(c"trace".as_ptr(), 0));
        ftruncate(fd, 0);
        lseek(fd, 0, 0);
        let save = dup(2);
        dup2(fd, 2);
        let r = guarded(f);
        dup2(save, 2);
        close(save);
        lseek(fd, 0, 0);
        let mut v = vec![];
        let mut b = [0u8; 4096];
        loop {
            let n = read(fd, b.as_mut_ptr().cast(), b.len());
            if n <= 0 {
                break;
            }
            v.extend_from_slice(&b[..n as usize]);
        }
        if r.is_err() {
            return "<panic>".into();
        }
        String::from_utf8_lossy(&v).into_owned()
    }
}
/// "[|ab|cd|]" -> groups, without empty ones
pub fn groups(s: &str) -> Option<Vec<Vec<u8>>> {
    let s = s.trim_end_matches('\n');
    let s = s.rsplit('\n').next()?;
    let s = s.trim().strip_prefix('[')?.strip_suffix(']')?;
    let mut v = vec![];
    for g in s.split('|') {
        let g: String = g.chars().filter(|c| !c.is_whitespace()).collect();
        if g.is_empty() {
            continue;
        }
        v.push(crate::plan::unhex(&g)?);
    }
    Some(v)
}
fn trace(r: &Run, cx: &mut Cx) -> R {
    let mut m = ModelParser::new(r.buf);
    let mut p = memo(r.buf);
    // consumed bytes: (bytes, one operation?)
    let mut exp: Vec<(Vec<u8>, bool)> = vec![];
    let check = |p: &MemoParser, exp: &[(Vec<u8>, bool)], at: usize, cx: &mut Cx| -> R {
        let out = capture_stderr(|| p.dump_state());
        cx.count("traces compared", 1);
        let g = match groups(&out) {
            Some(g) => g,
            None => return viol("trace", format!("after step {at}: unreadable trace {out:?}")),
        };
        let want: Vec<u8> = exp.iter().flat_map(|x| x.0.iter().copied()).collect();
        let got: Vec<u8> = g.concat();
        ensure!(got == want, "trace", "after step {at}: the trace lists {got:02x?}, consumed were {want:02x?}");
        let mut it = g.iter();
        for (bytes, single) in exp.iter().filter(|x| !x.0.is_empty()) {
            let mut acc = it.next().cloned().unwrap_or_default();
            while !*single && acc.len() < bytes.len() {
                acc.extend(it.next().cloned().unwrap_or_default());
            }
            ensure!(acc == *bytes, "trace-groups", "after step {at}: the trace groups {g:02x?}, the operations consumed {:02x?}", exp.iter().map(|x| &x.0).collect::<Vec<_>>());
        }
        Ok(())
    };
    for (i, s) in r.steps.iter().enumerate() {
        let op = resolve(s, &Rel::of(&m), r.buf);
        if op.code == RESTART {
            continue;
        }
        if op.code == DUMP {
            check(&p, &exp, i, cx)?;
            continue;
        }
        let from = m.pos;
        let want = model(&mut m, &op);
        let got = match guarded(|| apply(&mut p, &op)) {
            Ok(g) => g,
            Err(_) => return Ok(()),
        };
        cx.ev(op.code as u64, code(&got));
        cx.say(|| format!("step {i}: {} -> {got:?}", show(&op)));
        if got.failed() {
            cx.fault("operation refused");
        }
        match want {
            None => {
                if !got.failed() {
                    return Ok(());
                }
                // how far a failed decode got is only known from the parser itself
                let to = p.offset();
                if to < from || to > r.buf.len() {
                    return Ok(());
                }
                exp.push((r.buf[from..to].to_vec(), false));
                return check(&p, &exp, i, cx);
            }
            Some(w) => {
                if w != got || p.offset() != m.pos {
                    return Ok(());
                }
                let single = primitive(op.code) || op.code == SKIP || op.code == TYPED;
                exp.push((r.buf[from..m.pos].to_vec(), single));
            }
        }
        if !r.quiet {
            check(&p, &exp, i, cx)?;
        }
    }
    check(&p, &exp, r.steps.len(), cx)
}

// ---- generation ----------------------------------------------------------------------------

fn gen_buf(rng: &mut Rng) -> Vec<u8> {
    let mut b = vec![];
    let parts = match rng.below(8) {
        0 => 0,
        1..=4 => rng.range(1, 3),
        _ => rng.range(2, 8),
    };
    for _ in 0..parts {
        match rng.below(8) {
            0 | 1 => {
                let n = rng.range(0, 12) as usize;
                b.extend(rng.bytes(n));
            }
            2 => {
                let n = rng.range(0, 20) as usize;
                b.extend((0..n).map(|i| (i * 17) as u8));
            }
            3 | 4 => {
                // a prefix and (mostly) its payload
                let l = rng.range(0, 24) as usize;
                let odd = [0usize, l + 1, 255, 65535, 0x3fff_ffff, 0x4000_0000, 0xffff_ffff];
                let claim = if rng.chance(1, 4) { *rng.pick(&odd) } else { l };
                match rng.below(3) {
                    0 => b.push(claim as u8),
                    1 => b.extend((claim as u16).to_be_bytes()),
                    _ => b.extend((claim as u32).to_be_bytes()),
                }
                b.extend(rng.bytes(l));
            }
            5 => {
                let v = *rng.pick(&[0u8, 1, 7, 0x7f, 0x80, 0xff]);
                let n = rng.range(1, 9) as usize;
                b.extend(std::iter::repeat(v).take(n));
            }
            6 => {
                // a small key/value log
                let (m, n) = *rng.pick(&KVS);
                for i in 0..rng.range(0, 5) {
                    b.extend(std::iter::repeat(i as u8).take(m));
                    b.extend(rng.bytes(n));
                }
            }
            _ => {
                let t = types::ty(rng.below(types::all().len() as u64) as usize);
                let ch = rng.bytes(40);
                let v = rc::gen(&(t.sch)(), &mut Choices::new(&ch), 60, 0);
                let e = rc::encode(&(t.sch)(), &v);
                b.extend(&e[..e.len().min(200)]);
            }
        }
    }
    b.truncate(700);
    if rng.chance(1, 24) {
        // a long stretch: larger than whatever an implementation treats as one piece
        let n = if rng.chance(1, 40) { scale(rng, 17) } else { scale(rng, 13) };
        let s = rng.bytes(n);
        let at = if rng.chance(1, 2) { 0 } else { b.len() };
        b.splice(at..at, s);
    }
    b
}
fn operand(rng: &mut Rng, hostile: bool, len: usize) -> [i64; 2] {
    if len > 200 && rng.chance(1, 3) || rng.chance(1, 60) {
        return match rng.below(4) {
            0 => [0, rng.below(len as u64 + 2) as i64],
            1 => [1, -(rng.below(40) as i64)],
            2 => [1, 1 + rng.below(9) as i64],
            _ => [0, scale(rng, if len > 9000 { 17 } else { 13 }) as i64],
        };
    }
    match rng.below(if hostile { 16 } else { 10 }) {
        0..=4 => [0, rng.below(6) as i64],
        5 => [0, rng.below(40) as i64],
        6 | 7 => [1, 0],
        8 => [1, -(rng.below(4) as i64)],
        9 => [1, 1],
        10 => [1, 1 + rng.below(4) as i64],
        11 => [2, rng.below(40) as i64],
        12 => [3, rng.below(3) as i64 - 1],
        13 => [4, rng.below(3) as i64 - 1],
        14 => [5, rng.below(24) as i64 - 4],
        _ => [*rng.pick(&[6, 7]), rng.below(9) as i64 - 4],
    }
}
/// a log of fixed-width records (duplicated and stale keys, a torn tail), searched from everywhere
fn gen_log(rng: &mut Rng, mut p: Plan) -> Plan {
    let i = rng.below(KVS.len() as u64) as usize;
    let (m, n) = KVS[i];
    let alphabet = rng.range(1, 4);
    let key = |rng: &mut Rng| -> Vec<u8> {
        let k = rng.below(alphabet) as u8;
        // keys that differ only in their last or first byte
        let mut v = vec![0x40; m];
        if rng.chance(1, 2) {
            v[m - 1] = k;
        } else {
            v[0] = k;
        }
        v
    };
    let noise = rng.below(7) as usize;
    let records = match rng.below(6) {
        0 => 0,
        1..=4 => rng.range(1, 8),
        _ => rng.range(5, 40),
    };
    let mut log = vec![];
    for _ in 0..records {
        log.extend(key(rng));
        // values that look like keys catch misaligned scans
        let v: Vec<u8> = if rng.chance(1, 2) { rng.bytes(n) } else { key(rng).into_iter().cycle().take(n).collect() };
        log.extend(v);
    }
    if rng.chance(1, 2) {
        // the last record was torn
        let cut = rng.range(1, (m + n) as u64) as usize;
        log.truncate(log.len().saturating_sub(cut));
    }
    let lead = rng.bytes(noise);
    let trail = rng.below(8) as usize;
    p.data.extend(&lead);
    match rng.below(4) {
        0 => {
            // length-prefixed, as such lists usually are
            let l = log.len();
            let w = rng.below(3) as i64;
            match w {
                0 if l < 256 => p.data.push(l as u8),
                1 => p.data.extend((l as u16).to_be_bytes()),
                _ => p.data.extend((l as u32).to_be_bytes()),
            }
            let w = if w == 0 && l >= 256 { 2 } else { w };
            p.steps.push(Step::new(SKIPX, &[0, noise as i64]));
            p.steps.push(Step::new(PREFIX, &[0, 0, w]));
        }
        1 => {
            p.steps.push(Step::new(SKIP, &[0, noise as i64]));
            p.steps.push(Step::new(OPEN, &[0, log.len() as i64]));
        }
        2 => {
            p.steps.push(Step::new(SKIP, &[0, noise as i64]));
        }
        _ => {
            // a window that cuts the log anywhere
            p.steps.push(Step::new(CONSUME, &[0, noise as i64]));
            p.steps.push(Step::new(OPEN, &[0, rng.below(log.len() as u64 + 2) as i64]));
        }
    }
    p.data.extend(&log);
    p.data.extend(rng.bytes(trail));
    p.params = vec![0];
    for _ in 0..rng.range(1, 8) {
        match rng.below(12) {
            0..=6 => {
                let mut s = Step::new(KV, &[rng.below(2) as i64, 0, i as i64, rng.below(8) as i64]);
                s.b = if rng.chance(5, 6) { key(rng) } else { rng.bytes(m) };
                p.steps.push(s);
            }
            7 => {
                let k = rng.below(3);
                p.steps.push(Step::new(SKIPX, &[0, (k * (m + n) as u64) as i64]));
            }
            8 => {
                let [mo, va] = operand(rng, true, p.data.len());
                p.steps.push(Step::new(*rng.pick(&[SKIP, SKIPX, CONSUME]), &[mo, va]));
            }
            9 => p.steps.push(Step::new(OPEN, &[1, -(rng.below(2 * (m + n) as u64) as i64)])),
            10 => p.steps.push(Step::new(CLOSE, &[])),
            _ => {
                p.steps.push(Step::new(SKIP, &[1, rng.below(2) as i64]));
                p.steps.push(Step::new(CLOSE, &[]));
            }
        }
    }
    p
}
impl World for Hist {
    fn name(&self) -> &'static str {
        match self.0 {
            Focus::C01 => "hist-model",
            Focus::C02 => "hist-lockstep",
            Focus::C03 => "hist-refusal",
            Focus::C09 => "hist-leftover",
            Focus::C14 => "hist-trace",
            Focus::C17 => "hist-skip",
            Focus::Log => "kv-log",
        }
    }
    fn gen(&self, rng: &mut Rng, thorough: bool) -> Plan {
        let mut p = Plan::new(self.name());
        if self.0 == Focus::Log {
            return gen_log(rng, p);
        }
        p.data = gen_buf(rng);
        p.params = vec![rng.chance(1, 5) as i64];
        let mut n = match rng.below(8) {
            0 => rng.range(1, 4),
            1..=5 => rng.range(4, 24),
            _ => rng.range(20, if thorough { 160 } else { 60 }),
        };
        if self.0 == Focus::C14 && !rng.chance(1, 6) {
            // the trace is compared at the end (and at explicit points) of most runs
            p.params[0] = 1;
        }
        // op weights: the defaults, then the focus
        let mut w = [6u32, 4, 2, 3, 3, 2, 1, 3, 3, 8, 2, 4, 3, 2, 1, 2, 2, 1, 1, 0];
        match self.0 {
            Focus::C03 => {
                w[CLOSE as usize] = 8;
                w[RESTART as usize] = 0;
                w[DECODE as usize] = 1;
            }
            Focus::C17 => {
                w[SKIP as usize] = 9;
                w[SKIPX as usize] = 9;
                w[SKIPDYN as usize] = 5;
                w[KV as usize] = 5;
                w[RESTART as usize] = 0;
            }
            Focus::C14 => {
                w[SKIP as usize] = 5;
                w[SKIPX as usize] = 5;
                w[SKIPDYN as usize] = 4;
                w[DUMP as usize] = 2;
                w[RESTART as usize] = 0;
            }
            _ => {}
        }
        let hostile_run = rng.chance(3, 4);
        if rng.chance(1, 30) {
            // deeply nested windows, drained and closed one by one later on
            let depth = if rng.chance(1, 3) { rng.range(60, 300) } else { rng.range(10, 60) };
            for _ in 0..depth {
                let d = -((rng.below(8) / 6 * rng.below(3)) as i64);
                p.steps.push(Step::new(OPEN, &[1, d]));
                if rng.chance(1, 12) {
                    p.steps.push(Step::new(*rng.pick(&[BYTE, CONSUME, SKIPX]), &[0, 1, 1, 0]));
                }
            }
            p.params[0] = 1;
            n += depth / 4;
        }
        while n > 0 {
            n -= 1;
            let code = rng.weighted(&w) as u16;
            let hostile = hostile_run && rng.chance(1, 3);
            let [mo, va] = operand(rng, hostile, p.data.len());
            let (mo, va) = if code == OPEN && rng.chance(2, 3) { (1, -(rng.below(6) as i64)) } else { (mo, va) };
            let x = rng.below(256) as i64;
            let mut s = Step::new(code, &[mo, va, x, rng.below(8) as i64]);
            if code == KV {
                s.b = rng.bytes(8);
            }
            p.steps.push(s);
            if rng.chance(1, 7) {
                // drain the window and close it
                p.steps.push(Step::new(*rng.pick(&[CONSUME, SKIPX, DYN, SKIP]), &[1, 0]));
                p.steps.push(Step::new(CLOSE, &[]));
            }
        }
        p
    }
    fn exec(&self, p: &Plan, cx: &mut Cx) -> R {
        let r = Run { f: self.0, quiet: p.par(0) != 0, buf: &p.data, steps: &p.steps };
        match self.0 {
            Focus::C01 | Focus::C09 => {
                vs_model(&r, "ByteParser", byte, cx)?;
                vs_model(&r, "MemoParser", memo, cx)?;
                vs_model(&r, "SliceParser", slice, cx)
            }
            Focus::C02 => lockstep(&r, cx),
            Focus::C03 | Focus::C17 | Focus::Log => {
                twins(&r, "ByteParser", byte, cx)?;
                twins(&r, "MemoParser", memo, cx)?;
                twins(&r, "SliceParser", slice, cx)
            }
            Focus::C14 => trace(&r, cx),
        }
    }
}
