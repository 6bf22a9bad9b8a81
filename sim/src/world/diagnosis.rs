//! World `diagnosis` (C24): parties that know nothing but the error they were given.
//! - receiver: a stream of messages arrives over a link in arbitrary segments, with stalls, duplicate
//!   wake-ups and restarts. The receiver decodes what it has; when that is refused, it waits for
//!   exactly as many bytes as the error says were missing. It must never wait for a byte that the
//!   message does not have, and must always get on.
//! - cursor: an operator tries reads, windows and tokens on a parser; each refusal is compared with
//!   what the reference cursor says was asked for and was there.
//! - clerk: unfit values are submitted to the codec types; each rejection is compared with the
//!   limit and the submission.
use super::util::*;
use crate::core::*;
use crate::ensure;
use crate::plan::{Plan, Step};
use crate::refcodec::Pref;
use crate::rng::{Choices, Rng};
use crate::simparser::{Cfg, ModelParser, SimParser, KINDS};
use crate::types::{self, PREFS};
use std::error::Error;
use tedium::conv::error::DecodeError;
use tedium::error::{BoundsError, HexConvError, LengthError, WidthError};
use tedium::parse::buffer::{SliceBuffer, VecBuffer};
use tedium::parse::error::{ExternalError, InternalError, ParseError, TagError, TokenError, WindowError};
use tedium::parse::ParserExt;
use tedium::{u30, ByteParser, Bytes, Decode, Dynamic, FixSeq, FixedBytes, FixedString, HexString, LimSeq, MemoParser, Padded, Parser, RangedFloat, RangedInt, SliceParser, VPadded};

pub struct Diagnosis;
const DELIVER: u16 = 10;
const RESTART: u16 = 11;
const WAKE: u16 = 12;
const OP: u16 = 20;
const SUBMIT: u16 = 30;

/// the rest of the program only ever sees an error through these
fn rendering(e: &(dyn Error + 'static), want: &[String], what: &dyn Fn() -> String) -> R {
    let t = e.to_string();
    for w in want {
        ensure!(t.contains(w.as_str()), "rendering", "{}: the message {t:?} does not mention {w}", what());
    }
    Ok(())
}
/// an error inside another one: the outer one names it as its source, and shows its text
fn wrapped<'a>(outer: &'a (dyn Error + 'static), inner: &dyn Error, what: &dyn Fn() -> String) -> Result<&'a (dyn Error + 'static), Viol> {
    let Some(s) = outer.source() else { return viol("source", format!("{}: {outer:?} names no source", what())) };
    ensure!(s.to_string() == inner.to_string(), "source", "{}: the source of {outer} is {s}, not {inner}", what());
    ensure!(outer.to_string().contains(&inner.to_string()), "rendering", "{}: {outer} does not show {inner}", what());
    Ok(s)
}
/// (asked for, there was) of a refusal for lack of bytes
fn shortage(e: &ParseError) -> Option<(usize, usize, bool)> {
    Some(match e {
        ParseError::Window(WindowError::ConsumeWouldExceedLimit { offset, requested, limit }) => (*requested, limit.checked_sub(*offset)?, true),
        ParseError::Window(WindowError::OpenWouldExceedBuffer { bytes_left, request }) => (*request, *bytes_left, false),
        ParseError::Window(WindowError::OpenWouldExceedWindow { limit, request }) => (*request, *limit, false),
        _ => return None,
    })
}
fn nums(v: &[usize]) -> Vec<String> {
    v.iter().map(|x| x.to_string()).collect()
}

impl World for Diagnosis {
    fn name(&self) -> &'static str {
        "diagnosis"
    }
    fn gen(&self, rng: &mut Rng, thorough: bool) -> Plan {
        let mut p = Plan::new(self.name());
        let role = rng.below(3) as i64;
        p.params = vec![role, rng.below(3) as i64, rng.below(4) as i64];
        match role {
            0 => {
                let l = framed_types().len() as u64;
                for _ in 0..rng.range(1, if thorough { 6 } else { 3 }) {
                    let t = rng.below(l) as i64;
                    let mut s = gen_msg_t(rng, t);
                    if !thorough {
                        s.a[1] = s.a[1].min(300);
                    }
                    p.steps.push(s);
                }
                let long = rng.chance(1, 3);
                for _ in 0..rng.range(0, 12) {
                    p.steps.push(match rng.below(8) {
                        0 => Step::new(RESTART, &[rng.below(4) as i64]),
                        1 => Step::new(WAKE, &[]),
                        _ => Step::new(DELIVER, &[if long { rng.range(0, 60) as i64 } else { rng.range(0, 4) as i64 }]),
                    });
                }
            }
            1 => {
                let n = match rng.below(6) {
                    0 => rng.below(4),
                    1 => scale8(rng) as u64,
                    _ => rng.range(2, 60),
                };
                p.data = rng.bytes(n as usize);
                // numbers that make sense as announced lengths, and bytes that make sense as booleans
                for i in 0..p.data.len() {
                    match rng.below(6) {
                        0 => p.data[i] = 0,
                        1 => p.data[i] = rng.below(9) as u8,
                        2 if rng.chance(1, 4) => p.data[i] = 0xff,
                        _ => {}
                    }
                }
                for _ in 0..rng.range(1, if thorough { 60 } else { 24 }) {
                    let d = match rng.below(12) {
                        0 => rng.range(0, 300) as i64,
                        1 => i64::MAX,
                        2 => 1000,
                        _ => rng.below(9) as i64 - 5,
                    };
                    let op = *rng.pick(&[0, 0, 0, 1, 1, 2, 2, 3, 4, 5, 6, 7, 8, 9, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21]);
                    p.steps.push(Step::new(OP, &[op, d, rng.below(1 << 16) as i64]));
                }
            }
            _ => {
                for _ in 0..rng.range(1, 6) {
                    let n = match rng.below(5) {
                        0 => 0,
                        1 => scale(rng, 10),
                        _ => rng.range(1, 40) as usize,
                    };
                    p.steps.push(Step::with(SUBMIT, &[rng.below(CLERKS as u64) as i64], rng.bytes(n)));
                }
            }
        }
        p
    }
    fn exec(&self, p: &Plan, cx: &mut Cx) -> R {
        cx.sig.u(p.par(0) as u64);
        match p.par(0) {
            0 => receiver(p, cx),
            1 => match p.par(1) {
                0 => cursor(ByteParser::from_buffer(VecBuffer::from(&p.data[..])), "ByteParser", p, cx),
                1 => cursor(MemoParser::from_buffer(VecBuffer::from(&p.data[..])), "MemoParser", p, cx),
                _ => cursor(SliceParser::from_buffer(SliceBuffer::from(&p.data[..])), "SliceParser", p, cx),
            },
            _ => clerk(p, cx),
        }
    }
}

fn receiver(p: &Plan, cx: &mut Cx) -> R {
    let msgs: Vec<Msg> = p.steps.iter().filter(|s| s.op == MSG).map(framed_msg).collect();
    let stream: Vec<u8> = msgs.iter().flat_map(|m| m.bytes.iter().copied()).collect();
    // a length announced in the stream may decode differently as a prefix of another message; the
    // receiver knows the type of each message, so it decodes one at a time
    let mut events = p.steps.iter().filter(|s| matches!(s.op, DELIVER | RESTART | WAKE));
    let mut arrived = 0usize;
    let mut kind = KINDS[p.upar(1) % 3];
    let mut at = 0usize;
    for m in &msgs {
        cx.sig.s(m.t.name.as_bytes());
        let end = at + m.bytes.len();
        let mut attempts = 0usize;
        loop {
            attempts += 1;
            ensure!(attempts <= 2 * m.bytes.len() + 40, "no-progress", "{}: {attempts} attempts for {} bytes", m.t.name, m.bytes.len());
            let have = &stream[at..arrived.max(at)];
            let run = no_panic(m.t.name, || {
                let mut q = SimParser::with(have, Cfg { kind, budget: op_budget(have.len()), ..Default::default() });
                let r = (m.t.parse_sim)(&mut q);
                (r, q.consumed)
            })?;
            let what = || format!("{} over {kind:?}, {} of the {} bytes of {} have arrived", m.t.name, have.len().min(m.bytes.len()), m.bytes.len(), short(&m.bytes));
            let e = match run {
                (Ok(v), n) => {
                    cx.ev(1, 0);
                    if v != m.val || n != m.bytes.len() {
                        // what was decoded from complete data is the business of C04 and C06
                        return Ok(());
                    }
                    break;
                }
                (Err(e), n) => {
                    if have.len() >= m.bytes.len() {
                        return Ok(());
                    }
                    cx.fault("message cut off by the link");
                    (e, n)
                }
            };
            let (e, read) = e;
            let lack = m.bytes.len() - have.len();
            let wait = match &e {
                ParseError::Token(TokenError::NonTerminating(b)) => {
                    cx.ev(2, 0);
                    ensure!(!b.is_empty() || read == have.len(), "wrong-cause", "{}: {e} although bytes were left", what());
                    ensure!(have[..read].ends_with(b) && read == have.len(), "operands", "{}: reported as unterminated are the bytes {}, read were {}", what(), short(b), short(&have[..read]));
                    1
                }
                // cut between the elements of a fixed-count sequence
                ParseError::External(x @ ExternalError::LengthViolation(l @ LengthError::WrongLength { exact, actual })) => {
                    cx.ev(2, 3);
                    ensure!(actual < exact && read == have.len(), "operands", "{}: {e:?}, {read} bytes were read", what());
                    rendering(l, &nums(&[*exact, *actual]), &what)?;
                    wrapped(&e, x, &what)?;
                    wrapped(x, l, &what)?;
                    1
                }
                e => {
                    let Some((asked, there, consume)) = shortage(e) else {
                        return viol("wrong-cause", format!("{}: refused with {e:?}", what()));
                    };
                    cx.ev(2, 1 + consume as u64);
                    ensure!(there == have.len() - read, "operands", "{}: {e:?} claims that {there} bytes were left, {} were", what(), have.len() - read);
                    ensure!(asked > there, "wrong-cause", "{}: {e:?} refuses {asked} bytes of {there}", what());
                    rendering(e, &nums(&[asked]), &what)?;
                    asked - there
                }
            };
            ensure!(wait <= lack, "waits-forever", "{}: {e:?} asks for {wait} more bytes, the message has {lack} more", what());
            // wait for them
            let goal = at + have.len() + wait;
            while arrived < goal {
                match events.next() {
                    Some(s) if s.op == DELIVER => {
                        let n = s.uarg(0).min(stream.len() - arrived);
                        arrived += n;
                        cx.count("segments delivered", 1);
                        if n == 0 {
                            cx.fault("empty segment");
                        }
                    }
                    Some(s) if s.op == RESTART => {
                        // only what has arrived is durable
                        cx.fault("receiver restart, with another parser");
                        kind = KINDS[s.uarg(0) % 3];
                        break;
                    }
                    Some(_) => {
                        cx.fault("spurious wake-up");
                        break;
                    }
                    // the schedule is over: just what was asked for arrives
                    None => arrived = goal,
                }
            }
        }
        at = end;
    }
    Ok(())
}

#[derive(Debug, PartialEq)]
enum Want {
    Ok,
    Consume(usize),
    Open(usize),
    Residue(usize),
    NoWindow,
    Bool(u8),
    Tag(u32, usize),
    NoTags,
    Unterminated(Vec<u8>),
    /// number out of range: the number
    Range(i64, i64),
}
struct Marker;
fn cursor<P: Parser + ParserExt>(mut r: P, name: &str, p: &Plan, cx: &mut Cx) -> R {
    let mut m = ModelParser::new(&p.data);
    let be = |b: &[u8]| b.iter().fold(0u32, |a, x| a << 8 | *x as u32);
    for s in p.steps.iter().filter(|s| s.op == OP) {
        let (op, d, x) = (s.arg(0), s.arg(1), s.uarg(2));
        let rem = m.rem();
        let left = m.b.len() - m.pos;
        let n = match d {
            i64::MAX => usize::MAX - x,
            1000 => x,
            d => (rem as i64 + d).max(0) as usize,
        };
        let lit = |m: &mut ModelParser, w: usize| match m.take(w) {
            Some(_) => Want::Ok,
            None => Want::Consume(w),
        };
        let tags8: Vec<u8> = (0..x % 5).map(|i| (x >> i) as u8).collect();
        let tags16: Vec<u16> = (0..x % 5).map(|i| (x << i) as u16).collect();
        let tags32: Vec<u32> = (0..x % 5).map(|i| (x as u32) << i).collect();
        macro_rules! un { ($e:expr) => { $e.map(|_| ()) } }
        fn prefix(m: &mut ModelParser, k: Pref) -> Result<usize, Want> {
            match m.take(k.width()) {
                None => Err(Want::Consume(k.width())),
                Some(b) => {
                    let v = b.iter().fold(0usize, |a, x| a << 8 | *x as usize);
                    if v > k.max() {
                        Err(Want::Range(v as i64, k.max() as i64))
                    } else if m.open(v) {
                        Ok(v)
                    } else {
                        Err(Want::Open(v))
                    }
                }
            }
        }
        let tag = |m: &mut ModelParser, w: usize, valid: &[u32]| match m.take(w) {
            None => Want::Consume(w),
            Some(b) => {
                let v = be(b);
                if valid.contains(&v) {
                    Want::Ok
                } else if valid.is_empty() {
                    Want::NoTags
                } else {
                    Want::Tag(v, w)
                }
            }
        };
        let (what, got, want): (String, Result<(), ParseError>, Want) = match op {
            0 => {
                let w = if m.open(n) { Want::Ok } else { Want::Open(n) };
                (format!("set_fit({n})"), r.set_fit(n), w)
            }
            1 => {
                let w = if m.lim.is_empty() {
                    Want::NoWindow
                } else if m.close() {
                    Want::Ok
                } else {
                    Want::Residue(rem)
                };
                ("enforce_target".into(), r.enforce_target(), w)
            }
            2 => (format!("consume({n})"), un!(r.consume(n)), lit(&mut m, n)),
            3 => ("consume_byte".into(), un!(r.consume_byte()), lit(&mut m, 1)),
            4 => ("take_u16".into(), un!(r.take_u16()), lit(&mut m, 2)),
            5 => ("take_i32".into(), un!(r.take_i32()), lit(&mut m, 4)),
            6 => ("take_u64".into(), un!(r.take_u64()), lit(&mut m, 8)),
            7 => ("take_f64".into(), un!(r.take_f64()), lit(&mut m, 8)),
            8 => (format!("take_dynamic({n})"), un!(r.take_dynamic(n)), lit(&mut m, n)),
            9 => (format!("skip_exactly({n})"), un!(r.skip_exactly(n)), lit(&mut m, n)),
            10 => ("consume_arr::<5>".into(), un!(r.consume_arr::<5>()), lit(&mut m, 5)),
            11 => ("take_fixed::<17>".into(), un!(r.take_fixed::<17>()), lit(&mut m, 17)),
            12 => {
                let w = match m.take(1) {
                    None => Want::Consume(1),
                    Some(&[b]) if b == 0 || b == 0xff => Want::Ok,
                    Some(b) => Want::Bool(b[0]),
                };
                ("take_bool".into(), un!(r.take_bool()), w)
            }
            13 => {
                let v: Vec<u32> = tags8.iter().map(|x| *x as u32).collect();
                let w = tag(&mut m, 1, &v);
                (format!("take_tagword of {tags8:?}"), un!(r.take_tagword::<Marker, u8, _>(&tags8)), w)
            }
            14 => {
                let v: Vec<u32> = tags16.iter().map(|x| *x as u32).collect();
                let w = tag(&mut m, 2, &v);
                (format!("take_tagword of {tags16:?}"), un!(r.take_tagword::<Marker, u16, _>(tags16.clone())), w)
            }
            15 => {
                let w = tag(&mut m, 4, &tags32);
                (format!("take_tagword of {tags32:?}"), un!(r.take_tagword::<Marker, u32, _>(&tags32[..])), w)
            }
            16 => {
                // terminal byte values: those divisible by k
                let k = 2 + (x % 60) as u8;
                let mut b = vec![];
                let w = loop {
                    match m.take(1) {
                        None => break Want::Unterminated(b),
                        Some(y) => {
                            b.push(y[0]);
                            if y[0] % k == 0 {
                                break Want::Ok;
                            }
                        }
                    }
                };
                (format!("take_self_terminating at multiples of {k}"), un!(r.take_self_terminating(|y| y % k == 0)), w)
            }
            17..=19 => {
                let k = PREFS[(op - 17) as usize];
                let w = match prefix(&mut m, k) {
                    Ok(_) => Want::Ok,
                    Err(w) => w,
                };
                let g = match op {
                    17 => un!(r.process_prefix::<u8>()),
                    18 => un!(r.process_prefix::<u16>()),
                    _ => un!(r.process_prefix::<u30>()),
                };
                (format!("process_prefix ({k:?})"), g, w)
            }
            20 => {
                let w = match prefix(&mut m, PREFS[0]) {
                    Ok(n) => {
                        m.take(n);
                        m.close();
                        Want::Ok
                    }
                    Err(w) => w,
                };
                ("skip_dynamic::<u8>".into(), un!(r.skip_dynamic::<u8>()), w)
            }
            _ => {
                let g = ParserExt::skip(&mut r, n);
                m.take(n.min(rem));
                (format!("skip({n})"), un!(g), Want::Ok)
            }
        };
        let at = || format!("{name}: {what} after {} of {} bytes, {rem} left in {}", m.b.len() - left, m.b.len(), if m.lim.is_empty() { "the buffer".to_string() } else { format!("the innermost of {} windows", m.lim.len()) });
        cx.say(|| format!("{}: {:?}", at(), got));
        let e = match (got, &want) {
            (Ok(()), Want::Ok) => {
                cx.ev(10 + op as u64, 0);
                continue;
            }
            // whether it is refused at all is the business of C01
            (Ok(()), _) | (Err(_), Want::Ok) => return Ok(()),
            (Err(e), _) => e,
        };
        cx.ev(10 + op as u64, 1);
        cx.fault("operation refused");
        let wrong = |cause: &str| viol("wrong-cause", format!("{}: refused with {e:?}, the cause is {cause}", at()));
        match (&want, &e) {
            (Want::Consume(n), ParseError::Window(w @ WindowError::ConsumeWouldExceedLimit { offset, requested, limit })) => {
                ensure!(requested == n, "operands", "{}: {e:?}: {n} bytes were requested", at());
                ensure!(limit.checked_sub(*offset) == Some(m.rem()), "operands", "{}: {e:?}: limit less offset is not what was left", at());
                rendering(w, &nums(&[*requested, *offset, *limit]), &at)?;
                wrapped(&e, w, &at)?;
            }
            (Want::Consume(n), _) => return wrong(&format!("that {n} bytes were requested")),
            (Want::Open(n), ParseError::Window(w @ WindowError::OpenWouldExceedBuffer { bytes_left, request })) => {
                let left = m.b.len() - m.pos;
                ensure!(request == n && *bytes_left == left, "operands", "{}: {e:?}: a window of {n} bytes was requested, {left} bytes are left in the buffer", at());
                ensure!(request > bytes_left, "wrong-cause", "{}: {e:?}", at());
                rendering(w, &nums(&[*request]), &at)?;
                wrapped(&e, w, &at)?;
            }
            (Want::Open(n), ParseError::Window(w @ WindowError::OpenWouldExceedWindow { limit, request })) => {
                let room = m.rem();
                ensure!(request == n && *limit == room, "operands", "{}: {e:?}: a window of {n} bytes was requested, {room} bytes are left in the current one", at());
                rendering(w, &nums(&[*request, *limit]), &at)?;
                wrapped(&e, w, &at)?;
            }
            (Want::Open(n), _) => return wrong(&format!("that a window of {n} bytes was requested")),
            (Want::Residue(n), ParseError::Window(w @ WindowError::CloseWithResidue { residual })) => {
                ensure!(residual == n, "operands", "{}: {e:?}: {n} bytes are left", at());
                rendering(w, &nums(&[*n]), &at)?;
                wrapped(&e, w, &at)?;
            }
            (Want::NoWindow, ParseError::Window(w @ WindowError::CloseWithoutWindow)) => {
                wrapped(&e, w, &at)?;
            }
            (Want::Residue(_) | Want::NoWindow, _) => return wrong(&format!("{want:?}")),
            (Want::Bool(b), ParseError::Token(t @ TokenError::InvalidBoolean(x))) => {
                ensure!(x == b, "operands", "{}: {e:?}: the byte is {b:#04x}", at());
                rendering(t, &[format!("{b:02x}")], &at)?;
                wrapped(&e, t, &at)?;
            }
            (Want::Tag(v, w), ParseError::Token(t)) => {
                let (d, valid) = match (t, w) {
                    (TokenError::InvalidTagU8(t), 1) => (tag_of(t, &TagError::<u8>::new(*v as u8, std::any::type_name::<Marker>(), Some(tags8.clone()))), tags8.iter().map(|x| *x as u32).collect::<Vec<_>>()),
                    (TokenError::InvalidTagU16(t), 2) => (tag_of(t, &TagError::<u16>::new(*v as u16, std::any::type_name::<Marker>(), Some(tags16.clone()))), tags16.iter().map(|x| *x as u32).collect()),
                    (TokenError::InvalidTagU30(t), 4) => (tag_of(t, &TagError::<u32>::new(*v, std::any::type_name::<Marker>(), Some(tags32.clone()))), tags32.clone()),
                    _ => return wrong(&format!("the {w}-byte tag {v:#x}")),
                };
                ensure!(d, "operands", "{}: {e:?}: the tag is {v}, valid are {valid:?}", at());
                rendering(t, &[format!("{v:x}"), "Marker".into()], &at)?;
                let s = wrapped(&e, t, &at)?;
                ensure!(s.source().is_some(), "source", "{}: {e:?}: the tag error is not named as its source", at());
            }
            (Want::NoTags, ParseError::Internal(i @ InternalError::NoValidTags)) => {
                wrapped(&e, i, &at)?;
            }
            (Want::Unterminated(b), ParseError::Token(t @ TokenError::NonTerminating(x))) => {
                ensure!(x == b, "operands", "{}: {e:?}: the bytes read were {}", at(), short(b));
                rendering(t, &[crate::plan::hex(b)], &at)?;
                wrapped(&e, t, &at)?;
            }
            (Want::Range(v, max), ParseError::External(x @ ExternalError::IntRangeViolation(b))) => {
                ensure!(matches!(b, BoundsError::Overflow { max: a, val } if a == max && val == v), "operands", "{}: {e:?}: the number is {v}, the largest legal one {max}", at());
                rendering(b, &[v.to_string(), max.to_string()], &at)?;
                let s = wrapped(&e, x, &at)?;
                wrapped(s, b, &at)?;
            }
            _ => return wrong(&format!("{want:?}")),
        }
        if matches!(want, Want::Tag(..) | Want::NoTags | Want::Range(..) | Want::Bool(_)) {
            // how much of an unfit token stays consumed is the business of C01 and C03
            if r.remainder() != m.rem() {
                return Ok(());
            }
        }
    }
    Ok(())
}
fn tag_of<T: tedium::parse::error::TagType>(got: &TagError<T>, want: &TagError<T>) -> bool {
    got == want
}

const CLERKS: usize = 19;
type L5 = LimSeq<u8, 5>;
type F3 = FixSeq<u16, 3>;
type Ran = RangedInt<i16, -300, 1000>;
type Bya = RangedInt<u8, 0, 9>;
type Thr = RangedInt<i32, -5, 5>;
type Flo = RangedFloat<0xbff8_0000_0000_0000, 0x4008_0000_0000_0000>; // -1.5 .. 3

fn bounds<T: PartialEq + PartialOrd + Copy + std::fmt::Debug + std::fmt::Display + 'static>(e: &BoundsError<T>, min: T, max: T, val: T, what: &dyn Fn() -> String) -> R {
    let (limit, v) = match e {
        BoundsError::Underflow { min: a, val: v } if val < min => (a == &min, v),
        BoundsError::Overflow { max: a, val: v } if val > max => (a == &max, v),
        // no order (NaN): either bound may be named
        BoundsError::Underflow { min: a, val: v } if val.partial_cmp(&min).is_none() => (a == &min, v),
        BoundsError::Overflow { max: a, val: v } if val.partial_cmp(&max).is_none() => (a == &max, v),
        _ => return viol("wrong-cause", format!("{}: {e:?}; {val} was submitted to the range {min}..{max}", what())),
    };
    ensure!(limit && v.to_string() == val.to_string(), "operands", "{}: {e:?}; {val} was submitted to the range {min}..{max}", what());
    rendering(e, &[val.to_string()], what)
}
fn of_decode(e: &DecodeError, what: &dyn Fn() -> String) -> R {
    match e {
        DecodeError::Parse(p) => wrapped(e, p, what).map(|_| ()),
        DecodeError::Conv(c) => wrapped(e, c, what).map(|_| ()),
        _ => Ok(()),
    }
}

fn clerk(p: &Plan, cx: &mut Cx) -> R {
    for s in p.steps.iter().filter(|s| s.op == SUBMIT) {
        let k = s.uarg(0) % CLERKS;
        let b = &s.b[..];
        let mut c = Choices::new(b);
        let num = |b: &[u8], w: usize| b.iter().take(w).fold(0i64, |a, x| a << 8 | *x as i64);
        let refused = std::cell::Cell::new(false);
        let note = || refused.set(true);
        let what = move || format!("submission {k} of {}", short(b));
        no_panic("clerk", || -> R {
            match k {
                0 | 1 => {
                    // WidthError
                    macro_rules! width { ($n:expr, $($r:expr),+) => { $( if let Err(e) = $r {
                        note();
                        ensure!(e == WidthError::WrongWidth { exact: $n, actual: b.len() }, "operands", "{}: {e:?}: {} bytes were submitted to {}", what(), b.len(), $n);
                        rendering(&e, &nums(&[$n, b.len()]), &what)?;
                    } )+ } }
                    if k == 0 {
                        width!(3, FixedBytes::<3>::try_from_slice(b));
                        width!(0, FixedBytes::<0>::try_from_slice(b));
                    } else {
                        let t: String = b.iter().map(|x| (*x & 0x7f) as char).collect();
                        width!(4, FixedString::<4>::try_from_bytes(b), FixedString::<4>::try_from(b));
                        width!(4, t.parse::<FixedString<4>>(), FixedString::<4>::try_from(t.as_str()), FixedString::<4>::try_from(t.clone()));
                    }
                }
                2 => {
                    // LengthError
                    let lim = LengthError::TooLong { limit: 5, actual: b.len() };
                    if let Err(e) = L5::try_from(b) {
                        note();
                        ensure!(e == lim, "operands", "{}: {e:?}: {} elements were submitted to a limit of 5", what(), b.len());
                        rendering(&e, &nums(&[5, b.len()]), &what)?;
                    }
                    if let Err(e) = L5::try_from(b.to_vec()) {
                        ensure!(e == lim, "operands", "{}: {e:?}: {} elements were submitted to a limit of 5", what(), b.len());
                    }
                }
                3 => {
                    let v: Vec<u16> = b.chunks(2).map(|x| num(x, 2) as u16).collect();
                    let right = |e: &LengthError| match e {
                        LengthError::TooLong { limit, actual } => *limit == 3 && *actual == v.len() && v.len() > 3,
                        LengthError::WrongLength { exact, actual } => *exact == 3 && *actual == v.len() && v.len() != 3,
                    };
                    if let Err(e) = F3::try_from(&v[..]) {
                        note();
                        ensure!(right(&e), "operands", "{}: {e:?}: {} elements were submitted to 3", what(), v.len());
                        rendering(&e, &nums(&[3, v.len()]), &what)?;
                    }
                    if v.len() >= 3 {
                        if let Err(e) = F3::try_from(v.clone()) {
                            ensure!(right(&e), "operands", "{}: {e:?}: {} elements were submitted to 3", what(), v.len());
                        }
                    }
                }
                4 => {
                    // length prefixes
                    let n = match c.below(4) {
                        0 => b.len(),
                        1 => 200 + c.below(120) as usize,
                        2 => 65_500 + c.below(80) as usize,
                        _ => c.below(300) as usize,
                    };
                    let v = Bytes::from(vec![7u8; n]);
                    macro_rules! pre { ($($t:ty, $max:expr);+) => { $( if let Err(e) = Dynamic::<$t, Bytes>::new(v.clone()).length_prefix() {
                        note();
                        ensure!(e == WidthError::TooWide { limit: $max, actual: n }, "operands", "{}: {e:?}: a payload of {n} bytes, limit {}", what(), $max);
                        rendering(&e, &nums(&[$max, n]), &what)?;
                    } )+ } }
                    pre!(u8, 255; u16, 65535);
                }
                5 => {
                    // texts that are not hex
                    let mut t = crate::plan::hex(b);
                    if c.below(2) == 0 {
                        t.push_str(&String::from_utf8_lossy(&b[b.len() / 2..]));
                    }
                    if c.below(3) == 0 && !t.is_empty() {
                        let i = c.below(t.len() as u64) as usize;
                        let i = (0..=i).rev().find(|i| t.is_char_boundary(*i)).unwrap_or(0);
                        t.insert(i, *[' ', 'g', 'é', '0', 'x', ':'].get(c.below(6) as usize).unwrap());
                    }
                    let odd = t.len() % 2 == 1;
                    let text = t.clone();
                    let judge = |e: &HexConvError| -> R {
                        let (s, is_odd) = match e {
                            HexConvError::OddParity(s) => (s, true),
                            HexConvError::NonHex(s) => (s, false),
                        };
                        ensure!(is_odd == odd, "wrong-cause", "{}: {e:?}; the text {text:?} has {} bytes", what(), text.len());
                        ensure!(s == &text, "operands", "{}: {e:?}; the text was {text:?}", what());
                        ensure!(format!("{e:?}").contains(&text), "rendering", "{}: {e:?} does not show the text {text:?}", what());
                        Ok(())
                    };
                    if let Err(e) = HexString::from_hex(&t) {
                        note();
                        judge(&e)?;
                    }
                    if let Err(e) = t.parse::<HexString>() {
                        judge(&e)?;
                    }
                    if let Err(e) = HexString::try_from(t.as_str()) {
                        judge(&e)?;
                    }
                    if let Err(e) = <Bytes as Decode>::try_decode::<_, ByteParser>(t.as_str()) {
                        if let DecodeError::Conv(h) = &e {
                            judge(h)?;
                        } else if odd {
                            return viol("wrong-cause", format!("{}: {e:?} for the text {t:?}", what()));
                        }
                        of_decode(&e, &what)?;
                    }
                }
                6 => {
                    let n = num(b, 2) as i16;
                    let n = if c.below(3) == 0 { [-301, 1001, -300, 1000][c.below(4) as usize] } else { n };
                    macro_rules! try_all { ($($r:expr),+) => { $( if let Err(e) = $r {
                        note();
                        bounds(&e, -300, 1000, n as i64, &what)?;
                    } )+ } }
                    try_all!(Ran::try_from_underlying(n), Ran::try_from_i32(n as i32));
                    wire::<Ran>(&n.to_be_bytes(), -300, 1000, n as i64, &what, &note)?;
                }
                7 => {
                    let n = num(b, 1) as u8;
                    if let Err(e) = Bya::try_from_underlying(n) {
                        note();
                        bounds(&e, 0, 9, n as i64, &what)?;
                    }
                    wire::<Bya>(&[n], 0, 9, n as i64, &what, &note)?;
                    let n = num(b, 4) as i32;
                    if let Err(e) = Bya::try_from_i32(n) {
                        note();
                        bounds(&e, 0, 9, n as i64, &what)?;
                    }
                }
                8 => {
                    let n = num(b, 4) as i32 >> c.below(32);
                    if let Err(e) = Thr::try_from_underlying(n) {
                        note();
                        bounds(&e, -5, 5, n as i64, &what)?;
                    }
                    wire::<Thr>(&n.to_be_bytes(), -5, 5, n as i64, &what, &note)?;
                    let n = num(b, 4) as u32;
                    if let Err(e) = u30::try_from_underlying(n) {
                        note();
                        bounds(&e, 0, 0x3fff_ffff, n as i64, &what)?;
                    }
                    wire::<u30>(&n.to_be_bytes(), 0, 0x3fff_ffff, n as i64, &what, &note)?;
                }
                9 => {
                    let mut w = [0u8; 8];
                    for (d, x) in w.iter_mut().zip(b) {
                        *d = *x;
                    }
                    let pool = [-1.5, 3.0, f64::NAN, f64::INFINITY, -0.0, f64::NEG_INFINITY, 3.0000000000000004, -1.5000000000000002, f64::MAX];
                    let x = if c.below(2) == 0 { pool[c.below(9) as usize] } else { f64::from_be_bytes(w) };
                    for r in [Flo::try_from_f64(x).map(|_| ()), Flo::prevalidate_f64(x).map(|_| ()), Flo::try_from(x).map(|_| ())] {
                        if let Err(e) = r {
                            note();
                            bounds(&e, -1.5, 3.0, x, &what)?;
                        }
                    }
                    let y = x as f32;
                    for r in [Flo::prevalidate_f32(y).map(|_| ()), Flo::try_from(y).map(|_| ())] {
                        if let Err(e) = r {
                            bounds(&e, -1.5, 3.0, y as f64, &what)?;
                        }
                    }
                    match <Flo as Decode>::try_decode::<_, ByteParser>(x.to_be_bytes().to_vec()) {
                        Ok(_) => {}
                        Err(e @ DecodeError::Parse(ParseError::External(ExternalError::FloatRangeViolation(_)))) => {
                            of_decode(&e, &what)?;
                            let DecodeError::Parse(ParseError::External(y @ ExternalError::FloatRangeViolation(f))) = &e else { unreachable!() };
                            bounds(f, -1.5, 3.0, x, &what)?;
                            wrapped(y, f, &what)?;
                        }
                        Err(e) => return viol("wrong-cause", format!("{}: {e:?} for the double {x:?}", what())),
                    }
                }
                10 => {
                    // texts that are no UTF-8
                    match <String as Decode>::try_decode::<_, ByteParser>(b.to_vec()) {
                        Ok(_) => {}
                        Err(e) => {
                            note();
                            of_decode(&e, &what)?;
                            let DecodeError::Parse(ParseError::External(x @ ExternalError::UncoercableString(u))) = &e else { return viol("wrong-cause", format!("{}: {e:?}", what())) };
                            ensure!(u.as_bytes() == b, "operands", "{}: {e:?}: the bytes are {}", what(), short(b));
                            let want = std::str::from_utf8(b).err().map(|x| x.valid_up_to());
                            ensure!(Some(u.utf8_error().valid_up_to()) == want, "operands", "{}: {e:?}: valid up to {want:?}", what());
                            wrapped(x, u, &what)?;
                        }
                    }
                }
                11 => {
                    // leftovers
                    if let Err(e) = <u16 as Decode>::try_decode::<_, ByteParser>(b.to_vec()) {
                        note();
                        match &e {
                            DecodeError::Parse(x) => {
                                let Some((asked, there, _)) = shortage(x) else { return viol("wrong-cause", format!("{}: {e:?}", what())) };
                                ensure!(b.len() < 2 && (asked, there) == (2, b.len()), "operands", "{}: {e:?}: two of {} bytes", what(), b.len());
                            }
                            DecodeError::NonEmpty(l) => {
                                ensure!(b.len() > 2 && l.len() == b.len() - 2, "operands", "{}: {e:?}: two of {} bytes", what(), b.len());
                            }
                            _ => return viol("wrong-cause", format!("{}: {e:?}", what())),
                        }
                        of_decode(&e, &what)?;
                    }
                }
                12 => {
                    // errors of the application travel through a decode unchanged
                    #[derive(Debug)]
                    struct App(u64);
                    impl std::fmt::Display for App {
                        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
                            write!(f, "application error {}", self.0)
                        }
                    }
                    impl Error for App {}
                    let id = num(b, 7) as u64;
                    note();
                    let e = ParseError::reify(App(id));
                    ensure!(e.to_string().contains(&App(id).to_string()), "rendering", "{}: {e}", what());
                    let d = DecodeError::from(e);
                    let mut s: Option<&(dyn Error + 'static)> = Some(&d);
                    let mut found = None;
                    while let Some(x) = s {
                        if let Some(a) = x.downcast_ref::<App>() {
                            found = Some(a.0);
                        }
                        s = x.source();
                    }
                    ensure!(found == Some(id), "source", "{}: the application's error is not among the sources of {d}", what());
                }
                13 => {
                    // an enumeration is offered a tag it does not have
                    let ms = types::metas();
                    let i = c.below(ms.len() as u64) as usize;
                    let mt = &ms[i];
                    let t = &types::enum_ops()[i];
                    let mask = u64::MAX >> (64 - 8 * mt.width);
                    let tag = match c.below(3) {
                        0 => num(b, mt.width) as u64,
                        1 => mt.declared[c.below(mt.declared.len() as u64) as usize].0.wrapping_add(c.below(3)).wrapping_sub(1),
                        _ => mt.declared[c.below(mt.declared.len() as u64) as usize].0 ^ (1 << c.below(8 * mt.width as u64)),
                    } & mask;
                    if mt.declared.iter().any(|x| x.0 == tag) {
                        return Ok(());
                    }
                    let mut d = tag.to_be_bytes()[8 - mt.width..].to_vec();
                    d.extend_from_slice(b);
                    let kind = KINDS[c.below(4) as usize];
                    let mut q = SimParser::with(&d, Cfg { kind, budget: op_budget(d.len()), ..Default::default() });
                    let what = || format!("{} is offered the tag {tag:#x} ({kind:?})", t.name);
                    let e = match (t.parse_sim)(&mut q) {
                        // the business of C22
                        Ok(_) => return Ok(()),
                        Err(e) => e,
                    };
                    note();
                    let ParseError::Token(k) = &e else { return viol("wrong-cause", format!("{}: {e:?}", what())) };
                    let (dbg, w) = match k {
                        TokenError::InvalidTagU8(x) => (format!("{x:?}"), 1),
                        TokenError::InvalidTagU16(x) => (format!("{x:?}"), 2),
                        TokenError::InvalidTagU30(x) => (format!("{x:?}"), 4),
                        _ => return viol("wrong-cause", format!("{}: {e:?}", what())),
                    };
                    ensure!(w == mt.width, "wrong-cause", "{}: {e:?}", what());
                    rendering(k, &[format!("{tag:x}"), t.name.to_string()], &what)?;
                    tag_operands(&dbg, tag, mt, &what)?;
                    wrapped(&e, k, &what)?;
                }
                14 => {
                    macro_rules! conv { ($($t:ident, $b:ty);+) => { $( {
                        let mt = types::metas().iter().find(|m| m.name == stringify!($t)).unwrap();
                        let n = match c.below(2) {
                            0 => num(b, mt.width) as $b,
                            _ => (mt.declared[c.below(mt.declared.len() as u64) as usize].0 as $b).wrapping_add(1),
                        };
                        if let Err(e) = types::$t::try_from(n) {
                            note();
                            let what = || format!("{}::try_from({n})", stringify!($t));
                            rendering(&e, &[format!("{n:x}"), stringify!($t).to_string()], &what)?;
                            tag_operands(&format!("{e:?}"), n as u64, mt, &what)?;
                        }
                    } )+ } }
                    conv!(Kind8, u8; Kind16, u16; Kind32, u32; Mixed8, u8; Mixed16, u16; Mixed32, u32; Single, u8);
                }
                15 => {
                    // padding
                    let mut d = b.to_vec();
                    for x in d.iter_mut().skip(2) {
                        if c.below(4) != 0 {
                            *x = 0;
                        }
                    }
                    macro_rules! pad { ($($t:ty, $w:expr, $n:expr);+) => { $( {
                        let mut q = SimParser::with(&d, Cfg { kind: KINDS[c.below(3) as usize], budget: op_budget(d.len()), ..Default::default() });
                        if let Err(e) = <$t as Decode>::parse(&mut q) {
                            note();
                            let what = || format!("{} of {}", stringify!($t), short(&d));
                            if d.len() < $w + $n {
                                let Some((asked, there, true)) = shortage(&e) else { return viol("wrong-cause", format!("{}: {e:?}", what())) };
                                let want = if d.len() < $w { ($w, d.len()) } else { ($n, d.len() - $w) };
                                ensure!((asked, there) == want, "operands", "{}: {e:?}", what());
                            } else {
                                let ParseError::Token(k @ TokenError::NonNullPaddingByte { padding }) = &e else { return viol("wrong-cause", format!("{}: {e:?}", what())) };
                                ensure!(padding[..] == d[$w..$w + $n] && padding.iter().any(|x| *x != 0), "operands", "{}: {e:?}", what());
                                rendering(k, &[crate::plan::hex(padding)], &what)?;
                                wrapped(&e, k, &what)?;
                            }
                        }
                    } )+ } }
                    pad!(Padded<u16, 3>, 2, 3; Padded<u8, 7>, 1, 7; Padded<FixedBytes<4>, 1>, 4, 1);
                    // the room for a virtual padding
                    let mut q = SimParser::with(&d, Cfg { kind: KINDS[c.below(3) as usize], budget: op_budget(d.len()), ..Default::default() });
                    if let Err(e) = <VPadded<Bytes, 9> as Decode>::parse(&mut q) {
                        note();
                        let Some((asked, there, true)) = shortage(&e) else { return viol("wrong-cause", format!("{}: {e:?}", what())) };
                        ensure!((asked, there) == (9, d.len()), "operands", "{}: {e:?}: nine bytes of padding, {} bytes there", what(), d.len());
                    }
                }
                17 => {
                    // numbers stored as offsets from a positive lower bound: either the offset or the number it stands for
                    // may be named, with the limit that belongs to it
                    let offset = |e: &BoundsError<i64>, min: i64, max: i64, val: i64, what: &dyn Fn() -> String| -> R {
                        let ok = match e {
                            BoundsError::Overflow { max: m, val: v } => val > max - min && ((*m, *v) == (max - min, val) || (*m, *v) == (max, val + min)),
                            BoundsError::IllegalNegative { min: m, val: v } => val < 0 && (*m, *v) == (min, val),
                            BoundsError::Underflow { min: m, val: v } => val < 0 && ((*m, *v) == (0, val) || (*m, *v) == (min, val + min)),
                            _ => return viol("wrong-cause", format!("{}: {e:?}; the offset {val} was submitted to the range {min}..{max}", what())),
                        };
                        ensure!(ok, "operands", "{}: {e:?}; the offset {val} (the number {}) was submitted to the range {min}..{max}", what(), val + min);
                        let (BoundsError::Overflow { val: v, .. } | BoundsError::IllegalNegative { val: v, .. } | BoundsError::Underflow { val: v, .. }) = e else { unreachable!() };
                        rendering(e, &[v.to_string()], what)
                    };
                    macro_rules! off { ($($i:ty, $min:expr, $max:expr);+) => { $( {
                        type T = RangedInt<$i, $min, $max>;
                        let w = std::mem::size_of::<$i>();
                        let n = num(b, w) as $i;
                        let n = if c.below(2) == 0 { n } else { (($max - $min) as i64 - 1 + c.below(4) as i64) as $i };
                        if let Err(e) = T::try_from_underlying(n) {
                            note();
                            offset(&e, $min, $max, n as i64, &what)?;
                        }
                        let i = match c.below(3) {
                            0 => n as i64 as i32,
                            1 => $min - 2 + c.below(5) as i32,
                            _ => $max - 2 + c.below(5) as i32,
                        };
                        match T::try_from_i32(i) {
                            Err(e @ BoundsError::Failed(_)) => return viol("wrong-cause", format!("{}: {e:?}; {i} was submitted to the range {}..{}", what(), $min, $max)),
                            Err(e) => {
                                note();
                                offset(&e, $min, $max, i as i64 - $min as i64, &what)?;
                            }
                            Ok(_) => {}
                        }
                        if let Err(e) = <T as Decode>::try_decode::<_, ByteParser>(n.to_be_bytes().to_vec()) {
                            note();
                            let DecodeError::Parse(p @ ParseError::External(x @ ExternalError::IntRangeViolation(v))) = &e else { return viol("wrong-cause", format!("{}: {e:?} for the offset {n}", what())) };
                            offset(v, $min, $max, n as i64, &what)?;
                            of_decode(&e, &what)?;
                            wrapped(p, x, &what)?;
                            wrapped(x, v, &what)?;
                        }
                    } )+ } }
                    off!(u8, 1000, 1100; u16, 1000, 2000; u32, 7, 100_007; u8, 1, 200);
                }
                18 => {
                    // the bounds check itself, over every combination of bounds
                    let mut pick = || {
                        let x = c.below(1 << 32) as u32 as i32;
                        match c.below(4) {
                            0 => x,
                            1 => x % 4,
                            2 => x % 300,
                            _ => *[i32::MIN, i32::MAX, 0, 1, -1, 255].get(x as u32 as usize % 6).unwrap(),
                        }
                    };
                    let (lo, hi, near) = (pick() as i64, pick() as i64, pick() as i64);
                    let val = match c.below(6) {
                        0 => near,
                        1 => lo - 1,
                        2 => hi + 1,
                        3 => hi - lo,
                        4 => hi - lo + 1,
                        _ => near << 20,
                    };
                    macro_rules! check { ($ext:ty, $r:expr, $fits:expr) => { if let Err(e) = $r {
                        note();
                        let e: BoundsError<$ext> = e;
                        let (mn, mx, v) = (lo as $ext, hi as $ext, val as $ext);
                        let at = || format!("{}: {val} submitted to {lo}..{hi}: {e:?}", what());
                        let ok = match &e {
                            BoundsError::Failed(_) => !$fits,
                            _ if !$fits => false,
                            BoundsError::InvalidBounds { min, max } => lo > hi && (*min, *max) == (mn, mx),
                            BoundsError::IllegalNegative { min, val: x } => lo > 0 && val < 0 && (*min, *x) == (mn, v),
                            _ if lo > hi => false,
                            BoundsError::Underflow { min, val: x } => lo <= 0 && val < lo && (*min, *x) == (mn, v),
                            BoundsError::Overflow { max, val: x } if lo > 0 => val > hi - lo && (*max, *x) == ((hi - lo) as $ext, v),
                            BoundsError::Overflow { max, val: x } => val > hi && (*max, *x) == (mx, v),
                        };
                        ensure!(ok, "operands", "{}", at());
                        match &e {
                            BoundsError::Failed(x) => {
                                rendering(&e, &[], &at)?;
                                let s = (&e as &dyn Error).source().map(|s| s.to_string());
                                ensure!(s == Some(x.to_string()), "source", "{}: the source is {s:?}", at());
                            }
                            BoundsError::InvalidBounds { .. } => rendering(&e, &[lo.to_string(), hi.to_string()], &at)?,
                            BoundsError::IllegalNegative { .. } => rendering(&e, &[val.to_string(), lo.to_string()], &at)?,
                            BoundsError::Underflow { .. } => rendering(&e, &[val.to_string(), lo.to_string()], &at)?,
                            BoundsError::Overflow { max, .. } => rendering(&e, &[val.to_string(), max.to_string()], &at)?,
                        }
                    } } }
                    check!(i64, BoundsError::<i64>::restrict(val, lo as i32, hi as i32), true);
                    check!(i128, BoundsError::<i128>::restrict(val, lo as i32, hi as i32), true);
                    check!(i64, BoundsError::<i64>::restrict(val as i128, lo as i32, hi as i32), true);
                    check!(i32, BoundsError::<i32>::restrict(val, lo as i32, hi as i32), i32::try_from(val).is_ok());
                    let (mn, mx, v) = (lo as f64 / 8.0, hi as f64 / 8.0, val as f64 / 16.0);
                    if let Err(e) = BoundsError::restrict_float(v, mn, mx) {
                        note();
                        let at = || format!("{}: {v} submitted to {mn}..{mx}: {e:?}", what());
                        if let BoundsError::InvalidBounds { min, max } = &e {
                            ensure!(mn > mx && (*min, *max) == (mn, mx), "operands", "{}", at());
                            rendering(&e, &[mn.to_string(), mx.to_string()], &at)?;
                        } else {
                            bounds(&e, mn, mx, v, &at)?;
                        }
                    }
                }
                _ => {
                    // a length prefix that points beyond the buffer
                    let pre = 1 + (c.below(250) as u8);
                    let mut d = vec![pre];
                    d.extend_from_slice(&b[..b.len().min(pre as usize - 1)]);
                    let r = match c.below(3) {
                        0 => <Dynamic<u8, Bytes> as Decode>::try_decode::<_, ByteParser>(d.clone()).map(|_| ()),
                        1 => <Dynamic<u8, Bytes> as Decode>::try_decode::<_, SliceParser>(&d[..]).map(|_| ()),
                        _ => <Dynamic<u8, Bytes> as Decode>::try_decode::<_, MemoParser>(d.clone()).map(|_| ()),
                    };
                    if let Err(e) = r {
                        note();
                        let DecodeError::Parse(x) = &e else { return viol("wrong-cause", format!("{}: {e:?}", what())) };
                        let Some((asked, there, false)) = shortage(x) else { return viol("wrong-cause", format!("{}: {e:?}", what())) };
                        ensure!((asked, there) == (pre as usize, d.len() - 1), "operands", "{}: {e:?}: {pre} bytes announced, {} there", what(), d.len() - 1);
                        rendering(x, &nums(&[asked]), &what)?;
                        of_decode(&e, &what)?;
                    }
                }
            }
            Ok(())
        })??;
        cx.ev(40 + k as u64, refused.get() as u64);
        if refused.get() {
            cx.fault("unfit value submitted");
        }
    }
    Ok(())
}
/// what a tag error carries, as far as it lets on
fn tag_operands(dbg: &str, tag: u64, mt: &types::MetaOps, what: &dyn Fn() -> String) -> R {
    if let Some((_, t)) = dbg.split_once("actual: ") {
        let n: String = t.chars().take_while(|c| c.is_ascii_digit()).collect();
        ensure!(n == tag.to_string(), "operands", "{}: {dbg}", what());
    }
    if let Some((_, t)) = dbg.split_once("expected: Some([") {
        let mut v: Vec<u64> = t.split(']').next().unwrap_or("").split(',').filter_map(|x| x.trim().parse().ok()).collect();
        v.sort();
        let mut w: Vec<u64> = mt.declared.iter().map(|x| x.0).collect();
        w.sort();
        ensure!(v == w, "operands", "{}: {dbg}: valid tags are {w:?}", what());
    }
    Ok(())
}
fn wire<T: Decode>(b: &[u8], min: i64, max: i64, val: i64, what: &dyn Fn() -> String, note: &dyn Fn()) -> R {
    match T::try_decode::<_, ByteParser>(b.to_vec()) {
        Ok(_) => Ok(()),
        Err(e) => {
            note();
            let DecodeError::Parse(p) = &e else { return viol("wrong-cause", format!("{}: {e:?} for {val}", what())) };
            let ParseError::External(x @ ExternalError::IntRangeViolation(v)) = p else { return viol("wrong-cause", format!("{}: {e:?} for {val}", what())) };
            bounds(v, min, max, val, what)?;
            of_decode(&e, what)?;
            wrapped(p, x, what)?;
            wrapped(x, v, what).map(|_| ())
        }
    }
}
