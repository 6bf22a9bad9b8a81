//! World `console` (C25): values are shown on consoles that may fail. Each value is made on one
//! node and possibly received by others over a link that duplicates and delays; every node shows
//! it under various formatting options on a text sink that can break down at any byte, in the
//! middle of a write or between two, and is repaired later. Whatever is shown must be exactly the
//! text of the contents under the same options, the same on every node; a broken sink must be
//! reported, must not be written to again, and must hold a prefix of the whole text.
use super::util::*;
use crate::core::*;
use crate::ensure;
use crate::plan::{hex, Plan, Step};
use crate::rng::{Choices, Rng};
use crate::simparser::{Cfg, SimParser, KINDS};
use num_bigint::{BigInt, BigUint};
use std::fmt::{self, Binary, Debug, Display, LowerHex, Octal, UpperHex, Write};
use tedium::conv::{target::Target, EncodeLength};
use tedium::{AutoBox, Builder, Bytes, Decode, Dynamic, Encode, FixedBytes, FixedString, HexString, MemoBuilder, RangedInt, Sequence, VPadded};

pub struct Console;
const SHOW: u16 = 0;

/// a console that accepts `left` more bytes, then breaks; `torn`: it keeps what still fitted of the
/// write it broke in
struct Sink {
    text: Vec<u8>,
    left: Option<usize>,
    torn: bool,
    broken: bool,
    after: u64,
}
impl Sink {
    fn new(left: Option<usize>, torn: bool) -> Self {
        Sink { text: vec![], left, torn, broken: false, after: 0 }
    }
}
impl Write for Sink {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        if self.broken {
            self.after += 1;
            return Err(fmt::Error);
        }
        match &mut self.left {
            Some(l) if *l < s.len() => {
                if self.torn {
                    self.text.extend_from_slice(&s.as_bytes()[..*l]);
                }
                self.broken = true;
                Err(fmt::Error)
            }
            l => {
                if let Some(l) = l {
                    *l -= s.len();
                }
                self.text.extend_from_slice(s.as_bytes());
                Ok(())
            }
        }
    }
}
macro_rules! specs {
    ($f:ident, $tr:ident, $n:expr, { $($k:literal => $s:literal),* $(,)? }, { $($wk:literal => $ws:literal),* $(,)? }) => {
        /// the `k`-th way to ask for this text, with width `w`
        fn $f<T: $tr + ?Sized>(k: usize, w: usize, t: &T, s: &mut dyn Write) -> fmt::Result {
            match k % $n {
                $( $k => write!(s, $s, t), )*
                $( $wk => write!(s, $ws, t, w = w), )*
                _ => unreachable!(),
            }
        }
    };
}
specs!(display, Display, 14, { 0 => "{}", 1 => "{:+}", 2 => "{:#}", 3 => "<{}>", 4 => "{:8}", 5 => "{:<7}|", 6 => "{:é>6}" },
    { 7 => "{:w$}", 8 => "{:>w$}", 9 => "{:^w$}", 10 => "{:*^w$.3}", 11 => "{:0w$}", 12 => "{:+0w$}", 13 => "{:.w$}" });
specs!(debug, Debug, 7, { 0 => "{:?}", 1 => "{:#?}", 2 => "<{:?}>", 3 => "{:02x?}", 4 => "{:#X?}" }, { 5 => "{:w$?}", 6 => "{:<+w$?}" });
specs!(lower_hex, LowerHex, 7, { 0 => "{:x}", 1 => "{:#x}", 2 => "{:#010x}", 3 => "<{:x}>" }, { 4 => "{:w$x}", 5 => "{:+w$x}", 6 => "{:#0w$x}" });
specs!(upper_hex, UpperHex, 5, { 0 => "{:X}", 1 => "{:#X}", 2 => "{:.>12X}" }, { 3 => "{:w$X}", 4 => "{:#0w$X}" });
specs!(octal, Octal, 5, { 0 => "{:o}", 1 => "{:#o}", 2 => "{:^+13o}" }, { 3 => "{:w$o}", 4 => "{:#0w$o}" });
specs!(binary, Binary, 5, { 0 => "{:b}", 1 => "{:#b}", 2 => "{:<34b}" }, { 3 => "{:w$b}", 4 => "{:#0w$b}" });

type Render = Box<dyn Fn(usize, usize, &mut dyn Write) -> fmt::Result>;
enum Want {
    /// the same text as this, under the same options
    As(Render),
    /// without options, this text
    Plain(String),
    /// somewhere in it, this text
    With(String),
}
struct Face {
    how: &'static str,
    got: Render,
    want: Want,
}
fn face<T: 'static>(how: &'static str, t: T, f: fn(usize, usize, &T, &mut dyn Write) -> fmt::Result, want: Want) -> Face {
    Face { how, got: Box::new(move |k, w, s| f(k, w, &t, s)), want }
}
fn as_<T: 'static>(t: T, f: fn(usize, usize, &T, &mut dyn Write) -> fmt::Result) -> Want {
    Want::As(Box::new(move |k, w, s| f(k, w, &t, s)))
}
/// where a value is shown: where it was made, or after it came over the link
#[derive(Clone, Copy)]
struct Route {
    hops: usize,
    kind: usize,
}
fn sent<W: Encode + Decode, const TAIL: usize>(mut w: W, r: Route) -> Option<W> {
    for h in 0..r.hops {
        let mut b = w.to_bytes();
        b.extend_from_slice(&[0x5A; TAIL]);
        let mut p = SimParser::with(&b, Cfg { kind: KINDS[(r.kind + h) % 4], budget: op_budget(b.len()), ..Default::default() });
        w = W::parse(&mut p).ok()?;
    }
    Some(w)
}
fn g_bytes(ch: &mut Choices, max: u64) -> Vec<u8> {
    let n = ch.below(max + 1);
    (0..n).map(|_| { let v = ch.byte(); if v % 3 == 0 { [0, 0x0f, 0xf0, 0xff, b'"', b'\\', 0x0a, 0x80][v as usize / 3 % 8] } else { v } }).collect()
}
fn g_nat(ch: &mut Choices) -> BigUint {
    BigUint::from_bytes_be(&g_bytes(ch, 20))
}
fn g_big(ch: &mut Choices) -> BigInt {
    let n = BigInt::from(g_nat(ch));
    if ch.byte() % 2 == 1 { -n } else { n }
}
fn g_text(ch: &mut Choices) -> String {
    let n = ch.below(9);
    (0..n).map(|_| ['a', '0', 'é', '\u{2124}', '"', '\n', '\0', '\u{1F980}', '{', '}'][ch.byte() as usize % 10]).collect()
}
fn g_fixed(ch: &mut Choices) -> [u8; 6] {
    let mut b: Vec<u8> = if ch.byte() % 2 == 0 { g_text(ch).into_bytes() } else { g_bytes(ch, 6) };
    b.resize(6, b' ');
    b.try_into().unwrap()
}
fn lossy(b: &[u8]) -> String {
    String::from_utf8_lossy(b).into_owned()
}
fn dynamic<S: tedium::dynamic::LenPref + 'static, C, M: Display + Debug + Clone + 'static>(c: C, model: M, dbg: String, r: Route) -> Option<Vec<Face>>
where
    C: Encode + Decode + EncodeLength + Display + Debug + Clone + 'static,
{
    let len = c.to_bytes().len();
    let w: Dynamic<S, C> = sent::<_, 0>(Dynamic::new(c), r)?;
    Some(vec![
        face("Display", w.clone(), display, as_(model, display)),
        face("Debug", w.clone(), debug, Want::With(dbg)),
        face("Debug", w, debug, Want::With(len.to_string())),
    ])
}
fn ranged<I: 'static, const A: i32, const B: i32>(x: i32, r: Route) -> Option<Vec<Face>>
where
    I: tedium::int::Integral + Encode + Decode,
    <I as TryFrom<i32>>::Error: Debug,
    <I as TryFrom<i64>>::Error: Debug + Into<std::num::TryFromIntError>,
{
    let w: RangedInt<I, A, B> = sent::<_, 0>(RangedInt::from_i32(x), r)?;
    Some(vec![
        face("LowerHex", w, lower_hex, as_(x, lower_hex)),
        face("UpperHex", w, upper_hex, as_(x, upper_hex)),
        face("Octal", w, octal, as_(x, octal)),
        face("Binary", w, binary, as_(x, binary)),
    ])
}
const FORMS: [&str; 17] = [
    "N", "Z", "FixedString<6>", "FixedBytes<5>", "HexString", "AutoBox<N>", "AutoBox<FixedString<6>>", "AutoBox<Sequence<i16>>", "VPadded<Bytes, 2>",
    "Dynamic<u8, N>", "Dynamic<u16, String>", "Dynamic<u30, AutoBox<Z>>", "Dynamic<u8, FixedString<6>>", "RangedInt<u8, 1023, 1100>", "i31", "u30", "MemoBuilder",
];
fn faces(form: usize, ch: &mut Choices, r: Route) -> Option<Vec<Face>> {
    Some(match form {
        0 => {
            let n = g_nat(ch);
            let w = sent::<_, 0>(tedium::N::new(n.clone()), r)?;
            vec![face("Display", w.clone(), display, as_(n.clone(), display)), face("Debug", w, debug, Want::With(n.to_string()))]
        }
        1 => {
            let n = g_big(ch);
            let w = sent::<_, 0>(tedium::Z::new(n.clone()), r)?;
            vec![face("Display", w.clone(), display, as_(n.clone(), display)), face("Debug", w, debug, Want::With(n.to_string()))]
        }
        2 => {
            let b = g_fixed(ch);
            vec![face("Display", sent::<FixedString<6>, 0>(b.into(), r)?, display, as_(lossy(&b), display))]
        }
        3 => {
            let b: [u8; 5] = g_fixed(ch)[..5].try_into().unwrap();
            vec![face("LowerHex", sent::<FixedBytes<5>, 0>(b.into(), r)?, lower_hex, Want::Plain(hex(&b)))]
        }
        4 => {
            let b = g_bytes(ch, 30);
            let w = HexString::from_vec(b.clone());
            vec![face("Display", w.clone(), display, as_(hex(&b), display)), face("Debug", w, debug, Want::With(hex(&b)))]
        }
        5 => {
            let n = g_nat(ch);
            let w = sent::<AutoBox<tedium::N>, 0>(AutoBox::new(tedium::N::new(n.clone())), r)?;
            vec![face("Display", w.clone(), display, as_(n.clone(), display)), face("Debug", w, debug, as_(tedium::N::new(n), debug))]
        }
        6 => {
            let b = g_fixed(ch);
            vec![face("Display", sent::<AutoBox<FixedString<6>>, 0>(AutoBox::new(b.into()), r)?, display, as_(lossy(&b), display))]
        }
        7 => {
            let v: Vec<i16> = (0..ch.below(4)).map(|_| ch.word(2) as i16).collect();
            let w = sent::<AutoBox<Sequence<i16>>, 0>(AutoBox::new(v.clone().into()), r)?;
            vec![face("Debug", w, debug, as_(Sequence::from(v), debug))]
        }
        8 => {
            let b = g_bytes(ch, 9);
            let w = sent::<VPadded<Bytes, 2>, 2>(VPadded::new(b.clone().into()), r)?;
            vec![face("Debug", w, debug, as_(Bytes::from(b), debug))]
        }
        9 => {
            let n = g_nat(ch);
            dynamic::<u8, _, _>(tedium::N::new(n.clone()), n.clone(), n.to_string(), r)?
        }
        10 => {
            let t = g_text(ch);
            dynamic::<u16, _, _>(t.clone(), t.clone(), format!("{t:?}"), r)?
        }
        11 => {
            let n = g_big(ch);
            dynamic::<tedium::u30, _, _>(AutoBox::new(tedium::Z::new(n.clone())), n.clone(), n.to_string(), r)?
        }
        12 => {
            let b = g_fixed(ch);
            let s = FixedString::<6>::from(b);
            dynamic::<u8, _, _>(s, lossy(&b), format!("{s:?}"), r)?
        }
        13 => ranged::<u8, 1023, 1100>(1023 + ch.below(78) as i32, r)?,
        14 => ranged::<i32, -0x4000_0000, 0x3fff_ffff>((ch.word(4) as i32) >> 1, r)?,
        15 => ranged::<u32, 0, 0x3fff_ffff>((ch.word(4) as u32 >> 2) as i32, r)?,
        _ => {
            let (mut b, mut want) = (MemoBuilder::create(), String::from("[|"));
            for _ in 0..1 + ch.below(4) {
                let g = g_bytes(ch, 5);
                b.push_all(&g);
                b.resolve();
                want += &format!("{}|", hex(&g));
            }
            want += "]";
            vec![face("Display", b.clone(), display, Want::Plain(want.clone())), face("Display", b.finalize(), display, Want::Plain(want))]
        }
    })
}

// ---- serialisers that may fail ---------------------------------------------------------------
#[cfg(feature = "serde")]
mod ser {
    use super::*;
    use serde::ser::{Impossible, Serialize, Serializer};
    #[derive(Debug, PartialEq)]
    pub enum Fail {
        /// the simulated fault
        Fault(u8),
        /// something other than a byte string was handed over
        Other(&'static str),
    }
    impl Display for Fail {
        fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
            write!(f, "{self:?}")
        }
    }
    impl std::error::Error for Fail {}
    impl serde::ser::Error for Fail {
        fn custom<T: Display>(_: T) -> Self {
            Fail::Other("custom")
        }
    }
    pub struct Rec<'a> {
        pub got: &'a mut Vec<Vec<u8>>,
        pub fault: Option<u8>,
    }
    macro_rules! others { ($($f:ident($($t:ty),*));* $(;)?) => { $( fn $f(self, $(_: $t),*) -> Result<u64, Fail> { Err(Fail::Other(stringify!($f))) } )* } }
    type I = Impossible<u64, Fail>;
    impl Serializer for Rec<'_> {
        type Ok = u64;
        type Error = Fail;
        type SerializeSeq = I;
        type SerializeTuple = I;
        type SerializeTupleStruct = I;
        type SerializeTupleVariant = I;
        type SerializeMap = I;
        type SerializeStruct = I;
        type SerializeStructVariant = I;
        fn serialize_bytes(self, v: &[u8]) -> Result<u64, Fail> {
            self.got.push(v.to_vec());
            match self.fault {
                Some(c) => Err(Fail::Fault(c)),
                None => Ok(v.len() as u64 + 77),
            }
        }
        others! {
            serialize_bool(bool); serialize_i8(i8); serialize_i16(i16); serialize_i32(i32); serialize_i64(i64);
            serialize_u8(u8); serialize_u16(u16); serialize_u32(u32); serialize_u64(u64); serialize_f32(f32); serialize_f64(f64);
            serialize_char(char); serialize_str(&str); serialize_none(); serialize_unit(); serialize_unit_struct(&'static str);
            serialize_unit_variant(&'static str, u32, &'static str);
        }
        fn serialize_some<T: Serialize + ?Sized>(self, _: &T) -> Result<u64, Fail> {
            Err(Fail::Other("some"))
        }
        fn serialize_newtype_struct<T: Serialize + ?Sized>(self, _: &'static str, v: &T) -> Result<u64, Fail> {
            v.serialize(self)
        }
        fn serialize_newtype_variant<T: Serialize + ?Sized>(self, _: &'static str, _: u32, _: &'static str, _: &T) -> Result<u64, Fail> {
            Err(Fail::Other("variant"))
        }
        fn serialize_seq(self, _: Option<usize>) -> Result<I, Fail> {
            Err(Fail::Other("seq"))
        }
        fn serialize_tuple(self, _: usize) -> Result<I, Fail> {
            Err(Fail::Other("tuple"))
        }
        fn serialize_tuple_struct(self, _: &'static str, _: usize) -> Result<I, Fail> {
            Err(Fail::Other("tuple struct"))
        }
        fn serialize_tuple_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<I, Fail> {
            Err(Fail::Other("tuple variant"))
        }
        fn serialize_map(self, _: Option<usize>) -> Result<I, Fail> {
            Err(Fail::Other("map"))
        }
        fn serialize_struct(self, _: &'static str, _: usize) -> Result<I, Fail> {
            Err(Fail::Other("struct"))
        }
        fn serialize_struct_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<I, Fail> {
            Err(Fail::Other("struct variant"))
        }
    }
    fn one<W: Serialize>(n: &str, w: &W, want: &[u8], fault: Option<u8>, cx: &mut Cx) -> R {
        let mut got = vec![];
        let r = no_panic(&format!("serialising {n}"), || w.serialize(Rec { got: &mut got, fault }))?;
        ensure!(got == [want], "serialised", "{n} holding {} hands the serialiser {}", short(want), shortv(&got.iter().map(|x| hex(x)).collect::<Vec<_>>()));
        match fault {
            Some(c) => {
                cx.fault("serialiser failure");
                ensure!(r == Err(Fail::Fault(c)), "serialised", "{n}: the serialiser fails with {c}, serialising gives {r:?}");
            }
            None => ensure!(r == Ok(want.len() as u64 + 77), "serialised", "{n}: serialising gives {r:?}"),
        }
        cx.count("values serialised", 1);
        Ok(())
    }
    pub fn run(ch: &mut Choices, r: Route, fault: Option<u8>, cx: &mut Cx) -> R {
        let (b, f) = (g_bytes(ch, 20), g_fixed(ch));
        if let (Some(w), Some(x)) = (sent::<Bytes, 0>(b.clone().into(), r), sent::<FixedBytes<6>, 0>(f.into(), r)) {
            one("Bytes", &w, &b, fault, cx)?;
            one("FixedBytes<6>", &x, &f, fault, cx)?;
        }
        Ok(())
    }
}

impl World for Console {
    fn name(&self) -> &'static str {
        "console"
    }
    fn gen(&self, rng: &mut Rng, thorough: bool) -> Plan {
        let mut p = Plan::new(self.name());
        for _ in 0..rng.range(1, if thorough { 8 } else { 4 }) {
            let k = rng.range(1, 44) as usize;
            let f = rng.below(3) as i64;
            p.steps.push(Step::with(
                SHOW,
                &[
                    rng.below(FORMS.len() as u64) as i64,
                    *rng.pick(&[0, 0, 1, 1, 2]),
                    rng.below(4) as i64,
                    rng.below(70) as i64,
                    *rng.pick(&[0, 1, 2, 5, 8, 13, 20, 33, 60]),
                    f,
                    rng.below(90) as i64,
                    rng.below(3) as i64,
                ],
                rng.bytes(k),
            ));
        }
        p
    }
    fn exec(&self, p: &Plan, cx: &mut Cx) -> R {
        for s in &p.steps {
            let form = s.uarg(0) % FORMS.len();
            let n = FORMS[form];
            let r = Route { hops: s.uarg(1) % 3, kind: s.uarg(2) };
            let Some(fs) = no_panic(&format!("making a {n}"), || faces(form, &mut Choices::new(&s.b), r))? else {
                cx.count("abandoned: value cannot be sent", 1);
                continue;
            };
            let (k, w) = (s.uarg(3), s.uarg(4) % 64);
            for f in &fs {
                let mut whole = Sink::new(None, false);
                let k = if let Want::Plain(_) = f.want { 0 } else { k };
                let what = format!("{} of {n} (option {k}, width {w})", f.how);
                let ok = no_panic(&what, || (f.got)(k, w, &mut whole))?;
                let text = String::from_utf8(whole.text).unwrap_or_else(|e| lossy(e.as_bytes()));
                ensure!(ok.is_ok(), "refused", "{what}: fails after {text:?} although the console works");
                match &f.want {
                    Want::As(m) => {
                        let mut t = String::new();
                        m(k, w, &mut t).expect("the reference renders");
                        ensure!(text == t, "text", "{what}: shows {text:?}, the contents {t:?}");
                    }
                    Want::Plain(t) => ensure!(text == *t, "text", "{what}: shows {text:?}, expected {t:?}"),
                    Want::With(t) => ensure!(text.contains(t.as_str()), "text", "{what}: shows {text:?}, which lacks {t:?}"),
                }
                cx.ev(1 + form as u64, (k % 14) as u64 | (r.hops as u64) << 4);
                cx.bytes(text.as_bytes());
                cx.say(|| format!("{what}: {text:?}"));
                // the console breaks down, some times over, before it is repaired
                for a in 0..s.uarg(7) % 3 {
                    let mode = s.uarg(5) % 3;
                    if mode == 0 || text.is_empty() {
                        break;
                    }
                    let cut = (s.uarg(6) + a * 7) % text.len();
                    let mut sink = Sink::new(Some(cut), mode == 2);
                    let r = no_panic(&what, || (f.got)(k, w, &mut sink))?;
                    cx.fault(if mode == 2 { "console broke in a write" } else { "console broke between writes" });
                    ensure!(sink.broken, "text", "{what}: shows less than before: {:?} after {text:?}", lossy(&sink.text));
                    ensure!(r.is_err(), "failure-hidden", "{what}: the console broke after {cut} bytes, the rendering reports success");
                    ensure!(sink.after == 0, "write-after-failure", "{what}: the console broke after {cut} bytes and was written to {} more times", sink.after);
                    ensure!(text.as_bytes().starts_with(&sink.text), "prefix", "{what}: the console broke after {cut} bytes holding {:?}, the whole text is {text:?}", lossy(&sink.text));
                    ensure!(mode == 1 || sink.text.len() == cut, "prefix", "{what}: the console took {} bytes, it had room for {cut}", sink.text.len());
                    cx.ev(40 + mode as u64, bucket(cut));
                    let mut again = Sink::new(None, false);
                    let ok = no_panic(&what, || (f.got)(k, w, &mut again))?;
                    ensure!(ok.is_ok() && again.text == text.as_bytes(), "text", "{what}: shown again, {:?} instead of {text:?}", lossy(&again.text));
                }
                cx.count("texts shown", 1);
            }
            #[cfg(feature = "serde")]
            ser::run(&mut Choices::new(&s.b), r, (s.uarg(5) % 3 == 1).then_some(s.arg(6) as u8), cx)?;
        }
        Ok(())
    }
}
