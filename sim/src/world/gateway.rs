//! World `gateway-*` (C19 ranged integers, C20 ranged floats, C23 fixed-width strings).
//! Applications submit raw values of any size to a gateway. The gateway puts each one into a
//! bounded codec type through one of that type's entry points, or is refused and falls back on an
//! extreme value; what it accepted it journals and sends over a faulty link. The far gateway
//! decodes (whatever the link made of the frame), reads the number out through every exit, moves
//! it on into another bounded type, and confirms. Gateways crash and rebuild their state from the
//! journal. At every point a value in a bounded type must be exactly the one that was put in, and
//! only legal values may get in.
use super::util::*;
use crate::core::*;
use crate::ensure;
use crate::plan::{Plan, Step};
use crate::rng::{Choices, Rng};
use crate::simparser::{Cfg, SimParser, KINDS};
use crate::simtarget::SimTarget;
use std::borrow::Borrow;
use std::collections::BTreeMap;
use std::marker::PhantomData;
use std::str::FromStr;
use std::sync::OnceLock;
use tedium::parse::error::ParseResult;
use tedium::{Builder, ByteParser, Decode, Encode, FixedBytes, FixedString, HexString, MemoBuilder, RangedFloat, RangedInt, StrictBuilder, Target};

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Focus {
    Int,
    Float,
    Fixed,
}
pub struct Gateway(pub Focus);
const REQ: u16 = 0;

/// what an application submits (a double is its bits)
#[derive(Clone, PartialEq, Debug)]
enum Raw {
    I(i128),
    F(u64),
    B(Vec<u8>),
}
impl Raw {
    fn int(&self) -> i128 {
        match self {
            Raw::I(x) => *x,
            _ => unreachable!("harness"),
        }
    }
    fn float(&self) -> f64 {
        match self {
            Raw::F(x) => f64::from_bits(*x),
            _ => unreachable!("harness"),
        }
    }
    fn raw(&self) -> &[u8] {
        match self {
            Raw::B(x) => x,
            _ => unreachable!("harness"),
        }
    }
    fn show(&self) -> String {
        match self {
            Raw::I(x) => format!("{x}"),
            Raw::F(x) => format!("{:?} (bits {x:016x})", f64::from_bits(*x)),
            Raw::B(b) => format!("{} ({} bytes)", short(b), b.len()),
        }
    }
}
/// a value inside its bounded type
trait Item {
    /// every exit must give this value
    fn check(&self, want: &Raw) -> R;
    fn encode(&self, way: usize) -> Vec<u8>;
}
trait Slot: Sync + Send {
    fn name(&self) -> String;
    fn width(&self) -> usize;
    fn entries(&self) -> &'static [&'static str];
    /// a value an application may come up with
    fn seed(&self, sel: usize, delta: i64, b: &[u8]) -> Raw;
    /// the submitted value, as it can be expressed in the argument type of this entry point
    fn fit(&self, entry: usize, raw: Raw) -> Raw;
    fn legal(&self, entry: usize, raw: &Raw) -> bool;
    /// this entry point documents a panic for what it refuses
    fn may_panic(&self, entry: usize) -> bool;
    fn enter(&self, entry: usize, raw: &Raw) -> Result<Box<dyn Item>, String>;
    fn wire(&self, raw: &Raw) -> Vec<u8>;
    /// exactly `width` bytes; whatever they denote, legal or not
    fn unwire(&self, b: &[u8]) -> Raw;
    fn parse(&self, p: &mut SimParser) -> ParseResult<Box<dyn Item>>;
    fn decode(&self, b: &[u8]) -> Result<Box<dyn Item>, String>;
    fn extremes(&self) -> Vec<(&'static str, Raw, Box<dyn Fn() -> Box<dyn Item>>)>;
}
fn put<T: Encode>(x: &T, way: usize) -> Vec<u8> {
    match way % 8 {
        0 => x.to_bytes(),
        1 => {
            let mut b = vec![];
            x.write_to_vec(&mut b);
            b
        }
        2 => x.encode::<Vec<u8>>(),
        3 => x.encode::<StrictBuilder>().into_vec(),
        4 => x.encode::<MemoBuilder>().into_vec(),
        5 => x.encode::<HexString>().into_inner(),
        6 => {
            let mut t = SimTarget::default();
            x.write_to(&mut t);
            t.out
        }
        _ => {
            let mut t = StrictBuilder::create();
            x.write_to(&mut t);
            t.into_vec()
        }
    }
}

// ---- integers --------------------------------------------------------------------------------
struct ISlot<I, const MIN: i32, const MAX: i32>(PhantomData<I>);
const INT_ENTRIES: [&str; 16] = [
    "TryFrom<u8>", "TryFrom<i8>", "TryFrom<u16>", "TryFrom<i16>", "TryFrom<u32>", "TryFrom<i32>", "TryFrom<u64>", "TryFrom<i64>", "TryFrom<usize>", "TryFrom<isize>",
    "try_from_i32", "from_i32", "try_from_underlying", "from_underlying", "from_numeric_unchecked", "from_underlying_unchecked",
];
fn int_seed(min: i128, max: i128, sel: usize, delta: i64, b: &[u8]) -> Raw {
    let mut ch = Choices::new(b);
    let base = match sel % 24 {
        0 => 0,
        1 | 2 => min,
        3 | 4 => max,
        5 => max - min,
        6 => min - max,
        7 => 2 * min,
        8 => max + min,
        9 => 1 << 7,
        10 => 1 << 8,
        11 => 1 << 15,
        12 => 1 << 16,
        13 => 1 << 30,
        14 => 1 << 31,
        15 => 1 << 32,
        16 => 1 << 63,
        17 => 1 << 64,
        18 => -(1 << 7),
        19 => -(1 << 15),
        20 => -(1 << 31),
        21 => -(1 << 63),
        22 => min + (ch.word(8) as i128).rem_euclid(max - min + 1),
        _ => {
            let k = 1 + ch.byte() as usize % 8;
            let x = ch.word(k) as i128;
            if ch.byte() & 1 == 1 {
                -x
            } else {
                x
            }
        }
    };
    Raw::I(base + delta as i128)
}
macro_rules! int_slots {
    ($b:ident; from $($f:ident),*; try $($t:ident),*) => {
        impl<const MIN: i32, const MAX: i32> Item for RangedInt<$b, MIN, MAX> {
            fn check(&self, want: &Raw) -> R {
                let n = want.int();
                let me = format!("RangedInt<{}, {MIN}, {MAX}>", stringify!($b));
                let s = *self;
                let got = no_panic(&format!("to_i32 of a {me} made from {n}"), || s.to_i32())?;
                ensure!(got as i128 == n, "wrong-number", "{me} made from {n}: to_i32 gives {got}");
                let u = no_panic(&format!("to_underlying of a {me} made from {n}"), || s.to_underlying())?;
                ensure!(u as i128 == n - MIN.max(0) as i128, "wrong-number", "{me} made from {n} stores {u}");
                ensure!(unsafe { s.to_underlying_unchecked() } == u, "wrong-number", "{me} made from {n}: to_underlying_unchecked differs from {u}");
                $(
                    let w = <$f>::try_from(n).ok();
                    match (w, guarded(|| <$f as From<Self>>::from(s))) {
                        (Some(w), Ok(g)) => ensure!(w == g, "wrong-number", "{me} made from {n}: conversion into {} gives {g}", stringify!($f)),
                        (Some(_), Err(_)) => return viol("exit-refused", format!("{me} made from {n}: conversion into {} panics", stringify!($f))),
                        (None, Ok(g)) => return viol("wrong-number", format!("{me} made from {n}: conversion into {} gives {g}", stringify!($f))),
                        (None, Err(_)) => {}
                    }
                )*
                $(
                    let w = <$t>::try_from(n).ok();
                    let g = no_panic(&format!("{me} made from {n}: conversion into {}", stringify!($t)), || <$t as TryFrom<Self>>::try_from(s).ok())?;
                    ensure!(w == g, "wrong-number", "{me} made from {n}: conversion into {} gives {g:?}", stringify!($t));
                )*
                let k = n as i32;
                let txt = no_panic(&format!("printing a {me} made from {n}"), || [format!("{s:x}"), format!("{s:X}"), format!("{s:o}"), format!("{s:b}"), format!("{s:#010x}")])?;
                let wtxt = [format!("{k:x}"), format!("{k:X}"), format!("{k:o}"), format!("{k:b}"), format!("{k:#010x}")];
                ensure!(txt == wtxt, "wrong-number", "{me} made from {n} prints as {txt:?} instead of {wtxt:?}");
                Ok(())
            }
            fn encode(&self, way: usize) -> Vec<u8> {
                put(self, way)
            }
        }
        impl<const MIN: i32, const MAX: i32> Slot for ISlot<$b, MIN, MAX> {
            fn name(&self) -> String {
                format!("RangedInt<{}, {MIN}, {MAX}>", stringify!($b))
            }
            fn width(&self) -> usize {
                std::mem::size_of::<$b>()
            }
            fn entries(&self) -> &'static [&'static str] {
                &INT_ENTRIES
            }
            fn seed(&self, sel: usize, delta: i64, b: &[u8]) -> Raw {
                int_seed(MIN as i128, MAX as i128, sel, delta, b)
            }
            fn fit(&self, entry: usize, raw: Raw) -> Raw {
                let n = raw.int();
                let low = MIN.max(0) as i128;
                Raw::I(match entry {
                    0 => n as u8 as i128,
                    1 => n as i8 as i128,
                    2 => n as u16 as i128,
                    3 => n as i16 as i128,
                    4 => n as u32 as i128,
                    6 => n as u64 as i128,
                    7 => n as i64 as i128,
                    8 => n as usize as i128,
                    9 => n as isize as i128,
                    5 | 10 | 11 | 14 => n as i32 as i128,
                    _ => (n - low) as $b as i128 + low,
                })
            }
            fn legal(&self, _: usize, raw: &Raw) -> bool {
                (MIN as i128..=MAX as i128).contains(&raw.int())
            }
            fn may_panic(&self, entry: usize) -> bool {
                matches!(entry, 11 | 13)
            }
            fn enter(&self, entry: usize, raw: &Raw) -> Result<Box<dyn Item>, String> {
                type T<const A: i32, const B: i32> = RangedInt<$b, A, B>;
                let n = raw.int();
                let x = (n - MIN.max(0) as i128) as $b;
                if entry >= 14 && !self.legal(entry, raw) {
                    return Err("unchecked entry not used for illegal numbers".into());
                }
                let r: Result<T<MIN, MAX>, String> = match entry {
                    0 => T::try_from(n as u8).map_err(|e| format!("{e:?}")),
                    1 => T::try_from(n as i8).map_err(|e| format!("{e:?}")),
                    2 => T::try_from(n as u16).map_err(|e| format!("{e:?}")),
                    3 => T::try_from(n as i16).map_err(|e| format!("{e:?}")),
                    4 => T::try_from(n as u32).map_err(|e| format!("{e:?}")),
                    5 => T::try_from(n as i32).map_err(|e| format!("{e:?}")),
                    6 => T::try_from(n as u64).map_err(|e| format!("{e:?}")),
                    7 => T::try_from(n as i64).map_err(|e| format!("{e:?}")),
                    8 => T::try_from(n as usize).map_err(|e| format!("{e:?}")),
                    9 => T::try_from(n as isize).map_err(|e| format!("{e:?}")),
                    10 => T::try_from_i32(n as i32).map_err(|e| format!("{e:?}")),
                    11 => Ok(T::from_i32(n as i32)),
                    12 => T::try_from_underlying(x).map_err(|e| format!("{e:?}")),
                    13 => Ok(T::from_underlying(x)),
                    14 => Ok(unsafe { T::from_numeric_unchecked(n as i32) }),
                    _ => Ok(unsafe { T::from_underlying_unchecked(x) }),
                };
                r.map(|v| Box::new(v) as Box<dyn Item>)
            }
            fn wire(&self, raw: &Raw) -> Vec<u8> {
                ((raw.int() - MIN.max(0) as i128) as $b).to_be_bytes().to_vec()
            }
            fn unwire(&self, b: &[u8]) -> Raw {
                Raw::I(<$b>::from_be_bytes(b.try_into().unwrap()) as i128 + MIN.max(0) as i128)
            }
            fn parse(&self, p: &mut SimParser) -> ParseResult<Box<dyn Item>> {
                RangedInt::<$b, MIN, MAX>::parse(p).map(|v| Box::new(v) as Box<dyn Item>)
            }
            fn decode(&self, b: &[u8]) -> Result<Box<dyn Item>, String> {
                RangedInt::<$b, MIN, MAX>::try_decode::<_, ByteParser>(b.to_vec()).map(|v| Box::new(v) as Box<dyn Item>).map_err(|e| format!("{e:?}"))
            }
            fn extremes(&self) -> Vec<(&'static str, Raw, Box<dyn Fn() -> Box<dyn Item>>)> {
                vec![
                    ("the least value", Raw::I(MIN as i128), Box::new(|| Box::new(RangedInt::<$b, MIN, MAX>::min_val()))),
                    ("the greatest value", Raw::I(MAX as i128), Box::new(|| Box::new(RangedInt::<$b, MIN, MAX>::max_val()))),
                    ("the default", Raw::I(0.clamp(MIN, MAX) as i128), Box::new(|| Box::new(RangedInt::<$b, MIN, MAX>::default()))),
                ]
            }
        }
    };
}
int_slots!(u8; from u8, u16, i16, u32, i32, u64, i64, usize, isize; try i8);
int_slots!(i8; from i8, i16, i32, i64, isize; try u8, u16, u32, u64, usize);
int_slots!(u16; from u32, i32, u64, i64, usize, isize; try i8, u8, i16);
int_slots!(i16; from i16, i32, i64, isize; try i8, u8, u16, u32, u64, usize);
int_slots!(u32; from u32, i32, u64, i64, usize, isize; try i8, u8, i16, u16);
int_slots!(i32; from i32, i64, isize; try i8, u8, i16, u16, u32, u64, usize);

// ---- floats ----------------------------------------------------------------------------------
struct FSlot<const A: u64, const B: u64>;
const FLOAT_ENTRIES: [&str; 7] = ["try_from_f64", "from_f64", "TryFrom<f64>", "TryFrom<f32>", "prevalidate_f64", "prevalidate_f32", "from_f64_unchecked"];
impl<const A: u64, const B: u64> FSlot<A, B> {
    fn ok(x: f64) -> bool {
        let (a, b) = (f64::from_bits(A), f64::from_bits(B));
        // no comparison with NaN holds
        a <= b && a <= x && x <= b
    }
}
impl<const A: u64, const B: u64> Item for RangedFloat<A, B> {
    fn check(&self, want: &Raw) -> R {
        let w = want.float().to_bits();
        let me = format!("RangedFloat<{:?}, {:?}>", f64::from_bits(A), f64::from_bits(B));
        let s = *self;
        let all = [("the conversion into f64", f64::from(s)), ("as_f64", *s.as_f64()), ("a copy", *s.clone().as_f64())];
        for (how, g) in all {
            ensure!(g.to_bits() == w, "wrong-number", "{me} made from {}: {how} gives {g:?} (bits {:016x})", want.show(), g.to_bits());
        }
        match no_panic("validating a stored float", || s.get_validated())? {
            Ok(g) => ensure!(g.to_bits() == w, "wrong-number", "{me} made from {}: get_validated gives {g:?}", want.show()),
            Err(e) => return viol("exit-refused", format!("{me} made from {}: get_validated refuses it: {e:?}", want.show())),
        }
        Ok(())
    }
    fn encode(&self, way: usize) -> Vec<u8> {
        put(self, way)
    }
}
impl<const A: u64, const B: u64> Slot for FSlot<A, B> {
    fn name(&self) -> String {
        format!("RangedFloat<{:?}, {:?}>", f64::from_bits(A), f64::from_bits(B))
    }
    fn width(&self) -> usize {
        8
    }
    fn entries(&self) -> &'static [&'static str] {
        &FLOAT_ENTRIES
    }
    fn seed(&self, sel: usize, delta: i64, b: &[u8]) -> Raw {
        let mut ch = Choices::new(b);
        let (lo, hi) = (f64::from_bits(A), f64::from_bits(B));
        let base = match sel % 18 {
            0 => 0.0,
            1 => -0.0,
            2 | 3 => lo,
            4 | 5 => hi,
            6 => (lo / 2.0) + (hi / 2.0),
            7 => f64::INFINITY,
            8 => f64::NEG_INFINITY,
            9 => f64::NAN,
            10 => f64::MIN_POSITIVE,
            11 => f64::from_bits(1),
            12 => f32::MAX as f64,
            13 => f64::MAX,
            14 => (lo as f32) as f64,
            15 => (hi as f32) as f64,
            16 => lo + (hi - lo) * (ch.byte() as f64 / 255.0),
            _ => return Raw::F(ch.word(8)),
        };
        // neighbouring doubles, sometimes with the other sign
        let x = (base.to_bits() as i64).wrapping_add(delta) as u64;
        Raw::F(if ch.byte() % 4 == 3 { x ^ (1 << 63) } else { x })
    }
    fn fit(&self, entry: usize, raw: Raw) -> Raw {
        match entry {
            3 | 5 => Raw::F(((raw.float() as f32) as f64).to_bits()),
            _ => raw,
        }
    }
    fn legal(&self, _: usize, raw: &Raw) -> bool {
        Self::ok(raw.float())
    }
    fn may_panic(&self, entry: usize) -> bool {
        entry == 1
    }
    fn enter(&self, entry: usize, raw: &Raw) -> Result<Box<dyn Item>, String> {
        type T<const A: u64, const B: u64> = RangedFloat<A, B>;
        let x = raw.float();
        let r: Result<T<A, B>, String> = match entry {
            0 => T::try_from_f64(x).map_err(|e| format!("{e:?}")),
            1 => Ok(T::from_f64(x)),
            2 => T::try_from(x).map_err(|e| format!("{e:?}")),
            3 => T::try_from(x as f32).map_err(|e| format!("{e:?}")),
            4 => T::<A, B>::prevalidate_f64(x).map(|v| unsafe { T::from_f64_unchecked(v) }).map_err(|e| format!("{e:?}")),
            5 => T::<A, B>::prevalidate_f32(x as f32).map(|v| unsafe { T::from_f64_unchecked(v) }).map_err(|e| format!("{e:?}")),
            // the safeguard for values made without a check
            _ => {
                let v = unsafe { T::<A, B>::from_f64_unchecked(x) };
                v.get_validated().map(|_| v).map_err(|e| format!("{e:?}"))
            }
        };
        r.map(|v| Box::new(v) as Box<dyn Item>)
    }
    fn wire(&self, raw: &Raw) -> Vec<u8> {
        raw.float().to_bits().to_be_bytes().to_vec()
    }
    fn unwire(&self, b: &[u8]) -> Raw {
        Raw::F(u64::from_be_bytes(b.try_into().unwrap()))
    }
    fn parse(&self, p: &mut SimParser) -> ParseResult<Box<dyn Item>> {
        RangedFloat::<A, B>::parse(p).map(|v| Box::new(v) as Box<dyn Item>)
    }
    fn decode(&self, b: &[u8]) -> Result<Box<dyn Item>, String> {
        RangedFloat::<A, B>::try_decode::<_, ByteParser>(b.to_vec()).map(|v| Box::new(v) as Box<dyn Item>).map_err(|e| format!("{e:?}"))
    }
    fn extremes(&self) -> Vec<(&'static str, Raw, Box<dyn Fn() -> Box<dyn Item>>)> {
        let (a, b) = (f64::from_bits(A), f64::from_bits(B));
        if !(a <= b) {
            return vec![];
        }
        let d = if a > 0.0 {
            a
        } else if b < 0.0 {
            b
        } else {
            0.0
        };
        vec![
            ("the least value", Raw::F(A), Box::new(|| Box::new(RangedFloat::<A, B>::MIN))),
            ("the greatest value", Raw::F(B), Box::new(|| Box::new(RangedFloat::<A, B>::MAX))),
            // zero has two representations; the one that compares as closest is meant
            ("the default", Raw::F(if d == 0.0 { f64::from(RangedFloat::<A, B>::default()).to_bits() & (1 << 63) } else { d.to_bits() }), Box::new(|| Box::new(RangedFloat::<A, B>::default()))),
        ]
    }
}

// ---- fixed-width strings ---------------------------------------------------------------------
struct BSlot<const N: usize>;
struct SSlot<const N: usize>;
const BYTES_ENTRIES: [&str; 6] = ["try_from_slice", "TryFrom<&[u8]>", "from_array", "from_array_ref", "From<[u8; N]>", "From<&[u8; N]>"];
const STRING_ENTRIES: [&str; 9] =
    ["try_from_bytes", "TryFrom<&[u8]>", "FromStr", "TryFrom<String>", "TryFrom<&str>", "try_from_array", "from_array_unchecked", "From<[u8; N]>", "From<&[u8; N]>"];
fn fixed_seed(n: usize, sel: usize, delta: i64, b: &[u8]) -> Raw {
    let want = match sel % 12 {
        0..=4 => n,
        5 => n + 1,
        6 => n.saturating_sub(1),
        7 => 2 * n,
        8 => 0,
        9 => n / 2,
        10 => n + 256,
        _ => b.len(),
    };
    let mut ch = Choices::new(b);
    let mut v = vec![];
    let mut chars = 0;
    while v.len() < want {
        let x = ch.byte();
        let mut t = [0; 4];
        match delta.rem_euclid(6) {
            0 => v.push(x & 0x7f),
            1 => v.push(x),
            2 => v.extend_from_slice(['é', 'さ', '🦀', 'a', '\u{fffd}'][x as usize % 5].encode_utf8(&mut t).as_bytes()),
            3 => v.push([0, 0xff, 0x80, 0xc3, 0xe3, b'"', b'\n', 0x7f][x as usize % 8]),
            4 => v.push(0),
            _ => {
                // as many characters as the width, more bytes
                if chars == want {
                    break;
                }
                v.extend_from_slice(['é', 'b', 'さ'][x as usize % 3].encode_utf8(&mut t).as_bytes());
                chars += 1;
                continue;
            }
        }
    }
    if delta.rem_euclid(6) != 5 && ch.byte() % 3 != 0 {
        v.truncate(want);
    }
    Raw::B(v)
}
fn array<const N: usize>(b: &[u8]) -> [u8; N] {
    b.try_into().expect("harness")
}
fn resized(raw: Raw, n: usize) -> Raw {
    let mut v = raw.raw().to_vec();
    v.resize(n, b'x');
    Raw::B(v)
}
impl<const N: usize> Item for FixedBytes<N> {
    fn check(&self, want: &Raw) -> R {
        let w = want.raw();
        let mut m = *self;
        m.bytes_mut();
        let all: [(&str, Vec<u8>); 12] = [
            ("bytes", self.bytes().to_vec()),
            ("bytes_mut", m.bytes_mut().to_vec()),
            ("to_array", self.to_array().to_vec()),
            ("to_vec", self.to_vec()),
            ("AsRef<[u8; N]>", AsRef::<[u8; N]>::as_ref(self).to_vec()),
            ("AsRef<[u8]>", AsRef::<[u8]>::as_ref(self).to_vec()),
            ("Borrow<[u8; N]>", Borrow::<[u8; N]>::borrow(self).to_vec()),
            ("Borrow<[u8]>", Borrow::<[u8]>::borrow(self).to_vec()),
            ("From for Vec<u8>", Vec::from(*self)),
            ("From for [u8; N]", <[u8; N]>::from(*self).to_vec()),
            ("a clone", self.clone().to_vec()),
            ("its encoding", self.to_bytes()),
        ];
        for (how, g) in all {
            ensure!(g == w, "wrong-contents", "FixedBytes<{N}> made from {}: {how} gives {}", want.show(), short(&g));
        }
        let h = format!("{self:x}");
        ensure!(h == crate::plan::hex(w), "wrong-contents", "FixedBytes<{N}> made from {} prints as {h:?}", want.show());
        ensure!(self.len() == N, "wrong-length", "FixedBytes<{N}> says its length is {}", self.len());
        Ok(())
    }
    fn encode(&self, way: usize) -> Vec<u8> {
        put(self, way)
    }
}
impl<const N: usize> Item for FixedString<N> {
    fn check(&self, want: &Raw) -> R {
        let w = want.raw();
        ensure!(self.len() == N, "wrong-length", "FixedString<{N}> says its length is {}", self.len());
        let valid = std::str::from_utf8(w).is_ok();
        ensure!(self.is_valid_utf8() == valid, "wrong-contents", "FixedString<{N}> made from {}: is_valid_utf8 says {}", want.show(), !valid);
        let t = String::from_utf8_lossy(w);
        ensure!(self.as_string_lossy() == t, "wrong-contents", "FixedString<{N}> made from {}: as_string_lossy gives {:?}", want.show(), self.as_string_lossy());
        ensure!(self.to_string() == t, "wrong-contents", "FixedString<{N}> made from {} prints as {:?}", want.show(), self.to_string());
        if valid {
            ensure!(unsafe { self.as_str_unchecked() }.as_bytes() == w, "wrong-contents", "FixedString<{N}> made from {}: as_str_unchecked differs", want.show());
        }
        let e = self.to_bytes();
        ensure!(e == w, "wrong-contents", "FixedString<{N}> made from {} encodes as {}", want.show(), short(&e));
        Ok(())
    }
    fn encode(&self, way: usize) -> Vec<u8> {
        put(self, way)
    }
}
macro_rules! fixed_slot {
    ($slot:ident, $ty:ident, $entries:ident, $arr:expr) => {
        fn name(&self) -> String {
            format!("{}<{N}>", stringify!($ty))
        }
        fn width(&self) -> usize {
            N
        }
        fn entries(&self) -> &'static [&'static str] {
            &$entries
        }
        fn seed(&self, sel: usize, delta: i64, b: &[u8]) -> Raw {
            fixed_seed(N, sel, delta, b)
        }
        fn may_panic(&self, _: usize) -> bool {
            false
        }
        fn wire(&self, raw: &Raw) -> Vec<u8> {
            raw.raw().to_vec()
        }
        fn unwire(&self, b: &[u8]) -> Raw {
            Raw::B(b.to_vec())
        }
        fn parse(&self, p: &mut SimParser) -> ParseResult<Box<dyn Item>> {
            $ty::<N>::parse(p).map(|v| Box::new(v) as Box<dyn Item>)
        }
        fn decode(&self, b: &[u8]) -> Result<Box<dyn Item>, String> {
            $ty::<N>::try_decode::<_, ByteParser>(b.to_vec()).map(|v| Box::new(v) as Box<dyn Item>).map_err(|e| format!("{e:?}"))
        }
        fn extremes(&self) -> Vec<(&'static str, Raw, Box<dyn Fn() -> Box<dyn Item>>)> {
            vec![]
        }
    };
}
impl<const N: usize> Slot for BSlot<N> {
    fixed_slot!(BSlot, FixedBytes, BYTES_ENTRIES, |e| e >= 2);
    fn fit(&self, entry: usize, raw: Raw) -> Raw {
        if entry >= 2 {
            resized(raw, N)
        } else {
            raw
        }
    }
    fn legal(&self, _: usize, raw: &Raw) -> bool {
        raw.raw().len() == N
    }
    fn enter(&self, entry: usize, raw: &Raw) -> Result<Box<dyn Item>, String> {
        let b = raw.raw();
        let r: Result<FixedBytes<N>, String> = match entry {
            0 => FixedBytes::try_from_slice(b).map_err(|e| format!("{e:?}")),
            1 => FixedBytes::try_from(b).map_err(|e| format!("{e:?}")),
            2 => Ok(FixedBytes::from_array(array(b))),
            3 => Ok(FixedBytes::from_array_ref(&array(b))),
            4 => Ok(FixedBytes::from(array::<N>(b))),
            _ => Ok(FixedBytes::from(&array::<N>(b))),
        };
        r.map(|v| Box::new(v) as Box<dyn Item>)
    }
}
impl<const N: usize> Slot for SSlot<N> {
    fixed_slot!(SSlot, FixedString, STRING_ENTRIES, |e| e >= 5);
    fn fit(&self, entry: usize, raw: Raw) -> Raw {
        match entry {
            2..=4 => Raw::B(String::from_utf8_lossy(raw.raw()).as_bytes().to_vec()),
            5.. => resized(raw, N),
            _ => raw,
        }
    }
    fn legal(&self, entry: usize, raw: &Raw) -> bool {
        raw.raw().len() == N && (entry != 5 || std::str::from_utf8(raw.raw()).is_ok())
    }
    fn enter(&self, entry: usize, raw: &Raw) -> Result<Box<dyn Item>, String> {
        let b = raw.raw();
        let s = || std::str::from_utf8(b).expect("harness");
        let r: Result<FixedString<N>, String> = match entry {
            0 => FixedString::try_from_bytes(b).map_err(|e| format!("{e:?}")),
            1 => FixedString::try_from(b).map_err(|e| format!("{e:?}")),
            2 => FixedString::from_str(s()).map_err(|e| format!("{e:?}")),
            3 => FixedString::try_from(s().to_string()).map_err(|e| format!("{e:?}")),
            4 => FixedString::try_from(s()).map_err(|e| format!("{e:?}")),
            5 => FixedString::try_from_array(&array(b)).map_err(|e| format!("{e:?}")),
            6 => Ok(unsafe { FixedString::from_array_unchecked(&array(b)) }),
            7 => Ok(FixedString::from(array::<N>(b))),
            _ => Ok(FixedString::from(&array::<N>(b))),
        };
        r.map(|v| Box::new(v) as Box<dyn Item>)
    }
}

macro_rules! ints {
    ($($b:ident $lo:expr, $hi:expr;)*) => { vec![$(Box::new(ISlot::<$b, { $lo }, { $hi }>(PhantomData)) as Box<dyn Slot>),*] };
}
macro_rules! floats {
    ($($lo:expr, $hi:expr;)*) => { vec![$(Box::new(FSlot::<{ f64::to_bits($lo) }, { f64::to_bits($hi) }>) as Box<dyn Slot>),*] };
}
fn slots(f: Focus) -> &'static [Box<dyn Slot>] {
    static I: OnceLock<Vec<Box<dyn Slot>>> = OnceLock::new();
    static F: OnceLock<Vec<Box<dyn Slot>>> = OnceLock::new();
    static B: OnceLock<Vec<Box<dyn Slot>>> = OnceLock::new();
    match f {
        Focus::Int => I.get_or_init(|| {
            ints![
                u32 0, 0x3fff_ffff; i32 -0x4000_0000, 0x3fff_ffff;
                u8 10, 20; u8 0, 255; u8 1023, 1100; u8 0, 0; u8 255, 255; u8 1, 255; u8 1, 1; u8 0x3fff_ff00, 0x3fff_ffff; u8 256, 511; u8 0, 127; u8 100, 300;
                i8 -128, -3; i8 -128, 127; i8 -3, 100; i8 -1, -1; i8 -1, 0; i8 -128, -128;
                u16 1000, 60_000; u16 0, 65_535; u16 100_000, 165_535; u16 1, 1; u16 0, 300; u16 65_535, 65_536; u16 32_768, 98_303;
                i16 -100, 200; i16 -32_768, 32_767; i16 -5, 0; i16 -32_768, -32_000; i16 -1, 32_767;
                u32 0, 70_000; u32 5, 0x3fff_ffff; u32 1, 65_537; u32 0x3fff_ffff, 0x3fff_ffff; u32 100_000, 200_000;
                i32 -5, 10; i32 -0x4000_0000, -0x3fff_fffb; i32 -70_000, 70_000; i32 -1, 0x3fff_ffff; i32 -40_000, -39_999;
            ]
        }),
        Focus::Float => F.get_or_init(|| {
            floats![
                -1.0, 1.0; 0.0, f64::MAX; 0.0, 1.0; f64::NEG_INFINITY, f64::INFINITY; 1.5, 1.5; -0.0, 0.0; 0.0, -0.0;
                5e-324, 1e-300; 0.1, 0.7; -2.5, -0.3; f64::MIN, f64::MAX; 16_777_216.0, 16_777_217.0; 1e300, f64::INFINITY; f64::NEG_INFINITY, -1e39; 3.5e38, 1e39; f64::NEG_INFINITY, f64::NEG_INFINITY;
                // bounds the documentation calls invalid: nothing may get in
                1.0, -1.0; f64::NAN, 1.0; 0.0, f64::NAN; f64::INFINITY, f64::NEG_INFINITY;
            ]
        }),
        Focus::Fixed => B.get_or_init(|| {
            vec![
                Box::new(BSlot::<0>), Box::new(BSlot::<1>), Box::new(BSlot::<2>), Box::new(BSlot::<7>), Box::new(BSlot::<20>), Box::new(BSlot::<32>), Box::new(BSlot::<33>), Box::new(BSlot::<64>), Box::new(BSlot::<300>),
                Box::new(SSlot::<0>), Box::new(SSlot::<1>), Box::new(SSlot::<2>), Box::new(SSlot::<3>), Box::new(SSlot::<12>), Box::new(SSlot::<20>), Box::new(SSlot::<32>), Box::new(SSlot::<33>), Box::new(SSlot::<300>),
            ]
        }),
    }
}

struct Frame {
    id: usize,
    slot: usize,
    bytes: Vec<u8>,
    intact: bool,
}
/// put a raw value into a bounded type; None if it is (rightly) refused
fn submit(s: &dyn Slot, entry: usize, raw: &Raw) -> Result<Option<Box<dyn Item>>, Viol> {
    let how = s.entries()[entry];
    let legal = s.legal(entry, raw);
    match guarded(|| s.enter(entry, raw)) {
        Ok(Ok(v)) => {
            ensure!(legal, "illegal-accepted", "{}: {how} accepts {}", s.name(), raw.show());
            v.check(raw)?;
            Ok(Some(v))
        }
        Ok(Err(e)) => {
            ensure!(!legal, "legal-refused", "{}: {how} refuses {}: {e}", s.name(), raw.show());
            Ok(None)
        }
        Err(Caught::Panic(e)) => {
            ensure!(!legal && s.may_panic(entry), "panic", "{}: {how} of {} panics: {e}", s.name(), raw.show());
            Ok(None)
        }
        Err(Caught::Sim(u)) => viol("harness", format!("unexpected unwind {u:?}")),
    }
}
fn emit(s: &dyn Slot, v: &dyn Item, raw: &Raw, way: usize) -> Result<Vec<u8>, Viol> {
    let b = no_panic(&format!("encoding a {} made from {}", s.name(), raw.show()), || v.encode(way))?;
    ensure!(b == s.wire(raw), "wrong-bytes", "{} made from {} is encoded as {}", s.name(), raw.show(), short(&b));
    Ok(b)
}
/// decode one frame behind the simulated input seam and compare with what its bytes denote
fn receive(s: &dyn Slot, b: &[u8], kind: usize) -> Result<Option<(Raw, Box<dyn Item>)>, Viol> {
    let w = s.width();
    let want = (b.len() >= w).then(|| s.unwire(&b[..w])).filter(|r| s.legal(0, r));
    let mut p = SimParser::with(b, Cfg { kind: KINDS[kind % 4], budget: op_budget(b.len()), ..Default::default() });
    let got = no_panic(&format!("decoding {} as {}", short(b), s.name()), || s.parse(&mut p))?;
    match (got, want) {
        (Ok(v), Some(r)) => {
            ensure!(p.consumed == w, "wrong-bytes", "decoding {} as {} consumes {} bytes", short(b), s.name(), p.consumed);
            v.check(&r)?;
            Ok(Some((r, v)))
        }
        (Ok(_), None) => viol("illegal-accepted", format!("{} decodes {}", s.name(), short(b))),
        (Err(e), Some(r)) => viol("legal-refused", format!("{} refuses {} ({}): {e:?}", s.name(), short(b), r.show())),
        (Err(_), None) => Ok(None),
    }
}
impl World for Gateway {
    fn name(&self) -> &'static str {
        match self.0 {
            Focus::Int => "gateway-int",
            Focus::Float => "gateway-float",
            Focus::Fixed => "gateway-fixed",
        }
    }
    fn gen(&self, rng: &mut Rng, thorough: bool) -> Plan {
        let mut p = Plan::new(self.name());
        let ss = slots(self.0);
        let n = rng.range(1, if thorough { 12 } else { 6 });
        let one = rng.chance(1, 2).then(|| rng.below(ss.len() as u64));
        for _ in 0..n {
            let s = one.unwrap_or_else(|| rng.below(ss.len() as u64));
            let e = rng.below(ss[s as usize].entries().len() as u64);
            let delta = match rng.below(6) {
                0 | 1 => 0,
                2..=4 => rng.below(7) as i64 - 3,
                _ => rng.below(600) as i64 - 300,
            };
            let k = if self.0 == Focus::Fixed { rng.range(0, 40) } else { rng.range(0, 9) };
            p.steps.push(Step::with(REQ, &[s as i64, e as i64, rng.below(24) as i64, delta, rng.below(1000) as i64], rng.bytes(k as usize)));
        }
        p.params = vec![rng.below(1000) as i64];
        let f = match rng.below(5) {
            0 => 0,
            _ => rng.range(2, 40),
        };
        p.data = rng.bytes(f as usize);
        p
    }
    fn exec(&self, p: &Plan, cx: &mut Cx) -> R {
        let way = p.upar(0);
        let ss = slots(self.0);
        let mut ch = Choices::new(&p.data);
        // durable: what the gateway accepted
        let mut journal: Vec<(usize, usize, Vec<u8>)> = vec![];
        // volatile: the live values, and the numbers the applications meant (the oracle's)
        let mut live: BTreeMap<usize, Box<dyn Item>> = BTreeMap::new();
        let mut meant: BTreeMap<usize, (usize, Raw)> = BTreeMap::new();
        let mut net: BTreeMap<(u64, u64), Frame> = BTreeMap::new();
        let mut seq = 0;
        for (id, st) in p.steps.iter().enumerate() {
            let k = st.uarg(0) % ss.len();
            let s = &*ss[k];
            let entry = st.uarg(1) % s.entries().len();
            let mut raw = s.fit(entry, s.seed(st.uarg(2), st.arg(3), &st.b));
            let mut got = submit(s, entry, &raw)?;
            cx.ev(1, got.is_some() as u64);
            cx.sig.u((k * 32 + entry) as u64);
            cx.say(|| format!("request {id}: {} through {}: {} -> {}", raw.show(), s.entries()[entry], s.name(), if got.is_some() { "accepted" } else { "refused" }));
            if got.is_none() {
                cx.fault("illegal value submitted");
                // the application falls back on an extreme of the type
                let ex = s.extremes();
                if !ex.is_empty() {
                    let (what, want, make) = &ex[st.uarg(4) % ex.len()];
                    let v = no_panic(&format!("{what} of {}", s.name()), make)?;
                    if let Err(v) = v.check(want) {
                        return viol("wrong-extreme", format!("{what} of {}: {}", s.name(), v.detail));
                    }
                    cx.count("fallbacks on an extreme", 1);
                    raw = want.clone();
                    got = Some(v);
                }
            }
            let Some(v) = got else { continue };
            cx.count("values accepted", 1);
            let bytes = emit(s, &*v, &raw, way + id)?;
            journal.push((id, k, bytes.clone()));
            live.insert(id, v);
            meant.insert(id, (k, raw));
            if !ch.exhausted() && ch.byte() % 16 == 15 {
                cx.fault("gateway crash and restart");
                live.clear();
                for (id, k, b) in &journal {
                    let Some((_, v)) = receive(&*ss[*k], b, way + *id)? else {
                        return viol("journal-refused", format!("{}: the journal entry {} is refused after a restart", ss[*k].name(), short(b)));
                    };
                    live.insert(*id, v);
                }
            }
            // the link
            let (mut at, mut copies, mut b, mut intact) = (id as u64 + 1, 1, bytes, true);
            let mut hits = 0;
            while !ch.exhausted() && hits < 3 {
                hits += 1;
                let x = ch.byte();
                match x % 12 {
                    0..=2 => break,
                    3 => {
                        copies = 0;
                        cx.fault("frame lost");
                    }
                    4 => {
                        copies = 2;
                        cx.fault("frame duplicated");
                    }
                    5 => {
                        at += (x >> 4) as u64;
                        cx.fault("frames reordered");
                    }
                    6 | 7 if !b.is_empty() => {
                        let n = ch.byte() as usize % (b.len() * 8);
                        b[n / 8] ^= 1 << (n % 8);
                        intact = false;
                        cx.fault("bit flip");
                    }
                    8 if !b.is_empty() => {
                        let n = ch.byte() as usize % b.len();
                        b.truncate(n);
                        intact = false;
                        cx.fault("truncation");
                    }
                    9 => {
                        b.push(ch.byte());
                        intact = false;
                        cx.fault("byte appended");
                    }
                    10 => {
                        // another value's bytes, legal here or not
                        let o = s.seed(ch.byte() as usize, (ch.byte() % 5) as i64 - 2, &[ch.byte(), ch.byte(), 7, 7]);
                        let o = if s.width() == 0 || matches!(o, Raw::B(_)) { o.raw().to_vec() } else { s.wire(&o) };
                        b = o;
                        intact = false;
                        cx.fault("payload replaced by another value");
                    }
                    11 => {
                        let n = b.len();
                        b = vec![[0, 0xff, 0x80, 0x7f][(x >> 4) as usize % 4]; n];
                        intact = false;
                        cx.fault("payload blanked");
                    }
                    _ => {}
                }
            }
            for c in 0..copies {
                seq += 1;
                net.insert((at + 3 * c, seq), Frame { id, slot: k, bytes: b.clone(), intact });
            }
        }
        // the far side
        let mut arrived: BTreeMap<usize, Raw> = BTreeMap::new();
        let mut frames: Vec<Frame> = vec![];
        for ((at, _), f) in net {
            cx.sim_ticks = cx.sim_ticks.max(at);
            frames.push(f);
        }
        // once the faults stop, everything not confirmed is sent again
        let mut i = 0;
        let mut resent = false;
        loop {
            if i == frames.len() {
                if resent {
                    break;
                }
                resent = true;
                for (id, k, b) in &journal {
                    if !arrived.contains_key(id) {
                        frames.push(Frame { id: *id, slot: *k, bytes: b.clone(), intact: true });
                        cx.count("resent", 1);
                    }
                }
                continue;
            }
            let f = &frames[i];
            i += 1;
            let s = &*ss[f.slot];
            cx.bytes(&f.bytes);
            let mut first = None;
            for kind in 0..4 {
                let r = receive(s, &f.bytes, kind)?;
                if kind == (way + i) % 4 {
                    first = r;
                }
            }
            cx.ev(2, first.is_some() as u64 | (f.intact as u64) << 1);
            if f.bytes.len() == s.width() {
                // the one-shot decoder reaches the same verdict
                let legal = s.legal(0, &s.unwire(&f.bytes));
                match no_panic(&format!("decoding {} as {}", short(&f.bytes), s.name()), || s.decode(&f.bytes))? {
                    Ok(v) => {
                        ensure!(legal, "illegal-accepted", "{} decodes {}", s.name(), short(&f.bytes));
                        v.check(&s.unwire(&f.bytes))?;
                    }
                    Err(e) => ensure!(!legal, "legal-refused", "{} refuses {}: {e}", s.name(), short(&f.bytes)),
                }
            }
            let Some((raw, v)) = first else {
                cx.count("frames refused", 1);
                ensure!(!f.intact, "legal-refused", "{}: an intact frame {} is refused", s.name(), short(&f.bytes));
                continue;
            };
            let again = emit(s, &*v, &raw, way + i)?;
            ensure!(again == f.bytes[..s.width()], "wrong-bytes", "{} decodes {} and sends {} on", s.name(), short(&f.bytes), short(&again));
            if f.intact {
                let (_, m) = &meant[&f.id];
                ensure!(raw == *m, "wrong-number", "{}: {} was submitted, {} arrives", s.name(), m.show(), raw.show());
                arrived.insert(f.id, raw.clone());
                live.remove(&f.id);
            }
            // moved on into another bounded type, through its own front door
            let k2 = (f.slot + way + i) % ss.len();
            let s2 = &*ss[k2];
            let e2 = (way / 7 + i) % s2.entries().len();
            let r2 = s2.fit(e2, raw);
            if let Some(v2) = submit(s2, e2, &r2)? {
                let b2 = emit(s2, &*v2, &r2, i)?;
                ensure!(receive(s2, &b2, i)?.is_some(), "legal-refused", "{} refuses its own encoding {}", s2.name(), short(&b2));
                cx.count("values moved on", 1);
            } else {
                cx.count("values that do not fit the next type", 1);
            }
        }
        for (id, (k, m)) in &meant {
            ensure!(arrived.get(id) == Some(m), "harness", "{} {} never arrived", ss[*k].name(), m.show());
        }
        Ok(())
    }
}
