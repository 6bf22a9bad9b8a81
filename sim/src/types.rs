//! The workload's message types: real codec types of the crate under test, each tied to a schema
//! of the reference codec and to a neutral value representation.
use crate::refcodec::{Pref, Sch, Val};
use crate::simparser::{SimParser};
use crate::simtarget::SimTarget;
use num_bigint::{BigInt, BigUint, Sign};
use tedium::conv::error::DecodeError;
use tedium::conv::EncodeLength;
use tedium::conv::target::ByteCounter;
use tedium::dynamic::LenPref;
use tedium::parse::cleanup::LeftoverState;
use tedium::parse::error::ParseResult;
use tedium::*;

pub trait SimType: Encode + Decode + Estimable + Sized + 'static {
    fn sch() -> Sch;
    fn from_val(v: &Val) -> Self;
    fn to_val(&self) -> Val;
}
fn bad<T>(v: &Val) -> T {
    panic!("harness: value {v:?} does not fit {}", std::any::type_name::<T>())
}

macro_rules! prim_u { ($($t:ty, $w:expr);+) => { $(
impl SimType for $t {
    fn sch() -> Sch { Sch::U($w) }
    fn from_val(v: &Val) -> Self { match v { Val::U(x) => *x as $t, v => bad(v) } }
    fn to_val(&self) -> Val { Val::U(*self as u64) }
} )+ } }
macro_rules! prim_i { ($($t:ty, $w:expr);+) => { $(
impl SimType for $t {
    fn sch() -> Sch { Sch::I($w) }
    fn from_val(v: &Val) -> Self { match v { Val::I(x) => *x as $t, v => bad(v) } }
    fn to_val(&self) -> Val { Val::I(*self as i64) }
} )+ } }
prim_u!(u8, 1; u16, 2; u32, 4; u64, 8);
prim_i!(i8, 1; i16, 2; i32, 4; i64, 8);
impl SimType for () {
    fn sch() -> Sch {
        Sch::Unit
    }
    fn from_val(_: &Val) -> Self {}
    fn to_val(&self) -> Val {
        Val::Unit
    }
}
impl SimType for bool {
    fn sch() -> Sch {
        Sch::Bool
    }
    fn from_val(v: &Val) -> Self {
        match v {
            Val::B(x) => *x,
            v => bad(v),
        }
    }
    fn to_val(&self) -> Val {
        Val::B(*self)
    }
}
impl SimType for f64 {
    fn sch() -> Sch {
        Sch::F64
    }
    fn from_val(v: &Val) -> Self {
        match v {
            Val::F(x) => f64::from_bits(*x),
            v => bad(v),
        }
    }
    fn to_val(&self) -> Val {
        Val::F(self.to_bits())
    }
}
impl<const A: u64, const B: u64> SimType for RangedFloat<A, B> {
    fn sch() -> Sch {
        Sch::RFloat(Self::MIN_F64, Self::MAX_F64)
    }
    fn from_val(v: &Val) -> Self {
        match v {
            Val::F(x) => Self::from_f64(f64::from_bits(*x)),
            v => bad(v),
        }
    }
    fn to_val(&self) -> Val {
        Val::F(self.as_f64().to_bits())
    }
}
impl SimType for String {
    fn sch() -> Sch {
        Sch::Str
    }
    fn from_val(v: &Val) -> Self {
        match v {
            Val::Str(x) => x.clone(),
            v => bad(v),
        }
    }
    fn to_val(&self) -> Val {
        Val::Str(self.clone())
    }
}
impl SimType for Vec<u8> {
    fn sch() -> Sch {
        Sch::Raw
    }
    fn from_val(v: &Val) -> Self {
        match v {
            Val::Bytes(x) => x.clone(),
            v => bad(v),
        }
    }
    fn to_val(&self) -> Val {
        Val::Bytes(self.clone())
    }
}
impl SimType for Bytes {
    fn sch() -> Sch {
        Sch::Raw
    }
    fn from_val(v: &Val) -> Self {
        match v {
            Val::Bytes(x) => Bytes::from(x.clone()),
            v => bad(v),
        }
    }
    fn to_val(&self) -> Val {
        Val::Bytes(self.to_vec())
    }
}
impl<const K: usize> SimType for FixedBytes<K> {
    fn sch() -> Sch {
        Sch::Bytes(K)
    }
    fn from_val(v: &Val) -> Self {
        match v {
            Val::Bytes(x) => FixedBytes::from_array(x[..].try_into().unwrap()),
            v => bad(v),
        }
    }
    fn to_val(&self) -> Val {
        Val::Bytes(self.to_vec())
    }
}
impl<const K: usize> SimType for FixedString<K> {
    fn sch() -> Sch {
        Sch::Bytes(K)
    }
    fn from_val(v: &Val) -> Self {
        match v {
            Val::Bytes(x) => {
                let a: [u8; K] = x[..].try_into().unwrap();
                FixedString::from(a)
            }
            v => bad(v),
        }
    }
    fn to_val(&self) -> Val {
        // the contents are private; the unchecked view exposes them byte for byte
        Val::Bytes(unsafe { self.as_str_unchecked() }.as_bytes().to_vec())
    }
}
impl<T: SimType> SimType for Option<T> {
    fn sch() -> Sch {
        Sch::Opt(Box::new(T::sch()))
    }
    fn from_val(v: &Val) -> Self {
        match v {
            Val::Opt(x) => x.as_ref().map(|y| T::from_val(y)),
            v => bad(v),
        }
    }
    fn to_val(&self) -> Val {
        Val::Opt(self.as_ref().map(|x| Box::new(x.to_val())))
    }
}
impl<T: SimType> SimType for Nullable<T> {
    fn sch() -> Sch {
        Sch::Nullable(Box::new(T::sch()))
    }
    fn from_val(v: &Val) -> Self {
        match v {
            Val::Opt(x) => Nullable::from(x.as_ref().map(|y| T::from_val(y))),
            v => bad(v),
        }
    }
    fn to_val(&self) -> Val {
        Val::Opt(self.as_inner().as_ref().map(|x| Box::new(x.to_val())))
    }
}
impl<T: SimType, const K: usize> SimType for Padded<T, K> {
    fn sch() -> Sch {
        Sch::Padded(Box::new(T::sch()), K)
    }
    fn from_val(v: &Val) -> Self {
        Padded::new(T::from_val(v))
    }
    fn to_val(&self) -> Val {
        self.as_inner().to_val()
    }
}
impl<T: SimType + Clone, const K: usize> SimType for VPadded<T, K> {
    fn sch() -> Sch {
        Sch::VPadded(Box::new(T::sch()), K)
    }
    fn from_val(v: &Val) -> Self {
        VPadded::new(T::from_val(v))
    }
    fn to_val(&self) -> Val {
        self.clone().into_inner().to_val()
    }
}
pub trait SimPref: LenPref + 'static {
    fn pref() -> Pref;
}
impl SimPref for u8 {
    fn pref() -> Pref {
        Pref::P8
    }
}
impl SimPref for u16 {
    fn pref() -> Pref {
        Pref::P16
    }
}
impl SimPref for u30 {
    fn pref() -> Pref {
        Pref::P30
    }
}
impl<S: SimPref, T: SimType> SimType for Dynamic<S, T> {
    fn sch() -> Sch {
        Sch::Dyn(S::pref(), Box::new(T::sch()))
    }
    fn from_val(v: &Val) -> Self {
        Dynamic::new(T::from_val(v))
    }
    fn to_val(&self) -> Val {
        let t: &T = self.as_ref();
        t.to_val()
    }
}
impl<T: SimType> SimType for Sequence<T> {
    fn sch() -> Sch {
        Sch::Seq(Box::new(T::sch()))
    }
    fn from_val(v: &Val) -> Self {
        match v {
            Val::List(x) => Sequence::from_vec(x.iter().map(T::from_val).collect()),
            v => bad(v),
        }
    }
    fn to_val(&self) -> Val {
        Val::List(self.as_slice().iter().map(T::to_val).collect())
    }
}
impl<T: SimType, const K: usize> SimType for FixSeq<T, K> {
    fn sch() -> Sch {
        Sch::Fix(Box::new(T::sch()), K)
    }
    fn from_val(v: &Val) -> Self {
        match v {
            Val::List(x) => FixSeq::try_from(x.iter().map(T::from_val).collect::<Vec<T>>()).unwrap(),
            v => bad(v),
        }
    }
    fn to_val(&self) -> Val {
        Val::List(self.iter().map(T::to_val).collect())
    }
}
impl<T: SimType, const K: usize> SimType for LimSeq<T, K> {
    fn sch() -> Sch {
        Sch::Lim(Box::new(T::sch()), K)
    }
    fn from_val(v: &Val) -> Self {
        match v {
            Val::List(x) => LimSeq::try_from(x.iter().map(T::from_val).collect::<Vec<T>>()).unwrap(),
            v => bad(v),
        }
    }
    fn to_val(&self) -> Val {
        Val::List(self.iter().map(T::to_val).collect())
    }
}
impl<T: SimType> SimType for AutoBox<T> {
    fn sch() -> Sch {
        T::sch()
    }
    fn from_val(v: &Val) -> Self {
        AutoBox::new(T::from_val(v))
    }
    fn to_val(&self) -> Val {
        self.as_inner().to_val()
    }
}
macro_rules! ranged { ($($t:ty, $w:expr, $s:expr);+) => { $(
impl<const A: i32, const B: i32> SimType for RangedInt<$t, A, B> {
    fn sch() -> Sch { Sch::Ranged($w, $s, A as i64, B as i64) }
    fn from_val(v: &Val) -> Self { match v { Val::I(x) => Self::try_from_i32(*x as i32).unwrap(), v => bad(v) } }
    fn to_val(&self) -> Val { Val::I(self.to_i32() as i64) }
} )+ } }
ranged!(u8, 1, false; u16, 2, false; u32, 4, false; i8, 1, true; i16, 2, true; i32, 4, true);
fn mag(x: &BigUint) -> Vec<u8> {
    let mut v = x.to_bytes_le();
    while v.last() == Some(&0) {
        v.pop();
    }
    v
}
impl SimType for N {
    fn sch() -> Sch {
        Sch::Nat
    }
    fn from_val(v: &Val) -> Self {
        match v {
            Val::Big(_, m) => N(BigUint::from_bytes_le(m)),
            v => bad(v),
        }
    }
    fn to_val(&self) -> Val {
        Val::Big(false, mag(&self.0))
    }
}
impl SimType for Z {
    fn sch() -> Sch {
        Sch::Int
    }
    fn from_val(v: &Val) -> Self {
        match v {
            Val::Big(s, m) => Z(BigInt::from_biguint(
                if *s { Sign::Minus } else { Sign::Plus },
                BigUint::from_bytes_le(m),
            )),
            v => bad(v),
        }
    }
    fn to_val(&self) -> Val {
        Val::Big(self.0.sign() == Sign::Minus, mag(self.0.magnitude()))
    }
}

macro_rules! named {
    ($n:path => [ $($f:ident : $t:ty),* $(,)? ]) => {
        impl SimType for $n {
            fn sch() -> Sch { Sch::Struct(vec![ $(<$t as SimType>::sch()),* ]) }
            fn from_val(v: &Val) -> Self {
                match v {
                    Val::List(_x) => { let mut _i = 0usize; $( let $f = <$t as SimType>::from_val(&_x[_i]); _i += 1; )* $n { $($f),* } }
                    v => bad(v),
                }
            }
            fn to_val(&self) -> Val { Val::List(vec![ $(self.$f.to_val()),* ]) }
        }
    };
}
macro_rules! tuple {
    ($n:path => [ $($f:ident $i:tt : $t:ty),* $(,)? ]) => {
        impl SimType for $n {
            fn sch() -> Sch { Sch::Struct(vec![ $(<$t as SimType>::sch()),* ]) }
            fn from_val(v: &Val) -> Self {
                match v {
                    Val::List(_x) => $n ( $(<$t as SimType>::from_val(&_x[$i])),* ),
                    v => bad(v),
                }
            }
            fn to_val(&self) -> Val { Val::List(vec![ $(self.$i.to_val()),* ]) }
        }
    };
}
macro_rules! simstruct {
    ($n:ident { $($f:ident : $t:ty),* $(,)? }) => {
        #[derive(Encode, Decode, Estimable, Clone, Debug, PartialEq)]
        pub struct $n { $(pub $f: $t),* }
        named!($n => [ $($f: $t),* ]);
    };
    ($n:ident ( $($f:ident $i:tt : $t:ty),* $(,)? )) => {
        #[derive(Encode, Decode, Estimable, Clone, Debug, PartialEq)]
        pub struct $n ( $(pub $t),* );
        tuple!($n => [ $($f $i: $t),* ]);
    };
}
/// What a declared enumeration says about itself, next to what was declared.
pub struct MetaOps {
    pub name: &'static str,
    /// tag width in bytes
    pub width: usize,
    /// as declared
    pub declared: Vec<(u64, &'static str)>,
    pub tags: fn() -> Vec<u64>,
    pub valid: fn(u64) -> bool,
    pub tag_name: fn(u64) -> Option<&'static str>,
    pub tag_of: fn(&Val) -> u64,
    /// conversion from the raw tag, where there is one
    pub from_tag: Option<fn(u64) -> Option<Val>>,
}
pub trait Meta: SimType {
    fn meta() -> MetaOps;
}
macro_rules! meta {
    ($n:ident, $w:expr, [ $($d:expr => $v:ident),* ], $from:expr) => {
        impl Meta for $n {
            fn meta() -> MetaOps {
                MetaOps {
                    name: stringify!($n),
                    width: $w,
                    declared: vec![ $(($d as u64, stringify!($v))),* ],
                    tags: || $n::iter_tags().map(|t| t as u64).collect(),
                    valid: |t| $n::is_valid_tag(t.try_into().unwrap()),
                    tag_name: |t| $n::get_name(t.try_into().unwrap()),
                    tag_of: |v| $n::from_val(v).get_tagval() as u64,
                    from_tag: $from,
                }
            }
        }
    };
}
macro_rules! simenum {
    ($n:ident, $w:expr, $m:ident { $($d:expr => $v:ident),* $(,)? }) => {
        impl SimType for $n {
            fn sch() -> Sch { Sch::Union($w, vec![ $(($d as u64, <$m::$v as SimType>::sch())),* ]) }
            fn from_val(v: &Val) -> Self {
                match v {
                    $( Val::Union(t, x) if *t == $d as u64 => $n::$v(<$m::$v as SimType>::from_val(x)), )*
                    v => bad(v),
                }
            }
            fn to_val(&self) -> Val {
                match self { $( $n::$v(x) => Val::Union($d as u64, Box::new(x.to_val())) ),* }
            }
        }
        meta!($n, $w, [ $($d => $v),* ], None);
    };
}
macro_rules! simcstyle {
    ($n:ident, $b:ident, $w:expr, { $($v:ident = $d:expr),+ }) => {
        tedium::cstyle!($n, $b, { $($v = $d),+ });
        impl SimType for $n {
            fn sch() -> Sch { Sch::Enum($w, vec![ $($d as u64),+ ]) }
            fn from_val(v: &Val) -> Self { match v { $( Val::U(x) if *x == $d as u64 => $n::$v, )+ v => bad(v) } }
            fn to_val(&self) -> Val { Val::U(match self { $($n::$v => $d as u64),+ }) }
        }
        meta!($n, $w, [ $($d => $v),+ ], Some(|t| <$n as TryFrom<$b>>::try_from(t.try_into().unwrap()).ok().map(|x| x.to_val())));
    };
}

simcstyle!(Kind8, u8, 1, { Endorse = 0, Seed = 1, Ballot = 6, Fail = 17, Last = 255 });
simcstyle!(Kind16, u16, 2, { Lo = 0, Mid = 256, Odd = 257, Hi = 65535 });
simcstyle!(Kind32, u32, 4, { A = 1, B = 0x0100_0000, C = 0xffff_ffff });
simcstyle!(Single, u8, 1, { Only = 42 });
// declared in no particular order, as generated schemas do
simcstyle!(Mixed8, u8, 1, { Nine = 9, One = 1, High = 254, Zero = 0, Half = 128, Low = 2, Ten = 10, Half2 = 127 });
simcstyle!(Mixed16, u16, 2, { C = 512, A = 2, E = 65280, B = 255, D = 40000 });
simcstyle!(Mixed32, u32, 4, { M = 70000, Z = 0xffff_fffe, A = 0, H = 0x8000_0000, L = 256, K = 255 });
simcstyle!(Dense, u8, 1, { A = 0, B = 1, C = 2, D = 3, E = 4, F = 5, G = 6, H = 7, I = 8, J = 9, K = 10, L = 11, M = 12, N = 13, O = 14, P = 15, Q = 16, R = 17, S = 18 });

simstruct!(Header { level: i32, proto: u8, predecessor: FixedBytes<32>, time: i64, pass: u8, fitness: Dynamic<u30, Sequence<Dynamic<u30, Bytes>>> });
simstruct!(Pair(a 0: u16, b 1: Dynamic<u8, String>));
simstruct!(Wrap(a 0: Dynamic<u16, Sequence<u16>>));
simstruct!(WrapFix(a 0: u32));
simstruct!(FixedRec { a: u8, b: u16, c: FixedBytes<5>, d: bool });
#[derive(Encode, Decode, Estimable, Clone, Debug, PartialEq)]
pub struct Marker;
impl SimType for Marker {
    fn sch() -> Sch {
        Sch::Struct(vec![])
    }
    fn from_val(_: &Val) -> Self {
        Marker
    }
    fn to_val(&self) -> Val {
        Val::List(vec![])
    }
}
#[derive(Encode, Decode, FixedLength, Clone, Debug, PartialEq)]
pub struct FixLen {
    pub x: i16,
    pub y: Kind8,
    pub z: FixedString<3>,
}
named!(FixLen => [ x: i16, y: Kind8, z: FixedString<3> ]);
#[derive(Encode, Decode, Estimable, Clone, Debug, PartialEq)]
pub struct FixLen2(pub u30, pub i31);
tuple!(FixLen2 => [a 0: u30, b 1: i31]);

simstruct!(Nest { a: Dynamic<u30, Dynamic<u16, Dynamic<u8, String>>>, b: Option<Dynamic<u8, Sequence<N>>>, c: Z });
simstruct!(TailNull { a: u16, b: Nullable<Dynamic<u8, Bytes>> });
simstruct!(TailSeq { a: u8, b: Sequence<Pair> });
simstruct!(VPadRec { a: u8, b: VPadded<Sequence<u16>, 4>, c: u32 });
simstruct!(VPadStr { a: Kind8, b: VPadded<String, 3>, c: FixedBytes<3> });
simstruct!(VPadDyn { a: Dynamic<u16, VPadBody>, z: u8 });
simstruct!(VPadBody { a: VPadded<Sequence<Dynamic<u8, Bytes>>, 2>, b: u16 });
simstruct!(Options { a: Option<u8>, b: Option<Option<u16>>, c: Option<()>, d: Option<Pair>, e: Option<Kind16> });
simstruct!(Nums { n: N, z: Z, a: u30, b: i31, c: RangedInt<u8, 10, 20>, d: RangedInt<i16, -100, 200>, e: RangedInt<u16, 1000, 60000> });
simstruct!(Seqs { f: FixSeq<Dynamic<u8, Bytes>, 3>, l: Dynamic<u16, LimSeq<N, 5>>, g: FixSeq<u16, 4>, h: LimSeq<Kind8, 6> });
simstruct!(PadRec { a: Padded<u16, 3>, b: Padded<FixedBytes<4>, 0>, c: Padded<bool, 1>, d: Padded<FixedRec, 7> });
simstruct!(Boxed { a: AutoBox<u32>, b: AutoBox<Dynamic<u16, Pairs>> });
simstruct!(Pairs { ps: Sequence<Pair> });

tedium::data! { Op, u8, op, {
    0 => Noop (),
    1 => Reveal (pub Dynamic<u30, Bytes>),
    8 => Transfer { pub fee: N, pub amount: Z, pub dest: FixedBytes<21>, pub params: Option<Dynamic<u30, Bytes>> },
    200 => Batch (pub Dynamic<u16, Sequence<Op>>, pub u8),
} }
impl SimType for op::Noop {
    fn sch() -> Sch {
        Sch::Struct(vec![])
    }
    fn from_val(_: &Val) -> Self {
        op::Noop
    }
    fn to_val(&self) -> Val {
        Val::List(vec![])
    }
}
tuple!(op::Reveal => [a 0: Dynamic<u30, Bytes>]);
named!(op::Transfer => [ fee: N, amount: Z, dest: FixedBytes<21>, params: Option<Dynamic<u30, Bytes>> ]);
impl SimType for op::Batch {
    fn sch() -> Sch {
        Sch::Struct(vec![
            Sch::Dyn(Pref::P16, Box::new(Sch::Seq(Box::new(Sch::Rec(Op::sch))))),
            Sch::U(1),
        ])
    }
    fn from_val(v: &Val) -> Self {
        match v {
            Val::List(x) => op::Batch(Dynamic::new(SimType::from_val(&x[0])), u8::from_val(&x[1])),
            v => bad(v),
        }
    }
    fn to_val(&self) -> Val {
        Val::List(vec![self.0.to_val(), self.1.to_val()])
    }
}
simenum!(Op, 1, op { 0 => Noop, 1 => Reveal, 8 => Transfer, 200 => Batch });

tedium::data! { Ev, u16, ev, {
    0 => Tick (pub u64),
    258 => Blob { pub kind: Kind8, pub body: Dynamic<u8, Bytes> },
    65535 => Num (pub Z, pub N),
} }
tuple!(ev::Tick => [a 0: u64]);
named!(ev::Blob => [ kind: Kind8, body: Dynamic<u8, Bytes> ]);
tuple!(ev::Num => [a 0: Z, b 1: N]);
simenum!(Ev, 2, ev { 0 => Tick, 258 => Blob, 65535 => Num });

tedium::data! { Tree, u8, tree, {
    0 => Leaf (pub u8),
    1 => Fork { pub l: AutoBox<Tree>, pub r: AutoBox<Tree> },
    2 => Many (pub Dynamic<u30, Sequence<Tree>>),
    3 => Fixed (pub FixSeq<AutoBox<Tree>, 2>, pub bool),
} }
tuple!(tree::Leaf => [a 0: u8]);
macro_rules! recpayload {
    ($n:path, $sch:expr, $v:ident => $from:expr, $s:ident => $to:expr) => {
        impl SimType for $n {
            fn sch() -> Sch {
                $sch
            }
            fn from_val(v: &Val) -> Self {
                match v {
                    Val::List($v) => $from,
                    v => bad(v),
                }
            }
            fn to_val(&self) -> Val {
                let $s = self;
                $to
            }
        }
    };
}
recpayload!(tree::Fork, Sch::Struct(vec![Sch::Rec(Tree::sch), Sch::Rec(Tree::sch)]),
    x => tree::Fork { l: SimType::from_val(&x[0]), r: SimType::from_val(&x[1]) },
    s => Val::List(vec![s.l.to_val(), s.r.to_val()]));
recpayload!(tree::Many, Sch::Struct(vec![Sch::Dyn(Pref::P30, Box::new(Sch::Seq(Box::new(Sch::Rec(Tree::sch)))))]),
    x => tree::Many(SimType::from_val(&x[0])),
    s => Val::List(vec![s.0.to_val()]));
recpayload!(tree::Fixed, Sch::Struct(vec![Sch::Fix(Box::new(Sch::Rec(Tree::sch)), 2), Sch::Bool]),
    x => tree::Fixed(SimType::from_val(&x[0]), SimType::from_val(&x[1])),
    s => Val::List(vec![s.0.to_val(), s.1.to_val()]));
simenum!(Tree, 1, tree { 0 => Leaf, 1 => Fork, 2 => Many, 3 => Fixed });

// unsorted tags, several arms, every tag width
tedium::data! { Shuffled, u8, shuffled, {
    107 => Manager { pub src: FixedBytes<21>, pub fee: N, pub gas: N },
    6 => Slash (pub Dynamic<u30, Bytes>),
    5 => Vote (pub i32, pub Mixed8),
    255 => Stop (),
    17 => Text { pub key: Dynamic<u8, String>, pub val: Option<Dynamic<u16, String>> },
    0 => Fixed (pub FixSeq<u16, 3>),
    128 => Lim { pub xs: Dynamic<u8, LimSeq<Mixed16, 9>>, pub last: bool },
} }
impl SimType for shuffled::Stop {
    fn sch() -> Sch {
        Sch::Struct(vec![])
    }
    fn from_val(_: &Val) -> Self {
        shuffled::Stop
    }
    fn to_val(&self) -> Val {
        Val::List(vec![])
    }
}
named!(shuffled::Manager => [ src: FixedBytes<21>, fee: N, gas: N ]);
tuple!(shuffled::Slash => [a 0: Dynamic<u30, Bytes>]);
tuple!(shuffled::Vote => [a 0: i32, b 1: Mixed8]);
named!(shuffled::Text => [ key: Dynamic<u8, String>, val: Option<Dynamic<u16, String>> ]);
tuple!(shuffled::Fixed => [a 0: FixSeq<u16, 3>]);
named!(shuffled::Lim => [ xs: Dynamic<u8, LimSeq<Mixed16, 9>>, last: bool ]);
simenum!(Shuffled, 1, shuffled { 107 => Manager, 6 => Slash, 5 => Vote, 255 => Stop, 17 => Text, 0 => Fixed, 128 => Lim });

tedium::data! { Wide, u16, wide, {
    1024 => A (pub u8),
    3 => B (pub Dynamic<u8, Sequence<Mixed32>>),
    768 => C (pub Option<i64>, pub u30),
    4 => D { pub f: u64, pub s: FixedString<4> },
    769 => E (pub AutoBox<Shuffled>),
} }
tuple!(wide::A => [a 0: u8]);
tuple!(wide::B => [a 0: Dynamic<u8, Sequence<Mixed32>>]);
tuple!(wide::C => [a 0: Option<i64>, b 1: u30]);
named!(wide::D => [ f: u64, s: FixedString<4> ]);
tuple!(wide::E => [a 0: AutoBox<Shuffled>]);
simenum!(Wide, 2, wide { 1024 => A, 3 => B, 768 => C, 4 => D, 769 => E });

// the last arms are open-ended: only usable at the end of a region
tedium::data! { Tail, u32, tail, {
    65536 => All (pub Bytes),
    1 => Words (pub Sequence<u32>),
    16777216 => Maybe (pub u8, pub Nullable<Dynamic<u8, Bytes>>),
    256 => Naught (),
} }
tuple!(tail::All => [a 0: Bytes]);
tuple!(tail::Words => [a 0: Sequence<u32>]);
tuple!(tail::Maybe => [a 0: u8, b 1: Nullable<Dynamic<u8, Bytes>>]);
impl SimType for tail::Naught {
    fn sch() -> Sch {
        Sch::Struct(vec![])
    }
    fn from_val(_: &Val) -> Self {
        tail::Naught
    }
    fn to_val(&self) -> Val {
        Val::List(vec![])
    }
}
simenum!(Tail, 4, tail { 65536 => All, 1 => Words, 16777216 => Maybe, 256 => Naught });

simstruct!(Rates { lo: RangedF64!(-1.0, 1.0), hi: RangedF64!(0.0, f64::MAX), n: RangedInt<i8, -128, -3>, m: RangedInt<u32, 0, 70000>, k: Option<i31> });
simstruct!(Frames { ts: Dynamic<u30, Sequence<Tail1>>, crc: u32 });
simstruct!(Tail1 { n: Dynamic<u16, Tail>, k: Mixed8 });
simstruct!(OptFix { a: Option<FixSeq<u8, 2>>, b: Option<FixedBytes<2>>, c: Option<bool>, d: Option<Mixed32>, e: AutoBox<Option<u16>> });
simstruct!(TailOpt { a: Mixed16, b: Option<Bytes> });
simstruct!(TailLim { a: u8, b: LimSeq<Dynamic<u8, String>, 4> });
simstruct!(VPadOpt { a: VPadded<Option<Bytes>, 2>, b: i16 });
simstruct!(Grid { a: FixSeq<FixSeq<u8, 3>, 2>, b: FixSeq<Option<u16>, 2>, c: Dynamic<u8, LimSeq<FixSeq<i16, 2>, 3>> });

// declarations with names that generated code could trip over, and long ones
simstruct!(OddNames { _pad: u16, r#type: u8, p: Dynamic<u8, String>, buf: bool, f: Kind8, _0: Option<u8>, pos0: N, tgt: i16, __: u8 });
simstruct!(Ordered { z: u8, y: u16, x: Option<u8>, a: u32, c: Bytes5, b: i8, m0: bool, m: u16, k: Dynamic<u8, Bytes>, j: u8, i: i64, h: u16, g: u8, e: Kind16, d: u8 });
simstruct!(OneField { only: Dynamic<u16, String> });
simstruct!(Long(a 0: u8, b 1: u16, c 2: u8, d 3: Option<u8>, e 4: i32, f 5: u8, g 6: Dynamic<u8, Bytes>, h 7: u8, i 8: u16, j 9: bool, k 10: u8, l 11: N, m 12: u8));
simstruct!(LongFixed(a 0: u8, b 1: u16, c 2: i64, d 3: Kind32, e 4: i32, f 5: u8, g 6: FixedBytes<3>, h 7: u8, i 8: u16, j 9: bool, k 10: RangedInt<u16, 1000, 60000>));
pub type Bytes5 = FixedBytes<5>;

// ---- operations on a type, erased ---------------------------------------------------------

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Tgt {
    Vec,
    Hex,
    Strict,
    Memo,
    Sink,
    ToBytes,
    WriteToVec,
    EncVec,
    EncHex,
    EncStrict,
    EncMemo,
    Full,
    Sim,
    EncSim,
}
pub const TGTS: [Tgt; 14] = [
    Tgt::Vec,
    Tgt::Hex,
    Tgt::Strict,
    Tgt::Memo,
    Tgt::Sink,
    Tgt::ToBytes,
    Tgt::WriteToVec,
    Tgt::EncVec,
    Tgt::EncHex,
    Tgt::EncStrict,
    Tgt::EncMemo,
    Tgt::Full,
    Tgt::Sim,
    Tgt::EncSim,
];
pub struct EncOut {
    /// everything the target holds afterwards (after `pre` for targets that can be preloaded)
    pub bytes: Option<Vec<u8>>,
    pub count: Option<usize>,
    pub sim: Option<SimTarget>,
}
pub struct Est {
    pub known: Option<usize>,
    pub estimate: usize,
    pub enc_len: usize,
}
#[derive(Clone, Debug, PartialEq)]
pub enum DErr {
    Parse,
    Conv,
    Invariant,
    NonEmpty(Vec<u8>),
    Other,
}
pub type Dres = Result<Val, DErr>;

pub struct TypeOps {
    pub name: &'static str,
    pub sch: fn() -> Sch,
    pub encode: fn(&Val, Tgt, &[u8], SimTarget) -> EncOut,
    pub est: fn(&Val) -> Est,
    pub parse_sim: fn(&mut SimParser) -> ParseResult<Val>,
    pub parse_byte: fn(&mut ByteParser) -> ParseResult<Val>,
    pub parse_memo: fn(&mut MemoParser) -> ParseResult<Val>,
    pub parse_slice: fn(&mut SliceParser) -> ParseResult<Val>,
    /// 0 &[u8]/byte 1 Vec/byte 2 HexString/byte 3 memo 4 slice
    pub try_decode: fn(u8, &[u8]) -> Dres,
    /// straight from text; 0 &str 1 String 2 Cow
    pub try_text: fn(u8, &str) -> Dres,
    /// the panicking entry points; 0 decode, 1 decode_memo
    pub decode: fn(u8, &[u8]) -> Val,
    /// decode, re-encode
    pub relay: fn(&[u8]) -> Option<(Val, Vec<u8>, usize)>,
    /// size_of of the in-memory value
    pub mem: usize,
    /// the type below a length prefix (0 u8, 1 u16, 2 u30)
    pub parse_dyn: fn(u8, &mut SimParser) -> ParseResult<Val>,
    pub encode_dyn: fn(u8, &Val, &mut SimTarget) -> usize,
    pub len_dyn: fn(u8, &Val) -> DynLen,
    /// write_to into whichever target is passed
    pub put: fn(&Val, &mut dyn std::any::Any) -> usize,
}
pub struct DynLen {
    pub prefix: Result<usize, (usize, usize)>,
    /// None if the payload does not fit
    pub est: Option<Est>,
}
pub const PREFS: [Pref; 3] = [Pref::P8, Pref::P16, Pref::P30];

pub fn flat(l: LeftoverState) -> (Vec<Vec<u8>>, bool, usize) {
    let e = l.is_empty();
    let n = l.len();
    (
        match l {
            LeftoverState::Empty => vec![],
            LeftoverState::Windowless(v) => vec![v],
            LeftoverState::Windowed(sv) => sv.spans().map(|s| s.to_vec()).collect(),
        },
        e,
        n,
    )
}
fn d_encode<T: SimType>(v: &Val, t: Tgt, pre: &[u8], sim: SimTarget) -> EncOut {
    let x = T::from_val(v);
    fn out(b: Vec<u8>, n: usize) -> EncOut {
        EncOut { bytes: Some(b), count: Some(n), sim: None }
    }
    fn only(b: Vec<u8>) -> EncOut {
        EncOut { bytes: Some(b), count: None, sim: None }
    }
    match t {
        Tgt::Vec => {
            let mut b = pre.to_vec();
            let n = x.write_to(&mut b);
            out(b, n)
        }
        Tgt::Hex => {
            let mut b = HexString::from_vec(pre.to_vec());
            let n = x.write_to(&mut b);
            out(b.into_inner(), n)
        }
        Tgt::Strict => {
            let mut b = StrictBuilder::from(pre);
            let n = x.write_to(&mut b);
            out(b.into_vec(), n)
        }
        Tgt::Memo => {
            let mut b = MemoBuilder::from(pre);
            let n = x.write_to(&mut b);
            out(b.into_vec(), n)
        }
        Tgt::Sink => {
            let mut b = <ByteCounter as Target>::create();
            let n = x.write_to(&mut b);
            EncOut { bytes: None, count: Some(n), sim: None }
        }
        Tgt::ToBytes => only(x.to_bytes()),
        Tgt::WriteToVec => {
            let mut b = pre.to_vec();
            x.write_to_vec(&mut b);
            only(b)
        }
        Tgt::EncVec => only(x.encode::<Vec<u8>>()),
        Tgt::EncHex => only(x.encode::<HexString>().into_inner()),
        Tgt::EncStrict => only(x.encode::<StrictBuilder>().into_vec()),
        Tgt::EncMemo => only(x.encode::<MemoBuilder>().into_vec()),
        Tgt::Full => only(x.to_bytes_full()),
        Tgt::Sim => {
            let mut b = sim;
            let n = x.write_to(&mut b);
            EncOut { bytes: Some(b.out.clone()), count: Some(n), sim: Some(b) }
        }
        Tgt::EncSim => {
            crate::simtarget::arm(sim);
            let b = x.encode::<SimTarget>();
            EncOut { bytes: Some(b.out.clone()), count: None, sim: Some(b) }
        }
    }
}
fn d_put<T: SimType>(v: &Val, t: &mut dyn std::any::Any) -> usize {
    let x = T::from_val(v);
    macro_rules! go { ($($k:ty),*) => { $( if let Some(t) = t.downcast_mut::<$k>() { return x.write_to(t); } )* } }
    go!(Vec<u8>, HexString, StrictBuilder, MemoBuilder, ByteCounter, SimTarget);
    panic!("harness: unknown target")
}
fn d_est<T: SimType>(v: &Val) -> Est {
    let x = T::from_val(v);
    Est { known: T::KNOWN, estimate: x.estimate(), enc_len: x.enc_len() }
}
fn d_parse<T: SimType, P: Parser>(p: &mut P) -> ParseResult<Val> {
    T::parse(p).map(|x| x.to_val())
}
fn d_psim<T: SimType>(p: &mut SimParser) -> ParseResult<Val> {
    d_parse::<T, _>(p)
}
fn d_pslice<T: SimType>(p: &mut SliceParser) -> ParseResult<Val> {
    d_parse::<T, _>(p)
}
fn derr(e: DecodeError) -> DErr {
    match e {
        DecodeError::Parse(_) => DErr::Parse,
        DecodeError::Conv(_) => DErr::Conv,
        DecodeError::Invariant(_) => DErr::Invariant,
        DecodeError::NonEmpty(l) => DErr::NonEmpty(flat(l).0.concat()),
        _ => DErr::Other,
    }
}
fn d_try<T: SimType>(k: u8, b: &[u8]) -> Dres {
    let r = match k {
        0 => T::try_decode::<_, ByteParser>(b),
        1 => T::try_decode::<_, ByteParser>(b.to_vec()),
        2 => T::try_decode::<_, ByteParser>(HexString::from_bytes(b.to_vec())),
        3 => T::try_decode::<_, MemoParser>(b),
        _ => T::try_decode::<_, SliceParser>(b),
    };
    r.map(|x| x.to_val()).map_err(derr)
}
fn d_text<T: SimType>(k: u8, s: &str) -> Dres {
    use std::borrow::Cow;
    let r = match k {
        0 => T::try_decode::<_, ByteParser>(s),
        1 => T::try_decode::<_, MemoParser>(s.to_string()),
        _ => T::try_decode::<_, ByteParser>(Cow::Borrowed(s)),
    };
    r.map(|x| x.to_val()).map_err(derr)
}
fn d_decode<T: SimType>(k: u8, b: &[u8]) -> Val {
    match k {
        0 => T::decode(b).to_val(),
        _ => T::decode_memo(b).to_val(),
    }
}
fn d_relay<T: SimType>(b: &[u8]) -> Option<(Val, Vec<u8>, usize)> {
    let mut p = ByteParser::from_buffer(b.into());
    let x = T::parse(&mut p).ok()?;
    let v = x.to_val();
    Some((v, x.to_bytes(), p.offset()))
}
fn d_pdyn<T: SimType>(k: u8, p: &mut SimParser) -> ParseResult<Val> {
    match k {
        0 => <Dynamic<u8, T>>::parse(p).map(|x| x.to_val()),
        1 => <Dynamic<u16, T>>::parse(p).map(|x| x.to_val()),
        _ => <Dynamic<u30, T>>::parse(p).map(|x| x.to_val()),
    }
}
fn d_edyn<T: SimType>(k: u8, v: &Val, t: &mut SimTarget) -> usize {
    let x = T::from_val(v);
    match k {
        0 => <Dynamic<u8, T>>::new(x).write_to(t),
        1 => <Dynamic<u16, T>>::new(x).write_to(t),
        _ => <Dynamic<u30, T>>::new(x).write_to(t),
    }
}
fn d_ldyn<T: SimType>(k: u8, v: &Val) -> DynLen {
    fn f<S: SimPref, T: SimType>(x: T) -> DynLen {
        let d = <Dynamic<S, T>>::new(x);
        let prefix = d.length_prefix().map(|l| l.into()).map_err(|e| match e {
            tedium::error::WidthError::TooWide { limit, actual } => (limit, actual),
            #[allow(unreachable_patterns)]
            _ => (usize::MAX, usize::MAX),
        });
        DynLen {
            est: prefix.is_ok().then(|| Est { known: <Dynamic<S, T>>::KNOWN, estimate: d.estimate(), enc_len: d.enc_len() }),
            prefix,
        }
    }
    let x = T::from_val(v);
    match k {
        0 => f::<u8, T>(x),
        1 => f::<u16, T>(x),
        _ => f::<u30, T>(x),
    }
}
fn ops<T: SimType>(name: &'static str) -> TypeOps {
    TypeOps {
        name,
        sch: T::sch,
        encode: d_encode::<T>,
        est: d_est::<T>,
        parse_sim: d_psim::<T>,
        parse_byte: d_parse::<T, ByteParser>,
        parse_memo: d_parse::<T, MemoParser>,
        parse_slice: d_pslice::<T>,
        try_decode: d_try::<T>,
        try_text: d_text::<T>,
        decode: d_decode::<T>,
        relay: d_relay::<T>,
        mem: std::mem::size_of::<T>(),
        parse_dyn: d_pdyn::<T>,
        encode_dyn: d_edyn::<T>,
        len_dyn: d_ldyn::<T>,
        put: d_put::<T>,
    }
}
macro_rules! table { ($v:ident: $($t:ty),+ $(,)?) => { $( $v.push(ops::<$t>(stringify!($t))); )+ } }

fn build() -> Vec<TypeOps> {
    let mut v = vec![];
    table!(v:
        Header, Op, Ev, Tree, Nest, Options, Nums, Seqs, PadRec, Boxed,
        u8, u16, u32, u64, i8, i16, i32, i64, bool, f64, (),
        RangedF64!(-1.0, 1.0), RangedF64!(0.0, f64::MAX),
        String, Vec<u8>, Bytes, u30, i31,
        RangedInt<u8, 10, 20>, RangedInt<i16, -100, 200>, RangedInt<u16, 1000, 60000>, RangedInt<i8, -128, -3>,
        RangedInt<i32, -5, 10>, RangedInt<u8, 1023, 1100>, RangedInt<u32, 0, 70000>, RangedInt<u8, 1, 255>, RangedInt<u16, 1, 1>, RangedInt<u32, 5, 0x3fff_ffff>, RangedInt<i8, -1, 0>,
        N, Z, Option<N>, Option<Dynamic<u16, Bytes>>, Nullable<u32>, Nullable<Dynamic<u8, String>>,
        Padded<u32, 2>, Padded<(), 3>, Kind8, Kind16, Kind32, Single,
        Dynamic<u8, Bytes>, Dynamic<u16, String>, Dynamic<u30, Bytes>, Dynamic<u30, Vec<u8>>,
        Dynamic<u8, Sequence<u16>>, Dynamic<u16, Sequence<Dynamic<u8, Sequence<N>>>>, Dynamic<u30, Sequence<Header>>,
        Dynamic<u16, Dynamic<u16, u32>>, Dynamic<u8, Option<u8>>, Dynamic<u8, ()>, Dynamic<u30, u64>, Dynamic<u16, Nullable<u16>>,
        Sequence<u8>, Sequence<i32>, Sequence<Pair>, Sequence<N>, Sequence<FixLen>, Sequence<Option<u8>>,
        FixSeq<u8, 0>, FixSeq<u8, 1>, FixSeq<u32, 5>, FixSeq<N, 3>, FixSeq<Pair, 4>, FixSeq<Dynamic<u8, Bytes>, 2>,
        LimSeq<u16, 4>, LimSeq<Z, 7>, LimSeq<Pair, 3>, LimSeq<u8, 0>, Dynamic<u16, LimSeq<u8, 300>>,
        FixedBytes<0>, FixedBytes<1>, FixedBytes<20>, FixedBytes<64>, FixedString<5>, FixedString<0>,
        AutoBox<u16>, AutoBox<Op>,
        Mixed8, Mixed16, Mixed32, Dense, Shuffled, Wide, Tail, Rates, Frames, OptFix, TailOpt, TailLim, VPadOpt, Grid, OddNames, Ordered, OneField, Long, LongFixed,
        Sequence<bool>, Sequence<f64>, Sequence<i31>, Sequence<Mixed16>, Sequence<FixedBytes<3>>, Sequence<Shuffled>,
        Sequence<RangedInt<i16, -100, 200>>, Sequence<Padded<u16, 1>>, Sequence<Option<Dynamic<u8, Bytes>>>,
        FixSeq<Mixed32, 3>, FixSeq<bool, 4>, FixSeq<Z, 2>, FixSeq<Wide, 2>, LimSeq<Shuffled, 4>, LimSeq<i64, 3>, LimSeq<FixedRec, 2>,
        Dynamic<u16, LimSeq<Dynamic<u8, String>, 6>>, Dynamic<u8, FixSeq<u16, 7>>, Dynamic<u8, Padded<u16, 2>>, Dynamic<u16, Tail>,
        Dynamic<u8, Nullable<Mixed16>>, Dynamic<u30, Option<Sequence<u16>>>, Nullable<FixedBytes<5>>, Nullable<Z>,
        Option<Sequence<u8>>, Option<String>, Padded<i64, 5>, Padded<Mixed16, 2>, Padded<FixSeq<u16, 2>, 1>,
        AutoBox<Dynamic<u8, Sequence<Z>>>, FixedBytes<300>, FixedString<33>, RangedInt<i8, -3, 100>, RangedInt<u8, 0, 255>,
        Option<FixedBytes<20>>, Option<u64>, Option<FixSeq<u32, 5>>, Option<f64>, Option<FixedRec>, Option<FixedString<12>>, Option<Option<FixedBytes<9>>>,
        Nullable<FixedBytes<64>>, Nullable<u64>, Nullable<i64>, Nullable<FixedRec>, Nullable<FixSeq<u16, 9>>, AutoBox<FixedBytes<40>>, Padded<FixedBytes<32>, 8>,
        Sequence<FixedBytes<20>>, Sequence<u64>, Sequence<FixSeq<u16, 2>>, Sequence<Dynamic<u16, String>>, LimSeq<FixedBytes<12>, 5>, FixSeq<FixedBytes<32>, 2>,
        FixSeq<(), 3>, FixSeq<FixedBytes<0>, 2>, Dynamic<u8, FixSeq<(), 4>>, Option<FixSeq<(), 2>>, FixSeq<FixSeq<(), 2>, 3>, Padded<FixSeq<FixedString<0>, 2>, 1>, Sequence<FixSeq<Padded<(), 1>, 2>>,
        FixSeq<u16, 40>, FixSeq<FixedString<10>, 3>, LimSeq<u32, 100>, Dynamic<u30, LimSeq<FixedBytes<32>, 3>>, Dynamic<u16, Option<FixedBytes<20>>>, Dynamic<u8, Nullable<FixedBytes<20>>>,
        Pair, Wrap, WrapFix, FixedRec, Marker, FixLen, FixLen2, TailNull, TailSeq, VPadRec, VPadStr, VPadDyn,
    );
    #[cfg(feature = "relaxpad")]
    {
        table!(v: Padded<N, 4>, Padded<Dynamic<u16, Bytes>, 1>, Option<Padded<Dynamic<u8, String>, 3>>);
    }
    v
}
pub fn all() -> &'static [TypeOps] {
    use std::sync::OnceLock;
    static T: OnceLock<Vec<TypeOps>> = OnceLock::new();
    T.get_or_init(build)
}
pub fn metas() -> &'static [MetaOps] {
    use std::sync::OnceLock;
    static M: OnceLock<Vec<MetaOps>> = OnceLock::new();
    M.get_or_init(|| {
        macro_rules! all { ($($t:ident),*) => { vec![ $(<$t as Meta>::meta()),* ] } }
        all!(Kind8, Kind16, Kind32, Single, Mixed8, Mixed16, Mixed32, Dense, Op, Ev, Tree, Shuffled, Wide, Tail)
    })
}
pub fn enum_ops() -> &'static [TypeOps] {
    use std::sync::OnceLock;
    static M: OnceLock<Vec<TypeOps>> = OnceLock::new();
    M.get_or_init(|| {
        let mut v = vec![];
        macro_rules! all { ($($t:ident),*) => { $( v.push(ops::<$t>(stringify!($t))); )* } }
        all!(Kind8, Kind16, Kind32, Single, Mixed8, Mixed16, Mixed32, Dense, Op, Ev, Tree, Shuffled, Wide, Tail);
        v
    })
}
pub fn ty(i: usize) -> &'static TypeOps {
    let a = all();
    &a[i % a.len()]
}
