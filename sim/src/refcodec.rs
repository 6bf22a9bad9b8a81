//! Independent reference implementation of the documented wire format, driven by a schema tree.
//! It shares no code with the crate under test and acts as oracle and as the foreign peer node.
use crate::rng::{Choices, Rng};

#[derive(Clone, Debug)]
pub enum Sch {
    Unit,
    U(u8),
    I(u8),
    F64,
    Bool,
    Str,
    Raw,
    Opt(Box<Sch>),
    Nullable(Box<Sch>),
    Padded(Box<Sch>, usize),
    VPadded(Box<Sch>, usize),
    Dyn(Pref, Box<Sch>),
    Seq(Box<Sch>),
    Fix(Box<Sch>, usize),
    Lim(Box<Sch>, usize),
    Bytes(usize),
    /// backing width in bytes, signed backing?, min, max
    Ranged(u8, bool, i64, i64),
    RFloat(f64, f64),
    Nat,
    Int,
    Struct(Vec<Sch>),
    /// width of the tag, allowed tags
    Enum(u8, Vec<u64>),
    Union(u8, Vec<(u64, Sch)>),
    /// recursive reference
    Rec(fn() -> Sch),
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Pref {
    P8,
    P16,
    P30,
}
impl Pref {
    pub fn width(self) -> usize {
        match self {
            Pref::P8 => 1,
            Pref::P16 => 2,
            Pref::P30 => 4,
        }
    }
    pub fn max(self) -> usize {
        match self {
            Pref::P8 => 0xff,
            Pref::P16 => 0xffff,
            Pref::P30 => 0x3fff_ffff,
        }
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Val {
    Unit,
    U(u64),
    I(i64),
    F(u64),
    B(bool),
    Bytes(Vec<u8>),
    Str(String),
    Opt(Option<Box<Val>>),
    List(Vec<Val>),
    /// sign, magnitude little-endian without trailing zero bytes
    Big(bool, Vec<u8>),
    Union(u64, Box<Val>),
}

fn be(out: &mut Vec<u8>, v: u64, w: u8) {
    for i in (0..w).rev() {
        out.push((v >> (8 * i)) as u8);
    }
}
fn bitlen(m: &[u8]) -> usize {
    match m.last() {
        None => 0,
        Some(&t) => m.len() * 8 - t.leading_zeros() as usize,
    }
}
fn getbits(m: &[u8], at: usize, n: usize) -> u8 {
    let mut r = 0;
    for i in 0..n {
        let bit = at + i;
        if let Some(&b) = m.get(bit / 8) {
            r |= ((b >> (bit % 8)) & 1) << i;
        }
    }
    r
}

pub fn enc(s: &Sch, v: &Val, out: &mut Vec<u8>) {
    match (s, v) {
        (Sch::Unit, _) => {}
        (Sch::U(w), Val::U(x)) => be(out, *x, *w),
        (Sch::I(w), Val::I(x)) => be(out, *x as u64, *w),
        (Sch::F64, Val::F(x)) | (Sch::RFloat(..), Val::F(x)) => be(out, *x, 8),
        (Sch::Bool, Val::B(x)) => out.push(if *x { 0xff } else { 0 }),
        (Sch::Str, Val::Str(x)) => out.extend_from_slice(x.as_bytes()),
        (Sch::Raw, Val::Bytes(x)) | (Sch::Bytes(_), Val::Bytes(x)) => out.extend_from_slice(x),
        (Sch::Opt(t), Val::Opt(x)) => match x {
            None => out.push(0),
            Some(y) => {
                out.push(0xff);
                enc(t, y, out)
            }
        },
        (Sch::Nullable(t), Val::Opt(x)) => {
            if let Some(y) = x {
                enc(t, y, out)
            }
        }
        (Sch::Padded(t, n), v) => {
            enc(t, v, out);
            out.extend(std::iter::repeat(0).take(*n));
        }
        (Sch::VPadded(t, _), v) => enc(t, v, out),
        (Sch::Dyn(p, t), v) => {
            let mut body = Vec::new();
            enc(t, v, &mut body);
            be(out, body.len() as u64, p.width() as u8);
            out.extend_from_slice(&body);
        }
        (Sch::Seq(t), Val::List(xs)) | (Sch::Fix(t, _), Val::List(xs)) | (Sch::Lim(t, _), Val::List(xs)) => {
            for x in xs {
                enc(t, x, out)
            }
        }
        (Sch::Ranged(w, _, min, _), Val::I(x)) => {
            let raw = if *min > 0 { *x - *min } else { *x };
            be(out, raw as u64, *w)
        }
        (Sch::Nat, Val::Big(_, m)) => {
            let n = bitlen(m).max(1);
            let k = (n + 6) / 7;
            for i in 0..k {
                let c = if i + 1 < k { 0x80 } else { 0 };
                out.push(getbits(m, 7 * i, 7) | c);
            }
        }
        (Sch::Int, Val::Big(neg, m)) => {
            let n = bitlen(m);
            let k = if n <= 6 { 1 } else { 1 + (n - 6 + 6) / 7 };
            for i in 0..k {
                let c = if i + 1 < k { 0x80 } else { 0 };
                if i == 0 {
                    out.push(getbits(m, 0, 6) | if *neg { 0x40 } else { 0 } | c);
                } else {
                    out.push(getbits(m, 6 + 7 * (i - 1), 7) | c);
                }
            }
        }
        (Sch::Struct(fs), Val::List(xs)) => {
            for (f, x) in fs.iter().zip(xs) {
                enc(f, x, out)
            }
        }
        (Sch::Enum(w, _), Val::U(x)) => be(out, *x, *w),
        (Sch::Union(w, arms), Val::Union(t, x)) => {
            be(out, *t, *w);
            let arm = arms.iter().find(|a| a.0 == *t).expect("union arm");
            enc(&arm.1, x, out)
        }
        (Sch::Rec(f), v) => enc(&f(), v, out),
        (s, v) => panic!("reference codec: schema {s:?} does not fit value {v:?}"),
    }
}
pub fn encode(s: &Sch, v: &Val) -> Vec<u8> {
    let mut o = Vec::new();
    enc(s, v, &mut o);
    o
}

pub struct Cur<'a> {
    pub b: &'a [u8],
    pub pos: usize,
    pub end: usize,
}
impl<'a> Cur<'a> {
    pub fn new(b: &'a [u8]) -> Self {
        Cur { b, pos: 0, end: b.len() }
    }
    pub fn rem(&self) -> usize {
        self.end - self.pos
    }
    fn take(&mut self, n: usize) -> Result<&'a [u8], ()> {
        if n > self.rem() {
            return Err(());
        }
        let r = &self.b[self.pos..self.pos + n];
        self.pos += n;
        Ok(r)
    }
    fn be(&mut self, w: u8) -> Result<u64, ()> {
        Ok(self.take(w as usize)?.iter().fold(0, |a, &b| a << 8 | b as u64))
    }
}
fn sext(x: u64, w: u8) -> i64 {
    let sh = 64 - 8 * w as u32;
    ((x << sh) as i64) >> sh
}
fn groups_to_mag(groups: &[u8], first_bits: usize) -> Vec<u8> {
    let mut bits: Vec<u8> = Vec::new();
    for (i, g) in groups.iter().enumerate() {
        let n = if i == 0 { first_bits } else { 7 };
        for k in 0..n {
            bits.push((g >> k) & 1);
        }
    }
    let mut m = vec![0u8; (bits.len() + 7) / 8];
    for (i, b) in bits.iter().enumerate() {
        m[i / 8] |= b << (i % 8);
    }
    while m.last() == Some(&0) {
        m.pop();
    }
    m
}

pub fn dec(s: &Sch, c: &mut Cur) -> Result<Val, ()> {
    Ok(match s {
        Sch::Unit => Val::Unit,
        Sch::U(w) => Val::U(c.be(*w)?),
        Sch::I(w) => Val::I(sext(c.be(*w)?, *w)),
        Sch::F64 => Val::F(c.be(8)?),
        Sch::RFloat(a, b) => {
            let x = c.be(8)?;
            let f = f64::from_bits(x);
            if f >= *a && f <= *b {
                Val::F(x)
            } else {
                return Err(());
            }
        }
        Sch::Bool => match c.be(1)? {
            0xff => Val::B(true),
            0 => Val::B(false),
            _ => return Err(()),
        },
        Sch::Str => {
            let n = c.rem();
            Val::Str(String::from_utf8_lossy(c.take(n)?).into_owned())
        }
        Sch::Raw => {
            let n = c.rem();
            Val::Bytes(c.take(n)?.to_vec())
        }
        Sch::Opt(t) => match c.be(1)? {
            0xff => Val::Opt(Some(Box::new(dec(t, c)?))),
            0 => Val::Opt(None),
            _ => return Err(()),
        },
        Sch::Nullable(t) => {
            if c.rem() == 0 {
                Val::Opt(None)
            } else {
                Val::Opt(Some(Box::new(dec(t, c)?)))
            }
        }
        Sch::Padded(t, n) => {
            let v = dec(t, c)?;
            let p = c.take(*n)?;
            if cfg!(feature = "padcheck") && p.iter().any(|&b| b != 0) {
                return Err(());
            }
            v
        }
        Sch::VPadded(t, n) => {
            if c.rem() < *n {
                return Err(());
            }
            let old = c.end;
            c.end -= *n;
            let v = dec(t, c)?;
            if c.pos != c.end {
                return Err(());
            }
            c.end = old;
            v
        }
        Sch::Dyn(p, t) => {
            let n = c.be(p.width() as u8)?;
            if n > p.max() as u64 || n > c.rem() as u64 {
                return Err(());
            }
            let old = c.end;
            c.end = c.pos + n as usize;
            let v = dec(t, c)?;
            if c.pos != c.end {
                return Err(());
            }
            c.end = old;
            v
        }
        Sch::Seq(t) => {
            let mut v = vec![];
            while c.rem() != 0 {
                v.push(dec(t, c)?);
            }
            Val::List(v)
        }
        Sch::Lim(t, n) => {
            let mut v = vec![];
            while c.rem() != 0 {
                v.push(dec(t, c)?);
                if v.len() > *n {
                    return Err(());
                }
            }
            Val::List(v)
        }
        Sch::Fix(t, n) => {
            let mut v = vec![];
            for _ in 0..*n {
                v.push(dec(t, c)?);
            }
            Val::List(v)
        }
        Sch::Bytes(n) => Val::Bytes(c.take(*n)?.to_vec()),
        Sch::Ranged(w, signed, min, max) => {
            let x = c.be(*w)?;
            let raw = if *signed { sext(x, *w) } else { x as i64 };
            let v = if *min > 0 {
                if raw < 0 {
                    return Err(());
                }
                raw + *min
            } else {
                raw
            };
            if v < *min || v > *max {
                return Err(());
            }
            Val::I(v)
        }
        Sch::Nat | Sch::Int => {
            let mut g = vec![];
            loop {
                let b = c.be(1)? as u8;
                g.push(b);
                if b & 0x80 == 0 {
                    break;
                }
            }
            if matches!(s, Sch::Nat) {
                Val::Big(false, groups_to_mag(&g, 7))
            } else {
                let m = groups_to_mag(&g, 6);
                Val::Big(g[0] & 0x40 != 0 && !m.is_empty(), m)
            }
        }
        Sch::Struct(fs) => {
            let mut v = vec![];
            for f in fs {
                v.push(dec(f, c)?);
            }
            Val::List(v)
        }
        Sch::Enum(w, tags) => {
            let t = c.be(*w)?;
            if !tags.contains(&t) {
                return Err(());
            }
            Val::U(t)
        }
        Sch::Union(w, arms) => {
            let t = c.be(*w)?;
            match arms.iter().find(|a| a.0 == t) {
                None => return Err(()),
                Some((_, a)) => Val::Union(t, Box::new(dec(a, c)?)),
            }
        }
        Sch::Rec(f) => dec(&f(), c)?,
    })
}

/// can a decoder find the end of the value without being told?
pub fn self_delimiting(s: &Sch) -> bool {
    match s {
        Sch::Str | Sch::Raw | Sch::Nullable(_) | Sch::Seq(_) | Sch::Lim(..) | Sch::VPadded(..) => false,
        Sch::Opt(t) | Sch::Padded(t, _) | Sch::Fix(t, _) => self_delimiting(t),
        Sch::Struct(fs) => fs.iter().all(self_delimiting),
        Sch::Union(_, arms) => arms.iter().all(|a| self_delimiting(&a.1)),
        Sch::Rec(_) => true,
        _ => true,
    }
}
/// does decoding honour damage in the payload by construction (lossy text)?
pub fn lossy_text(s: &Sch) -> bool {
    match s {
        Sch::Str => true,
        Sch::Opt(t) | Sch::Nullable(t) | Sch::Padded(t, _) | Sch::VPadded(t, _) | Sch::Dyn(_, t) | Sch::Seq(t)
        | Sch::Fix(t, _) | Sch::Lim(t, _) => lossy_text(t),
        Sch::Struct(fs) => fs.iter().any(lossy_text),
        Sch::Union(_, arms) => arms.iter().any(|a| lossy_text(&a.1)),
        _ => false,
    }
}
/// every constraint of the type, checked on a value independently of any decoder
pub fn legal(s: &Sch, v: &Val) -> bool {
    match (s, v) {
        (Sch::Unit, Val::Unit) => true,
        (Sch::U(w), Val::U(x)) => *w == 8 || *x < 1u64 << (8 * *w as u32),
        (Sch::I(w), Val::I(x)) => *w == 8 || (*x >= -(1i64 << (8 * *w as u32 - 1)) && *x < 1i64 << (8 * *w as u32 - 1)),
        (Sch::F64, Val::F(_)) => true,
        (Sch::RFloat(a, b), Val::F(x)) => {
            let f = f64::from_bits(*x);
            f >= *a && f <= *b
        }
        (Sch::Bool, Val::B(_)) => true,
        (Sch::Str, Val::Str(_)) | (Sch::Raw, Val::Bytes(_)) => true,
        (Sch::Opt(t), Val::Opt(x)) | (Sch::Nullable(t), Val::Opt(x)) => x.as_ref().map_or(true, |y| legal(t, y)),
        (Sch::Padded(t, _), v) | (Sch::VPadded(t, _), v) | (Sch::Dyn(_, t), v) => legal(t, v),
        (Sch::Seq(t), Val::List(xs)) => xs.iter().all(|x| legal(t, x)),
        (Sch::Fix(t, n), Val::List(xs)) => xs.len() == *n && xs.iter().all(|x| legal(t, x)),
        (Sch::Lim(t, n), Val::List(xs)) => xs.len() <= *n && xs.iter().all(|x| legal(t, x)),
        (Sch::Bytes(n), Val::Bytes(x)) => x.len() == *n,
        (Sch::Ranged(_, _, min, max), Val::I(x)) => x >= min && x <= max,
        (Sch::Nat, Val::Big(neg, m)) => !*neg && m.last() != Some(&0),
        (Sch::Int, Val::Big(neg, m)) => m.last() != Some(&0) && !(*neg && m.is_empty()),
        (Sch::Struct(fs), Val::List(xs)) => fs.len() == xs.len() && fs.iter().zip(xs).all(|(f, x)| legal(f, x)),
        (Sch::Enum(_, tags), Val::U(t)) => tags.contains(t),
        (Sch::Union(_, arms), Val::Union(t, x)) => arms.iter().any(|a| a.0 == *t && legal(&a.1, x)),
        (Sch::Rec(f), v) => legal(&f(), v),
        _ => false,
    }
}

pub fn min_len(s: &Sch) -> usize {
    match s {
        Sch::Unit | Sch::Str | Sch::Raw | Sch::Nullable(_) | Sch::Seq(_) | Sch::Lim(..) => 0,
        Sch::U(w) | Sch::I(w) | Sch::Ranged(w, ..) | Sch::Enum(w, _) => *w as usize,
        Sch::F64 | Sch::RFloat(..) => 8,
        Sch::Bool | Sch::Opt(_) | Sch::Nat | Sch::Int => 1,
        Sch::Padded(t, n) => min_len(t) + n,
        Sch::VPadded(t, _) => min_len(t),
        Sch::Dyn(p, t) => p.width() + min_len(t),
        Sch::Fix(t, n) => min_len(t) * n,
        Sch::Bytes(n) => *n,
        Sch::Struct(fs) => fs.iter().map(min_len).sum(),
        Sch::Union(w, arms) => *w as usize + arms.iter().map(|a| min_len(&a.1)).min().unwrap_or(0),
        Sch::Rec(_) => 2,
    }
}

fn edge_u(c: &mut Choices, bits: u32) -> u64 {
    let mask = if bits == 64 { u64::MAX } else { (1u64 << bits) - 1 };
    let v = match c.byte() % 8 {
        0 => c.byte() as u64,
        1 => 0,
        2 => mask,
        3 => 1u64 << (c.byte() as u32 % bits),
        4 => (1u64 << (c.byte() as u32 % bits)).wrapping_sub(1),
        5 => mask ^ (c.byte() as u64),
        _ => c.word(bits as usize / 8),
    };
    v & mask
}

fn gen_len(c: &mut Choices, max: usize) -> usize {
    let n = match c.byte() % 16 {
        0 => 0,
        1..=6 => c.byte() as usize % 8,
        7..=9 => c.byte() as usize % 40,
        10 => 127 + c.byte() as usize % 3,
        11 => 254 + c.byte() as usize % 4,
        12 => max.saturating_sub(c.byte() as usize % 3),
        13 => c.byte() as usize,
        14 => {
            if c.byte() < 20 {
                65534 + c.byte() as usize % 4
            } else {
                c.byte() as usize % 80
            }
        }
        _ => 1,
    };
    n.min(max)
}

pub fn gen_bytes(c: &mut Choices, n: usize) -> Vec<u8> {
    if n <= 12 {
        let mut v: Vec<u8> = (0..n).map(|_| c.byte()).collect();
        if n >= 2 && v[n - 1] % 8 == 7 {
            // beginnings and ends that a careless layer likes to interpret
            const ODD: [&[u8]; 10] =
                [b"\xef\xbb\xbf", b"0x", b"\r\n", b"\x00\x00", b"\xff\xff", b"\xff", b"00", b"\x80", b"\xff\xfe", b"\x7f\xff\xff\xff"];
            let o = ODD[v[0] as usize % ODD.len()];
            let k = o.len().min(n);
            let at = if v[n - 1] & 8 == 0 { 0 } else { n - k };
            v[at..at + k].copy_from_slice(&o[..k]);
        }
        return v;
    }
    match c.byte() % 4 {
        0 => vec![c.byte(); n],
        1 => (0..n).map(|i| i as u8).collect(),
        _ => {
            let s = c.word(2);
            Rng::new(s).bytes(n)
        }
    }
}

/// Generate a legal value whose encoding is at most max(budget, min_len) bytes.
pub fn gen(s: &Sch, c: &mut Choices, budget: usize, depth: u32) -> Val {
    match s {
        Sch::Unit => Val::Unit,
        Sch::U(w) => Val::U(edge_u(c, 8 * *w as u32)),
        Sch::I(w) => Val::I(sext(edge_u(c, 8 * *w as u32), *w)),
        Sch::F64 => {
            let specials = [
                0u64,
                1 << 63,
                f64::NAN.to_bits(),
                0x7ff0_0000_0000_0001,
                0xfff8_0000_dead_beef,
                f64::INFINITY.to_bits(),
                f64::NEG_INFINITY.to_bits(),
                1,
                f64::MAX.to_bits(),
                1.5f64.to_bits(),
            ];
            match c.byte() % 3 {
                0 => Val::F(specials[c.byte() as usize % specials.len()]),
                1 => Val::F((c.byte() as f64 / 3.0).to_bits()),
                _ => Val::F(c.word(8)),
            }
        }
        Sch::RFloat(a, b) => {
            let x = match c.byte() % 4 {
                0 => *a,
                1 => *b,
                2 => (*a).max(0.0).min(*b),
                _ => {
                    let t = c.byte() as f64 / 255.0;
                    let x = a * (1.0 - t) + b * t;
                    x.max(*a).min(*b)
                }
            };
            Val::F(x.to_bits())
        }
        Sch::Bool => Val::B(c.byte() & 1 == 1),
        Sch::Str => {
            let n = gen_len(c, budget);
            let mut st = String::new();
            let mode = c.byte() % 5;
            if mode == 4 {
                // text that a careless layer likes to "normalise"
                const ODD: [&str; 18] = [
                    "\u{feff}", "\u{feff}a", "0x", "0x00", " ", "\r\n", "\n", "\t", "\u{0}", "\u{0}a", "e\u{301}", "\u{85}", "\u{2028}", "\"",
                    "\\u0041", "%00", "\u{10ffff}", "\u{e000}\u{d7ff}",
                ];
                let mut o = ODD[c.byte() as usize % ODD.len()];
                while o.len() > n {
                    o = &o[..o.len() - o.chars().last().unwrap().len_utf8()];
                }
                let tail = c.byte() & 1 == 1;
                if !tail {
                    st.push_str(o);
                }
                while st.len() + if tail { o.len() } else { 0 } < n {
                    st.push((b'0' + c.byte() % 64) as char);
                }
                if tail {
                    st.push_str(o);
                }
                return Val::Str(st);
            }
            while st.len() < n {
                let ch = if n > 64 || mode == 0 {
                    'a'
                } else {
                    match c.byte() % 6 {
                        0 => '\u{0}',
                        1 => 'é',
                        2 => '\u{1F600}',
                        3 => '\u{FFFD}',
                        _ => (b' ' + c.byte() % 95) as char,
                    }
                };
                if st.len() + ch.len_utf8() > n {
                    st.push('z');
                } else {
                    st.push(ch);
                }
            }
            Val::Str(st)
        }
        Sch::Raw => {
            let n = gen_len(c, budget);
            Val::Bytes(gen_bytes(c, n))
        }
        Sch::Opt(t) => {
            if c.byte() % 3 == 0 || 1 + min_len(t) > budget.max(1) || depth > 24 {
                Val::Opt(None)
            } else {
                Val::Opt(Some(Box::new(gen(t, c, budget.saturating_sub(1), depth + 1))))
            }
        }
        Sch::Nullable(t) => {
            if c.byte() % 3 == 0 || min_len(t) > budget {
                Val::Opt(None)
            } else {
                Val::Opt(Some(Box::new(gen(t, c, budget, depth + 1))))
            }
        }
        Sch::Padded(t, n) => gen(t, c, budget.saturating_sub(*n), depth + 1),
        Sch::VPadded(t, _) => gen(t, c, budget, depth + 1),
        Sch::Dyn(p, t) => gen(t, c, budget.saturating_sub(p.width()).min(p.max()), depth + 1),
        Sch::Seq(t) => gen_list(t, c, budget, usize::MAX, depth),
        Sch::Lim(t, n) => gen_list(t, c, budget, *n, depth),
        Sch::Fix(t, n) => {
            let m = min_len(t);
            let mut left = budget.max(m * n);
            let mut v = vec![];
            for i in 0..*n {
                let rest = m * (n - i - 1);
                let x = gen(t, c, left.saturating_sub(rest), depth + 1);
                let mut o = vec![];
                enc(t, &x, &mut o);
                left = left.saturating_sub(o.len());
                v.push(x);
            }
            Val::List(v)
        }
        Sch::Bytes(n) => Val::Bytes(gen_bytes(c, *n)),
        Sch::Ranged(w, _, min, max) => {
            let span = (*max - *min) as u64;
            let x = match c.byte() % 6 {
                0 => *min,
                1 => *max,
                2 => 0i64.clamp(*min, *max),
                3 => *min + (c.byte() as u64).min(span) as i64,
                4 => *max - (c.byte() as u64).min(span) as i64,
                _ => *min + (c.word(*w as usize) % (span + 1)) as i64,
            };
            Val::I(x)
        }
        Sch::Nat | Sch::Int => {
            let maxbits = (budget.max(1) * 7).saturating_sub(if matches!(s, Sch::Int) { 1 } else { 0 }).min(600 * 8);
            let mut m = match c.byte() % 6 {
                0 => vec![],
                1 => vec![c.byte()],
                2 => {
                    // 2^k or 2^k - 1 around the septet boundaries
                    let k = (match c.byte() % 3 {
                        0 => 7 * (c.byte() as usize % 20),
                        1 => 6 + 7 * (c.byte() as usize % 20),
                        _ => c.byte() as usize,
                    } + c.byte() as usize % 2)
                        .min(maxbits.saturating_sub(1));
                    let mut m = vec![0u8; k / 8 + 1];
                    m[k / 8] = 1 << (k % 8);
                    if c.byte() & 1 == 1 {
                        for b in m.iter_mut().take(k / 8) {
                            *b = 0xff;
                        }
                        let t = &mut m[k / 8];
                        *t -= 1;
                        if *t == 0 && k % 8 != 0 {
                            *t = (1u16 << (k % 8)) as u8 - 1;
                        } else if k % 8 != 0 {
                            *t = (1u16 << (k % 8)) as u8 - 1;
                        }
                    }
                    m
                }
                3 => {
                    let n = c.byte() as usize % 9;
                    (0..n).map(|_| c.byte()).collect()
                }
                4 => {
                    let n = c.byte() as usize % 40;
                    gen_bytes(c, n)
                }
                _ => {
                    let n = c.byte() as usize;
                    gen_bytes(c, n)
                }
            };
            // clamp to the budget
            let mb = maxbits / 8;
            if bitlen(&m) > maxbits {
                m.truncate(mb);
            }
            while m.last() == Some(&0) {
                m.pop();
            }
            let neg = matches!(s, Sch::Int) && c.byte() & 1 == 1 && !m.is_empty();
            Val::Big(neg, m)
        }
        Sch::Struct(fs) => {
            let mins: Vec<usize> = fs.iter().map(min_len).collect();
            let mut rest: usize = mins.iter().sum();
            let mut left = budget.max(rest);
            let mut v = vec![];
            for (f, m) in fs.iter().zip(mins) {
                rest -= m;
                let x = gen(f, c, left.saturating_sub(rest), depth + 1);
                let mut o = vec![];
                enc(f, &x, &mut o);
                left = left.saturating_sub(o.len()).max(rest);
                v.push(x);
            }
            Val::List(v)
        }
        Sch::Enum(_, tags) => Val::U(tags[c.below(tags.len() as u64) as usize]),
        Sch::Union(w, arms) => {
            let b = budget.saturating_sub(*w as usize);
            let mut i = c.below(arms.len() as u64) as usize;
            if min_len(&arms[i].1) > b || depth > 24 || c.exhausted() {
                // the smallest arm, so that recursive types terminate
                i = (0..arms.len()).min_by_key(|&j| min_len(&arms[j].1)).unwrap();
            }
            Val::Union(arms[i].0, Box::new(gen(&arms[i].1, c, b, depth + 1)))
        }
        Sch::Rec(f) => gen(&f(), c, budget, depth + 1),
    }
}
fn gen_list(t: &Sch, c: &mut Choices, budget: usize, limit: usize, depth: u32) -> Val {
    let m = min_len(t).max(1);
    let want = if limit == usize::MAX {
        match c.byte() % 12 {
            0 => 0,
            1..=8 => c.byte() as usize % 6,
            9 | 10 => c.byte() as usize % 40,
            _ => c.byte() as usize,
        }
    } else {
        match c.byte() % 4 {
            0 => limit,
            1 => limit.saturating_sub(1),
            _ => c.below(limit as u64 + 1) as usize,
        }
    };
    let mut left = budget;
    let mut v = vec![];
    if depth > 24 {
        return Val::List(v);
    }
    for _ in 0..want {
        if left < m {
            break;
        }
        let x = gen(t, c, left.min(400), depth + 1);
        let mut o = vec![];
        enc(t, &x, &mut o);
        if o.len() > left || o.is_empty() {
            break;
        }
        left -= o.len();
        v.push(x);
    }
    Val::List(v)
}
/// does every length-prefixed part of the value fit its prefix?
pub fn fits(s: &Sch, v: &Val) -> bool {
    match (s, v) {
        (Sch::Dyn(p, t), v) => encode(t, v).len() <= p.max() && fits(t, v),
        (Sch::Opt(t), Val::Opt(x)) | (Sch::Nullable(t), Val::Opt(x)) => x.as_ref().map_or(true, |y| fits(t, y)),
        (Sch::Padded(t, _), v) | (Sch::VPadded(t, _), v) => fits(t, v),
        (Sch::Seq(t), Val::List(xs)) | (Sch::Fix(t, _), Val::List(xs)) | (Sch::Lim(t, _), Val::List(xs)) => {
            xs.iter().all(|x| fits(t, x))
        }
        (Sch::Struct(fs), Val::List(xs)) => fs.iter().zip(xs).all(|(f, x)| fits(f, x)),
        (Sch::Union(_, arms), Val::Union(t, x)) => arms.iter().any(|a| a.0 == *t && fits(&a.1, x)),
        (Sch::Rec(f), v) => fits(&f(), v),
        _ => true,
    }
}
/// where the length prefixes lie in the encoding: (offset, width, payload length)
pub fn prefix_spans(s: &Sch, v: &Val, at: usize, out: &mut Vec<(usize, usize, usize)>) -> usize {
    match (s, v) {
        (Sch::Dyn(p, t), v) => {
            let k = out.len();
            out.push((at, p.width(), 0));
            let end = prefix_spans(t, v, at + p.width(), out);
            out[k].2 = end - at - p.width();
            end
        }
        (Sch::Opt(t), Val::Opt(Some(y))) => prefix_spans(t, y, at + 1, out),
        (Sch::Nullable(t), Val::Opt(Some(y))) => prefix_spans(t, y, at, out),
        (Sch::Padded(t, n), v) => prefix_spans(t, v, at, out) + n,
        (Sch::VPadded(t, _), v) => prefix_spans(t, v, at, out),
        (Sch::Seq(t), Val::List(xs)) | (Sch::Fix(t, _), Val::List(xs)) | (Sch::Lim(t, _), Val::List(xs)) => {
            xs.iter().fold(at, |a, x| prefix_spans(t, x, a, out))
        }
        (Sch::Struct(fs), Val::List(xs)) => fs.iter().zip(xs).fold(at, |a, (f, x)| prefix_spans(f, x, a, out)),
        (Sch::Union(w, arms), Val::Union(t, x)) => {
            let arm = arms.iter().find(|a| a.0 == *t).expect("union arm");
            prefix_spans(&arm.1, x, at + *w as usize, out)
        }
        (Sch::Rec(f), v) => prefix_spans(&f(), v, at, out),
        (s, v) => at + encode(s, v).len(),
    }
}
