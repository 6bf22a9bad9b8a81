//! Messages as plan steps: a[0] = type, a[1] = size budget, b = choice stream.
use crate::core::*;
use crate::plan::Step;
use crate::refcodec::{self as rc, Sch, Val};
use crate::rng::{Choices, Rng};
use crate::simparser::{Cfg, Kind, SimParser};
use crate::types::{self, TypeOps};
use std::sync::OnceLock;

pub const MSG: u16 = 0;
pub struct Msg {
    pub t: &'static TypeOps,
    pub sch: Sch,
    pub val: Val,
    /// the reference encoding
    pub bytes: Vec<u8>,
}
pub fn msg_of(t: &'static TypeOps, budget: usize, choices: &[u8]) -> Msg {
    let sch = (t.sch)();
    let val = rc::gen(&sch, &mut Choices::new(choices), budget, 0);
    let bytes = rc::encode(&sch, &val);
    Msg { t, sch, val, bytes }
}
/// types whose values carry their own end and occupy at least one byte
pub fn framed_types() -> &'static [usize] {
    static L: OnceLock<Vec<usize>> = OnceLock::new();
    L.get_or_init(|| {
        (0..types::all().len())
            .filter(|&i| {
                let s = (types::ty(i).sch)();
                rc::self_delimiting(&s) && rc::min_len(&s) > 0
            })
            .collect()
    })
}
/// sizes at which implementations like to change their ways: around powers of two
pub fn scale(rng: &mut Rng, top: u32) -> usize {
    let e = rng.range(5, top as u64);
    ((1usize << e) as i64 + *rng.pick(&[-2i64, -1, 0, 0, 1, 2, 7])) as usize
}
/// mostly below a page, sometimes beyond 64 KiB
pub fn scale8(rng: &mut Rng) -> usize {
    let top = if rng.chance(1, 8) { 17 } else { 12 };
    scale(rng, top)
}
pub fn budget(rng: &mut Rng) -> i64 {
    if rng.chance(1, 2000) {
        return *rng.pick(&[16_500, 33_000, 66_000]);
    }
    match rng.below(25) {
        0..=3 => rng.range(0, 8) as i64,
        4..=16 => rng.range(8, 60) as i64,
        17..=22 => 300,
        _ => 4000,
    }
}
pub fn gen_msg(rng: &mut Rng) -> Step {
    let t = rng.below(types::all().len() as u64) as i64;
    gen_msg_t(rng, t)
}
pub fn gen_msg_t(rng: &mut Rng, t: i64) -> Step {
    let b = budget(rng);
    // sometimes a short stream, so that simple values are common too
    let n = match rng.below(6) {
        0 => rng.below(8),
        1..=4 => 12 + (b as u64).min(80),
        _ => 250,
    };
    Step::with(MSG, &[t, b], rng.bytes(n as usize))
}
pub fn msg(s: &Step) -> Msg {
    msg_of(types::ty(s.uarg(0)), s.uarg(1).min(70_000), &s.b)
}
/// a message of a self-delimiting type
pub fn framed_msg(s: &Step) -> Msg {
    let l = framed_types();
    msg_of(types::ty(l[s.uarg(0) % l.len()]), s.uarg(1).min(70_000), &s.b)
}
/// how many parser operations decoding `len` bytes may take
pub fn op_budget(len: usize) -> u64 {
    400 + 96 * (len as u64 + 1)
}
pub fn ref_dec(sch: &Sch, b: &[u8]) -> Result<(Val, usize), ()> {
    let mut c = rc::Cur::new(b);
    let v = rc::dec(sch, &mut c)?;
    Ok((v, c.pos))
}
pub struct SimDec {
    pub res: Result<Val, String>,
    pub consumed: usize,
    pub depth: u64,
    pub ops: u64,
    pub max_depth: u64,
}
/// decode behind the simulated input seam, under an operation budget
pub fn sim_dec(t: &TypeOps, b: &[u8], kind: Kind) -> Result<SimDec, Caught> {
    guarded(|| {
        let mut p = SimParser::with(b, Cfg { kind, budget: op_budget(b.len()), ..Default::default() });
        let res = (t.parse_sim)(&mut p).map_err(|e| format!("{e:?}"));
        SimDec { res, consumed: p.consumed, depth: p.depth(), ops: p.ops, max_depth: p.max_depth }
    })
}
pub fn short(b: &[u8]) -> String {
    if b.len() <= 48 {
        crate::plan::hex(b)
    } else {
        format!("{}..({} bytes)", crate::plan::hex(&b[..48]), b.len())
    }
}
pub fn shortv(v: &impl std::fmt::Debug) -> String {
    let s = format!("{v:?}");
    if s.len() > 300 {
        let mut e = 300;
        while !s.is_char_boundary(e) {
            e -= 1;
        }
        format!("{}..", &s[..e])
    } else {
        s
    }
}

// ---- damage in transit and at rest ---------------------------------------------------------
pub const FLIP: u16 = 1;
pub const SET: u16 = 2;
pub const TRUNC: u16 = 3;
pub const DEL: u16 = 4;
pub const DUP: u16 = 5;
pub const INS: u16 = 6;
pub const SWAP: u16 = 7;
pub const APPEND: u16 = 8;
pub const SPLICE: u16 = 9;
pub const HUGE: u16 = 10;
pub const FILL: u16 = 11;
pub const RESEND: u16 = 12;
pub const DAMAGE: [&str; 13] = [
    "", "bit flip", "byte overwritten", "truncation", "range lost", "range duplicated", "bytes inserted",
    "ranges reordered", "bytes appended", "spliced with another message", "huge announced length", "range blanked",
    "misaddressed to another type",
];
const HUGES: [u32; 12] = [
    0xffff_ffff, 0x3fff_ffff, 0x4000_0000, 0x7fff_ffff, 0x8000_0000, 0x0100_0000, 0x0001_0000, 0xffff, 0x10, 5, 1, 0,
];
pub fn damage_weights() -> [u32; 13] {
    [0, 8, 5, 4, 3, 3, 3, 1, 2, 2, 4, 3, 1]
}
pub fn gen_damage(rng: &mut Rng, w: &[u32]) -> Step {
    let op = rng.weighted(w) as u16;
    // positions early in the message (tags, prefixes) matter most
    let pos = match rng.below(3) {
        0 => rng.below(4),
        1 => rng.below(40),
        _ => rng.below(5000),
    } as i64;
    match op {
        FLIP => Step::new(op, &[pos, rng.below(8) as i64]),
        SET => Step::new(op, &[pos, *rng.pick(&[0, 1, 2, 0x40, 0x7f, 0x80, 0xc0, 0xfe, 0xff])]),
        TRUNC => Step::new(op, &[rng.chance(1, 2) as i64, if rng.chance(1, 2) { rng.below(6) as i64 } else { pos }]),
        DEL | DUP | FILL => Step::new(op, &[pos, 1 + rng.below(8) as i64, *rng.pick(&[0, 0xff, 0x80])]),
        INS | APPEND => {
            let n = 1 + rng.below(6) as usize;
            let b = if rng.chance(1, 2) { rng.bytes(n) } else { vec![*rng.pick(&[0u8, 0xff, 0x80, 1]); n] };
            Step::with(op, &[pos], b)
        }
        SWAP => Step::new(op, &[pos, rng.below(40) as i64, 1 + rng.below(8) as i64]),
        SPLICE => {
            let n = 10 + rng.below(50) as usize;
            Step::with(op, &[pos, rng.below(types::all().len() as u64) as i64, rng.below(60) as i64], rng.bytes(n))
        }
        HUGE => Step::new(op, &[pos, rng.below(HUGES.len() as u64) as i64, rng.below(3) as i64]),
        RESEND => Step::new(op, &[rng.below(types::all().len() as u64) as i64]),
        _ => Step::new(op, &[]),
    }
}
/// apply one damage step to bytes in transit
pub fn damage(d: &mut Vec<u8>, s: &Step, cx: &mut Cx) {
    let n = d.len();
    if s.op as usize >= DAMAGE.len() || s.op == MSG {
        return;
    }
    let at = s.uarg(0) % (n + 1);
    match s.op {
        FLIP if n > 0 => d[s.uarg(0) % n] ^= 1 << (s.uarg(1) % 8),
        SET if n > 0 => d[s.uarg(0) % n] = s.arg(1) as u8,
        TRUNC => {
            let k = s.uarg(1) % (n + 1);
            d.truncate(if s.arg(0) == 0 { n - k } else { k });
        }
        DEL => {
            let e = (at + s.uarg(1)).min(n);
            d.drain(at..e);
        }
        DUP => {
            let e = (at + s.uarg(1)).min(n);
            let c = d[at..e].to_vec();
            d.splice(e..e, c);
        }
        FILL => {
            let e = (at + s.uarg(1)).min(n);
            for x in &mut d[at..e] {
                *x = s.arg(2) as u8;
            }
        }
        INS => {
            d.splice(at..at, s.b.iter().copied());
        }
        APPEND => d.extend_from_slice(&s.b),
        SWAP => {
            let m = (at + s.uarg(1)).min(n);
            let e = (m + s.uarg(2)).min(n);
            d[at..e].rotate_left(m - at);
        }
        SPLICE => {
            let o = msg_of(types::ty(s.uarg(1)), s.uarg(2), &s.b);
            d.truncate(at);
            let k = if at % 2 == 0 { 0 } else { at.min(o.bytes.len()) };
            d.extend_from_slice(&o.bytes[k..]);
        }
        HUGE => {
            let v = HUGES[s.uarg(1) % HUGES.len()];
            let w = [1usize, 2, 4][s.uarg(2) % 3];
            let b = v.to_be_bytes();
            for (i, x) in b[4 - w..].iter().enumerate() {
                if at + i < n {
                    d[at + i] = *x;
                }
            }
        }
        _ => return,
    }
    d.truncate(80_000);
    cx.fault(DAMAGE[s.op as usize]);
    cx.sig.u(s.op as u64);
}
