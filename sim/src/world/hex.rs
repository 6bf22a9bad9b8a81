//! World `hex` (C16): bytes cross a text channel as hexadecimal. The channel is a text medium: it
//! loses, repeats, substitutes and reorders characters, changes case, cuts lines, mixes messages
//! and replaces what is no longer text. Every receiving entry point is held to one strict reading.
use super::util::*;
use crate::core::*;
use crate::ensure;
use crate::plan::{Plan, Step};
use crate::rng::Rng;
use crate::types;
use std::borrow::Cow;
use std::io::Write as _;
use std::str::FromStr;
use tedium::{Builder, FixedBytes, HexString, MemoBuilder, StrictBuilder, Target};

pub struct Hex;

const LOSE: u16 = 20;
const DUPL: u16 = 21;
const INSERT: u16 = 22;
const SUBST: u16 = 23;
const CASE: u16 = 24;
const CUT: u16 = 25;
const REORDER: u16 = 26;
const RAWFLIP: u16 = 27;
const MIX: u16 = 28;
/// sender side: how the bytes are handed to the text end, one fragment per step
const FRAG: u16 = 30;
const NAMES: [&str; 9] = [
    "characters lost", "characters repeated", "characters inserted", "characters substituted", "case changed",
    "text cut", "characters reordered", "bit flip under the text", "two texts run together",
];
const NASTY: [&str; 44] = [
    "+", "-", " ", "\n", "\r\n", "\t", "0x", "0X", "\\x", "x", "g", "G", "/", ":", "@", "`", "\0", "_", "%", "#", "l", "O",
    "\u{660}", "\u{ff11}", "\u{ff21}", "\u{ff41}", "\u{feff}", "\u{200b}", "\u{a0}", "é", "ß", "€", "𝟘", "\u{10ffff}",
    "\u{b2}", "\u{130}", "a\u{301}", "\u{7f}", "\u{80}", "0", "F", "a", "9", "\u{1d7d8}",
];

/// the reference reading
fn read(text: &str) -> Option<Vec<u8>> {
    let d = |c: u8| match c {
        b'0'..=b'9' => Some(c - b'0'),
        b'a'..=b'f' => Some(c - b'a' + 10),
        b'A'..=b'F' => Some(c - b'A' + 10),
        _ => None,
    };
    let b = text.as_bytes();
    if b.len() % 2 != 0 {
        return None;
    }
    b.chunks(2).map(|p| Some(d(p[0])? << 4 | d(p[1])?)).collect()
}

fn send_fixed<const K: usize>(b: &[u8]) -> Option<String> {
    let a: [u8; K] = b.try_into().ok()?;
    Some(format!("{:x}", FixedBytes::<K>::from_array(a)))
}

impl World for Hex {
    fn name(&self) -> &'static str {
        "hex"
    }
    fn gen(&self, rng: &mut Rng, _thorough: bool) -> Plan {
        let mut p = Plan::new("hex");
        p.params = vec![rng.below(9) as i64, rng.below(1000) as i64];
        if rng.chance(1, 3) {
            p.steps.push(gen_msg(rng));
        } else {
            let n = match rng.below(8) {
                0 => 0,
                1..=4 => rng.range(1, 6),
                5 => *rng.pick(&[1, 4, 20, 32, 64]),
                6 => rng.range(6, 40),
                _ => rng.range(40, 300),
            };
            p.data = rng.bytes(n as usize);
            if rng.chance(1, 2) {
                for _ in 0..rng.below(5) {
                    p.steps.push(Step::new(FRAG, &[rng.below(7) as i64, rng.below(12) as i64]));
                }
            }
        }
        let faults = match rng.below(5) {
            0 => 0,
            1 | 2 => 1,
            3 => 2,
            _ => rng.range(2, 5),
        };
        let mut nasty = |rng: &mut Rng| {
            let n = rng.range(1, 2);
            (0..n).map(|_| *rng.pick(&NASTY)).collect::<String>().into_bytes()
        };
        for _ in 0..faults {
            let at = if rng.chance(1, 2) { rng.below(4) } else { rng.below(700) } as i64;
            let n = rng.range(1, 4) as i64;
            let s = match rng.weighted(&[3, 3, 5, 6, 4, 3, 2, 3, 2]) as u16 + LOSE {
                INSERT => Step::with(INSERT, &[at], nasty(rng)),
                SUBST => Step::with(SUBST, &[at, n], nasty(rng)),
                CUT => Step::new(CUT, &[rng.below(2) as i64, if rng.chance(1, 2) { n } else { at }]),
                RAWFLIP => Step::new(RAWFLIP, &[at, rng.below(8) as i64]),
                MIX => {
                    let k = rng.below(5) as usize;
                    Step::with(MIX, &[rng.below(3) as i64], rng.bytes(k))
                }
                CASE => Step::new(CASE, &[at, if rng.chance(1, 2) { 10_000 } else { n }, rng.below(3) as i64]),
                op => Step::new(op, &[at, n]),
            };
            p.steps.push(s);
        }
        p
    }
    fn exec(&self, p: &Plan, cx: &mut Cx) -> R {
        let m = p.steps.first().filter(|s| s.op == MSG).map(msg);
        let t = match &m {
            Some(m) => m.t,
            None => types::ty(p.upar(1)),
        };
        let bytes: Vec<u8> = match &m {
            Some(m) => m.bytes.clone(),
            None => p.data.clone(),
        };
        // ---- the sending end
        let (hs, sb, mb) = no_panic("handing the bytes over", || {
            let (mut hs, mut sb, mut mb) = (HexString::new(), StrictBuilder::create(), MemoBuilder::create());
            if let Some(m) = &m {
                (m.t.put)(&m.val, &mut hs);
                (m.t.put)(&m.val, &mut sb);
                (m.t.put)(&m.val, &mut mb);
            } else {
                let mut rest = &bytes[..];
                for s in p.steps.iter().filter(|s| s.op == FRAG) {
                    let k = s.uarg(1).min(rest.len());
                    let (x, y) = rest.split_at(k);
                    rest = y;
                    match s.arg(0) {
                        0 => hs.extend(x.iter()),
                        1 => hs.extend(x.to_vec()),
                        2 => hs.write_all(x).expect("harness: write"),
                        3 => x.iter().for_each(|b| {
                            hs.push_one(*b);
                        }),
                        4 => hs.as_mut_vec().extend_from_slice(x),
                        5 => hs = hs.iter().copied().chain(x.iter().copied()).collect(),
                        _ => {
                            hs.push_all(x);
                        }
                    }
                    sb.push_all(x);
                    mb.push_all(x);
                    mb.resolve();
                }
                hs.push_all(rest);
                sb.push_all(rest);
                mb.push_all(rest);
            }
            (hs, sb, mb)
        })?;
        // what targets hold is C07's business
        if hs.as_bytes() != bytes || hs.len() != bytes.len() {
            return if m.is_some() { Ok(()) } else { viol("hex-bytes", format!("HexString given {} holds {}", short(&bytes), short(hs.as_bytes()))) };
        }
        let way = p.upar(0) % 9;
        let mut text = no_panic("rendering hex", || match way {
            0 => hs.to_hex(),
            1 => format!("{hs}"),
            2 => sb.into_hex(),
            3 => mb.into_hex(),
            4 => StrictBuilder::from(&bytes[..]).into_hex(),
            5 => HexString::from(&bytes[..]).to_hex(),
            6 => HexString::clone_from_bytes(&bytes).to_hex(),
            7 => send_fixed::<1>(&bytes)
                .or(send_fixed::<4>(&bytes))
                .or(send_fixed::<20>(&bytes))
                .or(send_fixed::<0>(&bytes))
                .unwrap_or_else(|| hs.to_string()),
            _ => HexString::from_iter(bytes.iter()).to_hex(),
        })?;
        cx.ev(1, (way as u64) << 4 | bucket(bytes.len()));
        if way != 2 && way != 3 || m.is_none() {
            ensure!(read(&text).as_deref() == Some(&bytes[..]), "hex-render", "way {way}: bytes {} are rendered as {text:?}", short(&bytes));
        } else if read(&text).as_deref() != Some(&bytes[..]) {
            return Ok(());
        }
        // ---- the medium
        let mut intact = true;
        for s in &p.steps {
            let mut c: Vec<char> = text.chars().collect();
            let n = c.len();
            let at = s.uarg(0) % (n + 1);
            let e = (at + s.uarg(1)).min(n);
            let ins: Vec<char> = String::from_utf8_lossy(&s.b).chars().collect();
            match s.op {
                LOSE => {
                    c.drain(at..e);
                }
                DUPL => {
                    let x = c[at..e].to_vec();
                    c.splice(e..e, x);
                }
                INSERT => {
                    c.splice(at..at, ins);
                }
                SUBST => {
                    c.splice(at..e, ins);
                }
                CASE => {
                    for (i, x) in c[at..e].iter_mut().enumerate() {
                        match s.arg(2) {
                            0 => x.make_ascii_uppercase(),
                            1 => x.make_ascii_lowercase(),
                            _ if i % 2 == 0 => x.make_ascii_uppercase(),
                            _ => {}
                        }
                    }
                }
                CUT => {
                    let k = s.uarg(1) % (n + 1);
                    c.truncate(if s.arg(0) == 0 { n - k } else { k });
                }
                REORDER => {
                    let k = (e - at) / 2;
                    c[at..e].rotate_left(k);
                }
                RAWFLIP if !text.is_empty() => {
                    let mut b = text.clone().into_bytes();
                    let k = s.uarg(0) % b.len();
                    b[k] ^= 1 << (s.uarg(1) % 8);
                    c = String::from_utf8_lossy(&b).chars().collect();
                }
                MIX => {
                    let x = crate::plan::hex(&s.b);
                    let x = match s.arg(0) {
                        0 => x,
                        1 => x.to_uppercase(),
                        _ => format!("0x{x}"),
                    };
                    c.extend(x.chars());
                }
                _ => continue,
            }
            text = c.into_iter().collect();
            intact = false;
            cx.fault(NAMES[(s.op - LOSE) as usize]);
            cx.sig.u(s.op as u64);
        }
        // ---- the receiving end
        let want = read(&text);
        cx.ev(2, (want.is_some() as u64) << 1 | intact as u64);
        cx.bytes(text.as_bytes());
        cx.say(|| format!("sent {} as text, received {text:?}, which spells {:?}", short(&bytes), want.as_ref().map(|b| short(b))));
        let owned = text.clone();
        type Entry = fn(&str) -> Result<HexString, String>;
        fn st<T>(r: Result<T, tedium::error::HexConvError>) -> Result<T, String> {
            r.map_err(|e| format!("{e} {e:?}"))
        }
        let entries: [(&str, Entry); 10] = [
            ("from_hex(&str)", |s| st(HexString::from_hex(s))),
            ("from_hex(String)", |s| st(HexString::from_hex(s.to_string()))),
            ("TryFrom<&str>", |s| st(HexString::try_from(s))),
            ("TryFrom<String>", |s| st(HexString::try_from(s.to_string()))),
            ("TryFrom<Box<str>>", |s| st(HexString::try_from(Box::<str>::from(s)))),
            ("TryFrom<Rc<str>>", |s| st(HexString::try_from(std::rc::Rc::<str>::from(s)))),
            ("TryFrom<Arc<str>>", |s| st(HexString::try_from(std::sync::Arc::<str>::from(s)))),
            ("TryFrom<Cow<str>> borrowed", |s| st(HexString::try_from(Cow::Borrowed(s)))),
            ("TryFrom<Cow<str>> owned", |s| st(HexString::try_from(Cow::<str>::Owned(s.to_string())))),
            ("FromStr", |s| st(HexString::from_str(s))),
        ];
        for (name, f) in entries {
            let got = no_panic(name, || f(&text))?;
            match (&got, &want) {
                (Ok(h), Some(w)) => ensure!(h.as_bytes() == w, "hex-bytes", "{name} of {text:?} gives {} instead of {}", short(h.as_bytes()), short(w)),
                (Err(_), None) => {}
                (Ok(h), None) => return viol("hex-accepts", format!("{name} accepts {text:?} as {}", short(h.as_bytes()))),
                (Err(e), Some(_)) => return viol("hex-rejects", format!("{name} rejects {text:?}: {e}")),
            }
        }
        match (guarded(|| tedium::hex!(&text)), &want) {
            (Ok(h), Some(w)) => ensure!(h.as_bytes() == w, "hex-bytes", "hex! of {text:?} gives {}", short(h.as_bytes())),
            (Err(_), None) => {}
            (Ok(h), None) => return viol("hex-accepts", format!("hex! accepts {text:?} as {}", short(h.as_bytes()))),
            (Err(_), Some(_)) => return viol("hex-rejects", format!("hex! rejects {text:?}")),
        }
        // ---- comparing with the text is comparing with what it spells
        let mut near = vec![hs, HexString::new()];
        if let Some(w) = &want {
            near.push(HexString::from_vec(w.clone()));
            for k in [0, w.len() / 2, w.len().saturating_sub(1)] {
                if k < w.len() {
                    let mut x = w.clone();
                    x[k] ^= 1 << (k % 8);
                    near.push(HexString::from_vec(x));
                }
            }
            near.push(HexString::from_vec(w.iter().copied().chain([0]).collect()));
            near.push(HexString::from_vec(w[..w.len().saturating_sub(1)].to_vec()));
        } else {
            // as many bytes as the text has pairs, with what the valid pairs spell
            let b = text.as_bytes();
            let x: Vec<u8> = b.chunks(2).map(|p| std::str::from_utf8(p).ok().and_then(read).and_then(|v| v.first().copied()).unwrap_or(0)).collect();
            near.push(HexString::from_vec(x));
        }
        for h in &near {
            let should = want.as_deref() == Some(h.as_bytes());
            let r: &str = &text;
            let cow: Cow<str> = Cow::Borrowed(r);
            let all = no_panic("comparing with text", || {
                [
                    h.eq_hex(r),
                    h.eq_hex(&owned),
                    *h == r,
                    r == *h,
                    *h == owned,
                    owned == *h,
                    *h == cow,
                    cow == *h,
                ]
            })?;
            ensure!(all == [should; 8], "hex-compare", "comparing {} with {text:?}: {all:?}, expected {should}", short(h.as_bytes()));
        }
        // ---- decoding a message straight from the text
        for way in 0..3u8 {
            let got = match guarded(|| (t.try_text)(way, &text)) {
                Ok(g) => g,
                Err(Caught::Panic(_)) if m.is_none() || !intact => {
                    // a decoder's own panic on damaged bytes is C04's business, unless the bytes themselves decode
                    let b = if cfg!(feature = "implhex") { want.clone() } else { Some(text.clone().into_bytes()) };
                    match b {
                        Some(b) if guarded(|| (t.try_decode)(0, &b)).is_err() => continue,
                        _ => return viol("panic", format!("{}: decoding from the text {text:?} (way {way}) panicked", t.name)),
                    }
                }
                Err(_) => return viol("panic", format!("{}: decoding from the text {text:?} (way {way}) panicked", t.name)),
            };
            let direct = if cfg!(feature = "implhex") {
                match &want {
                    None => {
                        ensure!(got.is_err(), "hex-accepts", "{}: decoding from the malformed text {text:?} (way {way}) gives {got:?}", t.name);
                        continue;
                    }
                    Some(w) => guarded(|| (t.try_decode)(0, w)),
                }
            } else {
                guarded(|| (t.try_decode)(0, text.as_bytes()))
            };
            let Ok(direct) = direct else { continue };
            ensure!(
                got.is_ok() == direct.is_ok() && (got.is_err() || got == direct),
                "hex-decode",
                "{}: decoding from the text {text:?} (way {way}) gives {}, decoding the bytes gives {}",
                t.name,
                shortv(&got),
                shortv(&direct)
            );
        }
        Ok(())
    }
}
