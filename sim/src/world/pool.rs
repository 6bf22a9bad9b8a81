//! World `pool` (C26): a server keeps received messages in buffers and serves byte ranges of them
//! to clients. Requests cross a link that flips bits of their operands, replaces them by hostile
//! words, duplicates, drops and reorders requests; the buffer's owner may drop the original after
//! handing out a copy, and the storage a message was copied from is scribbled over afterwards.
//! A request within the buffer must be answered with exactly the bytes at that place, any other
//! must be refused (by a panic the server contains) and leave every buffer as it was.
use super::util::*;
use crate::core::*;
use crate::ensure;
use crate::plan::{Plan, Step};
use crate::rng::Rng;
use std::borrow::Cow;
use std::hash::{Hash, Hasher};
use tedium::parse::buffer::{SliceBuffer, VecBuffer};
use tedium::parse::{byteparser::ByteParser, memoparser::MemoParser, sliceparser::SliceParser, Parser, TryIntoParser};
use tedium::HexString;

pub struct Pool;
const REQ: u16 = 0;
/// link faults: a[0] = which request, rest by kind
const FLIP: u16 = 20;
const HOSTILE: u16 = 21;
const DUP: u16 = 22;
const DROP: u16 = 23;
const SWAP: u16 = 24;
const OPS: usize = 14;

/// how a message came in
const FORMS: [&str; 13] = [
    "&[u8]", "Vec<u8>", "[u8; 5]", "&[u8; 16]", "HexString", "&str", "String", "&String", "Cow::Borrowed", "Cow::Owned", "[u8; 0]", "[u8; 33]", "clone",
];

fn text_of(m: &[u8]) -> (String, Vec<u8>) {
    // what the text stands for depends on the configuration
    if cfg!(feature = "implhex") {
        (m.iter().map(|b| format!("{b:02x}")).collect(), m.to_vec())
    } else {
        let t = String::from_utf8_lossy(m).into_owned();
        let b = t.as_bytes().to_vec();
        (t, b)
    }
}
#[cfg(feature = "implhex")]
macro_rules! of_text {
    ($t:ty, $e:expr) => {
        <$t>::try_from($e).expect("hex text")
    };
}
#[cfg(not(feature = "implhex"))]
macro_rules! of_text {
    ($t:ty, $e:expr) => {
        <$t>::from($e)
    };
}
/// the message in the given form, cut or filled to the form's length; what the buffer must hold
fn take_in(form: usize, m: &[u8]) -> (VecBuffer, Vec<u8>) {
    fn arr<const N: usize>(m: &[u8]) -> [u8; N] {
        let mut a = [0x5A; N];
        for (x, y) in a.iter_mut().zip(m) {
            *x = *y;
        }
        a
    }
    let mut store = m.to_vec();
    let (mut t, tb) = text_of(m);
    let out = match form {
        0 => (VecBuffer::from(store.as_slice()), m.to_vec()),
        1 => {
            let mut v = Vec::with_capacity(m.len() + 9);
            v.extend_from_slice(m);
            (VecBuffer::from(v), m.to_vec())
        }
        2 => (VecBuffer::from(arr::<5>(m)), arr::<5>(m).to_vec()),
        3 => (VecBuffer::from(&arr::<16>(m)), arr::<16>(m).to_vec()),
        4 => (VecBuffer::from(HexString::from(store.clone())), m.to_vec()),
        5 => (of_text!(VecBuffer, t.as_str()), tb),
        6 => (of_text!(VecBuffer, t.clone()), tb),
        #[cfg(not(feature = "implhex"))]
        7 => (VecBuffer::from(&t), tb),
        8 => (of_text!(VecBuffer, Cow::Borrowed(t.as_str())), tb),
        9 => (of_text!(VecBuffer, Cow::<str>::Owned(t.clone())), tb),
        10 => (VecBuffer::from([0u8; 0]), vec![]),
        11 => (VecBuffer::from(arr::<33>(m)), arr::<33>(m).to_vec()),
        _ => {
            let a = VecBuffer::from(store.as_slice());
            let b = a.clone();
            drop(a);
            (b, m.to_vec())
        }
    };
    // the incoming storage is reused
    store.fill(0xEE);
    t.clear();
    t.push_str("scribbled over");
    out
}
/// a parser made directly from the message's form (no array forms)
fn parser_of<'a, P>(form: usize, m: &'a [u8], t: &'a str, tb: &'a [u8]) -> Option<(P, &'a [u8])>
where
    P: Parser<Buffer = VecBuffer>,
{
    macro_rules! p {
        ($e:expr) => {
            match TryIntoParser::<P>::try_into_parser($e) {
                Ok(p) => p,
                Err(_) => return None,
            }
        };
    }
    Some(match form {
        0 | 2 | 3 | 10 | 11 => (p!(m), m),
        1 | 12 => (p!(m.to_vec()), m),
        4 => (p!(HexString::from(m)), m),
        5 => (p!(t), tb),
        6 => (p!(t.to_string()), tb),
        #[cfg(not(feature = "implhex"))]
        7 => {
            let s = t.to_string();
            (p!(&s), tb)
        }
        8 => (p!(Cow::Borrowed(t)), tb),
        _ => (p!(Cow::<str>::Owned(t.to_string())), tb),
    })
}
fn hash<T: Hash>(t: &T) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}
/// what was answered must be `want`, at `want`'s place; checked before any byte is read
fn same_place(got: &[u8], want: &[u8]) -> bool {
    got.len() == want.len() && (want.is_empty() || got.as_ptr() == want.as_ptr())
}
/// bytes read one by one (as an iterator) from a parser, with windows opened on the way
fn drain<P: Parser + Iterator<Item = u8>>(what: &str, p: P, want: &[u8], win: &[usize]) -> R {
    let mut p = p;
    ensure!(p.offset() == 0 && p.view_len() == want.len(), "length", "{what}: a fresh parser stands at {} of {}, the message has {} bytes", p.offset(), p.view_len(), want.len());
    let mut at = 0;
    for &w in win {
        let w = w % (want.len() - at + 1);
        ensure!(p.set_fit(w).is_ok(), "window", "{what}: a window of {w} refused with {} bytes left", want.len() - at);
        let got: Vec<u8> = p.by_ref().take(want.len() + 3).collect();
        ensure!(got == want[at..at + w], "bytes", "{what}: iterating a window of {w} at {at} yields {got:02x?}, the message has {:02x?}", &want[at..at + w]);
        ensure!(p.next().is_none() && p.next().is_none(), "bytes", "{what}: the iterator yields again after its end");
        ensure!(p.enforce_target().is_ok(), "window", "{what}: the drained window cannot be closed");
        at += w;
    }
    // one byte from the front, the rest afterwards
    let got: Vec<u8> = p.by_ref().take(1).chain(std::iter::empty()).collect();
    let n = got.len();
    ensure!(got == want[at..(at + 1).min(want.len())], "bytes", "{what}: the byte at {at} is read as {got:02x?}");
    let (lo, hi) = p.size_hint();
    let left = want.len() - at - n;
    ensure!(lo <= left && hi.map_or(true, |h| h >= left), "bytes", "{what}: {left} bytes left, size_hint says {:?}", (lo, hi));
    let got: Vec<u8> = p.by_ref().take(want.len() + 3).collect();
    ensure!(got == want[at + n..], "bytes", "{what}: iterating from {} yields {got:02x?}, the message has {:02x?}", at + n, &want[at + n..]);
    ensure!(p.next().is_none(), "bytes", "{what}: the iterator yields again after its end");
    Ok(())
}

impl World for Pool {
    fn name(&self) -> &'static str {
        "pool"
    }
    fn gen(&self, rng: &mut Rng, thorough: bool) -> Plan {
        let mut p = Plan::new(self.name());
        let n = match rng.below(8) {
            0 => 0,
            1..=4 => rng.range(1, 9) as usize,
            5 => rng.range(9, 40) as usize,
            6 => *rng.pick(&[15, 16, 17, 31, 32, 33, 63, 64, 65, 255, 256, 257]),
            _ => if rng.chance(1, 60) { scale8(rng) } else { scale(rng, 9) },
        };
        p.params = vec![rng.below(FORMS.len() as u64) as i64];
        p.data = rng.bytes(n);
        if rng.chance(1, 3) {
            // text whose characters take several bytes
            p.data = "a€ß𝟘é\0\u{feff}Z".chars().cycle().skip(rng.below(8) as usize).take(n / 3 + 1).collect::<String>().into_bytes();
        }
        let n = p.data.len() as i64;
        let reqs = rng.range(1, if thorough { 24 } else { 10 });
        for _ in 0..reqs {
            let ix = if rng.chance(1, 3) { *rng.pick(&[0, 1, n - 1, n, n + 1, n / 2]) } else { rng.range(0, (n + 2) as u64) as i64 };
            let len = if rng.chance(1, 2) { (n - ix + *rng.pick(&[-1i64, 0, 0, 0, 1])).max(0) } else { rng.range(0, (n + 2) as u64) as i64 };
            p.steps.push(Step::new(REQ, &[rng.below(OPS as u64) as i64, rng.below(6) as i64, ix.max(0), len]));
        }
        for _ in 0..rng.below(4) {
            let r = rng.below(reqs) as i64;
            p.steps.push(match rng.below(6) {
                0 | 1 => Step::new(FLIP, &[r, rng.below(2) as i64, rng.below(64) as i64]),
                2 | 3 => Step::new(HOSTILE, &[r, rng.below(8) as i64, rng.below(4) as i64]),
                4 => Step::new(DUP, &[r]),
                _ => Step::new(if rng.chance(1, 2) { DROP } else { SWAP }, &[r]),
            });
        }
        p
    }
    fn exec(&self, p: &Plan, cx: &mut Cx) -> R {
        let form = p.params.first().map_or(0, |&f| f as usize) % FORMS.len();
        let how = FORMS[form];
        let (v, want) = no_panic(&format!("buffering a {how}"), || take_in(form, &p.data))?;
        let want = want.as_slice();
        ensure!(v.len() == want.len() && v.is_empty() == want.is_empty(), "length", "a buffer made of {how} has {} bytes (is_empty: {}), the message {}", v.len(), v.is_empty(), want.len());
        let base = no_panic("the whole buffer", || v.get_slice(0, want.len()))?;
        ensure!(base.len() == want.len() && base == want, "bytes", "a buffer made of {how} holds {:02x?}, the message is {want:02x?}", base);
        cx.ev(1, form as u64 | bucket(want.len()) << 8);

        // what the link makes of the requests
        let mut reqs: Vec<(usize, usize, usize, usize)> = p.steps.iter().filter(|s| s.op == REQ).map(|s| (s.uarg(0) % OPS, s.uarg(1), s.arg(2) as usize, s.arg(3) as usize)).collect();
        let mut wire: Vec<(usize, usize, usize, usize)> = reqs.clone();
        let mut copies = vec![1usize; reqs.len()];
        for s in &p.steps {
            if reqs.is_empty() || s.op == REQ {
                continue;
            }
            let r = s.uarg(0) % reqs.len();
            match s.op {
                FLIP => {
                    let m = 1usize << (s.uarg(2) % 64);
                    if s.uarg(1) % 2 == 0 { wire[r].2 ^= m } else { wire[r].3 ^= m }
                    cx.fault("bit of an operand flipped");
                }
                HOSTILE => {
                    let k = s.uarg(2);
                    let x = wire[r].2;
                    match s.uarg(1) % 8 {
                        0 => wire[r].2 = usize::MAX - k,
                        1 => wire[r].3 = usize::MAX - k,
                        2 => wire[r].3 = 0usize.wrapping_sub(x).wrapping_add(k),
                        3 => wire[r] = (wire[r].0, wire[r].1, usize::MAX - k, k + 1),
                        4 => wire[r] = (wire[r].0, wire[r].1, 1 << 63, 1 << 63),
                        5 => wire[r].2 = isize::MAX as usize + k,
                        6 => wire[r].3 = u32::MAX as usize + 1 + k,
                        _ => wire[r].2 = want.len() + k,
                    }
                    cx.fault("operand replaced by a hostile word");
                }
                DUP => {
                    copies[r] += 1;
                    cx.fault("request duplicated");
                }
                DROP => {
                    copies[r] = 0;
                    cx.fault("request lost");
                }
                _ => {
                    let o = (r + 1) % wire.len();
                    wire.swap(r, o);
                    copies.swap(r, o);
                    cx.fault("requests reordered");
                }
            }
        }
        reqs = wire.into_iter().zip(copies).flat_map(|(r, c)| std::iter::repeat(r).take(c)).collect();

        // slices handed out, and where they lie in the message
        let whole = match form % 3 {
            0 => SliceBuffer::new(want),
            1 => SliceBuffer::from(want),
            _ => no_panic("From for SliceBuffer", || -> SliceBuffer { want.into() })?,
        };
        let mut open: Vec<(SliceBuffer, usize, usize)> = vec![(whole, 0, want.len())];
        let (t, tb) = text_of(&p.data);
        for (op, h, a, b) in reqs {
            let (sb, lo, hi) = open[h % open.len()];
            let n = hi - lo;
            let part = &want[lo..hi];
            let what = format!("request {op} ({a}, {b}) on {how} of {} bytes, slice {lo}..{hi}", want.len());
            let refused = |ok: bool| -> R {
                ensure!(!ok, "range-served", "{what}: served although it is outside the buffer");
                Ok(())
            };
            let outcome;
            match op {
                0 | 1 => {
                    let fits = a.checked_add(b).map_or(false, |e| e <= want.len());
                    match guarded(|| v.get_slice(a, b)) {
                        Ok(got) => {
                            if !fits {
                                refused(true)?;
                            }
                            ensure!(same_place(got, &base[a..a + b]), "bytes", "{what}: another range than asked for ({} bytes)", got.len());
                            cx.bytes(got);
                            outcome = 0;
                        }
                        Err(_) => {
                            ensure!(!fits, "range-refused", "{what}: refused although it is inside the buffer");
                            outcome = 1;
                        }
                    }
                }
                2 => match guarded(|| v.get_byte(a)) {
                    Ok(got) => {
                        if a >= want.len() {
                            refused(true)?;
                        }
                        ensure!(got == want[a], "bytes", "{what}: byte {got:02x}, the message has {:02x}", want[a]);
                        outcome = 0;
                    }
                    Err(_) => {
                        ensure!(a >= want.len(), "range-refused", "{what}: refused although it is inside the buffer");
                        outcome = 1;
                    }
                },
                3 | 4 => match guarded(|| sb.split(a)) {
                    Ok((l, r)) => {
                        if a > n {
                            refused(true)?;
                        }
                        ensure!(same_place(l.as_slice(), &part[..a]) && same_place(r.into_slice(), &part[a..]), "bytes", "{what}: split into {} and {} bytes, not at the place asked for", l.len(), r.len());
                        open.push((l, lo, lo + a));
                        open.push((r, lo + a, hi));
                        outcome = 0;
                    }
                    Err(_) => {
                        ensure!(a > n, "range-refused", "{what}: refused although it is inside the buffer");
                        outcome = 1;
                    }
                },
                5 | 6 => match guarded(|| sb.take(a)) {
                    Ok((l, r)) => {
                        if a > n {
                            refused(true)?;
                        }
                        ensure!(same_place(l, &part[..a]) && same_place(r.as_slice(), &part[a..]), "bytes", "{what}: took {} and left {} bytes, not at the place asked for", l.len(), r.len());
                        open.push((SliceBuffer::from(l), lo, lo + a));
                        open.push((r, lo + a, hi));
                        outcome = 0;
                    }
                    Err(_) => {
                        ensure!(a > n, "range-refused", "{what}: refused although it is inside the buffer");
                        outcome = 1;
                    }
                },
                7 => match no_panic(&what, || sb.cut_first())? {
                    None => {
                        ensure!(n == 0, "range-refused", "{what}: no first byte although it is not empty");
                        outcome = 1;
                    }
                    Some((f, r)) => {
                        if n == 0 {
                            refused(true)?;
                        }
                        ensure!(f == part[0] && same_place(r.as_slice(), &part[1..]), "bytes", "{what}: first byte {f:02x}, {} bytes left", r.len());
                        open.push((r, lo + 1, hi));
                        outcome = 0;
                    }
                },
                8 => {
                    ensure!(sb.len() == n && sb.is_empty() == (n == 0), "length", "{what}: len {} is_empty {}", sb.len(), sb.is_empty());
                    ensure!(v.len() == want.len() && v.is_empty() == want.is_empty(), "length", "{what}: len {} is_empty {}", v.len(), v.is_empty());
                    outcome = 0;
                }
                9 => {
                    // two buffers compare as their contents do
                    let (sc, l2, h2) = open[a % open.len()];
                    let other = &want[l2..h2];
                    ensure!((sb == sc) == (part == other) && sb.cmp(&sc) == part.cmp(other) && sb.partial_cmp(&sc) == part.partial_cmp(other), "compare", "{what}: against slice {l2}..{h2}: {:?}, the bytes say {:?}", sb.cmp(&sc), part.cmp(other));
                    ensure!(part != other || hash(&sb) == hash(&sc), "compare", "{what}: equal slices hash differently");
                    let (x, y) = (VecBuffer::from(part), VecBuffer::from(other));
                    ensure!((x == y) == (part == other) && x.cmp(&y) == part.cmp(other) && (part != other || hash(&x) == hash(&y)), "compare", "{what}: against slice {l2}..{h2}, buffered: {:?}, the bytes say {:?}", x.cmp(&y), part.cmp(other));
                    ensure!(format!("{x:?}") == format!("{part:?}"), "compare", "{what}: shown as {x:?}, the bytes are {part:?}");
                    outcome = part.cmp(other) as i8 as u64 & 3;
                }
                10 | 11 => {
                    let win = [a % (want.len() + 1), b % (want.len() + 1)];
                    let win = &win[..h % 3];
                    drain(&format!("{what}, ByteParser"), ByteParser::from_buffer(v.clone()), want, win)?;
                    drain(&format!("{what}, MemoParser"), MemoParser::from_buffer(v.clone()), want, win)?;
                    drain(&format!("{what}, SliceParser"), SliceParser::from_buffer(sb), part, win)?;
                    outcome = win.len() as u64;
                }
                12 => {
                    let w = format!("{what}, parser of it");
                    match no_panic(&w, || parser_of::<ByteParser>(form, &p.data, &t, &tb))? {
                        Some((q, m)) => drain(&w, q, m, &[b % (m.len() + 1)])?,
                        None => return viol("bytes", format!("{w}: refused")),
                    }
                    match no_panic(&w, || parser_of::<MemoParser>(form, &p.data, &t, &tb))? {
                        Some((q, m)) => drain(&w, q, m, &[])?,
                        None => return viol("bytes", format!("{w}: refused")),
                    }
                    match TryIntoParser::<SliceParser>::try_into_parser(part) {
                        Ok(q) => drain(&w, q, part, &[])?,
                        Err(_) => return viol("bytes", format!("{w}: refused")),
                    }
                    outcome = 0;
                }
                _ => {
                    const STATIC: &[u8] = b"a static message of some bytes";
                    let s = SliceBuffer::from_static(STATIC);
                    ensure!(s.as_slice() == STATIC && s.len() == STATIC.len(), "bytes", "{what}: a static buffer holds {:02x?}", s.as_slice());
                    let mut rest = s;
                    let mut seen = vec![];
                    while let Some((f, r)) = rest.cut_first() {
                        ensure!(seen.len() < STATIC.len(), "bytes", "{what}: more first bytes than the buffer has");
                        seen.push(f);
                        rest = r;
                    }
                    ensure!(seen == STATIC, "bytes", "{what}: cut byte by byte: {seen:02x?}");
                    outcome = 0;
                }
            }
            cx.ev(2 + op as u64, outcome);
            cx.count(if outcome == 1 && op < 8 { "requests refused" } else { "requests served" }, 1);
            // nothing served or refused changes a buffer
            ensure!(v.len() == want.len() && same_place(v.get_slice(0, want.len()), base) && base == want, "changed", "{what}: the buffer changed");
            for (s, lo, hi) in &open {
                ensure!(same_place(s.as_slice(), &want[*lo..*hi]), "changed", "{what}: slice {lo}..{hi} changed");
            }
            if open.len() > 12 {
                open.truncate(3);
            }
        }
        Ok(())
    }
}
