//! World `lengths` (C08): what is announced before writing (estimates, known lengths, prefixes)
//! against what reaches the medium; payloads at and beyond the limits of their prefix.
use super::util::*;
use crate::core::*;
use crate::ensure;
use crate::plan::{Plan, Step};
use crate::refcodec::{self as rc, Val};
use crate::rng::Rng;
use crate::simparser::{Cfg, SimParser};
use crate::simtarget::SimTarget;
use crate::types::{self, Est, Tgt, PREFS};
use tedium::conv::EncodeLength;
use tedium::dynamic::LenPref;
use tedium::{u30, Dynamic, Encode, Estimable, FixSeq, Target};

pub struct Lengths;
/// a payload of a chosen length, without content
const BLOB: u16 = 20;
/// a virtual payload too large to hold
const HUGE: u16 = 21;
/// a fixed-count sequence that is not full
const LEAN: u16 = 22;

/// wrappers around payloads that do not carry their own end
const LOOSE: u16 = 23;

/// a message whose body is never materialised
#[derive(Clone, Debug)]
struct Virtual(usize);
const CHUNK: [u8; 1 << 16] = [0x5a; 1 << 16];
impl Encode for Virtual {
    fn write_to<U: Target>(&self, buf: &mut U) -> usize {
        let mut left = self.0;
        while left > 0 {
            let k = left.min(CHUNK.len());
            left -= buf.push_all(&CHUNK[..k]);
        }
        self.0
    }
}
impl Estimable for Virtual {
    const KNOWN: Option<usize> = None;
    fn unknown(&self) -> usize {
        self.0
    }
}
/// a pipe that keeps the first bytes and counts the rest
#[derive(Default)]
struct Pipe {
    head: Vec<u8>,
    n: usize,
}
impl Pipe {
    fn put(&mut self, b: &[u8]) -> usize {
        let k = (8 - self.head.len().min(8)).min(b.len());
        self.head.extend_from_slice(&b[..k]);
        self.n += b.len();
        b.len()
    }
}
impl Target for Pipe {
    fn anticipate(&mut self, _: usize) {}
    fn create() -> Self {
        Self::default()
    }
    fn push_one(&mut self, b: u8) -> usize {
        self.put(&[b])
    }
    fn push_many<const N: usize>(&mut self, arr: [u8; N]) -> usize {
        self.put(&arr)
    }
    fn push_all(&mut self, buf: &[u8]) -> usize {
        self.put(buf)
    }
}
fn huge<S: LenPref>(n: usize, limit: usize, cx: &mut Cx) -> R {
    let d = <Dynamic<S, Virtual>>::new(Virtual(n));
    let p = no_panic("length_prefix", || d.length_prefix().map(|x| x.into()))?;
    let w = S::LEN;
    let mut out = Pipe::default();
    let r = guarded(|| d.write_to(&mut out));
    cx.ev(9, (n > limit) as u64);
    if n > limit {
        cx.fault("payload beyond its prefix");
        ensure!(p.is_err(), "oversize", "a payload of {n} bytes gets the {w}-byte prefix {}", p.unwrap());
        ensure!(matches!(r, Err(Caught::Panic(_))) && out.n == 0, "oversize", "a payload of {n} bytes behind a {w}-byte prefix: {} bytes written, refused: {}", out.n, r.is_err());
    } else {
        ensure!(p.is_ok_and(|p| p == n), "prefix", "a payload of {n} bytes behind a {w}-byte prefix is not announced as such");
        let got = match r {
            Ok(g) => g,
            Err(_) => return viol("oversize", format!("a payload of {n} bytes behind a {w}-byte prefix is refused")),
        };
        let e = no_panic("enc_len", || (d.enc_len(), d.estimate()))?;
        ensure!(e == (w + n, w + n), "announced", "a payload of {n} bytes behind a {w}-byte prefix: (enc_len, estimate) {e:?}");
        ensure!(out.n == n + w && got == n + w, "prefix", "a payload of {n} bytes: {} bytes written, {got} reported", out.n);
        let v = out.head[..w].iter().fold(0usize, |a, b| a << 8 | *b as usize);
        ensure!(v == n, "prefix", "a payload of {n} bytes is prefixed with {v}");
    }
    Ok(())
}
fn check_est(what: &str, e: &Est, written: usize) -> R {
    if let Some(k) = e.known {
        ensure!(k == written, "announced", "{what}: statically known as {k} bytes, {written} are written");
    }
    ensure!(e.estimate == written, "announced", "{what}: estimated at {} bytes, {written} are written", e.estimate);
    ensure!(e.enc_len == written, "announced", "{what}: enc_len {} bytes, {written} are written", e.enc_len);
    Ok(())
}
fn lean<const K: usize>(n: usize, pre: u8, cx: &mut Cx) -> R {
    use tedium::Bytes;
    let v: Vec<Dynamic<u8, Bytes>> = (0..n.min(K)).map(|i| Dynamic::new(Bytes::from(vec![i as u8; i + 1]))).collect();
    let full = v.len() == K;
    let s: FixSeq<Dynamic<u8, Bytes>, K> = match guarded(|| FixSeq::try_from(v)) {
        Ok(Ok(s)) => s,
        // C15's business
        _ => return Ok(()),
    };
    cx.ev(8, full as u64);
    let mut t = SimTarget { out: vec![pre], ..Default::default() };
    let r = guarded(|| s.write_to(&mut t));
    if full {
        let n = match r {
            Ok(n) => n,
            Err(_) => return viol("announced", format!("a full FixSeq of {K} is not written")),
        };
        ensure!(n == t.out.len() - 1 && s.estimate() == n, "announced", "FixSeq of {K}: {} written, {n} reported, {} estimated", t.out.len() - 1, s.estimate());
    } else {
        cx.fault("message with too few elements");
        ensure!(r.is_err() && t.out.len() == 1, "oversize", "a FixSeq of {K} holding {} elements: refused: {}, {} bytes written", n.min(K), r.is_err(), t.out.len() - 1);
    }
    Ok(())
}
fn loose_one<T: Encode + Estimable>(what: &str, t: T, pre: usize) -> R {
    let mut tgt = SimTarget { out: vec![0xAA; pre], ..Default::default() };
    let got = no_panic(what, || t.write_to(&mut tgt))?;
    let n = tgt.out.len() - pre;
    ensure!(got == n, "announced", "{what}: {got} bytes reported, {n} written");
    let (e, l) = no_panic(what, || (t.estimate(), t.enc_len()))?;
    check_est(what, &Est { known: T::KNOWN, estimate: e, enc_len: l }, n)?;
    let d: Dynamic<u16, T> = Dynamic::new(t);
    let p = no_panic(what, || d.length_prefix().map(usize::from))?;
    ensure!(matches!(p, Ok(p) if p == n), "prefix", "{what}: {n} bytes are announced by the prefix {p:?}");
    let b = no_panic(what, || d.to_bytes())?;
    ensure!(b.len() == n + 2 && b[2..] == tgt.out[pre..] && (b[0] as usize) << 8 | b[1] as usize == n, "prefix", "{what}: {n} bytes, behind a prefix {}", short(&b));
    Ok(())
}
/// the payload under every wrapper, and some wrappers under others
fn loose_all<T: Encode + Estimable + Clone + std::fmt::Debug>(n: &str, t: &T, pre: usize, cx: &mut Cx) -> R {
    #[allow(unused)]
    use tedium::{AutoBox, Padded, VPadded};
    macro_rules! go {
        ($($w:literal => $e:expr),* $(,)?) => { $( loose_one(&format!(concat!($w, " of {}"), n), $e, pre)?; cx.ev(10, 0); )* };
    }
    go! {
        "plain" => t.clone(),
        "VPadded<_, 0>" => VPadded::<T, 0>::new(t.clone()),
        "VPadded<_, 4>" => VPadded::<T, 4>::new(t.clone()),
        "Option" => Some(t.clone()),
        "AutoBox" => AutoBox::<T>::new(t.clone()),
        "None" => None::<T>,
    }
    // padding behind a varying payload is a configuration of its own
    #[cfg(feature = "relaxpad")]
    go! {
        "Padded<_, 0>" => Padded::<T, 0>::new(t.clone()),
        "Padded<_, 1>" => Padded::<T, 1>::new(t.clone()),
        "Padded<_, 9>" => Padded::<T, 9>::new(t.clone()),
        "Dynamic<u8, Padded<_, 2>>" => Dynamic::<u8, Padded<T, 2>>::new(Padded::new(t.clone())),
        "Padded<Option, 3>" => Padded::<Option<T>, 3>::new(Padded::<Option<T>, 3>::new(Some(t.clone())).into_inner()),
        "Padded<Padded<_, 2>, 1>" => Padded::<Padded<T, 2>, 1>::new(Padded::new(t.clone())),
        "VPadded<Padded<_, 2>, 1>" => VPadded::<Padded<T, 2>, 1>::new(Padded::new(t.clone())),
        "Padded<VPadded<_, 2>, 1>" => Padded::<VPadded<T, 2>, 1>::new(VPadded::new(t.clone())),
        "Option<Padded<Dynamic<u8, _>, 2>>" => Some(Padded::<Dynamic<u8, T>, 2>::new(Dynamic::new(t.clone()))),
        "AutoBox<Padded<_, 5>>" => AutoBox::<Padded<T, 5>>::new(Padded::new(t.clone())),
        "Padded<None, 1>" => Padded::<Option<T>, 1>::new(None),
    }
    Ok(())
}
fn loose(form: usize, n: usize, b: u8, pre: usize, cx: &mut Cx) -> R {
    use tedium::{Bytes, LimSeq, Sequence};
    let what = |k: &str| format!("{k} with {n}");
    match form % 8 {
        0 => loose_all(&what("Bytes"), &Bytes::from(vec![b; n]), pre, cx),
        1 => loose_all(&what("Vec<u8>"), &vec![b; n], pre, cx),
        2 => loose_all(&what("String"), &"é".repeat(n), pre, cx),
        3 => loose_all(&what("Sequence<u16>"), &(0..n as u16).collect::<Sequence<u16>>(), pre, cx),
        4 => loose_all(&what("Sequence<Dynamic<u8, Bytes>>"), &(0..n).map(|i| Dynamic::<u8, Bytes>::new(Bytes::from(vec![b; i % 5]))).collect::<Sequence<_>>(), pre, cx),
        5 => loose_all(&what("LimSeq<Option<u8>, 9>"), &LimSeq::<Option<u8>, 9>::try_from((0..n % 10).map(|i| (i % 3 > 0).then_some(b)).collect::<Vec<_>>()).map_err(|_| Viol { class: "announced".into(), detail: "a LimSeq within its limit is refused".into() })?, pre, cx),
        6 => loose_all(&what("[Bytes]"), &FixSeq::<VPadded2, 1>::try_from(vec![tedium::VPadded::new(Bytes::from(vec![b; n]))]).map_err(|_| Viol { class: "announced".into(), detail: "a full FixSeq is refused".into() })?, pre, cx),
        _ => loose_all(&what("unit-like Sequence<Bytes>"), &(0..n % 4).map(|i| Bytes::from(vec![b; i * (n / 4)])).collect::<Sequence<Bytes>>(), pre, cx),
    }
}
type VPadded2 = tedium::VPadded<tedium::Bytes, 2>;
/// blobs of exactly `n` bytes
fn blob(name: &str, n: usize, fill: u8) -> Option<Val> {
    Some(match name {
        "Bytes" | "Vec<u8>" => Val::Bytes(vec![fill; n]),
        "String" => Val::Str(String::from_utf8(vec![fill & 0x7f; n]).unwrap()),
        "Sequence<u8>" => Val::List(vec![Val::U(fill as u64); n]),
        "Sequence<i32>" => Val::List(vec![Val::I(fill as i64); n / 4]),
        "Sequence<Option<u8>>" => Val::List((0..n / 2).map(|_| Val::Opt(Some(Box::new(Val::U(fill as u64))))).chain((0..n % 2).map(|_| Val::Opt(None))).collect()),
        "Sequence<N>" => Val::List(vec![Val::Big(false, if fill % 3 == 0 { vec![] } else { vec![fill % 127 + 1] }); n]),
        _ => return None,
    })
}
fn blob_types() -> Vec<usize> {
    (0..types::all().len()).filter(|&i| blob(&types::ty(i).name.replace(' ', ""), 0, 1).is_some()).collect()
}
impl Lengths {
    fn value(&self, m: &Msg, what: &str, s: &Step, cx: &mut Cx) -> R {
        let t = m.t;
        let sat = rc::fits(&m.sch, &m.val);
        let mut out = SimTarget::default();
        if sat {
            let o = match guarded(|| (t.encode)(&m.val, Tgt::Sim, &[], SimTarget::default())) {
                Ok(o) => o,
                Err(Caught::Panic(e)) => return viol("announced", format!("{what}: a payload within every limit is refused: {e}")),
                Err(_) => return viol("harness", "unwind"),
            };
            out = o.sim.unwrap();
            let n = out.out.len();
            ensure!(o.count == Some(n), "announced", "{what}: {:?} bytes reported, {n} written", o.count);
            let e = no_panic("estimate", || (t.est)(&m.val))?;
            check_est(what, &e, n)?;
            let v = no_panic("to_bytes_full", || (t.encode)(&m.val, Tgt::Full, &[], SimTarget::default()))?;
            ensure!(v.bytes.as_deref() == Some(&out.out), "announced", "{what}: to_bytes_full gives {}, {} is written", short(v.bytes.as_deref().unwrap_or(&[])), short(&out.out));
            // every prefix inside, wherever the layout is as documented
            if n == m.bytes.len() {
                let mut sp = vec![];
                rc::prefix_spans(&m.sch, &m.val, 0, &mut sp);
                for (at, w, len) in sp {
                    ensure!(out.out[at..at + w] == m.bytes[at..at + w], "prefix", "{what}: the prefix at offset {at} of {} announces {:02x?}, {len} bytes follow", short(&out.out), &out.out[at..at + w]);
                }
            }
            cx.ev(1, bucket(n));
        }
        // below each prefix
        for k in 0..3u8 {
            let p = PREFS[k as usize];
            let body = &m.bytes;
            let fits = sat && body.len() <= p.max();
            if !sat && body.len() <= p.max() {
                // an inner field is the one that does not fit
                continue;
            }
            let l = no_panic("length_prefix", || (t.len_dyn)(k, &m.val))?;
            let pre = vec![0xAA; s.uarg(2) % 4];
            let mut tgt = SimTarget { out: pre.clone(), ..Default::default() };
            let r = guarded(|| (t.encode_dyn)(k, &m.val, &mut tgt));
            cx.ev(2 + k as u64, fits as u64);
            if fits {
                let n = match r {
                    Ok(n) => n,
                    Err(_) => return viol("oversize", format!("{what}: {} bytes behind {p:?} are refused", body.len())),
                };
                ensure!(tgt.out.starts_with(&pre) && n == tgt.out.len() - pre.len(), "announced", "{what} behind {p:?}: {n} bytes reported, {} written", tgt.out.len() - pre.len());
                let f = &tgt.out[pre.len()..];
                let w = p.width();
                ensure!(f.len() >= w, "prefix", "{what} behind {p:?}: only {} bytes written", f.len());
                let ann = f[..w].iter().fold(0usize, |a, b| a << 8 | *b as usize);
                ensure!(ann == f.len() - w, "prefix", "{what} behind {p:?}: announces {ann}, {} bytes follow", f.len() - w);
                ensure!(f[w..] == out.out[..], "prefix", "{what} behind {p:?}: payload {}, on its own {}", short(&f[w..]), short(&out.out));
                ensure!(l.prefix == Ok(ann), "prefix", "{what} behind {p:?}: length_prefix {:?}, {ann} is written", l.prefix);
                if let Some(e) = &l.est {
                    check_est(&format!("{what} behind {p:?}"), e, n)?;
                }
                // a receiver can skip it on the prefix
                let mut q = SimParser::with(f, Cfg::default());
                let ok = guarded(|| skip(k, &mut q)).unwrap_or(false);
                ensure!(ok && q.consumed == f.len(), "prefix", "{what} behind {p:?}: skipping on the prefix consumes {} of {} bytes", q.consumed, f.len());
            } else {
                cx.fault("payload beyond its prefix");
                cx.count("oversized payloads refused", 1);
                ensure!(r.is_err(), "oversize", "{what}: {} bytes behind {p:?} are accepted as {}", body.len(), short(&tgt.out));
                ensure!(tgt.out == pre, "oversize", "{what}: {} bytes behind {p:?} are refused after {} bytes were written", body.len(), tgt.out.len() - pre.len());
                ensure!(l.prefix == Err((p.max(), body.len())), "oversize", "{what}: length_prefix {:?} for {} bytes behind {p:?}", l.prefix, body.len());
            }
        }
        Ok(())
    }
}
fn skip(k: u8, p: &mut SimParser) -> bool {
    use tedium::Parser;
    let n = match k {
        0 => u8::parse_as_usize(p),
        1 => u16::parse_as_usize(p),
        _ => u30::parse_as_usize(p),
    };
    match n {
        Ok(n) => Parser::consume(p, n).is_ok(),
        Err(_) => false,
    }
}
impl World for Lengths {
    fn name(&self) -> &'static str {
        "lengths"
    }
    fn gen(&self, rng: &mut Rng, _thorough: bool) -> Plan {
        let mut p = Plan::new(self.name());
        for _ in 0..rng.range(1, 3) {
            let r = rng.below(2000);
            let s = if r < 1 {
                let n = *rng.pick(&[(1i64 << 30) - 1, 1 << 30, (1 << 30) + 1, 1 << 31, (1 << 32) + 5, u32::MAX as i64]);
                Step::new(HUGE, &[n])
            } else if r < 20 {
                let n = *rng.pick(&[255i64, 256, 257, 65535, 65536, 65537, 0x10100, 1 << 20]);
                Step::new(HUGE, &[n])
            } else if r < 100 {
                Step::new(LEAN, &[rng.below(6) as i64, rng.below(4) as i64])
            } else if r < 160 {
                let n = *rng.pick(&[0, 0, 0, 1, 1, 2, 3, 5, 9, 17, 60]);
                Step::new(LOOSE, &[rng.below(8) as i64, n, rng.below(256) as i64, rng.below(4) as i64])
            } else if r < 500 {
                let l = blob_types();
                let n = match rng.below(120) {
                    0..=2 => 65533 + rng.below(6),
                    3 => 65536 * 2 + rng.below(3) - 1,
                    _ => 250 + rng.below(14),
                };
                Step::with(BLOB, &[*rng.pick(&l) as i64, n as i64, rng.below(4) as i64], vec![rng.below(128) as u8])
            } else {
                let mut m = gen_msg(rng);
                m.a.push(rng.below(4) as i64);
                m
            };
            p.steps.push(s);
        }
        p
    }
    fn exec(&self, p: &Plan, cx: &mut Cx) -> R {
        for s in &p.steps {
            match s.op {
                MSG => {
                    let m = msg(s);
                    cx.sig.s(m.t.name.as_bytes());
                    cx.bytes(&m.bytes);
                    cx.say(|| format!("{} = {} ({} bytes)", m.t.name, shortv(&m.val), m.bytes.len()));
                    let what = format!("{} value {}", m.t.name, shortv(&m.val));
                    self.value(&m, &what, s, cx)?;
                }
                BLOB => {
                    let t = types::ty(s.uarg(0));
                    let fill = s.b.first().copied().unwrap_or(0);
                    let n = s.uarg(1) % 300_000;
                    if let Some(val) = blob(&t.name.replace(' ', ""), n, fill) {
                        let sch = (t.sch)();
                        let bytes = rc::encode(&sch, &val);
                        cx.say(|| format!("{} of {} bytes", t.name, bytes.len()));
                        let what = format!("{} of {} bytes", t.name, bytes.len());
                        cx.sig.s(t.name.as_bytes());
                        cx.bytes(&[fill]);
                        self.value(&Msg { t, sch, val, bytes }, &what, s, cx)?;
                    }
                }
                HUGE => {
                    let n = s.uarg(0) % (1 << 33);
                    cx.say(|| format!("virtual payload of {n} bytes"));
                    huge::<u8>(n, 255, cx)?;
                    huge::<u16>(n, 65535, cx)?;
                    huge::<u30>(n, (1 << 30) - 1, cx)?;
                }
                LOOSE => loose(s.uarg(0), s.uarg(1) % 64, s.arg(2) as u8, s.uarg(3) % 4, cx)?,
                LEAN => {
                    let n = s.uarg(0);
                    match s.arg(1) {
                        0 => lean::<1>(n, 0x11, cx)?,
                        1 => lean::<2>(n, 0x11, cx)?,
                        2 => lean::<3>(n, 0x11, cx)?,
                        _ => lean::<5>(n, 0x11, cx)?,
                    }
                }
                _ => {}
            }
        }
        Ok(())
    }
}
