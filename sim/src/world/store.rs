//! World `store` (C21): replicas keep sets of values that arrive over a lossy, duplicating and
//! reordering link, each value inside one of the transparent wrapper types, and tell duplicates
//! apart and order them only through the wrapper's equality, ordering and hash. A replica may
//! crash and rebuild its sets from its journal, whose last record may be torn. Every comparison
//! must come out as it does for the bare contents, every set must hold exactly the distinct
//! contents in their order, and all replicas must agree once the link has calmed down.
use super::util::*;
use crate::core::*;
use crate::ensure;
use crate::plan::{Plan, Step};
use crate::rng::{Choices, Rng};
use crate::simparser::{Cfg, SimParser, KINDS};
use num_bigint::{BigInt, BigUint};
use std::borrow::Borrow;
use std::cmp::Ordering;
use std::collections::hash_map::DefaultHasher;
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::fmt::Debug;
use std::hash::{BuildHasherDefault, Hash, Hasher};
use std::sync::OnceLock;
use tedium::{AutoBox, Bytes, Decode, Dynamic, Encode, FixSeq, FixedBytes, FixedString, HexString, LimSeq, Nullable, Padded, RangedFloat, RangedInt, Sequence, VPadded};

pub struct Store;
const MSG: u16 = 0;
type Set<W> = HashSet<W, BuildHasherDefault<DefaultHasher>>;

struct Total<W, C> {
    cmp: Option<fn(&W, &W) -> Ordering>,
    ccmp: fn(&C, &C) -> Ordering,
    hash: fn(&W) -> u64,
    chash: fn(&C) -> u64,
    sets: fn(&str, &[W], &[C]) -> R,
    find: Option<fn(&[W], &C) -> (bool, bool)>,
}
struct Kind<W, C> {
    name: &'static str,
    gen: fn(&mut Choices) -> C,
    ways: Vec<fn(C) -> W>,
    exits: Vec<(&'static str, fn(W) -> C)>,
    enc: fn(&W) -> Vec<u8>,
    dec: fn(&[u8], usize) -> Result<W, String>,
    total: Option<Total<W, C>>,
}
fn h<T: Hash + ?Sized>(x: &T) -> u64 {
    let mut s = DefaultHasher::new();
    x.hash(&mut s);
    s.finish()
}
fn enc<W: Encode, const TAIL: usize>(w: &W) -> Vec<u8> {
    let mut b = w.to_bytes();
    b.extend_from_slice(&[0xA5; TAIL]);
    b
}
fn dec<W: Decode>(b: &[u8], kind: usize) -> Result<W, String> {
    let mut p = SimParser::with(b, Cfg { kind: KINDS[kind % 4], budget: op_budget(b.len()), ..Default::default() });
    W::parse(&mut p).map_err(|e| format!("{e:?}"))
}
fn hash_sets<W: Hash + Eq + Clone, C: Ord + Debug>(name: &str, ws: &[W], cs: &[C]) -> R {
    let mut distinct: Vec<&C> = cs.iter().collect();
    distinct.sort();
    distinct.dedup();
    let s: Set<W> = ws.iter().cloned().collect();
    ensure!(s.len() == distinct.len(), "distinct-count", "a hash set of {} holds {} of {} distinct contents {}", name, s.len(), distinct.len(), shortv(&distinct));
    for (w, c) in ws.iter().zip(cs) {
        ensure!(s.contains(w), "lookup", "a hash set of {name} does not find the value with contents {}", shortv(c));
    }
    Ok(())
}
fn all_sets<W: Hash + Ord + Clone, C: Ord + Debug>(name: &str, ws: &[W], cs: &[C]) -> R {
    hash_sets(name, ws, cs)?;
    let mut order: Vec<(usize, &C)> = cs.iter().enumerate().collect();
    order.sort_by_key(|x| x.1);
    order.dedup_by(|a, b| a.1 == b.1);
    let t: BTreeSet<W> = ws.iter().cloned().collect();
    ensure!(t.len() == order.len(), "distinct-count", "an ordered set of {} holds {} of {} distinct contents", name, t.len(), order.len());
    for (w, (i, c)) in t.iter().zip(&order) {
        ensure!(*w == ws[*i], "set-order", "an ordered set of {name} is not in the order of the contents (at {})", shortv(c));
    }
    let mut v = ws.to_vec();
    v.sort();
    v.dedup();
    ensure!(v.len() == order.len() && v.iter().zip(&order).all(|(w, (i, _))| *w == ws[*i]), "set-order", "a sorted list of {name} is not in the order of the contents");
    for (w, c) in ws.iter().zip(cs) {
        ensure!(t.contains(w) && v.binary_search(w).is_ok(), "lookup", "an ordered set of {name} does not find the value with contents {}", shortv(c));
    }
    Ok(())
}
fn total<W: Hash + Ord + Clone + 'static, C: Hash + Ord + Debug + 'static>() -> Option<Total<W, C>> {
    Some(Total { cmp: Some(W::cmp), ccmp: C::cmp, hash: h::<W>, chash: h::<C>, sets: all_sets::<W, C>, find: None })
}
/// for FixSeq, which has no total order
fn hashed<W: Hash + Eq + Clone + 'static, C: Hash + Ord + Debug + 'static>() -> Option<Total<W, C>> {
    Some(Total { cmp: None, ccmp: C::cmp, hash: h::<W>, chash: h::<C>, sets: hash_sets::<W, C>, find: None })
}
/// for wrappers that can be looked up by their contents
fn by_contents<W: Hash + Ord + Clone + Borrow<C> + 'static, C: Hash + Ord + Debug + 'static>() -> Option<Total<W, C>> {
    let mut t = total::<W, C>().unwrap();
    t.find = Some(|ws, c| {
        let s: Set<W> = ws.iter().cloned().collect();
        let b: BTreeSet<W> = ws.iter().cloned().collect();
        (s.contains(c), b.contains(c))
    });
    Some(t)
}
trait Topic: Sync + Send {
    fn run(&self, p: &Plan, cx: &mut Cx) -> R;
}
struct Msg<C> {
    contents: C,
    way: usize,
}
impl<W: PartialEq + PartialOrd + Clone + 'static, C: PartialEq + PartialOrd + Clone + Debug + 'static> Kind<W, C> {
    fn pair(&self, a: (&W, &C), b: (&W, &C)) -> R {
        let n = self.name;
        let say = || format!("{n} of {} and {}", shortv(a.1), shortv(b.1));
        let r = no_panic(&format!("comparing {}", say()), || (a.0 == b.0, a.0 != b.0, a.0.partial_cmp(b.0), [a.0 < b.0, a.0 <= b.0, a.0 > b.0, a.0 >= b.0]))?;
        let w = (a.1 == b.1, a.1 != b.1, a.1.partial_cmp(b.1), [a.1 < b.1, a.1 <= b.1, a.1 > b.1, a.1 >= b.1]);
        ensure!(r.0 == w.0 && r.1 == w.1, "equality", "{}: == gives {}, != gives {}; the contents say {} and {}", say(), r.0, r.1, w.0, w.1);
        ensure!(r.2 == w.2, "order", "{}: partial_cmp gives {:?}, the contents {:?}", say(), r.2, w.2);
        ensure!(r.3 == w.3, "order", "{}: < <= > >= give {:?}, the contents {:?}", say(), r.3, w.3);
        if let Some(t) = &self.total {
            if let Some(f) = t.cmp {
                let (r, w) = (no_panic(&say(), || f(a.0, b.0))?, (t.ccmp)(a.1, b.1));
                ensure!(r == w, "order", "{}: cmp gives {r:?}, the contents {w:?}", say());
            }
            let same = (t.hash)(a.0) == (t.hash)(b.0);
            ensure!(same || a.1 != b.1, "hash", "{}: equal contents, different hashes", say());
        }
        Ok(())
    }
    fn one(&self, w: &W, c: &C) -> R {
        let n = self.name;
        for (how, f) in &self.exits {
            let g = no_panic(&format!("{how} of a {n} of {}", shortv(c)), || f(w.clone()))?;
            // contents with NaN differ from themselves: then their text decides
            ensure!(g == *c || (*c != *c && format!("{g:?}") == format!("{c:?}")), "conversion", "{n} of {}: {how} gives {}", shortv(c), shortv(&g));
        }
        if let Some(t) = &self.total {
            ensure!((t.hash)(w) == (t.chash)(c), "hash", "{n} of {} does not hash as its contents", shortv(c));
        }
        Ok(())
    }
}
/// what a replica holds
struct Rep<W, C> {
    live: Vec<(usize, W, C)>,
    journal: Vec<(usize, Vec<u8>)>,
}
impl<W: PartialEq + PartialOrd + Clone + 'static, C: PartialEq + PartialOrd + Clone + Debug + 'static> Topic for Kind<W, C> {
    fn run(&self, p: &Plan, cx: &mut Cx) -> R {
        let n = self.name;
        let way = p.upar(1);
        let reps = 1 + p.upar(2) % 3;
        let mut ch = Choices::new(&p.data);
        let mut msgs: Vec<Msg<C>> = vec![];
        for s in &p.steps {
            // a new value, an earlier one again, or one that differs from it in one choice
            let mut b = s.b.clone();
            if let (true, Some(o)) = (s.arg(0) > 0, p.steps.get(s.uarg(1) % p.steps.len())) {
                b = o.b.clone();
                if s.arg(0) == 2 && !b.is_empty() {
                    let k = s.uarg(2) % b.len();
                    b[k] = b[k].wrapping_add(1 + s.uarg(3) as u8);
                }
            }
            msgs.push(Msg { contents: (self.gen)(&mut Choices::new(&b)), way: s.uarg(4) });
        }
        // (time, sequence) -> (replica, message)
        let mut net: BTreeMap<(u64, u64), (usize, usize)> = BTreeMap::new();
        let mut seq = 0;
        for (i, _) in msgs.iter().enumerate() {
            for r in 0..reps {
                let (mut at, mut copies) = (i as u64 + 1, 1);
                if !ch.exhausted() {
                    let v = ch.byte();
                    match v % 8 {
                        0 => {
                            copies = 0;
                            cx.fault("message lost");
                        }
                        1 | 2 => {
                            copies = 2 + (v >> 7) as u64;
                            cx.fault("message duplicated");
                        }
                        3 | 4 => {
                            at += (v >> 3) as u64;
                            cx.fault("message delayed");
                        }
                        _ => {}
                    }
                }
                for c in 0..copies {
                    seq += 1;
                    net.insert((at + 2 * c, seq), (r, i));
                }
            }
        }
        let mut rs: Vec<Rep<W, C>> = (0..reps).map(|_| Rep { live: vec![], journal: vec![] }).collect();
        let mut calm = false;
        loop {
            let Some(((at, _), (r, i))) = net.pop_first() else {
                if calm {
                    break;
                }
                // the link has calmed down: whatever a replica misses is sent again
                calm = true;
                for (r, rep) in rs.iter().enumerate() {
                    for i in 0..msgs.len() {
                        if !rep.journal.iter().any(|e| e.0 == i) {
                            seq += 1;
                            net.insert((1000 + seq, seq), (r, i));
                            cx.count("resent", 1);
                        }
                    }
                }
                continue;
            };
            cx.sim_ticks = cx.sim_ticks.max(at);
            let m = &msgs[i];
            let rep = &mut rs[r];
            // wrapped here, or decoded from what was sent
            let sent = no_panic(&format!("wrapping {} in {n}", shortv(&m.contents)), || self.ways[(m.way + r) % self.ways.len()](m.contents.clone()))?;
            let bytes = no_panic(&format!("writing a {n} of {}", shortv(&m.contents)), || (self.enc)(&sent))?;
            let w = if (way + r + i) % 2 == 0 {
                sent
            } else {
                match no_panic(&format!("reading a {n}"), || (self.dec)(&bytes, way + i))? {
                    Ok(w) => w,
                    Err(_) => {
                        cx.count("abandoned: value cannot be sent", 1);
                        return Ok(());
                    }
                }
            };
            self.one(&w, &m.contents)?;
            self.one(&w.clone(), &m.contents)?;
            let mut dup = false;
            for (_, o, c) in &rep.live {
                self.pair((&w, &m.contents), (o, c))?;
                self.pair((o, c), (&w, &m.contents))?;
                dup |= *o == w;
            }
            self.pair((&w, &m.contents), (&w, &m.contents))?;
            cx.ev(1, dup as u64 | (rep.live.len().min(7) as u64) << 1);
            cx.sig.u(r as u64 * 8 + self.total.is_some() as u64);
            cx.say(|| format!("{at}: replica {r} receives message {i}: {n} of {}{}", shortv(&m.contents), if dup { " (seen before)" } else { "" }));
            rep.live.push((i, w, m.contents.clone()));
            rep.journal.push((i, bytes));
            if !calm && !ch.exhausted() && ch.byte() % 12 == 11 {
                cx.fault("replica crash and restart");
                rep.live.clear();
                if ch.byte() % 2 == 1 {
                    rep.journal.pop();
                    cx.fault("torn journal record");
                }
                for (i, b) in &rep.journal {
                    match no_panic(&format!("reading a {n} from the journal"), || (self.dec)(b, *i))? {
                        Ok(w) => {
                            self.one(&w, &msgs[*i].contents)?;
                            rep.live.push((*i, w, msgs[*i].contents.clone()));
                        }
                        Err(_) => {
                            cx.count("abandoned: value cannot be sent", 1);
                            return Ok(());
                        }
                    }
                }
            }
        }
        for rep in &rs {
            if let Some(t) = &self.total {
                let ws: Vec<W> = rep.live.iter().map(|x| x.1.clone()).collect();
                let cs: Vec<C> = rep.live.iter().map(|x| x.2.clone()).collect();
                no_panic(&format!("building sets of {n}"), || (t.sets)(n, &ws, &cs))??;
                if let Some(f) = t.find {
                    // present, and with one absent
                    for k in 0..cs.len() {
                        let (a, b) = no_panic("lookup by contents", || f(&ws, &cs[k]))?;
                        ensure!(a && b, "lookup", "looking up contents {} among {n}: hash set {a}, ordered set {b}", shortv(&cs[k]));
                        let rest: Vec<W> = ws.iter().zip(&cs).filter(|x| *x.1 != cs[k]).map(|x| x.0.clone()).collect();
                        let (a, b) = no_panic("lookup by contents", || f(&rest, &cs[k]))?;
                        ensure!(!a && !b, "lookup", "looking up absent contents {} among {n}: hash set {a}, ordered set {b}", shortv(&cs[k]));
                    }
                    cx.count("lookups by contents", cs.len() as u64);
                }
            }
        }
        // the replicas agree, value by value
        for a in &rs {
            for b in &rs {
                for (i, w, c) in &a.live {
                    if let Some((_, v, d)) = b.live.iter().find(|x| x.0 == *i) {
                        self.pair((w, c), (v, d))?;
                    } else {
                        return viol("harness", "a message never arrived");
                    }
                }
            }
        }
        Ok(())
    }
}

// ---- contents --------------------------------------------------------------------------------
fn g_bytes(ch: &mut Choices) -> Vec<u8> {
    let n = ch.byte() % 5;
    (0..n).map(|_| [0, 1, 0x7f, 0x80, 0xff, b'a'][ch.byte() as usize % 6]).collect()
}
fn g_int(ch: &mut Choices) -> i64 {
    let d = (ch.byte() % 3) as i64 - 1;
    ([0, 1, -1, 5, 127, -128, 255, 256, 32767, -32768, 65536, i32::MAX as i64, i32::MIN as i64][ch.byte() as usize % 13] as i64).wrapping_add(d)
}
fn g_i32(ch: &mut Choices) -> i32 {
    g_int(ch) as i32
}
fn g_f64(ch: &mut Choices) -> f64 {
    [0.0, -0.0, 1.0, -1.0, f64::NAN, f64::INFINITY, f64::NEG_INFINITY, 0.5, 1e300, 5e-324][ch.byte() as usize % 10]
}
fn g_list<T>(ch: &mut Choices, max: u8, f: fn(&mut Choices) -> T) -> Vec<T> {
    let n = ch.byte() % (max + 1);
    (0..n).map(|_| f(ch)).collect()
}
fn g_text(ch: &mut Choices) -> String {
    let n = ch.byte() % 4;
    (0..n).map(|_| ['a', 'b', 'A', 'é', 'z', '\0'][ch.byte() as usize % 6]).collect()
}
fn g_nat(ch: &mut Choices) -> BigUint {
    let k = ch.byte() as usize % 10;
    let b: Vec<u8> = (0..k).map(|_| [0, 1, 0x40, 0x7f, 0x80, 0xff][ch.byte() as usize % 6]).collect();
    BigUint::from_bytes_be(&b)
}
fn g_big(ch: &mut Choices) -> BigInt {
    let s = ch.byte() % 2 == 1;
    let n = BigInt::from(g_nat(ch));
    if s {
        -n
    } else {
        n
    }
}
macro_rules! kind {
    ($name:expr, $w:ty, $c:ty, $gen:expr, tail $tail:expr, $total:expr, [$($way:expr),* $(,)?], [$($how:expr => $exit:expr),* $(,)?]) => {
        Box::new(Kind::<$w, $c> {
            name: $name,
            gen: $gen,
            ways: vec![$($way as fn($c) -> $w),*],
            exits: vec![$(($how, $exit as fn($w) -> $c)),*],
            enc: enc::<$w, $tail>,
            dec: dec::<$w>,
            total: $total,
        }) as Box<dyn Topic>
    };
}
fn dynamic<S: tedium::dynamic::LenPref + 'static, C: Clone + PartialOrd + Debug + Encode + Decode + tedium::Estimable + 'static>(name: &'static str, gen: fn(&mut Choices) -> C, total: Option<Total<Dynamic<S, C>, C>>) -> Box<dyn Topic>
where
    Dynamic<S, C>: Encode + Decode,
{
    kind!(name, Dynamic<S, C>, C, gen, tail 0, total, [Dynamic::new, Dynamic::from], [
        "into_inner" => |w| w.into_inner(),
        "AsRef" => |w| AsRef::<C>::as_ref(&w).clone(),
        "Borrow" => |w| Borrow::<C>::borrow(&w).clone(),
        "AsMut" => |mut w| AsMut::<C>::as_mut(&mut w).clone(),
    ])
}
fn padded<C: Clone + PartialOrd + Debug + Encode + Decode + 'static, const N: usize>(name: &'static str, gen: fn(&mut Choices) -> C, total: Option<Total<Padded<C, N>, C>>) -> Box<dyn Topic> {
    kind!(name, Padded<C, N>, C, gen, tail 0, total, [Padded::new, Padded::from, Padded::<C, 7>::with_padding], [
        "into_inner" => |w| w.into_inner(),
        "as_inner" => |w| w.as_inner().clone(),
        "as_mut_inner" => |mut w| w.as_mut_inner().clone(),
    ])
}
fn vpadded<C: Clone + PartialOrd + Debug + Encode + Decode + 'static, const N: usize>(name: &'static str, gen: fn(&mut Choices) -> C, total: Option<Total<VPadded<C, N>, C>>) -> Box<dyn Topic> {
    kind!(name, VPadded<C, N>, C, gen, tail N, total, [VPadded::new, VPadded::from], [
        "into_inner" => |w| w.into_inner(),
    ])
}
fn autobox<C: Clone + PartialOrd + Debug + Encode + Decode + 'static>(name: &'static str, gen: fn(&mut Choices) -> C, total: Option<Total<AutoBox<C>, C>>) -> Box<dyn Topic> {
    kind!(name, AutoBox<C>, C, gen, tail 0, total, [AutoBox::new, AutoBox::from, |c| AutoBox::from_boxed(Box::new(c)), |c| AutoBox::from(Box::new(c))], [
        "into_inner" => |w| w.into_inner(),
        "into_box" => |w| *w.into_box(),
        "as_inner" => |w| w.as_inner().clone(),
        "as_mut_inner" => |mut w| w.as_mut_inner().clone(),
        "as_mut_boxed" => |mut w| (**w.as_mut_boxed()).clone(),
        "AsRef" => |w| AsRef::<C>::as_ref(&w).clone(),
        "AsRef<Box>" => |w| (**AsRef::<Box<C>>::as_ref(&w)).clone(),
        "AsMut" => |mut w| AsMut::<C>::as_mut(&mut w).clone(),
    ])
}
fn nullable<C: Clone + PartialOrd + Debug + Encode + Decode + 'static>(name: &'static str, gen: fn(&mut Choices) -> Option<C>, total: Option<Total<Nullable<C>, Option<C>>>) -> Box<dyn Topic> {
    kind!(name, Nullable<C>, Option<C>, gen, tail 0, total, [Nullable::from, |c| match c { Some(c) => Nullable::from(c), None => Nullable::default() }], [
        "into_inner" => |w| w.into_inner(),
        "as_inner" => |w| w.as_inner().clone(),
        "as_mut_inner" => |mut w| w.as_mut_inner().clone(),
        "From for Option" => |w| Option::from(w),
        "is_some" => |w| if w.is_some() { w.into_inner() } else { None },
        "is_none" => |w| if w.is_none() { None } else { w.into_inner() },
    ])
}
fn sequence<C: Clone + PartialOrd + Debug + Encode + Decode + 'static>(name: &'static str, gen: fn(&mut Choices) -> Vec<C>, total: Option<Total<Sequence<C>, Vec<C>>>) -> Box<dyn Topic> {
    kind!(name, Sequence<C>, Vec<C>, gen, tail 0, total, [Sequence::from_vec, Sequence::from, |c| c.into_iter().collect(), |c| { let mut s = Sequence::new(); s.extend(c); s }], [
        "into_inner" => |w| w.into_inner(),
        "From for Vec" => |w| Vec::from(w),
        "as_slice" => |w| w.as_slice().to_vec(),
        "as_mut_slice" => |mut w| w.as_mut_slice().to_vec(),
        "AsRef" => |w| AsRef::<[C]>::as_ref(&w).to_vec(),
        "AsMut" => |mut w| AsMut::<[C]>::as_mut(&mut w).to_vec(),
        "Deref" => |w| (*w).to_vec(),
        "DerefMut" => |mut w| (*w).iter_mut().map(|x| x.clone()).collect(),
        "IntoIterator" => |w| w.into_iter().collect(),
        "IntoIterator by reference" => |w| (&w).into_iter().cloned().collect(),
        "IntoIterator by mutable reference" => |mut w| (&mut w).into_iter().map(|x| x.clone()).collect(),
        "Index" => |w| (0..w.len()).map(|i| w[i].clone()).collect(),
    ])
}
fn limseq<C: Clone + PartialOrd + Debug + Encode + Decode + tedium::Estimable + 'static, const N: usize>(name: &'static str, gen: fn(&mut Choices) -> Vec<C>, total: Option<Total<LimSeq<C, N>, Vec<C>>>) -> Box<dyn Topic> {
    kind!(name, LimSeq<C, N>, Vec<C>, gen, tail 0, total, [LimSeq::from_vec, |c| LimSeq::try_from(c).unwrap(), |c| c.into_iter().collect(), |c| LimSeq::try_from(&c[..]).unwrap()], [
        "into_vec" => |w| w.into_vec(),
        "From for Vec" => |w| Vec::from(w),
        "Deref" => |w| (*w).to_vec(),
        "IntoIterator" => |w| w.into_iter().collect(),
        "IntoIterator by reference" => |w| (&w).into_iter().cloned().collect(),
    ])
}
fn fixseq<C: Clone + PartialOrd + Debug + Encode + Decode + tedium::Estimable + 'static, const N: usize>(name: &'static str, gen: fn(&mut Choices) -> Vec<C>, total: Option<Total<FixSeq<C, N>, Vec<C>>>) -> Box<dyn Topic> {
    kind!(name, FixSeq<C, N>, Vec<C>, gen, tail 0, total, [|c| FixSeq::try_from(c).ok().unwrap(), |c| c.into_iter().collect(), |c| FixSeq::try_from(&c[..]).ok().unwrap()], [
        "From for Vec" => |w| Vec::from(w),
        "Deref" => |w| (*w).to_vec(),
        "IntoIterator" => |w| w.into_iter().collect(),
        "IntoIterator by reference" => |w| (&w).into_iter().cloned().collect(),
    ])
}
fn three<T>(ch: &mut Choices, f: fn(&mut Choices) -> T) -> Vec<T> {
    (0..3).map(|_| f(ch)).collect()
}
fn ranged<const A: i32, const B: i32>(name: &'static str) -> Box<dyn Topic> {
    kind!(name, RangedInt<i32, A, B>, i32, |ch| (g_int(ch) as i128).rem_euclid(B as i128 - A as i128 + 1) as i32 + A, tail 0, total(), [RangedInt::from_i32, RangedInt::from_underlying, |c| RangedInt::try_from(c).unwrap(), |c| RangedInt::try_from(c as i64).unwrap()], [
        "to_i32" => |w| w.to_i32(),
        "to_underlying" => |w| w.to_underlying(),
        "From for i64" => |w| i64::from(w) as i32,
    ])
}
/// "" stands for zero in decimal text
fn coerced(n: &str, want: &BigInt, got: [(&'static str, Option<i128>); 8]) {
    let ranges: [(i128, i128); 8] = [
        (0, u8::MAX as i128), (0, u16::MAX as i128), (0, u32::MAX as i128), (0, u64::MAX as i128),
        (i8::MIN as i128, i8::MAX as i128), (i16::MIN as i128, i16::MAX as i128), (i32::MIN as i128, i32::MAX as i128), (i64::MIN as i128, i64::MAX as i128),
    ];
    for ((how, g), (lo, hi)) in got.into_iter().zip(ranges) {
        let w = i128::try_from(want).ok().filter(|x| (lo..=hi).contains(x));
        assert!(g == w, "{n} {want} converts into {how} as {g:?}");
    }
}
// a tagged union, and the same shape written out by hand
tedium::data! { Deed, u8, deed, {
    9 => Nap (),
    1 => Note (pub Dynamic<u8, Bytes>),
    200 => Pair { pub a: i32, pub b: Option<u16> },
    0 => Link (pub AutoBox<Deed>, pub bool),
    5 => Mark (pub crate::types::Mixed8),
} }
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
enum DeedC {
    Nap,
    Note(Vec<u8>),
    Pair(i32, Option<u16>),
    Link(Box<DeedC>, bool),
    Mark(u8),
}
impl DeedC {
    fn gen(ch: &mut Choices, depth: u8) -> Self {
        match ch.byte() % if depth > 2 { 4 } else { 6 } {
            0 => DeedC::Nap,
            1 => DeedC::Note(g_bytes(ch)),
            2 => DeedC::Pair(g_i32(ch), (ch.byte() % 2 == 0).then(|| g_int(ch) as u16)),
            3 => DeedC::Mark(MIXED[ch.byte() as usize % MIXED.len()]),
            _ => DeedC::Link(Box::new(Self::gen(ch, depth + 1)), ch.byte() % 2 == 0),
        }
    }
    fn wrap(self) -> Deed {
        match self {
            DeedC::Nap => Deed::Nap(deed::Nap),
            DeedC::Note(b) => Deed::Note(deed::Note(Dynamic::new(b.into()))),
            DeedC::Pair(a, b) => Deed::Pair(deed::Pair { a, b }),
            DeedC::Link(d, x) => Deed::Link(deed::Link(AutoBox::new(d.wrap()), x)),
            DeedC::Mark(t) => Deed::Mark(deed::Mark(t.try_into().unwrap())),
        }
    }
    fn unwrap(d: Deed) -> Self {
        match d {
            Deed::Nap(_) => DeedC::Nap,
            Deed::Note(n) => DeedC::Note(n.0.into_inner().into_vec()),
            Deed::Pair(p) => DeedC::Pair(p.a, p.b),
            Deed::Link(l) => DeedC::Link(Box::new(Self::unwrap(l.0.into_inner())), l.1),
            Deed::Mark(m) => DeedC::Mark(m.0.get_tagval()),
        }
    }
}
/// the tags of `types::Mixed8`, in the order of declaration
const MIXED: [u8; 8] = [9, 1, 254, 0, 128, 2, 10, 127];
fn deeds() -> Box<dyn Topic> {
    // equal values must hash alike however they were made; the hash itself is the library's choice
    let t = Total { cmp: None, ccmp: DeedC::cmp, hash: h::<Deed>, chash: |c: &DeedC| h(&c.clone().wrap()), sets: |_: &str, _: &[Deed], _: &[DeedC]| Ok(()), find: None };
    kind!("tagged union", Deed, DeedC, |c| DeedC::gen(c, 0), tail 0, Some(t), [DeedC::wrap], [
        "matching" => DeedC::unwrap,
        "its tag" => |w| {
            let t = w.get_tagval();
            let c = DeedC::unwrap(w);
            assert_eq!(t, match &c { DeedC::Nap => 9, DeedC::Note(_) => 1, DeedC::Pair(..) => 200, DeedC::Link(..) => 0, DeedC::Mark(_) => 5 });
            c
        },
    ])
}
fn topics() -> &'static [Box<dyn Topic>] {
    static T: OnceLock<Vec<Box<dyn Topic>>> = OnceLock::new();
    T.get_or_init(|| {
        vec![
            dynamic::<u8, Bytes>("Dynamic<u8, Bytes>", |c| g_bytes(c).into(), by_contents()),
            dynamic::<u16, Sequence<i32>>("Dynamic<u16, Sequence<i32>>", |c| g_list(c, 3, g_i32).into(), by_contents()),
            dynamic::<tedium::u30, String>("Dynamic<u30, String>", g_text, by_contents()),
            dynamic::<u8, Nullable<i32>>("Dynamic<u8, Nullable<i32>>", |c| (c.byte() % 3 != 0).then(|| g_i32(c)).into(), by_contents()),
            dynamic::<u16, f64>("Dynamic<u16, f64>", g_f64, None),
            padded::<i32, 2>("Padded<i32, 2>", g_i32, total()),
            padded::<u16, 0>("Padded<u16, 0>", |c| g_int(c) as u16, total()),
            padded::<f64, 1>("Padded<f64, 1>", g_f64, None),
            vpadded::<i16, 2>("VPadded<i16, 2>", |c| g_int(c) as i16, total()),
            vpadded::<Bytes, 3>("VPadded<Bytes, 3>", |c| g_bytes(c).into(), total()),
            vpadded::<f64, 0>("VPadded<f64, 0>", g_f64, None),
            autobox::<i64>("AutoBox<i64>", g_int, total()),
            autobox::<Sequence<u8>>("AutoBox<Sequence<u8>>", |c| g_bytes(c).into(), total()),
            autobox::<f64>("AutoBox<f64>", g_f64, None),
            nullable::<i32>("Nullable<i32>", |c| (c.byte() % 3 != 0).then(|| g_i32(c)), total()),
            nullable::<Dynamic<u8, Bytes>>("Nullable<Dynamic<u8, Bytes>>", |c| (c.byte() % 3 != 0).then(|| Dynamic::new(g_bytes(c).into())), total()),
            nullable::<f64>("Nullable<f64>", |c| (c.byte() % 3 != 0).then(|| g_f64(c)), None),
            sequence::<i16>("Sequence<i16>", |c| g_list(c, 4, |c| g_int(c) as i16), total()),
            sequence::<Dynamic<u8, Bytes>>("Sequence<Dynamic<u8, Bytes>>", |c| g_list(c, 3, |c| Dynamic::new(g_bytes(c).into())), total()),
            sequence::<f64>("Sequence<f64>", |c| g_list(c, 3, g_f64), None),
            limseq::<u8, 5>("LimSeq<u8, 5>", |c| g_list(c, 5, |c| g_int(c) as u8), total()),
            limseq::<i32, 3>("LimSeq<i32, 3>", |c| g_list(c, 3, g_i32), total()),
            limseq::<f64, 2>("LimSeq<f64, 2>", |c| g_list(c, 2, g_f64), None),
            fixseq::<i8, 3>("FixSeq<i8, 3>", |c| three(c, |c| g_int(c) as i8), hashed()),
            fixseq::<Dynamic<u8, Bytes>, 3>("FixSeq<Dynamic<u8, Bytes>, 3>", |c| three(c, |c| Dynamic::new(g_bytes(c).into())), hashed()),
            fixseq::<f64, 3>("FixSeq<f64, 3>", |c| three(c, g_f64), None),
            kind!("Bytes", Bytes, Vec<u8>, g_bytes, tail 0, total(), [Bytes::from_vec, Bytes::from, |c| Bytes::from(&c[..]), |c| Bytes::from(c.into_boxed_slice()), |c| c.into_iter().collect(), |mut c| Bytes::from(&mut c[..])], [
                "into_vec" => |w| w.into_vec(),
                "From for Vec" => |w| Vec::from(w),
                "From for Box" => |w| Box::<[u8]>::from(w).into_vec(),
                "AsRef<Vec>" => |w| AsRef::<Vec<u8>>::as_ref(&w).clone(),
                "AsRef<[u8]>" => |w| AsRef::<[u8]>::as_ref(&w).to_vec(),
                "AsMut<Vec>" => |mut w| AsMut::<Vec<u8>>::as_mut(&mut w).clone(),
                "AsMut<[u8]>" => |mut w| AsMut::<[u8]>::as_mut(&mut w).to_vec(),
                "Deref" => |w| (*w).to_vec(),
                "IntoIterator" => |w| w.into_iter().collect(),
                "IntoIterator by reference" => |w| (&w).into_iter().copied().collect(),
                "IntoIterator by mutable reference" => |mut w| (&mut w).into_iter().map(|x| *x).collect(),
                "DerefMut" => |mut w| (*w).iter_mut().map(|x| *x).collect(),
            ]),
            Box::new(Kind::<HexString, Vec<u8>> {
                name: "HexString",
                gen: g_bytes,
                ways: vec![HexString::from_vec, HexString::from, HexString::from_bytes, |c| HexString::from(&c[..]), |c| HexString::clone_from_bytes(&c[..]), |c| c.into_iter().collect(), |c| HexString::from(c.into_boxed_slice())],
                exits: vec![
                    ("into_inner", |w| w.into_inner()),
                    ("as_bytes", |w| w.as_bytes().to_vec()),
                    ("as_vec", |w| w.as_vec().clone()),
                    ("as_mut_vec", |mut w| w.as_mut_vec().clone()),
                    ("as_mut_bytes", |mut w| w.as_mut_bytes().to_vec()),
                    ("From for Vec", |w| Vec::from(w)),
                    ("AsRef", |w| AsRef::<[u8]>::as_ref(&w).to_vec()),
                    ("iter", |w| w.iter().copied().collect()),
                    ("IntoIterator", |w| w.into_iter().collect()),
                    ("through its text", |w| crate::plan::unhex(&w.to_hex()).unwrap()),
                ],
                enc: |w| w.to_hex().into_bytes(),
                dec: |b, k| {
                    let s = String::from_utf8(b.to_vec()).unwrap();
                    if k % 2 == 0 { HexString::from_hex(s) } else { HexString::try_from(&s[..]) }.map_err(|e| format!("{e:?}"))
                },
                total: total(),
            }),
            {
                let mut t = by_contents::<FixedBytes<3>, [u8; 3]>().unwrap();
                t.find = Some(|ws, c| {
                    let s: Set<FixedBytes<3>> = ws.iter().cloned().collect();
                    let b: BTreeSet<FixedBytes<3>> = ws.iter().cloned().collect();
                    let (x, y) = (s.contains(c), b.contains(c));
                    // by slice as well; disagreement counts as "not found" and "found" alike
                    if (s.contains(&c[..]), b.contains(&c[..])) == (x, y) { (x, y) } else { (!x, x) }
                });
                kind!("FixedBytes<3>", FixedBytes<3>, [u8; 3], |c| three(c, |c| g_int(c) as u8).try_into().unwrap(), tail 0, Some(t), [FixedBytes::from_array, FixedBytes::from, |c| FixedBytes::from(&c), |c| FixedBytes::try_from(&c[..]).unwrap(), |c| FixedBytes::try_from_slice(&c).unwrap()], [
                    "to_array" => |w| w.to_array(),
                    "bytes" => |w| *w.bytes(),
                    "From for array" => |w| <[u8; 3]>::from(w),
                    "AsRef" => |w| *AsRef::<[u8; 3]>::as_ref(&w),
                    "to_vec" => |w| w.to_vec().try_into().unwrap(),
                ])
            },
            kind!("FixedString<2>", FixedString<2>, [u8; 2], |c| [[0, b'a', 0xff][c.byte() as usize % 3], g_int(c) as u8], tail 0, total(), [FixedString::from, |c| FixedString::from(&c), |c| FixedString::try_from_bytes(&c).unwrap(), |c| FixedString::try_from(&c[..]).unwrap()], [
                "its encoding" => |w| w.to_bytes().try_into().unwrap(),
            ]),
            kind!("N", tedium::N, BigUint, g_nat, tail 0, total(), [tedium::N::new, tedium::N::from, tedium::N], [
                "into_inner" => |w| w.into_inner(),
                "as_inner" => |w| w.as_inner().clone(),
                "From for BigUint" => |w| BigUint::from(w),
                "Deref" => |w| (*w).clone(),
                "the coercions" => |w| {
                    let f = |x: &tedium::N| x.clone();
                    coerced("N", &BigInt::from(w.as_inner().clone()), [
                        ("u8", u8::try_from(f(&w)).ok().map(i128::from)), ("u16", u16::try_from(f(&w)).ok().map(i128::from)), ("u32", u32::try_from(f(&w)).ok().map(i128::from)), ("u64", u64::try_from(f(&w)).ok().map(i128::from)),
                        ("i8", i8::try_from(w.as_inner()).ok().map(i128::from)), ("i16", i16::try_from(w.as_inner()).ok().map(i128::from)), ("i32", i32::try_from(w.as_inner()).ok().map(i128::from)), ("i64", i64::try_from(w.as_inner()).ok().map(i128::from)),
                    ]);
                    w.into_inner()
                },
            ]),
            kind!("Z", tedium::Z, BigInt, g_big, tail 0, total(), [tedium::Z::new, tedium::Z], [
                "into_inner" => |w| w.into_inner(),
                "as_inner" => |w| w.as_inner().clone(),
                "From for BigInt" => |w| BigInt::from(w),
                "Deref" => |w| (*w).clone(),
                "the coercions" => |w| {
                    let f = |x: &tedium::Z| x.clone();
                    coerced("Z", w.as_inner(), [
                        ("u8", u8::try_from(f(&w)).ok().map(i128::from)), ("u16", u16::try_from(f(&w)).ok().map(i128::from)), ("u32", u32::try_from(f(&w)).ok().map(i128::from)), ("u64", u64::try_from(f(&w)).ok().map(i128::from)),
                        ("i8", i8::try_from(f(&w)).ok().map(i128::from)), ("i16", i16::try_from(f(&w)).ok().map(i128::from)), ("i32", i32::try_from(f(&w)).ok().map(i128::from)), ("i64", i64::try_from(f(&w)).ok().map(i128::from)),
                    ]);
                    w.into_inner()
                },
            ]),
            deeds(),
            {
                let mut t = total::<crate::types::Mixed8, u8>().unwrap();
                t.chash = |c| h(&crate::types::Mixed8::try_from(*c).unwrap());
                kind!("enumeration", crate::types::Mixed8, u8, |c| MIXED[c.byte() as usize % MIXED.len()], tail 0, Some(t), [|c| crate::types::Mixed8::try_from(c).unwrap()], [
                    "get_tagval" => |w| w.get_tagval(),
                    "as" => |w| w as u8,
                ])
            },
            ranged::<-0x4000_0000, 0x3fff_ffff>("i31"),
            ranged::<-3, 100>("RangedInt<i32, -3, 100>"),
            kind!("RangedInt<u8, 1023, 1100>", RangedInt<u8, 1023, 1100>, u8, |c| (g_int(c) as u8) % 78, tail 0, total(), [RangedInt::from_underlying, |c| RangedInt::from_i32(c as i32 + 1023)], [
                "to_underlying" => |w| w.to_underlying(),
                "to_i32" => |w| (w.to_i32() - 1023) as u8,
            ]),
            kind!("RangedFloat<-1, 1>", RangedFloat<{ (-1.0f64).to_bits() }, { 1.0f64.to_bits() }>, f64, |c| [0.0, -0.0, 1.0, -1.0, 0.5, 5e-324, -0.25][c.byte() as usize % 7], tail 0, None, [RangedFloat::from_f64, |c| RangedFloat::try_from(c).unwrap(), |c| RangedFloat::try_from_f64(c).unwrap()], [
                "From for f64" => |w| f64::from(w),
                "as_f64" => |w| *w.as_f64(),
            ]),
        ]
    })
}
impl World for Store {
    fn name(&self) -> &'static str {
        "store"
    }
    fn gen(&self, rng: &mut Rng, thorough: bool) -> Plan {
        let mut p = Plan::new(self.name());
        let n = rng.range(2, if thorough { 14 } else { 7 });
        for _ in 0..n {
            let k = rng.range(1, 14) as usize;
            p.steps.push(Step::with(MSG, &[*rng.pick(&[0, 0, 1, 2, 2]), rng.below(n) as i64, rng.below(14) as i64, rng.below(4) as i64, rng.below(60) as i64], rng.bytes(k)));
        }
        p.params = vec![rng.below(topics().len() as u64) as i64, rng.below(1000) as i64, rng.below(3) as i64];
        let f = match rng.below(5) {
            0 => 0,
            _ => rng.range(2, 40),
        };
        p.data = rng.bytes(f as usize);
        p
    }
    fn exec(&self, p: &Plan, cx: &mut Cx) -> R {
        let ts = topics();
        let k = p.upar(0) % ts.len();
        cx.sig.u(k as u64);
        ts[k].run(p, cx)
    }
}
