//! World `router` (C22): publishers send tagged messages over a faulty link to a router that
//! knows the enumerations only through their metadata (listed tags, validity, names). It builds
//! its table from the listed tags, peeks at each frame's tag and either puts the frame on the
//! queue named by the tag or on the dead-letter queue; subscribers decode, answer and check the
//! tag of the value. Whatever the network does to tags, the metadata and the codec must agree.
use super::util::*;
use crate::core::*;
use crate::ensure;
use crate::plan::{Plan, Step};
use crate::refcodec::{Sch, Val};
use crate::rng::{Choices, Rng};
use crate::simparser::{Cfg, SimParser, KINDS};
use crate::simtarget::SimTarget;
use crate::types::{self, MetaOps, Tgt};
use std::collections::{BTreeMap, BTreeSet};
use tedium::parse::error::{ParseError, TokenError};
use tedium::Decode;

pub struct Router;
const FRAME: u16 = 0;

struct Frame {
    topic: usize,
    /// what the publisher meant
    val: Val,
    tag: u64,
    bytes: Vec<u8>,
    intact: bool,
}
/// how the decoder treats the tag of a frame
enum Fate {
    /// past the tag: the value, if all of it was decodable
    Accepted(Option<Val>),
    Refused,
    /// not even a whole tag
    Short,
}
fn inner_tag(v: &Val) -> Option<u64> {
    match v {
        Val::U(t) | Val::Union(t, _) => Some(*t),
        _ => None,
    }
}
fn width(s: &Sch) -> usize {
    match s {
        Sch::Enum(w, _) | Sch::Union(w, _) => *w as usize,
        _ => 0,
    }
}
fn peek(b: &[u8], w: usize) -> Option<u64> {
    (b.len() >= w).then(|| b[..w].iter().fold(0, |a, x| a << 8 | *x as u64))
}
fn table(m: &MetaOps) -> Result<BTreeMap<u64, &'static str>, Viol> {
    let listed = no_panic("listing the tags", || (m.tags)())?;
    let want: BTreeSet<u64> = m.declared.iter().map(|d| d.0).collect();
    let got: BTreeSet<u64> = listed.iter().copied().collect();
    ensure!(got == want, "listed-tags", "{} declares the tags {want:?} but lists {listed:?}", m.name);
    ensure!(got.len() == listed.len(), "listed-tags", "{} lists a tag twice: {listed:?}", m.name);
    let mut t = BTreeMap::new();
    for x in listed {
        let n = no_panic("naming a listed tag", || (m.tag_name)(x))?;
        let decl = m.declared.iter().find(|d| d.0 == x).unwrap().1;
        ensure!(n == Some(decl), "tag-name", "{} declares tag {x} as {decl}, its name query says {n:?}", m.name);
        t.insert(x, decl);
    }
    Ok(t)
}
fn decode(topic: usize, b: &[u8], w: usize, cfg: Cfg) -> Result<Fate, Viol> {
    let t = &types::enum_ops()[topic];
    let mut q = SimParser::with(b, cfg);
    let r = guarded(|| (t.parse_sim)(&mut q));
    Ok(match r {
        Ok(Ok(v)) => Fate::Accepted(Some(v)),
        Ok(Err(e)) => match e {
            ParseError::Token(TokenError::InvalidTagU8(_) | TokenError::InvalidTagU16(_) | TokenError::InvalidTagU30(_)) if q.consumed == w => Fate::Refused,
            _ if q.consumed < w => Fate::Short,
            _ => Fate::Accepted(None),
        },
        Err(Caught::Panic(e)) if q.consumed <= w && b.len() > w => {
            return viol("tag-panic", format!("{}: decoding a frame with tag {:?} panics right after the tag: {e}", t.name, peek(b, w)));
        }
        // a failure further in is not about the tag
        Err(_) => Fate::Accepted(None),
    })
}
fn ask(m: &MetaOps, tag: u64, cx: &mut Cx) -> Result<bool, Viol> {
    let decl = m.declared.iter().find(|d| d.0 == tag).map(|d| d.1);
    let valid = no_panic("the tag-validity query", || (m.valid)(tag))?;
    ensure!(valid == decl.is_some(), "validity", "{} {} tag {tag}, its validity query says {valid}", m.name, if decl.is_some() { "declares" } else { "does not declare" });
    let name = no_panic("the tag-name query", || (m.tag_name)(tag))?;
    ensure!(name == decl, "tag-name", "{}: tag {tag} is declared as {decl:?}, the name query says {name:?}", m.name);
    if let Some(f) = m.from_tag {
        let v = no_panic("the conversion from a tag", || f(tag))?;
        ensure!(v == decl.map(|_| Val::U(tag)), "conversion", "{}: tag {tag} is declared as {decl:?}, converting it gives {v:?}", m.name);
    }
    cx.count("tags queried", 1);
    Ok(valid)
}
impl World for Router {
    fn name(&self) -> &'static str {
        "router"
    }
    fn gen(&self, rng: &mut Rng, thorough: bool) -> Plan {
        let mut p = Plan::new(self.name());
        let n = rng.range(1, if thorough { 12 } else { 5 });
        let one = rng.chance(1, 2).then(|| rng.below(types::metas().len() as u64) as i64);
        for _ in 0..n {
            let t = one.unwrap_or_else(|| rng.below(types::metas().len() as u64) as i64);
            let k = rng.range(2, 30) as usize;
            p.steps.push(Step::with(FRAME, &[t, rng.range(0, 60) as i64], rng.bytes(k)));
        }
        p.params = vec![rng.below(1000) as i64];
        let f = match rng.below(6) {
            0 => 0,
            _ => rng.range(2, 40),
        };
        p.data = rng.bytes(f as usize);
        p
    }
    fn exec(&self, p: &Plan, cx: &mut Cx) -> R {
        let way = p.upar(0);
        let metas = types::metas();
        let mut ch = Choices::new(&p.data);
        // (arrival, sequence) -> frame
        let mut net: BTreeMap<(u64, u64), Frame> = BTreeMap::new();
        let mut seq = 0;
        let mut used = BTreeSet::new();
        // publishers
        for (i, s) in p.steps.iter().enumerate() {
            let topic = s.uarg(0) % metas.len();
            let m = &metas[topic];
            used.insert(topic);
            let t = &types::enum_ops()[topic];
            let msg = msg_of(t, s.uarg(1).min(4000), &s.b);
            let tag = inner_tag(&msg.val).unwrap();
            let w = width(&msg.sch);
            const W: [Tgt; 8] = [Tgt::Vec, Tgt::Strict, Tgt::Memo, Tgt::Hex, Tgt::Sim, Tgt::ToBytes, Tgt::EncVec, Tgt::WriteToVec];
            let bytes = match guarded(|| (t.encode)(&msg.val, W[(way + i) % W.len()], &[], SimTarget::default()).bytes.unwrap()) {
                Ok(b) => b,
                Err(_) => {
                    cx.count("abandoned: publisher cannot encode", 1);
                    continue;
                }
            };
            ensure!(peek(&bytes, w) == Some(tag), "written-tag", "{} {} is declared with tag {tag} ({w} bytes), its encoding is {}", m.name, shortv(&msg.val), short(&bytes));
            let told = no_panic("the tag of a value", || (m.tag_of)(&msg.val))?;
            ensure!(told == tag, "value-tag", "{} {} is declared with tag {tag}, says {told}", m.name, shortv(&msg.val));
            let mut at = i as u64 + 1;
            let mut copies = 1;
            let mut bytes = bytes;
            let mut intact = true;
            let mut hits = 0;
            while !ch.exhausted() && hits < 3 {
                hits += 1;
                let v = ch.byte();
                match v % 16 {
                    0..=2 => break,
                    3 => {
                        copies = 0;
                        cx.fault("frame lost");
                    }
                    4 => {
                        copies = 2;
                        cx.fault("frame duplicated");
                    }
                    5 => {
                        at += (v >> 4) as u64;
                        cx.fault("frames reordered");
                    }
                    6 | 7 if !bytes.is_empty() => {
                        let k = ch.byte() as usize % (w * 8).min(bytes.len() * 8);
                        bytes[k / 8] ^= 1 << (k % 8);
                        intact = false;
                        cx.fault("bit flip in the tag");
                    }
                    8..=10 if bytes.len() >= w => {
                        // near or between the declared tags
                        let base = m.declared[ch.byte() as usize % m.declared.len()].0 as i64;
                        let d = [1i64, -1, 0, 2, 256, -256, 128, 65536][ch.byte() as usize % 8];
                        let mask = if w == 4 { 0xffff_ffff } else { (1u64 << (8 * w)) - 1 };
                        let x = (base + d) as u64 & mask;
                        for (k, o) in bytes[..w].iter_mut().enumerate() {
                            *o = (x >> (8 * (w - 1 - k))) as u8;
                        }
                        intact = false;
                        cx.fault("tag replaced");
                    }
                    11 if bytes.len() >= w => {
                        for o in &mut bytes[..w] {
                            *o = ch.byte();
                        }
                        intact = false;
                        cx.fault("tag overwritten with noise");
                    }
                    12 if bytes.len() >= w => {
                        bytes[..w].reverse();
                        intact = false;
                        cx.fault("tag sent in the other byte order");
                    }
                    13 if bytes.len() > w => {
                        let k = w + ch.byte() as usize % (bytes.len() - w);
                        bytes[k] ^= 1 << (v >> 5);
                        intact = false;
                        cx.fault("bit flip behind the tag");
                    }
                    14 if !bytes.is_empty() => {
                        let k = ch.byte() as usize % bytes.len();
                        bytes.truncate(k);
                        intact = false;
                        cx.fault("truncation");
                    }
                    _ => {}
                }
            }
            for c in 0..copies {
                seq += 1;
                let f = Frame { topic, val: msg.val.clone(), tag, bytes: bytes.clone(), intact };
                net.insert((at + 3 * c, seq), f);
            }
        }
        // router: its table is volatile
        let mut tables: BTreeMap<usize, BTreeMap<u64, &'static str>> = BTreeMap::new();
        let frames = net.len();
        let (mut routed, mut dead) = (0, 0);
        for ((at, _), f) in net {
            cx.sim_ticks = cx.sim_ticks.max(at);
            if !ch.exhausted() && ch.byte() % 16 == 15 {
                cx.fault("router crash and restart");
                tables.clear();
            }
            let m = &metas[f.topic];
            let w = m.width;
            if !tables.contains_key(&f.topic) {
                tables.insert(f.topic, table(m)?);
            }
            cx.bytes(&f.bytes);
            // the router reads the raw tag with the codec of the tag's type
            let kind = KINDS[(way + at as usize) % 4];
            let raw = no_panic("reading the raw tag", || {
                let mut q = SimParser::with(&f.bytes, Cfg { kind, budget: 1000, ..Default::default() });
                match w {
                    1 => u8::parse(&mut q).map(u64::from).ok(),
                    2 => u16::parse(&mut q).map(u64::from).ok(),
                    _ => u32::parse(&mut q).map(u64::from).ok(),
                }
            })?;
            ensure!(raw == peek(&f.bytes, w), "raw-tag", "the raw tag of {} is read as {raw:?}", short(&f.bytes));
            let queue = match raw {
                Some(t) => ask(m, t, cx)?.then(|| tables[&f.topic].get(&t).copied()).flatten(),
                None => None,
            };
            cx.ev(1, queue.is_some() as u64 | (raw.is_none() as u64) << 1);
            cx.sig.u(f.topic as u64 * 31 + queue.map_or(0, |q| q.len() as u64));
            cx.say(|| format!("{at}: {} frame {} -> {}", m.name, short(&f.bytes), queue.unwrap_or("dead letters")));
            if queue.is_some() {
                routed += 1;
            } else {
                dead += 1;
            }
            if f.intact {
                let decl = m.declared.iter().find(|d| d.0 == f.tag).unwrap().1;
                ensure!(queue == Some(decl), "misrouted", "an intact {} frame of {decl} is routed to {}", m.name, queue.unwrap_or("dead letters"));
            }
            // the subscriber, on every kind of parser
            for kind in KINDS {
                let fate = decode(f.topic, &f.bytes, w, Cfg { kind, budget: op_budget(f.bytes.len()), ..Default::default() })?;
                match (&fate, queue, raw) {
                    (Fate::Refused, Some(q), _) => return viol("valid-refused", format!("{}: tag {} is listed and valid ({q}), the {kind:?} decoder refuses it in {}", m.name, raw.unwrap(), short(&f.bytes))),
                    (Fate::Accepted(v), None, Some(t)) => return viol("invalid-accepted", format!("{}: tag {t} is not listed, the {kind:?} decoder accepts it in {} as {}", m.name, short(&f.bytes), shortv(v))),
                    (Fate::Accepted(_), None, None) => return viol("invalid-accepted", format!("{}: the {kind:?} decoder accepts {}, which is shorter than a tag", m.name, short(&f.bytes))),
                    (Fate::Short, _, Some(t)) => return viol("valid-refused", format!("{}: the {kind:?} decoder does not read the whole tag {t} of {}", m.name, short(&f.bytes))),
                    (Fate::Accepted(Some(v)), Some(q), Some(t)) => {
                        ensure!(inner_tag(v) == Some(t), "wrong-arm", "{}: a frame with tag {t} ({q}) decodes as {}", m.name, shortv(v));
                        let told = no_panic("the tag of a value", || (m.tag_of)(v))?;
                        ensure!(told == t, "value-tag", "{}: {} was decoded from tag {t}, says {told}", m.name, shortv(v));
                        let again = guarded(|| (types::enum_ops()[f.topic].encode)(v, Tgt::Vec, &[], SimTarget::default()).bytes.unwrap());
                        if let Ok(again) = again {
                            ensure!(peek(&again, w) == Some(t), "written-tag", "{}: {} was decoded from tag {t}, is written as {}", m.name, shortv(v), short(&again));
                        }
                        if f.intact && *v == f.val {
                            cx.count("intact frames delivered", 1);
                        }
                    }
                    _ => {}
                }
            }
        }
        cx.count("frames routed", routed);
        cx.count("frames dead-lettered", dead);
        ensure!(routed + dead == frames as u64, "harness", "a frame got lost in the router");
        // once the faults stop, every queue is served and the router's whole table is usable
        for topic in used {
            let m = &metas[topic];
            let t = table(m)?;
            for (tag, name) in &t {
                ask(m, *tag, cx)?;
                let b = &tag.to_be_bytes()[8 - m.width..];
                let fate = decode(topic, b, m.width, Cfg { kind: KINDS[way % 4], budget: 10_000, ..Default::default() })?;
                ensure!(!matches!(fate, Fate::Refused | Fate::Short), "valid-refused", "{}: tag {tag} ({name}) is listed, the decoder refuses it", m.name);
            }
            // and a neighbour of each
            for d in &m.declared {
                for x in [d.0.wrapping_add(1), d.0.wrapping_sub(1)] {
                    let max = if m.width == 4 { 0xffff_ffff } else { (1u64 << (8 * m.width)) - 1 };
                    if x <= max {
                        let valid = ask(m, x, cx)?;
                        let b = &x.to_be_bytes()[8 - m.width..];
                        let fate = decode(topic, b, m.width, Cfg { kind: KINDS[(way + 1) % 4], budget: 10_000, ..Default::default() })?;
                        ensure!(matches!(fate, Fate::Refused) == !valid, "invalid-accepted", "{}: tag {x} is {}, the decoder {} it", m.name, if valid { "valid" } else { "invalid" }, if valid { "refuses" } else { "accepts" });
                    }
                }
            }
        }
        Ok(())
    }
}
