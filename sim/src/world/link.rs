//! World `link` (C06): two nodes exchange messages over a simulated packet network. Packets are
//! dropped, duplicated, delayed, reordered and cut anew on retransmission, links partition and
//! heal, sender and receiver crash and restart from durable state. Faults are drawn from the
//! plan's choice stream; once it is exhausted the network is perfect.
use super::util::*;
use crate::core::*;
use crate::ensure;
use crate::plan::{Plan, Step};
use crate::refcodec as rc;
use crate::rng::{Choices, Rng};
use crate::simparser::{Cfg, SimParser, KINDS};
use crate::simtarget::SimTarget;
use crate::types::Tgt;
use std::collections::{BTreeMap, BinaryHeap};

pub struct Link;
const TIMEOUT: u64 = 8;
/// steps allowed between the last fault and complete delivery
const BOUND: u64 = 120;

#[derive(PartialEq, Eq, PartialOrd, Ord)]
enum Ev {
    /// to the receiver: stream offset, bytes
    Data(usize, Vec<u8>),
    /// to the sender: everything up to here is durable at the receiver
    Ack(usize),
}
struct Net<'a> {
    ch: Choices<'a>,
    now: u64,
    seq: u64,
    q: BinaryHeap<std::cmp::Reverse<(u64, u64, Ev)>>,
    partition_until: u64,
    last_fault: u64,
}
impl Net<'_> {
    fn send(&mut self, e: Ev, cx: &mut Cx) {
        let mut copies = 1;
        let mut delay = 1;
        if !self.ch.exhausted() {
            let v = self.ch.byte();
            match v % 16 {
                8 | 9 => {
                    copies = 0;
                    cx.fault("packet lost");
                }
                10 => {
                    copies = 2;
                    cx.fault("packet duplicated");
                }
                11 => {
                    delay += 2 + self.ch.byte() as u64 % 24;
                    cx.fault("packet delayed");
                }
                12 | 13 => {
                    delay += (v >> 5) as u64;
                    cx.fault("packets reordered");
                }
                15 if v >= 128 => {
                    self.partition_until = self.now + 1 + self.ch.byte() as u64 % 20;
                    cx.fault("link partitioned");
                }
                _ => {}
            }
            self.last_fault = self.last_fault.max(self.now);
        }
        if self.now < self.partition_until {
            copies = 0;
            cx.fault("packet lost");
            self.last_fault = self.now;
        }
        for k in 0..copies {
            self.seq += 1;
            let e2 = match &e {
                Ev::Data(o, b) => Ev::Data(*o, b.clone()),
                Ev::Ack(o) => Ev::Ack(*o),
            };
            let at = self.now + delay + 3 * k;
            if k > 0 || delay > 1 {
                self.last_fault = self.last_fault.max(at);
            }
            self.q.push(std::cmp::Reverse((at, self.seq, e2)));
        }
    }
}
/// (real?, framed?) encodings of one message
fn wire(m: &Msg, real: bool, framed: bool, way: usize) -> Result<Vec<u8>, Caught> {
    if !real {
        let mut b = vec![];
        if framed {
            b.extend((m.bytes.len() as u32).to_be_bytes());
        }
        b.extend(&m.bytes);
        return Ok(b);
    }
    guarded(|| {
        if framed {
            let mut t = SimTarget::default();
            (m.t.encode_dyn)(2, &m.val, &mut t);
            t.out
        } else {
            const W: [Tgt; 10] = [Tgt::Vec, Tgt::Strict, Tgt::Memo, Tgt::Hex, Tgt::Sim, Tgt::ToBytes, Tgt::Full, Tgt::EncVec, Tgt::WriteToVec, Tgt::EncSim];
            (m.t.encode)(&m.val, W[way % W.len()], &[], SimTarget::default()).bytes.unwrap()
        }
    })
}
impl World for Link {
    fn name(&self) -> &'static str {
        "link"
    }
    fn gen(&self, rng: &mut Rng, thorough: bool) -> Plan {
        let mut p = Plan::new(self.name());
        let n = rng.range(1, if thorough { 16 } else { 6 });
        for _ in 0..n {
            let mut m = gen_msg(rng);
            if m.a[1] > 300 && !rng.chance(1, 15) {
                m.a[1] = 300;
            }
            p.steps.push(m);
        }
        let peers = *rng.pick(&[0i64, 0, 1, 2]);
        let mtu = match rng.below(4) {
            0 => 1,
            1 => rng.range(2, 6),
            2 => rng.range(6, 40),
            _ => rng.range(40, 1400),
        };
        p.params = vec![rng.below(2) as i64, peers, mtu as i64, rng.below(16) as i64];
        let f = match rng.below(5) {
            0 => 0,
            1 => rng.below(12),
            _ => rng.range(10, 150),
        };
        p.data = rng.bytes(f as usize);
        p
    }
    fn exec(&self, p: &Plan, cx: &mut Cx) -> R {
        let framed = p.par(0) % 2 == 0;
        let (sreal, rreal) = match p.par(1) {
            1 => (true, false),
            2 => (false, true),
            _ => (true, true),
        };
        let way = p.upar(3);
        let msgs: Vec<Msg> = p.steps.iter().filter(|s| s.op == MSG).map(|s| if framed { msg(s) } else { framed_msg(s) }).collect();
        // the wire image; made anew whenever the sender restarts
        let build = |way: usize| -> Result<(Vec<u8>, Vec<usize>), Viol> {
            let mut stream = vec![];
            let mut ends = vec![];
            for (i, m) in msgs.iter().enumerate() {
                let want = wire(m, false, framed, 0).ok().unwrap();
                let b = match wire(m, sreal, framed, way + i) {
                    Ok(b) => b,
                    Err(Caught::Panic(e)) => return viol("cannot-send", format!("message {i}, {} value {}, cannot be encoded: {e}", m.t.name, shortv(&m.val))),
                    Err(_) => return viol("harness", "unwind"),
                };
                ensure!(b == want, "wire-format", "message {i}, {} value {}, is sent as {}, the documented format is {}", m.t.name, shortv(&m.val), short(&b), short(&want));
                stream.extend(b);
                ends.push(stream.len());
            }
            Ok((stream, ends))
        };
        let (mut stream, ends) = build(way)?;
        let total = stream.len();
        cx.bytes(&stream);
        for m in &msgs {
            cx.sig.s(m.t.name.as_bytes());
        }
        let mtu = p.upar(2).max(1).max(total / 400);
        let mut net = Net { ch: Choices::new(&p.data), now: 0, seq: 0, q: BinaryHeap::new(), partition_until: 0, last_fault: 0 };
        // sender
        let mut acked = 0usize;
        let mut next_tx = 0u64;
        let mut restarts = 0usize;
        // receiver: volatile reassembly store; durable progress
        let mut store: BTreeMap<usize, Vec<u8>> = BTreeMap::new();
        let mut done = 0usize;
        let mut offset = 0usize;
        let mut tries = 0usize;
        while acked < total || done < msgs.len() {
            // retransmission
            if net.now >= next_tx && acked < total {
                let mut o = acked;
                let mut k = 0;
                while o < total {
                    let n = (mtu - (k + net.now as usize) % ((mtu + 1) / 2).max(1)).max(1).min(total - o);
                    net.send(Ev::Data(o, stream[o..o + n].to_vec()), cx);
                    o += n;
                    k += 1;
                }
                next_tx = net.now + TIMEOUT;
            } else if acked >= total && done < msgs.len() {
                // zero-width messages at the end
                receive(&msgs, &ends, framed, rreal, way, &mut store, &mut done, &mut offset, &mut tries, cx)?;
                ensure!(done == msgs.len(), "stuck", "all {total} bytes are acknowledged, but only {done} of {} messages were delivered", msgs.len());
            }
            net.now += 1;
            cx.sim_ticks += 1;
            // deliveries of this tick
            while net.q.peek().is_some_and(|e| e.0 .0 <= net.now) {
                let std::cmp::Reverse((_, _, e)) = net.q.pop().unwrap();
                match e {
                    Ev::Data(o, b) => {
                        if o + b.len() > offset {
                            store.insert(o, b);
                        }
                        cx.ev(1, 0);
                        let before = done;
                        receive(&msgs, &ends, framed, rreal, way, &mut store, &mut done, &mut offset, &mut tries, cx)?;
                        cx.ev(2, (done - before).min(3) as u64);
                        if !net.ch.exhausted() && net.ch.byte() % 64 == 63 {
                            cx.fault("receiver crash and restart");
                            store.clear();
                            net.last_fault = net.now;
                        }
                        net.send(Ev::Ack(offset), cx);
                    }
                    Ev::Ack(o) => {
                        acked = acked.max(o);
                        cx.ev(3, 0);
                        if !net.ch.exhausted() && net.ch.byte() % 64 == 62 {
                            cx.fault("sender crash and restart");
                            restarts += 1;
                            net.last_fault = net.now;
                            // buffers are lost; the outgoing bytes are made again from the values
                            let again = build(way + restarts)?.0;
                            ensure!(again == stream, "wire-format", "a restarted sender produces {}, before it was {}", short(&again), short(&stream));
                            stream = again;
                            acked = 0;
                            next_tx = net.now + 1;
                        }
                    }
                }
            }
            if net.now > net.last_fault.max(net.partition_until) + BOUND && net.ch.exhausted() {
                return viol("stuck", format!("{} steps after the last fault {done} of {} messages are delivered; the receiver holds {} complete bytes from offset {offset} on, the next message needs {}", BOUND, msgs.len(), contiguous(&store, offset).len(), ends.get(done).map_or(0, |e| e - offset)));
            }
            ensure!(net.now < 200_000, "harness", "endless simulation");
        }
        cx.count("messages delivered", done as u64);
        cx.count("decode attempts", tries as u64);
        ensure!(done == msgs.len() && offset == total, "stuck", "at the end {done} of {} messages in {offset} of {total} bytes", msgs.len());
        Ok(())
    }
}
fn contiguous(store: &BTreeMap<usize, Vec<u8>>, offset: usize) -> Vec<u8> {
    let mut v: Vec<u8> = vec![];
    for (o, b) in store {
        let at = offset + v.len();
        if *o > at {
            break;
        }
        if o + b.len() > at {
            v.extend(&b[at - o..]);
        }
    }
    v
}
/// decode whatever is complete
#[allow(clippy::too_many_arguments)]
fn receive(msgs: &[Msg], ends: &[usize], framed: bool, real: bool, way: usize, store: &mut BTreeMap<usize, Vec<u8>>, done: &mut usize, offset: &mut usize, tries: &mut usize, cx: &mut Cx) -> R {
    let buf = contiguous(store, *offset);
    let mut at = 0;
    while *done < msgs.len() {
        let m = &msgs[*done];
        let size = ends[*done] - *offset;
        let b = &buf[at..];
        // do not retry before a byte of the message is there
        if b.is_empty() && size > 0 {
            break;
        }
        *tries += 1;
        let kind = KINDS[(way + *tries) % 4];
        let got = if !real {
            let mut c = rc::Cur::new(b);
            if framed {
                let s = rc::Sch::Dyn(rc::Pref::P30, Box::new(m.sch.clone()));
                rc::dec(&s, &mut c).map(|v| (v, c.pos))
            } else {
                rc::dec(&m.sch, &mut c).map(|v| (v, c.pos))
            }
        } else {
            let r = guarded(|| {
                let mut q = SimParser::with(b, Cfg { kind, budget: op_budget(b.len()), ..Default::default() });
                let r = if framed { (m.t.parse_dyn)(2, &mut q) } else { (m.t.parse_sim)(&mut q) };
                r.map(|v| (v, q.consumed)).map_err(|_| ())
            });
            match r {
                Ok(r) => r,
                Err(Caught::Panic(e)) => return viol("receiver-panic", format!("decoding {} of the {size} bytes of message {} ({}) panics: {e}", b.len().min(size), *done, m.t.name)),
                Err(_) => return viol("receiver-hang", format!("decoding {} of the {size} bytes of message {} ({}) does not end", b.len().min(size), *done, m.t.name)),
            }
        };
        match got {
            Ok((v, n)) => {
                ensure!(b.len() >= size, "delivered-early", "message {} ({}, {size} bytes) is delivered as {} when only {} bytes have arrived", *done, m.t.name, shortv(&v), b.len());
                ensure!(v == m.val, "value-changed", "message {} ({}) arrives as {}, sent was {}, in bytes {}", *done, m.t.name, shortv(&v), shortv(&m.val), short(&b[..size]));
                ensure!(n == size, "extent", "message {} ({}) is {size} bytes long, its decode consumes {n}", *done, m.t.name);
                cx.say(|| format!("message {} ({}) delivered, {size} bytes", *done, m.t.name));
                *done += 1;
                *offset += size;
                at += size;
            }
            Err(_) => {
                ensure!(b.len() < size, "rejected", "message {} ({} value {}), complete as {}, is rejected by the {} receiver ({kind:?})", *done, m.t.name, shortv(&m.val), short(&b[..size]), if real { "real" } else { "reference" });
                break;
            }
        }
    }
    // what is durable now need not be kept
    let off = *offset;
    store.retain(|o, b| o + b.len() > off);
    Ok(())
}
