//! World `bounded` (C15): histories of construction, extension, decoding and consumption of
//! bounded sequences whose element sources fail, lie or never end; every element is accounted for.
use crate::core::*;
use crate::ensure;
use crate::plan::{Plan, Step};
use crate::rng::Rng;
use crate::simparser::{Cfg, SimParser, KINDS};
use crate::simtarget::SimTarget;
use std::cell::RefCell;
use tedium::parse::ParseResult;
use tedium::{Decode, Encode, Estimable, FixSeq, LimSeq, Parser, Target};

pub struct Bounded;

// ---- accounted elements --------------------------------------------------------------------
#[derive(Default)]
struct Ledger {
    /// 0 unborn, 1 alive, 2 dropped
    state: Vec<u8>,
    double: u64,
    foreign: u64,
    /// the n-th clone fails
    clone_fails: Option<u64>,
}
thread_local! {
    static LEDGER: RefCell<Ledger> = RefCell::new(Ledger::default());
}
const MAGIC: u64 = 0x70c3_9a55_1ab0_e17e;
#[derive(Debug)]
struct Tok {
    magic: u64,
    id: usize,
    v: u8,
    // a heap part, so that bitwise duplicates are visible to the allocator too
    _heap: Box<u8>,
}
impl Tok {
    fn new(v: u8) -> Tok {
        LEDGER.with(|l| {
            let mut l = l.borrow_mut();
            l.state.push(1);
            Tok { magic: MAGIC, id: l.state.len() - 1, v, _heap: Box::new(v) }
        })
    }
}
impl Drop for Tok {
    fn drop(&mut self) {
        LEDGER.with(|l| {
            let mut l = l.borrow_mut();
            let id = self.id;
            if self.magic != MAGIC || id >= l.state.len() {
                l.foreign += 1;
            } else if l.state[id] != 1 {
                l.double += 1;
            } else {
                l.state[id] = 2;
                return;
            }
            // not ours to free
            let b = std::mem::replace(&mut self._heap, Box::new(0));
            std::mem::forget(b);
        })
    }
}
impl Clone for Tok {
    fn clone(&self) -> Tok {
        let fail = LEDGER.with(|l| {
            let mut l = l.borrow_mut();
            match l.clone_fails {
                Some(0) => {
                    l.clone_fails = None;
                    true
                }
                Some(n) => {
                    l.clone_fails = Some(n - 1);
                    false
                }
                None => false,
            }
        });
        if fail {
            std::panic::resume_unwind(Box::new(SimUnwind::Source));
        }
        Tok::new(self.v)
    }
}
impl PartialEq for Tok {
    fn eq(&self, o: &Tok) -> bool {
        self.v == o.v
    }
}
const BAD: u8 = 0xEE;
impl Encode for Tok {
    fn write_to<U: Target>(&self, buf: &mut U) -> usize {
        buf.push_one(self.v)
    }
}
impl Estimable for Tok {
    const KNOWN: Option<usize> = Some(1);
    fn unknown(&self) -> usize {
        0
    }
}
impl Decode for Tok {
    fn parse<P: Parser>(p: &mut P) -> ParseResult<Self> {
        let v = p.take_u8()?;
        if v == BAD {
            return Err(tedium::parse::error::ParseError::External(tedium::parse::error::ExternalError::GenericError("bad element".into())));
        }
        Ok(Tok::new(v))
    }
}

// ---- element sources -----------------------------------------------------------------------
struct Src {
    items: Vec<u8>,
    at: usize,
    /// 0 honest, 1 claims none, 2 claims very many, 3 claims too few, 4 claims one too many
    hint: i64,
    fail_at: Option<usize>,
    endless: bool,
    /// resumes after having ended
    revives: bool,
    ended: bool,
    pulled: usize,
}
const PULLS: usize = 300;
impl Src {
    fn new(s: &Step) -> Src {
        let n = s.b.len();
        Src {
            items: s.b.clone(),
            at: 0,
            hint: s.arg(0),
            fail_at: (s.arg(1) > 0).then(|| (s.uarg(1) - 1).min(n)),
            endless: s.arg(2) == 1,
            revives: s.arg(2) == 2,
            ended: false,
            pulled: 0,
        }
    }
}
impl Iterator for &mut Src {
    type Item = Tok;
    fn next(&mut self) -> Option<Tok> {
        self.pulled += 1;
        if self.pulled > PULLS {
            std::panic::resume_unwind(Box::new(SimUnwind::Budget));
        }
        if self.fail_at == Some(self.at) {
            std::panic::resume_unwind(Box::new(SimUnwind::Source));
        }
        if self.ended && self.revives {
            return Some(Tok::new(0xAB));
        }
        match self.items.get(self.at) {
            Some(v) => {
                self.at += 1;
                Some(Tok::new(*v))
            }
            None if self.endless => {
                self.at += 1;
                Some(Tok::new(0x77))
            }
            None => {
                self.ended = true;
                None
            }
        }
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        let left = self.items.len().saturating_sub(self.at);
        match self.hint {
            1 => (0, Some(0)),
            2 => (usize::MAX, None),
            3 => (left / 2, Some(left / 2)),
            4 => (left + 1, Some(left + 1)),
            5 => (1 << 20, Some(usize::MAX)),
            _ => (left, Some(left)),
        }
    }
}

// ---- the two kinds of bounded sequence -----------------------------------------------------
trait Bd: Sized + Clone + Encode + Decode + Estimable + std::fmt::Debug + PartialEq {
    const K: usize;
    const FIX: bool;
    fn empty(way: i64) -> Self;
    fn try_vec(v: Vec<Tok>) -> Result<Self, ()>;
    fn try_slice(v: &[Tok]) -> Result<Self, ()>;
    fn must_vec(v: Vec<Tok>) -> Self;
    fn collect(s: &mut Src) -> Self;
    fn extend(&mut self, s: &mut Src);
    fn items(&self) -> &[Tok];
    fn items_mut(&mut self) -> &mut [Tok];
    fn iter_some(self, n: usize) -> Vec<Tok>;
    fn by_ref(&self) -> Vec<u8>;
    fn vec(self, way: i64) -> Vec<Tok>;
}
macro_rules! bd { ($t:ident, $fix:expr, $mv:expr, $iv:expr) => {
    impl<const N: usize> Bd for $t<Tok, N> {
        const K: usize = N;
        const FIX: bool = $fix;
        fn empty(way: i64) -> Self { if way == 0 { <$t<Tok, N>>::new() } else { Default::default() } }
        fn try_vec(v: Vec<Tok>) -> Result<Self, ()> { Self::try_from(v).map_err(|_| ()) }
        fn try_slice(v: &[Tok]) -> Result<Self, ()> { Self::try_from(v).map_err(|_| ()) }
        fn must_vec(v: Vec<Tok>) -> Self { let f: fn(Vec<Tok>) -> Self = $mv; f(v) }
        fn collect(s: &mut Src) -> Self { s.collect() }
        fn extend(&mut self, s: &mut Src) { Extend::extend(self, s) }
        fn items(&self) -> &[Tok] { self }
        fn items_mut(&mut self) -> &mut [Tok] { self }
        fn iter_some(self, n: usize) -> Vec<Tok> { let mut i = self.into_iter(); let mut v = vec![]; for _ in 0..n { match i.next() { Some(x) => v.push(x), None => break } } v }
        fn by_ref(&self) -> Vec<u8> { self.into_iter().map(|t: &Tok| t.v).collect() }
        fn vec(self, way: i64) -> Vec<Tok> { let f: fn(Self) -> Vec<Tok> = $iv; if way == 0 { f(self) } else { Vec::from(self) } }
    }
} }
bd!(FixSeq, true, |v| Self::try_from(v).unwrap(), |s| Vec::from(s));
bd!(LimSeq, false, |v| Self::from_vec(v), |s| s.into_vec());

const NEW: u16 = 0;
const VEC: u16 = 1;
const SLICE: u16 = 2;
const COLLECT: u16 = 3;
const EXTEND: u16 = 4;
const DECODE: u16 = 5;
const MUSTVEC: u16 = 6;
const CLONE: u16 = 7;
const MUTATE: u16 = 8;
const ITER: u16 = 9;
const INTOVEC: u16 = 10;
const ENCODE: u16 = 11;
const NOPS: u64 = 12;

enum End<T> {
    Done(T),
    Refused,
    /// the element source died
    Failed,
}
fn call<T>(what: &str, f: impl FnOnce() -> Result<T, ()>) -> Result<End<T>, Viol> {
    match guarded(f) {
        Ok(Ok(t)) => Ok(End::Done(t)),
        Ok(Err(())) => Ok(End::Refused),
        Err(Caught::Panic(_)) => Ok(End::Refused),
        Err(Caught::Sim(SimUnwind::Source)) => Ok(End::Failed),
        Err(Caught::Sim(SimUnwind::Budget)) => viol("endless", format!("{what}: keeps pulling from the element source")),
        Err(Caught::Sim(u)) => viol("harness", format!("{what}: {u:?}")),
    }
}
fn toks(b: &[u8]) -> Vec<Tok> {
    b.iter().map(|x| Tok::new(*x)).collect()
}
/// the same with room to spare
fn roomy(s: &Step, k: usize) -> Vec<Tok> {
    let room = [0, 0, 0, 1, k, 8 * k + 3, 100][s.uarg(0) % 7];
    let mut v = Vec::with_capacity(s.b.len() + room);
    v.extend(s.b.iter().map(|x| Tok::new(*x)));
    v
}
fn vals(t: &[Tok]) -> Vec<u8> {
    t.iter().map(|x| if x.magic == MAGIC { x.v } else { 0xff }).collect()
}
fn run<B: Bd>(name: &str, p: &Plan, cx: &mut Cx) -> R {
    let mut s = B::empty(0);
    let mut m: Vec<u8> = vec![];
    let k = B::K;
    let held = |what: &str, s: &B, m: &[u8]| -> R {
        let v = vals(s.items());
        ensure!(v.len() <= k, "bound", "{name}: {what}: holds {} elements, the bound is {k}", v.len());
        ensure!(v == m, "elements", "{name}: {what}: holds {v:02x?}, expected {m:02x?}");
        ensure!(s.by_ref() == m, "elements", "{name}: {what}: iterates as {:02x?}, expected {m:02x?}", s.by_ref());
        Ok(())
    };
    for (i, st) in p.steps.iter().enumerate() {
        let n = st.b.len();
        let what = format!("step {i} (op {}, {n} elements)", st.op);
        let mut outcome = 0;
        // built anew: what it must hold, and whether it must / must not be accepted
        let mut fresh: Option<(End<B>, Vec<u8>, bool, bool)> = None;
        match st.op {
            NEW => fresh = Some((call(&what, || Ok(B::empty(st.arg(0))))?, vec![], true, false)),
            VEC => fresh = Some((call(&what, || B::try_vec(roomy(st, k)))?, st.b.clone(), n <= k, n > k)),
            MUSTVEC => fresh = Some((call(&what, || Ok(B::must_vec(roomy(st, k))))?, st.b.clone(), n <= k, n > k)),
            SLICE => {
                let v = toks(&st.b);
                if st.arg(1) > 0 {
                    LEDGER.with(|l| l.borrow_mut().clone_fails = Some(st.arg(1) as u64 - 1));
                }
                let r = call(&what, || B::try_slice(&v))?;
                LEDGER.with(|l| l.borrow_mut().clone_fails = None);
                ensure!(vals(&v) == st.b, "elements", "{name}: {what}: building from a slice altered the slice");
                let must = if B::FIX { n == k } else { n <= k };
                fresh = Some((r, st.b.clone(), must, n > k));
            }
            COLLECT => {
                let mut src = Src::new(st);
                let r = call(&what, || Ok(B::collect(&mut src)))?;
                let too_many = src.endless || n > k;
                // a failing source may fail before or after it has exceeded the bound
                let fails = src.fail_at.is_some_and(|f| f <= n.min(k));
                fresh = Some((r, st.b.clone(), !too_many && src.fail_at.is_none(), too_many || fails));
            }
            EXTEND => {
                let mut src = Src::new(st);
                let total = m.len() + n;
                let r = call(&what, || {
                    B::extend(&mut s, &mut src);
                    Ok(())
                })?;
                let too_many = src.endless || total > k;
                let supplied: Vec<u8> = st.b.iter().copied().chain(std::iter::repeat(0x77).take(if src.endless { k } else { 0 })).collect();
                match r {
                    End::Done(()) => {
                        ensure!(!too_many, "bound", "{name}: {what}: {} and {n} more elements{} are accepted, the bound is {k}", m.len(), if src.endless { " (endlessly)" } else { "" });
                        ensure!(src.fail_at.is_none(), "elements", "{name}: {what}: succeeds without reaching the end of its source");
                        m.extend(&st.b);
                    }
                    e => {
                        outcome = 1;
                        let failed = matches!(e, End::Failed);
                        ensure!(too_many || (failed && src.fail_at.is_some()), "refused", "{name}: {what}: {} and {n} more elements are refused, the bound is {k}", m.len());
                        cx.fault(if failed { "element source died" } else { "supply beyond the bound" });
                        // what was held is intact; what was supplied may have been taken in part
                        let v = vals(s.items());
                        ensure!(v.len() <= k, "bound", "{name}: {what}: refused, yet {} elements are held, the bound is {k}", v.len());
                        ensure!(v.starts_with(&m) && supplied.starts_with(&v[m.len()..]), "elements", "{name}: {what}: refused, held was {m:02x?}, now {v:02x?}");
                        m = v;
                    }
                }
            }
            DECODE => {
                let kind = KINDS[st.uarg(0) % 4];
                let r = guarded(|| {
                    let mut q = SimParser::with(&st.b, Cfg { kind, budget: 1000, ..Default::default() });
                    let r = B::parse(&mut q);
                    (r.map_err(|_| ()), q.consumed)
                });
                let (r, used) = match r {
                    Ok(x) => x,
                    Err(Caught::Sim(SimUnwind::Budget)) => return viol("endless", format!("{name}: {what}: decoding {:02x?} does not end", st.b)),
                    Err(Caught::Sim(u)) => return viol("harness", format!("{u:?}")),
                    Err(Caught::Panic(e)) => return viol("refused", format!("{name}: {what}: decoding {:02x?} panics: {e}", st.b)),
                };
                let want = if B::FIX { n >= k && !st.b[..k].contains(&BAD) } else { n <= k && !st.b.contains(&BAD) };
                let take = if B::FIX { k.min(n) } else { n };
                if r.is_ok() {
                    ensure!(used == take, "elements", "{name}: {what}: decoding {:02x?} consumed {used} bytes", st.b);
                } else {
                    cx.fault("decode of too many, too few or bad elements");
                }
                let e = match r {
                    Ok(b) => End::Done(b),
                    Err(()) => End::Refused,
                };
                fresh = Some((e, st.b[..take].to_vec(), want, !want));
            }
            CLONE => {
                if st.arg(1) > 0 {
                    LEDGER.with(|l| l.borrow_mut().clone_fails = Some(st.arg(1) as u64 - 1));
                }
                let r = call(&what, || Ok(s.clone()))?;
                let armed = LEDGER.with(|l| l.borrow_mut().clone_fails.take()).is_some();
                held(&what, &s, &m)?;
                match r {
                    End::Done(c) => {
                        ensure!(c == s, "elements", "{name}: {what}: a clone differs: {:02x?}", vals(c.items()));
                        if st.arg(0) % 2 == 0 {
                            s = c;
                        } else {
                            drop(c);
                        }
                    }
                    End::Failed if !armed => {
                        cx.fault("element clone failed");
                        outcome = 1;
                    }
                    _ => return viol("refused", format!("{name}: {what}: cloning is refused")),
                }
            }
            MUTATE => {
                if !m.is_empty() {
                    let at = st.uarg(0) % m.len();
                    let v = st.arg(1) as u8;
                    s.items_mut()[at] = Tok::new(v);
                    m[at] = v;
                    if st.arg(1) % 3 == 0 {
                        s.items_mut().reverse();
                        m.reverse();
                    }
                }
            }
            ITER => {
                let old = std::mem::replace(&mut s, B::empty(1));
                let want: Vec<u8> = m.iter().copied().take(st.uarg(0)).collect();
                let got = no_panic(&what, || old.iter_some(st.uarg(0)))?;
                ensure!(vals(&got) == want, "elements", "{name}: {what}: yields {:02x?}, expected {want:02x?}", vals(&got));
                m.clear();
            }
            INTOVEC => {
                let old = std::mem::replace(&mut s, B::empty(0));
                let v = no_panic(&what, || old.vec(st.arg(0)))?;
                ensure!(vals(&v) == m, "elements", "{name}: {what}: converts to {:02x?}, held were {m:02x?}", vals(&v));
                fresh = Some((call(&what, || B::try_vec(v))?, m.clone(), true, false));
            }
            ENCODE => {
                let mut t = SimTarget::default();
                let r = guarded(|| s.write_to(&mut t));
                if let Ok(c) = r {
                    ensure!(t.out == m && c == m.len(), "elements", "{name}: {what}: encodes as {:02x?}, held are {m:02x?}", t.out);
                }
            }
            _ => {}
        }
        if let Some((e, want, must, mustnt)) = fresh {
            match e {
                End::Done(b) => {
                    ensure!(!mustnt, "bound", "{name}: {what}: accepted as {:02x?}, which the bound {k} or a failing source excludes", vals(b.items()));
                    held(&what, &b, &want)?;
                    // what was held before is untouched by making another one
                    if st.op != INTOVEC {
                        held(&what, &s, &m)?;
                    }
                    s = b;
                    m = want;
                }
                End::Refused => {
                    outcome = 1;
                    ensure!(!must, "refused", "{name}: {what}: {} elements are refused, the bound is {k}", want.len());
                    cx.fault("supply beyond the bound");
                }
                End::Failed => {
                    outcome = 1;
                    ensure!(!must || matches!(st.op, SLICE), "refused", "{name}: {what}: fails without a failing source");
                    cx.fault("element source died");
                }
            }
        }
        held(&what, &s, &m)?;
        cx.ev(st.op as u64, outcome | (bucket(m.len()) << 1));
        cx.say(|| format!("{name} {what} -> {m:02x?}"));
        let bad = LEDGER.with(|l| {
            let l = l.borrow();
            (l.double, l.foreign, l.state.iter().filter(|x| **x == 1).count())
        });
        ensure!(bad.0 == 0 && bad.1 == 0, "drops", "{name}: {what}: {} elements dropped twice, {} never created", bad.0, bad.1);
        ensure!(bad.2 == m.len(), "leak", "{name}: {what}: {} elements alive, {} are held", bad.2, m.len());
    }
    drop(s);
    let bad = LEDGER.with(|l| {
        let l = l.borrow();
        (l.double, l.foreign, l.state.iter().filter(|x| **x == 1).count())
    });
    ensure!(bad == (0, 0, 0), "drops", "{name}: at the end {} elements dropped twice, {} never created, {} leaked", bad.0, bad.1, bad.2);
    Ok(())
}
impl World for Bounded {
    fn name(&self) -> &'static str {
        "bounded"
    }
    fn gen(&self, rng: &mut Rng, thorough: bool) -> Plan {
        let mut p = Plan::new(self.name());
        let shape = rng.below(14);
        let k = KS[(shape / 2) as usize];
        p.params = vec![shape as i64];
        for _ in 0..rng.range(1, if thorough { 40 } else { 14 }) {
            let op = rng.weighted(&[1, 3, 3, 4, 6, 4, 2, 2, 2, 2, 1, 2]) as u16;
            debug_assert!((op as u64) < NOPS);
            let n = match rng.below(6) {
                0 => k,
                1 => k + 1,
                2 => k.saturating_sub(1),
                3 => k + rng.below(20) as usize,
                _ => rng.below(4) as usize,
            };
            let mut b = rng.bytes(n);
            for x in &mut b {
                // sources do not yield the two marker bytes
                if *x == BAD || *x == 0x77 || *x == 0xAB {
                    *x = 1;
                }
            }
            let mut a = [rng.below(12) as i64, 0, 0];
            match op {
                COLLECT | EXTEND => {
                    a[0] = if rng.chance(1, 3) { rng.below(6) as i64 } else { 0 };
                    a[1] = if rng.chance(1, 5) { 1 + rng.below(n as u64 + 1) as i64 } else { 0 };
                    a[2] = *rng.pick(&[0, 0, 0, 0, 0, 1, 2]);
                }
                SLICE | CLONE => a[1] = if rng.chance(1, 4) { 1 + rng.below(k as u64 + 1) as i64 } else { 0 },
                DECODE if n > 0 && rng.chance(1, 4) => {
                    let at = rng.below(n as u64) as usize;
                    b[at] = BAD;
                }
                MUTATE => a[1] = rng.below(200) as i64,
                _ => {}
            }
            if matches!(op, NEW | CLONE | MUTATE | ITER | INTOVEC | ENCODE) {
                b.clear();
            }
            p.steps.push(Step::with(op, &a, b));
        }
        p
    }
    fn exec(&self, p: &Plan, cx: &mut Cx) -> R {
        LEDGER.with(|l| *l.borrow_mut() = Ledger::default());
        cx.sig.u(p.par(0) as u64);
        for s in &p.steps {
            cx.bytes(&s.b);
        }
        macro_rules! go { ($($i:expr, $k:expr);*) => { match p.upar(0) % 14 {
            $( x if x / 2 == $i => if x % 2 == 0 { run::<FixSeq<Tok, $k>>(concat!("FixSeq<_, ", $k, ">"), p, cx) } else { run::<LimSeq<Tok, $k>>(concat!("LimSeq<_, ", $k, ">"), p, cx) } )*
            _ => Ok(()),
        } } }
        go!(0, 0; 1, 1; 2, 2; 3, 3; 4, 5; 5, 8; 6, 33)
    }
}
const KS: [usize; 7] = [0, 1, 2, 3, 5, 8, 33];
