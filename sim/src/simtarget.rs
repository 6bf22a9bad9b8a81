//! The output seam: a user-implemented `Target` that behaves like a disk or pipe. It records the
//! write calls, may crash the writer at a chosen point (after a torn write), and holds only what
//! became durable.
use crate::core::SimUnwind;
use std::cell::RefCell;
use tedium::Target;

#[derive(Clone, Debug, Default)]
pub struct SimTarget {
    pub out: Vec<u8>,
    pub writes: u64,
    pub resolves: u64,
    pub anticipated: u64,
    /// crash during this write call (0-based) ...
    pub crash_at: Option<u64>,
    /// ... after this many of its bytes reached the medium
    pub torn: usize,
    /// lengths of the individual writes
    pub lens: Vec<u32>,
    /// lengths of the output at the group marks
    pub marks: Vec<usize>,
    /// writes (their length) and group marks (None) in order
    pub log: Vec<Option<usize>>,
}
thread_local! {
    static NEXT: RefCell<SimTarget> = RefCell::new(SimTarget::default());
    static DEAD: RefCell<SimTarget> = RefCell::new(SimTarget::default());
}
/// configuration picked up by the next `create()`
pub fn arm(t: SimTarget) {
    NEXT.with(|n| *n.borrow_mut() = t)
}
impl SimTarget {
    fn put(&mut self, b: &[u8]) -> usize {
        if self.crash_at == Some(self.writes) {
            let k = self.torn.min(b.len());
            self.out.extend_from_slice(&b[..k]);
            DEAD.with(|d| *d.borrow_mut() = self.clone());
            std::panic::resume_unwind(Box::new(SimUnwind::Crash));
        }
        self.writes += 1;
        self.lens.push(b.len() as u32);
        self.log.push(Some(b.len()));
        self.out.extend_from_slice(b);
        b.len()
    }
}
/// the medium left behind by the writer that died last
pub fn corpse() -> SimTarget {
    DEAD.with(|d| d.borrow().clone())
}
impl Target for SimTarget {
    fn anticipate(&mut self, extra: usize) {
        self.anticipated = self.anticipated.max(extra as u64);
    }
    fn create() -> Self {
        NEXT.with(|n| n.borrow().clone())
    }
    fn push_one(&mut self, b: u8) -> usize {
        self.put(&[b])
    }
    fn push_many<const N: usize>(&mut self, arr: [u8; N]) -> usize {
        self.put(&arr)
    }
    fn push_all(&mut self, buf: &[u8]) -> usize {
        self.put(buf)
    }
    fn resolve(&mut self) {
        self.resolves += 1;
        self.marks.push(self.out.len());
        self.log.push(None);
    }
}
