//! The input seam: a user-implemented `Parser` that forwards to one of the real parsers (or to an
//! independent model parser), counts operations, and injects source failures.
use crate::core::SimUnwind;
use std::cell::Cell;
use tedium::parse::buffer::{SliceBuffer, VecBuffer};
use tedium::parse::cleanup::{CleanupResult, LeftoverState};
use tedium::parse::error::{ParseError, ParseResult, WindowError};
use tedium::{ByteParser, MemoParser, Parser, SliceParser};

/// Independent reference parser: a cursor below a stack of absolute limits.
#[derive(Clone, Debug)]
pub struct ModelParser<'a> {
    pub b: &'a [u8],
    pub pos: usize,
    pub lim: Vec<usize>,
}
impl<'a> ModelParser<'a> {
    pub fn new(b: &'a [u8]) -> Self {
        ModelParser { b, pos: 0, lim: vec![] }
    }
    pub fn limit(&self) -> usize {
        self.lim.last().copied().unwrap_or(self.b.len())
    }
    pub fn rem(&self) -> usize {
        self.limit() - self.pos
    }
    pub fn take(&mut self, n: usize) -> Option<&'a [u8]> {
        if n > self.rem() {
            return None;
        }
        let r = &self.b[self.pos..self.pos + n];
        self.pos += n;
        Some(r)
    }
    pub fn open(&mut self, n: usize) -> bool {
        if n > self.rem() {
            return false;
        }
        self.lim.push(self.pos + n);
        true
    }
    pub fn may_close(&self) -> bool {
        !self.lim.is_empty() && self.rem() == 0
    }
    pub fn close(&mut self) -> bool {
        if self.may_close() {
            self.lim.pop();
            true
        } else {
            false
        }
    }
    /// leftover spans, innermost window first; the root residue last, only if present
    pub fn spans(&self) -> Vec<Vec<u8>> {
        let mut v = vec![];
        let mut p = self.pos;
        for l in self.lim.iter().rev() {
            v.push(self.b[p..*l].to_vec());
            p = *l;
        }
        if p < self.b.len() {
            v.push(self.b[p..].to_vec());
        }
        v
    }
}

fn over(requested: usize, limit: usize) -> ParseError {
    ParseError::Window(WindowError::ConsumeWouldExceedLimit { offset: 0, requested, limit })
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Kind {
    Byte,
    Memo,
    Slice,
    Model,
}
pub const KINDS: [Kind; 4] = [Kind::Byte, Kind::Memo, Kind::Slice, Kind::Model];

pub enum Inner<'a> {
    Byte(ByteParser),
    Memo(MemoParser),
    Slice(SliceParser<'a>),
    Model(ModelParser<'a>),
}
macro_rules! fwd {
    ($s:expr, $p:ident => $e:expr, $m:ident => $f:expr) => {
        match $s {
            Inner::Byte($p) => $e,
            Inner::Memo($p) => $e,
            Inner::Slice($p) => $e,
            Inner::Model($m) => $f,
        }
    };
}

#[derive(Clone, Debug)]
pub struct SourceFault;
impl std::fmt::Display for SourceFault {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "simulated source failure")
    }
}
impl std::error::Error for SourceFault {}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum FaultStyle {
    /// an external error
    External,
    /// the source claims that the buffer ended
    Short,
    /// window errors as real parsers produce them
    Window,
}
pub struct Cfg {
    pub kind: Kind,
    /// fail the n-th fallible operation (0-based)
    pub fail_at: Option<u64>,
    pub style: FaultStyle,
    /// keep failing afterwards
    pub permanent: bool,
    pub budget: u64,
}
impl Default for Cfg {
    fn default() -> Self {
        Cfg { kind: Kind::Byte, fail_at: None, style: FaultStyle::External, permanent: false, budget: u64::MAX }
    }
}

pub struct SimParser<'a> {
    pub inner: Inner<'a>,
    pub cfg: Cfg,
    /// fallible operations so far
    pub ops: u64,
    /// all operations, including infallible queries
    pub all: Cell<u64>,
    pub fired: bool,
    /// consumption attempts issued after the injected failure was returned
    pub after_fault: u64,
    pub consumed: usize,
    /// successfully opened / closed windows
    pub opened: u64,
    pub closed: u64,
    pub max_depth: u64,
    pub fired_kind: u8,
}
impl<'a> SimParser<'a> {
    pub fn with(b: &'a [u8], cfg: Cfg) -> Self {
        let inner = match cfg.kind {
            Kind::Byte => Inner::Byte(ByteParser::from_buffer(VecBuffer::from(b))),
            Kind::Memo => Inner::Memo(MemoParser::from_buffer(VecBuffer::from(b))),
            Kind::Slice => Inner::Slice(SliceParser::from_buffer(SliceBuffer::from(b))),
            Kind::Model => Inner::Model(ModelParser::new(b)),
        };
        SimParser {
            inner,
            cfg,
            ops: 0,
            all: Cell::new(0),
            fired: false,
            after_fault: 0,
            consumed: 0,
            opened: 0,
            closed: 0,
            max_depth: 0,
            fired_kind: 0,
        }
    }
    fn query(&self) {
        let n = self.all.get() + 1;
        self.all.set(n);
        if n > self.cfg.budget {
            std::panic::resume_unwind(Box::new(SimUnwind::Budget));
        }
    }
    /// kind: 0 consume, 1 open, 2 test, 3 close
    fn tick(&mut self, kind: u8, n: usize) -> Result<(), ParseError> {
        self.query();
        if self.fired && kind == 0 {
            self.after_fault += 1;
        }
        let k = self.ops;
        self.ops += 1;
        let hit = self.cfg.fail_at == Some(k) || (self.fired && self.cfg.permanent);
        if hit {
            if !self.fired {
                self.fired = true;
                self.fired_kind = kind;
            }
            return Err(match self.cfg.style {
                FaultStyle::External => ParseError::reify(SourceFault),
                FaultStyle::Short => over(n, 0),
                FaultStyle::Window => match kind {
                    1 => ParseError::Window(WindowError::OpenWouldExceedWindow { limit: 0, request: n }),
                    2 => ParseError::Window(WindowError::OffsetOverflow { excess: 1 }),
                    3 => ParseError::Window(WindowError::CloseWithResidue { residual: 1 }),
                    _ => over(n, 0),
                },
            });
        }
        Ok(())
    }
    pub fn depth(&self) -> u64 {
        self.opened - self.closed
    }
}
impl<'a> Parser for SimParser<'a> {
    type Buffer = (&'a [u8], Cfg);
    fn from_buffer(b: Self::Buffer) -> Self {
        SimParser::with(b.0, b.1)
    }
    fn view_len(&self) -> usize {
        self.query();
        fwd!(&self.inner, p => p.view_len(), m => m.limit())
    }
    fn offset(&self) -> usize {
        self.query();
        fwd!(&self.inner, p => p.offset(), m => m.pos)
    }
    fn remainder(&self) -> usize {
        self.query();
        fwd!(&self.inner, p => p.remainder(), m => m.rem())
    }
    fn consume_byte(&mut self) -> ParseResult<u8> {
        self.tick(0, 1)?;
        let r = fwd!(&mut self.inner, p => p.consume_byte(), m => {
            let l = m.limit();
            m.take(1).map(|x| x[0]).ok_or_else(|| over(1, l))
        });
        if r.is_ok() {
            self.consumed += 1;
        }
        r
    }
    fn consume(&mut self, n: usize) -> ParseResult<&[u8]> {
        self.tick(0, n)?;
        let r = fwd!(&mut self.inner, p => p.consume(n), m => {
            let l = m.limit();
            m.take(n).ok_or_else(|| over(n, l))
        });
        if r.is_ok() {
            self.consumed += n;
        }
        r
    }
    fn set_fit(&mut self, n: usize) -> ParseResult<()> {
        self.tick(1, n)?;
        let r = fwd!(&mut self.inner, p => p.set_fit(n), m => {
            let limit = m.rem();
            if m.open(n) { Ok(()) } else { Err(ParseError::Window(WindowError::OpenWouldExceedWindow { limit, request: n })) }
        });
        if r.is_ok() {
            self.opened += 1;
            self.max_depth = self.max_depth.max(self.depth());
        }
        r
    }
    fn test_target(&mut self) -> ParseResult<bool> {
        self.tick(2, 0)?;
        fwd!(&mut self.inner, p => p.test_target(), m => Ok(m.may_close()))
    }
    fn enforce_target(&mut self) -> ParseResult<()> {
        self.tick(3, 0)?;
        let r = fwd!(&mut self.inner, p => p.enforce_target(), m => {
            if m.lim.is_empty() { Err(ParseError::Window(WindowError::CloseWithoutWindow)) }
            else if m.close() { Ok(()) }
            else { Err(ParseError::Window(WindowError::CloseWithResidue { residual: m.rem() })) }
        });
        if r.is_ok() {
            self.closed += 1;
        }
        r
    }
    fn cleanup(self) -> CleanupResult {
        fwd!(self.inner, p => p.cleanup(), m => {
            let mut l = LeftoverState::new();
            for s in m.spans() {
                l.append(&mut s.clone());
            }
            Ok(l)
        })
    }
}
