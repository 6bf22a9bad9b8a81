//! A plan is one completely explicit simulated run: workload, schedule and fault trace.
//! `exec(plan)` is a pure function of the plan and of the code under test, so the plan is the
//! replay file.
use std::fmt::Write;

#[derive(Clone, Debug, PartialEq, Default)]
pub struct Step {
    pub op: u16,
    pub a: Vec<i64>,
    pub b: Vec<u8>,
}
impl Step {
    pub fn new(op: u16, a: &[i64]) -> Self {
        Step { op, a: a.to_vec(), b: vec![] }
    }
    pub fn with(op: u16, a: &[i64], b: Vec<u8>) -> Self {
        Step { op, a: a.to_vec(), b }
    }
    pub fn arg(&self, i: usize) -> i64 {
        self.a.get(i).copied().unwrap_or(0)
    }
    pub fn uarg(&self, i: usize) -> usize {
        self.arg(i).max(0) as usize
    }
}

#[derive(Clone, Debug, PartialEq, Default)]
pub struct Plan {
    pub world: String,
    pub params: Vec<i64>,
    pub data: Vec<u8>,
    pub steps: Vec<Step>,
}
impl Plan {
    pub fn new(world: &str) -> Self {
        Plan { world: world.to_string(), ..Default::default() }
    }
    pub fn par(&self, i: usize) -> i64 {
        self.params.get(i).copied().unwrap_or(0)
    }
    pub fn upar(&self, i: usize) -> usize {
        self.par(i).max(0) as usize
    }
    pub fn size(&self) -> usize {
        self.data.len()
            + self.data.iter().filter(|b| **b != 0).count()
            + self.params.iter().map(|x| (64 - x.unsigned_abs().leading_zeros()) as usize).sum::<usize>()
            + self
                .steps
                .iter()
                .map(|s| {
                    20 + s.b.len() * 2
                        + s.a.iter().map(|x| (64 - x.unsigned_abs().leading_zeros()) as usize).sum::<usize>()
                })
                .sum::<usize>()
    }
    pub fn to_json(&self) -> String {
        let mut s = String::new();
        let ints = |v: &[i64]| v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",");
        let _ = write!(
            s,
            "{{\"world\":\"{}\",\"params\":[{}],\"data\":\"{}\",\"steps\":[",
            self.world,
            ints(&self.params),
            hex(&self.data)
        );
        for (i, st) in self.steps.iter().enumerate() {
            if i > 0 {
                s.push(',');
            }
            let _ = write!(s, "{{\"op\":{},\"a\":[{}],\"b\":\"{}\"}}", st.op, ints(&st.a), hex(&st.b));
        }
        s.push_str("]}");
        s
    }
    pub fn from_json(j: &Json) -> Option<Plan> {
        let ints = |j: &Json| -> Option<Vec<i64>> { j.arr()?.iter().map(|x| x.int()).collect() };
        Some(Plan {
            world: j.get("world")?.str()?.to_string(),
            params: ints(j.get("params")?)?,
            data: unhex(j.get("data")?.str()?)?,
            steps: j
                .get("steps")?
                .arr()?
                .iter()
                .map(|s| {
                    Some(Step {
                        op: s.get("op")?.int()? as u16,
                        a: ints(s.get("a")?)?,
                        b: unhex(s.get("b")?.str()?)?,
                    })
                })
                .collect::<Option<Vec<_>>>()?,
        })
    }
}

pub fn hex(b: &[u8]) -> String {
    const D: &[u8; 16] = b"0123456789abcdef";
    let mut s = String::with_capacity(b.len() * 2);
    for x in b {
        s.push(D[(x >> 4) as usize] as char);
        s.push(D[(x & 15) as usize] as char);
    }
    s
}
pub fn unhex(s: &str) -> Option<Vec<u8>> {
    let b = s.as_bytes();
    if b.len() % 2 != 0 {
        return None;
    }
    let d = |c: u8| (c as char).to_digit(16);
    b.chunks(2).map(|p| Some((d(p[0])? * 16 + d(p[1])?) as u8)).collect()
}

#[derive(Clone, Debug)]
pub enum Json {
    Null,
    Bool(bool),
    Int(i64),
    Str(String),
    Arr(Vec<Json>),
    Obj(Vec<(String, Json)>),
}
impl Json {
    pub fn get(&self, k: &str) -> Option<&Json> {
        match self {
            Json::Obj(v) => v.iter().find(|x| x.0 == k).map(|x| &x.1),
            _ => None,
        }
    }
    pub fn str(&self) -> Option<&str> {
        match self {
            Json::Str(s) => Some(s),
            _ => None,
        }
    }
    pub fn int(&self) -> Option<i64> {
        match self {
            Json::Int(s) => Some(*s),
            _ => None,
        }
    }
    pub fn arr(&self) -> Option<&[Json]> {
        match self {
            Json::Arr(s) => Some(s),
            _ => None,
        }
    }
    pub fn parse(s: &str) -> Option<Json> {
        let b = s.as_bytes();
        let mut p = 0;
        let r = val(b, &mut p)?;
        Some(r)
    }
}
fn ws(b: &[u8], p: &mut usize) {
    while *p < b.len() && b[*p].is_ascii_whitespace() {
        *p += 1
    }
}
fn val(b: &[u8], p: &mut usize) -> Option<Json> {
    ws(b, p);
    match *b.get(*p)? {
        b'{' => {
            *p += 1;
            let mut v = vec![];
            loop {
                ws(b, p);
                if *b.get(*p)? == b'}' {
                    *p += 1;
                    return Some(Json::Obj(v));
                }
                if *b.get(*p)? == b',' {
                    *p += 1;
                    continue;
                }
                let k = match val(b, p)? {
                    Json::Str(s) => s,
                    _ => return None,
                };
                ws(b, p);
                if *b.get(*p)? != b':' {
                    return None;
                }
                *p += 1;
                v.push((k, val(b, p)?));
            }
        }
        b'[' => {
            *p += 1;
            let mut v = vec![];
            loop {
                ws(b, p);
                match *b.get(*p)? {
                    b']' => {
                        *p += 1;
                        return Some(Json::Arr(v));
                    }
                    b',' => *p += 1,
                    _ => v.push(val(b, p)?),
                }
            }
        }
        b'"' => {
            *p += 1;
            let mut s = Vec::new();
            loop {
                match *b.get(*p)? {
                    b'"' => {
                        *p += 1;
                        return Some(Json::Str(String::from_utf8_lossy(&s).into_owned()));
                    }
                    b'\\' => {
                        s.push(match *b.get(*p + 1)? {
                            b'n' => b'\n',
                            b'u' => {
                                *p += 4;
                                b'?'
                            }
                            c => c,
                        });
                        *p += 2;
                    }
                    c => {
                        s.push(c);
                        *p += 1;
                    }
                }
            }
        }
        b't' => {
            *p += 4;
            Some(Json::Bool(true))
        }
        b'f' => {
            *p += 5;
            Some(Json::Bool(false))
        }
        b'n' => {
            *p += 4;
            Some(Json::Null)
        }
        _ => {
            let s = *p;
            while *p < b.len() && (b[*p] == b'-' || b[*p] == b'.' || b[*p].is_ascii_alphanumeric() || b[*p] == b'+') {
                *p += 1
            }
            std::str::from_utf8(&b[s..*p]).ok()?.parse::<i64>().ok().map(Json::Int)
        }
    }
}
pub fn esc(s: &str) -> String {
    let mut o = String::new();
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 || (c as u32) > 126 => o.push_str(&format!("\\u{:04x}", (c as u32).min(0xffff))),
            c => o.push(c),
        }
    }
    o
}

/// Delta-debugging of a plan. `bad` tells whether a candidate still shows the same violation.
pub fn shrink(plan: &Plan, max_evals: usize, mut bad: impl FnMut(&Plan) -> bool) -> (Plan, usize) {
    let mut cur = plan.clone();
    let mut n = 0usize;
    let mut try_ = |c: Plan, cur: &mut Plan, n: &mut usize| -> bool {
        if *n >= max_evals || c == *cur {
            return false;
        }
        *n += 1;
        if bad(&c) {
            *cur = c;
            true
        } else {
            false
        }
    };
    loop {
        let before = cur.clone();
        // drop chunks of steps
        let mut size = (cur.steps.len() / 2).max(1);
        loop {
            let mut i = 0;
            while i < cur.steps.len() {
                let mut c = cur.clone();
                let e = (i + size).min(c.steps.len());
                c.steps.drain(i..e);
                if !try_(c, &mut cur, &mut n) {
                    i += size;
                }
            }
            if size == 1 || cur.steps.is_empty() {
                break;
            }
            size /= 2;
        }
        // shrink data: drop chunks, then zero bytes
        let mut size = (cur.data.len() / 2).max(1);
        loop {
            let mut i = 0;
            while i < cur.data.len() {
                let mut c = cur.clone();
                let e = (i + size).min(c.data.len());
                c.data.drain(i..e);
                if !try_(c, &mut cur, &mut n) {
                    i += size;
                }
            }
            if size == 1 || cur.data.is_empty() {
                break;
            }
            size /= 2;
        }
        for i in 0..cur.data.len().min(200) {
            if cur.data[i] != 0 {
                for v in [0, 1, cur.data[i] / 2] {
                    let mut c = cur.clone();
                    c.data[i] = v;
                    if c.data[i] != cur.data[i] && try_(c, &mut cur, &mut n) {
                        break;
                    }
                }
            }
        }
        // integers towards zero
        for i in 0..cur.params.len() {
            shrink_int(&mut cur, &mut n, &mut try_, |p| &mut p.params[i]);
        }
        for s in 0..cur.steps.len() {
            for i in 0..cur.steps[s].a.len() {
                shrink_int(&mut cur, &mut n, &mut try_, |p| &mut p.steps[s].a[i]);
            }
            let mut size = (cur.steps[s].b.len() / 2).max(1);
            while !cur.steps[s].b.is_empty() {
                let mut i = 0;
                while i < cur.steps[s].b.len() {
                    let mut c = cur.clone();
                    let e = (i + size).min(c.steps[s].b.len());
                    c.steps[s].b.drain(i..e);
                    if !try_(c, &mut cur, &mut n) {
                        i += size;
                    }
                }
                if size == 1 {
                    break;
                }
                size /= 2;
            }
        }
        if cur == before || n >= max_evals {
            break;
        }
    }
    (cur, n)
}
fn shrink_int(
    cur: &mut Plan,
    n: &mut usize,
    try_: &mut impl FnMut(Plan, &mut Plan, &mut usize) -> bool,
    get: impl Fn(&mut Plan) -> &mut i64,
) {
    loop {
        let v = *get(&mut cur.clone());
        let mut done = true;
        for c in [0, v / 2, v - v.signum()] {
            if c == v {
                continue;
            }
            let mut p = cur.clone();
            *get(&mut p) = c;
            if try_(p, cur, n) {
                done = false;
                break;
            }
        }
        if done || *get(&mut cur.clone()) == 0 {
            break;
        }
    }
}
