//! The FlatBuffers binary format, written from its specification and
//! independent of the implementation under test: a value model, a verifier that
//! accounts for every byte of a buffer, a free-layout encoder and a reference
//! reader for arbitrary bytes.

use std::collections::{BTreeMap, HashMap};
use std::rc::Rc;

pub mod encode;
pub mod refread;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
pub enum Ty {
    Bool,
    U8,
    I8,
    U16,
    I16,
    U32,
    I32,
    U64,
    I64,
    F32,
    F64,
}
pub const TYS: [Ty; 11] = [Ty::Bool, Ty::U8, Ty::I8, Ty::U16, Ty::I16, Ty::U32, Ty::I32, Ty::U64, Ty::I64, Ty::F32, Ty::F64];

impl Ty {
    pub fn size(self) -> usize {
        match self {
            Ty::Bool | Ty::U8 | Ty::I8 => 1,
            Ty::U16 | Ty::I16 => 2,
            Ty::U32 | Ty::I32 | Ty::F32 => 4,
            _ => 8,
        }
    }
    pub fn mask(self) -> u64 {
        match self.size() {
            1 => 0xff,
            2 => 0xffff,
            4 => 0xffff_ffff,
            _ => u64::MAX,
        }
    }
}

/// A value as the format sees it.  Scalars are raw little-endian bit patterns.
#[derive(Debug, Clone, PartialEq)]
pub enum Node {
    Sc(Ty, u64),
    Str(String),
    /// zero-terminated byte vector (a string that need not be UTF-8)
    Bytes(Vec<u8>),
    VecSc(Ty, Vec<u64>),
    VecRef(Vec<Rc<Node>>),
    /// slot index -> value
    Table(BTreeMap<u16, Rc<Node>>),
}
pub type N = Rc<Node>;

pub fn sc(t: Ty, v: u64) -> N {
    Rc::new(Node::Sc(t, v & t.mask()))
}
pub fn st(s: &str) -> N {
    Rc::new(Node::Str(s.to_string()))
}
pub fn vecsc(t: Ty, v: &[u64]) -> N {
    Rc::new(Node::VecSc(t, v.iter().map(|x| x & t.mask()).collect()))
}
pub fn vecref(v: Vec<N>) -> N {
    Rc::new(Node::VecRef(v))
}
pub fn table(fs: Vec<(u16, N)>) -> N {
    Rc::new(Node::Table(fs.into_iter().collect()))
}

pub fn rd(buf: &[u8], loc: usize, n: usize) -> Option<u64> {
    let e = loc.checked_add(n)?;
    if e > buf.len() {
        return None;
    }
    let mut v = 0u64;
    for i in (0..n).rev() {
        v = (v << 8) | buf[loc + i] as u64;
    }
    Some(v)
}

#[derive(Default, Debug)]
pub struct Report {
    /// table location, vtable location, vtable bytes
    pub tables: Vec<(usize, usize, Vec<u8>)>,
    pub objects: usize,
    pub padding: usize,
    /// longest run of padding
    pub gap: usize,
}

#[derive(Clone, Debug)]
pub struct VOpts<'a> {
    pub ident: Option<&'a str>,
    pub sized: bool,
    /// every byte must be claimed by an object or be zero padding
    pub exact: bool,
}

struct V<'a> {
    buf: &'a [u8],
    claim: Vec<u32>, // 0 free, else id
    next: u32,
    done: HashMap<(usize, *const Node), ()>,
    at: HashMap<usize, *const Node>,
    vt_at: HashMap<usize, usize>,
    rep: Report,
    path: Vec<String>,
    regions: Vec<(usize, usize, u32)>,
}

impl<'a> V<'a> {
    fn fail<T>(&self, m: String) -> Result<T, String> {
        Err(format!("{} (at /{})", m, self.path.join("/")))
    }
    fn get(&self, loc: usize, n: usize, what: &str) -> Result<u64, String> {
        match rd(self.buf, loc, n) {
            Some(v) => Ok(v),
            None => self.fail(format!("{} at {}..{} is outside the buffer of {} bytes", what, loc, loc.saturating_add(n), self.buf.len())),
        }
    }
    fn aligned(&self, loc: usize, n: usize, what: &str) -> Result<(), String> {
        if loc % n != 0 {
            return self.fail(format!("{} at {} is not aligned to {}", what, loc, n));
        }
        Ok(())
    }
    fn claim(&mut self, loc: usize, n: usize, id: u32, what: &str) -> Result<(), String> {
        if loc + n > self.buf.len() {
            return self.fail(format!("{} at {}..{} is outside the buffer of {} bytes", what, loc, loc + n, self.buf.len()));
        }
        for i in loc..loc + n {
            if self.claim[i] != 0 {
                return self.fail(format!("{} at {}..{} overlaps another object at byte {}", what, loc, loc + n, i));
            }
            self.claim[i] = id;
        }
        Ok(())
    }
    fn id(&mut self) -> u32 {
        self.next += 1;
        self.next
    }
    fn follow(&self, loc: usize) -> Result<usize, String> {
        self.aligned(loc, 4, "offset")?;
        let o = self.get(loc, 4, "offset")?;
        if o == 0 || o >= 1 << 31 {
            return self.fail(format!("offset {} at {} is not a forward offset", o, loc));
        }
        let t = loc + o as usize;
        if t >= self.buf.len() {
            return self.fail(format!("offset at {} leads to {}, outside the buffer of {} bytes", loc, t, self.buf.len()));
        }
        Ok(t)
    }
    fn object(&mut self, loc: usize, n: &N) -> Result<(), String> {
        let p = Rc::as_ptr(n);
        if self.done.contains_key(&(loc, p)) {
            return Ok(());
        }
        if let Some(q) = self.at.get(&loc) {
            if *q != p {
                return self.fail(format!("two different objects at {}", loc));
            }
        }
        self.done.insert((loc, p), ());
        self.at.insert(loc, p);
        self.rep.objects += 1;
        match &**n {
            Node::Sc(..) => self.fail("scalar where an object is expected".into()),
            Node::Str(s) => self.bytes(loc, s.as_bytes(), true),
            Node::Bytes(b) => self.bytes(loc, b, true),
            Node::VecSc(t, xs) => {
                self.aligned(loc, 4, "vector length")?;
                let len = self.get(loc, 4, "vector length")?;
                if len != xs.len() as u64 {
                    return self.fail(format!("vector at {} has length {}, expected {}", loc, len, xs.len()));
                }
                let id = self.id();
                self.claim(loc, 4 + t.size() * xs.len(), id, "vector")?;
                // also of an empty vector: readers take a slice there
                self.aligned(loc + 4, t.size(), "vector data")?;
                for (i, x) in xs.iter().enumerate() {
                    let v = self.get(loc + 4 + i * t.size(), t.size(), "element")?;
                    if v != *x {
                        return self.fail(format!("element {} of the {:?} vector at {} is {:#x}, expected {:#x}", i, t, loc, v, x));
                    }
                }
                Ok(())
            }
            Node::VecRef(xs) => {
                self.aligned(loc, 4, "vector length")?;
                let len = self.get(loc, 4, "vector length")?;
                if len != xs.len() as u64 {
                    return self.fail(format!("vector at {} has length {}, expected {}", loc, len, xs.len()));
                }
                let id = self.id();
                self.claim(loc, 4 + 4 * xs.len(), id, "vector")?;
                for (i, x) in xs.iter().enumerate() {
                    let t = self.follow(loc + 4 + 4 * i)?;
                    self.path.push(format!("[{}]", i));
                    self.object(t, x)?;
                    self.path.pop();
                }
                Ok(())
            }
            Node::Table(fs) => self.table(loc, fs),
        }
    }
    fn bytes(&mut self, loc: usize, b: &[u8], term: bool) -> Result<(), String> {
        self.aligned(loc, 4, "string length")?;
        let len = self.get(loc, 4, "string length")?;
        if len != b.len() as u64 {
            return self.fail(format!("string at {} has length {}, expected {}", loc, len, b.len()));
        }
        let id = self.id();
        self.claim(loc, 4 + b.len() + term as usize, id, "string")?;
        if &self.buf[loc + 4..loc + 4 + b.len()] != b {
            return self.fail(format!("string at {} has different content", loc));
        }
        if term && self.buf[loc + 4 + b.len()] != 0 {
            return self.fail(format!("string at {} is not zero-terminated", loc));
        }
        Ok(())
    }
    fn table(&mut self, loc: usize, fs: &BTreeMap<u16, N>) -> Result<(), String> {
        self.aligned(loc, 4, "table")?;
        let so = self.get(loc, 4, "vtable offset")? as u32 as i32 as i64;
        let vl = loc as i64 - so;
        if vl < 0 || vl as usize >= self.buf.len() {
            return self.fail(format!("vtable offset of table {} leads to {}", loc, vl));
        }
        let vl = vl as usize;
        self.aligned(vl, 2, "vtable")?;
        let vlen = self.get(vl, 2, "vtable length")? as usize;
        let tlen = self.get(vl + 2, 2, "table length")? as usize;
        if vlen < 4 || vlen % 2 != 0 {
            return self.fail(format!("vtable at {} has length {}", vl, vlen));
        }
        if vl + vlen > self.buf.len() {
            return self.fail(format!("vtable at {} of {} bytes is outside the buffer", vl, vlen));
        }
        if tlen < 4 || loc + tlen > self.buf.len() {
            return self.fail(format!("table at {} has inline size {}", loc, tlen));
        }
        let vbytes = self.buf[vl..vl + vlen].to_vec();
        match self.vt_at.get(&vl) {
            Some(_) => {}
            None => {
                let id = self.id();
                self.claim(vl, vlen, id, "vtable")?;
                self.vt_at.insert(vl, vlen);
            }
        }
        self.rep.tables.push((loc, vl, vbytes));
        let id = self.id();
        self.claim(loc, 4, id, "table header")?;
        self.regions.push((loc, loc + tlen, id));
        let nslots = (vlen - 4) / 2;
        for s in 0..nslots {
            let o = self.get(vl + 4 + 2 * s, 2, "vtable entry")? as usize;
            if (o != 0) != fs.contains_key(&(s as u16)) {
                return self.fail(format!("slot {} of table {} is {} in the vtable but {} written", s, loc, if o != 0 { "present" } else { "absent" }, if o != 0 { "was never" } else { "was" }));
            }
            if o == 0 {
                continue;
            }
            let f = &fs[&(s as u16)];
            let sz = match &**f {
                Node::Sc(t, _) => t.size(),
                _ => 4,
            };
            if o < 4 || o + sz > tlen {
                return self.fail(format!("slot {} of table {}: field at {}+{} lies outside the inline size {}", s, loc, o, sz, tlen));
            }
            self.aligned(loc + o, sz, "field")?;
            self.claim(loc + o, sz, id, "field")?;
            self.path.push(format!("{}", s));
            match &**f {
                Node::Sc(t, v) => {
                    let got = self.get(loc + o, sz, "field")?;
                    if got != *v {
                        return self.fail(format!("{:?} field is {:#x}, expected {:#x}", t, got, v));
                    }
                }
                _ => {
                    let t = self.follow(loc + o)?;
                    self.object(t, f)?;
                }
            }
            self.path.pop();
        }
        for s in fs.keys() {
            if *s as usize >= nslots {
                return self.fail(format!("slot {} was written but the vtable at {} has only {} slots", s, vl, nslots));
            }
        }
        Ok(())
    }
}

/// Check that `buf` is a FlatBuffer holding exactly `root`.
pub fn verify(buf: &[u8], root: &N, o: &VOpts) -> Result<Report, String> {
    let mut v = V {
        buf,
        claim: vec![0; buf.len()],
        next: 0,
        done: HashMap::new(),
        at: HashMap::new(),
        vt_at: HashMap::new(),
        rep: Report::default(),
        path: vec![],
        regions: vec![],
    };
    let mut pos = 0;
    let id = v.id();
    if o.sized {
        let s = v.get(0, 4, "size prefix")?;
        if s as usize != buf.len() - 4 {
            return Err(format!("size prefix is {}, but {} bytes follow it", s, buf.len() - 4));
        }
        v.claim(0, 4, id, "size prefix")?;
        pos = 4;
    }
    v.claim(pos, 4, id, "root offset")?;
    let r = v.follow(pos)?;
    if let Some(i) = o.ident {
        v.claim(pos + 4, 4, id, "identifier")?;
        if &buf[pos + 4..pos + 8] != i.as_bytes() {
            return Err(format!("identifier bytes are {:?}, expected {:?}", &buf[pos + 4..pos + 8], i.as_bytes()));
        }
    }
    v.object(r, root)?;
    // no foreign object inside a table's inline region
    for (a, b, id) in v.regions.clone() {
        for i in a..b {
            if v.claim[i] != 0 && v.claim[i] != id {
                return Err(format!("byte {} belongs to another object but lies inside the inline data {}..{} of a table", i, a, b));
            }
        }
    }
    if o.exact {
        let mut run = 0;
        for i in 0..buf.len() {
            run = if v.claim[i] == 0 { run + 1 } else { 0 };
            v.rep.gap = v.rep.gap.max(run);
            if v.claim[i] == 0 {
                v.rep.padding += 1;
                if buf[i] != 0 {
                    return Err(format!("byte {} is {:#x} but belongs to no object (padding must be zero)", i, buf[i]));
                }
            }
        }
    }
    Ok(v.rep)
}
