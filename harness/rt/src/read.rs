//! Read a buffer through the library and compare with the expected value.

use crate::prog::*;
use crate::with_nonbool;
use crate::with_ty;
use butte::{Error, Follow, ForwardsUOffset, Table, Vector};
use fbspec::*;

/// A table as a followable type, as generated code defines it.
#[derive(Debug, Clone, Copy)]
pub struct Tab;
impl<'a> Follow<'a> for Tab {
    type Inner = Table<&'a [u8]>;
    fn follow(buf: &'a [u8], loc: usize) -> Result<Self::Inner, Error> {
        Ok(Table::new(buf, loc))
    }
}
// what generated code uses: a 4-byte offset element
pub type RefTab = ForwardsUOffset<Tab>;
pub type RefStr<'a> = ForwardsUOffset<&'a str>;

pub fn root(buf: &[u8], sized: bool) -> Result<Table<&[u8]>, Error> {
    if sized {
        Table::get_size_prefixed_root(buf)
    } else {
        Table::get_root(buf)
    }
}

macro_rules! ck {
    ($c:expr, $($a:tt)*) => { if !($c) { return Err(format!($($a)*)); } }
}

pub struct Rd<'a> {
    pub buf: &'a [u8],
    pub count: u64,
    pub slack: u16,
    pub seen: std::collections::HashSet<(usize, *const Node)>,
}

impl<'a> Rd<'a> {
    pub fn new(buf: &'a [u8]) -> Self {
        Rd { buf, count: 0, slack: 3, seen: Default::default() }
    }

    pub fn scalar_vec(&mut self, slot: u16, tab: &'a Table<&'a [u8]>, t: Ty, xs: &[u64], who: &str) -> Result<(), String> {
        with_ty!(t, T, {
            let v = tab.get::<ForwardsUOffset<Vector<T>>>(vo(slot), None).map_err(|e| format!("{}: {:?}", who, e))?;
            let v = v.ok_or_else(|| format!("{}: vector absent", who))?;
            self.vec_of::<T>(v, xs, who)?;
        });
        with_nonbool!(
            t,
            T,
            {
                let v = tab.get::<ForwardsUOffset<Vector<T>>>(vo(slot), None).unwrap().unwrap();
                let sl = tab.get::<ForwardsUOffset<&[T]>>(vo(slot), None);
                let ss = v.safe_slice();
                self.slices::<T>(sl.map(|x| x.unwrap_or(&[])), ss, xs, who)?;
            },
            {
                let sl = tab.get::<ForwardsUOffset<&[bool]>>(vo(slot), None).map_err(|e| format!("{}: bool slice: {:?}", who, e))?;
                let sl = sl.ok_or_else(|| format!("{}: bool slice absent", who))?;
                ck!(sl.iter().map(|x| x.bits()).eq(xs.iter().cloned()), "{}: bool slice differs", who);
            }
        );
        Ok(())
    }

    pub fn slices<T: S + std::fmt::Debug>(&mut self, a: Result<&'a [T], Error>, b: Result<&'a [T], Error>, xs: &[u64], who: &str) -> Result<(), String> {
        for (nm, r) in [("slice", a), ("safe_slice", b)] {
            match r {
                Ok(s) => {
                    ck!(s.as_ptr() as usize % std::mem::align_of::<T>() == 0, "{}: {} is misaligned", who, nm);
                    ck!(s.len() == xs.len() && s.iter().zip(xs).all(|(p, q)| p.bits() == *q), "{}: {} is {:?}, expected {:x?}", who, nm, s, xs);
                    let r = self.buf.as_ptr_range();
                    if !s.is_empty() {
                        let p = s.as_ptr_range();
                        ck!(p.start as usize >= r.start as usize && p.end as usize <= r.end as usize, "{}: {} outside the buffer", who, nm);
                    }
                }
                Err(e) => {
                    // only a placement in memory that cannot be a slice may be refused
                    ck!(self.buf.as_ptr() as usize % std::mem::align_of::<T>() != 0, "{}: {} gives {:?}", who, nm, e);
                }
            }
            self.count += 1;
        }
        Ok(())
    }

    pub fn vec_of<T: S + Follow<'a, Inner = T> + std::fmt::Debug + 'a>(&mut self, v: Vector<'a, T>, xs: &[u64], who: &str) -> Result<(), String> {
        ck!(v.len() == Ok(xs.len()), "{}: length {:?}, expected {}", who, v.len(), xs.len());
        ck!(v.is_empty() == Ok(xs.is_empty()), "{}: is_empty {:?}", who, v.is_empty());
        for (i, x) in xs.iter().enumerate() {
            match v.get(i) {
                Ok(y) => ck!(y.bits() == *x, "{}[{}]: read {:#x}, written {:#x}", who, i, y.bits(), x),
                Err(e) => return Err(format!("{}[{}]: {:?}", who, i, e)),
            }
        }
        let it: Vec<Option<u64>> = v.iter().map(|r| r.ok().map(|y| y.bits())).collect();
        ck!(it.len() == xs.len() && it.iter().zip(xs).all(|(p, q)| *p == Some(*q)), "{}: iteration gives {:x?}, expected {:x?}", who, it, xs);
        self.count += xs.len() as u64 + 3;
        Ok(())
    }

    pub fn string(&mut self, r: Result<&'a str, Error>, s: &str, who: &str) -> Result<(), String> {
        self.count += 1;
        match r {
            Ok(x) => {
                ck!(x == s, "{}: read {:?}, written {:?}", who, x, s);
                Ok(())
            }
            Err(e) => Err(format!("{}: {:?}", who, e)),
        }
    }

    /// the object a reference field or vector element leads to
    pub fn vec_ref(&mut self, buf: &'a [u8], loc: usize, xs: &[N], who: &str) -> Result<(), String> {
        let v = <Vector<RefTab>>::follow(buf, loc).map_err(|e| format!("{}: {:?}", who, e))?;
        ck!(v.len() == Ok(xs.len()), "{}: length {:?}, expected {}", who, v.len(), xs.len());
        ck!(v.is_empty() == Ok(xs.is_empty()), "{}: is_empty", who);
        ck!(v.iter().len() == xs.len(), "{}: iter len", who);
        self.count += 3;
        for (i, x) in xs.iter().enumerate() {
            let w = format!("{}[{}]", who, i);
            match &**x {
                Node::Str(s) => {
                    let v: Vector<RefStr> = <Vector<RefStr>>::follow(buf, loc).unwrap();
                    self.string(v.get(i), s, &w)?;
                    let y = v.iter().nth(i).ok_or_else(|| format!("{}: iterator ends early", w))?;
                    self.string(y, s, &w)?;
                }
                _ => {
                    let t = v.get(i).map_err(|e| format!("{}: {:?}", w, e))?;
                    let t2 = v.iter().nth(i).ok_or_else(|| format!("{}: iterator ends early", w))?.map_err(|e| format!("{}: {:?}", w, e))?;
                    ck!(t.loc == t2.loc, "{}: iterator and get disagree", w);
                    self.object(buf, t.loc, x, &w)?;
                }
            }
        }
        Ok(())
    }

    pub fn object(&mut self, buf: &'a [u8], loc: usize, n: &N, who: &str) -> Result<(), String> {
        if !self.seen.insert((loc, std::rc::Rc::as_ptr(n))) {
            return Ok(());
        }
        match &**n {
            Node::Sc(..) => unreachable!(),
            Node::Str(s) => {
                let r = <&str>::follow(buf, loc);
                self.string(r, s, who)
            }
            Node::Bytes(b) => {
                let r = <&[u8]>::follow(buf, loc).map_err(|e| format!("{}: {:?}", who, e))?;
                ck!(r == &b[..], "{}: bytes {:?}, written {:?}", who, r, b);
                self.count += 1;
                Ok(())
            }
            Node::VecSc(t, xs) => {
                with_ty!(*t, T, {
                    let v = <Vector<T>>::follow(buf, loc).map_err(|e| format!("{}: {:?}", who, e))?;
                    self.vec_of::<T>(v, xs, who)
                })
            }
            Node::VecRef(xs) => self.vec_ref(buf, loc, xs, who),
            Node::Table(_) => {
                let t = Table::new(buf, loc);
                self.table(&t, n, who)
            }
        }
    }

    pub fn table(&mut self, t: &Table<&'a [u8]>, n: &N, who: &str) -> Result<(), String> {
        let fs = match &**n {
            Node::Table(f) => f,
            _ => unreachable!(),
        };
        // a Table borrows itself in `get`; rebuild it so results live as long as the buffer
        let buf: &'a [u8] = t.buf;
        let p: *mut Table<&'a [u8]> = Box::into_raw(Box::new(Table::new(buf, t.loc)));
        // SAFETY: freed below, when nothing keeps a reference
        let r = self.table_inner(unsafe { &*p }, fs, who);
        unsafe {
            drop(Box::from_raw(p));
        }
        r
    }

    fn table_inner(&mut self, t: &'a Table<&'a [u8]>, fs: &std::collections::BTreeMap<u16, N>, who: &str) -> Result<(), String> {
        let buf = t.buf;
        let max = fs.keys().max().map(|x| *x + 1).unwrap_or(0);
        let mut slots: Vec<u16> = if max <= 64 { (0..max + self.slack).collect() } else { fs.keys().flat_map(|k| [k.saturating_sub(1), *k, *k + 1]).collect() };
        slots.sort();
        slots.dedup();
        for s in slots {
            let w = format!("{}/{}", who, s);
            match fs.get(&s).map(|x| &**x) {
                None => {
                    for ty in TYS {
                        with_ty!(ty, T, {
                            let d = T::of(1);
                            let r = t.get::<T>(vo(s), Some(d));
                            ck!(r == Ok(Some(d)), "{}: absent {:?} field reads {:?} instead of the default", w, ty, r);
                            let r = t.get::<T>(vo(s), None);
                            ck!(r == Ok(None), "{}: absent {:?} field reads {:?}", w, ty, r);
                        });
                    }
                    let r = t.get::<RefStr>(vo(s), Some("dflt"));
                    ck!(r == Ok(Some("dflt")), "{}: absent string reads {:?}", w, r);
                    let r = t.get::<RefTab>(vo(s), None);
                    ck!(matches!(r, Ok(None)), "{}: absent table reads {:?}", w, r);
                    self.count += 24;
                }
                Some(Node::Sc(ty, v)) => {
                    with_ty!(*ty, T, {
                        for d in [None, Some(T::of(0)), Some(T::of(*v)), Some(T::of(!*v))] {
                            match t.get::<T>(vo(s), d) {
                                Ok(Some(x)) => ck!(x.bits() == *v, "{}: {:?} field reads {:#x}, written {:#x}", w, ty, x.bits(), v),
                                r => return Err(format!("{}: {:?} field reads {:?}, written {:#x}", w, ty, r, v)),
                            }
                        }
                    });
                    self.count += 4;
                }
                Some(Node::Str(x)) => {
                    let r = t.get::<RefStr>(vo(s), None);
                    match r {
                        Ok(Some(y)) => self.string(Ok(y), x, &w)?,
                        r => return Err(format!("{}: string reads {:?}, written {:?}", w, r, x)),
                    }
                    // a string is also a byte vector
                    let r = t.get::<ForwardsUOffset<&[u8]>>(vo(s), None);
                    ck!(r == Ok(Some(x.as_bytes())), "{}: string as bytes reads {:?}", w, r);
                }
                Some(Node::Bytes(b)) => {
                    let r = t.get::<ForwardsUOffset<&[u8]>>(vo(s), None);
                    ck!(r == Ok(Some(&b[..])), "{}: bytes read {:?}, written {:?}", w, r, b);
                    let v: Vec<u64> = b.iter().map(|x| *x as u64).collect();
                    let vv = t.get::<ForwardsUOffset<Vector<u8>>>(vo(s), None);
                    match vv {
                        Ok(Some(vv)) => self.vec_of::<u8>(vv, &v, &w)?,
                        _ => return Err(format!("{}: byte vector unreadable", w)),
                    }
                }
                Some(Node::VecSc(ty, xs)) => {
                    self.scalar_vec(s, t, *ty, xs, &w)?;
                }
                Some(Node::VecRef(_)) | Some(Node::Table(_)) => {
                    let r = t.get::<RefTab>(vo(s), None).map_err(|e| format!("{}: {:?}", w, e))?.ok_or_else(|| format!("{}: reference absent", w))?;
                    let n = fs[&s].clone();
                    self.object(buf, r.loc, &n, &w)?;
                }
            }
        }
        Ok(())
    }
}

/// Read everything reachable from the root and compare.
pub fn read_all(buf: &[u8], rootn: &N, sized: bool) -> Result<u64, String> {
    let t = root(buf, sized).map_err(|e| format!("root: {:?}", e))?;
    let mut r = Rd::new(buf);
    r.object(buf, t.loc, rootn, "root")?;
    Ok(r.count)
}

/// 8-aligned copy at a given misalignment.
pub struct Placed {
    back: Vec<u64>,
    off: usize,
    len: usize,
}
impl Placed {
    pub fn new(b: &[u8], off: usize) -> Placed {
        let mut back = vec![0xA5A5_A5A5_A5A5_A5A5u64; (b.len() + off) / 8 + 3];
        let p = back.as_mut_ptr() as *mut u8;
        unsafe {
            std::ptr::copy_nonoverlapping(b.as_ptr(), p.add(8 + off), b.len());
        }
        Placed { back, off: off + 8, len: b.len() }
    }
    pub fn get(&self) -> &[u8] {
        unsafe { std::slice::from_raw_parts((self.back.as_ptr() as *const u8).add(self.off), self.len) }
    }
}
