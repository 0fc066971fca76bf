//! C03, C04, C08: the reader.

use crate::gens;
use crate::prog::*;
use crate::read::{self, Placed, RefStr, RefTab};
use crate::{with_nonbool, with_ty};
use butte::{Error, Follow, ForwardsUOffset, Table, Vector};
use fbspec::encode::{encode, EncOpts};
use fbspec::refread as rr;
use fbspec::refread::E;
use fbspec::*;
use mc::{guard, Ch};
use std::collections::VecDeque;
use std::rc::Rc;

// ---------------------------------------------------------------- C03

/// small values that use every construct
pub fn values() -> Vec<N> {
    let s1 = st("shared");
    let leaf = table(vec![(0, sc(Ty::U8, 0xC1))]);
    let leaf2 = table(vec![(0, sc(Ty::U8, 0xC2))]);
    let empty = table(vec![]);
    vec![
        table(vec![]),
        table(vec![(0, sc(Ty::U8, 7)), (1, sc(Ty::U64, 0xF1F2_F3F4_F5F6_F7F8)), (2, sc(Ty::U16, 0xABCD)), (3, sc(Ty::U32, 0xDEAD_BEEF))]),
        // stored defaults
        table(vec![(0, sc(Ty::Bool, 0)), (1, sc(Ty::I32, 0)), (2, sc(Ty::F64, 0)), (5, sc(Ty::F32, 0x8000_0000))]),
        table(vec![(0, st("")), (1, st("héllo")), (2, sc(Ty::I8, 0x80))]),
        table(vec![(0, s1.clone()), (1, s1.clone()), (2, vecref(vec![s1.clone(), st("x"), s1]))]),
        table(vec![(0, leaf.clone()), (1, leaf2.clone()), (2, vecref(vec![leaf.clone(), leaf2, empty.clone()])), (3, leaf.clone())]),
        table(vec![(0, vecsc(Ty::U8, &[1, 2, 3])), (1, vecsc(Ty::F64, &[0x3ff0_0000_0000_0000, 0x7ff8_0000_0000_0001])), (2, vecsc(Ty::U16, &[]))]),
        table(vec![(0, vecsc(Ty::Bool, &[1, 0, 1])), (1, vecsc(Ty::I32, &[0xFFFF_FFFF, 1])), (3, vecsc(Ty::U64, &[u64::MAX]))]),
        table(vec![(0, vecref(vec![])), (1, vecref(vec![vecsc(Ty::U16, &[5, 6]), vecsc(Ty::U16, &[])])), (2, empty)]),
        table(vec![(7, leaf.clone()), (3, sc(Ty::I64, 0x8000_0000_0000_0000)), (9, Rc::new(Node::Bytes(vec![0xFF, 0, 0xFE])))]),
        table(vec![(0, table(vec![(0, table(vec![(0, leaf)]))]))]),
        table((0..11).map(|i| (i as u16, sc(TYS[i], gens::val(TYS[i], i)))).collect()),
    ]
}

fn c03(ch: &mut Ch, n: &N, o: &EncOpts, aligns: &[usize]) -> Result<(), String> {
    let bytes = encode(n, o, &mut |k| ch.choose(k));
    let id = o.ident.map(|b| String::from_utf8(b.to_vec()).unwrap());
    verify(&bytes, n, &VOpts { ident: id.as_deref(), sized: o.sized, exact: true }).map_err(|e| format!("HARNESS: encoder output rejected: {}", e))?;
    ch.note(|| format!("{:?}\n  as {:02x?}", n, bytes));
    for a in aligns {
        let pl = Placed::new(&bytes, *a);
        let r = guard(|| read::read_all(pl.get(), n, o.sized));
        match r {
            Err(e) => return Err(format!("panic reading a conforming buffer at address = {} mod 8: {}\n {:02x?}", a, e, bytes)),
            Ok(Err(e)) => return Err(format!("conforming buffer at address = {} mod 8 misread: {}\n {:02x?}", a, e, bytes)),
            Ok(Ok(c)) => ch.eval(c),
        }
        if let Some(i) = &id {
            if butte::buffer_has_identifier(pl.get(), i, o.sized) != Ok(true) {
                return Err(format!("identifier {:?} not recognised", i));
            }
        }
    }
    ch.step(aligns.len() as u64);
    ch.state(&bytes);
    ch.sample(|| format!("{:?} in {} bytes read at {} alignments", n, bytes.len(), aligns.len()));
    Ok(())
}

pub fn c03_layouts(ch: &mut Ch) -> Result<(), String> {
    let v = values();
    let n = &v[ch.choose(v.len())];
    let mut o = EncOpts::all();
    o.sized = ch.flag();
    if ch.flag() {
        o.ident = Some(*b"IDNT");
    }
    let all: Vec<usize> = (0..8).collect();
    let al: &[usize] = if ch.thorough() { &all } else { &[0, 1, 2, 4] };
    c03(ch, n, &o, al)
}

pub fn c03_align(ch: &mut Ch) -> Result<(), String> {
    let v = values();
    let n = &v[ch.choose(v.len())];
    let mut o = EncOpts::plain();
    o.vt_place = true;
    o.sized = ch.flag();
    let a = ch.choose(16);
    c03(ch, n, &o, &[a])
}

pub fn c03_graphs(ch: &mut Ch) -> Result<(), String> {
    let p = gens::graphs(ch);
    let n = Model::of(&p.c).root.unwrap();
    let mut o = EncOpts::plain();
    o.vt_place = true;
    o.share = true;
    o.field_order = true;
    c03(ch, &n, &o, &[0, 5])
}

pub fn c03_scalars(ch: &mut Ch) -> Result<(), String> {
    let t = *ch.pick(&TYS);
    let v = *ch.pick(&gens::boundary(t));
    let slot = ch.choose(4) as u16;
    let mut f = vec![(slot, sc(t, v))];
    if ch.flag() {
        f.push((slot + 1, sc(Ty::U8, 1)));
    }
    let n = table(f);
    let mut o = EncOpts::plain();
    o.vt_place = true;
    o.vt_extra = true;
    o.field_order = true;
    o.slack = true;
    c03(ch, &n, &o, &[0, 1, 2, 3, 4, 5, 6, 7])
}

pub fn c03_vectors(ch: &mut Ch) -> Result<(), String> {
    let t = *ch.pick(&TYS);
    let n = ch.range(0, ch.by_tier(40, 70));
    let xs: Vec<u64> = (0..n).map(|i| gens::val(t, i)).collect();
    let tail = ch.flag();
    let mut f = vec![(1, vecsc(t, &xs))];
    if tail {
        f.push((2, st("tail")));
    }
    let mut o = EncOpts::plain();
    o.vt_place = true;
    o.pad = true;
    o.order = true;
    let al: Vec<usize> = (0..8).collect();
    c03(ch, &table(f), &o, &al)
}

/// large conforming buffers (big strings between tables, far vtables)
pub fn c03_far(ch: &mut Ch) -> Result<(), String> {
    let n = *ch.pick(&[100usize, 32_700, 32_767, 32_768, 65_533, 65_536, 70_000, 270_000]);
    let leaf = table(vec![(0, sc(Ty::U8, 0xC1)), (3, sc(Ty::U32, 9))]);
    let leaf2 = table(vec![(0, sc(Ty::U8, 0xC2)), (3, sc(Ty::U32, 8))]);
    let s = st(&gens::text(0, n));
    let v = table(vec![(0, leaf), (1, s), (2, leaf2), (3, vecsc(Ty::U16, &(0..n as u64 / 4).map(|i| i & 0xffff ^ i >> 16).collect::<Vec<_>>()))]);
    let mut o = EncOpts::plain();
    o.order = true;
    o.vt_place = true;
    o.share = true;
    c03(ch, &v, &o, &[0, 3])
}

/// conforming tables of many fields, some of them absent
pub fn c03_wide(ch: &mut Ch) -> Result<(), String> {
    let ns: Vec<usize> = (1..=ch.by_tier(140, 300)).chain([255, 256, 257, 300, 511, 512, 1000, 8000]).collect();
    let n = *ch.pick(&ns);
    let kind = ch.choose(4);
    let mut f = vec![];
    for i in 0..n {
        let t = match kind {
            0 => Ty::U8,
            1 => Ty::U32,
            _ => [Ty::U8, Ty::U16, Ty::U32, Ty::U64][i % 4],
        };
        if kind == 3 && i % 5 == 2 && i + 1 < n {
            continue;
        }
        f.push((i as u16, sc(t, gens::val(t, i))));
    }
    let mut o = EncOpts::plain();
    o.vt_place = true;
    o.field_order = true;
    c03(ch, &table(f), &o, &[0, 1])
}

// ---------------------------------------------------------------- C04

extern "C" {
    fn mmap(addr: *mut u8, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
    fn mprotect(addr: *mut u8, len: usize, prot: i32) -> i32;
}
const PAGE: usize = 4096;
const AREA: usize = 16 * PAGE;

thread_local! {
    static MEM: *mut u8 = unsafe {
        let p = mmap(std::ptr::null_mut(), AREA + 2 * PAGE, 3, 0x22, -1, 0);
        assert!(p as isize != -1);
        assert!(mprotect(p, PAGE, 0) == 0);
        assert!(mprotect(p.add(PAGE + AREA), PAGE, 0) == 0);
        p.add(PAGE)
    };
}

/// Where the bytes lie in memory.
#[derive(Clone, Copy, Debug)]
pub enum Place {
    /// at this offset from an 8-aligned address, surrounded by other data
    Off(usize),
    /// ending at an unmapped page
    End,
    /// starting after an unmapped page
    Start,
}
pub const PLACES: [Place; 10] =
    [Place::End, Place::Off(0), Place::Off(1), Place::Off(2), Place::Off(3), Place::Off(4), Place::Off(5), Place::Off(6), Place::Off(7), Place::Start];

fn place(b: &[u8], p: Place) -> &'static [u8] {
    assert!(b.len() + 64 < AREA);
    unsafe {
        let m = MEM.with(|m| *m);
        let at = match p {
            Place::Off(o) => m.add(16 + o),
            Place::End => m.add(AREA - b.len()),
            Place::Start => m,
        };
        // surroundings that would be misread as plausible data
        if let Place::Off(_) = p {
            std::ptr::write_bytes(m, 0x01, 16 + 8);
            std::ptr::write_bytes(at.add(b.len()), 0x01, 24);
        } else if let Place::Start = p {
            std::ptr::write_bytes(at.add(b.len()), 0x01, 24);
        } else {
            std::ptr::write_bytes(at.sub(24.min(AREA - b.len())), 0x01, 24.min(AREA - b.len()));
        }
        std::ptr::copy_nonoverlapping(b.as_ptr(), at, b.len());
        std::slice::from_raw_parts(at, b.len())
    }
}

struct W {
    buf: &'static [u8],
    n: u64,
}

type Res = Result<(), String>;

macro_rules! ck {
    ($c:expr, $($a:tt)*) => { if !($c) { return Err(format!($($a)*)); } }
}

fn err_ok(got: Error, want: E) -> bool {
    match want {
        E::Oob => got == Error::OutOfBounds,
        E::NoTerm => got == Error::NonNullTerminatedString,
        E::NotUtf8 => got == Error::NonUtf8String,
        E::NoTermOrNotUtf8 => got == Error::NonNullTerminatedString || got == Error::NonUtf8String,
    }
}

impl W {
    fn inside<T>(&self, s: &[T]) -> bool {
        let r = self.buf.as_ptr_range();
        let p = s.as_ptr_range();
        s.is_empty() || (p.start as usize >= r.start as usize && p.end as usize <= r.end as usize)
    }
    fn cmp<T: std::fmt::Debug, U: std::fmt::Debug>(&mut self, what: &str, got: Result<T, Error>, want: Result<U, E>, eq: impl Fn(&T, &U) -> bool) -> Res {
        self.n += 1;
        match (&got, &want) {
            (Ok(a), Ok(b)) if eq(a, b) => Ok(()),
            (Err(a), Err(b)) if err_ok(*a, *b) => Ok(()),
            _ => Err(format!("{}: read {:?}, but the bytes denote {:?}", what, got, want)),
        }
    }

    fn root(&mut self, sized: bool, depth: usize) -> Res {
        let buf = self.buf;
        let got = read::root(buf, sized);
        let want = rr::root(buf, sized);
        match (got, want) {
            (Ok(t), Ok(l)) => self.table(t, l, depth, if sized { "sized root" } else { "root" }),
            (Err(Error::OutOfBounds), Err(E::Oob)) => Ok(()),
            // an eager bounds check is as good
            (Err(Error::OutOfBounds), Ok(l)) if l + 4 > buf.len() as i128 => Ok(()),
            (a, b) => Err(format!("root (sized {}): {:?}, expected {:?}", sized, a.map(|t| t.loc), b)),
        }
    }

    fn table(&mut self, t: Table<&'static [u8]>, loc: i128, depth: usize, who: &str) -> Res {
        let bx = Box::new(t);
        // a table borrows itself while it is read
        let t: &'static Table<&'static [u8]> = unsafe { &*(&*bx as *const _) };
        let r = self.table_in(t, loc, depth, who);
        drop(bx);
        r
    }

    fn table_in(&mut self, t: &'static Table<&'static [u8]>, loc: i128, depth: usize, who: &str) -> Res {
        let buf = self.buf;
        // vtable queries
        let vt = rr::vtable(buf, loc);
        let vlen = vt.and_then(|v| rr::scalar(buf, v, Ty::U16));
        match t.vtable() {
            Err(e) => ck!(e == Error::OutOfBounds && vlen.is_err(), "{}: vtable gives {:?}, bytes say {:?}", who, e, vlen),
            Ok(v) => {
                self.cmp(&format!("{} vtable length", who), v.num_bytes(), vlen, |a, b| *a as u64 == *b)?;
                if let (Ok(vl), Ok(n)) = (vt, vlen) {
                    self.cmp(&format!("{} inline size", who), v.object_inline_num_bytes(), rr::scalar(buf, vl + 2, Ty::U16), |a, b| *a as u64 == *b)?;
                    let nf = (n / 2).saturating_sub(2);
                    if n >= 4 {
                        ck!(v.num_fields() == Ok(nf as usize), "{}: num_fields {:?}, expected {}", who, v.num_fields(), nf);
                    } else {
                        ck!(matches!(v.num_fields(), Ok(0) | Err(_)), "{}: num_fields {:?}", who, v.num_fields());
                    }
                    for i in [0u64, 1, 2, 3, nf.saturating_sub(1), nf, nf + 1] {
                        let g = v.get_field(i as usize);
                        if i >= nf {
                            ck!(matches!(g, Ok(None) | Err(Error::OutOfBounds)), "{}: get_field({}) of {} fields is {:?}", who, i, nf, g);
                        } else {
                            self.cmp(&format!("{} get_field({})", who, i), g, rr::scalar(buf, vl + 4 + 2 * i as i128, Ty::U16), |a, b| a.map(|x| x as u64) == Some(*b))?;
                        }
                    }
                    for s in [4u16, 6, 8, 20, 65534] {
                        let g = v.get(s);
                        if s as u64 >= n {
                            ck!(g == Ok(None), "{}: vtable get({}) of {} bytes is {:?}", who, s, n, g);
                        } else if s as u64 + 1 < n {
                            self.cmp(&format!("{} vtable get({})", who, s), g, rr::scalar(buf, vl + s as i128, Ty::U16), |a, b| a.map(|x| x as u64) == Some(*b))?;
                        }
                    }
                    match v.as_bytes() {
                        Ok(b) => {
                            ck!(self.inside(b) && b.len() as u64 == n && vl >= 0 && vl + n as i128 <= buf.len() as i128 && b == &buf[vl as usize..(vl + n as i128) as usize], "{}: vtable bytes", who);
                        }
                        Err(e) => ck!(e == Error::OutOfBounds && vl + n as i128 > buf.len() as i128, "{}: vtable bytes {:?}", who, e),
                    }
                } else {
                    let _ = (v.num_fields(), v.object_inline_num_bytes(), v.get_field(0), v.get(4), v.as_bytes());
                }
            }
        }
        for i in 0..7u16 {
            let slot = if i == 6 { 65534 } else { 4 + 2 * i };
            // an odd vtable length cuts an entry in half: unspecified, but must not panic
            let half = vlen.map(|n| n == slot as u64 + 1).unwrap_or(false);
            let f = rr::field(buf, loc, slot);
            let w = format!("{} slot {}", who, slot);
            let r = self.field(t, slot, f, depth, &w);
            if !half {
                r?;
            }
        }
        Ok(())
    }

    fn field(&mut self, t: &'static Table<&'static [u8]>, slot: u16, f: rr::R<Option<i128>>, depth: usize, who: &str) -> Res {
        let buf = self.buf;
        for ty in TYS {
            with_ty!(ty, T, {
                let d = T::of(0x5151_5151_5151_5151);
                let want = match f {
                    Err(e) => Err(e),
                    Ok(None) => Ok(d.bits()),
                    Ok(Some(l)) => rr::scalar(buf, l, ty).map(|b| if ty == Ty::Bool { (b != 0) as u64 } else { b }),
                };
                self.cmp(who, t.get::<T>(slot, Some(d)), want, |a, b| a.map(|x| x.bits()) == Some(*b))?;
            });
        }
        let refer: rr::R<Option<i128>> = match f {
            Err(e) => Err(e),
            Ok(None) => Ok(None),
            Ok(Some(l)) => rr::follow(buf, l).map(Some),
        };
        // string
        let want = match refer {
            Err(e) => Err(e),
            Ok(None) => Ok(None),
            Ok(Some(l)) => rr::string(buf, l).map(Some),
        };
        let got = t.get::<RefStr>(slot, None);
        if let Ok(Some(s)) = &got {
            ck!(self.inside(s.as_bytes()), "{}: string outside the buffer", who);
        }
        self.cmp(who, got, want, |a, b| a == b)?;
        // slices and vectors of every type
        for ty in TYS {
            with_ty!(ty, T, {
                let want: rr::R<Option<&[u8]>> = match refer {
                    Err(e) => Err(e),
                    Ok(None) => Ok(None),
                    Ok(Some(l)) => rr::vec_data(buf, l, ty.size()).map(Some),
                };
                let got = t.get::<ForwardsUOffset<&[T]>>(slot, None);
                self.slice::<T>(got, want, ty, who)?;
                let v = t.get::<ForwardsUOffset<Vector<T>>>(slot, None);
                match (v, refer) {
                    (Err(Error::OutOfBounds), Err(E::Oob)) | (Ok(None), Ok(None)) => {}
                    (Ok(Some(v)), Ok(Some(l))) => self.vector::<T>(v, l, ty, who)?,
                    // an eager check of the length is as good
                    (Err(Error::OutOfBounds), Ok(Some(l))) if rr::vec_len(buf, l).is_err() => {}
                    (a, b) => return Err(format!("{}: {:?} vector {:?}, bytes say {:?}", who, ty, a.map(|x| x.is_some()), b)),
                }
            });
            with_nonbool!(
                ty,
                T,
                {
                    if let (Ok(Some(v)), Ok(Some(l))) = (t.get::<ForwardsUOffset<Vector<T>>>(slot, None), refer) {
                        let want = rr::vec_data(buf, l, ty.size()).map(Some);
                        self.slice::<T>(v.safe_slice().map(Some), want, ty, who)?;
                    }
                },
                {}
            );
        }
        // vector of strings, of tables, of vectors
        if let (Ok(Some(v)), Ok(Some(l))) = (t.get::<ForwardsUOffset<Vector<RefStr>>>(slot, None), refer) {
            let len = rr::vec_len(buf, l);
            self.cmp(who, v.len(), len, |a, b| *a as u64 == *b)?;
            let n = len.unwrap_or(0);
            let mut it = v.iter();
            ck!(it.len() as u64 == n, "{}: iterator length {}", who, it.len());
            for i in 0..n.min(4) {
                let want = rr::follow(buf, l + 4 + 4 * i as i128).and_then(|q| rr::string(buf, q));
                self.cmp(who, it.next().unwrap_or(Err(Error::NoTypeDefaultValue)), want, |a, b| a == b)?;
                self.cmp(who, v.get(i as usize), want, |a, b| a == b)?;
            }
        }
        if let (Ok(Some(v)), Ok(Some(l))) = (t.get::<ForwardsUOffset<Vector<ForwardsUOffset<Vector<u16>>>>>(slot, None), refer) {
            let n = rr::vec_len(buf, l).unwrap_or(0);
            for i in 0..n.min(3) {
                let want = rr::follow(buf, l + 4 + 4 * i as i128);
                match (v.get(i as usize), want) {
                    (Ok(w), Ok(q)) => self.vector::<u16>(w, q, Ty::U16, who)?,
                    (Err(Error::OutOfBounds), Err(E::Oob)) => {}
                    (Err(Error::OutOfBounds), Ok(q)) if rr::vec_len(buf, q).is_err() => {}
                    (a, b) => return Err(format!("{}: nested vector {:?}, bytes say {:?}", who, a.is_ok(), b)),
                }
            }
        }
        if depth > 0 {
            if let (Ok(Some(v)), Ok(Some(l))) = (t.get::<ForwardsUOffset<Vector<RefTab>>>(slot, None), refer) {
                let n = rr::vec_len(buf, l).unwrap_or(0);
                for i in 0..n.min(2) {
                    match (v.get(i as usize), rr::follow(buf, l + 4 + 4 * i as i128)) {
                        (Ok(t), Ok(q)) => self.table(t, q, depth - 1, &format!("{}[{}]", who, i))?,
                        (Err(Error::OutOfBounds), Err(E::Oob)) => {}
                        (a, b) => return Err(format!("{}: table element {:?}, bytes say {:?}", who, a.is_ok(), b)),
                    }
                }
            }
            match (t.get::<RefTab>(slot, None), refer) {
                (Ok(None), Ok(None)) | (Err(Error::OutOfBounds), Err(E::Oob)) => {}
                (Ok(Some(t)), Ok(Some(l))) => self.table(t, l, depth - 1, &format!("{} table", who))?,
                (a, b) => return Err(format!("{}: nested table {:?}, bytes say {:?}", who, a.map(|x| x.is_some()), b)),
            }
        }
        Ok(())
    }

    fn slice<T: S + std::fmt::Debug>(&mut self, got: Result<Option<&'static [T]>, Error>, want: rr::R<Option<&[u8]>>, ty: Ty, who: &str) -> Res {
        self.n += 1;
        match (got, want) {
            (Ok(None), Ok(None)) => Ok(()),
            (Ok(Some(s)), Ok(Some(b))) => {
                ck!(self.inside(s), "{}: slice outside the buffer", who);
                ck!(s.as_ptr() as usize % std::mem::align_of::<T>() == 0, "{}: misaligned {:?} slice", who, ty);
                if ty == Ty::Bool {
                    ck!(b.iter().all(|x| *x <= 1), "{}: a bool slice over the bytes {:02x?}", who, b);
                }
                let n = ty.size();
                ck!(s.len() * n == b.len() && s.iter().enumerate().all(|(i, x)| Some(x.bits()) == rd(b, i * n, n)), "{}: {:?} slice {:?} over {:02x?}", who, ty, s, b);
                Ok(())
            }
            (Err(Error::OutOfBounds), Err(E::Oob)) => Ok(()),
            (Err(e), Ok(Some(b))) => {
                let mis = b.as_ptr() as usize % std::mem::align_of::<T>() != 0;
                let bad = ty == Ty::Bool && b.iter().any(|x| *x > 1);
                ck!(mis || bad, "{}: {:?} slice gives {:?} for valid bytes", who, ty, e);
                Ok(())
            }
            (a, b) => Err(format!("{}: {:?} slice {:?}, bytes say {:?}", who, ty, a, b)),
        }
    }

    fn vector<T: S + Follow<'static, Inner = T> + std::fmt::Debug + 'static>(&mut self, v: Vector<'static, T>, l: i128, ty: Ty, who: &str) -> Res {
        let buf = self.buf;
        let len = rr::vec_len(buf, l);
        self.cmp(who, v.len(), len, |a, b| *a as u64 == *b)?;
        self.cmp(who, v.is_empty(), len, |a, b| *a == (*b == 0))?;
        let n = len.unwrap_or(0);
        let mut it = v.iter();
        ck!(it.len() as u64 == n, "{}: iterator length {}", who, it.len());
        let el = |i: u64| rr::scalar(buf, l + 4 + (ty.size() as u64 * i) as i128, ty).map(|b| if ty == Ty::Bool { (b != 0) as u64 } else { b });
        for i in 0..n.min(3) {
            self.cmp(who, it.next().unwrap_or(Err(Error::NoTypeDefaultValue)), el(i), |a, b| a.bits() == *b)?;
            self.cmp(who, v.get(i as usize), el(i), |a, b| a.bits() == *b)?;
        }
        if n > 0 {
            let mut it = v.iter();
            self.cmp(who, it.next_back().unwrap_or(Err(Error::NoTypeDefaultValue)), el(n - 1), |a, b| a.bits() == *b)?;
            self.cmp(who, v.get(n as usize - 1), el(n - 1), |a, b| a.bits() == *b)?;
            let mut it = v.iter();
            self.cmp(who, it.nth(n as usize - 1).unwrap_or(Err(Error::NoTypeDefaultValue)), el(n - 1), |a, b| a.bits() == *b)?;
            ck!(it.next().is_none(), "{}: iterator continues after the last element", who);
        }
        Ok(())
    }
}

fn c04(ch: &mut Ch, bytes: &[u8], p: Place, depth: usize) -> Result<(), String> {
    let buf = place(bytes, p);
    ch.note(|| format!("{:?} {:02x?}", p, bytes));
    let mut w = W { buf, n: 0 };
    let r = guard(|| {
        w.root(false, depth)?;
        w.root(true, depth.min(1))?;
        for sized in [false, true] {
            let at = if sized { 8 } else { 4 };
            let want = if bytes.len() >= at + 4 { Ok(&bytes[at..at + 4] == b"ABCD") } else { Err(Error::OutOfBounds) };
            let got = butte::buffer_has_identifier(buf, "ABCD", sized);
            ck!(got == want, "identifier test {:?}, expected {:?}", got, want);
        }
        Ok(())
    });
    ch.eval(w.n);
    ch.step(w.n);
    ch.state(bytes);
    match r {
        Err(e) => Err(format!("panic reading {:?} {:02x?}: {}", p, bytes, e)),
        Ok(Err(e)) => Err(format!("{} in {:?} {:02x?}", e, p, bytes)),
        Ok(Ok(())) => {
            ch.sample(|| format!("{:?} {:02x?}: {} accesses agree", p, bytes, w.n));
            Ok(())
        }
    }
}

/// seed buffers, every vtable placement
pub fn seeds() -> Vec<Vec<u8>> {
    let leaf = table(vec![(0, sc(Ty::U8, 0xC1))]);
    let vals: Vec<N> = vec![
        table(vec![]),
        table(vec![(0, sc(Ty::U16, 0x0201)), (1, st("ab"))]),
        table(vec![(0, vecsc(Ty::U16, &[1, 2])), (1, sc(Ty::U64, 3))]),
        table(vec![(0, leaf.clone()), (2, sc(Ty::U8, 2))]),
        table(vec![(1, vecref(vec![st("x"), st("é")]))]),
        table(vec![(0, vecref(vec![leaf.clone(), leaf])), (1, vecsc(Ty::Bool, &[1, 0, 1]))]),
        table(vec![(0, vecref(vec![vecsc(Ty::U16, &[7])])), (3, vecsc(Ty::F64, &[1]))]),
    ];
    let mut out = vec![];
    for v in &vals {
        for pl in [0usize, 1, 2] {
            let mut o = EncOpts::plain();
            o.vt_place = true;
            out.push(encode(v, &o, &mut |_| pl));
        }
    }
    // sized, with identifier
    let mut o = EncOpts::plain();
    o.sized = true;
    o.ident = Some(*b"ABCD");
    out.push(encode(&vals[1], &o, &mut |_| 0));
    out
}

fn seed(ch: &mut Ch) -> Vec<u8> {
    let s = seeds();
    s[ch.choose(s.len())].clone()
}

pub fn c04_truncate(ch: &mut Ch) -> Result<(), String> {
    let s = seed(ch);
    let n = ch.range(0, s.len());
    let p = *ch.pick(&PLACES);
    c04(ch, &s[..n], p, 2)
}

pub fn c04_byte(ch: &mut Ch) -> Result<(), String> {
    let mut s = seed(ch);
    let i = ch.choose(s.len());
    let v = ch.choose(256) as u8;
    let p = if ch.thorough() { *ch.pick(&PLACES) } else { *ch.pick(&PLACES[..2]) };
    s[i] = v;
    c04(ch, &s, p, 2)
}

const W16: [u16; 16] = [0, 1, 2, 3, 4, 5, 6, 8, 12, 24, 0x7fff, 0x8000, 0xfff8, 0xfffe, 0xffff, 0x100];
const W32: [u32; 28] = [
    0, 1, 2, 3, 4, 5, 7, 8, 12, 16, 20, 32, 64, 0x100, 0xffff, 0x1_0000, 0x7fff_fff8, 0x7fff_ffff, 0x8000_0000, 0x8000_0001, 0x4000_0000, 0x2000_0000, 0xffff_fff0, 0xffff_fff8, 0xffff_fffc, 0xffff_fffe, 0xffff_ffff, 0xffff_0000,
];

fn edit(ch: &mut Ch, s: &mut Vec<u8>, fine: bool) {
    let step = if fine { 1 } else { 2 };
    let k = ch.choose(2);
    if k == 0 {
        let n = s.len() / step;
        let i = ch.choose(n) * step;
        let v = *ch.pick(&W16);
        for (j, b) in v.to_le_bytes().iter().enumerate() {
            if i + j < s.len() {
                s[i + j] = *b;
            }
        }
    } else {
        let st = if fine { 2 } else { 4 };
        let n = s.len() / st;
        let i = ch.choose(n) * st;
        let v = if fine { *ch.pick(&W32) } else { *ch.pick(&W32) };
        for (j, b) in v.to_le_bytes().iter().enumerate() {
            if i + j < s.len() {
                s[i + j] = *b;
            }
        }
    }
}

pub fn c04_word(ch: &mut Ch) -> Result<(), String> {
    let mut s = seed(ch);
    edit(ch, &mut s, true);
    let p = *ch.pick(&PLACES);
    c04(ch, &s, p, 2)
}

pub fn c04_words2(ch: &mut Ch) -> Result<(), String> {
    let all = seeds();
    let idx: Vec<usize> = if ch.thorough() { (0..all.len()).collect() } else { vec![0, 3, 9] };
    let k = *ch.pick(&idx);
    let mut s = all[k].clone();
    edit(ch, &mut s, false);
    edit(ch, &mut s, false);
    let p = *ch.pick(&PLACES[..2]);
    c04(ch, &s, p, 1)
}

pub fn c04_bytes2(ch: &mut Ch) -> Result<(), String> {
    let all = seeds();
    let idx: Vec<usize> = if ch.thorough() { (0..all.len()).collect() } else { vec![1, 4, 12, 15] };
    let k = *ch.pick(&idx);
    let mut s = all[k].clone();
    let al = [0u8, 1, 2, 4, 8, 0x7f, 0x80, 0xff];
    let i = ch.choose(s.len() - 1);
    let j = i + 1 + ch.choose(s.len() - 1 - i);
    s[i] = *ch.pick(&al);
    s[j] = *ch.pick(&al);
    c04(ch, &s, Place::End, 1)
}

pub fn c04_shift(ch: &mut Ch) -> Result<(), String> {
    let mut s = seed(ch);
    let i = ch.choose(s.len());
    match ch.choose(3) {
        0 => {
            s.remove(i);
        }
        1 => {
            let b = s[i];
            s.insert(i, b);
        }
        _ => {
            s.truncate(i);
            s.extend([0xff, 0, 1]);
        }
    }
    let p = *ch.pick(&PLACES);
    c04(ch, &s, p, 2)
}

/// all short byte strings over an alphabet of structural values
pub fn c04_short(ch: &mut Ch) -> Result<(), String> {
    let al = [0u8, 1, 4, 0xff, 6, 0x80];
    let n = ch.range(0, ch.by_tier(7, 9));
    let mut s = vec![0u8; n];
    for b in s.iter_mut() {
        *b = *ch.pick(&al);
    }
    c04(ch, &s, Place::End, 1)
}

/// plausible roots: a chosen root offset, vtable offset, vtable length and entry
pub fn c04_small(ch: &mut Ch) -> Result<(), String> {
    let len = ch.range(4, 24);
    let mut s = vec![0u8; len];
    let root = ch.range(0, len + 1) as u32;
    s[..4].copy_from_slice(&root.to_le_bytes());
    let put = |s: &mut Vec<u8>, at: i64, b: &[u8]| {
        for (j, x) in b.iter().enumerate() {
            let k = at + j as i64;
            if k >= 0 && (k as usize) < s.len() {
                s[k as usize] = *x;
            }
        }
    };
    let vt = ch.range(0, len + 1) as i64 - 1;
    put(&mut s, root as i64, &((root as i64 - vt) as i32).to_le_bytes());
    let vlen = *ch.pick(&[0u16, 1, 3, 4, 5, 6, 7, 8, 0xffff]);
    put(&mut s, vt, &vlen.to_le_bytes());
    let ent = ch.range(0, 8) as u16;
    put(&mut s, vt + 4, &ent.to_le_bytes());
    c04(ch, &s, Place::End, 1)
}

/// string contents: every sequence of up to 3 (4) bytes that matter for UTF-8, with and without terminator
pub fn c04_utf8(ch: &mut Ch) -> Result<(), String> {
    let al = [0u8, 0x41, 0x7f, 0x80, 0x8f, 0x90, 0x9f, 0xa0, 0xbf, 0xc0, 0xc1, 0xc2, 0xdf, 0xe0, 0xed, 0xef, 0xf0, 0xf4, 0xf5, 0xff];
    let n = ch.range(0, ch.by_tier(3, 4));
    let body: Vec<u8> = (0..n).map(|_| *ch.pick(&al)).collect();
    let term = ch.choose(3);
    let v = table(vec![(0, Rc::new(Node::Bytes(body))), (1, vecsc(Ty::U8, &[9]))]);
    let mut s = encode(&v, &EncOpts::plain(), &mut |_| 0);
    // the byte string is the second object: find its terminator through the reference reader
    let r = rr::root(&s, false).unwrap();
    let f = rr::field(&s, r, 4).unwrap().unwrap();
    let l = rr::follow(&s, f).unwrap();
    let e = (l + 4 + n as i128) as usize;
    match term {
        0 => {}
        1 => s[e] = 0x80,
        _ => {
            s.truncate(e);
        }
    }
    c04(ch, &s, Place::End, 0)
}

/// long string contents: one bad byte sequence anywhere, or none
pub fn c04_text(ch: &mut Ch) -> Result<(), String> {
    let ns: Vec<usize> = (1..=ch.by_tier(72, 140)).chain([127, 128, 129, 255, 256, 257, 300, 511, 512, 513, 1000, 1024, 1025, 4095, 4096, 4097, 32_768, 40_000, 60_000]).collect();
    let n = *ch.pick(&ns);
    let what = ch.choose(9);
    // text of two-byte or of one-byte characters
    let two = ch.flag();
    let bad: &[u8] = [&[][..], &[0x80], &[0xff], &[0xc3], &[0xc0, 0x80], &[0xed, 0xa0, 0x80], &[0xf0, 0x9d, 0x84, 0x9e], &[0xf4, 0x90, 0x80, 0x80], &[0]][what];
    if bad.len() > n {
        return Ok(());
    }
    let last = n - bad.len();
    let pos = if what == 0 {
        0
    } else if n <= ch.by_tier(300, 600) {
        ch.choose(last + 1)
    } else {
        *ch.pick(&[0, 1, 2, 3, 4, 7, 8, 15, 16, 31, 63, 64, 127, 128, 129, 254, 255, 256, 257, last / 3, last / 2, last - 65, last - 33, last - 17, last - 9, last - 8, last - 5, last - 4, last - 3, last - 2, last - 1, last])
    };
    let mut body: Vec<u8> = vec![];
    while body.len() < n {
        if body.len() == pos && what > 0 {
            body.extend_from_slice(bad);
        } else if two && body.len() + 2 <= n && (body.len() + 2 <= pos || body.len() > pos || what == 0) {
            body.extend_from_slice("é".as_bytes());
        } else {
            body.push(b'a' + (body.len() % 26) as u8);
        }
    }
    body.truncate(n);
    let term = ch.choose(if n < 16 { 3 } else { 2 });
    let v = table(vec![(0, Rc::new(Node::Bytes(body))), (1, vecsc(Ty::U8, &[9]))]);
    let mut s = encode(&v, &EncOpts::plain(), &mut |_| 0);
    let r = rr::root(&s, false).unwrap();
    let f = rr::field(&s, r, 4).unwrap().unwrap();
    let l = rr::follow(&s, f).unwrap();
    let e = (l + 4 + n as i128) as usize;
    match term {
        0 => {}
        1 => s[e] = 0x80,
        _ => s.truncate(e),
    }
    c04(ch, &s, Place::End, 0)
}

/// each kind of offset and skip, at every place, with every value that matters
pub fn c04_follow(ch: &mut Ch) -> Result<(), String> {
    use butte::{BackwardsSOffset, FileIdentifier, FollowStart, ForwardsVOffset, SkipFileIdentifier, SkipRootOffset, SkipSizePrefix};
    let len = ch.range(0, 20);
    let loc = ch.range(0, 22);
    let kind = ch.choose(8);
    let near: Vec<u32> = (0..=24).chain([0x7ffe, 0x7fff, 0x8000, 0xffff, 0x10000, 0x7fff_ffff, 0x8000_0000, 0xffff_0000]).chain((1..=24).map(|x: u32| x.wrapping_neg())).collect();
    let v = if kind < 3 { *ch.pick(&near) } else { 0 };
    let t = *ch.pick(&[Ty::U8, Ty::U16, Ty::I32, Ty::U64, Ty::Bool]);
    let mut b: Vec<u8> = (0..len).map(|i| (i * 37 + 11) as u8).collect();
    if kind < 3 {
        for (i, x) in v.to_le_bytes().iter().take(if kind == 1 { 2 } else { 4 }).enumerate() {
            if loc + i < len {
                b[loc + i] = *x;
            }
        }
    }
    let at = loc as i128;
    // where the value lies
    let target: rr::R<i128> = match kind {
        0 => rr::follow(&b, at),
        1 => rr::scalar(&b, at, Ty::U16).map(|x| at + x as i128),
        2 => rr::vtable(&b, at),
        3 | 4 | 5 => Ok(at + 4),
        _ => Ok(at),
    };
    for p in [Place::End, Place::Off(1)] {
        let buf = place(&b, p);
        if kind == 7 {
            let want = if loc + 4 <= len { Ok(&b[loc..loc + 4]) } else { Err(Error::OutOfBounds) };
            let got = <FileIdentifier as Follow>::follow(buf, loc);
            ck!(got == want, "identifier at {} of {:02x?} reads {:?}", loc, b, got);
            continue;
        }
        with_ty!(t, T, {
            let got = match kind {
                0 => <ForwardsUOffset<T> as Follow>::follow(buf, loc),
                1 => <ForwardsVOffset<T> as Follow>::follow(buf, loc),
                2 => <BackwardsSOffset<T> as Follow>::follow(buf, loc),
                3 => <SkipSizePrefix<T> as Follow>::follow(buf, loc),
                4 => <SkipRootOffset<T> as Follow>::follow(buf, loc),
                5 => <SkipFileIdentifier<T> as Follow>::follow(buf, loc),
                _ => <FollowStart<T> as Follow>::follow(buf, loc),
            };
            let want = target.clone().and_then(|l| rr::scalar(&b, l, t));
            let same = match (&got, &want) {
                (Ok(x), Ok(y)) => x.bits() == if t == Ty::Bool { (*y != 0) as u64 } else { *y },
                (Err(Error::OutOfBounds), Err(_)) => true,
                _ => false,
            };
            ck!(same, "kind {} of {:?} at {} of {:02x?} reads {:x?}, expected {:x?}", kind, t, loc, b, got.map(|x| x.bits()), want);
        });
    }
    ch.eval(2);
    ch.step(2);
    ch.state(&b);
    Ok(())
}

// ---------------------------------------------------------------- C08

#[derive(Clone, Copy, PartialEq, Debug)]
enum Kind {
    Sc(Ty),
    Str,
    Tab,
}
const KINDS: [Kind; 8] = [Kind::Sc(Ty::U8), Kind::Sc(Ty::U16), Kind::Sc(Ty::U64), Kind::Str, Kind::Tab, Kind::Sc(Ty::I32), Kind::Sc(Ty::F64), Kind::Sc(Ty::Bool)];

fn skips(len: usize, sz: usize) -> Vec<usize> {
    let mut v = vec![0, 1, 2, 3, len, len + 1, usize::MAX, usize::MAX - 1, usize::MAX / 2 + 1, usize::MAX / sz, (usize::MAX / sz).wrapping_add(1), 1 << 61, 1 << 62, 1 << 32];
    v.sort();
    v.dedup();
    v
}

struct Vecs {
    bytes: Vec<u8>,
    ids: Vec<u64>,
}

fn make(kind: Kind, n: usize) -> Vecs {
    let mut ids = vec![];
    let v = match kind {
        Kind::Sc(t) => {
            let xs: Vec<u64> = (0..n).map(|i| if t == Ty::Bool { (i as u64 * 3 / 2) & 1 } else { gens::val(t, i) }).collect();
            ids = xs.clone();
            vecsc(t, &xs)
        }
        Kind::Str => {
            let xs: Vec<N> = (0..n)
                .map(|i| {
                    ids.push(i as u64);
                    st(&format!("s{}", i))
                })
                .collect();
            vecref(xs)
        }
        Kind::Tab => {
            let xs: Vec<N> = (0..n)
                .map(|i| {
                    ids.push(i as u64);
                    table(vec![(0, sc(Ty::U32, i as u64))])
                })
                .collect();
            vecref(xs)
        }
    };
    // live data on both sides of the vector
    let rootn = table(vec![(0, vecsc(Ty::U32, &[0x7777_7777, 0x6666_6666])), (1, v), (2, vecsc(Ty::U32, &[0x5555_5555, 0x4444_4444, 0x33]))]);
    let mut o = EncOpts::plain();
    o.vt_place = true;
    Vecs { bytes: encode(&rootn, &o, &mut |_| 0), ids }
}

fn drive<'a, T: Follow<'a> + 'a>(ch: &mut Ch, v: Vector<'a, T>, ids: &[u64], idof: &dyn Fn(T::Inner) -> u64, depth: usize) -> Result<(), String> {
    ck!(v.len() == Ok(ids.len()), "len {:?}, expected {}", v.len(), ids.len());
    ck!(v.is_empty() == Ok(ids.is_empty()), "is_empty {:?}", v.is_empty());
    for (i, x) in ids.iter().enumerate() {
        let g = v.get(i).map(idof);
        ck!(g == Ok(*x), "get({}) is {:x?}, expected {:#x}", i, g, x);
    }
    let sz = std::mem::size_of::<T>();
    let ks = skips(ids.len(), sz);
    let src = ch.choose(3);
    let mut it = match src {
        0 => v.iter(),
        1 => v.into_iter(),
        _ => (&v).into_iter(),
    };
    let mut model: VecDeque<u64> = ids.iter().cloned().collect();
    let mut saved: Vec<(butte::VectorIter<'a, T>, VecDeque<u64>)> = vec![];
    let mut log: Vec<String> = vec![];
    for _ in 0..depth {
        let op = ch.choose(3 + 2 * ks.len());
        let (got, want): (Option<u64>, Option<u64>);
        let mapr = |r: Option<Result<T::Inner, Error>>| -> Result<Option<u64>, String> {
            match r {
                None => Ok(None),
                Some(Ok(x)) => Ok(Some(idof(x))),
                Some(Err(e)) => Err(format!("element error {:?}", e)),
            }
        };
        if op == 0 {
            log.push("next".into());
            got = mapr(it.next()).map_err(|e| format!("{:?}: {}", log, e))?;
            want = model.pop_front();
        } else if op == 1 {
            log.push("next_back".into());
            got = mapr(it.next_back()).map_err(|e| format!("{:?}: {}", log, e))?;
            want = model.pop_back();
        } else if op == 2 {
            log.push("clone".into());
            saved.push((it.clone(), model.clone()));
            got = None;
            want = None;
        } else {
            let k = ks[(op - 3) / 2];
            if (op - 3) % 2 == 0 {
                log.push(format!("nth({})", k));
                got = mapr(it.nth(k)).map_err(|e| format!("{:?}: {}", log, e))?;
                want = if k >= model.len() {
                    model.clear();
                    None
                } else {
                    model.drain(..k);
                    model.pop_front()
                };
            } else {
                log.push(format!("nth_back({})", k));
                got = mapr(it.nth_back(k)).map_err(|e| format!("{:?}: {}", log, e))?;
                want = if k >= model.len() {
                    model.clear();
                    None
                } else {
                    model.truncate(model.len() - k);
                    model.pop_back()
                };
            }
        }
        ch.step(1);
        ck!(got == want, "{} elements: {:?} gives {:x?}, expected {:x?}", ids.len(), log, got, want);
        ck!(it.len() == model.len(), "{} elements: after {:?} len is {}, expected {}", ids.len(), log, it.len(), model.len());
        ck!(it.size_hint() == (model.len(), Some(model.len())), "{} elements: after {:?} size_hint is {:?}, expected {}", ids.len(), log, it.size_hint(), model.len());
    }
    saved.push((it, model));
    for (it, m) in saved {
        let fwd: Vec<Option<u64>> = it.clone().map(|r| r.ok().map(idof)).collect();
        let bwd: Vec<Option<u64>> = it.clone().rev().map(|r| r.ok().map(idof)).collect();
        let m1: Vec<Option<u64>> = m.iter().map(|x| Some(*x)).collect();
        let mut m2 = m1.clone();
        m2.reverse();
        ck!(fwd == m1, "after {:?} the rest is {:x?}, expected {:x?}", log, fwd, m1);
        ck!(bwd == m2, "after {:?} the rest backwards is {:x?}, expected {:x?}", log, bwd, m2);
        ck!(it.clone().count() == m.len(), "after {:?} count", log);
        ck!(it.clone().last().map(|r| r.ok().map(idof)) == m.back().map(|x| Some(*x)), "after {:?} last", log);
        ck!(it.clone().fold(0, |a, _| a + 1) == m.len(), "after {:?} fold", log);
        let sk: Vec<Option<u64>> = it.clone().skip(1).step_by(2).map(|r| r.ok().map(idof)).collect();
        let msk: Vec<Option<u64>> = m1.iter().skip(1).step_by(2).cloned().collect();
        ck!(sk == msk, "after {:?} skip(1).step_by(2) is {:x?}, expected {:x?}", log, sk, msk);
        let mut f = it.clone();
        while f.next().is_some() {}
        ck!(f.next().is_none() && f.next_back().is_none() && f.nth(0).is_none() && f.nth(5).is_none() && f.nth_back(0).is_none() && f.len() == 0, "after {:?} the exhausted iterator revives", log);
        ch.eval(7);
    }
    ch.state(format!("{:?}", log));
    ch.sample(|| format!("{} elements, {:?}: agrees with a deque", ids.len(), log));
    Ok(())
}

fn c08(ch: &mut Ch, kinds: &[Kind], maxlen: usize, depth: usize) -> Result<(), String> {
    let kind = *ch.pick(kinds);
    let n = ch.range(0, maxlen);
    let vs = make(kind, n);
    let pl = Placed::new(&vs.bytes, 0);
    let t = Table::get_root(pl.get()).map_err(|e| format!("{:?}", e))?;
    let slot = 6;
    let ids = &vs.ids;
    macro_rules! go {
        ($T:ty, $f:expr) => {{
            let v = t.get::<ForwardsUOffset<Vector<$T>>>(slot, None).map_err(|e| format!("{:?}", e))?.ok_or("vector absent")?;
            let r = guard(|| drive::<$T>(ch, v, ids, &$f, depth));
            match r {
                Ok(r) => r.map_err(|e| format!("vector of {:?}: {}", kind, e)),
                Err(e) => Err(format!("vector of {} {:?}: panic: {}", n, kind, e)),
            }
        }};
    }
    match kind {
        Kind::Sc(ty) => {
            with_nonbool!(
                ty,
                T,
                {
                    let v = t.get::<ForwardsUOffset<Vector<T>>>(slot, None).map_err(|e| format!("{:?}", e))?.ok_or("vector absent")?;
                    let ss = v.safe_slice().map_err(|e| format!("safe_slice: {:?}", e))?;
                    ck!(ss.iter().map(|x| x.bits()).eq(ids.iter().cloned()), "safe_slice {:?}", ss);
                    let sl = t.get::<ForwardsUOffset<&[T]>>(slot, None).map_err(|e| format!("slice: {:?}", e))?.ok_or("slice absent")?;
                    ck!(sl.iter().map(|x| x.bits()).eq(ids.iter().cloned()), "slice {:?}", sl);
                },
                {}
            );
            with_ty!(ty, T, go!(T, |x: T| x.bits()))
        }
        Kind::Str => go!(RefStr, |s: &str| s[1..].parse::<u64>().unwrap_or(999)),
        Kind::Tab => go!(RefTab, |t: Table<&[u8]>| t.get::<u32>(4, None).ok().flatten().map(|x| x as u64).unwrap_or(999)),
    }
}

pub fn c08_all(ch: &mut Ch) -> Result<(), String> {
    let d = ch.by_tier(3, 4);
    c08(ch, &KINDS, 5, d)
}
pub fn c08_deep(ch: &mut Ch) -> Result<(), String> {
    let d = ch.by_tier(4, 5);
    let k: &[Kind] = &[Kind::Sc(Ty::U16), Kind::Str];
    c08(ch, k, 4, d)
}
pub fn c08_long(ch: &mut Ch) -> Result<(), String> {
    // longer vectors, fewer steps
    let kind = *ch.pick(&KINDS);
    let n = *ch.pick(&[8usize, 16, 17, 33, 64, 100, 257]);
    let vs = make(kind, n);
    let pl = Placed::new(&vs.bytes, 0);
    let t = Table::get_root(pl.get()).map_err(|e| format!("{:?}", e))?;
    let rd = |i: usize, j: usize, k: usize| -> Result<(), String> {
        macro_rules! go {
            ($T:ty, $f:expr) => {{
                let v = t.get::<ForwardsUOffset<Vector<$T>>>(6, None).map_err(|e| format!("{:?}", e))?.ok_or("vector absent")?;
                let f = $f;
                let mut it = v.iter();
                let mut m: VecDeque<u64> = vs.ids.iter().cloned().collect();
                let a = it.nth(i).map(|r| r.ok().map(&f));
                let wa = if i >= m.len() { m.clear(); None } else { m.drain(..i); m.pop_front() };
                ck!(a == wa.map(Some), "nth({}) of {}: {:x?} expected {:x?}", i, n, a, wa);
                let a = it.nth_back(j).map(|r| r.ok().map(&f));
                let wa = if j >= m.len() { m.clear(); None } else { m.truncate(m.len() - j); m.pop_back() };
                ck!(a == wa.map(Some), "nth({}).nth_back({}) of {}: {:x?} expected {:x?}", i, j, n, a, wa);
                let a = it.nth(k).map(|r| r.ok().map(&f));
                let wa = if k >= m.len() { m.clear(); None } else { m.drain(..k); m.pop_front() };
                ck!(a == wa.map(Some), "nth({}).nth_back({}).nth({}) of {}: {:x?} expected {:x?}", i, j, k, n, a, wa);
                ck!(it.len() == m.len(), "length after nth({}) nth_back({}) nth({}) of {}", i, j, k, n);
                Ok(())
            }};
        }
        match kind {
            Kind::Sc(ty) => with_ty!(ty, T, go!(T, |x: T| x.bits())),
            Kind::Str => go!(RefStr, |s: &str| s[1..].parse::<u64>().unwrap_or(999)),
            Kind::Tab => go!(RefTab, |t: Table<&[u8]>| t.get::<u32>(4, None).ok().flatten().map(|x| x as u64).unwrap_or(999)),
        }
    };
    let i = ch.choose(n + 2);
    let j = *ch.pick(&[0, 1, 2, n / 2, n - 1, n]);
    let k = *ch.pick(&[0, 1, n / 3]);
    ch.step(3);
    ch.eval(4);
    ch.state(format!("{:?}{}{}{}{}", kind, n, i, j, k));
    guard(|| rd(i, j, k)).map_err(|e| format!("panic: {}", e))?
}

/// vectors longer than 8, 12 and 16 bits count: everything about them
pub fn c08_huge(ch: &mut Ch) -> Result<(), String> {
    let kind = *ch.pick(&KINDS);
    let n = *ch.pick(&[255usize, 256, 257, 1023, 1024, 4095, 4096, 4097, 32_767, 32_768, 65_535, 65_536, 65_537, 70_000, 131_073]);
    let vs = make(kind, n);
    let pl = Placed::new(&vs.bytes, 0);
    let t = Table::get_root(pl.get()).map_err(|e| format!("{:?}", e))?;
    let ids = &vs.ids;
    let rd = || -> Result<(), String> {
        macro_rules! go {
            ($T:ty, $f:expr) => {{
                let v = t.get::<ForwardsUOffset<Vector<$T>>>(6, None).map_err(|e| format!("{:?}", e))?.ok_or("vector absent")?;
                let f = $f;
                ck!(v.len() == Ok(n) && v.is_empty() == Ok(false), "len {:?} of {}", v.len(), n);
                for i in 0..n {
                    let g = v.get(i).map(&f);
                    ck!(g == Ok(ids[i]), "get({}) of {}: {:x?} expected {:x?}", i, n, g, ids[i]);
                }
                let mut it = v.iter();
                let mut bk = v.iter();
                for i in 0..n {
                    ck!(it.len() == n - i && it.size_hint() == (n - i, Some(n - i)), "{} elements: size hint {:?} after {} steps", n, it.size_hint(), i);
                    ck!(bk.len() == n - i && bk.size_hint() == (n - i, Some(n - i)), "{} elements: size hint {:?} after {} steps back", n, bk.size_hint(), i);
                    let a = it.next().map(|r| r.ok().map(&f));
                    ck!(a == Some(Some(ids[i])), "element {} of {}: {:x?} expected {:x?}", i, n, a, ids[i]);
                    let a = bk.next_back().map(|r| r.ok().map(&f));
                    ck!(a == Some(Some(ids[n - 1 - i])), "element {} of {} from the back: {:x?} expected {:x?}", i, n, a, ids[n - 1 - i]);
                }
                ck!(it.next().is_none() && it.next_back().is_none() && bk.next().is_none() && bk.next_back().is_none(), "{} elements: more than that", n);
                ck!(v.iter().count() == n && v.iter().last().map(|r| r.ok().map(&f)) == Some(Some(ids[n - 1])), "{} elements: count or last", n);
                for k in [0, 1, 254, 255, 256, 257, 4095, 4096, 4097, 32_768, 65_534, 65_535, 65_536, 65_537, n / 2, n - 2, n - 1, n, n + 1, n + 65_536, usize::MAX] {
                    for j in [0, 1, 255, 256, n / 3, 65_536] {
                        let mut it = v.iter();
                        let want = ids.get(k).cloned();
                        let a = it.nth(k).map(|r| r.ok().map(&f));
                        ck!(a == want.map(Some), "nth({}) of {}: {:x?} expected {:x?}", k, n, a, want);
                        let left = n.saturating_sub(k.saturating_add(1));
                        ck!(it.len() == left, "length {} after nth({}) of {}", it.len(), k, n);
                        let want = if j < left { Some(ids[n - 1 - j]) } else { None };
                        let a = it.nth_back(j).map(|r| r.ok().map(&f));
                        ck!(a == want.map(Some), "nth({}).nth_back({}) of {}: {:x?} expected {:x?}", k, j, n, a, want);
                        ck!(it.len() == left.saturating_sub(j + 1), "length {} after nth({}).nth_back({}) of {}", it.len(), k, j, n);
                        let mut it = v.iter();
                        let want = if k < n { Some(ids[n - 1 - k]) } else { None };
                        let a = it.nth_back(k).map(|r| r.ok().map(&f));
                        ck!(a == want.map(Some), "nth_back({}) of {}: {:x?} expected {:x?}", k, n, a, want);
                        let want = if j < left { Some(ids[j]) } else { None };
                        let a = it.nth(j).map(|r| r.ok().map(&f));
                        ck!(a == want.map(Some), "nth_back({}).nth({}) of {}: {:x?} expected {:x?}", k, j, n, a, want);
                    }
                }
                Ok(())
            }};
        }
        match kind {
            Kind::Sc(ty) => {
                with_nonbool!(
                    ty,
                    T,
                    {
                        let v = t.get::<ForwardsUOffset<Vector<T>>>(6, None).map_err(|e| format!("{:?}", e))?.ok_or("vector absent")?;
                        let ss = v.safe_slice().map_err(|e| format!("safe_slice: {:?}", e))?;
                        ck!(ss.iter().map(|x| x.bits()).eq(ids.iter().cloned()), "safe_slice of {} elements has {}", n, ss.len());
                        let sl = t.get::<ForwardsUOffset<&[T]>>(6, None).map_err(|e| format!("slice: {:?}", e))?.ok_or("slice absent")?;
                        ck!(sl.iter().map(|x| x.bits()).eq(ids.iter().cloned()), "slice of {} elements has {}", n, sl.len());
                    },
                    {}
                );
                with_ty!(ty, T, go!(T, |x: T| x.bits()))
            }
            Kind::Str => go!(RefStr, |s: &str| s[1..].parse::<u64>().unwrap_or(999_999)),
            Kind::Tab => go!(RefTab, |t: Table<&[u8]>| t.get::<u32>(4, None).ok().flatten().map(|x| x as u64).unwrap_or(999_999)),
        }
    };
    ch.step(2 * n as u64);
    ch.eval(5 * n as u64);
    ch.state(format!("{:?}{}", kind, n));
    ch.sample(|| format!("{} elements of {:?}", n, kind));
    guard(rd).map_err(|e| format!("panic: {}", e))?.map_err(|e| format!("vector of {:?}: {}", kind, e))
}
