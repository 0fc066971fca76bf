//! Small scenarios; every choice is made before the library is called.

use crate::gens;
use crate::prog::*;
use crate::with_ty;
use crate::{Job, H};
use butte::*;
use fbspec::encode::{encode, EncOpts};
use fbspec::*;
use mc::{guard, Ch};
use std::collections::VecDeque;

type F = fn(&mut Ch) -> Job;

pub const ALL: &[(&str, F, &str)] = &[
    ("fields", fields, "tables of up to 3 fields of every size and slot order, four phases"),
    ("scalars", scalars, "every scalar type x boundary value x default, elided or always written"),
    ("strings", strings, "strings and byte strings of lengths 0..9, 16, 31, 40"),
    ("vectors", vectors, "vectors of every scalar type, lengths 0..5, three constructions, four phases"),
    ("vecvals", vecvals, "every boundary value in vectors, three constructions"),
    ("strvecs", strvecs, "vectors of strings around the capacity kept on the stack"),
    ("graphs", graphs, "all object graphs of up to 2 (3) objects plus root"),
    ("finishes", finishes, "every way to finish"),
    ("reuse", reuse, "every history stopped anywhere, reset, cloned or grown, then a second program"),
    ("misuse", misuse, "all sequences of 3 (4) calls in any order, then a reset and a second program"),
    ("layouts", layouts, "conforming buffers of every vtable placement, sharing and field order"),
    ("truncate", truncate, "every prefix of seed buffers, at several addresses"),
    ("words", words, "every word of seed buffers set to every boundary value"),
    ("bytes", bytes_, "every byte of seed buffers set to 0, 1, 0x7f, 0x80 and 0xff"),
    ("iter", iter, "all sequences of 2 (3) iterator operations on vectors of 0..3 elements"),
    ("prims", prims, "scalars and offsets read and written at every position of small buffers"),
    #[cfg(feature = "gen")]
    ("generated", crate::gen::generated, "generated code for enums, unions, scalars with defaults, vectors and nested tables"),
];

macro_rules! ck {
    ($c:expr, $($a:tt)*) => { if !($c) { return Err(format!($($a)*)); } }
}

#[derive(Clone, Copy)]
#[repr(align(16))]
#[allow(dead_code)]
struct A16([u8; 16]);

/// bytes at a chosen distance from a 16-byte boundary, at the very end of their allocation
struct Placed(Vec<A16>, usize, usize);
impl Placed {
    fn new(b: &[u8], off: usize) -> Placed {
        let mut v = vec![A16([0xAA; 16]); (off + b.len() + 15) / 16];
        for (i, x) in b.iter().enumerate() {
            v[(off + i) / 16].0[(off + i) % 16] = *x;
        }
        Placed(v, off, b.len())
    }
    fn get(&self) -> &[u8] {
        let all = unsafe { std::slice::from_raw_parts(self.0.as_ptr() as *const u8, self.0.len() * 16) };
        &all[self.1..self.1 + self.2]
    }
}

// ------------------------------------------------------------ reading what was written

fn read(h: &mut H, buf: &[u8], n: &N, sized: bool) -> Result<(), String> {
    let t = if sized { Table::get_size_prefixed_root(buf) } else { Table::get_root(buf) };
    match t {
        Ok(t) => table_at(h, &t, n, 8),
        Err(e) => Err(format!("root: {:?}", e)),
    }
}

struct Tab;
impl<'a> Follow<'a> for Tab {
    type Inner = Table<&'a [u8]>;
    fn follow(buf: &'a [u8], loc: usize) -> Result<Self::Inner, Error> {
        Ok(Table::new(buf, loc))
    }
}

fn object(h: &mut H, buf: &[u8], loc: usize, n: &N, depth: usize) -> Result<(), String> {
    match &**n {
        Node::Sc(..) => unreachable!(),
        Node::Str(s) => match <&str>::follow(buf, loc) {
            Ok(x) if x == s => h.bytes(x.as_bytes()),
            r => return Err(format!("string {:?} reads {:?}", s, r)),
        },
        Node::Bytes(b) => match Vector::<u8>::new(buf, loc).safe_slice() {
            Ok(x) if x == &b[..] => h.bytes(x),
            r => return Err(format!("bytes {:?} read {:?}", b, r)),
        },
        Node::VecSc(t, xs) => with_ty!(*t, T, {
            let v = Vector::<T>::new(buf, loc);
            ck!(v.len() == Ok(xs.len()), "vector length {:?}, written {}", v.len(), xs.len());
            for (i, r) in v.iter().enumerate() {
                match r {
                    Ok(x) if x.bits() == xs[i] => h.put(x.bits()),
                    r => return Err(format!("element {} of {:?} reads {:x?}", i, xs, r)),
                }
                ck!(v.get(i).map(|x| x.bits()) == Ok(xs[i]), "element {} by index", i);
            }
            let mis = (loc + 4 + buf.as_ptr() as usize) % std::mem::align_of::<T>() != 0;
            for r in [Slices::<T>::slice(buf, loc), Direct::<T>::safe(Vector::<T>::new(buf, loc))].into_iter().flatten() {
                match r {
                    Ok(s) => ck!(s.len() == xs.len() && s.iter().zip(xs).all(|(a, b)| a.bits() == *b), "slice {:?}, written {:x?}", s, xs),
                    Err(e) => ck!(e == Error::InvalidSlice && mis, "slice of {:x?}: {:?}", xs, e),
                }
            }
        }),
        Node::VecRef(xs) => {
            let v = Vector::<ForwardsUOffset<Tab>>::new(buf, loc);
            ck!(v.len() == Ok(xs.len()), "vector length {:?}, written {}", v.len(), xs.len());
            for (i, x) in xs.iter().enumerate() {
                match v.get(i) {
                    Ok(t) => object(h, buf, t.loc, x, depth - 1)?,
                    Err(e) => return Err(format!("element {}: {:?}", i, e)),
                }
            }
        }
        Node::Table(_) => table_at(h, &Table::new(buf, loc), n, depth - 1)?,
    }
    Ok(())
}

fn table_at(h: &mut H, t: &Table<&[u8]>, n: &N, depth: usize) -> Result<(), String> {
    let fs = match &**n {
        Node::Table(fs) => fs,
        _ => unreachable!(),
    };
    let max = fs.keys().max().map(|x| x + 1).unwrap_or(0);
    for s in 0..max + 2 {
        let vo = vo(s);
        match fs.get(&s).map(|x| &**x) {
            None => {
                let r = t.get::<u32>(vo, Some(77));
                ck!(r == Ok(Some(77)), "absent field {} reads {:?}", s, r);
                h.put(1);
            }
            Some(Node::Sc(ty, v)) => with_ty!(*ty, T, {
                match t.get::<T>(vo, None) {
                    Ok(Some(x)) if x.bits() == *v => h.put(x.bits()),
                    r => return Err(format!("field {} written {:#x} reads {:?}", s, v, r)),
                }
            }),
            Some(_) => match t.get::<ForwardsUOffset<Tab>>(vo, None) {
                Ok(Some(x)) => object(h, t.buf, x.loc, &fs[&s], depth)?,
                _ => return Err(format!("reference in field {} cannot be followed", s)),
            },
        }
    }
    Ok(())
}

fn run(p: P, back: bool) -> Job {
    Box::new(move |h| {
        let mut m = M::new(0);
        m.run_all(&p.c);
        written(h, &m, &p, back)
    })
}

/// the bytes, checked in full by the native program and compared with its
/// elsewhere; `back`: also read them here
fn written(h: &mut H, m: &M, p: &P, back: bool) -> Result<(), String> {
    let bytes = m.b.finished_data();
    h.bytes(bytes);
    if cfg!(miri) && !back {
        return Ok(());
    }
    let model = Model::of(&p.c);
    let root = model.root.as_ref().unwrap();
    #[cfg(not(miri))]
    {
        verify(bytes, root, &VOpts { ident: model.ident, sized: model.sized, exact: true })?;
        let pl = Placed::new(bytes, 0);
        crate::read::read_all(pl.get(), root, model.sized)?;
    }
    if back {
        let pl = Placed::new(bytes, 0);
        read(h, pl.get(), root, model.sized)?;
    }
    if let Some(id) = model.ident {
        ck!(buffer_has_identifier(bytes, id, model.sized) == Ok(true), "identifier {:?} not found", id);
    }
    Ok(())
}

// ------------------------------------------------------------ programs

fn fields(ch: &mut Ch) -> Job {
    let kinds: [Option<Ty>; 5] = [Some(Ty::U8), Some(Ty::U16), Some(Ty::U32), Some(Ty::U64), None];
    let k = ch.range(0, 3);
    let phase = ch.choose(if k == 3 && !ch.thorough() { 1 } else { 4 });
    let mut p = P::new();
    let s = p.str(&"abcdefgh"[..phase]);
    let mut free: Vec<u16> = (0..k as u16).collect();
    p.start();
    for i in 0..k {
        let kd = *ch.pick(&kinds);
        let c = ch.choose(free.len());
        let slot = free.remove(c);
        match kd {
            Some(t) => p.slot(slot, t, gens::val(t, i)),
            None => p.slot_ref(slot, s),
        }
    }
    p.slot_ref(k as u16 + 1, s);
    let r = p.end();
    p.finish_min(r);
    run(p, false)
}

fn scalars(ch: &mut Ch) -> Job {
    let t = *ch.pick(&TYS);
    let b = gens::boundary(t);
    let v = *ch.pick(&b);
    let mut p = P::new();
    p.start();
    let near = ch.flag();
    if near {
        p.slot(0, Ty::U8, 0x55);
    }
    match ch.choose(3) {
        0 => p.slot(1, t, v),
        1 => p.slot_d(1, t, v, v),
        _ => p.slot_d(1, t, v, b[(b.iter().position(|x| *x == v).unwrap() + 1) % b.len()]),
    }
    if near {
        p.slot(2, Ty::U16, 0x7788);
    }
    let r = p.end();
    p.finish_min(r);
    run(p, true)
}

fn strings(ch: &mut Ch) -> Job {
    let ns: Vec<usize> = (0..10).chain([16, 31, 40]).collect();
    let n = *ch.pick(&ns);
    let kind = ch.choose(4);
    let m = ch.choose(4);
    let mut p = P::new();
    let a = if kind == 3 { p.bytes(&(0..n).map(|i| 0xffu8.wrapping_sub(i as u8)).collect::<Vec<_>>()) } else { p.str(&gens::text(kind, n)) };
    let b = p.str(&gens::text(0, m));
    p.start();
    p.slot_ref(0, a);
    p.slot_ref(1, b);
    let r = p.end();
    p.finish_min(r);
    run(p, false)
}

fn vec_prog(t: Ty, xs: &[u64], mode: usize, phase: usize) -> P {
    let mut p = P::new();
    let s = p.str(&"abcdefgh"[..phase]);
    let v = p.vec(t, xs, mode);
    p.start();
    p.slot_ref(0, s);
    p.slot_ref(1, v);
    let r = p.end();
    p.finish_min(r);
    p
}

fn vectors(ch: &mut Ch) -> Job {
    let t = *ch.pick(&TYS);
    let n = ch.range(0, 5);
    let mode = ch.choose(3);
    let phase = *ch.pick(&[0, 1, 3, 6]);
    let xs: Vec<u64> = (0..n).map(|i| gens::val(t, i)).collect();
    run(vec_prog(t, &xs, mode, phase), false)
}

fn vecvals(ch: &mut Ch) -> Job {
    let t = *ch.pick(&TYS);
    let v = *ch.pick(&gens::boundary(t));
    let mode = ch.choose(3);
    run(vec_prog(t, &[v], mode, 0), true)
}

fn strvecs(ch: &mut Ch) -> Job {
    let n = *ch.pick(&[0usize, 1, 2, 3, 15, 16, 17]);
    let mode = ch.choose(3);
    let mut p = P::new();
    let ss: Vec<String> = (0..n).map(|i| gens::text(i % 3, i % 4)).collect();
    let v = if mode == 0 {
        p.strs(&ss)
    } else {
        let rs: Vec<usize> = ss.iter().map(|s| p.str(s)).collect();
        p.refs(&rs, mode)
    };
    p.start();
    p.slot_ref(1, v);
    let r = p.end();
    p.finish_min(r);
    run(p, true)
}

fn graphs(ch: &mut Ch) -> Job {
    let k = ch.by_tier(2, 3);
    run(gens::graphs_of(ch, k), true)
}

fn finishes(ch: &mut Ch) -> Job {
    let mut p = P::new();
    let phase = *ch.pick(&[0usize, 1, 2, 3, 5]);
    let s = p.str(&"abcdefgh"[..phase]);
    p.start();
    match ch.choose(4) {
        1 => p.slot(0, Ty::U16, 0xabcd),
        2 => p.slot(0, Ty::U32, 0xabcd_ef01),
        3 => p.slot(0, Ty::F64, 0x4009_21fb_5444_2d18),
        _ => {}
    }
    p.slot_ref(1, s);
    let r = p.end();
    match ch.choose(5) {
        0 => p.finish_min(r),
        1 => p.finish(r, None, false),
        2 => p.finish(r, None, true),
        k => p.finish(r, Some(*ch.pick(&["ABCD", "\0\0\0\0", "é12"])), k == 4),
    }
    run(p, true)
}

fn zoo() -> Vec<P> {
    let mut out = vec![];
    let mut p = P::new();
    p.start();
    p.slot(0, Ty::U16, 0x1234);
    let r = p.end();
    p.finish_min(r);
    out.push(p);
    out.push(vec_prog(Ty::U64, &[1, 2, u64::MAX], 0, 3));
    let mut p = P::new();
    let a = p.strs(&["a".into(), "".into(), "ccc".into()]);
    p.start();
    p.slot(0, Ty::F64, 0x4009_21fb_5444_2d18);
    let t = p.end();
    p.start();
    p.slot(0, Ty::F64, 0x4000_0000_0000_0000);
    let u = p.end();
    let v = p.refs(&[t, u], 2);
    p.start();
    p.slot_ref(0, a);
    p.slot_ref(1, v);
    p.slot(4, Ty::Bool, 1);
    let r = p.end();
    p.finish(r, Some("ABCD"), true);
    out.push(p);
    let mut p = P::new();
    let a = p.bytes(&[9; 70]);
    p.start();
    p.slot_ref(2, a);
    let r = p.end();
    p.finish(r, None, false);
    out.push(p);
    out
}

fn reuse(ch: &mut Ch) -> Job {
    let z = zoo();
    let a = ch.choose(z.len());
    let b = ch.choose(z.len());
    let stop = ch.range(0, z[a].c.len());
    let cap = *ch.pick(if ch.thorough() { &[0usize, 256, 1, 24][..] } else { &[0, 256][..] });
    let how = ch.choose(3);
    Box::new(move |h| {
        let z = zoo();
        let mut m = M::new(cap);
        for c in &z[a].c[..stop] {
            m.run(c);
        }
        match how {
            0 => m.run(&Call::Reset),
            1 => {
                let mut c = m.clone();
                c.run(&Call::Reset);
                drop(m);
                m = c;
            }
            _ => {
                // both go on after the clone
                let mut c = m.clone();
                for x in &z[a].c[stop..] {
                    c.run(x);
                    m.run(x);
                }
                ck!(c.b.finished_data() == m.b.finished_data(), "a clone continues differently");
                let (v, head) = c.b.collapse();
                ck!(&v[head..] == m.b.finished_data(), "collapse gives other bytes");
                m.run(&Call::Reset);
            }
        }
        m.run_all(&z[b].c);
        written(h, &m, &z[b], false)
    })
}

fn misuse(ch: &mut Ch) -> Job {
    let calls: Vec<Call> = vec![
        Call::StartTable,
        Call::StartVec(El::Sc(Ty::U16), 1),
        Call::Str("s".into()),
        Call::VecStrs(vec!["a".into()]),
        Call::Slot(0, Ty::U16, 7, Some(0)),
        Call::Slot(600, Ty::U64, 7, None),
        Call::PushSc(Ty::U16, 4),
        Call::EndTable,
        Call::EndVec(El::Sc(Ty::U16), 1),
        Call::Finish(0, Some("ABCD"), true),
    ];
    let d = ch.by_tier(3, 4);
    let seq: Vec<Call> = (0..d).map(|_| ch.pick(&calls).clone()).collect();
    Box::new(move |h| {
        let mut m = M::new(0);
        for c in &seq {
            if m.regs.is_empty() {
                m.regs.push(0);
            }
            // what is refused is decided elsewhere; here it is the same everywhere and harmless
            h.put(guard(|| m.run(c)).is_ok() as u64);
            h.bytes(m.b.unfinished_data());
        }
        h.put(guard(|| m.b.finished_data().len()).unwrap_or(0) as u64);
        m.run(&Call::Reset);
        let z = zoo().swap_remove(0);
        m.run_all(&z.c);
        written(h, &m, &z, false)
    })
}

// ------------------------------------------------------------ reading

fn values() -> Vec<N> {
    let leaf = table(vec![(0, sc(Ty::U8, 0xC1))]);
    vec![
        table(vec![]),
        table(vec![(0, sc(Ty::U16, 0x0201)), (1, st("ab"))]),
        table(vec![(0, vecsc(Ty::U16, &[0x102, 2])), (1, sc(Ty::U64, 0x0102_0304_0506_0708))]),
        table(vec![(0, leaf.clone()), (2, sc(Ty::I32, 0xffff_fffe))]),
        table(vec![(1, vecref(vec![st("x"), st("é")])), (0, sc(Ty::F32, 0x4049_0fdb))]),
        table(vec![(0, vecref(vec![leaf.clone(), leaf])), (1, vecsc(Ty::Bool, &[1, 0, 1]))]),
        table(vec![(0, vecref(vec![vecsc(Ty::U16, &[7])])), (3, vecsc(Ty::F64, &[0x4009_21fb_5444_2d18]))]),
    ]
}

/// Buffers the native program encodes, for all to read: encoding takes long where
/// this is interpreted.
pub fn blobs() -> Vec<Vec<u8>> {
    let mut out = vec![];
    // 0..8: seeds
    for (i, v) in values().iter().enumerate() {
        let mut o = EncOpts::plain();
        o.vt_place = true;
        out.push(encode(v, &o, &mut |_| i % 3));
    }
    let mut o = EncOpts::plain();
    o.sized = true;
    o.ident = Some(*b"ABCD");
    out.push(encode(&values()[1], &o, &mut |_| 0));
    // 8..20: vectors to iterate
    for kind in 0..3 {
        for n in 0..4 {
            let xs = elements(n);
            let node = match kind {
                0 => vecsc(Ty::U16, &xs),
                1 => vecsc(Ty::U64, &xs),
                _ => vecref(xs.iter().map(|x| st(&"xyz!"[..(x & 3) as usize])).collect()),
            };
            out.push(encode(&table(vec![(0, node)]), &EncOpts::plain(), &mut |_| 0));
        }
    }
    // 20..: layouts
    for v in values() {
        for k in 0..4 {
            for pick in 0..24 {
                let picks = [pick % 4, pick / 4 % 2, pick / 8];
                let mut o = EncOpts::plain();
                o.vt_place = true;
                o.share = true;
                o.field_order = true;
                o.sized = k & 1 != 0;
                if k & 2 != 0 {
                    o.ident = Some(*b"ABCD");
                }
                let mut i = 0;
                out.push(encode(&v, &o, &mut |n| {
                    let x = if i < 3 { picks[i] } else { 0 };
                    i += 1;
                    x.min(n - 1)
                }));
            }
        }
    }
    out
}

fn elements(n: usize) -> Vec<u64> {
    (0..n as u64).map(|i| 0x101 * (i + 1)).collect()
}

/// one of the buffers, from the file the native program wrote
fn blob(i: usize) -> Vec<u8> {
    thread_local! { static ALL: std::cell::RefCell<Vec<u8>> = Default::default(); }
    ALL.with(|s| {
        let mut s = s.borrow_mut();
        if s.is_empty() {
            *s = std::fs::read(std::env::var("MI_BLOBS").expect("MI_BLOBS")).expect("the file of buffers");
        }
        let at = |k: usize| u32::from_le_bytes([s[4 * k], s[4 * k + 1], s[4 * k + 2], s[4 * k + 3]]) as usize;
        s[at(i)..at(i + 1)].to_vec()
    })
}

fn layouts(ch: &mut Ch) -> Job {
    let v = ch.choose(7);
    let k = ch.choose(4);
    let pick = ch.choose(24);
    let off = if ch.thorough() { *ch.pick(&[0usize, 1, 4]) } else { pick & 1 };
    Box::new(move |h| {
        let pl = Placed::new(&blob(20 + (v * 4 + k) * 24 + pick), off);
        read(h, pl.get(), &values()[v], k & 1 != 0)
    })
}

fn seed(ch: &mut Ch) -> Vec<u8> {
    blob(ch.choose(8))
}

fn truncate(ch: &mut Ch) -> Job {
    let s = seed(ch);
    let n = ch.range(0, s.len());
    let off = *ch.pick(if ch.thorough() { &[0usize, 1, 4, 2, 3, 8][..] } else { &[0, 1][..] });
    let b = s[..n].to_vec();
    Box::new(move |h| probe(h, &b, off))
}

fn words(ch: &mut Ch) -> Job {
    let mut s = seed(ch);
    let wide = ch.flag();
    let i = ch.choose(s.len() / 2 - 1) * 2;
    let off = if ch.thorough() { *ch.pick(&[0usize, 1]) } else { 0 };
    if wide {
        let all = [0u32, 4, 0x7fff_ffff, 0x8000_0000, 0xffff_fff0, 0xffff_ffff, 0x20, 0xffff_fffc, 1, 2, 8, 0x100, 0x4000_0000, 0x7fff_fff8, 0xffff_fff8, 0x8000_0001];
        let n = ch.by_tier(6, 16);
        let v = all[ch.choose(n)];
        s[i..i + 4].copy_from_slice(&v.to_le_bytes());
    } else {
        let all = [0u16, 4, 0xffff, 0x7fff, 1, 2, 6, 8, 0x8000, 0xfffe];
        let n = ch.by_tier(3, 10);
        let v = all[ch.choose(n)];
        s[i..i + 2].copy_from_slice(&v.to_le_bytes());
    }
    Box::new(move |h| probe(h, &s, off))
}

fn bytes_(ch: &mut Ch) -> Job {
    let mut s = seed(ch);
    let i = ch.choose(s.len());
    let n = ch.by_tier(2, 5);
    s[i] = *ch.pick(&[0xffu8, 0x80, 0, 1, 0x7f][..n]);
    Box::new(move |h| probe(h, &s, 0))
}

fn err(h: &mut H, e: Error) {
    h.put(match e {
        Error::OutOfBounds => 0xe1,
        Error::NonUtf8String => 0xe2,
        Error::NonNullTerminatedString => 0xe3,
        Error::InvalidSlice => 0xe4,
        _ => 0xe5,
    })
}

fn res<T: S>(h: &mut H, r: Result<T, Error>) {
    match r {
        Ok(x) => h.put(x.bits()),
        Err(e) => err(h, e),
    }
}

/// read unknown bytes every way there is; only the results matter here
fn probe(h: &mut H, bytes: &[u8], off: usize) -> Result<(), String> {
    let pl = Placed::new(bytes, off);
    let buf = pl.get();
    for sized in [false, true] {
        match if sized { Table::get_size_prefixed_root(buf) } else { Table::get_root(buf) } {
            Ok(t) => {
                // beyond the buffer, one place is as good as another
                h.put(t.loc.min(buf.len()) as u64);
                if !sized || bytes.len() > 40 {
                    probe_table(h, &t, 1)?;
                } else {
                    res(h, t.get::<u16>(4, Some(5)).map(|x| x.unwrap_or(9)));
                }
            }
            Err(e) => err(h, e),
        }
        match buffer_has_identifier(buf, "ABCD", sized) {
            Ok(b) => h.put(b as u64),
            Err(e) => err(h, e),
        }
    }
    Ok(())
}

fn probe_table(h: &mut H, t: &Table<&[u8]>, depth: usize) -> Result<(), String> {
    let buf = t.buf;
    for slot in [4u16, 6, 10] {
        macro_rules! get {
            ($($t:ty),*) => { $(match t.get::<$t>(slot, None) { Ok(None) => h.put(0xdd), Ok(Some(x)) => h.put(x.bits()), Err(e) => err(h, e) })* }
        }
        if t.get::<u8>(slot, None) == Ok(None) {
            h.put(0xde);
            continue;
        }
        get!(bool, u16, i32, u64, f64);
        match t.get::<ForwardsUOffset<&str>>(slot, None) {
            Ok(None) => h.put(0xdd),
            Ok(Some(s)) => h.bytes(s.as_bytes()),
            Err(e) => err(h, e),
        }
        let v = match t.get::<ForwardsUOffset<Vector<u16>>>(slot, None) {
            Ok(Some(v)) => v,
            Ok(None) => {
                h.put(0xdd);
                continue;
            }
            Err(e) => {
                err(h, e);
                continue;
            }
        };
        let loc = t.get::<ForwardsUOffset<Tab>>(slot, None).unwrap().unwrap().loc;
        h.put(loc.min(buf.len()) as u64);
        vector(h, v)?;
        vector(h, Vector::<u64>::new(buf, loc))?;
        vector(h, Vector::<bool>::new(buf, loc))?;
        match Vector::<u8>::new(buf, loc).safe_slice() {
            Ok(s) => h.bytes(s),
            Err(e) => err(h, e),
        }
        macro_rules! slices {
            ($($t:ty),*) => { $(
                if let Some(r) = Slices::<$t>::slice(buf, loc) {
                    slice::<$t>(r, buf, loc)?;
                }
                if let Some(r) = Direct::<$t>::safe(Vector::<$t>::new(buf, loc)) {
                    slice::<$t>(r, buf, loc)?;
                }
            )* }
        }
        slices!(bool, u16, u64);
        let v = Vector::<ForwardsUOffset<&str>>::new(buf, loc);
        let mut it = v.iter();
        for _ in 0..2 {
            match it.next() {
                Some(Ok(s)) => h.bytes(s.as_bytes()),
                Some(Err(e)) => err(h, e),
                None => h.put(0xdc),
            }
        }
        match it.next_back() {
            Some(Ok(s)) => h.bytes(s.as_bytes()),
            Some(Err(e)) => err(h, e),
            None => h.put(0xdc),
        }
        if depth > 0 {
            let v = Vector::<ForwardsUOffset<Tab>>::new(buf, loc);
            match v.iter().next() {
                Some(Ok(t)) => res(h, t.get::<u16>(4, None).map(|x| x.unwrap_or(3))),
                Some(Err(e)) => err(h, e),
                None => h.put(0xdb),
            }
            let t = Table::new(buf, loc);
            res(h, t.get::<u16>(4, None).map(|x| x.unwrap_or(3)));
            res(h, t.get::<bool>(6, None).map(|x| x.unwrap_or(true)));
        }
    }
    Ok(())
}

fn vector<'a, T: S + Follow<'a, Inner = T> + 'a>(h: &mut H, v: Vector<'a, T>) -> Result<(), String> {
    let n = match v.len() {
        Ok(n) => n,
        Err(e) => {
            err(h, e);
            ck!(v.iter().next().is_none(), "a vector without length has elements");
            return Ok(());
        }
    };
    h.put(n as u64);
    if n == 0 {
        return Ok(());
    }
    res(h, v.get(0));
    res(h, v.get(n - 1));
    let mut it = v.iter();
    res(h, it.next_back().unwrap());
    ck!(it.len() == n - 1, "iterator length {} after one of {}", it.len(), n);
    res(h, v.iter().nth(n - 1).unwrap());
    for r in v.iter().take(3) {
        res(h, r);
    }
    Ok(())
}

fn slice<T: S + EndianScalar + 'static + for<'a> Follow<'a, Inner = T>>(r: Result<&[T], Error>, buf: &[u8], loc: usize) -> Result<(), String> {
    let v = Vector::<T>::new(buf, loc);
    match r {
        Ok(s) => {
            ck!(v.len() == Ok(s.len()), "slice of {} elements", s.len());
            for (i, x) in s.iter().enumerate() {
                ck!(v.get(i).map(|y| y.bits()) == Ok(x.bits()), "slice element {}", i);
            }
        }
        Err(Error::InvalidSlice) => {
            let mis = (buf.as_ptr() as usize + loc + 4) % std::mem::align_of::<T>() != 0;
            ck!(mis || std::any::TypeId::of::<T>() == std::any::TypeId::of::<bool>(), "aligned bytes refused as a slice");
        }
        Err(_) => {
            if let Ok(n) = v.len() {
                ck!(n > 0 && v.get(n - 1).is_err(), "a whole vector of {} refused as a slice", n);
            }
        }
    }
    Ok(())
}

fn iter(ch: &mut Ch) -> Job {
    let kind = ch.choose(3);
    let n = ch.range(0, 3);
    let d = ch.by_tier(2, 3);
    let ops: Vec<usize> = (0..d).map(|_| ch.choose(10)).collect();
    Box::new(move |h| {
        let xs = elements(n);
        let b = blob(8 + kind * 4 + n);
        let pl = Placed::new(&b, 0);
        let t = Table::get_root(pl.get()).map_err(|e| format!("{:?}", e))?;
        fn go<'a, T: Follow<'a> + 'a>(h: &mut H, v: Vector<'a, T>, mut m: VecDeque<u64>, ops: &[usize], id: fn(T::Inner) -> u64) -> Result<(), String> {
            let mut it = v.iter();
            for (k, op) in ops.iter().enumerate() {
                let a = [0usize, 1, 2, usize::MAX][op % 4];
                let (got, want) = match op {
                    0..=3 => (
                        it.nth(a),
                        if a >= m.len() {
                            m.clear();
                            None
                        } else {
                            m.drain(..a);
                            m.pop_front()
                        },
                    ),
                    4..=7 => (
                        it.nth_back(a),
                        if a >= m.len() {
                            m.clear();
                            None
                        } else {
                            m.truncate(m.len() - a);
                            m.pop_back()
                        },
                    ),
                    8 => (it.next(), m.pop_front()),
                    _ => (it.next_back(), m.pop_back()),
                };
                let got = match got {
                    None => None,
                    Some(Ok(x)) => Some(id(x)),
                    Some(Err(e)) => return Err(format!("operation {} of {:?}: {:?}", k, ops, e)),
                };
                ck!(got == want && it.len() == m.len(), "operation {} of {:?} gives {:?}, expected {:?}", k, ops, got, want);
                h.put(got.unwrap_or(u64::MAX));
            }
            ck!(it.map(|r| r.ok().map(id)).eq(m.iter().map(|x| Some(*x))), "the rest after {:?}", ops);
            Ok(())
        }
        let g = |e: Error| format!("{:?}", e);
        match kind {
            0 => go(h, t.get::<ForwardsUOffset<Vector<u16>>>(4, None).map_err(g)?.unwrap(), xs.into(), &ops, |x| x as u64),
            1 => go(h, t.get::<ForwardsUOffset<Vector<u64>>>(4, None).map_err(g)?.unwrap(), xs.into(), &ops, |x| x),
            _ => go(h, t.get::<ForwardsUOffset<Vector<ForwardsUOffset<&str>>>>(4, None).map_err(g)?.unwrap(), xs.iter().map(|x| x & 3).collect(), &ops, |s: &str| s.len() as u64),
        }
    })
}

fn prims(ch: &mut Ch) -> Job {
    let t = *ch.pick(&TYS);
    let len = if ch.thorough() { ch.range(0, 11) } else { *ch.pick(&[0usize, 3, 8, 11]) };
    let loc = ch.range(0, 12);
    let bits = ch.choose(ch.by_tier(1, 2));
    Box::new(move |h| {
        let v = if t == Ty::Bool { 1 - bits as u64 } else { [0xf102_0304_0506_0788u64, 0xfefd_fcfb_faf9_f8f7][bits] & t.mask() };
        let n = t.size();
        with_ty!(t, T, {
            let x = T::of(v);
            // written at any place, as the little-endian bytes of the value
            let mut b = vec![0xAAu8; len];
            if loc + n <= len {
                emplace_scalar::<T>(&mut b[loc..], x);
                for i in 0..len {
                    let want = if i >= loc && i < loc + n { (v >> (8 * (i - loc))) as u8 } else { 0xAA };
                    ck!(b[i] == want, "emplaced {:?}: byte {} is {:#x}, expected {:#x}", t, i, b[i], want);
                }
                ck!(read_scalar::<T>(&b[loc..]).map(|y| y.bits()) == Ok(v), "read_scalar");
            } else {
                ck!(guard(|| emplace_scalar::<T>(&mut b[loc.min(len)..], x)).is_err(), "a {:?} was emplaced in {} bytes", t, len - loc.min(len));
            }
            for r in [read_scalar_at::<T>(&b, loc), <T as Follow>::follow(&b, loc), <FollowStart<T> as Follow>::follow(&b, loc), if loc < 4 { read_scalar_at(&b, loc) } else { <SkipFileIdentifier<T> as Follow>::follow(&b, loc - 4) }] {
                if loc + n <= len {
                    ck!(r.as_ref().map(|y| y.bits()) == Ok(v), "{:?} at {} of {} reads {:?}", t, loc, len, r.map(|y| y.bits()));
                } else {
                    ck!(r.is_err(), "{:?} at {} of {} reads {:?}", t, loc, len, r.map(|y| y.bits()));
                }
            }
            h.bytes(&b);
        });
        h.put(byte_swap_f32(f32::from_bits(v as u32)).to_bits() as u64);
        ck!(byte_swap_f64(f64::from_bits(v)).to_bits() == v.swap_bytes(), "byte_swap_f64");
        ck!(byte_swap_f32(f32::from_bits(v as u32)).to_bits() == (v as u32).swap_bytes(), "byte_swap_f32");
        // offsets
        let mut b = vec![0u8; 12];
        b[8] = 0x5a;
        if loc + 2 <= 8 {
            b[loc] = (8 - loc) as u8;
            ck!(<ForwardsVOffset<u8> as Follow>::follow(&b, loc) == Ok(0x5a), "16-bit offset at {}", loc);
            if loc + 4 <= 8 {
                ck!(<ForwardsUOffset<u8> as Follow>::follow(&b, loc) == Ok(0x5a), "32-bit offset at {}", loc);
                let d = (loc as i32 - 8).to_le_bytes();
                b[loc..loc + 4].copy_from_slice(&d);
                ck!(<BackwardsSOffset<u8> as Follow>::follow(&b, loc) == Ok(0x5a), "signed offset at {}", loc);
            }
        }
        Ok(())
    })
}
