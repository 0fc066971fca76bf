//! Builder programs as data, the machine that runs them on the real builder and
//! the model that says what they mean.

use butte::{Error, FlatBufferBuilder, Follow, ForwardsUOffset, Push, SafeSliceAccess, TableFinishedWIPOffset, TableUnfinishedWIPOffset, UOffsetT, Vector, WIPOffset};
use fbspec::*;
use std::collections::BTreeMap;
use std::rc::Rc;

pub trait S: Copy + PartialEq {
    fn of(b: u64) -> Self;
    fn bits(self) -> u64;
}
macro_rules! simpl {
    ($($t:ty),*) => { $(impl S for $t { fn of(b: u64) -> Self { b as $t } fn bits(self) -> u64 { (self as u64) & (u64::MAX >> (64 - 8 * std::mem::size_of::<$t>())) } })* }
}
simpl!(u8, i8, u16, i16, u32, i32, u64, i64);
impl S for bool {
    fn of(b: u64) -> Self {
        b & 1 != 0
    }
    fn bits(self) -> u64 {
        self as u64
    }
}
impl S for f32 {
    fn of(b: u64) -> Self {
        f32::from_bits(b as u32)
    }
    fn bits(self) -> u64 {
        self.to_bits() as u64
    }
}
impl S for f64 {
    fn of(b: u64) -> Self {
        f64::from_bits(b)
    }
    fn bits(self) -> u64 {
        self.to_bits()
    }
}

#[macro_export]
macro_rules! with_ty {
    ($t:expr, $T:ident, $e:expr) => {
        match $t {
            Ty::Bool => { type $T = bool; $e }
            Ty::U8 => { type $T = u8; $e }
            Ty::I8 => { type $T = i8; $e }
            Ty::U16 => { type $T = u16; $e }
            Ty::I16 => { type $T = i16; $e }
            Ty::U32 => { type $T = u32; $e }
            Ty::I32 => { type $T = i32; $e }
            Ty::U64 => { type $T = u64; $e }
            Ty::I64 => { type $T = i64; $e }
            Ty::F32 => { type $T = f32; $e }
            Ty::F64 => { type $T = f64; $e }
        }
    };
}
#[macro_export]
macro_rules! with_nonbool {
    ($t:expr, $T:ident, $e:expr, $b:expr) => {
        match $t {
            Ty::Bool => $b,
            Ty::U8 => { type $T = u8; $e }
            Ty::I8 => { type $T = i8; $e }
            Ty::U16 => { type $T = u16; $e }
            Ty::I16 => { type $T = i16; $e }
            Ty::U32 => { type $T = u32; $e }
            Ty::I32 => { type $T = i32; $e }
            Ty::U64 => { type $T = u64; $e }
            Ty::I64 => { type $T = i64; $e }
            Ty::F32 => { type $T = f32; $e }
            Ty::F64 => { type $T = f64; $e }
        }
    };
}

/// What the library offers on this host for vectors of T as they lie in memory:
/// the methods below where it does, those of the traits where it does not.
pub struct Direct<T>(std::marker::PhantomData<T>);
#[allow(dead_code)]
pub trait NoDirect<T> {
    fn vector(_: &mut FlatBufferBuilder<'_>, _: &[T]) -> Option<UOffsetT> {
        None
    }
    fn safe(_: Vector<'_, T>) -> Option<Result<&'_ [T], Error>> {
        None
    }
}
impl<T> NoDirect<T> for Direct<T> {}
impl<T: SafeSliceAccess + Push + 'static> Direct<T> {
    pub fn vector(b: &mut FlatBufferBuilder<'_>, v: &[T]) -> Option<UOffsetT> {
        Some(b.create_vector_direct::<T>(v).value())
    }
}
#[allow(dead_code)]
impl<T: SafeSliceAccess> Direct<T> {
    pub fn safe(v: Vector<'_, T>) -> Option<Result<&'_ [T], Error>> {
        Some(v.safe_slice())
    }
}
#[allow(dead_code)]
pub struct Slices<T>(std::marker::PhantomData<T>);
#[allow(dead_code)]
pub trait NoSlices<T> {
    fn slice(_: &[u8], _: usize) -> Option<Result<&[T], Error>> {
        None
    }
}
impl<T> NoSlices<T> for Slices<T> {}
#[allow(dead_code)]
impl<T: 'static> Slices<T>
where
    for<'a> &'a [T]: Follow<'a, Inner = &'a [T]>,
{
    pub fn slice(buf: &[u8], loc: usize) -> Option<Result<&[T], Error>> {
        Some(<&[T]>::follow(buf, loc))
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum El {
    Sc(Ty),
    Ref,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Call {
    Str(String),
    Bytes(Vec<u8>),
    VecCreate(Ty, Vec<u64>),
    VecDirect(Ty, Vec<u64>),
    VecStrs(Vec<String>),
    VecRefs(Vec<usize>),
    StartVec(El, usize),
    PushSc(Ty, u64),
    PushRef(usize),
    EndVec(El, usize),
    StartTable,
    /// slot index, type, value, elide when equal to this
    Slot(u16, Ty, u64, Option<u64>),
    SlotRef(u16, usize),
    EndTable,
    Finish(usize, Option<&'static str>, bool),
    FinishMin(usize),
    Reset,
}

pub fn vo(slot: u16) -> u16 {
    4 + 2 * slot
}

pub struct M<'a> {
    pub b: FlatBufferBuilder<'a>,
    pub regs: Vec<UOffsetT>,
    pub start: Option<UOffsetT>,
}

type Any = ForwardsUOffset<u32>;

impl<'a> M<'a> {
    pub fn new(cap: usize) -> Self {
        M { b: FlatBufferBuilder::new_with_capacity(cap), regs: vec![], start: None }
    }
    pub fn run_all(&mut self, p: &[Call]) {
        for c in p {
            self.run(c);
        }
    }
    fn off(&self, r: usize) -> WIPOffset<Any> {
        WIPOffset::new(self.regs[r])
    }
    pub fn run(&mut self, c: &Call) {
        match c {
            Call::Str(s) => {
                let o = self.b.create_string(s);
                self.regs.push(o.value());
            }
            Call::Bytes(s) => {
                let o = self.b.create_byte_string(s);
                self.regs.push(o.value());
            }
            Call::VecCreate(t, xs) => {
                let o = with_ty!(*t, T, {
                    let v: Vec<T> = xs.iter().map(|x| T::of(*x)).collect();
                    self.b.create_vector::<T>(&v).value()
                });
                self.regs.push(o);
            }
            Call::VecDirect(t, xs) => {
                let o = with_ty!(*t, T, {
                    let v: Vec<T> = xs.iter().map(|x| T::of(*x)).collect();
                    match Direct::<T>::vector(&mut self.b, &v) {
                        Some(o) => o,
                        None => self.b.create_vector::<T>(&v).value(),
                    }
                });
                self.regs.push(o);
            }
            Call::VecStrs(ss) => {
                let v: Vec<&str> = ss.iter().map(|s| s.as_str()).collect();
                let o = self.b.create_vector_of_strings(&v).value();
                self.regs.push(o);
            }
            Call::VecRefs(rs) => {
                let v: Vec<WIPOffset<Any>> = rs.iter().map(|r| self.off(*r)).collect();
                let o = self.b.create_vector(&v).value();
                self.regs.push(o);
            }
            Call::StartVec(e, n) => match e {
                El::Sc(t) => with_ty!(*t, T, self.b.start_vector::<T>(*n)),
                El::Ref => self.b.start_vector::<WIPOffset<Any>>(*n),
            },
            Call::PushSc(t, v) => {
                with_ty!(*t, T, {
                    self.b.push::<T>(T::of(*v));
                })
            }
            Call::PushRef(r) => {
                let o = self.off(*r);
                self.b.push(o);
            }
            Call::EndVec(e, n) => {
                let o = match e {
                    El::Sc(t) => with_ty!(*t, T, self.b.end_vector::<T>(*n).value()),
                    El::Ref => self.b.end_vector::<WIPOffset<Any>>(*n).value(),
                };
                self.regs.push(o);
            }
            Call::StartTable => {
                self.start = Some(self.b.start_table().value());
            }
            Call::Slot(s, t, v, d) => {
                with_ty!(*t, T, match d {
                    Some(d) => self.b.push_slot::<T>(vo(*s), T::of(*v), T::of(*d)),
                    None => self.b.push_slot_always::<T>(vo(*s), T::of(*v)),
                })
            }
            Call::SlotRef(s, r) => {
                let o = self.off(*r);
                self.b.push_slot_always(vo(*s), o);
            }
            Call::EndTable => {
                let st: WIPOffset<TableUnfinishedWIPOffset> = WIPOffset::new(self.start.take().unwrap_or(0));
                let o = self.b.end_table(st);
                self.regs.push(o.value());
            }
            Call::Finish(r, id, sized) => {
                let o: WIPOffset<TableFinishedWIPOffset> = WIPOffset::new(self.regs[*r]);
                if *sized {
                    self.b.finish_size_prefixed(o, *id);
                } else {
                    self.b.finish(o, *id);
                }
            }
            Call::FinishMin(r) => {
                let o: WIPOffset<TableFinishedWIPOffset> = WIPOffset::new(self.regs[*r]);
                self.b.finish_minimal(o);
            }
            Call::Reset => {
                self.b.reset();
                self.regs.clear();
                self.start = None;
            }
        }
    }
}

impl<'a> Clone for M<'a> {
    fn clone(&self) -> Self {
        M { b: self.b.clone(), regs: self.regs.clone(), start: self.start }
    }
}

/// What a program means.
#[derive(Default, Clone)]
pub struct Model {
    pub regs: Vec<N>,
    pub cur: Option<BTreeMap<u16, N>>,
    pub vsc: Vec<u64>,
    pub vref: Vec<N>,
    pub root: Option<N>,
    pub ident: Option<&'static str>,
    pub sized: bool,
}

pub fn sc_eq(t: Ty, a: u64, b: u64) -> bool {
    with_ty!(t, T, T::of(a) == T::of(b))
}

impl Model {
    pub fn of(p: &[Call]) -> Model {
        let mut m = Model::default();
        for c in p {
            m.run(c);
        }
        m
    }
    pub fn run(&mut self, c: &Call) {
        match c {
            Call::Str(s) => self.regs.push(st(s)),
            Call::Bytes(s) => self.regs.push(Rc::new(Node::Bytes(s.clone()))),
            Call::VecCreate(t, xs) | Call::VecDirect(t, xs) => self.regs.push(vecsc(*t, xs)),
            Call::VecStrs(ss) => self.regs.push(vecref(ss.iter().map(|s| st(s)).collect())),
            Call::VecRefs(rs) => {
                let v = rs.iter().map(|r| self.regs[*r].clone()).collect();
                self.regs.push(vecref(v))
            }
            Call::StartVec(..) => {
                self.vsc.clear();
                self.vref.clear();
            }
            Call::PushSc(t, v) => self.vsc.push(v & t.mask()),
            Call::PushRef(r) => self.vref.push(self.regs[*r].clone()),
            Call::EndVec(e, _) => {
                self.vsc.reverse();
                self.vref.reverse();
                let n = match e {
                    El::Sc(t) => vecsc(*t, &self.vsc),
                    El::Ref => vecref(self.vref.clone()),
                };
                self.regs.push(n);
            }
            Call::StartTable => self.cur = Some(BTreeMap::new()),
            Call::Slot(s, t, v, d) => {
                if let Some(d) = d {
                    if sc_eq(*t, *v, *d) {
                        return;
                    }
                }
                self.cur.as_mut().unwrap().insert(*s, sc(*t, *v));
            }
            Call::SlotRef(s, r) => {
                let n = self.regs[*r].clone();
                self.cur.as_mut().unwrap().insert(*s, n);
            }
            Call::EndTable => {
                let t = self.cur.take().unwrap();
                self.regs.push(Rc::new(Node::Table(t)));
            }
            Call::Finish(r, id, sized) => {
                self.root = Some(self.regs[*r].clone());
                self.ident = *id;
                self.sized = *sized;
            }
            Call::FinishMin(r) => {
                self.root = Some(self.regs[*r].clone());
                self.ident = None;
                self.sized = false;
            }
            Call::Reset => *self = Model::default(),
        }
    }
}

/// Program builder with register bookkeeping.
#[derive(Default, Clone, Debug)]
pub struct P {
    pub c: Vec<Call>,
    pub n: usize,
}
impl P {
    pub fn new() -> P {
        P::default()
    }
    fn reg(&mut self) -> usize {
        self.n += 1;
        self.n - 1
    }
    pub fn str(&mut self, s: &str) -> usize {
        self.c.push(Call::Str(s.into()));
        self.reg()
    }
    pub fn bytes(&mut self, s: &[u8]) -> usize {
        self.c.push(Call::Bytes(s.into()));
        self.reg()
    }
    /// mode 0: create_vector, 1: direct (bool: create), 2: start/push/end
    pub fn vec(&mut self, t: Ty, xs: &[u64], mode: usize) -> usize {
        match mode {
            1 => self.c.push(Call::VecDirect(t, xs.into())),
            2 => {
                self.c.push(Call::StartVec(El::Sc(t), xs.len()));
                for x in xs.iter().rev() {
                    self.c.push(Call::PushSc(t, *x));
                }
                self.c.push(Call::EndVec(El::Sc(t), xs.len()));
            }
            _ => self.c.push(Call::VecCreate(t, xs.into())),
        }
        self.reg()
    }
    pub fn strs(&mut self, v: &[String]) -> usize {
        self.c.push(Call::VecStrs(v.to_vec()));
        self.reg()
    }
    pub fn refs(&mut self, rs: &[usize], mode: usize) -> usize {
        if mode == 2 {
            self.c.push(Call::StartVec(El::Ref, rs.len()));
            for x in rs.iter().rev() {
                self.c.push(Call::PushRef(*x));
            }
            self.c.push(Call::EndVec(El::Ref, rs.len()));
        } else {
            self.c.push(Call::VecRefs(rs.to_vec()));
        }
        self.reg()
    }
    pub fn start(&mut self) {
        self.c.push(Call::StartTable);
    }
    pub fn slot(&mut self, s: u16, t: Ty, v: u64) {
        self.c.push(Call::Slot(s, t, v, None));
    }
    pub fn slot_d(&mut self, s: u16, t: Ty, v: u64, d: u64) {
        self.c.push(Call::Slot(s, t, v, Some(d)));
    }
    pub fn slot_ref(&mut self, s: u16, r: usize) {
        self.c.push(Call::SlotRef(s, r));
    }
    pub fn end(&mut self) -> usize {
        self.c.push(Call::EndTable);
        self.reg()
    }
    pub fn finish(&mut self, r: usize, id: Option<&'static str>, sized: bool) {
        self.c.push(Call::Finish(r, id, sized));
    }
    pub fn finish_min(&mut self, r: usize) {
        self.c.push(Call::FinishMin(r));
    }
}
