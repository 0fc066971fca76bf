//! Engine for the properties of generated code.  The schemas, the generated code and thin
//! adapters around it are produced by /verif/gen for every run; here are the dynamic values, the
//! descriptors the adapters fill in, the model (what the schema prescribes) and the scenarios.

pub use butte;
pub use fbspec;
pub use mc;

use butte::{FlatBufferBuilder, Follow, Vector, WIPOffset};
use fbspec::{Node, Ty, N};
use mc::Ch;
use std::collections::BTreeMap;
use std::rc::Rc;
use std::sync::OnceLock;

pub mod model;
pub mod scen;

/// A value of a field.  Scalars and enums are bit patterns of their type's size.
#[derive(Clone, Debug, PartialEq)]
pub enum Val {
    Absent,
    Sc(u64),
    Str(String),
    Vec(Vec<Val>),
    /// one entry per slot
    Tab(Vec<Val>),
    /// index of the alternative, its table
    Un(usize, Box<Val>),
    Err(String),
}

pub enum TyD {
    Sc(Ty),
    Enum(&'static EnumD),
    Str,
    Vec(&'static TyD),
    Tab(&'static TableD),
    /// the companion field of a union, in the slot before it
    Tag(&'static UnionD),
    Un(&'static UnionD),
}
pub struct EnumD {
    pub name: &'static str,
    pub group: &'static str,
    pub decl: &'static str,
    pub base: Ty,
    pub vals: &'static [(&'static str, i128)],
    /// base -> enum -> (base, name)
    pub conv: fn(u64) -> Result<(u64, &'static str), String>,
    /// the value of the nth name: (From, as, name, size)
    pub nth: fn(usize) -> (u64, u64, &'static str, usize),
    pub default: fn() -> u64,
}
pub struct UnionD {
    pub name: &'static str,
    pub alts: &'static [(&'static str, &'static TableD, u8)],
}
pub struct FieldD {
    pub name: &'static str,
    pub ty: TyD,
    pub req: bool,
    pub def: Option<u64>,
}
pub struct TableD {
    pub name: &'static str,
    pub group: &'static str,
    pub decl: &'static str,
    pub fields: &'static [FieldD],
    pub build: for<'b> fn(&mut FlatBufferBuilder<'b>, &[Val]) -> u32,
    pub read: fn(&[u8]) -> Val,
    pub read_vec: fn(Vec<u8>) -> Val,
    /// the builder used without setting anything
    pub bare: for<'b> fn(&mut FlatBufferBuilder<'b>) -> u32,
    /// the builder with some slots set (a bit each), in the order of the slots or backwards
    pub parts: Option<for<'b> fn(&mut FlatBufferBuilder<'b>, &[Val], &[bool], bool) -> u32>,
}
unsafe impl Sync for TableD {}
unsafe impl Sync for EnumD {}

pub struct Set {
    pub tables: Vec<&'static TableD>,
    pub enums: Vec<&'static EnumD>,
    pub pairs: Vec<(&'static TableD, &'static TableD)>,
}
pub static SET: OnceLock<Set> = OnceLock::new();

// ---------------------------------------------------------------- used by adapters

pub trait Bits: Copy {
    fn bits(self) -> u64;
    fn un(b: u64) -> Self;
}
macro_rules! bits {
    ($($t:ty, $u:ty);*) => { $(impl Bits for $t {
        fn bits(self) -> u64 { self as $u as u64 }
        fn un(b: u64) -> Self { b as $t }
    })* };
}
bits!(i8, u8; u8, u8; i16, u16; u16, u16; i32, u32; u32, u32; i64, u64; u64, u64);
impl Bits for bool {
    fn bits(self) -> u64 {
        self as u64
    }
    fn un(b: u64) -> Self {
        b != 0
    }
}
impl Bits for f32 {
    fn bits(self) -> u64 {
        if self.is_nan() { 0x7fc0_0000 } else { self.to_bits() as u64 }
    }
    fn un(b: u64) -> Self {
        f32::from_bits(b as u32)
    }
}
impl Bits for f64 {
    fn bits(self) -> u64 {
        if self.is_nan() { 0x7ff8_0000_0000_0000 } else { self.to_bits() }
    }
    fn un(b: u64) -> Self {
        f64::from_bits(b)
    }
}

pub fn sc<T: Bits>(v: &Val) -> T {
    match v {
        Val::Sc(b) => T::un(*b),
        v => panic!("HARNESS: scalar expected: {:?}", v),
    }
}
pub fn bits(v: &Val) -> u64 {
    match v {
        Val::Sc(b) => *b,
        v => panic!("HARNESS: scalar expected: {:?}", v),
    }
}
pub fn rsc<T: Bits>(x: T) -> Val {
    Val::Sc(x.bits())
}
pub fn text(v: &Val) -> &str {
    match v {
        Val::Str(s) => s,
        v => panic!("HARNESS: string expected: {:?}", v),
    }
}
pub fn items(v: &Val) -> &[Val] {
    match v {
        Val::Vec(s) => s,
        v => panic!("HARNESS: vector expected: {:?}", v),
    }
}
pub fn tab(v: &Val) -> &[Val] {
    match v {
        Val::Tab(s) => s,
        v => panic!("HARNESS: table expected: {:?}", v),
    }
}
pub fn un(v: &Val) -> (usize, &Val) {
    match v {
        Val::Un(i, s) => (*i, s),
        v => panic!("HARNESS: union expected: {:?}", v),
    }
}
pub fn on<T>(v: &Val, f: impl FnOnce(&Val) -> T) -> Option<T> {
    if *v == Val::Absent {
        None
    } else {
        Some(f(v))
    }
}
/// the other ways to open a buffer lead to the same table
pub fn routes<'a, T>(b: &'a [u8], t: T) -> Option<Val>
where
    T: butte::FollowBuf<Buf = &'a [u8], Inner = T> + Follow<'a, Inner = T> + PartialEq + Copy + From<butte::Table<&'a [u8]>> + Into<butte::Table<&'a [u8]>>,
{
    let raw = butte::Table::get_root(b);
    let bad = |x: &str| Some(Val::Err(format!("{} leads to another table", x)));
    if butte::get_root::<T, _>(b) != Ok(t) {
        return bad("butte::get_root");
    }
    if raw.map(T::from) != Ok(t) {
        return bad("From<Table>");
    }
    let u: butte::Table<&[u8]> = t.into();
    if raw != Ok(u) {
        return bad("Into<Table>");
    }
    if <T as Follow>::follow(b, u.loc) != Ok(t) {
        return bad("follow");
    }
    None
}
pub fn prefixed(b: &[u8]) -> Vec<u8> {
    let mut q = (b.len() as u32).to_le_bytes().to_vec();
    q.extend_from_slice(b);
    q
}
pub fn agree(x: Val, y: Val) -> Val {
    if x != y {
        return Val::Err("differs behind a size prefix".into());
    }
    x
}
pub fn err(e: impl std::fmt::Debug) -> Val {
    Val::Err(format!("{:?}", e))
}
/// result of an accessor of an optional field
pub fn ropt<T, E: std::fmt::Debug>(r: Result<Option<T>, E>, f: impl FnOnce(T) -> Val) -> Val {
    match r {
        Ok(Some(x)) => f(x),
        Ok(None) => Val::Absent,
        Err(e) => err(e),
    }
}
/// result of an accessor of a required field
pub fn rreq<T, E: std::fmt::Debug>(r: Result<T, E>, f: impl FnOnce(T) -> Val) -> Val {
    match r {
        Ok(x) => f(x),
        Err(e) => err(e),
    }
}
pub fn rvec<'a, T: Follow<'a>>(v: Vector<'a, T>, f: impl Fn(T::Inner) -> Val) -> Val {
    let n = match v.len() {
        Ok(n) => n,
        Err(e) => return err(e),
    };
    let a: Vec<Val> = (0..n)
        .map(|i| match v.get(i) {
            Ok(x) => f(x),
            Err(e) => err(e),
        })
        .collect();
    Val::Vec(a)
}

pub fn offset<T>(o: WIPOffset<T>) -> u32 {
    o.value()
}

// ---------------------------------------------------------------- building

pub fn build(t: &TableD, vals: &[Val], phase: usize) -> Result<Vec<u8>, String> {
    mc::guard(|| {
        let mut fbb = FlatBufferBuilder::new();
        if phase > 0 {
            let s: String = "x".repeat(phase);
            fbb.create_string(&s);
        }
        let o = (t.build)(&mut fbb, vals);
        fbb.finish(WIPOffset::<()>::new(o), None);
        fbb.finished_data().to_vec()
    })
}

pub fn table_node(m: BTreeMap<u16, N>) -> N {
    Rc::new(Node::Table(m))
}

pub fn group(g: &str) -> Vec<&'static TableD> {
    SET.get().unwrap().tables.iter().copied().filter(|t| t.group == g).collect()
}

pub fn pick_table(ch: &mut Ch, g: &str) -> &'static TableD {
    static GROUPS: std::sync::OnceLock<std::collections::HashMap<&'static str, Vec<&'static TableD>>> = std::sync::OnceLock::new();
    let m = GROUPS.get_or_init(|| {
        let mut m = std::collections::HashMap::new();
        for t in &SET.get().unwrap().tables {
            m.entry(t.group).or_insert_with(Vec::new).push(*t);
        }
        m
    });
    let none = vec![];
    let ts = m.get(g).unwrap_or(&none);
    if ts.is_empty() {
        eprintln!("HARNESS-ERROR: no tables in group {}", g);
        std::process::exit(3);
    }
    let i = ch.choose(ts.len());
    ts[i]
}
