//! What a schema prescribes: how values appear in a buffer and how a buffer reads.

use crate::*;
use fbspec::refread;

pub fn ty_of(t: &TyD) -> Option<Ty> {
    match t {
        TyD::Sc(t) => Some(*t),
        TyD::Enum(e) => Some(e.base),
        TyD::Tag(_) => Some(Ty::U8),
        _ => None,
    }
}
fn mask(t: Ty, v: i128) -> u64 {
    (v as u64) & t.mask()
}
pub fn declared(e: &EnumD, bits: u64) -> bool {
    e.vals.iter().any(|v| mask(e.base, v.1) == bits)
}

/// default arguments: what a scalar field holds if nothing is said
pub fn arg_default(f: &FieldD) -> u64 {
    match (&f.ty, f.def) {
        (_, Some(d)) => d,
        (TyD::Enum(e), None) => mask(e.base, e.vals[0].1),
        _ => 0,
    }
}

/// Which of the slots whose presence the schema leaves open are there?  (location of the table
/// in a buffer, if any)
pub struct Seen<'a>(pub Option<(&'a [u8], i128)>);
impl<'a> Seen<'a> {
    fn field(&self, slot: usize) -> Option<Option<i128>> {
        let (b, l) = self.0?;
        refread::field(b, l, 4 + 2 * slot as u16).ok()
    }
    fn there(&self, slot: usize, otherwise: bool) -> bool {
        self.field(slot).map(|x| x.is_some()).unwrap_or(otherwise)
    }
    fn sub(&self, slot: usize) -> Seen<'a> {
        let r = (|| {
            let l = self.field(slot)??;
            let (b, _) = self.0?;
            Some((b, refread::follow(b, l).ok()?))
        })();
        Seen(r)
    }
    fn item(&self, i: usize) -> Seen<'a> {
        let r = (|| {
            let (b, l) = self.0?;
            Some((b, refread::follow(b, l + 4 + 4 * i as i128).ok()?))
        })();
        Seen(r)
    }
}

/// The content of the buffer created from these arguments.
pub fn wire(t: &TableD, vals: &[Val], seen: &Seen) -> N {
    let mut m = BTreeMap::new();
    for (slot, f) in t.fields.iter().enumerate() {
        let v = &vals[slot];
        match &f.ty {
            TyD::Tag(u) => {
                // follows the union in the next slot
                let (tag, force) = match &vals[slot + 1] {
                    Val::Un(i, _) => (u.alts[*i].2, true),
                    _ => (0, false),
                };
                if force || seen.there(slot, true) {
                    m.insert(slot as u16, fbspec::sc(Ty::U8, tag as u64));
                }
            }
            TyD::Sc(_) | TyD::Enum(_) => {
                let ty = ty_of(&f.ty).unwrap();
                let b = match v {
                    Val::Sc(b) => *b,
                    _ => arg_default(f),
                };
                let same = f.def.map(|d| eq_bits(ty, d, b)).unwrap_or(false);
                let nan = f.def == Some(b) && !same;
                if !((same || nan) && !f.req && !seen.there(slot, nan)) {
                    m.insert(slot as u16, fbspec::sc(ty, b));
                }
            }
            ty => {
                if *v != Val::Absent {
                    m.insert(slot as u16, wire_ref(ty, v, &seen.sub(slot)));
                }
            }
        }
    }
    table_node(m)
}

/// equality as scalars
fn eq_bits(t: Ty, a: u64, b: u64) -> bool {
    match t {
        Ty::F32 => f32::from_bits(a as u32) == f32::from_bits(b as u32),
        Ty::F64 => f64::from_bits(a) == f64::from_bits(b),
        _ => a == b,
    }
}

fn wire_ref(t: &TyD, v: &Val, seen: &Seen) -> N {
    match (t, v) {
        (TyD::Str, Val::Str(s)) => fbspec::st(s),
        (TyD::Vec(e), Val::Vec(xs)) => match ty_of(e) {
            Some(s) => fbspec::vecsc(s, &xs.iter().map(bits).collect::<Vec<_>>()),
            None => fbspec::vecref(xs.iter().enumerate().map(|(i, x)| wire_ref(e, x, &seen.item(i))).collect()),
        },
        (TyD::Tab(t), Val::Tab(xs)) => wire(t, xs, seen),
        (TyD::Un(u), Val::Un(i, x)) => wire(u.alts[*i].1, tab(x), seen),
        (_, v) => panic!("HARNESS: value {:?} does not fit", v),
    }
}

fn missing(n: &str) -> Val {
    Val::Err(format!("RequiredFieldMissing({:?})", n))
}
fn unknown() -> Val {
    Val::Err("UnknownEnumVariant".into())
}

/// How a buffer of this content reads through the accessors of the table.
pub fn reads(t: &TableD, n: &N) -> Val {
    let m = match &**n {
        Node::Table(m) => m,
        _ => return Val::Err("?".into()),
    };
    let mut out = vec![];
    for (slot, f) in t.fields.iter().enumerate() {
        let x = m.get(&(slot as u16));
        out.push(match (&f.ty, x) {
            (TyD::Sc(_), Some(x)) => Val::Sc(canon(&f.ty, raw(x))),
            (TyD::Enum(e), Some(x)) => {
                if declared(e, raw(x)) {
                    Val::Sc(raw(x))
                } else {
                    unknown()
                }
            }
            (TyD::Tag(u), Some(x)) => {
                if raw(x) == 0 || u.alts.iter().any(|a| a.2 as u64 == raw(x)) {
                    Val::Sc(raw(x))
                } else {
                    unknown()
                }
            }
            (TyD::Sc(_) | TyD::Enum(_), None) => match f.def {
                Some(d) => Val::Sc(canon(&f.ty, d)),
                None if f.req => missing(f.name),
                None => Val::Absent,
            },
            (TyD::Tag(_), None) => {
                if f.req {
                    missing(f.name)
                } else {
                    Val::Absent
                }
            }
            (TyD::Un(u), x) => {
                let tag = slot.checked_sub(1).and_then(|s| m.get(&(s as u16))).map(raw);
                let none = if f.req { Val::Err(format!("RequiredFieldMissing({:?})|RequiredFieldMissing({:?})", f.name, t.fields[slot - 1].name)) } else { Val::Absent };
                match tag {
                    None | Some(0) => none,
                    Some(tag) => match u.alts.iter().position(|a| a.2 as u64 == tag) {
                        None => unknown(),
                        Some(i) => match x {
                            Some(x) => Val::Un(i, Box::new(reads(u.alts[i].1, x))),
                            None => none,
                        },
                    },
                }
            }
            (_, None) => {
                if f.req {
                    missing(f.name)
                } else {
                    Val::Absent
                }
            }
            (ty, Some(x)) => reads_ref(ty, x),
        });
    }
    Val::Tab(out)
}

fn reads_ref(t: &TyD, n: &N) -> Val {
    match (t, &**n) {
        (TyD::Str, Node::Str(s)) => Val::Str(s.clone()),
        (TyD::Tab(t), Node::Table(_)) => reads(t, n),
        (TyD::Vec(e), Node::VecSc(_, xs)) => Val::Vec(
            xs.iter()
                .map(|x| match e {
                    TyD::Enum(e) if !declared(e, *x) => unknown(),
                    e => Val::Sc(canon(e, *x)),
                })
                .collect(),
        ),
        (TyD::Vec(e), Node::VecRef(xs)) => Val::Vec(xs.iter().map(|x| reads_ref(e, x)).collect()),
        (_, n) => panic!("HARNESS: content {:?} does not fit", n),
    }
}

pub fn raw(n: &N) -> u64 {
    match &**n {
        Node::Sc(_, b) => *b,
        n => panic!("HARNESS: scalar expected {:?}", n),
    }
}

/// one pattern for every not-a-number
pub fn canon(t: &TyD, b: u64) -> u64 {
    match t {
        TyD::Sc(Ty::F32) => f32::from_bits(b as u32).bits(),
        TyD::Sc(Ty::F64) => f64::from_bits(b).bits(),
        _ => b,
    }
}

pub fn same(got: &Val, want: &Val) -> bool {
    match (got, want) {
        (Val::Err(g), Val::Err(w)) => w.split('|').any(|x| x == g),
        (Val::Vec(a), Val::Vec(b)) | (Val::Tab(a), Val::Tab(b)) => a.len() == b.len() && a.iter().zip(b).all(|(x, y)| same(x, y)),
        (Val::Un(i, a), Val::Un(j, b)) => i == j && same(a, b),
        (a, b) => a == b,
    }
}

// ---------------------------------------------------------------- values to try

pub fn scalars(t: Ty, level: usize) -> Vec<u64> {
    let max = t.mask();
    let mut v: Vec<u64> = match t {
        Ty::Bool => vec![1, 0],
        Ty::F32 => {
            let a: [f32; 8] = [1.5, 0.0, -2.25, f32::MAX, f32::MIN_POSITIVE, f32::INFINITY, f32::NEG_INFINITY, f32::NAN];
            a.iter().map(|x| x.bits()).collect()
        }
        Ty::F64 => {
            let a: [f64; 8] = [1.5, 0.0, -2.25, f64::MAX, f64::MIN_POSITIVE, f64::INFINITY, f64::NEG_INFINITY, f64::NAN];
            a.iter().map(|x| x.bits()).collect()
        }
        _ => vec![0xA1B2_C3D4_E5F6_9788 & max, 0, max, 1, (max >> 1) + 1, max >> 1, 2, max - 1],
    };
    let n = [1, 3, 4, 8][level.min(3)];
    v.truncate(n);
    v
}

/// present values of a type
pub fn alphabet(t: &TyD, level: usize, depth: usize) -> Vec<Val> {
    match t {
        TyD::Sc(t) => scalars(*t, level).into_iter().map(Val::Sc).collect(),
        TyD::Enum(e) => {
            let n = [1, 2, 3, 99][level.min(3)];
            let mut v: Vec<Val> = e.vals.iter().rev().map(|x| Val::Sc(mask(e.base, x.1))).collect();
            v.truncate(n);
            v
        }
        TyD::Str => {
            let long: String = ('a'..='z').cycle().take(300).collect();
            let all = ["h\u{e9}y", "", "abc", "z\0z", long.as_str(), "\u{1F600}", "abcd", "\0"];
            all[..[1, 2, 3, 8][level.min(3)]].iter().map(|s| Val::Str(s.to_string())).collect()
        }
        TyD::Vec(e) => {
            // only tables and unions can go on for ever
            let nested = matches!(e, TyD::Vec(_));
            let es = if depth == 0 && !nested { vec![] } else { alphabet(e, 1.min(level), if nested { depth } else { depth - 1 }) };
            let mut out = vec![];
            if es.is_empty() {
                return vec![Val::Vec(vec![])];
            }
            let at = |i: usize| es[i % es.len()].clone();
            out.push(Val::Vec(vec![at(0), at(1)]));
            if level >= 1 {
                out.push(Val::Vec(vec![]));
            }
            if level >= 2 {
                out.push(Val::Vec(vec![at(1), at(0), at(2)]));
            }
            if level >= 3 {
                for a in &es {
                    out.push(Val::Vec(vec![a.clone()]));
                }
                out.push(Val::Vec((0..9).map(at).collect()));
            }
            out
        }
        TyD::Tab(t) => tables(t, level, depth).into_iter().map(Val::Tab).collect(),
        TyD::Un(u) => {
            let mut out = vec![];
            if depth == 0 {
                return out;
            }
            for (i, a) in u.alts.iter().enumerate() {
                let n = if level >= 2 { 9 } else { 1 };
                for x in tables(a.1, level, depth - 1).into_iter().take(n) {
                    out.push(Val::Un(i, Box::new(Val::Tab(x))));
                }
            }
            if level == 0 {
                out.truncate(1);
            }
            out
        }
        TyD::Tag(_) => vec![],
    }
}

/// a few rows of values of a table: filled in different ways, then empty
pub fn tables(t: &TableD, level: usize, depth: usize) -> Vec<Vec<Val>> {
    if depth == 0 {
        return match row(t, 0, true, 0) {
            Some(r) => vec![r],
            None => vec![],
        };
    }
    let mut out = vec![];
    let n = [1, 1, 2, 3][level.min(3)];
    for k in 0..n {
        out.extend(row(t, k, false, depth - 1));
    }
    if level >= 1 {
        out.extend(row(t, 0, true, depth - 1));
    }
    out.dedup();
    out
}

/// the kth values everywhere, or as little as possible
pub fn row(t: &TableD, k: usize, empty: bool, depth: usize) -> Option<Vec<Val>> {
    let mut r = vec![];
    for f in t.fields {
        if matches!(f.ty, TyD::Tag(_)) || (empty && (!f.req || ty_of(&f.ty).is_some())) {
            r.push(Val::Absent);
            continue;
        }
        let a = alphabet(&f.ty, if k == 0 { 1 } else { 2 }, depth);
        if a.is_empty() {
            if f.req {
                return None;
            }
            r.push(Val::Absent);
        } else {
            r.push(a[k % a.len()].clone());
        }
    }
    Some(r)
}

/// one value for every field out of everything: may be absent where that is possible
pub fn choices(f: &FieldD, level: usize, depth: usize) -> Vec<Val> {
    let mut v = alphabet(&f.ty, level, depth);
    let can_be_absent = !f.req || ty_of(&f.ty).is_some();
    if can_be_absent {
        v.insert(0, Val::Absent);
    }
    if v.is_empty() {
        eprintln!("HARNESS-ERROR: no value for field {}", f.name);
        std::process::exit(3);
    }
    v
}
