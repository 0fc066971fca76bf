//! The scenarios.

use crate::model::*;
use crate::*;
use fbspec::encode::{encode, EncOpts};
use fbspec::{refread, verify, VOpts};
use mc::{scen, Registry};

pub static REG: Registry = Registry {
    harness: "gd",
    rule,
    props: &[
        ("C10", &[
            scen("singles", c10_singles, "one field of each type, optional and required, all values of the alphabet, eight alignments").depth(2),
            scen("pairs", c10_pairs, "all ordered pairs of 27 field types, all combinations of values and absences").depth(1),
            scen("triples", c10_triples, "all ordered triples of 12 (thorough: 27) field types, all combinations of values and absences").depth(1),
            scen("wide", c10_wide, "tables with all field types at once: any two fields deviate in any way").depth(3),
            scen("huge", c10_huge, "tables of 140, 300 and 1100 fields: any field and the next deviate").depth(3),
            scen("odd", c10_odd, "all ordered pairs of 14 field names that are changed on the way to Rust").depth(1),
            scen("nest", c10_nest, "mutually recursive tables, unions and vectors, values nested up to depth 4").depth(3),
        ]),
        ("C12", &[
            scen("written", c12_written, "tables of the same families created by generated code, decoded by the specification alone").depth(2),
            scen("written_wide", c12_written_wide, "tables with all field types").depth(2),
            scen("written_huge", c12_written_huge, "tables of 140, 300 and 1100 fields").depth(3),
            scen("read_huge", c12_read_huge, "tables of 140, 300 and 1100 fields").depth(3),
            scen("read", c12_read, "the same contents encoded independently (all layout freedoms for single fields), read by generated code").depth(2),
            scen("read_wide", c12_read_wide, "tables with all field types, any two fields absent or different").depth(2),
        ]),
        ("C13", &[
            scen("single", c13_single, "every scalar type x default literals (and enums) x created from default arguments, created with any value, stored, absent").depth(2),
            scen("all", c13_all, "tables with many defaulted fields: any two fields set").depth(2),
            scen("many", c13_many, "tables of 60 fields of one type whose defaults are the powers of two and ten and their neighbours, or many-digit numbers").depth(2),
        ]),
        ("C14", &[
            scen("old_to_new", c14_old_to_new, "every pair of schema versions: buffers of the old code through the new accessors").depth(1),
            scen("new_to_old", c14_new_to_old, "every pair of schema versions: buffers of the new code through the old accessors").depth(1),
        ]),
        ("C15", &[
            scen("values", c15_values, "every name of every enum: value, name, size").depth(2),
            scen("integers", c15_integers, "every 8- and 16-bit integer, all integers around declared values and limits").depth(2),
            scen("stored", c15_stored, "fields and vectors of every enum, stored and read; every undeclared stored integer").depth(2),
        ]),
        ("C16", &[
            scen("written", c16_written, "every alternative in tables with several unions and other fields").depth(2),
            scen("tags", c16_tags, "every stored tag 0..255 or none x content or none").depth(2),
            scen("far", c16_far, "unions behind 20 to 300 other fields: every alternative, anything around").depth(2),
            scen("far_tags", c16_far_tags, "the same: every stored tag x content or none").depth(2),
        ]),
        ("C17", &[
            scen("created", c17_created, "every value of required fields: can be created and reads back").depth(2),
            scen("bare", c17_bare, "the builder without any field set").depth(1),
            scen("parts", c17_parts, "the builder with every subset of the slots set, forwards and backwards").depth(1),
            scen("absent", c17_absent, "every subset of fields absent from the buffer").depth(1),
            scen("wide_parts", c17_wide_parts, "tables of 30 to 260 fields, required ones anywhere: all, the required, the others or none set but for one or two").depth(2),
            scen("wide_absent", c17_wide_absent, "the same tables, such fields absent from the buffer").depth(2),
        ]),
    ],
};

fn rule(_p: &str) -> &'static str {
    "schemas are enumerated completely from the listed families and compiled by the real schema compiler; every combination of values is then executed once through the generated code and compared with a model of the schema"
}

fn show(t: &TableD, vals: &[Val]) -> String {
    format!("{} with {:?}", t.decl, vals)
}

fn check_reads(ch: &mut Ch, t: &TableD, buf: &[u8], want: &Val, what: &dyn Fn() -> String) -> Result<(), String> {
    for (k, got) in [mc::guard(|| (t.read)(buf)), mc::guard(|| (t.read_vec)(buf.to_vec()))].into_iter().enumerate() {
        ch.eval(1);
        match got {
            Err(p) => return Err(format!("reading panics ({}): {}", p, what())),
            Ok(g) => {
                if !same(&g, want) {
                    return Err(format!("reads{} {:?} instead of {:?}: {} in {:?}", if k == 1 { " from an owned buffer" } else { "" }, g, want, what(), buf));
                }
            }
        }
    }
    Ok(())
}

fn create(ch: &mut Ch, t: &TableD, vals: &[Val], phase: usize) -> Result<Vec<u8>, String> {
    ch.note(|| format!("create {}", show(t, vals)));
    ch.sample(|| format!("create {}", show(t, vals)));
    ch.step(1);
    build(t, vals, phase).map_err(|p| format!("creating panics ({}): {}", p, show(t, vals)))
}

fn round(ch: &mut Ch, t: &TableD, vals: &[Val], phase: usize) -> Result<(), String> {
    let buf = create(ch, t, vals, phase)?;
    ch.state(&buf);
    let want = reads(t, &wire(t, vals, &Seen(None)));
    check_reads(ch, t, &buf, &want, &|| format!("created {}", show(t, vals)))
}

/// any combination of values
fn product(ch: &mut Ch, t: &TableD, level: usize, depth: usize) -> Vec<Val> {
    t.fields
        .iter()
        .map(|f| {
            if matches!(f.ty, TyD::Tag(_)) {
                Val::Absent
            } else {
                let c = choices(f, level, depth);
                let i = ch.choose(c.len());
                c[i].clone()
            }
        })
        .collect()
}

/// filled or empty, but for any two fields
fn deviate(ch: &mut Ch, t: &TableD, level: usize, depth: usize) -> Vec<Val> {
    let base = ch.choose(3);
    let mut vals = row(t, base % 2, base == 2, depth).unwrap();
    let real: Vec<usize> = (0..t.fields.len()).filter(|i| !matches!(t.fields[*i].ty, TyD::Tag(_))).collect();
    let a = ch.choose(real.len());
    let b = a + ch.choose(real.len() - a);
    for (n, k) in [a, b].into_iter().enumerate() {
        if n == 1 && a == b {
            break;
        }
        let f = &t.fields[real[k]];
        let c = choices(f, level, depth);
        let i = ch.choose(c.len());
        vals[real[k]] = c[i].clone();
    }
    vals
}

// ---------------------------------------------------------------- C10

fn c10_singles(ch: &mut Ch) -> Result<(), String> {
    let t = pick_table(ch, "single");
    let vals = product(ch, t, 3, 4);
    let phase = ch.choose(9);
    round(ch, t, &vals, phase)
}
fn c10_pairs(ch: &mut Ch) -> Result<(), String> {
    let t = pick_table(ch, "pair");
    let vals = product(ch, t, ch.by_tier(3, 4), 3);
    round(ch, t, &vals, 0)
}
fn c10_triples(ch: &mut Ch) -> Result<(), String> {
    let t = pick_table(ch, "triple");
    let vals = product(ch, t, ch.by_tier(2, 3), 3);
    round(ch, t, &vals, 0)
}
fn c10_wide(ch: &mut Ch) -> Result<(), String> {
    let t = pick_table(ch, "wide");
    let vals = deviate(ch, t, ch.by_tier(2, 4), 3);
    round(ch, t, &vals, 0)
}
fn c10_huge(ch: &mut Ch) -> Result<(), String> {
    let vals = one_of_many(ch);
    let t = vals.0;
    round(ch, t, &vals.1, 0)
}
fn c10_odd(ch: &mut Ch) -> Result<(), String> {
    let t = pick_table(ch, "odd");
    let vals = product(ch, t, 1, 3);
    round(ch, t, &vals, 0)
}
/// empty or full, but for one field and possibly the next
fn one_of_many(ch: &mut Ch) -> (&'static TableD, Vec<Val>) {
    let t = pick_table(ch, "huge");
    (t, mostly(ch, t))
}
fn mostly(ch: &mut Ch, t: &TableD) -> Vec<Val> {
    let base = ch.choose(3);
    let mut vals = row(t, base % 2, base == 2, 3).unwrap();
    let real: Vec<usize> = (0..t.fields.len()).filter(|i| !matches!(t.fields[*i].ty, TyD::Tag(_))).collect();
    let a = ch.choose(real.len());
    let far = real.len() > 600;
    for k in a..(a + if far { 1 } else { 2 }).min(real.len()) {
        let c = choices(&t.fields[real[k]], if k == a && !far { 2 } else { 1 }, 3);
        vals[real[k]] = c[ch.choose(c.len())].clone();
    }
    vals
}
fn c10_nest(ch: &mut Ch) -> Result<(), String> {
    let t = pick_table(ch, "nest");
    let vals = product(ch, t, ch.by_tier(3, 4), ch.by_tier(4, 6));
    round(ch, t, &vals, 0)
}

// ---------------------------------------------------------------- C12

const ROOT: VOpts<'static> = VOpts { ident: None, sized: false, exact: true };

fn decode(ch: &mut Ch, t: &TableD, vals: &[Val]) -> Result<(), String> {
    let buf = create(ch, t, vals, 0)?;
    ch.state(&buf);
    let loc = refread::root(&buf, false).map_err(|_| "no root".to_string())?;
    let n = wire(t, vals, &Seen(Some((&buf, loc))));
    ch.eval(1);
    verify(&buf, &n, &ROOT).map(|_| ()).map_err(|e| format!("{}: created {} as {:?}", e, show(t, vals), buf))
}

fn c12_any(ch: &mut Ch) -> &'static TableD {
    let gs = ["single", "pair", "triple", "nest", "odd"];
    let g = gs[ch.choose(5)];
    pick_table(ch, g)
}
fn c12_written(ch: &mut Ch) -> Result<(), String> {
    let t = c12_any(ch);
    let level = match t.group {
        "single" => 3,
        "pair" => ch.by_tier(3, 4),
        _ => ch.by_tier(2, 3),
    };
    let vals = product(ch, t, level, 3);
    decode(ch, t, &vals)
}
fn c12_written_huge(ch: &mut Ch) -> Result<(), String> {
    let (t, vals) = one_of_many(ch);
    decode(ch, t, &vals)
}
fn c12_read_huge(ch: &mut Ch) -> Result<(), String> {
    let (t, vals) = one_of_many(ch);
    let n = content(t, &vals);
    let mut o = EncOpts::plain();
    o.field_order = true;
    read_encoded(ch, t, &n, &o)
}
fn c12_written_wide(ch: &mut Ch) -> Result<(), String> {
    let t = pick_table(ch, "wide");
    let vals = deviate(ch, t, ch.by_tier(1, 3), 3);
    decode(ch, t, &vals)
}

/// the content with absent scalars left out
pub fn content(t: &TableD, vals: &[Val]) -> N {
    let n = wire(t, vals, &Seen(None));
    let mut m = match &*n {
        Node::Table(m) => m.clone(),
        _ => unreachable!(),
    };
    for (s, f) in t.fields.iter().enumerate() {
        let absent = match f.ty {
            TyD::Tag(_) => vals[s + 1] == Val::Absent,
            _ => vals[s] == Val::Absent,
        };
        if absent {
            m.remove(&(s as u16));
        } else if let (Some(ty), Val::Sc(b)) = (ty_of(&f.ty), &vals[s]) {
            // a given value is stored, also if it is the default
            m.insert(s as u16, fbspec::sc(ty, *b));
        }
    }
    table_node(m)
}

fn read_encoded(ch: &mut Ch, t: &TableD, n: &N, o: &EncOpts) -> Result<(), String> {
    let buf = encode(n, o, &mut |k| ch.choose(k));
    ch.note(|| format!("read {} from {:?}", t.decl, n));
    ch.sample(|| format!("read {} from {:?}", t.decl, n));
    ch.step(1);
    ch.state(&buf);
    let want = reads(t, n);
    check_reads(ch, t, &buf, &want, &|| format!("{} holding {:?}", t.decl, n))
}

fn c12_read(ch: &mut Ch) -> Result<(), String> {
    let t = c12_any(ch);
    let single = t.group == "single";
    let level = if single { 2 } else { 1 };
    let vals = product(ch, t, level, 3);
    let n = content(t, &vals);
    let mut o = if single { EncOpts::all() } else { EncOpts::plain() };
    o.order = false;
    if !single {
        o.field_order = true;
        o.vt_extra = ch.thorough();
    }
    read_encoded(ch, t, &n, &o)
}
fn c12_read_wide(ch: &mut Ch) -> Result<(), String> {
    let t = pick_table(ch, "wide");
    let vals = deviate(ch, t, ch.by_tier(1, 2), 3);
    let n = content(t, &vals);
    let mut o = EncOpts::plain();
    o.field_order = true;
    read_encoded(ch, t, &n, &o)
}

// ---------------------------------------------------------------- C13

/// Is anything stored in this slot of the root?
fn stored(buf: &[u8], slot: usize) -> Result<bool, String> {
    let loc = refread::root(buf, false).map_err(|_| "no root".to_string())?;
    refread::field(buf, loc, 4 + 2 * slot as u16).map(|x| x.is_some()).map_err(|_| "no table".to_string())
}

/// values with the default, its neighbours and what else there is
fn around(f: &FieldD) -> Vec<u64> {
    let ty = ty_of(&f.ty).unwrap();
    match f.ty {
        TyD::Enum(e) => e.vals.iter().map(|v| (v.1 as u64) & ty.mask()).collect(),
        _ => {
            let mut v = scalars(ty, 3);
            if let Some(d) = f.def {
                if ty != Ty::Bool {
                    for x in [d, d.wrapping_add(1), d.wrapping_sub(1), d ^ 1, d ^ (ty.mask() ^ (ty.mask() >> 1)), !d] {
                        let x = x & ty.mask();
                        let c = canon(&f.ty, x);
                        // signed zero equals zero
                        let neg_zero = matches!(ty, Ty::F32 | Ty::F64) && c == (ty.mask() ^ (ty.mask() >> 1));
                        if !v.contains(&c) && !neg_zero {
                            v.push(c);
                        }
                    }
                }
            }
            v
        }
    }
}

fn c13_field(ch: &mut Ch, t: &TableD, slot: usize, base: &[Val]) -> Result<(), String> {
    let f = &t.fields[slot];
    let ty = ty_of(&f.ty).unwrap();
    let mut vals = base.to_vec();
    match ch.choose(4) {
        // created from default arguments
        0 => {
            vals[slot] = Val::Absent;
            let buf = create(ch, t, &vals, 0)?;
            ch.state(&buf);
            if let Some(d) = f.def {
                ch.eval(1);
                let is_nan = match ty {
                    Ty::F32 => f32::from_bits(d as u32).is_nan(),
                    Ty::F64 => f64::from_bits(d).is_nan(),
                    _ => false,
                };
                if !f.req && !is_nan && stored(&buf, slot)? {
                    return Err(format!("the default of {} is stored: {}", f.name, show(t, &vals)));
                }
            }
            let want = reads(t, &wire(t, &vals, &Seen(None)));
            check_reads(ch, t, &buf, &want, &|| format!("created {}", show(t, &vals)))
        }
        // created with a value
        1 => {
            let a = around(f);
            let i = ch.choose(a.len());
            vals[slot] = Val::Sc(a[i]);
            let buf = create(ch, t, &vals, 0)?;
            ch.state(&buf);
            let d = f.def.map(|d| canon(&f.ty, d));
            if d != Some(a[i]) && !stored(&buf, slot)? {
                return Err(format!("a value other than the default is not stored: {}", show(t, &vals)));
            }
            let want = reads(t, &wire(t, &vals, &Seen(None)));
            check_reads(ch, t, &buf, &want, &|| format!("created {}", show(t, &vals)))
        }
        // stored by someone else
        2 => {
            let a = around(f);
            let i = ch.choose(a.len());
            vals[slot] = Val::Sc(a[i]);
            read_encoded(ch, t, &content(t, &vals), &EncOpts::plain())
        }
        // absent, in a short and in a long vtable
        _ => {
            vals[slot] = Val::Absent;
            let mut o = EncOpts::plain();
            o.vt_extra = true;
            read_encoded(ch, t, &content(t, &vals), &o)
        }
    }
}

/// a scalar or enum field the user sets (the tag of a union is set with the union)
fn settable(t: &TyD) -> bool {
    !matches!(t, TyD::Tag(..)) && ty_of(t).is_some()
}
fn c13_single(ch: &mut Ch) -> Result<(), String> {
    let t = pick_table(ch, "def");
    let base = vec![Val::Absent; t.fields.len()];
    let slot = ch.choose(t.fields.len());
    if !settable(&t.fields[slot].ty) {
        return Ok(());
    }
    c13_field(ch, t, slot, &base)
}
fn c13_many(ch: &mut Ch) -> Result<(), String> {
    let t = pick_table(ch, "defmany");
    let n = t.fields.len();
    let base = if ch.flag() { row(t, 1, false, 2).unwrap() } else { vec![Val::Absent; n] };
    let slot = ch.choose(n);
    c13_field(ch, t, slot, &base)
}
fn c13_all(ch: &mut Ch) -> Result<(), String> {
    let t = pick_table(ch, "defs");
    let n = t.fields.len();
    let a = ch.choose(n);
    let b = ch.choose(n);
    if a == b || !settable(&t.fields[a].ty) || !settable(&t.fields[b].ty) {
        return Ok(());
    }
    let mut base = if ch.flag() { row(t, 1, false, 2).unwrap() } else { vec![Val::Absent; n] };
    let vs = around(&t.fields[a]);
    let k = ch.choose(vs.len().min(ch.by_tier(3, 20)));
    base[a] = Val::Sc(vs[k]);
    c13_field(ch, t, b, &base)
}

// ---------------------------------------------------------------- C14

fn c14_old_to_new(ch: &mut Ch) -> Result<(), String> {
    let ps = &SET.get().unwrap().pairs;
    let (old, new) = ps[ch.choose(ps.len())];
    c14(ch, old, new)
}
fn c14_new_to_old(ch: &mut Ch) -> Result<(), String> {
    let ps = &SET.get().unwrap().pairs;
    let (old, new) = ps[ch.choose(ps.len())];
    c14(ch, new, old)
}
fn c14(ch: &mut Ch, from: &TableD, to: &TableD) -> Result<(), String> {
    let level = if from.fields.len() > 3 { ch.by_tier(1, 2) } else { ch.by_tier(2, 3) };
    let vals = if from.group == "evowide" { mostly(ch, from) } else { product(ch, from, level, 3) };
    let buf = create(ch, from, &vals, 0)?;
    ch.state(&buf);
    // what is in the buffer, by the schema of the writer; what it means, by that of the reader
    let loc = refread::root(&buf, false).map_err(|_| "no root".to_string())?;
    let n = wire(from, &vals, &Seen(Some((&buf, loc))));
    let want = reads(to, &n);
    check_reads(ch, to, &buf, &want, &|| format!("written by {}, read by {}", show(from, &vals), to.decl))
}

// ---------------------------------------------------------------- C15

fn pick_enum(ch: &mut Ch) -> &'static EnumD {
    let es: Vec<&EnumD> = SET.get().unwrap().enums.iter().copied().filter(|e| e.group == "enum").collect();
    es[ch.choose(es.len())]
}
fn c15_values(ch: &mut Ch) -> Result<(), String> {
    let e = pick_enum(ch);
    let i = ch.choose(e.vals.len());
    let (name, v) = e.vals[i];
    let b = (v as u64) & e.base.mask();
    ch.note(|| e.decl.to_string());
    let (from, as_, n, size) = mc::guard(|| (e.nth)(i)).map_err(|p| format!("panics: {} in {}", p, e.decl))?;
    ch.step(1);
    ch.eval(5);
    ch.state(format!("{} {}", e.decl, i));
    if from != b || as_ != b {
        return Err(format!("{} is {:#x} (as {:#x}) instead of {:#x} in {}", name, from, as_, b, e.decl));
    }
    if n != name {
        return Err(format!("{} is called {:?} in {}", name, n, e.decl));
    }
    if size != e.base.size() {
        return Err(format!("{} takes {} bytes instead of {}", e.decl, size, e.base.size()));
    }
    match mc::guard(|| (e.conv)(b)).map_err(|p| format!("panics: {} in {}", p, e.decl))? {
        Ok((x, n)) if x == b && n == name => (),
        r => return Err(format!("{} converts to {:?} in {}", v, r, e.decl)),
    }
    let d = (e.default)();
    if d != (e.vals[0].1 as u64) & e.base.mask() {
        return Err(format!("default value {:#x} of {} is not its first", d, e.decl));
    }
    Ok(())
}
fn ints(e: &EnumD) -> Vec<u64> {
    let m = e.base.mask();
    if e.base.size() <= 2 {
        return (0..=m).collect();
    }
    let mut v: Vec<u64> = vec![];
    let mut around = |c: u64| {
        for d in 0..9u64 {
            v.push(c.wrapping_add(d).wrapping_sub(4) & m);
        }
    };
    for x in e.vals {
        around((x.1 as u64) & m);
        around((x.1 as i64).wrapping_neg() as u64 & m);
        around(!(x.1 as u64) & m);
        // what truncation or widening would confuse
        for s in [8u32, 16, 32, 63] {
            around((x.1 as u64).wrapping_add(1u64.wrapping_shl(s)) & m);
            around((x.1 as u64) & (1u64.wrapping_shl(s)).wrapping_sub(1) & m);
        }
    }
    for s in 0..64 {
        around(1u64.wrapping_shl(s) & m);
    }
    v.sort_unstable();
    v.dedup();
    v
}
fn c15_integers(ch: &mut Ch) -> Result<(), String> {
    let e = pick_enum(ch);
    let all = ints(e);
    let parts = 16.min(all.len());
    let p = ch.choose(parts);
    ch.note(|| format!("integers, part {}, {}", p, e.decl));
    for b in all.iter().skip(p).step_by(parts).copied() {
        let r = mc::guard(|| (e.conv)(b)).map_err(|p| format!("panics: {} in {}", p, e.decl))?;
        ch.step(1);
        ch.eval(1);
        let want = e.vals.iter().find(|v| (v.1 as u64) & e.base.mask() == b);
        let ok = match (&r, want) {
            (Ok((x, n)), Some(w)) => *x == b && *n == w.0,
            (Err(m), None) => m == "UnknownEnumVariant",
            _ => false,
        };
        if !ok {
            return Err(format!("integer {:#x} converts to {:?} instead of {:?} in {}", b, r, want, e.decl));
        }
        ch.state(format!("{} {}", e.decl, b));
    }
    Ok(())
}
/// tables { x : E ; v : [ E ] ; y : ubyte ; }
fn c15_stored(ch: &mut Ch) -> Result<(), String> {
    let t = pick_table(ch, "enumtab");
    let e = match t.fields[0].ty {
        TyD::Enum(e) => e,
        _ => unreachable!(),
    };
    if ch.flag() {
        let vals = product(ch, t, 3, 3);
        decode(ch, t, &vals)?;
        return round(ch, t, &vals, 0);
    }
    // any integer in the buffer
    let all = ints(e);
    let all: Vec<u64> = if all.len() > 300 { all.iter().copied().filter(|x| x % 251 < 2 || *x < 40 || *x > e.base.mask() - 40 || e.vals.iter().any(|v| ((v.1 as u64 & e.base.mask()).abs_diff(*x)) < 3)).collect() } else { all };
    let b = all[ch.choose(all.len())];
    let mut m = BTreeMap::new();
    m.insert(0, fbspec::sc(e.base, b));
    let first = (e.vals[0].1 as u64) & e.base.mask();
    m.insert(1, fbspec::vecsc(e.base, &[first, b, first]));
    m.insert(2, fbspec::sc(Ty::U8, 0x5a));
    read_encoded(ch, t, &table_node(m), &EncOpts::plain())
}

// ---------------------------------------------------------------- C16

fn c16_written(ch: &mut Ch) -> Result<(), String> {
    let t = pick_table(ch, "uni");
    let unions = t.fields.iter().filter(|f| matches!(f.ty, TyD::Un(_))).count();
    let level = if unions > 1 { 1 } else { ch.by_tier(2, 3) };
    let vals = product(ch, t, level, 3);
    decode(ch, t, &vals)?;
    round(ch, t, &vals, 0)
}
fn c16_far(ch: &mut Ch) -> Result<(), String> {
    let t = pick_table(ch, "unifar");
    let base = ch.choose(3);
    let mut vals = row(t, base % 2, base == 2, 3).unwrap();
    // the last two fields
    for s in [t.fields.len() - 3, t.fields.len() - 1] {
        let c = choices(&t.fields[s], 2, 3);
        vals[s] = c[ch.choose(c.len())].clone();
    }
    decode(ch, t, &vals)?;
    round(ch, t, &vals, 0)
}
fn c16_far_tags(ch: &mut Ch) -> Result<(), String> {
    let t = pick_table(ch, "unifar");
    tags(ch, t)
}
fn c16_tags(ch: &mut Ch) -> Result<(), String> {
    let t = pick_table(ch, "uni");
    tags(ch, t)
}
fn tags(ch: &mut Ch, t: &TableD) -> Result<(), String> {
    let us: Vec<usize> = (0..t.fields.len()).filter(|i| matches!(t.fields[*i].ty, TyD::Un(_))).collect();
    let slot = us[ch.choose(us.len())];
    let u = match t.fields[slot].ty {
        TyD::Un(u) => u,
        _ => unreachable!(),
    };
    // what else is there
    let base = ch.choose(2);
    let vals = row(t, 1, base == 1, 3).ok_or("HARNESS: no row")?;
    let n = content(t, &vals);
    let mut m = match &*n {
        Node::Table(m) => m.clone(),
        _ => unreachable!(),
    };
    let tag = ch.choose(257);
    m.remove(&(slot as u16));
    m.remove(&(slot as u16 - 1));
    if tag < 256 {
        m.insert(slot as u16 - 1, fbspec::sc(Ty::U8, tag as u64));
    }
    let alt = u.alts.iter().find(|a| a.2 as usize == tag);
    let c = ch.choose(if alt.is_some() { 4 } else { 2 });
    if c > 0 {
        let x = match alt {
            Some(a) => {
                let r = tables(a.1, 3, 3);
                let k = r[(c - 1) % r.len()].clone();
                content(a.1, &k)
            }
            // something no alternative describes
            None => table_node((0..4u16).map(|i| (i, fbspec::sc(Ty::U8, 0xee))).collect()),
        };
        m.insert(slot as u16, x);
    }
    read_encoded(ch, t, &table_node(m), &EncOpts::plain())
}

// ---------------------------------------------------------------- C17

fn c17_created(ch: &mut Ch) -> Result<(), String> {
    let t = pick_table(ch, "req");
    let level = if t.fields.len() > 4 { 1 } else if t.fields.len() > 2 { ch.by_tier(1, 2) } else { 3 };
    let vals = product(ch, t, level, 3);
    round(ch, t, &vals, 0)
}
fn c17_bare(ch: &mut Ch) -> Result<(), String> {
    let g = if ch.flag() { "reqwide" } else { "req" };
    let t = pick_table(ch, g);
    ch.note(|| format!("bare {}", t.decl));
    ch.step(1);
    ch.eval(1);
    ch.state(t.decl);
    let r = mc::guard(|| {
        let mut fbb = FlatBufferBuilder::new();
        (t.bare)(&mut fbb)
    });
    let req = t.fields.iter().any(|f| f.req);
    match (r, req) {
        (Ok(_), true) => Err(format!("the builder finishes without its required fields: {}", t.decl)),
        (Err(p), false) => Err(format!("the builder panics though nothing is required ({}): {}", p, t.decl)),
        _ => Ok(()),
    }
}
fn c17_parts(ch: &mut Ch) -> Result<(), String> {
    let t = pick_table(ch, "req");
    if t.parts.is_none() {
        return Ok(());
    }
    let vals = row(t, ch.choose(2), false, 3).ok_or("HARNESS: no row")?;
    let rev = ch.flag();
    let mask: Vec<bool> = t.fields.iter().map(|_| ch.flag()).collect();
    some_parts(ch, t, &vals, &mask, rev)
}
/// all fields, the required ones or none, but for one field and possibly the next
fn but_two(ch: &mut Ch, t: &TableD) -> Vec<bool> {
    let base = ch.choose(4);
    let mut mask: Vec<bool> = t.fields.iter().map(|f| base == 0 || base == 1 && f.req || base == 2 && !f.req).collect();
    let n = mask.len();
    let a = ch.choose(n + 1);
    if a < n {
        mask[a] = !mask[a];
        if a + 1 < n && ch.flag() {
            mask[a + 1] = !mask[a + 1];
        }
    }
    mask
}
fn c17_wide_parts(ch: &mut Ch) -> Result<(), String> {
    let t = pick_table(ch, "reqwide");
    if t.parts.is_none() {
        return Ok(());
    }
    let vals = row(t, ch.choose(2), false, 3).ok_or("HARNESS: no row")?;
    let rev = ch.flag();
    let mask = but_two(ch, t);
    some_parts(ch, t, &vals, &mask, rev)
}
fn c17_wide_absent(ch: &mut Ch) -> Result<(), String> {
    let t = pick_table(ch, "reqwide");
    let vals = row(t, ch.choose(2), false, 3).ok_or("HARNESS: no row")?;
    if ch.flag() {
        round(ch, t, &vals, 0)?;
    }
    let mask = but_two(ch, t);
    let n = content(t, &vals);
    let m: BTreeMap<u16, N> = match &*n {
        Node::Table(m) => m.iter().filter(|(s, _)| mask[**s as usize]).map(|(s, n)| (*s, n.clone())).collect(),
        _ => unreachable!(),
    };
    read_encoded(ch, t, &table_node(m), &EncOpts::plain())
}
fn some_parts(ch: &mut Ch, t: &TableD, vals: &[Val], mask: &[bool], rev: bool) -> Result<(), String> {
    let parts = t.parts.unwrap();
    let what = || format!("{}: slots {:?} set{} to {:?}", t.decl, (0..mask.len()).filter(|i| mask[*i]).collect::<Vec<_>>(), if rev { " backwards" } else { "" }, vals);
    ch.note(&what);
    ch.sample(&what);
    ch.step(1);
    ch.eval(1);
    let missing = (0..t.fields.len()).any(|s| t.fields[s].req && !mask[s]);
    let r = mc::guard(|| {
        let mut fbb = FlatBufferBuilder::new();
        let o = parts(&mut fbb, vals, mask, rev);
        fbb.finish(WIPOffset::<()>::new(o), None);
        fbb.finished_data().to_vec()
    });
    match (r, missing) {
        (Ok(_), true) => Err(format!("the builder finishes without a required field: {}", what())),
        (Err(p), false) => Err(format!("the builder panics though nothing required is missing ({}): {}", p, what())),
        (Err(_), true) => Ok(()),
        (Ok(buf), false) => {
            ch.state(&buf);
            let n = content(t, vals);
            let m: BTreeMap<u16, N> = match &*n {
                Node::Table(m) => m.iter().filter(|(s, _)| mask[**s as usize]).map(|(s, n)| (*s, n.clone())).collect(),
                _ => unreachable!(),
            };
            let want = reads(t, &table_node(m));
            check_reads(ch, t, &buf, &want, &what)
        }
    }
}
fn c17_absent(ch: &mut Ch) -> Result<(), String> {
    let t = pick_table(ch, "req");
    let vals = row(t, ch.choose(2), false, 3).ok_or("HARNESS: no row")?;
    let n = content(t, &vals);
    let mut m = match &*n {
        Node::Table(m) => m.clone(),
        _ => unreachable!(),
    };
    for s in 0..t.fields.len() {
        if ch.flag() {
            m.remove(&(s as u16));
        }
    }
    let mut o = EncOpts::plain();
    o.vt_extra = t.fields.len() <= 4;
    read_encoded(ch, t, &table_node(m), &o)
}
