//! Reference reader for arbitrary bytes: what an access denotes, or why it fails.

use crate::{rd, Ty};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum E {
    Oob,
    /// the terminator is missing
    NoTerm,
    NotUtf8,
    /// terminator missing and not UTF-8
    NoTermOrNotUtf8,
}

pub type R<T> = Result<T, E>;

fn r(buf: &[u8], loc: i128, n: usize) -> R<u64> {
    if loc < 0 || loc > buf.len() as i128 {
        return Err(E::Oob);
    }
    rd(buf, loc as usize, n).ok_or(E::Oob)
}

pub fn root(buf: &[u8], sized: bool) -> R<i128> {
    let p = if sized { 4 } else { 0 };
    Ok(p + r(buf, p, 4)? as i128)
}
pub fn scalar(buf: &[u8], loc: i128, t: Ty) -> R<u64> {
    r(buf, loc, t.size())
}
pub fn follow(buf: &[u8], loc: i128) -> R<i128> {
    Ok(loc + r(buf, loc, 4)? as i128)
}
pub fn vtable(buf: &[u8], loc: i128) -> R<i128> {
    Ok(loc - r(buf, loc, 4)? as u32 as i32 as i128)
}
/// location of the field in the vtable slot at byte offset `slot`, None if absent
pub fn field(buf: &[u8], loc: i128, slot: u16) -> R<Option<i128>> {
    let v = vtable(buf, loc)?;
    let n = r(buf, v, 2)?;
    if slot as u64 >= n {
        return Ok(None);
    }
    let o = r(buf, v + slot as i128, 2)?;
    Ok(if o == 0 { None } else { Some(loc + o as i128) })
}
pub fn vec_len(buf: &[u8], loc: i128) -> R<u64> {
    r(buf, loc, 4)
}
/// data range of a vector of `sz`-byte elements, checked against the buffer
pub fn vec_data(buf: &[u8], loc: i128, sz: usize) -> R<&[u8]> {
    let n = vec_len(buf, loc)? as i128;
    let a = loc + 4;
    let b = a + n * sz as i128;
    if a > buf.len() as i128 || b > buf.len() as i128 {
        return Err(E::Oob);
    }
    Ok(&buf[a as usize..b as usize])
}
pub fn string(buf: &[u8], loc: i128) -> R<&str> {
    let d = vec_data(buf, loc, 1)?;
    let e = loc + 4 + d.len() as i128;
    let term = if e >= buf.len() as i128 { return Err(E::Oob) } else { buf[e as usize] == 0 };
    match (term, std::str::from_utf8(d)) {
        (true, Ok(s)) => Ok(s),
        (true, Err(_)) => Err(E::NotUtf8),
        (false, Ok(_)) => Err(E::NoTerm),
        (false, Err(_)) => Err(E::NoTermOrNotUtf8),
    }
}
