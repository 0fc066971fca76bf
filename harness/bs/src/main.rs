//! The way a user's crate uses the compiler: build script, then include_fbs.
#![allow(dead_code)]
mod a {
    butte::include_fbs!("a");
}
mod b {
    butte::include_fbs!("b");
}
mod c {
    butte::include_fbs!("c.x");
}

fn main() {
    let mut f = butte::FlatBufferBuilder::new();
    let s = f.create_string("hi");
    let t = a::T::create(&mut f, &a::TArgs { x: 7, s: Some(s) });
    f.finish_minimal(t);
    let t = a::T::get_root(f.finished_data()).unwrap();
    assert_eq!((t.x().unwrap(), t.s().unwrap()), (Some(7), Some("hi")));
    let mut f = butte::FlatBufferBuilder::new();
    let t = b::n::m::T::create(&mut f, &Default::default());
    f.finish_minimal(t);
    let t = b::n::m::T::get_root(f.finished_data()).unwrap();
    assert_eq!(t.e().unwrap(), Some(b::n::m::E::B));
    let mut f = butte::FlatBufferBuilder::new();
    let v = f.create_vector_direct(&[1u16, 500]);
    let t = c::T::create(&mut f, &c::TArgs { v: Some(v) });
    f.finish_minimal(t);
    let t = c::T::get_root(f.finished_data()).unwrap();
    let v = t.v().unwrap().unwrap();
    assert_eq!((v.len(), v.get(1).unwrap()), (Ok(2), 500));
    println!("ok");
}
