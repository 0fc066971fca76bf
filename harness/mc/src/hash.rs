//! FxHash-like deterministic hasher.
use std::hash::Hasher;
#[derive(Default, Clone)]
pub struct Fx(u64);
impl Fx {
    fn add(&mut self, x: u64) {
        self.0 = (self.0.rotate_left(5) ^ x).wrapping_mul(0x517c_c1b7_2722_0a95);
    }
}
impl Hasher for Fx {
    fn finish(&self) -> u64 {
        let mut x = self.0;
        x ^= x >> 32;
        x = x.wrapping_mul(0xd6e8_feb8_6659_fd93);
        x ^ (x >> 32)
    }
    fn write(&mut self, b: &[u8]) {
        self.add(b.len() as u64);
        for c in b.chunks(8) {
            let mut a = [0u8; 8];
            a[..c.len()].copy_from_slice(c);
            self.add(u64::from_le_bytes(a));
        }
    }
    fn write_u32(&mut self, x: u32) {
        self.add(x as u64 + 1);
    }
}
