//! Key types, hasher and small utilities shared by all drivers.
use hash_trie::traits::HashLike;
use std::hash::{Hash, Hasher};

/// Left key type: identity is `id`, hash is `h` (a function of `id` in every history), `tag` tells objects apart.
#[derive(Clone, Copy, Debug, Default)]
pub struct KA { pub id: u32, pub h: u64, pub tag: u32 }
/// A second key type that hashes and compares like `KA`.
#[derive(Clone, Copy, Debug, Default)]
pub struct KB { pub id: u32, pub h: u64, pub tag: u32 }

impl Hash for KA { fn hash<S: Hasher>(&self, s: &mut S) { s.write_u64(self.h) } }
impl Hash for KB { fn hash<S: Hasher>(&self, s: &mut S) { s.write_u64(self.h) } }
impl PartialEq for KA { fn eq(&self, o: &KA) -> bool { self.id == o.id } }
impl PartialEq<KB> for KA { fn eq(&self, o: &KB) -> bool { self.id == o.id } }
impl PartialEq for KB { fn eq(&self, o: &KB) -> bool { self.id == o.id } }
impl PartialEq<KA> for KB { fn eq(&self, o: &KA) -> bool { self.id == o.id } }
impl Eq for KA {}
impl Eq for KB {}
impl HashLike<KB> for KA {}
impl HashLike<KA> for KB {}
impl From<KB> for KA { fn from(k: KB) -> KA { KA { id: k.id, h: k.h, tag: k.tag } } }
impl From<KA> for KB { fn from(k: KA) -> KB { KB { id: k.id, h: k.h, tag: k.tag } } }

/// Hasher whose result is exactly the word written, so a history controls every hash bit.
#[derive(Default)]
#[derive(Clone)]
pub struct CH(u64);
impl Hasher for CH {
    fn finish(&self) -> u64 { self.0 }
    fn write(&mut self, b: &[u8]) { for x in b { self.0 = (self.0 << 8) | *x as u64 } }
    fn write_u64(&mut self, x: u64) { self.0 = x }
}

#[derive(Clone, Copy)]
pub struct Rng(pub u64);
impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        mix(self.0)
    }
    pub fn below(&mut self, n: u64) -> u64 { self.next() % n }
    pub fn chance(&mut self, num: u64, den: u64) -> bool { self.below(den) < num }
}
pub fn mix(x: u64) -> u64 {
    let mut z = x;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}
pub fn mix2(a: u64, b: u64) -> u64 { mix(mix(a) ^ b.wrapping_mul(0x9E3779B97F4A7C15)) }

/// Run a future that never really suspends.
pub fn block_on<F: std::future::Future>(f: F) -> F::Output {
    use std::task::{Context, Poll, RawWaker, RawWakerVTable, Waker};
    fn c(_: *const ()) -> RawWaker { RawWaker::new(std::ptr::null(), &VT) }
    fn n(_: *const ()) {}
    static VT: RawWakerVTable = RawWakerVTable::new(c, n, n, n);
    let w = unsafe { Waker::from_raw(RawWaker::new(std::ptr::null(), &VT)) };
    let mut cx = Context::from_waker(&w);
    let mut f = Box::pin(f);
    for _ in 0..100_000_000u64 { if let Poll::Ready(x) = f.as_mut().poll(&mut cx) { return x } }
    panic!("future never completed")
}
