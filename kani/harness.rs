// Contracts of the bit-word primitives (src/traits.rs), of the hash-word conversion and of
// Flag (src/flag.rs), discharged on the crate's real functions.  This file is attached to a
// scratch copy of /repo/src as a cfg(kani) module by /verif/lib/kani_run.py.
//
// Every harness is over the full domain of its operands.  Loops in the specifications are
// bounded by the width of the word and unrolled completely (unwinding assertions are on).
#![allow(unused)]
use crate::flag::Flag;
use crate::results::BitError;
use crate::traits::*;
use core::hash::{Hash, Hasher};

/// Independent specification functions on 128-bit words.
fn has(w: u128, i: usize) -> bool { (w >> i) & 1 == 1 }
fn single(b: u128, width: usize) -> bool { b != 0 && (b & (b - 1)) == 0 }

macro_rules! word {
    ($m:ident, $t:ty, $w:expr, $log:expr) => {
        mod $m {
            use super::*;
            // nth_bit: the n-th bit, or Range
            #[kani::proof]
            fn nth_bit() {
                let n: usize = kani::any();
                match <$t as NthBit>::nth_bit(n) {
                    Ok(b) => { assert!(n < $w); assert!(b as u128 == 1u128 << n); }
                    Err(e) => { assert!(n >= $w); assert!(matches!(e, BitError::Range)); }
                }
                kani::cover!(n < $w);
                kani::cover!(n >= $w);
            }
            #[kani::proof]
            fn bit_contains() {
                let (s, b): ($t, $t) = (kani::any(), kani::any());
                match s.bit_contains(b) {
                    Ok(r) => { assert!(single(b as u128, $w)); assert!(r == ((s & b) != 0)); }
                    Err(e) => { assert!(!single(b as u128, $w)); assert!(matches!(e, BitError::CountNotEqualToOne)); }
                }
                kani::cover!(s.bit_contains(b).is_ok());
            }
            // bit_index == rank, the number of set bits strictly below, by the recursion that
            // defines rank: rank(s, 0) = 0 and rank(s, n + 1) = rank(s, n) + (1 if s has n).
            // (rank(s, n) does not depend on bit n or above, so it is bit_index of s | 1 << n.)
            #[kani::proof]
            fn bit_index() {
                let s: $t = kani::any(); let n: usize = kani::any();
                kani::assume(n < $w);
                let b: $t = (1u128 << n) as $t;
                match s.bit_index(b) {
                    Ok(_) => assert!(has(s as u128, n)),
                    Err(e) => { assert!(!has(s as u128, n)); assert!(matches!(e, BitError::NotFound)); }
                }
                let r = (s | b).bit_index(b).unwrap();
                if n == 0 { assert!(r == 0); }
                if n + 1 < $w {
                    let c: $t = b << 1;
                    assert!((s | c).bit_index(c).unwrap() == r + if has(s as u128, n) { 1 } else { 0 });
                }
                kani::cover!(has(s as u128, n));
            }
            #[kani::proof]
            fn bit_index_error() {
                let (s, b): ($t, $t) = (kani::any(), kani::any());
                kani::assume(!single(b as u128, $w));
                assert!(matches!(s.bit_index(b), Err(BitError::CountNotEqualToOne)));
            }
            #[kani::proof]
            fn bit_insert() {
                let (s, b): ($t, $t) = (kani::any(), kani::any());
                match s.bit_insert(b) {
                    Ok(r) => { assert!(single(b as u128, $w)); assert!(s & b == 0); assert!(r == (s | b)); }
                    Err(e) => if !single(b as u128, $w) { assert!(matches!(e, BitError::CountNotEqualToOne)) }
                              else { assert!(s & b != 0); assert!(matches!(e, BitError::Found)) },
                }
                kani::cover!(s.bit_insert(b).is_ok());
            }
            #[kani::proof]
            fn bit_remove() {
                let (s, b): ($t, $t) = (kani::any(), kani::any());
                match s.bit_remove(b) {
                    Ok(r) => { assert!(single(b as u128, $w)); assert!(s & b != 0); assert!(r == (s & !b)); }
                    Err(e) => if !single(b as u128, $w) { assert!(matches!(e, BitError::CountNotEqualToOne)) }
                              else { assert!(s & b == 0); assert!(matches!(e, BitError::NotFound)) },
                }
                kani::cover!(s.bit_remove(b).is_ok());
            }
            #[kani::proof]
            fn bit_merge() {
                let (s, b): ($t, $t) = (kani::any(), kani::any());
                match s.bit_merge(b) {
                    Ok(r) => { assert!(s & b == 0); assert!(r == (s | b)); }
                    Err(e) => { assert!(s & b != 0); assert!(matches!(e, BitError::Found)); }
                }
                kani::cover!(s.bit_merge(b).is_ok());
            }
            // count_ones_t: 0 for no bits, one more for each bit added
            #[kani::proof]
            fn count_ones() {
                let s: $t = kani::any(); let n: usize = kani::any();
                kani::assume(n < $w && !has(s as u128, n));
                let z: $t = 0;
                assert!(z.count_ones_t() == 0);
                assert!((s | (1u128 << n) as $t).count_ones_t() == s.count_ones_t() + 1);
                kani::cover!(n > 0);
            }
            #[kani::proof]
            fn constants() {
                assert!(<$t as MaxOnes>::max_ones() == $w);
                assert!(<$t as LogB>::log_b() == $log);
                assert!(1usize << $log == $w);
                assert!(<$t>::default() == 0);
            }
            #[kani::proof]
            fn as_usize() {
                // for values within the word's index range
                let s: $t = kani::any();
                kani::assume((s as u128) < $w);
                assert!(s.as_usize() as u128 == s as u128);
            }
        }
    };
}
word!(w8, u8, 8usize as _, 3);
word!(w16, u16, 16usize as _, 4);
word!(w32, u32, 32usize as _, 5);
word!(w64, u64, 64usize as _, 6);
word!(w128, u128, 128usize as _, 7);
word!(wsize, usize, (8 * core::mem::size_of::<usize>()) as _, (if core::mem::size_of::<usize>() == 8 { 6 } else if core::mem::size_of::<usize>() == 4 { 5 } else { 4 }));

// MaskLogB: the mask of the digit width, in every hash word that can hold it.
#[kani::proof]
fn masks() {
    macro_rules! m { ($f:ty, $v:expr, $($t:ty),*) => { $( assert!(<$f as MaskLogB<$t>>::mask_log_b() == $v); )* } }
    m!(u8, 0b111, u8, u16, u32, u64, u128, usize);
    m!(u16, 0b1111, u8, u16, u32, u64, u128, usize);
    m!(u32, 0b11111, u16, u32, u64, u128, usize);
    m!(u64, 0b111111, u16, u32, u64, u128, usize);
    m!(u128, 0b1111111, u16, u32, u64, u128, usize);
    m!(usize, core::mem::size_of::<usize>() as u128 as u16 as _ , );
    assert!(<usize as MaskLogB<u64>>::mask_log_b() == 8 * core::mem::size_of::<usize>() as u64 - 1);
    assert!(<usize as MaskLogB<usize>>::mask_log_b() == 8 * core::mem::size_of::<usize>() - 1);
    assert!(<usize as MaskLogB<u16>>::mask_log_b() == 8 * core::mem::size_of::<usize>() as u16 - 1);
    assert!(<usize as MaskLogB<u32>>::mask_log_b() == 8 * core::mem::size_of::<usize>() as u32 - 1);
    assert!(<usize as MaskLogB<u128>>::mask_log_b() == 8 * core::mem::size_of::<usize>() as u128 - 1);
}

// Flag: the digits of the hash, level by level.
macro_rules! flag {
    ($m:ident, $h:ty, $f:ty) => {
        mod $m {
            use super::*;
            const HB: usize = 8 * core::mem::size_of::<$h>();
            const FB: usize = 8 * core::mem::size_of::<$f>();
            fn log() -> usize { let mut l = 0; while (1usize << l) < FB { l += 1; } l }
            fn digit(h: $h, d: usize) -> usize { (((h as u128) >> (d * log())) % (FB as u128)) as usize }
            #[kani::proof]
            #[kani::unwind(10)]
            fn new() {
                let h: $h = kani::any();
                let f = Flag::<$h, $f>::new(h);
                assert!(f.hash_value() == h && f.depth() == 0);
                assert!(f.flag() as u128 == 1u128 << digit(h, 0));
                let f: Flag<$h, $f> = h.into();
                assert!(f.hash_value() == h && f.depth() == 0);
                assert!(f.flag() as u128 == 1u128 << digit(h, 0));
            }
            #[kani::proof]
            #[kani::unwind(10)]
            fn new_at_depth() {
                let h: $h = kani::any(); let d: usize = kani::any();
                kani::assume(d <= 256);
                match Flag::<$h, $f>::new_at_depth(h, d) {
                    None => assert!(d * log() >= HB),
                    Some(f) => {
                        assert!(d * log() < HB);
                        assert!(f.hash_value() == h && f.depth() == d);
                        assert!(f.flag() as u128 == 1u128 << digit(h, d));
                        match f.next() {
                            None => assert!((d + 1) * log() >= HB),
                            Some(g) => {
                                assert!((d + 1) * log() < HB);
                                assert!(g.hash_value() == h && g.depth() == d + 1);
                                assert!(g.flag() as u128 == 1u128 << digit(h, d + 1));
                            }
                        }
                    }
                }
                kani::cover!(Flag::<$h, $f>::new_at_depth(h, d).is_some());
            }
            // two hash words with equal digits at every level are equal
            #[kani::proof]
            #[kani::unwind(45)]
            fn digits_determine_hash() {
                let (g, h): ($h, $h) = (kani::any(), kani::any());
                let mut d = 0; let mut same = true;
                while d * log() < HB { if digit(g, d) != digit(h, d) { same = false; } d += 1; }
                assert!(same == (g == h));
                assert!(d >= 1);
            }
        }
    };
}
flag!(f_8_8, u8, u8); flag!(f_8_16, u8, u16);
macro_rules! flags { ($h:ty: $($m:ident $f:ty),*) => { $( flag!($m, $h, $f); )* } }
flags!(u16: f_16_8 u8, f_16_16 u16, f_16_32 u32, f_16_64 u64, f_16_128 u128, f_16_size usize);
flags!(u32: f_32_8 u8, f_32_16 u16, f_32_32 u32, f_32_64 u64, f_32_128 u128, f_32_size usize);
flags!(u64: f_64_8 u8, f_64_16 u16, f_64_32 u32, f_64_64 u64, f_64_128 u128, f_64_size usize);
flags!(u128: f_128_8 u8, f_128_16 u16, f_128_32 u32, f_128_64 u64, f_128_128 u128, f_128_size usize);
flags!(usize: f_size_8 u8, f_size_16 u16, f_size_32 u32, f_size_64 u64, f_size_128 u128, f_size_size usize);

// HasherBv: the hasher's output, kept to the width of the hash word.
#[derive(Clone, Copy, Default, PartialEq, Eq, Debug)]
struct K64(u64);
impl Hash for K64 { fn hash<S: Hasher>(&self, s: &mut S) { s.write_u64(self.0) } }
#[derive(Default)]
struct Echo(u64);
impl Hasher for Echo {
    fn finish(&self) -> u64 { self.0 }
    fn write(&mut self, b: &[u8]) {}
    fn write_u64(&mut self, i: u64) { self.0 = i }
}
macro_rules! hasher {
    ($m:ident, $t:ty) => {
        #[kani::proof]
        fn $m() {
            let out: u64 = kani::any();
            let used: u64 = kani::any();
            // a hasher value that was used before must not matter: hash() starts afresh
            let h: $t = <Echo as HasherBv<$t, K64>>::hash(&Echo(used), &K64(out));
            assert!(h == out as $t);
            if out <= <$t>::MAX as u64 { assert!(h as u64 == out); }
        }
    };
}
hasher!(hasher_8, u8); hasher!(hasher_16, u16); hasher!(hasher_32, u32); hasher!(hasher_64, u64);
