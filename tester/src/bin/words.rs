// Bounded stand-in for the Kani harnesses (used when they cannot decide, or to find a concrete
// failing input): checks the public bit-word traits and HasherBv on structured and random operands.
use hash_trie::results::BitError;
use hash_trie::traits::*;
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};

struct Rng(u64);
impl Rng { fn next(&mut self) -> u64 { self.0 ^= self.0 << 13; self.0 ^= self.0 >> 7; self.0 ^= self.0 << 17; self.0 } }
fn word(r: &mut Rng, w: u32) -> u128 {
    let full = if w == 128 { u128::MAX } else { (1u128 << w) - 1 };
    let x = (r.next() as u128) << 64 | r.next() as u128;
    (match r.next() % 6 {
        0 => 1u128 << (x % w as u128),
        1 => !(1u128 << (x % w as u128)),
        2 => full >> (x % w as u128),
        3 => full << (x % w as u128),
        4 => x & x.rotate_left(31) & x.rotate_left(77),
        _ => x,
    }) & full
}
fn err(e: &BitError) -> &'static str { match e { BitError::CountNotEqualToOne => "CountNotEqualToOne", BitError::NotFound => "NotFound", BitError::Found => "Found", BitError::Range => "Range", #[allow(unreachable_patterns)] _ => "other" } }
fn fail(ty: &str, op: &str, input: String, got: String, want: String) -> ! {
    println!("FOUND {{\"type\":\"{}\",\"op\":\"{}\",\"input\":\"{}\",\"got\":\"{}\",\"want\":\"{}\"}}", ty, op, input, got, want);
    std::process::exit(1)
}
fn show<T: std::fmt::Debug>(r: std::thread::Result<Result<T, BitError>>) -> String {
    match r { Ok(Ok(v)) => format!("Ok({:?})", v), Ok(Err(e)) => format!("Err({})", err(&e)), Err(_) => "panic".into() }
}
macro_rules! go { ($e:expr) => { show(catch_unwind(AssertUnwindSafe(|| $e))) } }
macro_rules! laws {
    ($t:ty, $w:expr, $log:expr, $r:expr, $n:expr, $count:expr) => {{
        let ty = stringify!($t);
        let w: u32 = $w;
        for i in 0..$n {
            $count += 1;
            let (s, b): ($t, $t) = if w == 8 { ((i & 255) as $t, (i >> 8 & 255) as $t) } else {
                let s = word($r, w); let b = if $r.next() % 4 == 0 { word($r, w) } else { 1u128 << ($r.next() % w as u64) };
                (s as $t, b as $t)
            };
            let one = b != 0 && b & (b - 1) == 0;
            let has = s & b != 0;
            let chk = |op: &str, got: String, want: String| if got != want { fail(ty, op, format!("{:#x}, {:#x}", s, b), got, want) };
            let e1 = "Err(CountNotEqualToOne)".to_string();
            chk("bit_contains", go!(s.bit_contains(b)), if one { format!("Ok({})", has) } else { e1.clone() });
            let rank = (0..w).filter(|j| (s as u128) >> j & 1 == 1 && (1u128 << j) < b as u128).count();
            chk("bit_index", go!(s.bit_index(b)), if !one { e1.clone() } else if has { format!("Ok({})", rank) } else { "Err(NotFound)".into() });
            chk("bit_insert", go!(s.bit_insert(b)), if !one { e1.clone() } else if has { "Err(Found)".into() } else { format!("Ok({:?})", s | b) });
            chk("bit_remove", go!(s.bit_remove(b)), if !one { e1.clone() } else if has { format!("Ok({:?})", s & !b) } else { "Err(NotFound)".into() });
            chk("bit_merge", go!(s.bit_merge(b)), if has { "Err(Found)".into() } else { format!("Ok({:?})", s | b) });
            let ones = (0..w).filter(|j| (s as u128) >> j & 1 == 1).count();
            chk("count_ones_t", go!(Ok::<usize, BitError>(s.count_ones_t())), format!("Ok({})", ones));
            let small = (s as u128 % w as u128) as $t;
            chk("as_usize", go!(Ok::<usize, BitError>(small.as_usize())), format!("Ok({})", small));
        }
        for n in (0..300).chain([usize::MAX, 1 << 32, 1 << 16]) {
            $count += 1;
            let want = if n < w as usize { format!("Ok({:?})", (1u128 << n) as $t) } else { "Err(Range)".into() };
            let got = go!(<$t as NthBit>::nth_bit(n));
            if got != want { fail(ty, "nth_bit", n.to_string(), got, want) }
        }
        for (op, got, want) in [("log_b", <$t as LogB>::log_b(), $log), ("max_ones", <$t as MaxOnes>::max_ones(), w as usize),
                ("mask_log_b", <$t as MaskLogB<u32>>::mask_log_b() as usize, (1usize << $log) - 1),
                ("mask_log_b", <$t as MaskLogB<u64>>::mask_log_b() as usize, (1usize << $log) - 1),
                ("mask_log_b", <$t as MaskLogB<u128>>::mask_log_b() as usize, (1usize << $log) - 1)] {
            if got != want { fail(ty, op, "".into(), got.to_string(), want.to_string()) }
        }
    }};
}
#[derive(Clone, Copy, Default, PartialEq, Eq, Debug)]
struct K64(u64);
impl Hash for K64 { fn hash<S: Hasher>(&self, s: &mut S) { s.write_u64(self.0) } }
#[derive(Default)]
struct Echo(u64);
impl Hasher for Echo {
    fn finish(&self) -> u64 { self.0 }
    fn write(&mut self, _: &[u8]) {}
    fn write_u64(&mut self, i: u64) { self.0 = i }
}
macro_rules! hasher {
    ($t:ty, $r:expr, $n:expr, $count:expr) => {{
        for _ in 0..$n {
            $count += 1;
            let out = word($r, 64) as u64; let used = $r.next();
            let got = go!(Ok::<$t, BitError>(<Echo as HasherBv<$t, K64>>::hash(&Echo(used), &K64(out))));
            let want = format!("Ok({:?})", out as $t);
            if got != want { fail(stringify!($t), "HasherBv::hash", format!("hasher output {:#x}", out), got, want) }
        }
    }};
}
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let a: Vec<String> = std::env::args().collect();
    let what = a[1].as_str();
    let mut r = Rng(a[2].parse::<u64>().unwrap().wrapping_mul(0x9e3779b97f4a7c15) | 1);
    let n: usize = a[3].parse().unwrap();
    let mut count = 0usize;
    if what == "words" {
        laws!(u8, 8, 3, &mut r, 65536, count); laws!(u16, 16, 4, &mut r, n, count); laws!(u32, 32, 5, &mut r, n, count);
        laws!(u64, 64, 6, &mut r, n, count); laws!(u128, 128, 7, &mut r, n, count); laws!(usize, 64, 6, &mut r, n, count);
    } else {
        hasher!(u8, &mut r, n, count); hasher!(u16, &mut r, n, count); hasher!(u32, &mut r, n, count); hasher!(u64, &mut r, n, count);
    }
    println!("CASES {}", count);
}
