// the key, hash and flag words: one fixed, arbitrary choice of them
pub uninterp spec fn kid<K>(k: K) -> int;          // the key's equality class
pub uninterp spec fn hid(id: int) -> int;          // the hash value of a key
pub uninterp spec fn hv<H>(h: H) -> int;           // the value of a hash word
pub uninterp spec fn hdg(h: int, d: nat) -> nat;   // its digit at a depth
pub uninterp spec fn lv() -> nat;                  // how many digits it has
pub uninterp spec fn wd() -> nat;                  // the width of a flag word
pub uninterp spec fn hb<F>(f: F, i: nat) -> bool; // bit i is set
pub open spec fn dg(id: int, d: nat) -> nat { hdg(hid(id), d) }
pub open spec fn one<F>(f: F, i: nat) -> bool { i < wd() && forall|j: nat| #[trigger] hb(f, j) <==> j == i }
pub open spec fn none<F>(f: F) -> bool { forall|j: nat| !(#[trigger] hb(f, j)) }
pub uninterp spec fn bpos<F>(f: F) -> Option<nat>; // the one bit that is set
pub open spec fn ins<F>(f: F, i: nat, r: F) -> bool { forall|j: nat| #[trigger] hb(r, j) <==> (j == i || hb(f, j)) }
pub open spec fn rem<F>(f: F, i: nat, r: F) -> bool { forall|j: nat| #[trigger] hb(r, j) <==> (j != i && hb(f, j)) }
pub open spec fn mrg<F>(a: F, b: F, r: F) -> bool { forall|j: nat| #[trigger] hb(r, j) <==> (hb(a, j) || hb(b, j)) }
pub open spec fn rank<F>(f: F, i: nat) -> nat decreases i {
    if i == 0 { 0 } else { rank(f, (i - 1) as nat) + if hb(f, (i - 1) as nat) { 1nat } else { 0nat } }
}


pub trait HWord: PartialEq + Sized {}
pub trait FWord: PartialEq + Sized {}
pub trait Hashword: HWord {}
pub trait Key: PartialEq + Sized {}
pub trait Value: Sized {}
impl Value for () {}

// contracts discharged by the Kani harnesses w*_* for u8, u16, u32, u64, u128, usize
pub trait Flagword<H>: FWord {
    fn bit_contains(&self, bit: Self) -> (r: Result<bool, BitError>)
        ensures bpos(bit) is Some ==> r == Ok::<bool, BitError>(hb(*self, bpos(bit)->0)), bpos(bit) is None ==> r is Err;
    fn bit_index(&self, bit: Self) -> (r: Result<usize, BitError>)
        ensures bpos(bit) is Some && hb(*self, bpos(bit)->0) ==> r is Ok && r->Ok_0 == rank(*self, bpos(bit)->0),
            bpos(bit) is None || !hb(*self, bpos(bit)->0) ==> r is Err;
    fn bit_insert(&self, bit: Self) -> (r: Result<Self, BitError>)
        ensures bpos(bit) is Some && !hb(*self, bpos(bit)->0) ==> r is Ok && ins(*self, bpos(bit)->0, r->Ok_0),
            bpos(bit) is None || hb(*self, bpos(bit)->0) ==> r is Err;
    fn bit_remove(&self, bit: Self) -> (r: Result<Self, BitError>)
        ensures bpos(bit) is Some && hb(*self, bpos(bit)->0) ==> r is Ok && rem(*self, bpos(bit)->0, r->Ok_0),
            bpos(bit) is None || !hb(*self, bpos(bit)->0) ==> r is Err;
    fn bit_merge(&self, bits: Self) -> (r: Result<Self, BitError>)
        ensures (forall|j: nat| !(#[trigger] hb(*self, j) && hb(bits, j))) ==> r is Ok && mrg(*self, bits, r->Ok_0),
            (exists|j: nat| #[trigger] hb(*self, j) && hb(bits, j)) ==> r is Err;
    fn count_ones_t(&self) -> (r: usize) ensures r == rank(*self, wd());
    fn max_ones() -> (r: usize) ensures r == wd();
    fn nth_bit(n: usize) -> (r: Result<Self, BitError>)
        ensures n < wd() ==> r is Ok && bpos(r->Ok_0) == Some(n as nat), n >= wd() ==> r is Err;
}

// the hash of a key depends on its equality class only (assumed of the user's Hash, as std does)
pub trait HasherBv<B, V>: Sized {
    fn hash(&self, value: &V) -> (r: B) ensures hv(r) == hid(kid(*value));
}

pub broadcast axiom fn ax_has<F>(f: F, i: nat) ensures #[trigger] hb(f, i) ==> i < wd();
pub broadcast axiom fn ax_wd() ensures #[trigger] wd() > 1, wd() <= 128;
pub broadcast axiom fn ax_lv() ensures #[trigger] lv() > 0, lv() <= 128;
pub broadcast axiom fn ax_hdg(h: int, d: nat) ensures #[trigger] hdg(h, d) < wd();
pub broadcast axiom fn ax_bpos<F>(f: F) ensures (#[trigger] bpos(f)) is Some ==> one(f, bpos(f)->0);
pub axiom fn ax_ext<F>(a: F, b: F) ensures (forall|j: nat| hb(a, j) == hb(b, j)) ==> a == b;
pub broadcast axiom fn ax_bpos_eq<F>(a: F, b: F) ensures (#[trigger] bpos(a)) is Some && bpos(a) == (#[trigger] bpos(b)) ==> a == b;
pub broadcast axiom fn ax_dflt<F: FWord>(i: nat) ensures !(#[trigger] hb(dflt::<F>(), i));
// two hash words with the same digits are the same (Kani: f_*digits_determine_hash)
pub axiom fn ax_hash(a: int, b: int) ensures (forall|d: nat| d < lv() ==> #[trigger] hdg(a, d) == hdg(b, d)) ==> a == b;
pub broadcast axiom fn ax_hv<H: HWord>(a: H, b: H) ensures (#[trigger] hv(a) == #[trigger] hv(b)) ==> a == b;
// == on keys and on words
pub broadcast axiom fn ax_key_eq<K: Key + PartialEq<L>, L: Key>(a: K, b: L)
    ensures <K as PartialEqSpec<L>>::obeys_eq_spec(), #[trigger] a.eq_spec(&b) == (kid(a) == kid(b));
pub broadcast axiom fn ax_key_obeys<K: Key + PartialEq<L>, L: Key>()
    ensures #[trigger] <K as PartialEqSpec<L>>::obeys_eq_spec();
pub broadcast axiom fn ax_h_obeys<H: HWord>() ensures #[trigger] <H as PartialEqSpec<H>>::obeys_eq_spec();
pub broadcast axiom fn ax_h_eq<H: HWord>(a: H, b: H) ensures #[trigger] a.eq_spec(&b) == (a == b);
pub broadcast axiom fn ax_f_obeys<F: FWord>() ensures #[trigger] <F as PartialEqSpec<F>>::obeys_eq_spec();
pub broadcast axiom fn ax_f_eq<F: FWord>(a: F, b: F) ensures #[trigger] a.eq_spec(&b) == (a == b);
// Into between key types keeps the equality class
pub broadcast axiom fn ax_key_into<L: Key + VpInto<K>, K: Key>(l: L, k: K) ensures #[trigger] l.into_rel(k) ==> kid(l) == kid(k);
pub broadcast group group_traits { ax_has, ax_wd, ax_lv, ax_hdg, ax_bpos, ax_bpos_eq, ax_dflt, ax_hv, ax_key_eq, ax_key_obeys, ax_h_obeys, ax_h_eq, ax_f_obeys, ax_f_eq, ax_key_into, ax_dflt_usize }
pub broadcast axiom fn ax_dflt_usize() ensures #[trigger] dflt::<usize>() == 0;
