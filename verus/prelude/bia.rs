pub open spec fn slot<F, V>(bits: F, vals: Seq<V>, i: nat) -> Option<V> {
    if hb(bits, i) && rank(bits, i) < vals.len() { Some(vals[rank(bits, i) as int]) } else { None }
}
/// dyn BitIndexedArray: its bits, values and extra, with the contracts BitIndexedArrayImpl is proved to meet (module bia_impl)
#[verifier::external]
pub trait Invariant<B, V, E> {}
#[verifier::external_body]
#[verifier::accept_recursive_types(B)]
#[verifier::accept_recursive_types(V)]
#[verifier::accept_recursive_types(E)]
pub struct DynMark<B, V, E> { p: core::marker::PhantomData<dyn Invariant<B, V, E>> }
pub struct DynBia<B, V, E> { pub bits: B, pub values: Vec<V>, pub extra: E, pub mark: DynMark<B, V, E> }
pub open spec fn bok<B, V, E>(b: DynBia<B, V, E>) -> bool { rank(b.bits, wd()) == b.values@.len() }
pub trait BitWord: Sized {}
impl<B, V, E> DynBia<B, V, E> {
    pub open spec fn at_spec(self, i: nat) -> Option<V> { slot(self.bits, self.values@, i) }
    #[verifier::external_body]
    pub fn bits(&self) -> (res: B) ensures res == self.bits { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (res: usize) ensures res == self.values@.len() { unimplemented!() }
    #[verifier::external_body]
    pub fn values(&self) -> (res: &[V]) ensures res@ == self.values@ { unimplemented!() }
    #[verifier::external_body]
    pub fn extra(&self) -> (res: &E) ensures *res == self.extra { unimplemented!() }
    #[verifier::external_body]
    pub fn at(&self, bit: B) -> (res: Result<&V, BitError>)
        ensures bok(*self) && bpos(bit) is Some ==> (match self.at_spec(bpos(bit)->0) { Some(v) => res is Ok && *res->Ok_0 == v, None => res is Err })
    { unimplemented!() }
    #[verifier::external_body]
    pub fn at_bit_index(&self, index: usize) -> (res: Result<&V, BitError>)
        requires bok(*self)
        ensures match self.at_spec(index as nat) { Some(v) => res is Ok && *res->Ok_0 == v, None => res is Err }
    { unimplemented!() }
    #[verifier::external_body]
    pub fn inserted(&self, bit: B, value: Cow<V>, extra: Cow<E>) -> (res: Result<Box<DynBia<B, V, E>>, BitError>)
        requires bok(*self)
        ensures bpos(bit) is Some && !hb(self.bits, bpos(bit)->0) ==> res is Ok && bok(*res->Ok_0) && ins(self.bits, bpos(bit)->0, res->Ok_0.bits)
            && res->Ok_0.values@ == self.values@.insert(rank(self.bits, bpos(bit)->0) as int, value.val()) && res->Ok_0.extra == extra.val()
    { unimplemented!() }
    #[verifier::external_body]
    pub fn updated(&self, bit: B, value: Cow<V>, extra: Cow<E>) -> (res: Result<Box<DynBia<B, V, E>>, BitError>)
        requires bok(*self)
        ensures bpos(bit) is Some && hb(self.bits, bpos(bit)->0) ==> res is Ok && bok(*res->Ok_0) && res->Ok_0.bits == self.bits
            && res->Ok_0.values@ == self.values@.update(rank(self.bits, bpos(bit)->0) as int, value.val()) && res->Ok_0.extra == extra.val()
    { unimplemented!() }
    #[verifier::external_body]
    pub fn removed(&self, bit: B, extra: Cow<E>) -> (res: Result<Box<DynBia<B, V, E>>, BitError>)
        requires bok(*self)
        ensures bpos(bit) is Some && hb(self.bits, bpos(bit)->0) ==> res is Ok && bok(*res->Ok_0) && rem(self.bits, bpos(bit)->0, res->Ok_0.bits)
            && res->Ok_0.values@ == self.values@.remove(rank(self.bits, bpos(bit)->0) as int) && res->Ok_0.extra == extra.val()
    { unimplemented!() }
}
pub struct BitIndexedArrayVec<'a, V> { pub values: &'a [V] }
impl<'a, V> BitIndexedArrayVec<'a, V> {
    pub fn new(values: &'a [V]) -> (res: Self) ensures res.values == values { BitIndexedArrayVec { values } }
}
#[verifier::external_body]
pub fn default_bit_indexed_array<B, V, E>() -> (res: Box<DynBia<B, V, E>>)
    ensures none(res.bits), res.values@.len() == 0, bok(*res), res.extra == dflt::<E>()
{ unimplemented!() }
#[verifier::external_body]
pub fn new_bit_indexed_array<'a, B, V, E>(bits: B, values: BitIndexedArrayVec<'a, V>, extra: E) -> (res: Result<Box<DynBia<B, V, E>>, BitError>)
    ensures rank(bits, wd()) == values.values@.len() ==> res is Ok && res->Ok_0.bits == bits && res->Ok_0.values@ == values.values@ && res->Ok_0.extra == extra && bok(*res->Ok_0)
{ unimplemented!() }

#[verifier::external_body]
pub fn vp_iter<'a, B, V, E>(b: &'a DynBia<B, V, E>) -> (res: &'a [V]) ensures res@ == b.values@ { unimplemented!() }
