/// the entry a trie holds for a key class
pub open spec fn tl<H: Hashword, F: Flagword<H>, K: Key, V: Value, M: HasherBv<H, K>>(t: HashTrie<H, F, K, V, M>, id: int) -> Ent<K, V> { look(t.root, 0, id) }
pub open spec fn twf<H: Hashword, F: Flagword<H>, K: Key, V: Value, M: HasherBv<H, K>>(t: HashTrie<H, F, K, V, M>) -> bool { wf(t.root, 0) }
pub open spec fn tput<H: Hashword, F: Flagword<H>, K: Key, V: Value, M: HasherBv<H, K>>(a: HashTrie<H, F, K, V, M>, b: HashTrie<H, F, K, V, M>, id: int, e: Ent<K, V>) -> bool {
    forall|x: int| #[trigger] tl(b, x) == if x == id { e } else { tl(a, x) }
}

pub open spec fn ttx<H: Hashword, F: Flagword<H>, K: Key, V: Value, M: HasherBv<H, K>, R, Op>(a: HashTrie<H, F, K, V, M>, b: HashTrie<H, F, K, V, M>, op: MapTransform<R, Op>) -> bool {
    forall|x: int| #[trigger] tl(b, x) == tx(op, tl(a, x))
}
pub open spec fn tsame<H: Hashword, F: Flagword<H>, K: Key, V: Value, M: HasherBv<H, K>, R, Op>(a: HashTrie<H, F, K, V, M>, op: MapTransform<R, Op>) -> bool {
    forall|x: int| stays(op, #[trigger] tl(a, x))
}
/// what a visitor logs for each key of a trie
pub open spec fn tvd<H: Hashword, F: Flagword<H>, K: Key, V: Value, M: HasherBv<H, K>, Op: Fn(&K, &V) -> VpLog>(op: Op, t: HashTrie<H, F, K, V, M>) -> spec_fn(int) -> Option<Seq<Ev>> {
    |x: int| vd::<K, V, Op>(op, tl(t, x))
}
pub open spec fn svd<H: Hashword, F: Flagword<H>, K: Key, M: HasherBv<H, K>, Op: Fn(&K) -> VpLog>(op: Op, t: HashTrie<H, F, K, (), M>) -> spec_fn(int) -> Option<Seq<Ev>> {
    |x: int| match tl(t, x) { Some(e) => Some(fap1::<Op, K, VpLog>(op, e.0)@), None => None }
}
/// a closure that does for every entry what op does leaves the log op would
pub proof fn mv_end<H: Hashword, F: Flagword<H>, K: Key, V: Value, M: HasherBv<H, K>, Op: Fn(&K, &V) -> VpLog>(op: Op, t: HashTrie<H, F, K, V, M>, l0: Seq<Ev>, l1: Seq<Ev>)
    ensures forall|d: spec_fn(int) -> Option<Seq<Ev>>| #[trigger] mred(cat(), l0, l1, d) && (forall|x: int| #[trigger] d(x) == tvd::<H, F, K, V, M, Op>(op, t)(x)) ==> mred(cat(), l0, l1, tvd::<H, F, K, V, M, Op>(op, t))
{
    assert forall|d: spec_fn(int) -> Option<Seq<Ev>>| #[trigger] mred(cat(), l0, l1, d) && (forall|x: int| #[trigger] d(x) == tvd::<H, F, K, V, M, Op>(op, t)(x)) implies mred(cat(), l0, l1, tvd::<H, F, K, V, M, Op>(op, t)) by {
        mr_ext(cat(), l0, l1, d, tvd::<H, F, K, V, M, Op>(op, t));
    }
}
pub proof fn sv_end<H: Hashword, F: Flagword<H>, K: Key, M: HasherBv<H, K>, Op: Fn(&K) -> VpLog>(op: Op, t: HashTrie<H, F, K, (), M>, l0: Seq<Ev>, l1: Seq<Ev>)
    ensures forall|d: spec_fn(int) -> Option<Seq<Ev>>| #[trigger] mred(cat(), l0, l1, d) && (forall|x: int| #[trigger] d(x) == svd::<H, F, K, M, Op>(op, t)(x)) ==> mred(cat(), l0, l1, svd::<H, F, K, M, Op>(op, t))
{
    assert forall|d: spec_fn(int) -> Option<Seq<Ev>>| #[trigger] mred(cat(), l0, l1, d) && (forall|x: int| #[trigger] d(x) == svd::<H, F, K, M, Op>(op, t)(x)) implies mred(cat(), l0, l1, svd::<H, F, K, M, Op>(op, t)) by {
        mr_ext(cat(), l0, l1, d, svd::<H, F, K, M, Op>(op, t));
    }
}
