// ---- reductions (C12) ----
// R is read through an arbitrary family of additive weights, one per key class: rc(_, x).  The reduction adds them, the
// default has none, and the secondary result of a call for a key has a weight for that key's class only.  (In the free
// commutative monoid over (class, secondary result) every such family exists and together they determine the element;
// the code is generic in R, so what holds there holds for every associative, commutative reduction with neutral default.)
pub uninterp spec fn rc<R>(r: R, x: int) -> int;
pub open spec fn rs<R, RO>(ro: RO) -> bool {
    (forall|x: int| #[trigger] rc(dflt::<R>(), x) == 0)
    && forall|a: R, b: R, x: int| #[trigger] rc(fap2::<RO, R, R, R>(ro, a, b), x) == rc(a, x) + rc(b, x)
}
pub open spec fn mtred<V, R>(r: MapTransformResult<V, R>) -> R {
    match r { MapTransformResult::Unchanged(r) => r, MapTransformResult::Transformed(_, r) => r, MapTransformResult::Removed(r) => r }
}
pub open spec fn mured<S, X, R>(r: MapTransmuteResult<S, X, R>) -> R {
    match r { MapTransmuteResult::Transmuted(_, _, r) => r, MapTransmuteResult::Removed(r) => r }
}
pub open spec fn stred<K: Key, V: Value, R>(res: SNodeTransformResult<K, V, R>) -> R {
    match res { SNodeTransformResult::Unchanged(r) => r, SNodeTransformResult::S(_, r) => r, SNodeTransformResult::Removed(r) => r }
}
pub open spec fn ltred<K: Key, V: Value, R>(res: LNodeTransformResult<K, V, R>) -> R {
    match res { LNodeTransformResult::Unchanged(r) => r, LNodeTransformResult::L(_, r) => r, LNodeTransformResult::S(_, r) => r, LNodeTransformResult::Removed(r) => r }
}
pub open spec fn tred<H: Hashword, F: Flagword<H>, K: Key, V: Value, M, R>(res: MNodeTransformResult<H, F, K, V, M, R>) -> R {
    match res { MNodeTransformResult::Unchanged(r) => r, MNodeTransformResult::C(_, r) => r, MNodeTransformResult::L(_, r) => r, MNodeTransformResult::S(_, r) => r, MNodeTransformResult::Removed(r) => r }
}
/// the operation is generic and the secondary result of a call counts for the class of its key only
pub open spec fn mtloc<K: Key, V, R, F>(op: MapTransform<R, F>) -> bool {
    op is Generic && forall|k: K, v: V, x: int| x != kid(k) ==> #[trigger] rc(mtred(mt::<K, V, R, F>(op, k, v)), x) == 0
}
pub open spec fn muloc<K: Key, V, S, X, R, F>(op: MapTransmute<R, F>) -> bool {
    op is Generic && forall|k: K, v: V, x: int| x != kid(k) ==> #[trigger] rc(mured(mu::<K, V, S, X, R, F>(op, k, v)), x) == 0
}
/// what an entry must contribute
pub open spec fn wt<K: Key, V, R, F>(op: MapTransform<R, F>) -> spec_fn(Ent<K, V>, int) -> int {
    |e: Ent<K, V>, x: int| match e { Some(kv) => rc(mtred(mt::<K, V, R, F>(op, kv.0, kv.1)), x), None => 0 }
}
pub open spec fn wu<K: Key, V, S, X, R, F>(op: MapTransmute<R, F>) -> spec_fn(Ent<K, V>, int) -> int {
    |e: Ent<K, V>, x: int| match e { Some(kv) => rc(mured(mu::<K, V, S, X, R, F>(op, kv.0, kv.1)), x), None => 0 }
}
/// r is what the entries of a list contribute
pub open spec fn rl<K: Key, V: Value, R>(r: R, ok: bool, w: spec_fn(Ent<K, V>, int) -> int, a: LNodeNext<K, V>) -> bool {
    ok ==> forall|x: int| #[trigger] rc(r, x) == w(nfind(a, x), x)
}
/// r is what the entries below a node contribute
pub open spec fn rn<H: Hashword, F: Flagword<H>, K: Key, V: Value, M, R>(r: R, ok: bool, w: spec_fn(Ent<K, V>, int) -> int, n: MNode<H, F, K, V, M>) -> bool {
    ok ==> forall|d: nat, x: int| #![trigger wf(n, d), rc(r, x)] wf(n, d) ==> rc(r, x) == w(look(n, d, x), x)
}
/// r is what the entries in the slots lo..hi of a node contribute
pub open spec fn rp<H: Hashword, F: Flagword<H>, K: Key, V: Value, M, R>(r: R, ok: bool, w: spec_fn(Ent<K, V>, int) -> int, c: CNode<H, F, K, V, M>, lo: nat, hi: nat) -> bool {
    ok ==> forall|d: nat, x: int| #![trigger wf(MNode::C(c), d), rc(r, x)] wf(MNode::C(c), d) ==> rc(r, x) == (if lo <= dg(x, d) < hi { w(look(MNode::C(c), d, x), x) } else { 0 })
}
/// r adds up a and b
pub open spec fn radd<R>(r: R, a: R, b: R, ok: bool) -> bool { ok ==> forall|x: int| #[trigger] rc(r, x) == rc(a, x) + rc(b, x) }
pub open spec fn wz<K, V>(w: spec_fn(Ent<K, V>, int) -> int) -> bool { forall|x: int| #[trigger] w(None::<(K, V)>, x) == 0 }
pub proof fn rl_n<H: Hashword, F: Flagword<H>, K: Key, V: Value, M, R>(a: MNode<H, F, K, V, M>, ok: bool, w: spec_fn(Ent<K, V>, int) -> int)
    ensures match a {
        MNode::L(l) => forall|r: R| #[trigger] rl(r, ok, w, LNodeNext::L(l)) ==> rn(r, ok, w, a),
        MNode::S(l) => forall|r: R| #[trigger] rl(r, ok, w, LNodeNext::S(l)) ==> rn(r, ok, w, a),
        MNode::C(_) => true }
{
    match a {
        MNode::L(l) => { assert forall|r: R| #[trigger] rl(r, ok, w, LNodeNext::L(l)) implies rn(r, ok, w, a) by { assert forall|d: nat, x: int| ok && wf(a, d) implies rc(r, x) == w(look(a, d, x), x) by { look_n::<H, F, K, V, M>(LNodeNext::L(l), d, x); } } },
        MNode::S(l) => { assert forall|r: R| #[trigger] rl(r, ok, w, LNodeNext::S(l)) implies rn(r, ok, w, a) by { assert forall|d: nat, x: int| ok && wf(a, d) implies rc(r, x) == w(look(a, d, x), x) by { look_n::<H, F, K, V, M>(LNodeNext::S(l), d, x); } } },
        MNode::C(_) => {},
    }
}
/// the head of a list and the rest of it
pub proof fn rl_step<K: Key, V: Value, R>(l: Arc<LNode<K, V>>, ok: bool, w: spec_fn(Ent<K, V>, int) -> int)
    requires lwf(*l), wz(w)
    ensures forall|r: R, a: R, b: R| #[trigger] radd(r, a, b, ok) && #[trigger] rl(b, ok, w, l.next) && (ok ==> forall|x: int| #[trigger] rc(a, x) == (if x == kid(l.key) { w(Some((l.key, l.value)), x) } else { 0 })) ==> rl(r, ok, w, LNodeNext::L(l))
{
    lall(l);
}
pub proof fn rp_step<H: Hashword, F: Flagword<H>, K: Key, V: Value, M, R, RO>(c: CNode<H, F, K, V, M>, i: nat, ro: RO, ok: bool, w: spec_fn(Ent<K, V>, int) -> int)
    requires i < wd(), wz(w), ok ==> rs::<R, RO>(ro)
    ensures child(c, i) is None ==> forall|r: R, lo: nat| lo <= i && #[trigger] rp(r, ok, w, c, lo, i) ==> rp(r, ok, w, c, lo, i + 1),
        child(c, i) is Some ==> forall|r: R, s: R, lo: nat| lo <= i && #[trigger] rp(r, ok, w, c, lo, i) && #[trigger] rn(s, ok, w, child(c, i)->0) ==> rp(fap2::<RO, R, R, R>(ro, r, s), ok, w, c, lo, i + 1) && rp(fap2::<RO, R, R, R>(ro, s, r), ok, w, c, lo, i + 1)
{
    let n = MNode::C(c);
    if let Some(m) = child(c, i) {
        assert forall|r: R, s: R, lo: nat| lo <= i && #[trigger] rp(r, ok, w, c, lo, i) && #[trigger] rn(s, ok, w, m) implies rp(fap2::<RO, R, R, R>(ro, r, s), ok, w, c, lo, i + 1) && rp(fap2::<RO, R, R, R>(ro, s, r), ok, w, c, lo, i + 1) by {
            assert forall|d: nat, x: int| ok && #[trigger] wf(n, d) implies #[trigger] rc(r, x) + rc(s, x) == (if lo <= dg(x, d) < i + 1 { w(look(n, d, x), x) } else { 0 }) by {
                at_slot(c, d, i); assert(wf(m, d + 1)); look_c(c, d, x);
                assert(rc(s, x) == w(look(m, d + 1, x), x));
                if dg(x, d) != i { assert(look(m, d + 1, x) is None); }
            }
        }
    } else {
        assert forall|r: R, lo: nat| lo <= i && #[trigger] rp(r, ok, w, c, lo, i) implies rp(r, ok, w, c, lo, i + 1) by {
            assert forall|d: nat, x: int| ok && #[trigger] wf(n, d) implies #[trigger] rc(r, x) == (if lo <= dg(x, d) < i + 1 { w(look(n, d, x), x) } else { 0 }) by { look_c(c, d, x); }
        }
    }
}
pub proof fn rp_fin<H: Hashword, F: Flagword<H>, K: Key, V: Value, M, R, RO>(c: CNode<H, F, K, V, M>, ro: RO, ok: bool, w: spec_fn(Ent<K, V>, int) -> int)
    requires ok ==> rs::<R, RO>(ro)
    ensures forall|i: nat| #[trigger] rp(dflt::<R>(), ok, w, c, i, i),
        forall|r: R| #[trigger] rp(r, ok, w, c, 0, wd()) ==> rn(r, ok, w, MNode::C(c)),
        forall|r: R, s: R, i: nat| i <= wd() && #[trigger] rp(r, ok, w, c, 0, i) && #[trigger] rp(s, ok, w, c, i, wd()) ==> rn(fap2::<RO, R, R, R>(ro, r, s), ok, w, MNode::C(c)) && rn(fap2::<RO, R, R, R>(ro, s, r), ok, w, MNode::C(c))
{
    assert forall|d: nat, x: int| #[trigger] wf(MNode::C(c), d) implies (#[trigger] dg(x, d)) < wd() by { }
}
pub proof fn rl_s<K: Key, V: Value, R, Op>(op: MapTransform<R, Op>, l: Arc<SNode<K, V>>)
    ensures rl(mtred(mt::<K, V, R, Op>(op, l.key, l.value)), mtloc::<K, V, R, Op>(op), wt::<K, V, R, Op>(op), LNodeNext::S(l))
{
    assert forall|x: int| #[trigger] nfind(LNodeNext::S(l), x) == (if kid(l.key) == x { Some((l.key, l.value)) } else { None }) by {}
}
pub proof fn rl_su<K: Key, V: Value, S, X, R, Op>(op: MapTransmute<R, Op>, l: Arc<SNode<K, V>>)
    ensures rl(mured(mu::<K, V, S, X, R, Op>(op, l.key, l.value)), muloc::<K, V, S, X, R, Op>(op), wu::<K, V, S, X, R, Op>(op), LNodeNext::S(l))
{
    assert forall|x: int| #[trigger] nfind(LNodeNext::S(l), x) == (if kid(l.key) == x { Some((l.key, l.value)) } else { None }) by {}
}
pub open spec fn sured<K: Key, V: Value, R>(res: SNodeTransmuteResult<K, V, R>) -> R {
    match res { SNodeTransmuteResult::S(_, r) => r, SNodeTransmuteResult::Removed(r) => r }
}
pub open spec fn lured<K: Key, V: Value, R>(res: LNodeTransmuteResult<K, V, R>) -> R {
    match res { LNodeTransmuteResult::L(_, r) => r, LNodeTransmuteResult::S(_, r) => r, LNodeTransmuteResult::Removed(r) => r }
}
pub open spec fn ured<H: Hashword, F: Flagword<H>, K: Key, V: Value, M, R>(res: MNodeTransmuteResult<H, F, K, V, M, R>) -> R {
    match res { MNodeTransmuteResult::C(_, r) => r, MNodeTransmuteResult::L(_, r) => r, MNodeTransmuteResult::S(_, r) => r, MNodeTransmuteResult::Removed(r) => r }
}
pub open spec fn okt<K: Key, V, R, RO, F>(rop: RO, op: MapTransform<R, F>) -> bool { rs::<R, RO>(rop) && mtloc::<K, V, R, F>(op) }
pub open spec fn okm<K: Key, V, S, X, R, RO, F>(rop: RO, op: MapTransmute<R, F>) -> bool { rs::<R, RO>(rop) && muloc::<K, V, S, X, R, F>(op) }
