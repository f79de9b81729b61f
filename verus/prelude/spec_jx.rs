
// ---- operations on two maps ----
pub uninterp spec fn fap4<F, A, B, C, D, R>(f: F, a: A, b: B, c: C, d: D) -> R;
pub open spec fn fap4r<F, A, B, C, D, R>(f: &F, a: &A, b: &B, c: &C, d: &D) -> R { fap4(*f, *a, *b, *c, *d) }
pub open spec fn pure4<A, B, C, D, R, F: Fn(&A, &B, &C, &D) -> R>(f: F) -> bool {
    (forall|a: &A, b: &B, c: &C, d: &D| #[trigger] f.requires((a, b, c, d)))
    && (forall|a: &A, b: &B, c: &C, d: &D, r: R| #[trigger] f.ensures((a, b, c, d), r) ==> r == fap4::<F, A, B, C, D, R>(f, *a, *b, *c, *d))
}
/// a closure that may be called has an outcome (fap4 names it)
pub axiom fn ax_call4<A, B, C, D, R, F: Fn(&A, &B, &C, &D) -> R>(f: F)
    ensures forall|a: &A, b: &B, c: &C, d: &D| #[trigger] f.requires((a, b, c, d)) ==> f.ensures((a, b, c, d), fap4::<F, A, B, C, D, R>(f, *a, *b, *c, *d));
pub open spec fn muok4<K, V, L, W, S, X, R, F: Fn(&K, &V, &L, &W) -> MapTransmuteResult<S, X, R>>(op: MapTransmute<R, F>) -> bool {
    op is Generic ==> pure4::<K, V, L, W, MapTransmuteResult<S, X, R>, F>(op->Generic_0)
}
pub open spec fn mu4<K, V, L, W, S, X, R, F>(op: MapTransmute<R, F>, k: K, v: V, l: L, w: W) -> MapTransmuteResult<S, X, R> {
    match op { MapTransmute::Generic(f) => fap4(f, k, v, l, w), MapTransmute::Removed(r) => MapTransmuteResult::Removed(r) }
}
pub open spec fn mukey4<K, V, L, W, S, X, R, F>(op: MapTransmute<R, F>) -> bool {
    forall|k: K, v: V, l: L, w: W| kid(k) == kid(l) ==> match #[trigger] mu4::<K, V, L, W, S, X, R, F>(op, k, v, l, w) { MapTransmuteResult::Transmuted(s, x, _) => kid(s) == kid(k), MapTransmuteResult::Removed(_) => true }
}
pub open spec fn uflip<K, V, L, W, S, X, R, F, G>(op: MapTransmute<R, F>, po: MapTransmute<R, G>) -> bool {
    forall|k: K, v: V, l: L, w: W| #[trigger] mu4::<L, W, K, V, S, X, R, G>(po, l, w, k, v) == mu4::<K, V, L, W, S, X, R, F>(op, k, v, l, w)
}
pub broadcast proof fn uflip_key<K, V, L, W, S, X, R, F, G>(op: MapTransmute<R, F>, po: MapTransmute<R, G>)
    requires #[trigger] uflip::<K, V, L, W, S, X, R, F, G>(op, po), mukey4::<K, V, L, W, S, X, R, F>(op)
    ensures mukey4::<L, W, K, V, S, X, R, G>(po)
{
    assert forall|k: K, v: V, l: L, w: W| kid(k) == kid(l) implies match #[trigger] mu4::<L, W, K, V, S, X, R, G>(po, l, w, k, v) { MapTransmuteResult::Transmuted(s, x, _) => kid(s) == kid(k), MapTransmuteResult::Removed(_) => true } by {
        let r = mu4::<K, V, L, W, S, X, R, F>(op, k, v, l, w);
    }
}
/// what the operations decide for a key, from the entries for it on both sides
pub open spec fn jux<K, V, L, W, S, X, R, FB, FL, FR>(bo: MapTransmute<R, FB>, lo: MapTransmute<R, FL>, ro: MapTransmute<R, FR>, e: Ent<K, V>, f: Ent<L, W>) -> Ent<S, X> {
    match e {
        Some(a) => match f { Some(b) => mur(mu4::<K, V, L, W, S, X, R, FB>(bo, a.0, a.1, b.0, b.1)), None => ux::<K, V, S, X, R, FL>(lo, e) },
        None => ux::<L, W, S, X, R, FR>(ro, f),
    }
}
pub type Jr<K, V, L, W, S, X> = spec_fn(Ent<K, V>, Ent<L, W>, Ent<S, X>) -> bool;
pub open spec fn ju<K, V, L, W, S, X, R, FB, FL, FR>(bo: MapTransmute<R, FB>, lo: MapTransmute<R, FL>, ro: MapTransmute<R, FR>) -> Jr<K, V, L, W, S, X> {
    |e: Ent<K, V>, f: Ent<L, W>, r: Ent<S, X>| r == jux::<K, V, L, W, S, X, R, FB, FL, FR>(bo, lo, ro, e, f)
}
/// no entry on either side: no entry
pub open spec fn jnone<K, V, L, W, S, X>(j: Jr<K, V, L, W, S, X>) -> bool { forall|r: Ent<S, X>| #[trigger] j(None, None, r) <==> r is None }
pub open spec fn jat<H: Hashword, F: Flagword<H>, K: Key, V: Value, L: Key, W: Value, S: Key, X: Value, M>(n: Option<MNode<H, F, S, X, M>>, a: Option<MNode<H, F, K, V, M>>, b: Option<MNode<H, F, L, W, M>>, d: nat, j: Jr<K, V, L, W, S, X>, x: int) -> bool {
    j(olook(a, d, x), olook(b, d, x), olook(n, d, x))
}
/// n is what an operation on a and b at depth d may give
pub open spec fn jd<H: Hashword, F: Flagword<H>, K: Key, V: Value, L: Key, W: Value, S: Key, X: Value, M>(n: Option<MNode<H, F, S, X, M>>, a: Option<MNode<H, F, K, V, M>>, b: Option<MNode<H, F, L, W, M>>, d: nat, j: Jr<K, V, L, W, S, X>) -> bool {
    (match n { Some(m) => wf(m, d) && sz(m) > 0, None => true }) && osz(n) <= osz(a) + osz(b)
    && forall|x: int| #[trigger] jat(n, a, b, d, j, x)
}
/// the digits above d of all keys of both agree
pub open spec fn pm2<H: Hashword, F: Flagword<H>, K: Key, V: Value, L: Key, W: Value, M>(a: MNode<H, F, K, V, M>, b: MNode<H, F, L, W, M>, d: nat) -> bool {
    forall|x: int, y: int, i: nat| (#[trigger] look(a, d, x)) is Some && (#[trigger] look(b, d, y)) is Some && i < d ==> #[trigger] dg(x, i) == dg(y, i)
}
pub open spec fn jpre<H: Hashword, F: Flagword<H>, K: Key, V: Value, L: Key, W: Value, M>(a: MNode<H, F, K, V, M>, b: MNode<H, F, L, W, M>, d: nat) -> bool {
    wf(a, d) && wf(b, d) && pm2(a, b, d) && sz(a) + sz(b) <= cap()
}
pub open spec fn lid<K: Key, V: Value>(l: Arc<LNode<K, V>>) -> int { kid(l.key) }
pub open spec fn sid<K: Key, V: Value>(s: Arc<SNode<K, V>>) -> int { kid(s.key) }
/// the hash of the keys of a leaf
pub open spec fn nh<H: Hashword, F: Flagword<H>, K: Key, V: Value, M>(n: MNode<H, F, K, V, M>) -> int {
    match n { MNode::C(_) => 0, MNode::L(l) => hid(kid(l.key)), MNode::S(s) => hid(kid(s.key)) }
}
/// the part of a node that belongs in slot j of a branch at depth d
pub open spec fn kd<H: Hashword, F: Flagword<H>, K: Key, V: Value, M>(n: MNode<H, F, K, V, M>, d: nat, j: nat) -> Option<MNode<H, F, K, V, M>> {
    match n { MNode::C(c) => child(c, j), _ => if hdg(nh(n), d) == j { Some(n) } else { None } }
}
pub proof fn nh_all<H: Hashword, F: Flagword<H>, K: Key, V: Value, M>(n: MNode<H, F, K, V, M>, d: nat)
    requires wf(n, d), !(n is C) ensures forall|x: int| (#[trigger] look(n, d, x)) is Some ==> hid(x) == nh(n), sz(n) > 0,
        look(n, d, match n { MNode::L(l) => kid(l.key), MNode::S(s) => kid(s.key), MNode::C(_) => 0 }) is Some
{
    match n {
        MNode::L(l) => { lall(l); lsz(l);
            assert(lwf(*l));
            assert forall|x: int| (#[trigger] look(n, d, x)) is Some implies hid(x) == nh(n) by { look_l::<H, F, K, V, M>(l, d, x); lfind_n(l, x); assert(nfind(LNodeNext::L(l), x) is Some); }
            let k = lid(l); look_l::<H, F, K, V, M>(l, d, k); lfind_n(l, k); assert(nfind(LNodeNext::L(l), k) is Some); },
        MNode::S(s) => { let k = sid(s); look_s::<H, F, K, V, M>(s, d, k); sfind_n(s, k);
            assert forall|x: int| (#[trigger] look(n, d, x)) is Some implies hid(x) == nh(n) by { look_s::<H, F, K, V, M>(s, d, x); } },
        MNode::C(c) => {},
    }
}
pub proof fn at_kd<H: Hashword, F: Flagword<H>, K: Key, V: Value, M>(n: MNode<H, F, K, V, M>, d: nat, j: nat)
    requires wf(n, d), j < wd()
    ensures match kd(n, d, j) { Some(m) => wf(m, d + 1) && sz(m) > 0 && inslot(m, d, j), None => true },
        forall|x: int| dg(x, d) == j ==> #[trigger] look(n, d, x) == olook(kd(n, d, j), d + 1, x),
        forall|x: int| #![trigger olook(kd(n, d, j), d + 1, x)] dg(x, d) == j ==> look(n, d, x) == olook(kd(n, d, j), d + 1, x),
        forall|x: int| dg(x, d) != j ==> (#[trigger] olook(kd(n, d, j), d + 1, x)) is None
{
    match n {
        MNode::C(c) => {
            wf_c1(c, d); at_slot(c, d, j);
            assert forall|x: int| dg(x, d) == j implies #[trigger] look(n, d, x) == olook(kd(n, d, j), d + 1, x) by { look_c(c, d, x); }
            assert forall|x: int| #![trigger olook(kd(n, d, j), d + 1, x)] dg(x, d) == j implies look(n, d, x) == olook(kd(n, d, j), d + 1, x) by { look_c(c, d, x); }
        },
        _ => {
            nh_all(n, d);
            assert forall|x: int| look(n, d, x) == #[trigger] look(n, d + 1, x) by { leaf_any(n, d, x); leaf_any(n, d + 1, x); }
            assert(wf(n, d + 1));
        },
    }
}
pub open spec fn ksum<H: Hashword, F: Flagword<H>, K: Key, V: Value, M>(n: MNode<H, F, K, V, M>, d: nat, i: nat) -> nat decreases i {
    if i == 0 { 0 } else { ksum(n, d, (i - 1) as nat) + osz(kd(n, d, (i - 1) as nat)) }
}
pub proof fn ksum_c<H: Hashword, F: Flagword<H>, K: Key, V: Value, M>(c: CNode<H, F, K, V, M>, d: nat, i: nat) ensures ksum(MNode::C(c), d, i) == rsum(cb(c), cv(c), i) decreases i
{ if i > 0 { ksum_c(c, d, (i - 1) as nat); } }
pub proof fn ksum_leaf<H: Hashword, F: Flagword<H>, K: Key, V: Value, M>(n: MNode<H, F, K, V, M>, d: nat, i: nat) requires !(n is C) ensures ksum(n, d, i) == if hdg(nh(n), d) < i { sz(n) } else { 0 } decreases i
{ if i > 0 { ksum_leaf(n, d, (i - 1) as nat); } }
pub proof fn ksum_mono<H: Hashword, F: Flagword<H>, K: Key, V: Value, M>(n: MNode<H, F, K, V, M>, d: nat, i: nat, k: nat) requires i <= k ensures ksum(n, d, i) <= ksum(n, d, k) decreases k
{ if i < k { ksum_mono(n, d, i, (k - 1) as nat); } }
pub proof fn ksum_all<H: Hashword, F: Flagword<H>, K: Key, V: Value, M>(n: MNode<H, F, K, V, M>, d: nat, i: nat)
    requires wf(n, d), i < wd()
    ensures ksum(n, d, wd()) == sz(n), ksum(n, d, i + 1) == ksum(n, d, i) + osz(kd(n, d, i)), ksum(n, d, i + 1) <= sz(n)
{
    match n { MNode::C(c) => { wf_c1(c, d); ksum_c(c, d, wd()); rsum_all(cb(c), cv(c)); }, _ => { ksum_leaf(n, d, wd()); ax_hdg(nh(n), d); } }
    ksum_mono(n, d, i + 1, wd());
}
pub open spec fn jb<H: Hashword, F: Flagword<H>, K: Key, V: Value, L: Key, W: Value, M>(a: MNode<H, F, K, V, M>, b: MNode<H, F, L, W, M>, d: nat, i: nat) -> nat { ksum(a, d, i) + ksum(b, d, i) }
pub open spec fn jslot<H: Hashword, F: Flagword<H>, K: Key, V: Value, L: Key, W: Value, S: Key, X: Value, M>(a: MNode<H, F, K, V, M>, b: MNode<H, F, L, W, M>, d: nat, j: Jr<K, V, L, W, S, X>, i: nat, s: Option<MNode<H, F, S, X, M>>) -> bool {
    chok(s, d, i) && osz(s) <= osz(kd(a, d, i)) + osz(kd(b, d, i))
    && forall|x: int| dg(x, d) == i ==> j(look(a, d, x), look(b, d, x), #[trigger] olook(s, d + 1, x))
}
pub open spec fn js<H: Hashword, F: Flagword<H>, K: Key, V: Value, L: Key, W: Value, S: Key, X: Value, M>(a: MNode<H, F, K, V, M>, b: MNode<H, F, L, W, M>, d: nat, j: Jr<K, V, L, W, S, X>) -> spec_fn(nat, Option<MNode<H, F, S, X, M>>) -> bool {
    |i: nat, s: Option<MNode<H, F, S, X, M>>| jslot(a, b, d, j, i, s)
}
pub open spec fn jpart<H: Hashword, F: Flagword<H>, K: Key, V: Value, L: Key, W: Value, S: Key, X: Value, M>(size: usize, b: F, s: Seq<MNode<H, F, S, X, M>>, na: MNode<H, F, K, V, M>, nb: MNode<H, F, L, W, M>, d: nat, j: Jr<K, V, L, W, S, X>, lo: nat, hi: nat) -> bool {
    acc(b, s, lo, hi, js(na, nb, d, j)) && size == ssum(s) && size + jb(na, nb, d, lo) <= jb(na, nb, d, hi)
}
/// what is known about slot i of both sides
pub open spec fn jkid<H: Hashword, F: Flagword<H>, K: Key, V: Value, L: Key, W: Value, M>(a: MNode<H, F, K, V, M>, b: MNode<H, F, L, W, M>, d: nat, i: nat) -> bool {
    (kd(a, d, i) is Some ==> wf(kd(a, d, i)->0, d + 1) && wfx(kd(a, d, i)->0) && sz(kd(a, d, i)->0) > 0)
    && (kd(b, d, i) is Some ==> wf(kd(b, d, i)->0, d + 1) && wfx(kd(b, d, i)->0) && sz(kd(b, d, i)->0) > 0)
    && (kd(a, d, i) is Some && kd(b, d, i) is Some ==> jpre(kd(a, d, i)->0, kd(b, d, i)->0, d + 1))
}
pub proof fn j_kid<H: Hashword, F: Flagword<H>, K: Key, V: Value, L: Key, W: Value, M>(a: MNode<H, F, K, V, M>, b: MNode<H, F, L, W, M>, d: nat, i: nat)
    requires jpre(a, b, d), i < wd() ensures jkid(a, b, d, i)
{
    at_kd(a, d, i); at_kd(b, d, i); ksum_all(a, d, i); ksum_all(b, d, i);
    if kd(a, d, i) is Some && kd(b, d, i) is Some {
        let m = kd(a, d, i)->0; let n = kd(b, d, i)->0;
        assert forall|x: int, y: int, k: nat| (#[trigger] look(m, d + 1, x)) is Some && (#[trigger] look(n, d + 1, y)) is Some && k < d + 1 implies #[trigger] dg(x, k) == dg(y, k) by {
            assert(olook(kd(a, d, i), d + 1, x) is Some); assert(olook(kd(b, d, i), d + 1, y) is Some);
            assert(dg(x, d) == i && dg(y, d) == i);
            if k < d { assert(look(a, d, x) is Some); assert(look(b, d, y) is Some); }
        }
    }
}
/// a result for the parts in slot i is a slot of the result
pub proof fn j_slot<H: Hashword, F: Flagword<H>, K: Key, V: Value, L: Key, W: Value, S: Key, X: Value, M>(a: MNode<H, F, K, V, M>, b: MNode<H, F, L, W, M>, d: nat, j: Jr<K, V, L, W, S, X>, i: nat)
    requires wf(a, d), wf(b, d), i < wd(), jnone(j)
    ensures forall|n: Option<MNode<H, F, S, X, M>>, e: nat| #[trigger] jd(n, kd(a, d, i), kd(b, d, i), e, j) && e == d + 1 ==> jslot(a, b, d, j, i, n),
        kd(a, d, i) is None && kd(b, d, i) is None ==> jslot(a, b, d, j, i, None::<MNode<H, F, S, X, M>>)
{
    at_kd(a, d, i); at_kd(b, d, i);
    assert forall|n: Option<MNode<H, F, S, X, M>>, e: nat| #[trigger] jd(n, kd(a, d, i), kd(b, d, i), e, j) && e == d + 1 implies jslot(a, b, d, j, i, n) by {
        assert forall|x: int| dg(x, d) == i implies j(look(a, d, x), look(b, d, x), #[trigger] olook(n, d + 1, x)) by { assert(jat(n, kd(a, d, i), kd(b, d, i), d + 1, j, x)); }
        if let Some(m) = n { assert forall|x: int| (#[trigger] look(m, d + 1, x)) is Some implies dg(x, d) == i by { assert(jat(n, kd(a, d, i), kd(b, d, i), d + 1, j, x)); assert(olook(n, d + 1, x) is Some); } }
    }
    if kd(a, d, i) is None && kd(b, d, i) is None {
        assert forall|x: int| dg(x, d) == i implies j(look(a, d, x), look(b, d, x), #[trigger] olook(None::<MNode<H, F, S, X, M>>, d + 1, x)) by { }
    }
}
/// what was built slot by slot is a result
pub proof fn j_built<H: Hashword, F: Flagword<H>, K: Key, V: Value, L: Key, W: Value, S: Key, X: Value, M>(size: usize, b: F, s: Seq<MNode<H, F, S, X, M>>, na: MNode<H, F, K, V, M>, nb: MNode<H, F, L, W, M>, d: nat, j: Jr<K, V, L, W, S, X>, n: Option<MNode<H, F, S, X, M>>)
    requires wf(na, d), wf(nb, d), jnone(j), jpart(size, b, s, na, nb, d, j, 0, wd()), built(b, s, n), d < lv()
    ensures jd(n, Some(na), Some(nb), d, j)
{
    let p = js::<H, F, K, V, L, W, S, X, M>(na, nb, d, j);
    let g: spec_fn(int) -> Ent<S, X> = |x: int| olook(slot(b, s, dg(x, d)), d + 1, x);
    assert forall|i: nat| 0 <= i < wd() implies rzp(d, g)(i, #[trigger] slot(b, s, i)) by {
        assert(p(i, slot(b, s, i)));
        assert forall|x: int| dg(x, d) == i implies #[trigger] olook(slot(b, s, i), d + 1, x) == g(x) by { }
    }
    assert(acc(b, s, 0, wd(), rzp(d, g)));
    acc_fin(b, s, d, g);
    assert forall|x: int| j(look(na, d, x), look(nb, d, x), #[trigger] g(x)) by { let i = dg(x, d); assert(p(i, slot(b, s, i))); assert(olook(slot(b, s, i), d + 1, x) == g(x)); }
    ksum_all(na, d, 0); ksum_all(nb, d, 0);
    if let Some(m) = n {
        assert(fin(b, s, d, m)); if s.len() == 1 { assert(s.drop_last() =~= seq![]); reveal_with_fuel(ssum, 2); }
        assert forall|x: int| #[trigger] jat(n, Some(na), Some(nb), d, j, x) by { assert(look(m, d, x) == g(x)); assert(j(look(na, d, x), look(nb, d, x), g(x))); }
    } else {
        assert forall|x: int| #[trigger] jat(n, Some(na), Some(nb), d, j, x) by { assert(g(x) is None); assert(j(look(na, d, x), look(nb, d, x), g(x))); }
    }
}
// ---- leaves ----
pub open spec fn onf<K: Key, V: Value>(n: Option<LNodeNext<K, V>>, x: int) -> Ent<K, V> { match n { Some(n) => nfind(n, x), None => None } }
pub open spec fn onz<K: Key, V: Value>(n: Option<LNodeNext<K, V>>) -> nat { match n { Some(n) => nsz(n), None => 0 } }
pub open spec fn omn<H: Hashword, F: Flagword<H>, K: Key, V: Value, M>(n: Option<LNodeNext<K, V>>) -> Option<MNode<H, F, K, V, M>> { match n { Some(n) => Some(from_next(n)), None => None } }
pub open spec fn ljat<K: Key, V: Value, L: Key, W: Value, S: Key, X: Value>(n: Option<LNodeNext<S, X>>, a: LNodeNext<K, V>, b: LNodeNext<L, W>, j: Jr<K, V, L, W, S, X>, x: int) -> bool {
    j(nfind(a, x), nfind(b, x), onf(n, x))
}
pub open spec fn lj<K: Key, V: Value, L: Key, W: Value, S: Key, X: Value>(n: Option<LNodeNext<S, X>>, a: LNodeNext<K, V>, b: LNodeNext<L, W>, j: Jr<K, V, L, W, S, X>) -> bool {
    (match n { Some(m) => nwf(m) && nsz(m) > 0, None => true }) && onz(n) <= nsz(a) + nsz(b) && forall|x: int| #[trigger] ljat(n, a, b, j, x)
}
pub proof fn lj_m<H: Hashword, F: Flagword<H>, K: Key, V: Value, L: Key, W: Value, S: Key, X: Value, M>(n: Option<LNodeNext<S, X>>, a: LNodeNext<K, V>, b: LNodeNext<L, W>, d: nat, j: Jr<K, V, L, W, S, X>)
    requires lj(n, a, b, j) ensures jd(omn::<H, F, S, X, M>(n), Some(from_next::<H, F, K, V, M>(a)), Some(from_next::<H, F, L, W, M>(b)), d, j)
{
    let m = omn::<H, F, S, X, M>(n); let ma = from_next::<H, F, K, V, M>(a); let mb = from_next::<H, F, L, W, M>(b);
    assert forall|x: int| #[trigger] jat(m, Some(ma), Some(mb), d, j, x) by {
        assert(ljat(n, a, b, j, x)); look_n::<H, F, K, V, M>(a, d, x); look_n::<H, F, L, W, M>(b, d, x);
        if let Some(q) = n { look_n::<H, F, S, X, M>(q, d, x); }
    }
}
pub proof fn lj_u<H: Hashword, F: Flagword<H>, K: Key, V: Value, L: Key, W: Value, S: Key, X: Value, M, R>(a: LNodeNext<K, V>, b: LNodeNext<L, W>, d: nat, j: Jr<K, V, L, W, S, X>)
    ensures forall|r: LNodeTransmuteResult<S, X, R>| #[trigger] lj(lunode(r), a, b, j) ==> jd(unode(from_lu::<H, F, S, X, M, R>(r)), Some(from_next::<H, F, K, V, M>(a)), Some(from_next::<H, F, L, W, M>(b)), d, j)
{
    assert forall|r: LNodeTransmuteResult<S, X, R>| #[trigger] lj(lunode(r), a, b, j) implies jd(unode(from_lu::<H, F, S, X, M, R>(r)), Some(from_next::<H, F, K, V, M>(a)), Some(from_next::<H, F, L, W, M>(b)), d, j) by {
        lj_m::<H, F, K, V, L, W, S, X, M>(lunode(r), a, b, d, j); assert(unode(from_lu::<H, F, S, X, M, R>(r)) == omn::<H, F, S, X, M>(lunode(r)));
    }
}
pub open spec fn nid<K: Key, V: Value>(n: LNodeNext<K, V>) -> int { match n { LNodeNext::L(l) => kid(l.key), LNodeNext::S(s) => kid(s.key) } }
/// two leaves side by side
pub open spec fn jmerge<H: Hashword, F: Flagword<H>, S: Key, X: Value, M>(n: Option<MNode<H, F, S, X, M>>, p: Option<LNodeNext<S, X>>, q: Option<LNodeNext<S, X>>, d: nat) -> bool {
    match p {
        Some(p) => match q {
            Some(q) => match n { Some(MNode::C(c)) => cwf(c, d) && cx(c) == nsz(p) + nsz(q) && forall|x: int| #[trigger] look(MNode::C(c), d, x) == (match look(from_next::<H, F, S, X, M>(p), 0, x) { Some(e) => Some(e), None => look(from_next::<H, F, S, X, M>(q), 0, x) }), _ => false },
            None => n == Some(from_next::<H, F, S, X, M>(p)),
        },
        None => n == omn::<H, F, S, X, M>(q),
    }
}
/// ids of both lists differ, and their hashes agree above d only
pub open spec fn apart<K: Key, V: Value, L: Key, W: Value>(a: LNodeNext<K, V>, b: LNodeNext<L, W>, d: nat) -> bool {
    nwf(a) && nwf(b) && hid(nid(a)) != hid(nid(b)) && (forall|i: nat| i < d ==> #[trigger] hdg(hid(nid(a)), i) == hdg(hid(nid(b)), i)) && d < lv() && nsz(a) + nsz(b) <= cap()
}
pub proof fn nid_all<K: Key, V: Value>(n: LNodeNext<K, V>) requires nwf(n) ensures nfind(n, nid(n)) is Some, nsz(n) > 0, forall|x: int| (#[trigger] nfind(n, x)) is Some ==> hid(x) == hid(nid(n))
{ match n { LNodeNext::L(l) => { lall(l); lsz(l); nhash(n, nid(n)); }, LNodeNext::S(s) => { nhash(n, nid(n)); } } }
pub proof fn l_apart<H: Hashword, F: Flagword<H>, K: Key, V: Value, L: Key, W: Value, M>(a: LNodeNext<K, V>, b: LNodeNext<L, W>, d: nat)
    requires jpre(from_next::<H, F, K, V, M>(a), from_next::<H, F, L, W, M>(b), d), d <= lv()
    ensures hid(nid(a)) != hid(nid(b)) ==> apart(a, b, d)
{
    let ma = from_next::<H, F, K, V, M>(a); let mb = from_next::<H, F, L, W, M>(b);
    nid_all(a); nid_all(b); look_n::<H, F, K, V, M>(a, d, nid(a)); look_n::<H, F, L, W, M>(b, d, nid(b));
    assert(look(ma, d, nid(a)) is Some && look(mb, d, nid(b)) is Some);
    assert forall|i: nat| i < d implies #[trigger] hdg(hid(nid(a)), i) == hdg(hid(nid(b)), i) by { assert(dg(nid(a), i) == dg(nid(b), i)); }
    if d == lv() { ax_hash(hid(nid(a)), hid(nid(b))); }
}
/// what is left of one leaf keeps its hash
pub open spec fn hashed<K: Key, V: Value>(n: Option<LNodeNext<K, V>>, bound: nat, h: int) -> bool {
    match n { Some(m) => nwf(m) && 0 < nsz(m) <= bound && forall|x: int| (#[trigger] nfind(m, x)) is Some ==> hid(x) == h, None => true }
}
pub proof fn u_hashed<K: Key, V: Value, S: Key, X: Value, R, Op>(a: LNodeNext<K, V>, op: MapTransmute<R, Op>)
    requires nwf(a) ensures forall|r: LNodeTransmuteResult<S, X, R>| #[trigger] ludone(r, a, op) ==> hashed(lunode(r), nsz(a), hid(nid(a)))
{
    nid_all(a);
    assert forall|r: LNodeTransmuteResult<S, X, R>| #[trigger] ludone(r, a, op) implies hashed(lunode(r), nsz(a), hid(nid(a))) by {
        let g: spec_fn(int) -> Ent<S, X> = glu(op, a);
        if let Some(m) = lunode(r) { assert forall|x: int| (#[trigger] nfind(m, x)) is Some implies hid(x) == hid(nid(a)) by { assert(g(x) is Some); assert(nfind(a, x) is Some); } }
    }
}
pub proof fn jm_core<H: Hashword, F: Flagword<H>, K: Key, V: Value, L: Key, W: Value, S: Key, X: Value, M>(a: LNodeNext<K, V>, b: LNodeNext<L, W>, d: nat, j: Jr<K, V, L, W, S, X>, p: Option<LNodeNext<S, X>>, q: Option<LNodeNext<S, X>>, n: Option<MNode<H, F, S, X, M>>)
    requires apart(a, b, d), hashed(p, nsz(a), hid(nid(a))), hashed(q, nsz(b), hid(nid(b))), jmerge(n, p, q, d), jnone(j),
        forall|x: int| nfind(a, x) is Some ==> #[trigger] j(nfind(a, x), None, onf(p, x)), forall|x: int| nfind(b, x) is Some ==> #[trigger] j(None, nfind(b, x), onf(q, x)),
        forall|x: int| nfind(a, x) is None ==> (#[trigger] onf(p, x)) is None, forall|x: int| nfind(b, x) is None ==> (#[trigger] onf(q, x)) is None
    ensures jd(n, Some(from_next::<H, F, K, V, M>(a)), Some(from_next::<H, F, L, W, M>(b)), d, j)
{
    nid_all(a); nid_all(b);
    let ma = from_next::<H, F, K, V, M>(a); let mb = from_next::<H, F, L, W, M>(b);
    assert forall|x: int| #[trigger] jat(n, Some(ma), Some(mb), d, j, x) by {
        look_n::<H, F, K, V, M>(a, d, x); look_n::<H, F, L, W, M>(b, d, x);
        assert(!(nfind(a, x) is Some && nfind(b, x) is Some));
        if let Some(m) = n { assert(olook(n, d, x) == look(m, d, x)); }
        if let Some(u) = p { look_n::<H, F, S, X, M>(u, d, x); look_n::<H, F, S, X, M>(u, 0, x); assert(onf(p, x) == nfind(u, x)); }
        if let Some(u) = q { look_n::<H, F, S, X, M>(u, d, x); look_n::<H, F, S, X, M>(u, 0, x); assert(onf(q, x) == nfind(u, x)); }
        assert(olook(n, d, x) == (match onf(p, x) { Some(e) => Some(e), None => onf(q, x) }));
        if nfind(a, x) is Some { assert(onf(q, x) is None); assert(j(nfind(a, x), None, onf(p, x))); }
        else if nfind(b, x) is Some { assert(onf(p, x) is None); assert(j(None, nfind(b, x), onf(q, x))); }
        else { assert(onf(p, x) is None); assert(onf(q, x) is None); }
    }
}
/// both leaves transmuted on their own, then put side by side
pub proof fn u_split<H: Hashword, F: Flagword<H>, K: Key, V: Value, L: Key, W: Value, S: Key, X: Value, M, R, FB, FL, FR>(a: LNodeNext<K, V>, b: LNodeNext<L, W>, d: nat, bo: MapTransmute<R, FB>, lo: MapTransmute<R, FL>, ro: MapTransmute<R, FR>)
    requires apart(a, b, d)
    ensures forall|l: LNodeTransmuteResult<S, X, R>, r: LNodeTransmuteResult<S, X, R>, n: Option<MNode<H, F, S, X, M>>|
        #![trigger ludone(l, a, lo), ludone(r, b, ro), jd(n, Some(from_next::<H, F, K, V, M>(a)), Some(from_next::<H, F, L, W, M>(b)), d, ju::<K, V, L, W, S, X, R, FB, FL, FR>(bo, lo, ro))]
        ludone(l, a, lo) && ludone(r, b, ro) && jmerge(n, lunode(l), lunode(r), d) ==> jd(n, Some(from_next::<H, F, K, V, M>(a)), Some(from_next::<H, F, L, W, M>(b)), d, ju::<K, V, L, W, S, X, R, FB, FL, FR>(bo, lo, ro))
{
    u_hashed::<K, V, S, X, R, FL>(a, lo); u_hashed::<L, W, S, X, R, FR>(b, ro);
    let j = ju::<K, V, L, W, S, X, R, FB, FL, FR>(bo, lo, ro);
    assert forall|l: LNodeTransmuteResult<S, X, R>, r: LNodeTransmuteResult<S, X, R>, n: Option<MNode<H, F, S, X, M>>|
        #![trigger ludone(l, a, lo), ludone(r, b, ro), jd(n, Some(from_next::<H, F, K, V, M>(a)), Some(from_next::<H, F, L, W, M>(b)), d, j)]
        ludone(l, a, lo) && ludone(r, b, ro) && jmerge(n, lunode(l), lunode(r), d) implies jd(n, Some(from_next::<H, F, K, V, M>(a)), Some(from_next::<H, F, L, W, M>(b)), d, j) by {
        let ga: spec_fn(int) -> Ent<S, X> = glu(lo, a); let gb: spec_fn(int) -> Ent<S, X> = glu(ro, b);
        assert forall|x: int| #[trigger] onf(lunode(l), x) == ux::<K, V, S, X, R, FL>(lo, nfind(a, x)) by { assert(onf(lunode(l), x) == ga(x)); }
        assert forall|x: int| #[trigger] onf(lunode(r), x) == ux::<L, W, S, X, R, FR>(ro, nfind(b, x)) by { assert(onf(lunode(r), x) == gb(x)); }
        jm_core::<H, F, K, V, L, W, S, X, M>(a, b, d, j, lunode(l), lunode(r), n);
    }
}
// entries on the side of a list
pub open spec fn rfind<L, W>(s: Seq<(&L, &W)>, x: int) -> Ent<L, W> {
    if exists|i: int| 0 <= i < s.len() && kid(*(#[trigger] s[i]).0) == x { let i = choose|i: int| 0 <= i < s.len() && kid(*(#[trigger] s[i]).0) == x; Some((*s[i].0, *s[i].1)) } else { None }
}
pub open spec fn runq<L, W>(s: Seq<(&L, &W)>) -> bool { forall|i: int, k: int| 0 <= i < k < s.len() ==> kid(*(#[trigger] s[i]).0) != kid(*(#[trigger] s[k]).0) }
pub proof fn rf_at<L, W>(s: Seq<(&L, &W)>, i: int) requires runq(s), 0 <= i < s.len() ensures rfind(s, kid(*s[i].0)) == Some((*s[i].0, *s[i].1)) {}
pub proof fn rf_push<L, W>(s: Seq<(&L, &W)>, e: (&L, &W))
    requires runq(s), rfind(s, kid(*e.0)) is None ensures runq(s.push(e)), forall|x: int| #[trigger] rfind(s.push(e), x) == if x == kid(*e.0) { Some((*e.0, *e.1)) } else { rfind(s, x) }
{
    let t = s.push(e);
    assert forall|i: int| 0 <= i < s.len() implies kid(*(#[trigger] s[i]).0) != kid(*e.0) by { }
    assert forall|i: int, k: int| 0 <= i < k < t.len() implies kid(*(#[trigger] t[i]).0) != kid(*(#[trigger] t[k]).0) by { if k < s.len() { assert(t[k] == s[k]); } assert(t[i] == s[i]); }
    assert forall|x: int| #[trigger] rfind(t, x) == (if x == kid(*e.0) { Some((*e.0, *e.1)) } else { rfind(s, x) }) by {
        if x == kid(*e.0) { assert(t[s.len() as int] == e); rf_at(t, s.len() as int); }
        else if let Some(p) = rfind(s, x) { let i = choose|i: int| 0 <= i < s.len() && kid(*(#[trigger] s[i]).0) == x; assert(t[i] == s[i]); rf_at(t, i); rf_at(s, i); }
        else { assert forall|i: int| 0 <= i < t.len() implies kid(*(#[trigger] t[i]).0) != x by { if i < s.len() { assert(t[i] == s[i]); } } }
    }
}
pub open spec fn rswap<L, W>(s: Seq<(&L, &W)>, i: int, t: Seq<(&L, &W)>) -> bool {
    runq(t) && t.len() < s.len() && forall|x: int| #[trigger] rfind(t, x) == if x == kid(*s[i].0) { None } else { rfind(s, x) }
}
pub broadcast proof fn rf_swap<'a, L, W>(s: Seq<(&'a L, &'a W)>, i: int)
    requires runq(s), 0 <= i < s.len() ensures rswap(s, i, #[trigger] s.update(i, s.last()).drop_last())
{
    let t = s.update(i, s.last()).drop_last(); let m = s.len() - 1;
    assert forall|k: int| 0 <= k < t.len() implies #[trigger] t[k] == (if k == i { s[m] } else { s[k] }) by {}
    assert forall|a: int, k: int| 0 <= a < k < t.len() implies kid(*(#[trigger] t[a]).0) != kid(*(#[trigger] t[k]).0) by { let p = if a == i { m } else { a }; let q = if k == i { m } else { k }; assert(t[a] == s[p] && t[k] == s[q]); }
    assert forall|x: int| #[trigger] rfind(t, x) == (if x == kid(*s[i].0) { None } else { rfind(s, x) }) by {
        if x == kid(*s[i].0) { assert forall|k: int| 0 <= k < t.len() implies kid(*(#[trigger] t[k]).0) != x by { let q = if k == i { m } else { k }; assert(t[k] == s[q]); } }
        else if let Some(p) = rfind(s, x) { let k = choose|k: int| 0 <= k < s.len() && kid(*(#[trigger] s[k]).0) == x; rf_at(s, k); let q = if k == m { i } else { k }; assert(t[q] == s[k]); rf_at(t, q); }
        else { assert forall|k: int| 0 <= k < t.len() implies kid(*(#[trigger] t[k]).0) != x by { let q = if k == i { m } else { k }; assert(t[k] == s[q]); } }
    }
}
/// t is what of s is not found in a
pub open spec fn rtake<K: Key, V: Value, L, W>(s: Seq<(&L, &W)>, t: Seq<(&L, &W)>, a: LNodeNext<K, V>) -> bool {
    runq(t) && t.len() <= s.len() && forall|x: int| #[trigger] rfind(t, x) == if nfind(a, x) is Some { None } else { rfind(s, x) }
}
/// entries of a, combined with those of s for the same keys
pub open spec fn gi<K: Key, V: Value, L: Key, W: Value, S: Key, X: Value, R, FB, FL>(bo: MapTransmute<R, FB>, lo: MapTransmute<R, FL>, a: LNodeNext<K, V>, s: Seq<(&L, &W)>) -> spec_fn(int) -> Ent<S, X> {
    |x: int| match nfind(a, x) { Some(e) => match rfind(s, x) { Some(f) => mur(mu4::<K, V, L, W, S, X, R, FB>(bo, e.0, e.1, f.0, f.1)), None => ux::<K, V, S, X, R, FL>(lo, Some(e)) }, None => None }
}
pub open spec fn ri<K: Key, V: Value, L: Key, W: Value, S: Key, X: Value, R, FB, FL>(bo: MapTransmute<R, FB>, lo: MapTransmute<R, FL>, l: Arc<LNode<K, V>>, s: Seq<(&L, &W)>) -> MapTransmuteResult<S, X, R> {
    match rfind(s, kid(l.key)) { Some(f) => mu4(bo, l.key, l.value, f.0, f.1), None => mu(lo, l.key, l.value) }
}
pub open spec fn gin<K: Key, V: Value, L: Key, W: Value, S: Key, X: Value, R, FB, FL>(bo: MapTransmute<R, FB>, lo: MapTransmute<R, FL>, l: Arc<LNode<K, V>>, s: Seq<(&L, &W)>) -> spec_fn(int) -> Ent<S, X> { gi::<K, V, L, W, S, X, R, FB, FL>(bo, lo, l.next, s) }
pub proof fn gi_step<K: Key, V: Value, L: Key, W: Value, S: Key, X: Value, R, FB, FL>(bo: MapTransmute<R, FB>, lo: MapTransmute<R, FL>, l: Arc<LNode<K, V>>, s: Seq<(&L, &W)>)
    requires lwf(*l), mukey4::<K, V, L, W, S, X, R, FB>(bo), mukey::<K, V, S, X, R, FL>(lo)
    ensures forall|x: int| #[trigger] gi::<K, V, L, W, S, X, R, FB, FL>(bo, lo, LNodeNext::L(l), s)(x) == ontou(gi::<K, V, L, W, S, X, R, FB, FL>(bo, lo, l.next, s), ri::<K, V, L, W, S, X, R, FB, FL>(bo, lo, l, s))(x),
        forall|res: LNodeTransmuteResult<S, X, R>, n: nat| #[trigger] olreal(lunode(res), n, gi::<K, V, L, W, S, X, R, FB, FL>(bo, lo, l.next, s)) && n < usize::MAX ==> fits(ri::<K, V, L, W, S, X, R, FB, FL>(bo, lo, l, s), lunode(res))
{
    lall(l);
    let g: spec_fn(int) -> Ent<S, X> = gin::<K, V, L, W, S, X, R, FB, FL>(bo, lo, l, s);
    let h: spec_fn(int) -> Ent<S, X> = gi::<K, V, L, W, S, X, R, FB, FL>(bo, lo, LNodeNext::L(l), s);
    let r = ri::<K, V, L, W, S, X, R, FB, FL>(bo, lo, l, s);
    let k = lid(l);
    assert(match r { MapTransmuteResult::Transmuted(c, _, _) => kid(c) == k, _ => true });
    assert forall|x: int| #[trigger] h(x) == ontou(g, r)(x) by { if x == k { assert(nfind(l.next, x) is None); assert(g(x) is None); } }
    assert forall|res: LNodeTransmuteResult<S, X, R>, n: nat| #[trigger] olreal(lunode(res), n, g) && n < usize::MAX implies fits(r, lunode(res)) by {
        if let Some(m) = lunode(res) {
            assert(nfind(l.next, k) is None); assert(g(k) is None);
            assert forall|x: int| (#[trigger] nfind(m, x)) is Some implies hid(x) == hid(k) by { assert(g(x) is Some); assert(nfind(l.next, x) is Some); }
        }
    }
}
/// two entries
pub open spec fn gv<K: Key, V: Value, L: Key, W: Value, S: Key, X: Value, R, FB, FL, FR>(bo: MapTransmute<R, FB>, lo: MapTransmute<R, FL>, ro: MapTransmute<R, FR>, k: K, v: V, l: L, w: W) -> spec_fn(int) -> Ent<S, X> {
    |x: int| jux::<K, V, L, W, S, X, R, FB, FL, FR>(bo, lo, ro, if x == kid(k) { Some((k, v)) } else { None }, if x == kid(l) { Some((l, w)) } else { None })
}
pub proof fn gi_s<K: Key, V: Value, L: Key, W: Value, S: Key, X: Value, R, FB, FL, FR>(bo: MapTransmute<R, FB>, lo: MapTransmute<R, FL>, ro: MapTransmute<R, FR>, a: LNodeNext<K, V>, s: Seq<(&L, &W)>)
    ensures match a {
        LNodeNext::S(sn) => (forall|res: LNodeTransmuteResult<S, X, R>, l: L, w: W| #[trigger] olreal(lunode(res), 1, gv::<K, V, L, W, S, X, R, FB, FL, FR>(bo, lo, ro, sn.key, sn.value, l, w)) && rfind(s, kid(sn.key)) == Some((l, w)) ==> olreal(lunode(res), 1, gi::<K, V, L, W, S, X, R, FB, FL>(bo, lo, a, s)))
            && (forall|res: LNodeTransmuteResult<S, X, R>| #[trigger] ludone(res, a, lo) && rfind(s, kid(sn.key)) is None ==> olreal(lunode(res), 1, gi::<K, V, L, W, S, X, R, FB, FL>(bo, lo, a, s))),
        _ => true }
{
    if let LNodeNext::S(sn) = a {
        let h: spec_fn(int) -> Ent<S, X> = gi::<K, V, L, W, S, X, R, FB, FL>(bo, lo, a, s);
        let k = sid(sn);
        assert forall|x: int| nfind(a, x) == if x == k { Some(se(sn)) } else { None::<(K, V)> } by {}
        assert forall|res: LNodeTransmuteResult<S, X, R>, l: L, w: W| #[trigger] olreal(lunode(res), 1, gv::<K, V, L, W, S, X, R, FB, FL, FR>(bo, lo, ro, sn.key, sn.value, l, w)) && rfind(s, kid(sn.key)) == Some((l, w)) implies olreal(lunode(res), 1, h) by {
            let g: spec_fn(int) -> Ent<S, X> = gvs::<K, V, L, W, S, X, R, FB, FL, FR>(bo, lo, ro, sn, l, w);
            assert forall|x: int| #[trigger] h(x) == g(x) by { }
            if lunode(res) is None { assert forall|x: int| (#[trigger] h(x)) is None by { assert(g(x) is None); } }
        }
        assert forall|res: LNodeTransmuteResult<S, X, R>| #[trigger] ludone(res, a, lo) && rfind(s, kid(sn.key)) is None implies olreal(lunode(res), 1, h) by {
            let g: spec_fn(int) -> Ent<S, X> = glu(lo, a);
            assert forall|x: int| #[trigger] h(x) == g(x) by { }
            if lunode(res) is None { assert forall|x: int| (#[trigger] h(x)) is None by { assert(g(x) is None); } }
        }
    }
}
pub open spec fn se<K: Key, V: Value>(s: Arc<SNode<K, V>>) -> (K, V) { (s.key, s.value) }
pub open spec fn gvs<K: Key, V: Value, L: Key, W: Value, S: Key, X: Value, R, FB, FL, FR>(bo: MapTransmute<R, FB>, lo: MapTransmute<R, FL>, ro: MapTransmute<R, FR>, s: Arc<SNode<K, V>>, l: L, w: W) -> spec_fn(int) -> Ent<S, X> { gv(bo, lo, ro, s.key, s.value, l, w) }
// the entries of the right list, collected
pub open spec fn rall<L: Key, W: Value>(s: Seq<(&L, &W)>, b: LNodeNext<L, W>) -> bool { runq(s) && s.len() == nsz(b) && forall|x: int| #[trigger] rfind(s, x) == nfind(b, x) }
pub open spec fn rbuild<L: Key, W: Value>(s: Seq<(&L, &W)>, n: LNodeNext<L, W>, b: LNodeNext<L, W>) -> bool {
    runq(s) && nwf(n) && s.len() + nsz(n) == nsz(b) && (forall|x: int| #[trigger] nfind(b, x) == (match rfind(s, x) { Some(e) => Some(e), None => nfind(n, x) }))
    && (forall|x: int| (#[trigger] rfind(s, x)) is Some ==> nfind(n, x) is None) && (forall|x: int| (#[trigger] nfind(n, x)) is Some ==> rfind(s, x) is None)
}
pub proof fn rb_step<L: Key, W: Value>(s: Seq<(&L, &W)>, n: LNodeNext<L, W>, b: LNodeNext<L, W>)
    requires rbuild(s, n, b)
    ensures match n {
        LNodeNext::L(m) => forall|e: (&L, &W)| *e.0 == m.key && *e.1 == m.value ==> rbuild(#[trigger] s.push(e), m.next, b),
        LNodeNext::S(m) => forall|e: (&L, &W)| *e.0 == m.key && *e.1 == m.value ==> rall(#[trigger] s.push(e), b) }
{
    match n {
        LNodeNext::L(m) => {
            lall(m); let k = lid(m); assert(nfind(n, k) is Some);
            assert forall|e: (&L, &W)| *e.0 == m.key && *e.1 == m.value implies rbuild(#[trigger] s.push(e), m.next, b) by {
                rf_push(s, e); let t = s.push(e);
                assert forall|x: int| (#[trigger] rfind(t, x)) is Some implies nfind(m.next, x) is None by { if x != k { assert(rfind(s, x) is Some); assert(nfind(n, x) is None); } }
                assert forall|x: int| (#[trigger] nfind(m.next, x)) is Some implies rfind(t, x) is None by { assert(nfind(n, x) is Some); assert(rfind(s, x) is None); }
                assert forall|x: int| #[trigger] nfind(b, x) == (match rfind(t, x) { Some(e) => Some(e), None => nfind(m.next, x) }) by { assert(nfind(n, x) == (if k == x { Some(le(m)) } else { nfind(m.next, x) })); }
            }
        },
        LNodeNext::S(m) => {
            let k = sid(m); assert(nfind(n, k) is Some);
            assert forall|e: (&L, &W)| *e.0 == m.key && *e.1 == m.value implies rall(#[trigger] s.push(e), b) by {
                rf_push(s, e); let t = s.push(e);
                assert forall|x: int| #[trigger] rfind(t, x) == nfind(b, x) by { assert(nfind(b, x) == (match rfind(s, x) { Some(e) => Some(e), None => nfind(n, x) })); }
            }
        },
    }
}
pub open spec fn le<K: Key, V: Value>(l: Arc<LNode<K, V>>) -> (K, V) { (l.key, l.value) }
pub proof fn rb_init<L: Key, W: Value>(b: Arc<LNode<L, W>>)
    requires lwf(*b) ensures forall|e: (&L, &W)| *e.0 == b.key && *e.1 == b.value ==> rbuild(#[trigger] Seq::<(&L, &W)>::empty().push(e), b.next, LNodeNext::L(b))
{
    lall(b);
    let s = Seq::<(&L, &W)>::empty(); let n = LNodeNext::L(b);
    assert forall|x: int| (#[trigger] rfind(s, x)) is None by {}
    assert(rbuild(s, n, n));
    assert forall|e: (&L, &W)| *e.0 == b.key && *e.1 == b.value implies rbuild(#[trigger] Seq::<(&L, &W)>::empty().push(e), b.next, LNodeNext::L(b)) by {
        rf_push(s, e); rb_step(s, n, n); assert(rbuild(s.push(e), b.next, n));
    }
}
/// what is not in a of the entries of b
pub open spec fn rleft<K: Key, V: Value, L: Key, W: Value>(t: Seq<(&L, &W)>, a: LNodeNext<K, V>, b: LNodeNext<L, W>) -> bool {
    runq(t) && t.len() <= nsz(b) && forall|x: int| #[trigger] rfind(t, x) == if nfind(a, x) is Some { None } else { nfind(b, x) }
}
pub open spec fn gk<K: Key, V: Value, L: Key, W: Value, S: Key, X: Value, R, FB, FL, FR>(bo: MapTransmute<R, FB>, lo: MapTransmute<R, FL>, ro: MapTransmute<R, FR>, a: LNodeNext<K, V>, b: LNodeNext<L, W>, t: Seq<(&L, &W)>) -> spec_fn(int) -> Ent<S, X> {
    |x: int| match nfind(a, x) { Some(e) => jux::<K, V, L, W, S, X, R, FB, FL, FR>(bo, lo, ro, Some(e), nfind(b, x)), None => ux::<L, W, S, X, R, FR>(ro, rfind(t, x)) }
}
pub proof fn gk_init<K: Key, V: Value, L: Key, W: Value, S: Key, X: Value, R, FB, FL, FR>(bo: MapTransmute<R, FB>, lo: MapTransmute<R, FL>, ro: MapTransmute<R, FR>, a: LNodeNext<K, V>, b: LNodeNext<L, W>)
    ensures forall|s: Seq<(&L, &W)>, t: Seq<(&L, &W)>| rall(s, b) && #[trigger] rtake(s, t, a) ==> rleft(t, a, b),
        forall|s: Seq<(&L, &W)>, res: LNodeTransmuteResult<S, X, R>, n: nat, t: Seq<(&L, &W)>| #![trigger olreal(lunode(res), n, gi::<K, V, L, W, S, X, R, FB, FL>(bo, lo, a, s)), t.take(0)]
            rall(s, b) && olreal(lunode(res), n, gi::<K, V, L, W, S, X, R, FB, FL>(bo, lo, a, s)) ==> olreal(lunode(res), n, gk::<K, V, L, W, S, X, R, FB, FL, FR>(bo, lo, ro, a, b, t.take(0))),
        forall|t: Seq<(&L, &W)>, res: LNodeTransmuteResult<S, X, R>, n: nat| #[trigger] olreal(lunode(res), n, gk::<K, V, L, W, S, X, R, FB, FL, FR>(bo, lo, ro, a, b, t.take(t.len() as int))) && rleft(t, a, b) && n <= nsz(a) + nsz(b)
            ==> lj(lunode(res), a, b, ju::<K, V, L, W, S, X, R, FB, FL, FR>(bo, lo, ro))
{
    assert forall|s: Seq<(&L, &W)>, res: LNodeTransmuteResult<S, X, R>, n: nat, t: Seq<(&L, &W)>| #![trigger olreal(lunode(res), n, gi::<K, V, L, W, S, X, R, FB, FL>(bo, lo, a, s)), t.take(0)]
            rall(s, b) && olreal(lunode(res), n, gi::<K, V, L, W, S, X, R, FB, FL>(bo, lo, a, s)) implies olreal(lunode(res), n, gk::<K, V, L, W, S, X, R, FB, FL, FR>(bo, lo, ro, a, b, t.take(0))) by {
        let g: spec_fn(int) -> Ent<S, X> = gi::<K, V, L, W, S, X, R, FB, FL>(bo, lo, a, s);
        let h: spec_fn(int) -> Ent<S, X> = gk::<K, V, L, W, S, X, R, FB, FL, FR>(bo, lo, ro, a, b, t.take(0));
        assert forall|x: int| #[trigger] h(x) == g(x) by { assert(rfind(t.take(0), x) is None); assert(rfind(s, x) == nfind(b, x)); }
        if lunode(res) is None { assert forall|x: int| (#[trigger] h(x)) is None by { assert(g(x) is None); } }
    }
    assert forall|t: Seq<(&L, &W)>, res: LNodeTransmuteResult<S, X, R>, n: nat| #[trigger] olreal(lunode(res), n, gk::<K, V, L, W, S, X, R, FB, FL, FR>(bo, lo, ro, a, b, t.take(t.len() as int))) && rleft(t, a, b) && n <= nsz(a) + nsz(b)
            implies lj(lunode(res), a, b, ju::<K, V, L, W, S, X, R, FB, FL, FR>(bo, lo, ro)) by {
        assert(t.take(t.len() as int) =~= t);
        let h: spec_fn(int) -> Ent<S, X> = gk::<K, V, L, W, S, X, R, FB, FL, FR>(bo, lo, ro, a, b, t);
        let j = ju::<K, V, L, W, S, X, R, FB, FL, FR>(bo, lo, ro);
        assert forall|x: int| #[trigger] ljat(lunode(res), a, b, j, x) by { assert(onf(lunode(res), x) == h(x)); assert(rfind(t, x) == if nfind(a, x) is Some { None } else { nfind(b, x) }); }
    }
}
pub open spec fn mup<L, W, S, X, R, FR>(ro: MapTransmute<R, FR>, e: (&L, &W)) -> MapTransmuteResult<S, X, R> { mu(ro, *e.0, *e.1) }
pub proof fn gk_step<K: Key, V: Value, L: Key, W: Value, S: Key, X: Value, R, FB, FL, FR>(bo: MapTransmute<R, FB>, lo: MapTransmute<R, FL>, ro: MapTransmute<R, FR>, a: LNodeNext<K, V>, b: LNodeNext<L, W>, t: Seq<(&L, &W)>, i: int)
    requires rleft(t, a, b), 0 <= i < t.len(), nwf(a), nwf(b), hid(nid(a)) == hid(nid(b)), mukey::<L, W, S, X, R, FR>(ro)
    ensures forall|x: int| #[trigger] gk::<K, V, L, W, S, X, R, FB, FL, FR>(bo, lo, ro, a, b, t.take(i + 1))(x) == ontou(gk::<K, V, L, W, S, X, R, FB, FL, FR>(bo, lo, ro, a, b, t.take(i)), mup::<L, W, S, X, R, FR>(ro, t[i]))(x),
        forall|res: LNodeTransmuteResult<S, X, R>, n: nat| #[trigger] olreal(lunode(res), n, gk::<K, V, L, W, S, X, R, FB, FL, FR>(bo, lo, ro, a, b, t.take(i))) && n < usize::MAX ==> fits(mup::<L, W, S, X, R, FR>(ro, t[i]), lunode(res))
{
    nid_all(a); nid_all(b);
    let p = t.take(i); let q = t.take(i + 1);
    assert(q =~= p.push(t[i]));
    assert forall|k: int, m: int| 0 <= k < m < p.len() implies kid(*(#[trigger] p[k]).0) != kid(*(#[trigger] p[m]).0) by { assert(p[k] == t[k] && p[m] == t[m]); }
    let c = kid(*t[i].0);
    rf_at(t, i);
    assert(rfind(t, c) is Some);
    assert(rfind(p, c) is None) by { if rfind(p, c) is Some { let k = choose|k: int| 0 <= k < p.len() && kid(*(#[trigger] p[k]).0) == c; assert(p[k] == t[k]); } }
    rf_push(p, t[i]);
    assert(nfind(a, c) is None && nfind(b, c) is Some);
    let g: spec_fn(int) -> Ent<S, X> = gk::<K, V, L, W, S, X, R, FB, FL, FR>(bo, lo, ro, a, b, p);
    let h: spec_fn(int) -> Ent<S, X> = gk::<K, V, L, W, S, X, R, FB, FL, FR>(bo, lo, ro, a, b, q);
    let r = mup::<L, W, S, X, R, FR>(ro, t[i]);
    assert forall|x: int| #[trigger] h(x) == ontou(g, r)(x) by { }
    assert forall|res: LNodeTransmuteResult<S, X, R>, n: nat| #[trigger] olreal(lunode(res), n, g) && n < usize::MAX implies fits(r, lunode(res)) by {
        if let Some(m) = lunode(res) {
            assert(g(c) is None);
            assert forall|x: int| (#[trigger] nfind(m, x)) is Some implies hid(x) == hid(c) by {
                assert(g(x) is Some);
                if nfind(a, x) is None { assert(rfind(p, x) is Some); let k = choose|k: int| 0 <= k < p.len() && kid(*(#[trigger] p[k]).0) == x; assert(p[k] == t[k]); rf_at(t, k); assert(rfind(t, x) is Some); assert(nfind(b, x) is Some); }
            }
        }
    }
}
/// both ways round
pub broadcast proof fn jd_flip<H: Hashword, F: Flagword<H>, K: Key, V: Value, L: Key, W: Value, S: Key, X: Value, M, R, FB, GB, FL, FR>(n: Option<MNode<H, F, S, X, M>>, a: Option<MNode<H, F, K, V, M>>, b: Option<MNode<H, F, L, W, M>>, d: nat, bo: MapTransmute<R, FB>, po: MapTransmute<R, GB>, lo: MapTransmute<R, FL>, ro: MapTransmute<R, FR>)
    requires #[trigger] uflip::<K, V, L, W, S, X, R, FB, GB>(bo, po), #[trigger] jd(n, b, a, d, ju::<L, W, K, V, S, X, R, GB, FR, FL>(po, ro, lo))
    ensures jd(n, a, b, d, ju::<K, V, L, W, S, X, R, FB, FL, FR>(bo, lo, ro))
{
    let j = ju::<L, W, K, V, S, X, R, GB, FR, FL>(po, ro, lo); let k = ju::<K, V, L, W, S, X, R, FB, FL, FR>(bo, lo, ro);
    assert forall|x: int| #[trigger] jat(n, a, b, d, k, x) by {
        assert(jat(n, b, a, d, j, x));
        let e = olook(a, d, x); let f = olook(b, d, x);
        if let (Some(ee), Some(ff)) = (e, f) { assert(mu4::<L, W, K, V, S, X, R, GB>(po, ff.0, ff.1, ee.0, ee.1) == mu4::<K, V, L, W, S, X, R, FB>(bo, ee.0, ee.1, ff.0, ff.1)); }
    }
}
pub proof fn ju_none<K, V, L, W, S, X, R, FB, FL, FR>(bo: MapTransmute<R, FB>, lo: MapTransmute<R, FL>, ro: MapTransmute<R, FR>) ensures jnone(ju::<K, V, L, W, S, X, R, FB, FL, FR>(bo, lo, ro)) {}

/// a list and one entry of the other side
pub open spec fn gz<K: Key, V: Value, L: Key, W: Value, S: Key, X: Value, R, FB, FL, FR>(bo: MapTransmute<R, FB>, lo: MapTransmute<R, FL>, ro: MapTransmute<R, FR>, a: LNodeNext<K, V>, r: Arc<SNode<L, W>>) -> spec_fn(int) -> Ent<S, X> {
    |x: int| jux::<K, V, L, W, S, X, R, FB, FL, FR>(bo, lo, ro, nfind(a, x), nfind(LNodeNext::S(r), x))
}
pub open spec fn gzn<K: Key, V: Value, L: Key, W: Value, S: Key, X: Value, R, FB, FL, FR>(bo: MapTransmute<R, FB>, lo: MapTransmute<R, FL>, ro: MapTransmute<R, FR>, l: Arc<LNode<K, V>>, r: Arc<SNode<L, W>>) -> spec_fn(int) -> Ent<S, X> { gz::<K, V, L, W, S, X, R, FB, FL, FR>(bo, lo, ro, l.next, r) }
pub open spec fn glun<K: Key, V: Value, S: Key, X: Value, R, FL>(lo: MapTransmute<R, FL>, l: Arc<LNode<K, V>>) -> spec_fn(int) -> Ent<S, X> { glu::<K, V, S, X, R, FL>(lo, l.next) }
pub open spec fn mu4s<K: Key, V: Value, L: Key, W: Value, S: Key, X: Value, R, FB>(bo: MapTransmute<R, FB>, l: Arc<LNode<K, V>>, r: Arc<SNode<L, W>>) -> MapTransmuteResult<S, X, R> { mu4(bo, l.key, l.value, r.key, r.value) }
pub proof fn gz_step<K: Key, V: Value, L: Key, W: Value, S: Key, X: Value, R, FB, FL, FR>(bo: MapTransmute<R, FB>, lo: MapTransmute<R, FL>, ro: MapTransmute<R, FR>, l: Arc<LNode<K, V>>, r: Arc<SNode<L, W>>)
    requires lwf(*l), hid(lid(l)) == hid(sid(r)), mukey4::<K, V, L, W, S, X, R, FB>(bo), mukey::<K, V, S, X, R, FL>(lo), mukey::<L, W, S, X, R, FR>(ro)
    ensures lid(l) == sid(r) ==> (forall|x: int| #[trigger] gz::<K, V, L, W, S, X, R, FB, FL, FR>(bo, lo, ro, LNodeNext::L(l), r)(x) == ontou(glu::<K, V, S, X, R, FL>(lo, l.next), mu4s::<K, V, L, W, S, X, R, FB>(bo, l, r))(x))
            && (forall|res: LNodeTransmuteResult<S, X, R>| #[trigger] ludone(res, l.next, lo) ==> fits(mu4s::<K, V, L, W, S, X, R, FB>(bo, l, r), lunode(res))),
        lid(l) != sid(r) ==> (forall|x: int| #[trigger] gz::<K, V, L, W, S, X, R, FB, FL, FR>(bo, lo, ro, LNodeNext::L(l), r)(x) == ontou(gz::<K, V, L, W, S, X, R, FB, FL, FR>(bo, lo, ro, l.next, r), mul::<K, V, S, X, R, FL>(lo, l))(x))
            && (forall|res: LNodeTransmuteResult<S, X, R>, n: nat| #[trigger] olreal(lunode(res), n, gz::<K, V, L, W, S, X, R, FB, FL, FR>(bo, lo, ro, l.next, r)) && n < usize::MAX ==> fits(mul::<K, V, S, X, R, FL>(lo, l), lunode(res)))
{
    lall(l);
    let k = lid(l);
    let h: spec_fn(int) -> Ent<S, X> = gz::<K, V, L, W, S, X, R, FB, FL, FR>(bo, lo, ro, LNodeNext::L(l), r);
    assert(nfind(LNodeNext::L(l), k) is Some);
    assert forall|x: int| nfind(LNodeNext::S(r), x) == if x == sid(r) { Some(se(r)) } else { None::<(L, W)> } by {}
    if k == sid(r) {
        let g: spec_fn(int) -> Ent<S, X> = glun::<K, V, S, X, R, FL>(lo, l); let m = mu4s::<K, V, L, W, S, X, R, FB>(bo, l, r);
        assert(match m { MapTransmuteResult::Transmuted(c, _, _) => kid(c) == k, _ => true });
        assert forall|x: int| #[trigger] h(x) == ontou(g, m)(x) by { if x == k { assert(nfind(l.next, x) is None); assert(g(x) is None); } }
        assert forall|res: LNodeTransmuteResult<S, X, R>| #[trigger] ludone(res, l.next, lo) implies fits(m, lunode(res)) by {
            if let Some(q) = lunode(res) {
                assert(nfind(l.next, k) is None); assert(g(k) is None);
                assert forall|x: int| (#[trigger] nfind(q, x)) is Some implies hid(x) == hid(k) by { assert(g(x) is Some); assert(nfind(l.next, x) is Some); }
            }
        }
    } else {
        let g: spec_fn(int) -> Ent<S, X> = gzn::<K, V, L, W, S, X, R, FB, FL, FR>(bo, lo, ro, l, r); let m = mul::<K, V, S, X, R, FL>(lo, l);
        assert(match m { MapTransmuteResult::Transmuted(c, _, _) => kid(c) == k, _ => true });
        assert forall|x: int| #[trigger] h(x) == ontou(g, m)(x) by { if x == k { assert(nfind(l.next, x) is None); assert(g(x) is None); } }
        assert forall|res: LNodeTransmuteResult<S, X, R>, n: nat| #[trigger] olreal(lunode(res), n, gz::<K, V, L, W, S, X, R, FB, FL, FR>(bo, lo, ro, l.next, r)) && n < usize::MAX implies fits(m, lunode(res)) by {
            if let Some(q) = lunode(res) {
                assert(nfind(l.next, k) is None); assert(g(k) is None);
                assert forall|x: int| (#[trigger] nfind(q, x)) is Some implies hid(x) == hid(k) by { assert(g(x) is Some); assert(nfind(l.next, x) is Some || x == sid(r)); }
            }
        }
    }
}
pub proof fn gz_s<K: Key, V: Value, L: Key, W: Value, S: Key, X: Value, R, FB, FL, FR>(bo: MapTransmute<R, FB>, lo: MapTransmute<R, FL>, ro: MapTransmute<R, FR>, a: LNodeNext<K, V>, r: Arc<SNode<L, W>>)
    ensures match a {
        LNodeNext::S(sn) => forall|res: LNodeTransmuteResult<S, X, R>, n: nat| #[trigger] olreal(lunode(res), n, gv::<K, V, L, W, S, X, R, FB, FL, FR>(bo, lo, ro, sn.key, sn.value, r.key, r.value)) ==> olreal(lunode(res), n, gz::<K, V, L, W, S, X, R, FB, FL, FR>(bo, lo, ro, a, r)),
        _ => true },
      forall|res: LNodeTransmuteResult<S, X, R>, n: nat| #[trigger] olreal(lunode(res), n, gz::<K, V, L, W, S, X, R, FB, FL, FR>(bo, lo, ro, a, r)) && n <= nsz(a) + 1 ==> lj(lunode(res), a, LNodeNext::S(r), ju::<K, V, L, W, S, X, R, FB, FL, FR>(bo, lo, ro))
{
    let h: spec_fn(int) -> Ent<S, X> = gz::<K, V, L, W, S, X, R, FB, FL, FR>(bo, lo, ro, a, r);
    let j = ju::<K, V, L, W, S, X, R, FB, FL, FR>(bo, lo, ro);
    if let LNodeNext::S(sn) = a {
        assert forall|res: LNodeTransmuteResult<S, X, R>, n: nat| #[trigger] olreal(lunode(res), n, gv::<K, V, L, W, S, X, R, FB, FL, FR>(bo, lo, ro, sn.key, sn.value, r.key, r.value)) implies olreal(lunode(res), n, h) by {
            let g: spec_fn(int) -> Ent<S, X> = gvr::<K, V, L, W, S, X, R, FB, FL, FR>(bo, lo, ro, sn, r);
            assert forall|x: int| #[trigger] h(x) == g(x) by { }
            if lunode(res) is None { assert forall|x: int| (#[trigger] h(x)) is None by { assert(g(x) is None); } }
        }
    }
    assert forall|res: LNodeTransmuteResult<S, X, R>, n: nat| #[trigger] olreal(lunode(res), n, gz::<K, V, L, W, S, X, R, FB, FL, FR>(bo, lo, ro, a, r)) && n <= nsz(a) + 1 implies lj(lunode(res), a, LNodeNext::S(r), j) by {
        assert forall|x: int| #[trigger] ljat(lunode(res), a, LNodeNext::S(r), j, x) by { assert(onf(lunode(res), x) == h(x)); }
    }
}
pub open spec fn gvr<K: Key, V: Value, L: Key, W: Value, S: Key, X: Value, R, FB, FL, FR>(bo: MapTransmute<R, FB>, lo: MapTransmute<R, FL>, ro: MapTransmute<R, FR>, s: Arc<SNode<K, V>>, r: Arc<SNode<L, W>>) -> spec_fn(int) -> Ent<S, X> { gv(bo, lo, ro, s.key, s.value, r.key, r.value) }
/// a slot only one side has
pub proof fn j_one<H: Hashword, F: Flagword<H>, K: Key, V: Value, L: Key, W: Value, S: Key, X: Value, M, R, FB, FL, FR>(a: MNode<H, F, K, V, M>, b: MNode<H, F, L, W, M>, d: nat, bo: MapTransmute<R, FB>, lo: MapTransmute<R, FL>, ro: MapTransmute<R, FR>, i: nat)
    requires wf(a, d), wf(b, d), i < wd()
    ensures kd(b, d, i) is None ==> forall|res: MNodeTransmuteResult<H, F, S, X, M, R>, m: MNode<H, F, K, V, M>| #[trigger] udone(res, m, lo) && kd(a, d, i) == Some(m) ==> jd(unode(res), kd(a, d, i), kd(b, d, i), d + 1, ju::<K, V, L, W, S, X, R, FB, FL, FR>(bo, lo, ro)),
        kd(a, d, i) is None ==> forall|res: MNodeTransmuteResult<H, F, S, X, M, R>, m: MNode<H, F, L, W, M>| #[trigger] udone(res, m, ro) && kd(b, d, i) == Some(m) ==> jd(unode(res), kd(a, d, i), kd(b, d, i), d + 1, ju::<K, V, L, W, S, X, R, FB, FL, FR>(bo, lo, ro))
{
    at_kd(a, d, i); at_kd(b, d, i);
    let j = ju::<K, V, L, W, S, X, R, FB, FL, FR>(bo, lo, ro);
    if kd(b, d, i) is None {
        assert forall|res: MNodeTransmuteResult<H, F, S, X, M, R>, m: MNode<H, F, K, V, M>| #[trigger] udone(res, m, lo) && kd(a, d, i) == Some(m) implies jd(unode(res), kd(a, d, i), kd(b, d, i), d + 1, j) by {
            assert(wf(m, d + 1));
            let g: spec_fn(int) -> Ent<S, X> = gu(lo, m, d + 1);
            assert forall|x: int| #[trigger] jat(unode(res), kd(a, d, i), kd(b, d, i), d + 1, j, x) by { assert(olook(unode(res), d + 1, x) == g(x)); }
        }
    }
    if kd(a, d, i) is None {
        assert forall|res: MNodeTransmuteResult<H, F, S, X, M, R>, m: MNode<H, F, L, W, M>| #[trigger] udone(res, m, ro) && kd(b, d, i) == Some(m) implies jd(unode(res), kd(a, d, i), kd(b, d, i), d + 1, j) by {
            assert(wf(m, d + 1));
            let g: spec_fn(int) -> Ent<S, X> = gu(ro, m, d + 1);
            assert forall|x: int| #[trigger] jat(unode(res), kd(a, d, i), kd(b, d, i), d + 1, j, x) by { assert(olook(unode(res), d + 1, x) == g(x)); }
        }
    }
}
pub open spec fn flips4<K, V, L, W, S, X, R, F: Fn(&K, &V, &L, &W) -> MapTransmuteResult<S, X, R>, C: Fn(&L, &W, &K, &V) -> MapTransmuteResult<S, X, R>>(f: F, c: C) -> bool {
    (forall|l: &L, w: &W, k: &K, v: &V| #[trigger] c.requires((l, w, k, v)))
    && (forall|l: &L, w: &W, k: &K, v: &V, r: MapTransmuteResult<S, X, R>| #[trigger] c.ensures((l, w, k, v), r) ==> r == fap4::<F, K, V, L, W, MapTransmuteResult<S, X, R>>(f, *k, *v, *l, *w))
}
pub proof fn flip_ok4<K, V, L, W, S, X, R, F: Fn(&K, &V, &L, &W) -> MapTransmuteResult<S, X, R>, C: Fn(&L, &W, &K, &V) -> MapTransmuteResult<S, X, R>>(op: MapTransmute<R, F>, po: MapTransmute<R, C>)
    requires op is Generic <==> po is Generic, op is Generic ==> flips4::<K, V, L, W, S, X, R, F, C>(op->Generic_0, po->Generic_0), op is Removed ==> op->Removed_0 == po->Removed_0
    ensures muok4::<L, W, K, V, S, X, R, C>(po), uflip::<K, V, L, W, S, X, R, F, C>(op, po)
{
    if let MapTransmute::Generic(c) = po {
        ax_call4::<L, W, K, V, MapTransmuteResult<S, X, R>, C>(c);
        let f = op->Generic_0;
        assert forall|l: L, w: W, k: K, v: V| #[trigger] fap4::<C, L, W, K, V, MapTransmuteResult<S, X, R>>(c, l, w, k, v) == fap4::<F, K, V, L, W, MapTransmuteResult<S, X, R>>(f, k, v, l, w) by {
            assert(c.requires((&l, &w, &k, &v)));
        }
    }
}
pub open spec fn ln<K: Key, V: Value>(l: Arc<LNode<K, V>>) -> LNodeNext<K, V> { l.next }
pub proof fn ln_hid<K: Key, V: Value>(l: Arc<LNode<K, V>>) requires lwf(*l)
    ensures hid(nid(l.next)) == hid(kid(l.key)), nwf(l.next), nsz(l.next) + 1 == nsz(LNodeNext::L(l)), nsz(l.next) > 0
{ lall(l); lsz(l); nid_all(ln(l)); let n = ln(l); assert(nfind(n, nid(n)) is Some); nhash(LNodeNext::L(l), lid(l)); }
pub proof fn rf_some<L, W>(s: Seq<(&L, &W)>, i: int) requires runq(s), 0 <= i < s.len() ensures rfind(s, kid(*s[i].0)) == Some((*s[i].0, *s[i].1)) {}
pub open spec fn rnot<L, W>(s: Seq<(&L, &W)>, n: int, x: int) -> bool { forall|k: int| 0 <= k < n ==> kid(*(#[trigger] s[k]).0) != x }
pub proof fn rf_all<L, W>(s: Seq<(&L, &W)>) requires runq(s)
    ensures forall|i: int| 0 <= i < s.len() ==> rfind(s, kid(*(#[trigger] s[i]).0)) == Some((*s[i].0, *s[i].1)), forall|x: int| #[trigger] rnot(s, s.len() as int, x) ==> rfind(s, x) is None
{ }

/// taking from the list what the left entries are combined with
pub proof fn rt_s<K: Key, V: Value, L: Key, W: Value>(a: LNodeNext<K, V>, s: Seq<(&L, &W)>)
    requires runq(s)
    ensures match a { LNodeNext::S(sn) => (rnot(s, s.len() as int, kid(sn.key)) ==> rtake(s, s, a) && rfind(s, kid(sn.key)) is None)
        && forall|i: int, t: Seq<(&L, &W)>| #[trigger] rswap(s, i, t) && 0 <= i < s.len() && kid(*s[i].0) == kid(sn.key) ==> rtake(s, t, a) && rfind(s, kid(sn.key)) == Some((*s[i].0, *s[i].1)), _ => true }
{
    if let LNodeNext::S(sn) = a {
        rf_all(s); let k = sid(sn);
        assert forall|x: int| nfind(a, x) is Some <==> x == k by {}
        assert forall|i: int, t: Seq<(&L, &W)>| #[trigger] rswap(s, i, t) && 0 <= i < s.len() && kid(*s[i].0) == k implies rtake(s, t, a) && rfind(s, k) == Some((*s[i].0, *s[i].1)) by { rf_at(s, i); }
    }
}
pub proof fn rt_l<K: Key, V: Value, L: Key, W: Value>(l: Arc<LNode<K, V>>, s: Seq<(&L, &W)>)
    requires runq(s), lwf(*l)
    ensures forall|m: Seq<(&L, &W)>| #[trigger] rtake(s, m, l.next) ==> runq(m),
        forall|m: Seq<(&L, &W)>| #[trigger] rtake(s, m, l.next) && rnot(m, m.len() as int, kid(l.key)) ==> rtake(s, m, LNodeNext::L(l)) && rfind(s, kid(l.key)) is None,
        forall|m: Seq<(&L, &W)>, i: int, t: Seq<(&L, &W)>| #[trigger] rtake(s, m, l.next) && #[trigger] rswap(m, i, t) && 0 <= i < m.len() && kid(*m[i].0) == kid(l.key) ==> rtake(s, t, LNodeNext::L(l)) && rfind(s, kid(l.key)) == Some((*m[i].0, *m[i].1)),
{
    lall(l); let k = lid(l); let n = ln(l);
    assert forall|m: Seq<(&L, &W)>| #[trigger] rtake(s, m, l.next) && rnot(m, m.len() as int, kid(l.key)) implies rtake(s, m, LNodeNext::L(l)) && rfind(s, kid(l.key)) is None by { rf_all(m); assert(rfind(m, k) is None); assert(nfind(n, k) is None); assert(rfind(m, k) == rfind(s, k)); }
    assert forall|m: Seq<(&L, &W)>, i: int, t: Seq<(&L, &W)>| #[trigger] rtake(s, m, l.next) && #[trigger] rswap(m, i, t) && 0 <= i < m.len() && kid(*m[i].0) == kid(l.key) implies rtake(s, t, LNodeNext::L(l)) && rfind(s, kid(l.key)) == Some((*m[i].0, *m[i].1)) by {
        rf_at(m, i); assert(nfind(n, k) is None); assert(rfind(m, k) == rfind(s, k));
        assert forall|x: int| #[trigger] rfind(t, x) == if nfind(LNodeNext::L(l), x) is Some { None } else { rfind(s, x) } by { if x != k { assert(rfind(m, x) == if nfind(n, x) is Some { None } else { rfind(s, x) }); } }
    }
}
/// the entry of the list put in front of what the others gave
pub proof fn gi_put<K: Key, V: Value, L: Key, W: Value, S: Key, X: Value, R, FB, FL>(bo: MapTransmute<R, FB>, lo: MapTransmute<R, FL>, l: Arc<LNode<K, V>>, s: Seq<(&L, &W)>)
    requires lwf(*l), mukey4::<K, V, L, W, S, X, R, FB>(bo), mukey::<K, V, S, X, R, FL>(lo)
    ensures forall|res: LNodeTransmuteResult<S, X, R>, n: nat| #[trigger] olreal(lunode(res), n, ontou(gi::<K, V, L, W, S, X, R, FB, FL>(bo, lo, l.next, s), ri::<K, V, L, W, S, X, R, FB, FL>(bo, lo, l, s))) ==> olreal(lunode(res), n, gi::<K, V, L, W, S, X, R, FB, FL>(bo, lo, LNodeNext::L(l), s)),
        forall|res: LNodeTransmuteResult<S, X, R>, n: nat| #[trigger] olreal(lunode(res), n, gi::<K, V, L, W, S, X, R, FB, FL>(bo, lo, l.next, s)) && n < usize::MAX ==> fits(ri::<K, V, L, W, S, X, R, FB, FL>(bo, lo, l, s), lunode(res)),
{
    gi_step::<K, V, L, W, S, X, R, FB, FL>(bo, lo, l, s);
    assert forall|res: LNodeTransmuteResult<S, X, R>, n: nat| #[trigger] olreal(lunode(res), n, ontou(gi::<K, V, L, W, S, X, R, FB, FL>(bo, lo, l.next, s), ri::<K, V, L, W, S, X, R, FB, FL>(bo, lo, l, s))) implies olreal(lunode(res), n, gi::<K, V, L, W, S, X, R, FB, FL>(bo, lo, LNodeNext::L(l), s)) by {
        let g = ontou(gin::<K, V, L, W, S, X, R, FB, FL>(bo, lo, l, s), ri::<K, V, L, W, S, X, R, FB, FL>(bo, lo, l, s));
        let h = gi::<K, V, L, W, S, X, R, FB, FL>(bo, lo, LNodeNext::L(l), s);
        assert forall|x: int| #[trigger] h(x) == g(x) by { }
        if lunode(res) is None { assert forall|x: int| (#[trigger] h(x)) is None by { assert(g(x) is None); } }
    }
}
pub proof fn gi_base<K: Key, V: Value, L: Key, W: Value>(a: LNodeNext<K, V>, s: Seq<(&L, &W)>)
    ensures match a { LNodeNext::S(sn) => nsz(a) == 1, _ => true }
{ }
pub proof fn gk_put<K: Key, V: Value, L: Key, W: Value, S: Key, X: Value, R, FB, FL, FR>(bo: MapTransmute<R, FB>, lo: MapTransmute<R, FL>, ro: MapTransmute<R, FR>, a: LNodeNext<K, V>, b: LNodeNext<L, W>, t: Seq<(&L, &W)>, i: int)
    requires rleft(t, a, b), 0 <= i < t.len(), nwf(a), nwf(b), hid(nid(a)) == hid(nid(b)), mukey::<L, W, S, X, R, FR>(ro)
    ensures forall|res: LNodeTransmuteResult<S, X, R>, n: nat| #[trigger] olreal(lunode(res), n, gk::<K, V, L, W, S, X, R, FB, FL, FR>(bo, lo, ro, a, b, t.take(i))) && n < usize::MAX ==> fits(mup::<L, W, S, X, R, FR>(ro, t[i]), lunode(res)) && (match lunode(res) { Some(m) => nwf(m), None => true }),
       forall|res: LNodeTransmuteResult<S, X, R>, nx: LNodeTransmuteResult<S, X, R>, n: nat| #[trigger] olreal(lunode(res), n, gk::<K, V, L, W, S, X, R, FB, FL, FR>(bo, lo, ro, a, b, t.take(i))) && n < usize::MAX && consu(mup::<L, W, S, X, R, FR>(ro, t[i]), lunode(res), #[trigger] lunode(nx))
         ==> olreal(lunode(nx), n + 1, gk::<K, V, L, W, S, X, R, FB, FL, FR>(bo, lo, ro, a, b, t.take(i + 1)))
{
    gk_step::<K, V, L, W, S, X, R, FB, FL, FR>(bo, lo, ro, a, b, t, i);
    let g: spec_fn(int) -> Ent<S, X> = gk::<K, V, L, W, S, X, R, FB, FL, FR>(bo, lo, ro, a, b, t.take(i));
    let h: spec_fn(int) -> Ent<S, X> = gk::<K, V, L, W, S, X, R, FB, FL, FR>(bo, lo, ro, a, b, t.take(i + 1));
    let r = mup::<L, W, S, X, R, FR>(ro, t[i]);
    assert forall|res: LNodeTransmuteResult<S, X, R>, nx: LNodeTransmuteResult<S, X, R>, n: nat| #[trigger] olreal(lunode(res), n, g) && n < usize::MAX && consu(r, lunode(res), #[trigger] lunode(nx)) implies olreal(lunode(nx), n + 1, h) by {
        if let Some(m) = lunode(nx) { if m is L { lall(m->L_0); } }
        assert(fits(r, lunode(res)));
        assert(olreal(lunode(nx), n + 1, ontou(g, r)));
        assert forall|x: int| #[trigger] h(x) == ontou(g, r)(x) by { }
        if lunode(nx) is None { assert forall|x: int| (#[trigger] h(x)) is None by { assert(ontou(g, r)(x) is None); } }
    }
}
/// q is p with a node for the answer in front
pub open spec fn consu<S: Key, X: Value, R>(r: MapTransmuteResult<S, X, R>, p: Option<LNodeNext<S, X>>, q: Option<LNodeNext<S, X>>) -> bool {
    match r {
        MapTransmuteResult::Transmuted(k, v, _) => match p {
            Some(n) => match q { Some(LNodeNext::L(l)) => l.key == k && l.value == v && l.next == n && l.size == nsz(n) + 1, _ => false },
            None => match q { Some(LNodeNext::S(s)) => s.key == k && s.value == v, _ => false },
        },
        MapTransmuteResult::Removed(_) => q == p,
    }
}
pub proof fn ll_init<H: Hashword, F: Flagword<H>, K: Key, V: Value, L: Key, W: Value, M>(a: Arc<LNode<K, V>>, b: Arc<LNode<L, W>>, d: nat)
    requires jpre::<H, F, K, V, L, W, M>(MNode::L(a), MNode::L(b), d)
    ensures lwf(*a), lwf(*b), nwf(LNodeNext::L(a)), nwf(LNodeNext::L(b)), nsz(LNodeNext::L(a)) + nsz(LNodeNext::L(b)) <= cap(),
        forall|s: Seq<(&L, &W)>| #[trigger] rall(s, LNodeNext::L(b)) ==> runq(s) && s.len() == nsz(LNodeNext::L(b)) && (hid(kid(a.key)) == hid(kid(b.key)) ==> forall|x: int| (#[trigger] rfind(s, x)) is Some ==> hid(x) == hid(kid(a.key))),
        forall|s: Seq<(&L, &W)>, t: Seq<(&L, &W)>| rall(s, LNodeNext::L(b)) && #[trigger] rtake(s, t, LNodeNext::L(a)) ==> t.len() <= nsz(LNodeNext::L(b))
{
    lsz(a); lsz(b); nid_all(LNodeNext::L(b));
}
pub proof fn h_from<H: Hashword, F: Flagword<H>, S: Key, X: Value, M>()
    ensures forall|n: Option<LNodeNext<S, X>>, b: nat, h: int| #[trigger] hashed(n, b, h) ==> match n {
        Some(n) => wf(from_next::<H, F, S, X, M>(n), 0) && !(from_next::<H, F, S, X, M>(n) is C) && sz(from_next::<H, F, S, X, M>(n)) == nsz(n) && 0 < nsz(n) <= b && (forall|x: int| (#[trigger] look(from_next::<H, F, S, X, M>(n), 0, x)) is Some ==> hid(x) == h),
        None => true }
{
    assert forall|n: Option<LNodeNext<S, X>>, b: nat, h: int| #[trigger] hashed(n, b, h) implies match n {
        Some(n) => wf(from_next::<H, F, S, X, M>(n), 0) && !(from_next::<H, F, S, X, M>(n) is C) && sz(from_next::<H, F, S, X, M>(n)) == nsz(n) && 0 < nsz(n) <= b && (forall|x: int| (#[trigger] look(from_next::<H, F, S, X, M>(n), 0, x)) is Some ==> hid(x) == h),
        None => true } by {
        if let Some(m) = n {
            if m is L { lsz(m->L_0); }
            assert forall|x: int| (#[trigger] look(from_next::<H, F, S, X, M>(m), 0, x)) is Some implies hid(x) == h by { look_n::<H, F, S, X, M>(m, 0, x); }
        }
    }
}
pub proof fn j_fin<H: Hashword, F: Flagword<H>, K: Key, V: Value, L: Key, W: Value, S: Key, X: Value, M, R>(a: MNode<H, F, K, V, M>, b: MNode<H, F, L, W, M>, d: nat, j: Jr<K, V, L, W, S, X>)
    requires jpre(a, b, d), jnone(j), d < lv()
    ensures forall|size: usize, bits: F, s: Seq<MNode<H, F, S, X, M>>, res: MNodeTransmuteResult<H, F, S, X, M, R>| #![trigger jpart(size, bits, s, a, b, d, j, 0, wd()), jd(unode(res), Some(a), Some(b), d, j)]
        jpart(size, bits, s, a, b, d, j, 0, wd()) && built(bits, s, unode(res)) ==> jd(unode(res), Some(a), Some(b), d, j),
      forall|size: usize, bits: F, s: Seq<MNode<H, F, S, X, M>>| #[trigger] jpart(size, bits, s, a, b, d, j, 0, wd()) ==> rank(bits, wd()) == s.len() && size == ssum(s)
{
    assert forall|size: usize, bits: F, s: Seq<MNode<H, F, S, X, M>>, res: MNodeTransmuteResult<H, F, S, X, M, R>| #![trigger jpart(size, bits, s, a, b, d, j, 0, wd()), jd(unode(res), Some(a), Some(b), d, j)]
        jpart(size, bits, s, a, b, d, j, 0, wd()) && built(bits, s, unode(res)) implies jd(unode(res), Some(a), Some(b), d, j) by { j_built::<H, F, K, V, L, W, S, X, M>(size, bits, s, a, b, d, j, unode(res)); }
}
pub proof fn j_step<H: Hashword, F: Flagword<H>, K: Key, V: Value, L: Key, W: Value, S: Key, X: Value, M, R, FB, FL, FR>(size: usize, bits: F, s: Seq<MNode<H, F, S, X, M>>, a: MNode<H, F, K, V, M>, b: MNode<H, F, L, W, M>, d: nat, bo: MapTransmute<R, FB>, lo: MapTransmute<R, FL>, ro: MapTransmute<R, FR>, low: nat, i: nat)
    requires jpre(a, b, d), i < wd(), low <= i, jpart(size, bits, s, a, b, d, ju::<K, V, L, W, S, X, R, FB, FL, FR>(bo, lo, ro), low, i)
    ensures jkid(a, b, d, i), slot(bits, s, i) is None, !hb(bits, i),
        kd(a, d, i) is None && kd(b, d, i) is None ==> jpart(size, bits, s, a, b, d, ju::<K, V, L, W, S, X, R, FB, FL, FR>(bo, lo, ro), low, i + 1),
        forall|n: Option<MNode<H, F, S, X, M>>, e: nat| #[trigger] jd(n, kd(a, d, i), kd(b, d, i), e, ju::<K, V, L, W, S, X, R, FB, FL, FR>(bo, lo, ro)) && e == d + 1 ==> jnext(size, bits, s, a, b, d, ju::<K, V, L, W, S, X, R, FB, FL, FR>(bo, lo, ro), low, i, n),
        kd(b, d, i) is None ==> forall|res: MNodeTransmuteResult<H, F, S, X, M, R>, m: MNode<H, F, K, V, M>| #[trigger] udone(res, m, lo) && kd(a, d, i) == Some(m) ==> jd(unode(res), kd(a, d, i), kd(b, d, i), d + 1, ju::<K, V, L, W, S, X, R, FB, FL, FR>(bo, lo, ro)),
        kd(a, d, i) is None ==> forall|res: MNodeTransmuteResult<H, F, S, X, M, R>, m: MNode<H, F, L, W, M>| #[trigger] udone(res, m, ro) && kd(b, d, i) == Some(m) ==> jd(unode(res), kd(a, d, i), kd(b, d, i), d + 1, ju::<K, V, L, W, S, X, R, FB, FL, FR>(bo, lo, ro))
{
    let j = ju::<K, V, L, W, S, X, R, FB, FL, FR>(bo, lo, ro);
    j_kid(a, b, d, i); j_slot::<H, F, K, V, L, W, S, X, M>(a, b, d, j, i); j_one::<H, F, K, V, L, W, S, X, M, R, FB, FL, FR>(a, b, d, bo, lo, ro, i);
    acc_step(bits, s, low, i, js::<H, F, K, V, L, W, S, X, M>(a, b, d, j)); ksum_all(a, d, i); ksum_all(b, d, i);
    assert forall|n: Option<MNode<H, F, S, X, M>>, e: nat| #[trigger] jd(n, kd(a, d, i), kd(b, d, i), e, j) && e == d + 1 implies jnext(size, bits, s, a, b, d, j, low, i, n) by { assert(jslot(a, b, d, j, i, n)); }
}
/// adding n in slot i
pub open spec fn jnext<H: Hashword, F: Flagword<H>, K: Key, V: Value, L: Key, W: Value, S: Key, X: Value, M>(size: usize, b: F, s: Seq<MNode<H, F, S, X, M>>, na: MNode<H, F, K, V, M>, nb: MNode<H, F, L, W, M>, d: nat, j: Jr<K, V, L, W, S, X>, lo: nat, i: nat, n: Option<MNode<H, F, S, X, M>>) -> bool {
    match n { None => jpart(size, b, s, na, nb, d, j, lo, i + 1),
        Some(m) => wf(m, d + 1) && size + sz(m) <= cap() && forall|r: F, k: nat| #[trigger] ins(b, k, r) && k == i ==> jpart((size + sz(m)) as usize, r, s.push(m), na, nb, d, j, lo, i + 1) }
}
pub proof fn j_pre<H: Hashword, F: Flagword<H>, K: Key, V: Value, L: Key, W: Value, M>(a: MNode<H, F, K, V, M>, b: MNode<H, F, L, W, M>, d: nat)
    requires jpre(a, b, d)
    ensures b is L ==> lwf(*b->L_0), a is C ==> d < lv() && bok(cn(a->C_0)), b is C ==> d < lv() && bok(cn(b->C_0)), wfx(a), wfx(b), jpre(b, a, d)
{ if let MNode::C(c) = a { wf_c1(c, d); } if let MNode::C(c) = b { wf_c1(c, d); }
  assert forall|x: int, y: int, i: nat| (#[trigger] look(b, d, x)) is Some && (#[trigger] look(a, d, y)) is Some && i < d implies #[trigger] dg(x, i) == dg(y, i) by { assert(dg(y, i) == dg(x, i)); }
}
pub proof fn j_new<H: Hashword, F: Flagword<H>, K: Key, V: Value, L: Key, W: Value, S: Key, X: Value, M>(a: MNode<H, F, K, V, M>, b: MNode<H, F, L, W, M>, d: nat, j: Jr<K, V, L, W, S, X>, lo: nat, z: usize)
    requires lo <= wd(), z == 0 ensures jpart(z, dflt::<F>(), Seq::<MNode<H, F, S, X, M>>::empty(), a, b, d, j, lo, lo)
{ acc_new(dflt::<F>(), Seq::<MNode<H, F, S, X, M>>::empty(), lo, js::<H, F, K, V, L, W, S, X, M>(a, b, d, j)); }
pub proof fn jkid_all<H: Hashword, F: Flagword<H>, K: Key, V: Value, L: Key, W: Value, M>(a: MNode<H, F, K, V, M>, b: MNode<H, F, L, W, M>, d: nat, i: nat)
    requires jkid(a, b, d, i)
    ensures kd(a, d, i) is Some ==> wfx(kd(a, d, i)->0), kd(b, d, i) is Some ==> wfx(kd(b, d, i)->0), kd(a, d, i) is Some && kd(b, d, i) is Some ==> jpre(kd(a, d, i)->0, kd(b, d, i)->0, d + 1)
{}

pub proof fn j_top<H: Hashword, F: Flagword<H>, K: Key, V: Value, L: Key, W: Value, S: Key, X: Value, M, R, FB, FL, FR>(a: MNode<H, F, K, V, M>, b: MNode<H, F, L, W, M>, bo: MapTransmute<R, FB>, lo: MapTransmute<R, FL>, ro: MapTransmute<R, FR>)
    ensures wf(a, 0) && wf(b, 0) && sz(a) + sz(b) <= cap() ==> jpre(a, b, 0),
        forall|res: MNodeTransmuteResult<H, F, S, X, M, R>| #[trigger] jd(unode(res), Some(a), Some(b), 0, ju::<K, V, L, W, S, X, R, FB, FL, FR>(bo, lo, ro)) ==>
            (match unode(res) { Some(m) => wf(m, 0) && 0 < sz(m) <= sz(a) + sz(b), None => true }) && forall|x: int| olook(unode(res), 0, x) == jux::<K, V, L, W, S, X, R, FB, FL, FR>(bo, lo, ro, #[trigger] look(a, 0, x), look(b, 0, x))
{
    let j = ju::<K, V, L, W, S, X, R, FB, FL, FR>(bo, lo, ro);
    assert forall|res: MNodeTransmuteResult<H, F, S, X, M, R>| #[trigger] jd(unode(res), Some(a), Some(b), 0, j) implies forall|x: int| olook(unode(res), 0, x) == jux::<K, V, L, W, S, X, R, FB, FL, FR>(bo, lo, ro, #[trigger] look(a, 0, x), look(b, 0, x)) by {
        assert forall|x: int| olook(unode(res), 0, x) == jux::<K, V, L, W, S, X, R, FB, FL, FR>(bo, lo, ro, #[trigger] look(a, 0, x), look(b, 0, x)) by { assert(jat(unode(res), Some(a), Some(b), 0, j, x)); }
    }
}
