
// ---- two maps of one type ----
pub open spec fn mjflip<V, R>(r: MapJointTransformResult<V, R>) -> MapJointTransformResult<V, R> {
    match r { MapJointTransformResult::UnchangedLR(r) => MapJointTransformResult::UnchangedLR(r), MapJointTransformResult::UnchangedL(r) => MapJointTransformResult::UnchangedR(r), MapJointTransformResult::UnchangedR(r) => MapJointTransformResult::UnchangedL(r),
        MapJointTransformResult::Transformed(v, r) => MapJointTransformResult::Transformed(v, r), MapJointTransformResult::Removed(r) => MapJointTransformResult::Removed(r) }
}
/// what the operation says about the left entry (k, v) and the right entry (l, w)
pub open spec fn mj<K, V, R, F>(op: MapJointTransform<R, F>, k: K, v: V, l: K, w: V) -> MapJointTransformResult<V, R> {
    match op {
        MapJointTransform::Generic(f, z) => if z { mjflip(fap4::<F, K, V, K, V, MapJointTransformResult<V, R>>(f, l, w, k, v)) } else { fap4::<F, K, V, K, V, MapJointTransformResult<V, R>>(f, k, v, l, w) },
        MapJointTransform::UnchangedLR(r) => MapJointTransformResult::UnchangedLR(r), MapJointTransform::UnchangedL(r) => MapJointTransformResult::UnchangedL(r), MapJointTransform::UnchangedR(r) => MapJointTransformResult::UnchangedR(r),
        MapJointTransform::Removed(r) => MapJointTransformResult::Removed(r),
    }
}
pub open spec fn mjok<K, V, R, F: Fn(&K, &V, &K, &V) -> MapJointTransformResult<V, R>>(op: MapJointTransform<R, F>) -> bool {
    op is Generic ==> pure4::<K, V, K, V, MapJointTransformResult<V, R>, F>(op->Generic_0)
}
pub open spec fn opflip<R, F>(op: MapJointTransform<R, F>) -> MapJointTransform<R, F> {
    match op { MapJointTransform::Generic(f, z) => MapJointTransform::Generic(f, !z), MapJointTransform::UnchangedL(r) => MapJointTransform::UnchangedR(r), MapJointTransform::UnchangedR(r) => MapJointTransform::UnchangedL(r), _ => op }
}
/// the entry a decision about a (left) and b (right) allows
pub open spec fn jch<K, V, R>(m: MapJointTransformResult<V, R>, a: (K, V), b: (K, V), r: Ent<K, V>) -> bool {
    match m {
        MapJointTransformResult::UnchangedLR(_) => r == Some(a) || r == Some(b),
        MapJointTransformResult::UnchangedL(_) => r == Some(a),
        MapJointTransformResult::UnchangedR(_) => r == Some(b),
        MapJointTransformResult::Transformed(v, _) => match r { Some(c) => c.1 == v && (c.0 == a.0 || c.0 == b.0), None => false },
        MapJointTransformResult::Removed(_) => r is None,
    }
}
pub open spec fn jffx<K, V, R, FB, FL, FR>(bo: MapJointTransform<R, FB>, lo: MapTransform<R, FL>, ro: MapTransform<R, FR>, e: Ent<K, V>, f: Ent<K, V>, r: Ent<K, V>) -> bool {
    match e {
        Some(a) => match f { Some(b) => jch(mj(bo, a.0, a.1, b.0, b.1), a, b, r), None => r == tx(lo, e) },
        None => r == tx(ro, f),
    }
}
pub open spec fn jff<K, V, R, FB, FL, FR>(bo: MapJointTransform<R, FB>, lo: MapTransform<R, FL>, ro: MapTransform<R, FR>) -> Jr<K, V, K, V, K, V> {
    |e: Ent<K, V>, f: Ent<K, V>, r: Ent<K, V>| jffx::<K, V, R, FB, FL, FR>(bo, lo, ro, e, f, r)
}
pub proof fn jff_sides<K, V, R, FB, FL, FR>(bo: MapJointTransform<R, FB>, lo: MapTransform<R, FL>, ro: MapTransform<R, FR>)
    ensures jnone(jff::<K, V, R, FB, FL, FR>(bo, lo, ro)), jlt(jff::<K, V, R, FB, FL, FR>(bo, lo, ro), lo), jrt(jff::<K, V, R, FB, FL, FR>(bo, lo, ro), ro) {}
/// the entry chosen when both sides have one, the left one where either will do
pub open spec fn mjl<K, V, R>(k: K, v: V, l: K, w: V, m: MapJointTransformResult<V, R>) -> Ent<K, V> {
    match m { MapJointTransformResult::UnchangedLR(_) => Some((k, v)), MapJointTransformResult::UnchangedL(_) => Some((k, v)), MapJointTransformResult::UnchangedR(_) => Some((l, w)),
        MapJointTransformResult::Transformed(x, _) => Some((k, x)), MapJointTransformResult::Removed(_) => None }
}
// leaf results
pub open spec fn fl<K: Key, V: Value, R>(r: LNodeJointTransformResult<K, V, R>, a: LNodeNext<K, V>, b: LNodeNext<K, V>) -> Option<LNodeNext<K, V>> {
    match r { LNodeJointTransformResult::UnchangedLR(_) => Some(a), LNodeJointTransformResult::UnchangedL(_) => Some(a), LNodeJointTransformResult::UnchangedR(_) => Some(b),
        LNodeJointTransformResult::L(l, _) => Some(LNodeNext::L(l)), LNodeJointTransformResult::S(s, _) => Some(LNodeNext::S(s)), LNodeJointTransformResult::Removed(_) => None }
}
pub open spec fn flz<K: Key, V: Value, R>(r: LNodeJointTransformResult<K, V, R>, a: LNodeNext<K, V>) -> Option<LNodeNext<K, V>> { fl(r, a, a) }
/// the right side would do as well
pub open spec fn lrall<K: Key, V: Value>(a: LNodeNext<K, V>, s: Seq<(&K, &V)>, j: Jr<K, V, K, V, K, V>) -> bool {
    forall|x: int| (#[trigger] nfind(a, x)) is Some ==> rfind(s, x) is Some && j(nfind(a, x), rfind(s, x), rfind(s, x))
}
pub open spec fn lrb<K: Key, V: Value>(a: LNodeNext<K, V>, b: LNodeNext<K, V>, j: Jr<K, V, K, V, K, V>) -> bool {
    forall|x: int| (#[trigger] nfind(a, x)) is Some ==> nfind(b, x) is Some && j(nfind(a, x), nfind(b, x), nfind(b, x))
}
pub proof fn lr_put<K: Key, V: Value>(l: Arc<LNode<K, V>>, s: Seq<(&K, &V)>, j: Jr<K, V, K, V, K, V>)
    requires lwf(*l)
    ensures rfind(s, kid(l.key)) is Some && j(Some((l.key, l.value)), rfind(s, kid(l.key)), rfind(s, kid(l.key))) && lrall(l.next, s, j) ==> lrall(LNodeNext::L(l), s, j),
        match l.next { LNodeNext::S(sn) => rfind(s, kid(sn.key)) is Some && j(Some((sn.key, sn.value)), rfind(s, kid(sn.key)), rfind(s, kid(sn.key))) ==> lrall(l.next, s, j), _ => true }
{
    lall(l); let n = ln(l); let a = LNodeNext::L(l);
    if rfind(s, lid(l)) is Some && j(Some(le(l)), rfind(s, lid(l)), rfind(s, lid(l))) && lrall(n, s, j) {
        assert forall|x: int| (#[trigger] nfind(a, x)) is Some implies rfind(s, x) is Some && j(nfind(a, x), rfind(s, x), rfind(s, x)) by { if x != lid(l) { assert(nfind(a, x) == nfind(n, x)); } }
    }
    if let LNodeNext::S(sn) = n {
        assert forall|x: int| nfind(n, x) == if x == sid(sn) { Some(se(sn)) } else { None::<(K, V)> } by {}
    }
}
pub proof fn lr_fin<K: Key, V: Value>(a: LNodeNext<K, V>, b: LNodeNext<K, V>, j: Jr<K, V, K, V, K, V>)
    requires nwf(a), nwf(b), jnone(j)
    ensures forall|s: Seq<(&K, &V)>| rall(s, b) && #[trigger] lrall(a, s, j) ==> lrb(a, b, j),
        forall|t: Seq<(&K, &V)>| #[trigger] rleft(t, a, b) && t.len() == 0 && lrb(a, b, j) ==> lj(Some(b), a, b, j)
{
    nid_all(b);
    assert forall|s: Seq<(&K, &V)>| rall(s, b) && #[trigger] lrall(a, s, j) implies lrb(a, b, j) by {
        assert forall|x: int| (#[trigger] nfind(a, x)) is Some implies nfind(b, x) is Some && j(nfind(a, x), nfind(b, x), nfind(b, x)) by { assert(rfind(s, x) == nfind(b, x)); }
    }
    assert forall|t: Seq<(&K, &V)>| #[trigger] rleft(t, a, b) && t.len() == 0 && lrb(a, b, j) implies lj(Some(b), a, b, j) by {
        assert forall|x: int| #[trigger] ljat(Some(b), a, b, j, x) by { assert(rfind(t, x) is None); assert(rfind(t, x) == if nfind(a, x) is Some { None } else { nfind(b, x) }); }
    }
}
/// q is p with e in front
pub open spec fn conse<K: Key, V: Value>(e: Ent<K, V>, p: Option<LNodeNext<K, V>>, q: Option<LNodeNext<K, V>>) -> bool {
    match e {
        Some(c) => match p {
            Some(n) => match q { Some(LNodeNext::L(l)) => l.key == c.0 && l.value == c.1 && l.next == n && l.size == nsz(n) + 1, _ => false },
            None => match q { Some(LNodeNext::S(s)) => s.key == c.0 && s.value == c.1, _ => false },
        },
        None => q == p,
    }
}
pub proof fn lf_next<K: Key, V: Value, R, FR>(a: LNodeNext<K, V>, b: LNodeNext<K, V>, t: Seq<(&K, &V)>, i: int, j: Jr<K, V, K, V, K, V>, ro: MapTransform<R, FR>)
    requires rleft(t, a, b), 0 <= i < t.len(), nwf(a), nwf(b), hid(nid(a)) == hid(nid(b)), nsz(a) + nsz(b) < usize::MAX, jnone(j), jrt(j, ro)
    ensures forall|res: LNodeJointTransformResult<K, V, R>| #[trigger] lq(flz(res, a), a, b, t, i, j) ==> (match flz(res, a) { Some(m) => nwf(m) && nsz(m) < usize::MAX, None => true }),
       forall|res: LNodeJointTransformResult<K, V, R>, nx: LNodeJointTransformResult<K, V, R>| #[trigger] lq(flz(res, a), a, b, t, i, j) && conse(mtr(*t[i].0, *t[i].1, mt(ro, *t[i].0, *t[i].1)), flz(res, a), #[trigger] flz(nx, a))
         ==> lq(flz(nx, a), a, b, t, i + 1, j)
{
    lq_put::<K, V, K, V, K, V>(a, b, t, i, j);
    let k = kid(*t[i].0); let f = Some((*t[i].0, *t[i].1)); let e: Ent<K, V> = tx(ro, f);
    assert(j(None, f, e)); assert(e == mtr(*t[i].0, *t[i].1, mt(ro, *t[i].0, *t[i].1)));
    assert forall|res: LNodeJointTransformResult<K, V, R>, nx: LNodeJointTransformResult<K, V, R>| #[trigger] lq(flz(res, a), a, b, t, i, j) && conse(e, flz(res, a), #[trigger] flz(nx, a))
         implies lq(flz(nx, a), a, b, t, i + 1, j) by {
        let p = flz(res, a); let q = flz(nx, a);
        assert(pfit(p, k));
        if let Some(m) = q { if m is L { lall(m->L_0); } }
        assert(lputs(q, p, k, e));
    }
}
// node results
pub open spec fn oz<H: Hashword, F: Flagword<H>, K: Key, V: Value, M>(a: MNode<H, F, K, V, M>) -> Option<MNode<H, F, K, V, M>> { if sz(a) > 0 { Some(a) } else { None } }
pub open spec fn fz<H: Hashword, F: Flagword<H>, K: Key, V: Value, M, R>(r: MNodeJointTransformResult<H, F, K, V, M, R>, a: MNode<H, F, K, V, M>, b: MNode<H, F, K, V, M>) -> Option<MNode<H, F, K, V, M>> {
    match r { MNodeJointTransformResult::UnchangedLR(_) => oz(a), MNodeJointTransformResult::UnchangedL(_) => oz(a), MNodeJointTransformResult::UnchangedR(_) => oz(b),
        MNodeJointTransformResult::C(c, _) => Some(MNode::C(c)), MNodeJointTransformResult::L(l, _) => Some(MNode::L(l)), MNodeJointTransformResult::S(s, _) => Some(MNode::S(s)), MNodeJointTransformResult::Removed(_) => None }
}
/// what the operations on a and b give; "unchanged from both" must be right for either one
pub open spec fn fdo<H: Hashword, F: Flagword<H>, K: Key, V: Value, M, R>(r: MNodeJointTransformResult<H, F, K, V, M, R>, a: MNode<H, F, K, V, M>, b: MNode<H, F, K, V, M>, d: nat, j: Jr<K, V, K, V, K, V>) -> bool {
    jd(fz(r, a, b), Some(a), Some(b), d, j) && (r is UnchangedLR ==> jd(oz(b), Some(a), Some(b), d, j))
}
pub open spec fn from_lj<H: Hashword, F: Flagword<H>, K: Key, V: Value, M, R>(r: LNodeJointTransformResult<K, V, R>) -> MNodeJointTransformResult<H, F, K, V, M, R> {
    match r { LNodeJointTransformResult::UnchangedLR(r) => MNodeJointTransformResult::UnchangedLR(r), LNodeJointTransformResult::UnchangedL(r) => MNodeJointTransformResult::UnchangedL(r), LNodeJointTransformResult::UnchangedR(r) => MNodeJointTransformResult::UnchangedR(r),
        LNodeJointTransformResult::L(l, r) => MNodeJointTransformResult::L(l, r), LNodeJointTransformResult::S(s, r) => MNodeJointTransformResult::S(s, r), LNodeJointTransformResult::Removed(r) => MNodeJointTransformResult::Removed(r) }
}
pub open spec fn fjflip<H: Hashword, F: Flagword<H>, K: Key, V: Value, M, R>(r: MNodeJointTransformResult<H, F, K, V, M, R>) -> MNodeJointTransformResult<H, F, K, V, M, R> {
    match r { MNodeJointTransformResult::UnchangedL(r) => MNodeJointTransformResult::UnchangedR(r), MNodeJointTransformResult::UnchangedR(r) => MNodeJointTransformResult::UnchangedL(r), _ => r }
}
pub proof fn lj_f<H: Hashword, F: Flagword<H>, K: Key, V: Value, M, R>(a: LNodeNext<K, V>, b: LNodeNext<K, V>, d: nat, j: Jr<K, V, K, V, K, V>)
    requires nwf(a), nwf(b)
    ensures forall|r: LNodeJointTransformResult<K, V, R>| #![trigger lj(fl(r, a, b), a, b, j)] #![trigger from_lj::<H, F, K, V, M, R>(r)] lj(fl(r, a, b), a, b, j) && (r is UnchangedLR ==> lj(Some(b), a, b, j)) ==> fdo(from_lj::<H, F, K, V, M, R>(r), from_next::<H, F, K, V, M>(a), from_next::<H, F, K, V, M>(b), d, j)
{
    nid_all(a); nid_all(b);
    assert forall|r: LNodeJointTransformResult<K, V, R>| #[trigger] lj(fl(r, a, b), a, b, j) && (r is UnchangedLR ==> lj(Some(b), a, b, j)) implies fdo(from_lj::<H, F, K, V, M, R>(r), from_next::<H, F, K, V, M>(a), from_next::<H, F, K, V, M>(b), d, j) by {
        lj_m::<H, F, K, V, K, V, K, V, M>(fl(r, a, b), a, b, d, j);
        assert(fz(from_lj::<H, F, K, V, M, R>(r), from_next::<H, F, K, V, M>(a), from_next::<H, F, K, V, M>(b)) == omn::<H, F, K, V, M>(fl(r, a, b)));
        if r is UnchangedLR { lj_m::<H, F, K, V, K, V, K, V, M>(Some(b), a, b, d, j); assert(omn::<H, F, K, V, M>(Some(b)) == oz(from_next::<H, F, K, V, M>(b))); }
    }
}
pub proof fn jd_sw<H: Hashword, F: Flagword<H>, K: Key, V: Value, M, R, FB, FL, FR>(n: Option<MNode<H, F, K, V, M>>, a: MNode<H, F, K, V, M>, b: MNode<H, F, K, V, M>, d: nat, bo: MapJointTransform<R, FB>, lo: MapTransform<R, FL>, ro: MapTransform<R, FR>)
    requires jd(n, Some(b), Some(a), d, jff::<K, V, R, FB, FR, FL>(opflip(bo), ro, lo))
    ensures jd(n, Some(a), Some(b), d, jff::<K, V, R, FB, FL, FR>(bo, lo, ro))
{
    let po = opflip(bo);
    let j = jff::<K, V, R, FB, FR, FL>(po, ro, lo); let k = jff::<K, V, R, FB, FL, FR>(bo, lo, ro);
    assert forall|x: int| #[trigger] jat(n, Some(a), Some(b), d, k, x) by {
        assert(jat(n, Some(b), Some(a), d, j, x));
        let e = olook(Some(a), d, x); let f = olook(Some(b), d, x);
        if let (Some(ee), Some(ff)) = (e, f) { assert(mj::<K, V, R, FB>(po, ff.0, ff.1, ee.0, ee.1) == mjflip(mj::<K, V, R, FB>(bo, ee.0, ee.1, ff.0, ff.1))); }
    }
}
pub broadcast proof fn fd_flip<H: Hashword, F: Flagword<H>, K: Key, V: Value, M, R, FB, FL, FR>(r: MNodeJointTransformResult<H, F, K, V, M, R>, a: MNode<H, F, K, V, M>, b: MNode<H, F, K, V, M>, d: nat, bo: MapJointTransform<R, FB>, lo: MapTransform<R, FL>, ro: MapTransform<R, FR>)
    requires #[trigger] fdo(r, b, a, d, jff::<K, V, R, FB, FR, FL>(opflip(bo), ro, lo))
    ensures fdo(fjflip(r), a, b, d, jff::<K, V, R, FB, FL, FR>(bo, lo, ro))
{
    jd_sw(fz(r, b, a), a, b, d, bo, lo, ro);
    if r is UnchangedLR { jd_sw(oz(a), a, b, d, bo, lo, ro); }
}
/// the slots of c itself would do
pub open spec fn keep<H: Hashword, F: Flagword<H>, K: Key, V: Value, M>(c: MNode<H, F, K, V, M>, a: MNode<H, F, K, V, M>, b: MNode<H, F, K, V, M>, d: nat, j: Jr<K, V, K, V, K, V>, lo: nat, hi: nat) -> bool {
    forall|y: nat| lo <= y < hi ==> jd(#[trigger] kd(c, d, y), kd(a, d, y), kd(b, d, y), d + 1, j)
}
pub proof fn f_keep<H: Hashword, F: Flagword<H>, K: Key, V: Value, M>(c: MNode<H, F, K, V, M>, a: MNode<H, F, K, V, M>, b: MNode<H, F, K, V, M>, d: nat, j: Jr<K, V, K, V, K, V>)
    requires jpre(a, b, d), jnone(j), d < lv(), c == a || c == b
    ensures keep(c, a, b, d, j, 0, wd()) ==> jd(oz(c), Some(a), Some(b), d, j)
{
    if keep(c, a, b, d, j, 0, wd()) {
        let n = oz(c);
        assert forall|x: int| #[trigger] jat(n, Some(a), Some(b), d, j, x) by {
            let i = dg(x, d); ax_hdg(hid(x), d); assert(i < wd());
            at_kd(c, d, i); at_kd(a, d, i); at_kd(b, d, i); ksum_all(c, d, i);
            let s = kd(c, d, i);
            assert(jd(s, kd(a, d, i), kd(b, d, i), d + 1, j));
            assert(jat(s, kd(a, d, i), kd(b, d, i), d + 1, j, x));
            assert(look(c, d, x) == olook(s, d + 1, x));
            assert(look(a, d, x) == olook(kd(a, d, i), d + 1, x));
            assert(look(b, d, x) == olook(kd(b, d, i), d + 1, x));
            if sz(c) == 0 { assert(s is None); assert(olook(n, d, x) is None); }
        }
    }
}
/// the slots built so far
pub open spec fn fpart<H: Hashword, F: Flagword<H>, K: Key, V: Value, M>(size: usize, bits: F, s: Seq<MNode<H, F, K, V, M>>, ul: bool, ur: bool, a: MNode<H, F, K, V, M>, b: MNode<H, F, K, V, M>, d: nat, j: Jr<K, V, K, V, K, V>, lo: nat, hi: nat) -> bool {
    jpart(size, bits, s, a, b, d, j, lo, hi) && (ul ==> keep(a, a, b, d, j, lo, hi)) && (ur ==> keep(b, a, b, d, j, lo, hi))
}
pub proof fn f_new<H: Hashword, F: Flagword<H>, K: Key, V: Value, M>(a: MNode<H, F, K, V, M>, b: MNode<H, F, K, V, M>, d: nat, j: Jr<K, V, K, V, K, V>, lo: nat, z: usize)
    requires lo <= wd(), z == 0 ensures fpart(z, dflt::<F>(), Seq::<MNode<H, F, K, V, M>>::empty(), true, true, a, b, d, j, lo, lo)
{ j_new::<H, F, K, V, K, V, K, V, M>(a, b, d, j, lo, z); }
pub proof fn f_fin<H: Hashword, F: Flagword<H>, K: Key, V: Value, M, R, FB, FL, FR>(a: MNode<H, F, K, V, M>, b: MNode<H, F, K, V, M>, d: nat, bo: MapJointTransform<R, FB>, lo: MapTransform<R, FL>, ro: MapTransform<R, FR>)
    requires jpre(a, b, d), d < lv()
    ensures forall|size: usize, bits: F, s: Seq<MNode<H, F, K, V, M>>, ul: bool, ur: bool, res: MNodeJointTransformResult<H, F, K, V, M, R>|
        #![trigger fpart(size, bits, s, ul, ur, a, b, d, jff::<K, V, R, FB, FL, FR>(bo, lo, ro), 0, wd()), fdo(res, a, b, d, jff::<K, V, R, FB, FL, FR>(bo, lo, ro))]
        fpart(size, bits, s, ul, ur, a, b, d, jff::<K, V, R, FB, FL, FR>(bo, lo, ro), 0, wd())
        && (match res { MNodeJointTransformResult::UnchangedLR(_) => ul && ur, MNodeJointTransformResult::UnchangedL(_) => ul, MNodeJointTransformResult::UnchangedR(_) => ur, _ => built(bits, s, fz(res, a, b)) })
        ==> fdo(res, a, b, d, jff::<K, V, R, FB, FL, FR>(bo, lo, ro)),
      forall|size: usize, bits: F, s: Seq<MNode<H, F, K, V, M>>, ul: bool, ur: bool| #[trigger] fpart(size, bits, s, ul, ur, a, b, d, jff::<K, V, R, FB, FL, FR>(bo, lo, ro), 0, wd()) ==> rank(bits, wd()) == s.len() && size == ssum(s)
{
    let j = jff::<K, V, R, FB, FL, FR>(bo, lo, ro); jff_sides::<K, V, R, FB, FL, FR>(bo, lo, ro);
    f_keep(a, a, b, d, j); f_keep(b, a, b, d, j);
    assert forall|size: usize, bits: F, s: Seq<MNode<H, F, K, V, M>>, ul: bool, ur: bool, res: MNodeJointTransformResult<H, F, K, V, M, R>|
        #![trigger fpart(size, bits, s, ul, ur, a, b, d, j, 0, wd()), fdo(res, a, b, d, j)]
        fpart(size, bits, s, ul, ur, a, b, d, j, 0, wd())
        && (match res { MNodeJointTransformResult::UnchangedLR(_) => ul && ur, MNodeJointTransformResult::UnchangedL(_) => ul, MNodeJointTransformResult::UnchangedR(_) => ur, _ => built(bits, s, fz(res, a, b)) })
        implies fdo(res, a, b, d, j) by {
        match res { MNodeJointTransformResult::UnchangedLR(_) => {}, MNodeJointTransformResult::UnchangedL(_) => {}, MNodeJointTransformResult::UnchangedR(_) => {}, _ => { j_built::<H, F, K, V, K, V, K, V, M>(size, bits, s, a, b, d, j, fz(res, a, b)); } }
    }
}
pub open spec fn fnext<H: Hashword, F: Flagword<H>, K: Key, V: Value, M>(size: usize, bits: F, s: Seq<MNode<H, F, K, V, M>>, ul: bool, ur: bool, a: MNode<H, F, K, V, M>, b: MNode<H, F, K, V, M>, d: nat, j: Jr<K, V, K, V, K, V>, lo: nat, i: nat, n: Option<MNode<H, F, K, V, M>>) -> bool {
    match n { None => fpart(size, bits, s, ul, ur, a, b, d, j, lo, i + 1),
        Some(m) => wf(m, d + 1) && size + sz(m) <= cap() && forall|r: F, k: nat| #[trigger] ins(bits, k, r) && k == i ==> fpart((size + sz(m)) as usize, r, s.push(m), ul, ur, a, b, d, j, lo, i + 1) }
}
/// one more slot
pub proof fn f_step<H: Hashword, F: Flagword<H>, K: Key, V: Value, M, R, FB, FL, FR>(size: usize, bits: F, s: Seq<MNode<H, F, K, V, M>>, ul: bool, ur: bool, a: MNode<H, F, K, V, M>, b: MNode<H, F, K, V, M>, d: nat, bo: MapJointTransform<R, FB>, lo: MapTransform<R, FL>, ro: MapTransform<R, FR>, low: nat, i: nat)
    requires jpre(a, b, d), i < wd(), low <= i, fpart(size, bits, s, ul, ur, a, b, d, jff::<K, V, R, FB, FL, FR>(bo, lo, ro), low, i)
    ensures slot(bits, s, i) is None, !hb(bits, i),
        kd(a, d, i) is None && kd(b, d, i) is None ==> fpart(size, bits, s, ul, ur, a, b, d, jff::<K, V, R, FB, FL, FR>(bo, lo, ro), low, i + 1),
        // both sides have one
        forall|res: MNodeJointTransformResult<H, F, K, V, M, R>, m: MNode<H, F, K, V, M>, q: MNode<H, F, K, V, M>, e: nat| #[trigger] fdo(res, m, q, e, jff::<K, V, R, FB, FL, FR>(bo, lo, ro)) && e == d + 1 && kd(a, d, i) == Some(m) && kd(b, d, i) == Some(q)
            ==> fnext(size, bits, s, ul && (res is UnchangedLR || res is UnchangedL), ur && (res is UnchangedLR || res is UnchangedR), a, b, d, jff::<K, V, R, FB, FL, FR>(bo, lo, ro), low, i, fz(res, m, q)),
        // one side only
        forall|res: MNodeTransformResult<H, F, K, V, M, R>, m: MNode<H, F, K, V, M>| #[trigger] tdone(res, m, lo) && kd(a, d, i) == Some(m) && kd(b, d, i) is None
            ==> fnext(size, bits, s, ul && res is Unchanged, false, a, b, d, jff::<K, V, R, FB, FL, FR>(bo, lo, ro), low, i, tz(res, m)),
        forall|res: MNodeTransformResult<H, F, K, V, M, R>, m: MNode<H, F, K, V, M>| #[trigger] tdone(res, m, ro) && kd(b, d, i) == Some(m) && kd(a, d, i) is None
            ==> fnext(size, bits, s, false, ur && res is Unchanged, a, b, d, jff::<K, V, R, FB, FL, FR>(bo, lo, ro), low, i, tz(res, m)),
        kd(a, d, i) is Some ==> sz(kd(a, d, i)->0) > 0 && wfx(kd(a, d, i)->0), kd(b, d, i) is Some ==> sz(kd(b, d, i)->0) > 0 && wfx(kd(b, d, i)->0), kd(a, d, i) is Some && kd(b, d, i) is Some ==> jpre(kd(a, d, i)->0, kd(b, d, i)->0, d + 1),
{
    let j = jff::<K, V, R, FB, FL, FR>(bo, lo, ro); jff_sides::<K, V, R, FB, FL, FR>(bo, lo, ro);
    k_step::<H, F, K, V, K, V, K, V, M>(size, bits, s, false, a, b, a, d, j, low, i); jkid_all(a, b, d, i);
    t_one::<H, F, K, V, K, V, M, R, FL>(a, b, d, lo, j, i); t_two::<H, F, K, V, K, V, M, R, FR>(a, b, d, ro, j, i);
    if kd(a, d, i) is None && kd(b, d, i) is None {
        let z = None::<MNode<H, F, K, V, M>>;
        assert(jd(z, z, z, d + 1, j)) by { assert forall|x: int| #[trigger] jat(z, z, z, d + 1, j, x) by {} }
        assert(ul ==> keep(a, a, b, d, j, low, i + 1)) by { if ul { f_more(a, a, b, d, j, low, i); } }
        assert(ur ==> keep(b, a, b, d, j, low, i + 1)) by { if ur { f_more(b, a, b, d, j, low, i); } }
    }
    assert forall|res: MNodeJointTransformResult<H, F, K, V, M, R>, m: MNode<H, F, K, V, M>, q: MNode<H, F, K, V, M>, e: nat| #[trigger] fdo(res, m, q, e, j) && e == d + 1 && kd(a, d, i) == Some(m) && kd(b, d, i) == Some(q)
            implies fnext(size, bits, s, ul && (res is UnchangedLR || res is UnchangedL), ur && (res is UnchangedLR || res is UnchangedR), a, b, d, j, low, i, fz(res, m, q)) by {
        let n = fz(res, m, q);
        assert(jd(n, kd(a, d, i), kd(b, d, i), d + 1, j)); assert(jnext(size, bits, s, a, b, d, j, low, i, n));
        if ul && (res is UnchangedLR || res is UnchangedL) { assert(oz(m) == kd(a, d, i)); f_more(a, a, b, d, j, low, i); }
        if ur && (res is UnchangedLR || res is UnchangedR) { assert(oz(q) == kd(b, d, i)); f_more(b, a, b, d, j, low, i); }
    }
    assert forall|res: MNodeTransformResult<H, F, K, V, M, R>, m: MNode<H, F, K, V, M>| #[trigger] tdone(res, m, lo) && kd(a, d, i) == Some(m) && kd(b, d, i) is None
            implies fnext(size, bits, s, ul && res is Unchanged, false, a, b, d, j, low, i, tz(res, m)) by {
        let n = tz(res, m);
        assert(jd(n, kd(a, d, i), kd(b, d, i), d + 1, j)); assert(jnext(size, bits, s, a, b, d, j, low, i, n));
        if ul && res is Unchanged { assert(oz(m) == kd(a, d, i)); f_more(a, a, b, d, j, low, i); }
    }
    assert forall|res: MNodeTransformResult<H, F, K, V, M, R>, m: MNode<H, F, K, V, M>| #[trigger] tdone(res, m, ro) && kd(b, d, i) == Some(m) && kd(a, d, i) is None
            implies fnext(size, bits, s, false, ur && res is Unchanged, a, b, d, j, low, i, tz(res, m)) by {
        let n = tz(res, m);
        assert(jd(n, kd(a, d, i), kd(b, d, i), d + 1, j)); assert(jnext(size, bits, s, a, b, d, j, low, i, n));
        if ur && res is Unchanged { assert(oz(m) == kd(b, d, i)); f_more(b, a, b, d, j, low, i); }
    }
}
pub proof fn f_more<H: Hashword, F: Flagword<H>, K: Key, V: Value, M>(c: MNode<H, F, K, V, M>, a: MNode<H, F, K, V, M>, b: MNode<H, F, K, V, M>, d: nat, j: Jr<K, V, K, V, K, V>, low: nat, i: nat)
    requires keep(c, a, b, d, j, low, i), jd(kd(c, d, i), kd(a, d, i), kd(b, d, i), d + 1, j)
    ensures keep(c, a, b, d, j, low, i + 1)
{ assert forall|y: nat| low <= y < i + 1 implies jd(#[trigger] kd(c, d, y), kd(a, d, y), kd(b, d, y), d + 1, j) by { if y < i { assert(keep(c, a, b, d, j, low, i)); } else { assert(y == i); } } }
/// two ranges of slots
pub proof fn f_join<H: Hashword, F: Flagword<H>, K: Key, V: Value, M>(a: MNode<H, F, K, V, M>, b: MNode<H, F, K, V, M>, d: nat, j: Jr<K, V, K, V, K, V>, mid: nat)
    requires jpre(a, b, d), mid <= wd()
    ensures forall|ls: usize, lb: F, lv: Seq<MNode<H, F, K, V, M>>, ll: bool, lr: bool, rs: usize, rb: F, rv: Seq<MNode<H, F, K, V, M>>, rl: bool, rr: bool, m: F|
        #![trigger fpart(ls, lb, lv, ll, lr, a, b, d, j, 0, mid), fpart(rs, rb, rv, rl, rr, a, b, d, j, mid, wd()), mrg(lb, rb, m)]
        fpart(ls, lb, lv, ll, lr, a, b, d, j, 0, mid) && fpart(rs, rb, rv, rl, rr, a, b, d, j, mid, wd()) && mrg(lb, rb, m) ==> ls + rs <= cap() && fpart((ls + rs) as usize, m, lv + rv, ll && rl, lr && rr, a, b, d, j, 0, wd()),
      forall|ls: usize, lb: F, lv: Seq<MNode<H, F, K, V, M>>, ll: bool, lr: bool, rs: usize, rb: F, rv: Seq<MNode<H, F, K, V, M>>, rl: bool, rr: bool|
        #![trigger fpart(ls, lb, lv, ll, lr, a, b, d, j, 0, mid), fpart(rs, rb, rv, rl, rr, a, b, d, j, mid, wd())]
        fpart(ls, lb, lv, ll, lr, a, b, d, j, 0, mid) && fpart(rs, rb, rv, rl, rr, a, b, d, j, mid, wd()) ==> ls + rs <= cap() && forall|k: nat| !(#[trigger] hb(lb, k) && hb(rb, k))
{
    ksum_all(a, d, 0); ksum_all(b, d, 0);
    assert forall|ls: usize, lb: F, lv: Seq<MNode<H, F, K, V, M>>, ll: bool, lr: bool, rs: usize, rb: F, rv: Seq<MNode<H, F, K, V, M>>, rl: bool, rr: bool|
        #![trigger fpart(ls, lb, lv, ll, lr, a, b, d, j, 0, mid), fpart(rs, rb, rv, rl, rr, a, b, d, j, mid, wd())]
        fpart(ls, lb, lv, ll, lr, a, b, d, j, 0, mid) && fpart(rs, rb, rv, rl, rr, a, b, d, j, mid, wd()) implies ls + rs <= cap() && forall|k: nat| !(#[trigger] hb(lb, k) && hb(rb, k)) by {}
    assert forall|ls: usize, lb: F, lv: Seq<MNode<H, F, K, V, M>>, ll: bool, lr: bool, rs: usize, rb: F, rv: Seq<MNode<H, F, K, V, M>>, rl: bool, rr: bool, m: F|
        #![trigger fpart(ls, lb, lv, ll, lr, a, b, d, j, 0, mid), fpart(rs, rb, rv, rl, rr, a, b, d, j, mid, wd()), mrg(lb, rb, m)]
        fpart(ls, lb, lv, ll, lr, a, b, d, j, 0, mid) && fpart(rs, rb, rv, rl, rr, a, b, d, j, mid, wd()) && mrg(lb, rb, m) implies ls + rs <= cap() && fpart((ls + rs) as usize, m, lv + rv, ll && rl, lr && rr, a, b, d, j, 0, wd()) by {
        acc_join(lb, lv, rb, rv, m, 0, mid, wd(), js::<H, F, K, V, K, V, K, V, M>(a, b, d, j)); ssum_app(lv, rv);
        ksum_all(a, d, 0); ksum_all(b, d, 0);
        if ll && rl { assert(keep(a, a, b, d, j, 0, wd())) by { assert forall|y: nat| 0 <= y < wd() implies jd(#[trigger] kd(a, d, y), kd(a, d, y), kd(b, d, y), d + 1, j) by { if y < mid { assert(keep(a, a, b, d, j, 0, mid)); } else { assert(keep(a, a, b, d, j, mid, wd())); } } } }
        if lr && rr { assert(keep(b, a, b, d, j, 0, wd())) by { assert forall|y: nat| 0 <= y < wd() implies jd(#[trigger] kd(b, d, y), kd(a, d, y), kd(b, d, y), d + 1, j) by { if y < mid { assert(keep(b, a, b, d, j, 0, mid)); } else { assert(keep(b, a, b, d, j, mid, wd())); } } } }
    }
}
/// constant operations that settle a whole node
pub proof fn f_const<H: Hashword, F: Flagword<H>, K: Key, V: Value, M, R, FB, FL, FR>(a: MNode<H, F, K, V, M>, b: MNode<H, F, K, V, M>, d: nat, bo: MapJointTransform<R, FB>, lo: MapTransform<R, FL>, ro: MapTransform<R, FR>)
    requires jpre(a, b, d)
    ensures (bo is UnchangedLR || bo is UnchangedL) && lo is Unchanged && ro is Removed ==> jd(oz(a), Some(a), Some(b), d, jff::<K, V, R, FB, FL, FR>(bo, lo, ro)),
        (bo is UnchangedLR || bo is UnchangedR) && lo is Removed && ro is Unchanged ==> jd(oz(b), Some(a), Some(b), d, jff::<K, V, R, FB, FL, FR>(bo, lo, ro)),
        bo is Removed && lo is Removed && ro is Removed ==> jd(None::<MNode<H, F, K, V, M>>, Some(a), Some(b), d, jff::<K, V, R, FB, FL, FR>(bo, lo, ro)),
{
    let j = jff::<K, V, R, FB, FL, FR>(bo, lo, ro);
    f_zero(a, d); f_zero(b, d);
    if (bo is UnchangedLR || bo is UnchangedL) && lo is Unchanged && ro is Removed { let n = oz(a); assert forall|x: int| #[trigger] jat(n, Some(a), Some(b), d, j, x) by { assert(olook(n, d, x) == look(a, d, x)); } }
    if (bo is UnchangedLR || bo is UnchangedR) && lo is Removed && ro is Unchanged { let n = oz(b); assert forall|x: int| #[trigger] jat(n, Some(a), Some(b), d, j, x) by { assert(olook(n, d, x) == look(b, d, x)); } }
    if bo is Removed && lo is Removed && ro is Removed { let n = None::<MNode<H, F, K, V, M>>; assert forall|x: int| #[trigger] jat(n, Some(a), Some(b), d, j, x) by {} }
}
pub proof fn f_zero<H: Hashword, F: Flagword<H>, K: Key, V: Value, M>(a: MNode<H, F, K, V, M>, d: nat)
    requires wf(a, d) ensures sz(a) == 0 ==> forall|x: int| (#[trigger] look(a, d, x)) is None
{
    if sz(a) == 0 {
        assert forall|x: int| (#[trigger] look(a, d, x)) is None by {
            let i = dg(x, d); ax_hdg(hid(x), d); 
            if a is C { at_kd(a, d, i); ksum_all(a, d, i); }
            if a is L { nid_all(LNodeNext::L(a->L_0)); }
        }
    }
}
pub proof fn ff_top<H: Hashword, F: Flagword<H>, K: Key, V: Value, M, R, FB, FL, FR>(a: MNode<H, F, K, V, M>, b: MNode<H, F, K, V, M>, bo: MapJointTransform<R, FB>, lo: MapTransform<R, FL>, ro: MapTransform<R, FR>)
    ensures wf(a, 0) && wf(b, 0) && sz(a) + sz(b) <= cap() ==> jpre(a, b, 0),
        forall|res: MNodeJointTransformResult<H, F, K, V, M, R>| #[trigger] fdo(res, a, b, 0, jff::<K, V, R, FB, FL, FR>(bo, lo, ro)) ==>
            (match fz(res, a, b) { Some(m) => wf(m, 0) && 0 < sz(m) <= sz(a) + sz(b), None => true })
            && (forall|x: int| jffx::<K, V, R, FB, FL, FR>(bo, lo, ro, #[trigger] look(a, 0, x), look(b, 0, x), olook(fz(res, a, b), 0, x)))
{
    let j = jff::<K, V, R, FB, FL, FR>(bo, lo, ro); jz_top::<H, F, K, V, K, V, K, V, M>(a, b, j);
}

pub proof fn lall_j<K: Key, V: Value, R>(res: LNodeJointTransformResult<K, V, R>)
    ensures res is L ==> forall|x: int| #[trigger] nfind(LNodeNext::L(res->L_0), x) == (if kid(res->L_0.key) == x { Some((res->L_0.key, res->L_0.value)) } else { nfind(res->L_0.next, x) })
{ if let LNodeJointTransformResult::L(l, r) = res { lall(l); } }
/// a single entry on either side
pub proof fn lv_lr<K: Key, V: Value>(a: LNodeNext<K, V>, j: Jr<K, V, K, V, K, V>)
    ensures match a { LNodeNext::S(sn) => forall|r: Arc<SNode<K, V>>| #[trigger] lv2(Some(LNodeNext::S(r)), sn.key, sn.value, r.key, r.value, j) && kid(r.key) == kid(sn.key) ==> j(Some((sn.key, sn.value)), Some((r.key, r.value)), Some((r.key, r.value))), _ => true }
{
    if let LNodeNext::S(sn) = a {
        assert forall|r: Arc<SNode<K, V>>| #[trigger] lv2(Some(LNodeNext::S(r)), sn.key, sn.value, r.key, r.value, j) && kid(r.key) == kid(sn.key) implies j(Some((sn.key, sn.value)), Some((r.key, r.value)), Some((r.key, r.value))) by {
            assert(lvat(Some(LNodeNext::S(r)), ske(sn), sve(sn), ske(r), sve(r), j, sid(sn)));
        }
    }
}

pub open spec fn tk<K, V>(t: Option<(&K, &V)>) -> K { match t { Some(p) => *p.0, None => arbitrary() } }
pub open spec fn tv<K, V>(t: Option<(&K, &V)>) -> V { match t { Some(p) => *p.1, None => arbitrary() } }
