
// ---- two maps, one side's type kept: the operations ----
pub open spec fn mt4<K, V, L, W, Z, R, F>(op: MapTransform<R, F>, k: K, v: V, l: L, w: W) -> MapTransformResult<Z, R> {
    match op { MapTransform::Generic(f) => fap4(f, k, v, l, w), MapTransform::Unchanged(r) => MapTransformResult::Unchanged(r), MapTransform::Removed(r) => MapTransformResult::Removed(r) }
}
pub open spec fn mt4ok<K, V, L, W, Z, R, F: Fn(&K, &V, &L, &W) -> MapTransformResult<Z, R>>(op: MapTransform<R, F>) -> bool {
    op is Generic ==> pure4::<K, V, L, W, MapTransformResult<Z, R>, F>(op->Generic_0)
}
pub open spec fn tflip<K, V, L, W, Z, R, F, G>(op: MapTransform<R, F>, po: MapTransform<R, G>) -> bool {
    forall|k: K, v: V, l: L, w: W| #[trigger] mt4::<L, W, K, V, Z, R, G>(po, l, w, k, v) == mt4::<K, V, L, W, Z, R, F>(op, k, v, l, w)
}
pub open spec fn tflips4<K, V, L, W, Z, R, F: Fn(&K, &V, &L, &W) -> MapTransformResult<Z, R>, C: Fn(&L, &W, &K, &V) -> MapTransformResult<Z, R>>(f: F, c: C) -> bool {
    (forall|l: &L, w: &W, k: &K, v: &V| #[trigger] c.requires((l, w, k, v)))
    && (forall|l: &L, w: &W, k: &K, v: &V, r: MapTransformResult<Z, R>| #[trigger] c.ensures((l, w, k, v), r) ==> r == fap4::<F, K, V, L, W, MapTransformResult<Z, R>>(f, *k, *v, *l, *w))
}
pub proof fn tflip_ok4<K, V, L, W, Z, R, F: Fn(&K, &V, &L, &W) -> MapTransformResult<Z, R>, C: Fn(&L, &W, &K, &V) -> MapTransformResult<Z, R>>(op: MapTransform<R, F>, po: MapTransform<R, C>)
    requires op is Generic <==> po is Generic, op is Generic ==> tflips4::<K, V, L, W, Z, R, F, C>(op->Generic_0, po->Generic_0), op is Removed <==> po is Removed, op is Removed ==> op->Removed_0 == po->Removed_0, op is Unchanged ==> op->Unchanged_0 == po->Unchanged_0
    ensures mt4ok::<L, W, K, V, Z, R, C>(po), tflip::<K, V, L, W, Z, R, F, C>(op, po)
{
    if let MapTransform::Generic(c) = po {
        ax_call4::<L, W, K, V, MapTransformResult<Z, R>, C>(c);
        let f = op->Generic_0;
        assert forall|l: L, w: W, k: K, v: V| #[trigger] fap4::<C, L, W, K, V, MapTransformResult<Z, R>>(c, l, w, k, v) == fap4::<F, K, V, L, W, MapTransformResult<Z, R>>(f, k, v, l, w) by {
            assert(c.requires((&l, &w, &k, &v)));
            assert(c.ensures((&l, &w, &k, &v), fap4::<C, L, W, K, V, MapTransformResult<Z, R>>(c, l, w, k, v)));
        }
    }
}
/// left side's type kept
pub open spec fn jtmx<K, V, L, W, R, FB, FL, FR>(bo: MapTransform<R, FB>, lo: MapTransform<R, FL>, ro: MapTransmute<R, FR>, e: Ent<K, V>, f: Ent<L, W>) -> Ent<K, V> {
    match e {
        Some(a) => match f { Some(b) => mtr(a.0, a.1, mt4::<K, V, L, W, V, R, FB>(bo, a.0, a.1, b.0, b.1)), None => tx(lo, e) },
        None => ux::<L, W, K, V, R, FR>(ro, f),
    }
}
pub open spec fn jtm<K, V, L, W, R, FB, FL, FR>(bo: MapTransform<R, FB>, lo: MapTransform<R, FL>, ro: MapTransmute<R, FR>) -> Jr<K, V, L, W, K, V> {
    |e: Ent<K, V>, f: Ent<L, W>, r: Ent<K, V>| r == jtmx::<K, V, L, W, R, FB, FL, FR>(bo, lo, ro, e, f)
}
/// right side's type kept
pub open spec fn jmtx<K, V, L, W, R, FB, FL, FR>(bo: MapTransform<R, FB>, lo: MapTransmute<R, FL>, ro: MapTransform<R, FR>, e: Ent<K, V>, f: Ent<L, W>) -> Ent<L, W> {
    match f {
        Some(b) => match e { Some(a) => mtr(b.0, b.1, mt4::<K, V, L, W, W, R, FB>(bo, a.0, a.1, b.0, b.1)), None => tx(ro, f) },
        None => ux::<K, V, L, W, R, FL>(lo, e),
    }
}
pub open spec fn jmt<K, V, L, W, R, FB, FL, FR>(bo: MapTransform<R, FB>, lo: MapTransmute<R, FL>, ro: MapTransform<R, FR>) -> Jr<K, V, L, W, L, W> {
    |e: Ent<K, V>, f: Ent<L, W>, r: Ent<L, W>| r == jmtx::<K, V, L, W, R, FB, FL, FR>(bo, lo, ro, e, f)
}
/// what j says about keys of one side only
pub open spec fn jlt<K, V, L, W, R, FL>(j: Jr<K, V, L, W, K, V>, lo: MapTransform<R, FL>) -> bool { forall|e: Ent<K, V>| e is Some ==> j(e, None, #[trigger] tx(lo, e)) }
pub open spec fn jlu<K, V, L, W, S, X, R, FL>(j: Jr<K, V, L, W, S, X>, lo: MapTransmute<R, FL>) -> bool { forall|e: Ent<K, V>| e is Some ==> j(e, None, #[trigger] ux::<K, V, S, X, R, FL>(lo, e)) }
pub open spec fn jrt<K, V, L, W, R, FR>(j: Jr<K, V, L, W, L, W>, ro: MapTransform<R, FR>) -> bool { forall|f: Ent<L, W>| f is Some ==> j(None, f, #[trigger] tx(ro, f)) }
pub open spec fn jru<K, V, L, W, S, X, R, FR>(j: Jr<K, V, L, W, S, X>, ro: MapTransmute<R, FR>) -> bool { forall|f: Ent<L, W>| f is Some ==> j(None, f, #[trigger] ux::<L, W, S, X, R, FR>(ro, f)) }
pub proof fn jtm_sides<K, V, L, W, R, FB, FL, FR>(bo: MapTransform<R, FB>, lo: MapTransform<R, FL>, ro: MapTransmute<R, FR>)
    ensures jnone(jtm::<K, V, L, W, R, FB, FL, FR>(bo, lo, ro)), jlt(jtm::<K, V, L, W, R, FB, FL, FR>(bo, lo, ro), lo), jru(jtm::<K, V, L, W, R, FB, FL, FR>(bo, lo, ro), ro) {}
pub proof fn jmt_sides<K, V, L, W, R, FB, FL, FR>(bo: MapTransform<R, FB>, lo: MapTransmute<R, FL>, ro: MapTransform<R, FR>)
    ensures jnone(jmt::<K, V, L, W, R, FB, FL, FR>(bo, lo, ro)), jlu(jmt::<K, V, L, W, R, FB, FL, FR>(bo, lo, ro), lo), jrt(jmt::<K, V, L, W, R, FB, FL, FR>(bo, lo, ro), ro) {}
pub broadcast proof fn jd_fm<H: Hashword, F: Flagword<H>, K: Key, V: Value, L: Key, W: Value, M, R, FB, GB, FL, FR>(n: Option<MNode<H, F, K, V, M>>, a: Option<MNode<H, F, K, V, M>>, b: Option<MNode<H, F, L, W, M>>, d: nat, bo: MapTransform<R, FB>, po: MapTransform<R, GB>, lo: MapTransform<R, FL>, ro: MapTransmute<R, FR>)
    requires #[trigger] tflip::<K, V, L, W, V, R, FB, GB>(bo, po), #[trigger] jd(n, b, a, d, jmt::<L, W, K, V, R, GB, FR, FL>(po, ro, lo))
    ensures jd(n, a, b, d, jtm::<K, V, L, W, R, FB, FL, FR>(bo, lo, ro))
{
    let j = jmt::<L, W, K, V, R, GB, FR, FL>(po, ro, lo); let k = jtm::<K, V, L, W, R, FB, FL, FR>(bo, lo, ro);
    assert forall|x: int| #[trigger] jat(n, a, b, d, k, x) by {
        assert(jat(n, b, a, d, j, x));
        let e = olook(a, d, x); let f = olook(b, d, x);
        if let (Some(ee), Some(ff)) = (e, f) { assert(mt4::<L, W, K, V, V, R, GB>(po, ff.0, ff.1, ee.0, ee.1) == mt4::<K, V, L, W, V, R, FB>(bo, ee.0, ee.1, ff.0, ff.1)); }
    }
}
pub broadcast proof fn jd_mf<H: Hashword, F: Flagword<H>, K: Key, V: Value, L: Key, W: Value, M, R, FB, GB, FL, FR>(n: Option<MNode<H, F, L, W, M>>, a: Option<MNode<H, F, K, V, M>>, b: Option<MNode<H, F, L, W, M>>, d: nat, bo: MapTransform<R, FB>, po: MapTransform<R, GB>, lo: MapTransmute<R, FL>, ro: MapTransform<R, FR>)
    requires #[trigger] tflip::<K, V, L, W, W, R, FB, GB>(bo, po), #[trigger] jd(n, b, a, d, jtm::<L, W, K, V, R, GB, FR, FL>(po, ro, lo))
    ensures jd(n, a, b, d, jmt::<K, V, L, W, R, FB, FL, FR>(bo, lo, ro))
{
    let j = jtm::<L, W, K, V, R, GB, FR, FL>(po, ro, lo); let k = jmt::<K, V, L, W, R, FB, FL, FR>(bo, lo, ro);
    assert forall|x: int| #[trigger] jat(n, a, b, d, k, x) by {
        assert(jat(n, b, a, d, j, x));
        let e = olook(a, d, x); let f = olook(b, d, x);
        if let (Some(ee), Some(ff)) = (e, f) { assert(mt4::<L, W, K, V, W, R, GB>(po, ff.0, ff.1, ee.0, ee.1) == mt4::<K, V, L, W, W, R, FB>(bo, ee.0, ee.1, ff.0, ff.1)); }
    }
}
// leaves of one side on their own
pub proof fn ot1<K: Key, V: Value, L: Key, W: Value, R, FL>(a: LNodeNext<K, V>, lo: MapTransform<R, FL>, j: Jr<K, V, L, W, K, V>)
    requires nwf(a), jlt(j, lo) ensures forall|res: LNodeTransformResult<K, V, R>| #[trigger] ltdone(res, a, lo) ==> o1(lnode_of(res, a), a, j)
{
    nid_all(a);
    assert forall|res: LNodeTransformResult<K, V, R>| #[trigger] ltdone(res, a, lo) implies o1(lnode_of(res, a), a, j) by {
        if let Some(m) = lnode_of(res, a) { nid_all(m); }
        let g = glt(lo, a);
        assert forall|x: int| #[trigger] o1at(lnode_of(res, a), a, j, x) by { assert(onf(lnode_of(res, a), x) == g(x)); }
    }
}
pub proof fn ot2<K: Key, V: Value, L: Key, W: Value, R, FR>(b: LNodeNext<L, W>, ro: MapTransform<R, FR>, j: Jr<K, V, L, W, L, W>)
    requires nwf(b), jrt(j, ro) ensures forall|res: LNodeTransformResult<L, W, R>| #[trigger] ltdone(res, b, ro) ==> o2(lnode_of(res, b), b, j)
{
    nid_all(b);
    assert forall|res: LNodeTransformResult<L, W, R>| #[trigger] ltdone(res, b, ro) implies o2(lnode_of(res, b), b, j) by {
        if let Some(m) = lnode_of(res, b) { nid_all(m); }
        let g = glt(ro, b);
        assert forall|x: int| #[trigger] o2at(lnode_of(res, b), b, j, x) by { assert(onf(lnode_of(res, b), x) == g(x)); }
    }
}
pub proof fn ou1<K: Key, V: Value, L: Key, W: Value, S: Key, X: Value, R, FL>(a: LNodeNext<K, V>, lo: MapTransmute<R, FL>, j: Jr<K, V, L, W, S, X>)
    requires jlu(j, lo) ensures forall|res: LNodeTransmuteResult<S, X, R>| #[trigger] ludone(res, a, lo) ==> o1(lunode(res), a, j)
{
    assert forall|res: LNodeTransmuteResult<S, X, R>| #[trigger] ludone(res, a, lo) implies o1(lunode(res), a, j) by {
        let g: spec_fn(int) -> Ent<S, X> = glu(lo, a);
        assert forall|x: int| #[trigger] o1at(lunode(res), a, j, x) by { assert(onf(lunode(res), x) == g(x)); }
    }
}
pub proof fn ou2<K: Key, V: Value, L: Key, W: Value, S: Key, X: Value, R, FR>(b: LNodeNext<L, W>, ro: MapTransmute<R, FR>, j: Jr<K, V, L, W, S, X>)
    requires jru(j, ro) ensures forall|res: LNodeTransmuteResult<S, X, R>| #[trigger] ludone(res, b, ro) ==> o2(lunode(res), b, j)
{
    assert forall|res: LNodeTransmuteResult<S, X, R>| #[trigger] ludone(res, b, ro) implies o2(lunode(res), b, j) by {
        let g: spec_fn(int) -> Ent<S, X> = glu(ro, b);
        assert forall|x: int| #[trigger] o2at(lunode(res), b, j, x) by { assert(onf(lunode(res), x) == g(x)); }
    }
}
// slots only one side has
pub proof fn t_one<H: Hashword, F: Flagword<H>, K: Key, V: Value, L: Key, W: Value, M, R, FL>(a: MNode<H, F, K, V, M>, b: MNode<H, F, L, W, M>, d: nat, lo: MapTransform<R, FL>, j: Jr<K, V, L, W, K, V>, i: nat)
    requires wf(a, d), wf(b, d), i < wd(), jlt(j, lo), jnone(j)
    ensures kd(b, d, i) is None ==> forall|res: MNodeTransformResult<H, F, K, V, M, R>, m: MNode<H, F, K, V, M>| #[trigger] tdone(res, m, lo) && kd(a, d, i) == Some(m) ==> jd(tz(res, m), kd(a, d, i), kd(b, d, i), d + 1, j)
{
    at_kd(a, d, i);
    if kd(b, d, i) is None {
        assert forall|res: MNodeTransformResult<H, F, K, V, M, R>, m: MNode<H, F, K, V, M>| #[trigger] tdone(res, m, lo) && kd(a, d, i) == Some(m) implies jd(tz(res, m), kd(a, d, i), kd(b, d, i), d + 1, j) by {
            assert(wf(m, d + 1)); let g: spec_fn(int) -> Ent<K, V> = gt(lo, m, d + 1);
            assert(tz(res, m) == tnode(res, m));
            assert forall|x: int| #[trigger] jat(tz(res, m), kd(a, d, i), kd(b, d, i), d + 1, j, x) by { assert(olook(tz(res, m), d + 1, x) == g(x)); }
        }
    }
}
pub proof fn t_two<H: Hashword, F: Flagword<H>, K: Key, V: Value, L: Key, W: Value, M, R, FR>(a: MNode<H, F, K, V, M>, b: MNode<H, F, L, W, M>, d: nat, ro: MapTransform<R, FR>, j: Jr<K, V, L, W, L, W>, i: nat)
    requires wf(a, d), wf(b, d), i < wd(), jrt(j, ro), jnone(j)
    ensures kd(a, d, i) is None ==> forall|res: MNodeTransformResult<H, F, L, W, M, R>, m: MNode<H, F, L, W, M>| #[trigger] tdone(res, m, ro) && kd(b, d, i) == Some(m) ==> jd(tz(res, m), kd(a, d, i), kd(b, d, i), d + 1, j)
{
    at_kd(b, d, i);
    if kd(a, d, i) is None {
        assert forall|res: MNodeTransformResult<H, F, L, W, M, R>, m: MNode<H, F, L, W, M>| #[trigger] tdone(res, m, ro) && kd(b, d, i) == Some(m) implies jd(tz(res, m), kd(a, d, i), kd(b, d, i), d + 1, j) by {
            assert(wf(m, d + 1)); let g: spec_fn(int) -> Ent<L, W> = gt(ro, m, d + 1);
            assert(tz(res, m) == tnode(res, m));
            assert forall|x: int| #[trigger] jat(tz(res, m), kd(a, d, i), kd(b, d, i), d + 1, j, x) by { assert(olook(tz(res, m), d + 1, x) == g(x)); }
        }
    }
}
pub proof fn u_one<H: Hashword, F: Flagword<H>, K: Key, V: Value, L: Key, W: Value, S: Key, X: Value, M, R, FL>(a: MNode<H, F, K, V, M>, b: MNode<H, F, L, W, M>, d: nat, lo: MapTransmute<R, FL>, j: Jr<K, V, L, W, S, X>, i: nat)
    requires wf(a, d), wf(b, d), i < wd(), jlu(j, lo), jnone(j)
    ensures kd(b, d, i) is None ==> forall|res: MNodeTransmuteResult<H, F, S, X, M, R>, m: MNode<H, F, K, V, M>| #[trigger] udone(res, m, lo) && kd(a, d, i) == Some(m) ==> jd(unode(res), kd(a, d, i), kd(b, d, i), d + 1, j)
{
    at_kd(a, d, i);
    if kd(b, d, i) is None {
        assert forall|res: MNodeTransmuteResult<H, F, S, X, M, R>, m: MNode<H, F, K, V, M>| #[trigger] udone(res, m, lo) && kd(a, d, i) == Some(m) implies jd(unode(res), kd(a, d, i), kd(b, d, i), d + 1, j) by {
            assert(wf(m, d + 1)); let g: spec_fn(int) -> Ent<S, X> = gu(lo, m, d + 1);
            assert forall|x: int| #[trigger] jat(unode(res), kd(a, d, i), kd(b, d, i), d + 1, j, x) by { assert(olook(unode(res), d + 1, x) == g(x)); }
        }
    }
}
pub proof fn u_two<H: Hashword, F: Flagword<H>, K: Key, V: Value, L: Key, W: Value, S: Key, X: Value, M, R, FR>(a: MNode<H, F, K, V, M>, b: MNode<H, F, L, W, M>, d: nat, ro: MapTransmute<R, FR>, j: Jr<K, V, L, W, S, X>, i: nat)
    requires wf(a, d), wf(b, d), i < wd(), jru(j, ro), jnone(j)
    ensures kd(a, d, i) is None ==> forall|res: MNodeTransmuteResult<H, F, S, X, M, R>, m: MNode<H, F, L, W, M>| #[trigger] udone(res, m, ro) && kd(b, d, i) == Some(m) ==> jd(unode(res), kd(a, d, i), kd(b, d, i), d + 1, j)
{
    at_kd(b, d, i);
    if kd(a, d, i) is None {
        assert forall|res: MNodeTransmuteResult<H, F, S, X, M, R>, m: MNode<H, F, L, W, M>| #[trigger] udone(res, m, ro) && kd(b, d, i) == Some(m) implies jd(unode(res), kd(a, d, i), kd(b, d, i), d + 1, j) by {
            assert(wf(m, d + 1)); let g: spec_fn(int) -> Ent<S, X> = gu(ro, m, d + 1);
            assert forall|x: int| #[trigger] jat(unode(res), kd(a, d, i), kd(b, d, i), d + 1, j, x) by { assert(olook(unode(res), d + 1, x) == g(x)); }
        }
    }
}
/// at the top
pub proof fn jz_top<H: Hashword, F: Flagword<H>, K: Key, V: Value, L: Key, W: Value, S: Key, X: Value, M>(a: MNode<H, F, K, V, M>, b: MNode<H, F, L, W, M>, j: Jr<K, V, L, W, S, X>)
    ensures wf(a, 0) && wf(b, 0) && sz(a) + sz(b) <= cap() ==> jpre(a, b, 0),
        forall|n: Option<MNode<H, F, S, X, M>>| #[trigger] jd(n, Some(a), Some(b), 0, j) ==>
            (match n { Some(m) => wf(m, 0) && 0 < sz(m) <= sz(a) + sz(b), None => true }) && forall|x: int| j(#[trigger] look(a, 0, x), look(b, 0, x), olook(n, 0, x))
{
    assert forall|n: Option<MNode<H, F, S, X, M>>| #[trigger] jd(n, Some(a), Some(b), 0, j) implies forall|x: int| j(#[trigger] look(a, 0, x), look(b, 0, x), olook(n, 0, x)) by {
        assert forall|x: int| j(#[trigger] look(a, 0, x), look(b, 0, x), olook(n, 0, x)) by { assert(jat(n, Some(a), Some(b), 0, j, x)); }
    }
}
/// one leftover entry put in front
pub proof fn lq_next<K: Key, V: Value, L: Key, W: Value, S: Key, X: Value, R, FR>(a: LNodeNext<K, V>, b: LNodeNext<L, W>, t: Seq<(&L, &W)>, i: int, c: LNodeNext<S, X>, j: Jr<K, V, L, W, S, X>, ro: MapTransmute<R, FR>)
    requires rleft(t, a, b), 0 <= i < t.len(), nwf(a), nwf(b), hid(nid(a)) == hid(nid(b)), nsz(a) + nsz(b) < usize::MAX, jnone(j), jru(j, ro), mukey::<L, W, S, X, R, FR>(ro)
    ensures forall|res: LNodeTransformResult<S, X, R>| #[trigger] lq(lnode_of(res, c), a, b, t, i, j) ==> fits(mup::<L, W, S, X, R, FR>(ro, t[i]), lnode_of(res, c)) && (match lnode_of(res, c) { Some(m) => nwf(m), None => true }),
       forall|res: LNodeTransformResult<S, X, R>, nx: LNodeTransformResult<S, X, R>| #[trigger] lq(lnode_of(res, c), a, b, t, i, j) && consu(mup::<L, W, S, X, R, FR>(ro, t[i]), lnode_of(res, c), #[trigger] lnode_of(nx, c))
         ==> lq(lnode_of(nx, c), a, b, t, i + 1, j)
{
    lq_put::<K, V, L, W, S, X>(a, b, t, i, j);
    let r = mup::<L, W, S, X, R, FR>(ro, t[i]); let k = kid(*t[i].0);
    let f = Some((*t[i].0, *t[i].1)); let e: Ent<S, X> = ux::<L, W, S, X, R, FR>(ro, f);
    assert(j(None, f, e)); assert(r == mu::<L, W, S, X, R, FR>(ro, *t[i].0, *t[i].1)); assert(e == mur(r));
    assert forall|res: LNodeTransformResult<S, X, R>, nx: LNodeTransformResult<S, X, R>| #[trigger] lq(lnode_of(res, c), a, b, t, i, j) && consu(r, lnode_of(res, c), #[trigger] lnode_of(nx, c))
         implies lq(lnode_of(nx, c), a, b, t, i + 1, j) by {
        let p = lnode_of(res, c); let q = lnode_of(nx, c);
        assert(pfit(p, k));
        if let Some(m) = q { if m is L { lall(m->L_0); } }
        assert(lputs(q, p, k, e));
    }
}
pub proof fn fm_init<H: Hashword, F: Flagword<H>, K: Key, V: Value, L: Key, W: Value, M, R, FB, FL, FR>(a: MNode<H, F, K, V, M>, b: MNode<H, F, L, W, M>, d: nat, bo: MapTransform<R, FB>, lo: MapTransform<R, FL>, ro: MapTransmute<R, FR>, bits: F, s: Seq<MNode<H, F, K, V, M>>, z: usize)
    requires jpre(a, b, d), d < lv(), bits == dflt::<F>(), s == Seq::<MNode<H, F, K, V, M>>::empty(), z == 0
    ensures jpart(z, bits, s, a, b, d, jtm::<K, V, L, W, R, FB, FL, FR>(bo, lo, ro), 0, 0), samek(bits, s, a, d, 0, 0),
        forall|size: usize, bits: F, s: Seq<MNode<H, F, K, V, M>>, res: MNodeTransformResult<H, F, K, V, M, R>| #![trigger jpart(size, bits, s, a, b, d, jtm::<K, V, L, W, R, FB, FL, FR>(bo, lo, ro), 0, wd()), jd(tz(res, a), Some(a), Some(b), d, jtm::<K, V, L, W, R, FB, FL, FR>(bo, lo, ro))]
        jpart(size, bits, s, a, b, d, jtm::<K, V, L, W, R, FB, FL, FR>(bo, lo, ro), 0, wd()) && (match res { MNodeTransformResult::Unchanged(_) => samek(bits, s, a, d, 0, wd()), _ => built(bits, s, tz(res, a)) }) ==> jd(tz(res, a), Some(a), Some(b), d, jtm::<K, V, L, W, R, FB, FL, FR>(bo, lo, ro)),
      forall|size: usize, bits: F, s: Seq<MNode<H, F, K, V, M>>| #[trigger] jpart(size, bits, s, a, b, d, jtm::<K, V, L, W, R, FB, FL, FR>(bo, lo, ro), 0, wd()) ==> rank(bits, wd()) == s.len() && size == ssum(s)
{
    let j = jtm::<K, V, L, W, R, FB, FL, FR>(bo, lo, ro); jtm_sides::<K, V, L, W, R, FB, FL, FR>(bo, lo, ro);
    j_new::<H, F, K, V, L, W, K, V, M>(a, b, d, j, 0, z); k_fin::<H, F, K, V, L, W, K, V, M, R>(a, b, a, d, j);
}
pub proof fn mf_init<H: Hashword, F: Flagword<H>, K: Key, V: Value, L: Key, W: Value, M, R, FB, FL, FR>(a: MNode<H, F, K, V, M>, b: MNode<H, F, L, W, M>, d: nat, bo: MapTransform<R, FB>, lo: MapTransmute<R, FL>, ro: MapTransform<R, FR>, bits: F, s: Seq<MNode<H, F, L, W, M>>, z: usize)
    requires jpre(a, b, d), d < lv(), bits == dflt::<F>(), s == Seq::<MNode<H, F, L, W, M>>::empty(), z == 0
    ensures jpart(z, bits, s, a, b, d, jmt::<K, V, L, W, R, FB, FL, FR>(bo, lo, ro), 0, 0), samek(bits, s, b, d, 0, 0),
        forall|size: usize, bits: F, s: Seq<MNode<H, F, L, W, M>>, res: MNodeTransformResult<H, F, L, W, M, R>| #![trigger jpart(size, bits, s, a, b, d, jmt::<K, V, L, W, R, FB, FL, FR>(bo, lo, ro), 0, wd()), jd(tz(res, b), Some(a), Some(b), d, jmt::<K, V, L, W, R, FB, FL, FR>(bo, lo, ro))]
        jpart(size, bits, s, a, b, d, jmt::<K, V, L, W, R, FB, FL, FR>(bo, lo, ro), 0, wd()) && (match res { MNodeTransformResult::Unchanged(_) => samek(bits, s, b, d, 0, wd()), _ => built(bits, s, tz(res, b)) }) ==> jd(tz(res, b), Some(a), Some(b), d, jmt::<K, V, L, W, R, FB, FL, FR>(bo, lo, ro)),
      forall|size: usize, bits: F, s: Seq<MNode<H, F, L, W, M>>| #[trigger] jpart(size, bits, s, a, b, d, jmt::<K, V, L, W, R, FB, FL, FR>(bo, lo, ro), 0, wd()) ==> rank(bits, wd()) == s.len() && size == ssum(s)
{
    let j = jmt::<K, V, L, W, R, FB, FL, FR>(bo, lo, ro); jmt_sides::<K, V, L, W, R, FB, FL, FR>(bo, lo, ro);
    j_new::<H, F, K, V, L, W, L, W, M>(a, b, d, j, 0, z); k_fin::<H, F, K, V, L, W, L, W, M, R>(a, b, b, d, j);
}
pub proof fn fm_step<H: Hashword, F: Flagword<H>, K: Key, V: Value, L: Key, W: Value, M, R, FB, FL, FR>(size: usize, bits: F, s: Seq<MNode<H, F, K, V, M>>, un: bool, a: MNode<H, F, K, V, M>, b: MNode<H, F, L, W, M>, d: nat, bo: MapTransform<R, FB>, lo: MapTransform<R, FL>, ro: MapTransmute<R, FR>, i: nat)
    requires jpre(a, b, d), i < wd(), jpart(size, bits, s, a, b, d, jtm::<K, V, L, W, R, FB, FL, FR>(bo, lo, ro), 0, i), un ==> samek(bits, s, a, d, 0, i)
    ensures slot(bits, s, i) is None, !hb(bits, i),
        kd(a, d, i) is None && kd(b, d, i) is None ==> jpart(size, bits, s, a, b, d, jtm::<K, V, L, W, R, FB, FL, FR>(bo, lo, ro), 0, i + 1),
        forall|n: Option<MNode<H, F, K, V, M>>, e: nat| #[trigger] jd(n, kd(a, d, i), kd(b, d, i), e, jtm::<K, V, L, W, R, FB, FL, FR>(bo, lo, ro)) && e == d + 1 ==> jnext(size, bits, s, a, b, d, jtm::<K, V, L, W, R, FB, FL, FR>(bo, lo, ro), 0, i, n),
        un ==> forall|n: Option<MNode<H, F, K, V, M>>, e: nat| #[trigger] jd(n, kd(a, d, i), kd(b, d, i), e, jtm::<K, V, L, W, R, FB, FL, FR>(bo, lo, ro)) && e == d + 1 ==> knext(bits, s, a, d, 0, i, n),
        un && kd(a, d, i) is None ==> samek(bits, s, a, d, 0, i + 1),
        kd(a, d, i) is Some ==> sz(kd(a, d, i)->0) > 0 && wfx(kd(a, d, i)->0), kd(b, d, i) is Some ==> wfx(kd(b, d, i)->0), kd(a, d, i) is Some && kd(b, d, i) is Some ==> jpre(kd(a, d, i)->0, kd(b, d, i)->0, d + 1),
        kd(b, d, i) is None ==> forall|res: MNodeTransformResult<H, F, K, V, M, R>, m: MNode<H, F, K, V, M>| #[trigger] tdone(res, m, lo) && kd(a, d, i) == Some(m) ==> jd(tz(res, m), kd(a, d, i), kd(b, d, i), d + 1, jtm::<K, V, L, W, R, FB, FL, FR>(bo, lo, ro)),
        kd(a, d, i) is None ==> forall|res: MNodeTransmuteResult<H, F, K, V, M, R>, m: MNode<H, F, L, W, M>| #[trigger] udone(res, m, ro) && kd(b, d, i) == Some(m) ==> jd(unode(res), kd(a, d, i), kd(b, d, i), d + 1, jtm::<K, V, L, W, R, FB, FL, FR>(bo, lo, ro))
{
    let j = jtm::<K, V, L, W, R, FB, FL, FR>(bo, lo, ro); jtm_sides::<K, V, L, W, R, FB, FL, FR>(bo, lo, ro);
    k_step::<H, F, K, V, L, W, K, V, M>(size, bits, s, un, a, b, a, d, j, 0, i); jkid_all(a, b, d, i);
    t_one::<H, F, K, V, L, W, M, R, FL>(a, b, d, lo, j, i); u_two::<H, F, K, V, L, W, K, V, M, R, FR>(a, b, d, ro, j, i);
}
pub proof fn mf_step<H: Hashword, F: Flagword<H>, K: Key, V: Value, L: Key, W: Value, M, R, FB, FL, FR>(size: usize, bits: F, s: Seq<MNode<H, F, L, W, M>>, un: bool, a: MNode<H, F, K, V, M>, b: MNode<H, F, L, W, M>, d: nat, bo: MapTransform<R, FB>, lo: MapTransmute<R, FL>, ro: MapTransform<R, FR>, i: nat)
    requires jpre(a, b, d), i < wd(), jpart(size, bits, s, a, b, d, jmt::<K, V, L, W, R, FB, FL, FR>(bo, lo, ro), 0, i), un ==> samek(bits, s, b, d, 0, i)
    ensures slot(bits, s, i) is None, !hb(bits, i),
        kd(a, d, i) is None && kd(b, d, i) is None ==> jpart(size, bits, s, a, b, d, jmt::<K, V, L, W, R, FB, FL, FR>(bo, lo, ro), 0, i + 1),
        forall|n: Option<MNode<H, F, L, W, M>>, e: nat| #[trigger] jd(n, kd(a, d, i), kd(b, d, i), e, jmt::<K, V, L, W, R, FB, FL, FR>(bo, lo, ro)) && e == d + 1 ==> jnext(size, bits, s, a, b, d, jmt::<K, V, L, W, R, FB, FL, FR>(bo, lo, ro), 0, i, n),
        un ==> forall|n: Option<MNode<H, F, L, W, M>>, e: nat| #[trigger] jd(n, kd(a, d, i), kd(b, d, i), e, jmt::<K, V, L, W, R, FB, FL, FR>(bo, lo, ro)) && e == d + 1 ==> knext(bits, s, b, d, 0, i, n),
        un && kd(b, d, i) is None ==> samek(bits, s, b, d, 0, i + 1),
        kd(b, d, i) is Some ==> sz(kd(b, d, i)->0) > 0 && wfx(kd(b, d, i)->0), kd(a, d, i) is Some ==> wfx(kd(a, d, i)->0), kd(a, d, i) is Some && kd(b, d, i) is Some ==> jpre(kd(a, d, i)->0, kd(b, d, i)->0, d + 1),
        kd(a, d, i) is None ==> forall|res: MNodeTransformResult<H, F, L, W, M, R>, m: MNode<H, F, L, W, M>| #[trigger] tdone(res, m, ro) && kd(b, d, i) == Some(m) ==> jd(tz(res, m), kd(a, d, i), kd(b, d, i), d + 1, jmt::<K, V, L, W, R, FB, FL, FR>(bo, lo, ro)),
        kd(b, d, i) is None ==> forall|res: MNodeTransmuteResult<H, F, L, W, M, R>, m: MNode<H, F, K, V, M>| #[trigger] udone(res, m, lo) && kd(a, d, i) == Some(m) ==> jd(unode(res), kd(a, d, i), kd(b, d, i), d + 1, jmt::<K, V, L, W, R, FB, FL, FR>(bo, lo, ro))
{
    let j = jmt::<K, V, L, W, R, FB, FL, FR>(bo, lo, ro); jmt_sides::<K, V, L, W, R, FB, FL, FR>(bo, lo, ro);
    k_step::<H, F, K, V, L, W, L, W, M>(size, bits, s, un, a, b, b, d, j, 0, i); jkid_all(a, b, d, i);
    u_one::<H, F, K, V, L, W, L, W, M, R, FL>(a, b, d, lo, j, i); t_two::<H, F, K, V, L, W, M, R, FR>(a, b, d, ro, j, i);
}
pub proof fn fm_top<H: Hashword, F: Flagword<H>, K: Key, V: Value, L: Key, W: Value, M, R, FB, FL, FR>(a: MNode<H, F, K, V, M>, b: MNode<H, F, L, W, M>, bo: MapTransform<R, FB>, lo: MapTransform<R, FL>, ro: MapTransmute<R, FR>)
    ensures wf(a, 0) && wf(b, 0) && sz(a) + sz(b) <= cap() ==> jpre(a, b, 0),
        forall|n: Option<MNode<H, F, K, V, M>>| #[trigger] jd(n, Some(a), Some(b), 0, jtm::<K, V, L, W, R, FB, FL, FR>(bo, lo, ro)) ==>
            (match n { Some(m) => wf(m, 0) && 0 < sz(m) <= sz(a) + sz(b), None => true }) && forall|x: int| olook(n, 0, x) == jtmx::<K, V, L, W, R, FB, FL, FR>(bo, lo, ro, #[trigger] look(a, 0, x), look(b, 0, x))
{
    let j = jtm::<K, V, L, W, R, FB, FL, FR>(bo, lo, ro); jz_top(a, b, j);
    assert forall|n: Option<MNode<H, F, K, V, M>>| #[trigger] jd(n, Some(a), Some(b), 0, j) implies forall|x: int| olook(n, 0, x) == jtmx::<K, V, L, W, R, FB, FL, FR>(bo, lo, ro, #[trigger] look(a, 0, x), look(b, 0, x)) by {
        assert forall|x: int| olook(n, 0, x) == jtmx::<K, V, L, W, R, FB, FL, FR>(bo, lo, ro, #[trigger] look(a, 0, x), look(b, 0, x)) by { assert(j(look(a, 0, x), look(b, 0, x), olook(n, 0, x))); }
    }
}
pub proof fn mf_top<H: Hashword, F: Flagword<H>, K: Key, V: Value, L: Key, W: Value, M, R, FB, FL, FR>(a: MNode<H, F, K, V, M>, b: MNode<H, F, L, W, M>, bo: MapTransform<R, FB>, lo: MapTransmute<R, FL>, ro: MapTransform<R, FR>)
    ensures wf(a, 0) && wf(b, 0) && sz(a) + sz(b) <= cap() ==> jpre(a, b, 0),
        forall|n: Option<MNode<H, F, L, W, M>>| #[trigger] jd(n, Some(a), Some(b), 0, jmt::<K, V, L, W, R, FB, FL, FR>(bo, lo, ro)) ==>
            (match n { Some(m) => wf(m, 0) && 0 < sz(m) <= sz(a) + sz(b), None => true }) && forall|x: int| olook(n, 0, x) == jmtx::<K, V, L, W, R, FB, FL, FR>(bo, lo, ro, #[trigger] look(a, 0, x), look(b, 0, x))
{
    let j = jmt::<K, V, L, W, R, FB, FL, FR>(bo, lo, ro); jz_top(a, b, j);
    assert forall|n: Option<MNode<H, F, L, W, M>>| #[trigger] jd(n, Some(a), Some(b), 0, j) implies forall|x: int| olook(n, 0, x) == jmtx::<K, V, L, W, R, FB, FL, FR>(bo, lo, ro, #[trigger] look(a, 0, x), look(b, 0, x)) by {
        assert forall|x: int| olook(n, 0, x) == jmtx::<K, V, L, W, R, FB, FL, FR>(bo, lo, ro, #[trigger] look(a, 0, x), look(b, 0, x)) by { assert(j(look(a, 0, x), look(b, 0, x), olook(n, 0, x))); }
    }
}
pub proof fn z_none<H: Hashword, F: Flagword<H>, K: Key, V: Value, M>(a: MNode<H, F, K, V, M>)
    ensures wf(a, 0) && sz(a) == 0 ==> forall|x: int| (#[trigger] look(a, 0, x)) is None
{
    if wf(a, 0) && sz(a) == 0 {
        assert forall|x: int| (#[trigger] look(a, 0, x)) is None by {
            let i = dg(x, 0); ax_hdg(hid(x), 0); at_kd(a, 0, i); ksum_all(a, 0, i);
            if a is L { nid_all(LNodeNext::L(a->L_0)); }
        }
    }
}
