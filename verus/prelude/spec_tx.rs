
// ---- user operations are functions of their arguments ----
pub uninterp spec fn fap2<F, A, B, R>(f: F, a: A, b: B) -> R;
pub open spec fn pure2<A, B, R, F: Fn(&A, &B) -> R>(f: F) -> bool {
    (forall|a: &A, b: &B| #[trigger] f.requires((a, b)))
    && (forall|a: &A, b: &B, r: R| #[trigger] f.ensures((a, b), r) ==> r == fap2::<F, A, B, R>(f, *a, *b))
}
pub open spec fn mtok<K, V, R, F: Fn(&K, &V) -> MapTransformResult<V, R>>(op: MapTransform<R, F>) -> bool {
    op is Generic ==> pure2::<K, V, MapTransformResult<V, R>, F>(op->Generic_0)
}
pub open spec fn muok<K, V, S, X, R, F: Fn(&K, &V) -> MapTransmuteResult<S, X, R>>(op: MapTransmute<R, F>) -> bool {
    op is Generic ==> pure2::<K, V, MapTransmuteResult<S, X, R>, F>(op->Generic_0)
}
/// what an operation answers for an entry
pub open spec fn mt<K, V, R, F>(op: MapTransform<R, F>, k: K, v: V) -> MapTransformResult<V, R> {
    match op { MapTransform::Generic(f) => fap2(f, k, v), MapTransform::Unchanged(r) => MapTransformResult::Unchanged(r), MapTransform::Removed(r) => MapTransformResult::Removed(r) }
}
pub open spec fn mtr<K, V, R>(k: K, v: V, r: MapTransformResult<V, R>) -> Ent<K, V> {
    match r { MapTransformResult::Unchanged(_) => Some((k, v)), MapTransformResult::Transformed(w, _) => Some((k, w)), MapTransformResult::Removed(_) => None }
}
pub open spec fn tx<K, V, R, F>(op: MapTransform<R, F>, e: Ent<K, V>) -> Ent<K, V> {
    match e { Some(kv) => mtr(kv.0, kv.1, mt(op, kv.0, kv.1)), None => None }
}
pub open spec fn stays<K, V, R, F>(op: MapTransform<R, F>, e: Ent<K, V>) -> bool {
    match e { Some(kv) => mt(op, kv.0, kv.1) is Unchanged, None => true }
}
pub open spec fn mu<K, V, S, X, R, F>(op: MapTransmute<R, F>, k: K, v: V) -> MapTransmuteResult<S, X, R> {
    match op { MapTransmute::Generic(f) => fap2(f, k, v), MapTransmute::Removed(r) => MapTransmuteResult::Removed(r) }
}
pub open spec fn mur<S, X, R>(r: MapTransmuteResult<S, X, R>) -> Ent<S, X> {
    match r { MapTransmuteResult::Transmuted(s, x, _) => Some((s, x)), MapTransmuteResult::Removed(_) => None }
}
pub open spec fn ux<K, V, S, X, R, F>(op: MapTransmute<R, F>, e: Ent<K, V>) -> Ent<S, X> {
    match e { Some(kv) => mur(mu::<K, V, S, X, R, F>(op, kv.0, kv.1)), None => None }
}
/// the operation keeps the identity of keys
pub open spec fn mukey<K, V, S, X, R, F>(op: MapTransmute<R, F>) -> bool {
    forall|k: K, v: V| match #[trigger] mu::<K, V, S, X, R, F>(op, k, v) { MapTransmuteResult::Transmuted(s, x, _) => kid(s) == kid(k), MapTransmuteResult::Removed(_) => true }
}
// ---- nodes built to hold what a function of the key class says ----
pub open spec fn real<H: Hashword, F: Flagword<H>, K: Key, V: Value, M>(n: MNode<H, F, K, V, M>, d: nat, g: spec_fn(int) -> Ent<K, V>) -> bool {
    wf(n, d) && sz(n) > 0 && forall|x: int| #[trigger] look(n, d, x) == g(x)
}
pub open spec fn lreal<K: Key, V: Value>(n: LNodeNext<K, V>, g: spec_fn(int) -> Ent<K, V>) -> bool {
    nwf(n) && forall|x: int| #[trigger] nfind(n, x) == g(x)
}
/// slot j of the node being built at depth d holds what g says
pub open spec fn rz<H: Hashword, F: Flagword<H>, K: Key, V: Value, M>(s: Option<MNode<H, F, K, V, M>>, d: nat, j: nat, g: spec_fn(int) -> Ent<K, V>) -> bool {
    chok(s, d, j) && forall|x: int| dg(x, d) == j ==> #[trigger] olook(s, d + 1, x) == g(x)
}
/// the slots lo..hi are built, each one satisfying p
pub open spec fn acc<F, N>(b: F, s: Seq<N>, lo: nat, hi: nat, p: spec_fn(nat, Option<N>) -> bool) -> bool {
    lo <= hi <= wd() && rank(b, wd()) == s.len()
    && (forall|j: nat| #[trigger] hb(b, j) ==> lo <= j < hi)
    && (forall|j: nat| lo <= j < hi ==> p(j, #[trigger] slot(b, s, j)))
}
pub open spec fn rsum<H: Hashword, F: Flagword<H>, K: Key, V: Value, M>(b: F, s: Seq<MNode<H, F, K, V, M>>, n: nat) -> nat decreases n {
    if n == 0 { 0 } else { rsum(b, s, (n - 1) as nat) + osz(slot(b, s, (n - 1) as nat)) }
}
pub proof fn rank_top<F>(b: F, n: nat, m: nat) requires n <= m, forall|j: nat| #[trigger] hb(b, j) ==> j < n ensures rank(b, m) == rank(b, n) decreases m {
    if n < m { rank_top(b, n, (m - 1) as nat); }
}
pub proof fn acc_new<F, N>(b: F, s: Seq<N>, lo: nat, p: spec_fn(nat, Option<N>) -> bool)
    requires none(b), s.len() == 0, lo <= wd() ensures acc(b, s, lo, lo, p)
{ rank_none(b, wd()); }
pub proof fn acc_push<F, N>(b: F, s: Seq<N>, lo: nat, i: nat, p: spec_fn(nat, Option<N>) -> bool, r: F, v: N)
    requires acc(b, s, lo, i, p), i < wd(), p(i, Some(v)), ins(b, i, r)
    ensures acc(r, s.push(v), lo, i + 1, p), forall|j: nat| #[trigger] slot(r, s.push(v), j) == if j == i { Some(v) } else { slot(b, s, j) }
{
    assert(!hb(b, i)); rank_top(b, i, wd()); slot_ins(b, i, r, s, v);
    assert(s.insert(rank(b, i) as int, v) =~= s.push(v));
}
pub proof fn acc_skip<F, N>(b: F, s: Seq<N>, lo: nat, i: nat, p: spec_fn(nat, Option<N>) -> bool)
    requires acc(b, s, lo, i, p), i < wd(), p(i, None) ensures acc(b, s, lo, i + 1, p)
{
    assert(!hb(b, i));
}
pub proof fn rank_or<F>(a: F, b: F, c: F, mid: nat, n: nat)
    requires forall|j: nat| #[trigger] hb(c, j) <==> hb(a, j) || hb(b, j), forall|j: nat| #[trigger] hb(a, j) ==> j < mid, forall|j: nat| #[trigger] hb(b, j) ==> mid <= j
    ensures rank(c, n) == rank(a, n) + rank(b, n) decreases n
{ if n > 0 { rank_or(a, b, c, mid, (n - 1) as nat); } }
pub proof fn rank_bot<F>(b: F, n: nat) requires forall|j: nat| #[trigger] hb(b, j) ==> n <= j ensures rank(b, n) == 0 decreases n {
    if n > 0 { rank_bot(b, (n - 1) as nat); }
}
pub proof fn acc_join<F, N>(a: F, s: Seq<N>, b: F, t: Seq<N>, c: F, lo: nat, mid: nat, hi: nat, p: spec_fn(nat, Option<N>) -> bool)
    requires acc(a, s, lo, mid, p), acc(b, t, mid, hi, p), mrg(a, b, c)
    ensures acc(c, s + t, lo, hi, p), forall|j: nat| #[trigger] slot(c, s + t, j) == if j < mid { slot(a, s, j) } else { slot(b, t, j) }
{
    rank_or(a, b, c, mid, wd());
    rank_top(a, mid, wd());
    assert forall|j: nat| #[trigger] slot(c, s + t, j) == (if j < mid { slot(a, s, j) } else { slot(b, t, j) }) by {
        rank_or(a, b, c, mid, j); ax_has(c, j); ax_has(a, j); ax_has(b, j);
        if j < mid { rank_mono(b, j, mid); rank_bot(b, mid); if hb(a, j) { rank_mono(a, j, wd()); } }
        else { rank_top(a, mid, j); if hb(b, j) { rank_mono(b, j, wd()); } }
    }
    assert forall|j: nat| lo <= j < hi implies p(j, #[trigger] slot(c, s + t, j)) by { if j < mid { assert(p(j, slot(a, s, j))); } else { assert(p(j, slot(b, t, j))); } }
}
pub proof fn rsum_take<H: Hashword, F: Flagword<H>, K: Key, V: Value, M>(b: F, s: Seq<MNode<H, F, K, V, M>>, n: nat)
    requires rank(b, wd()) == s.len(), n <= wd() ensures rank(b, n) <= s.len(), rsum(b, s, n) == ssum(s.take(rank(b, n) as int)) decreases n
{
    rank_mono(b, n, wd());
    if n > 0 {
        let m = (n - 1) as nat;
        rsum_take(b, s, m); rank_mono(b, m, wd());
        if hb(b, m) {
            let k = rank(b, m) as int;
            assert(s.take(k + 1).drop_last() =~= s.take(k));
        }
    } else { assert(s.take(0) =~= seq![]); }
}
pub proof fn rsum_all<H: Hashword, F: Flagword<H>, K: Key, V: Value, M>(b: F, s: Seq<MNode<H, F, K, V, M>>)
    requires rank(b, wd()) == s.len() ensures rsum(b, s, wd()) == ssum(s)
{ rsum_take(b, s, wd()); assert(s.take(s.len() as int) =~= s); }
pub proof fn rsum_mono<H: Hashword, F: Flagword<H>, K: Key, V: Value, M>(b: F, s: Seq<MNode<H, F, K, V, M>>, i: nat, n: nat)
    requires i <= n ensures rsum(b, s, i) <= rsum(b, s, n) decreases n { if i < n { rsum_mono(b, s, i, (n - 1) as nat); } }
pub proof fn ssum_app<H: Hashword, F: Flagword<H>, K: Key, V: Value, M>(s: Seq<MNode<H, F, K, V, M>>, t: Seq<MNode<H, F, K, V, M>>)
    ensures ssum(s + t) == ssum(s) + ssum(t) decreases t.len()
{ if t.len() == 0 { assert(s + t =~= s); } else { ssum_app(s, t.drop_last()); assert((s + t).drop_last() =~= s + t.drop_last()); } }
/// every slot built for a target function at depth d
pub open spec fn rzp<H: Hashword, F: Flagword<H>, K: Key, V: Value, M>(d: nat, g: spec_fn(int) -> Ent<K, V>) -> spec_fn(nat, Option<MNode<H, F, K, V, M>>) -> bool {
    |j: nat, s: Option<MNode<H, F, K, V, M>>| rz(s, d, j, g)
}
/// the node of what was built
pub open spec fn fin<H: Hashword, F: Flagword<H>, K: Key, V: Value, M>(b: F, s: Seq<MNode<H, F, K, V, M>>, d: nat, n: MNode<H, F, K, V, M>) -> bool {
    match n { MNode::C(c) => d < lv() && cb(c) == b && cv(c) == s && s.len() > 0 && cx(c) == ssum(s) && bok(cn(c)), _ => s =~= seq![n] }
}
pub proof fn acc_fin<H: Hashword, F: Flagword<H>, K: Key, V: Value, M>(b: F, s: Seq<MNode<H, F, K, V, M>>, d: nat, g: spec_fn(int) -> Ent<K, V>)
    requires acc(b, s, 0, wd(), rzp(d, g))
    ensures s.len() == 0 ==> forall|x: int| (#[trigger] g(x)) is None,
        forall|n: MNode<H, F, K, V, M>| #[trigger] fin(b, s, d, n) ==> real(n, d, g),
        s.len() == 1 ==> ssum(s) == sz(s[0])
{
    let p = rzp::<H, F, K, V, M>(d, g);
    if s.len() == 1 { assert(s.drop_last() =~= seq![]); reveal_with_fuel(ssum, 2); }
    if s.len() == 0 {
        assert forall|x: int| (#[trigger] g(x)) is None by { let j = dg(x, d); assert(p(j, slot(b, s, j))); assert(olook(slot(b, s, j), d + 1, x) == g(x)); }
    }
    assert forall|n: MNode<H, F, K, V, M>| #[trigger] fin(b, s, d, n) implies real(n, d, g) by {
        match n {
            MNode::C(c) => {
                assert forall|j: nat| chok(#[trigger] child(c, j), d, j) by { ax_has(b, j); if j < wd() { assert(p(j, slot(b, s, j))); } }
                wf_c2(c, d);
                assert forall|x: int| #[trigger] look(n, d, x) == g(x) by { look_c(c, d, x); let j = dg(x, d); assert(p(j, slot(b, s, j))); assert(olook(slot(b, s, j), d + 1, x) == g(x)); }
                let j = unrank(b, wd(), 0); assert(p(j, slot(b, s, j))); ssum_le(s, 0);
            },
            _ => {
                let i = unrank(b, wd(), 0); assert(p(i, slot(b, s, i))); assert(slot(b, s, i) == Some(n));
                assert forall|x: int| #[trigger] look(n, d, x) == g(x) by {
                    leaf_any(n, d, x); leaf_any(n, d + 1, x);
                    let j = dg(x, d); assert(p(j, slot(b, s, j))); assert(olook(slot(b, s, j), d + 1, x) == g(x));
                    assert(olook(slot(b, s, i), d + 1, x) == look(n, d + 1, x));
                    if j != i { if hb(b, j) { ax_has(b, j); rank_mono(b, j, wd()); rank_inj(b, i, j); } assert(look(n, d + 1, x) is Some ==> dg(x, d) == i); }
                }
            },
        }
    }
}
// ---- transform ----
pub open spec fn gt<H: Hashword, F: Flagword<H>, K: Key, V: Value, M, R, Op>(op: MapTransform<R, Op>, n: MNode<H, F, K, V, M>, d: nat) -> spec_fn(int) -> Ent<K, V> {
    |x: int| tx(op, look(n, d, x))
}
pub open spec fn keeps<H: Hashword, F: Flagword<H>, K: Key, V: Value, M, R, Op>(op: MapTransform<R, Op>, n: MNode<H, F, K, V, M>, d: nat) -> bool {
    forall|x: int| stays(op, #[trigger] look(n, d, x))
}
pub open spec fn tnode<H: Hashword, F: Flagword<H>, K: Key, V: Value, M, R>(res: MNodeTransformResult<H, F, K, V, M, R>, a: MNode<H, F, K, V, M>) -> Option<MNode<H, F, K, V, M>> {
    match res { MNodeTransformResult::Unchanged(_) => Some(a), MNodeTransformResult::C(c, _) => Some(MNode::C(c)), MNodeTransformResult::L(l, _) => Some(MNode::L(l)), MNodeTransformResult::S(s, _) => Some(MNode::S(s)), MNodeTransformResult::Removed(_) => None }
}
pub open spec fn tout<H: Hashword, F: Flagword<H>, K: Key, V: Value, M, R>(res: MNodeTransformResult<H, F, K, V, M, R>, a: MNode<H, F, K, V, M>, d: nat, g: spec_fn(int) -> Ent<K, V>) -> bool {
    match tnode(res, a) { Some(n) => (n == a || real(n, d, g)) && (forall|x: int| #[trigger] look(n, d, x) == g(x)) && sz(n) <= sz(a), None => forall|x: int| (#[trigger] g(x)) is None }
}
pub open spec fn wfx<H: Hashword, F: Flagword<H>, K: Key, V: Value, M>(n: MNode<H, F, K, V, M>) -> bool { exists|d: nat| #[trigger] wf(n, d) }
pub open spec fn tdone<H: Hashword, F: Flagword<H>, K: Key, V: Value, M, R, Op>(res: MNodeTransformResult<H, F, K, V, M, R>, a: MNode<H, F, K, V, M>, op: MapTransform<R, Op>) -> bool {
    forall|d: nat| #[trigger] wf(a, d) ==> tout(res, a, d, gt(op, a, d))
}
pub open spec fn tkept<H: Hashword, F: Flagword<H>, K: Key, V: Value, M, R, Op>(res: MNodeTransformResult<H, F, K, V, M, R>, a: MNode<H, F, K, V, M>, op: MapTransform<R, Op>) -> bool {
    op is Generic ==> forall|d: nat| #[trigger] wf(a, d) && keeps(op, a, d) ==> res is Unchanged
}
pub open spec fn from_lt<H: Hashword, F: Flagword<H>, K: Key, V: Value, M, R>(res: LNodeTransformResult<K, V, R>) -> MNodeTransformResult<H, F, K, V, M, R> {
    match res { LNodeTransformResult::Unchanged(r) => MNodeTransformResult::Unchanged(r), LNodeTransformResult::L(l, r) => MNodeTransformResult::L(l, r), LNodeTransformResult::S(s, r) => MNodeTransformResult::S(s, r), LNodeTransformResult::Removed(r) => MNodeTransformResult::Removed(r) }
}
pub open spec fn from_st<K: Key, V: Value, R>(res: SNodeTransformResult<K, V, R>) -> LNodeTransformResult<K, V, R> {
    match res { SNodeTransformResult::Unchanged(r) => LNodeTransformResult::Unchanged(r), SNodeTransformResult::S(s, r) => LNodeTransformResult::S(s, r), SNodeTransformResult::Removed(r) => LNodeTransformResult::Removed(r) }
}
pub open spec fn glt<K: Key, V: Value, R, Op>(op: MapTransform<R, Op>, n: LNodeNext<K, V>) -> spec_fn(int) -> Ent<K, V> { |x: int| tx(op, nfind(n, x)) }
pub open spec fn lnode_of<K: Key, V: Value, R>(res: LNodeTransformResult<K, V, R>, a: LNodeNext<K, V>) -> Option<LNodeNext<K, V>> {
    match res { LNodeTransformResult::Unchanged(_) => Some(a), LNodeTransformResult::L(l, _) => Some(LNodeNext::L(l)), LNodeTransformResult::S(s, _) => Some(LNodeNext::S(s)), LNodeTransformResult::Removed(_) => None }
}
pub open spec fn ltout<K: Key, V: Value, R>(res: LNodeTransformResult<K, V, R>, a: LNodeNext<K, V>, g: spec_fn(int) -> Ent<K, V>) -> bool {
    match lnode_of(res, a) { Some(n) => nwf(n) && (forall|x: int| #[trigger] nfind(n, x) == g(x)) && nsz(n) <= nsz(a), None => forall|x: int| (#[trigger] g(x)) is None }
}
pub open spec fn lkeeps<K: Key, V: Value, R, Op>(op: MapTransform<R, Op>, n: LNodeNext<K, V>) -> bool { forall|x: int| stays(op, #[trigger] nfind(n, x)) }
pub open spec fn ltdone<K: Key, V: Value, R, Op>(res: LNodeTransformResult<K, V, R>, a: LNodeNext<K, V>, op: MapTransform<R, Op>) -> bool {
    ltout(res, a, glt(op, a)) && (op is Generic && lkeeps(op, a) ==> res is Unchanged)
}
pub proof fn lt_m<H: Hashword, F: Flagword<H>, K: Key, V: Value, M, R, Op>(res: LNodeTransformResult<K, V, R>, a: LNodeNext<K, V>, op: MapTransform<R, Op>)
    requires ltdone(res, a, op), nwf(a), nsz(a) > 0
    ensures tdone(from_lt::<H, F, K, V, M, R>(res), from_next(a), op), tkept(from_lt::<H, F, K, V, M, R>(res), from_next(a), op)
{
    let rm = from_lt::<H, F, K, V, M, R>(res); let m = from_next::<H, F, K, V, M>(a);
    assert forall|d: nat| #[trigger] wf(m, d) implies tout(rm, m, d, gt(op, m, d)) by {
        assert forall|x: int| gt(op, m, d)(x) == #[trigger] glt(op, a)(x) by { look_n::<H, F, K, V, M>(a, d, x); }
        if let Some(n) = lnode_of(res, a) {
            assert(tnode(rm, m) == Some(from_next::<H, F, K, V, M>(n)));
            assert forall|x: int| #[trigger] look(from_next::<H, F, K, V, M>(n), d, x) == gt(op, m, d)(x) by { look_n::<H, F, K, V, M>(n, d, x); assert(gt(op, m, d)(x) == glt(op, a)(x)); }
        } else { assert forall|x: int| (#[trigger] gt(op, m, d)(x)) is None by { assert(gt(op, m, d)(x) == glt(op, a)(x)); } }
    }
    assert forall|d: nat| #[trigger] wf(m, d) && keeps(op, m, d) implies (op is Generic ==> rm is Unchanged) by {
        assert forall|x: int| stays(op, #[trigger] nfind(a, x)) by { look_n::<H, F, K, V, M>(a, d, x); }
    }
}
/// g with the answer for one key class replaced
pub open spec fn onto<K, V>(g: spec_fn(int) -> Ent<K, V>, id: int, e: Ent<K, V>) -> spec_fn(int) -> Ent<K, V> { |x: int| if x == id { e } else { g(x) } }
pub proof fn lall_r<K: Key, V: Value, R>(res: LNodeTransformResult<K, V, R>)
    ensures res is L ==> forall|x: int| #[trigger] nfind(LNodeNext::L(res->L_0), x) == (if kid(res->L_0.key) == x { Some((res->L_0.key, res->L_0.value)) } else { nfind(res->L_0.next, x) })
{ if let LNodeTransformResult::L(l, r) = res { lall(l); } }
pub open spec fn to_lt<H: Hashword, F: Flagword<H>, K: Key, V: Value, M, R>(res: MNodeTransformResult<H, F, K, V, M, R>) -> LNodeTransformResult<K, V, R> {
    match res { MNodeTransformResult::Unchanged(r) => LNodeTransformResult::Unchanged(r), MNodeTransformResult::L(l, r) => LNodeTransformResult::L(l, r), MNodeTransformResult::S(s, r) => LNodeTransformResult::S(s, r), MNodeTransformResult::Removed(r) => LNodeTransformResult::Removed(r), MNodeTransformResult::C(_, r) => LNodeTransformResult::Removed(r) }
}
pub proof fn lt_from<H: Hashword, F: Flagword<H>, K: Key, V: Value, M, R, Op>(a: MNode<H, F, K, V, M>, op: MapTransform<R, Op>)
    requires wfx(a)
    ensures match a {
        MNode::L(l) => forall|r: LNodeTransformResult<K, V, R>| #[trigger] ltdone(r, LNodeNext::L(l), op) ==> tdone(from_lt::<H, F, K, V, M, R>(r), a, op) && tkept(from_lt::<H, F, K, V, M, R>(r), a, op),
        MNode::S(l) => forall|r: LNodeTransformResult<K, V, R>| #[trigger] ltdone(r, LNodeNext::S(l), op) ==> tdone(from_lt::<H, F, K, V, M, R>(r), a, op) && tkept(from_lt::<H, F, K, V, M, R>(r), a, op),
        MNode::C(_) => true }
{
    match a {
        MNode::L(l) => { assert(lwf(*l)); assert forall|r: LNodeTransformResult<K, V, R>| #[trigger] ltdone(r, LNodeNext::L(l), op) implies tdone(from_lt::<H, F, K, V, M, R>(r), a, op) && tkept(from_lt::<H, F, K, V, M, R>(r), a, op) by { lt_m::<H, F, K, V, M, R, Op>(r, LNodeNext::L(l), op); } },
        MNode::S(l) => { assert forall|r: LNodeTransformResult<K, V, R>| #[trigger] ltdone(r, LNodeNext::S(l), op) implies tdone(from_lt::<H, F, K, V, M, R>(r), a, op) && tkept(from_lt::<H, F, K, V, M, R>(r), a, op) by { lt_m::<H, F, K, V, M, R, Op>(r, LNodeNext::S(l), op); } },
        MNode::C(_) => {},
    }
}
pub proof fn lt_step<K: Key, V: Value, R, Op>(this: Arc<LNode<K, V>>, op: MapTransform<R, Op>)
    requires lwf(*this)
    ensures lkeeps(op, LNodeNext::L(this)) ==> lkeeps(op, this.next) && mt(op, this.key, this.value) is Unchanged,
        forall|x: int| #[trigger] glt(op, LNodeNext::L(this))(x) == onto(glt(op, this.next), kid(this.key), mtr(this.key, this.value, mt(op, this.key, this.value)))(x)
{
    lall(this);
    if lkeeps(op, LNodeNext::L(this)) {
        assert(stays(op, nfind(LNodeNext::L(this), kid(this.key))));
        assert forall|x: int| stays(op, #[trigger] nfind(this.next, x)) by { assert(stays(op, nfind(LNodeNext::L(this), x))); }
    }
}
pub open spec fn tslot<H: Hashword, F: Flagword<H>, K: Key, V: Value, M, R, Op>(op: MapTransform<R, Op>, c: CNode<H, F, K, V, M>, j: nat, s: Option<MNode<H, F, K, V, M>>) -> bool {
    osz(s) <= osz(child(c, j)) && forall|d: nat| #[trigger] wf(MNode::C(c), d) ==> rz(s, d, j, gt(op, MNode::C(c), d))
}
pub open spec fn tp<H: Hashword, F: Flagword<H>, K: Key, V: Value, M, R, Op>(op: MapTransform<R, Op>, c: CNode<H, F, K, V, M>) -> spec_fn(nat, Option<MNode<H, F, K, V, M>>) -> bool {
    |j: nat, s: Option<MNode<H, F, K, V, M>>| tslot(op, c, j, s)
}
/// all slots lo..hi are the same as in c
pub open spec fn samec<H: Hashword, F: Flagword<H>, K: Key, V: Value, M>(b: F, s: Seq<MNode<H, F, K, V, M>>, c: CNode<H, F, K, V, M>, lo: nat, hi: nat) -> bool {
    forall|j: nat| lo <= j < hi ==> #[trigger] slot(b, s, j) == child(c, j)
}
pub open spec fn ckeeps<H: Hashword, F: Flagword<H>, K: Key, V: Value, M, R, Op>(op: MapTransform<R, Op>, c: CNode<H, F, K, V, M>) -> bool {
    exists|d: nat| #[trigger] wf(MNode::C(c), d) && keeps(op, MNode::C(c), d)
}
pub open spec fn tpart<H: Hashword, F: Flagword<H>, K: Key, V: Value, M, R, Op>(size: usize, b: F, s: Seq<MNode<H, F, K, V, M>>, un: bool, c: CNode<H, F, K, V, M>, op: MapTransform<R, Op>, lo: nat, hi: nat) -> bool {
    acc(b, s, lo, hi, tp(op, c)) && size == ssum(s) && size + rsum(cb(c), cv(c), lo) <= rsum(cb(c), cv(c), hi)
    && (un ==> samec(b, s, c, lo, hi)) && (ckeeps(op, c) ==> un)
}
/// one more slot: what pushing a node, or nothing, does
pub proof fn acc_step<H: Hashword, F: Flagword<H>, K: Key, V: Value, M>(b: F, s: Seq<MNode<H, F, K, V, M>>, lo: nat, i: nat, p: spec_fn(nat, Option<MNode<H, F, K, V, M>>) -> bool)
    requires acc(b, s, lo, i, p), i < wd()
    ensures forall|r: F, v: MNode<H, F, K, V, M>| #[trigger] ins(b, i, r) && p(i, Some(v)) ==> acc(r, #[trigger] s.push(v), lo, i + 1, p)
            && (forall|j: nat| #[trigger] slot(r, s.push(v), j) == if j == i { Some(v) } else { slot(b, s, j) }),
        forall|v: MNode<H, F, K, V, M>| ssum(#[trigger] s.push(v)) == ssum(s) + sz(v),
        p(i, None) ==> acc(b, s, lo, i + 1, p), slot(b, s, i) is None, !hb(b, i)
{
    assert forall|r: F, v: MNode<H, F, K, V, M>| #[trigger] ins(b, i, r) && p(i, Some(v)) implies acc(r, #[trigger] s.push(v), lo, i + 1, p)
            && (forall|j: nat| #[trigger] slot(r, s.push(v), j) == if j == i { Some(v) } else { slot(b, s, j) }) by { acc_push(b, s, lo, i, p, r, v); }
    assert forall|v: MNode<H, F, K, V, M>| ssum(#[trigger] s.push(v)) == ssum(s) + sz(v) by { ssum_push(s, v); }
    assert(!hb(b, i));
    if p(i, None) { acc_skip(b, s, lo, i, p); }
}
pub proof fn rsum_step<H: Hashword, F: Flagword<H>, K: Key, V: Value, M>(c: CNode<H, F, K, V, M>, i: nat)
    requires bok(cn(c)), i < wd()
    ensures rsum(cb(c), cv(c), i + 1) == rsum(cb(c), cv(c), i) + osz(child(c, i)), rsum(cb(c), cv(c), i + 1) <= ssum(cv(c)), rsum(cb(c), cv(c), wd()) == ssum(cv(c))
{ rsum_mono(cb(c), cv(c), i + 1, wd()); rsum_all(cb(c), cv(c)); }
pub proof fn t_child<H: Hashword, F: Flagword<H>, K: Key, V: Value, M, R, Op>(c: CNode<H, F, K, V, M>, j: nat, op: MapTransform<R, Op>)
    requires wfx(MNode::C(c)), j < wd()
    ensures bok(cn(c)), cx(c) == ssum(cv(c)),
        child(c, j) is None ==> tslot(op, c, j, None),
        child(c, j) is Some ==> wfx(child(c, j)->0) && sz(child(c, j)->0) > 0
            && (forall|res: MNodeTransformResult<H, F, K, V, M, R>| #[trigger] tdone(res, child(c, j)->0, op) ==> tslot(op, c, j, tnode(res, child(c, j)->0)))
            && (forall|res: MNodeTransformResult<H, F, K, V, M, R>| #[trigger] tkept(res, child(c, j)->0, op) && op is Generic && ckeeps(op, c) ==> res is Unchanged)
{
    let d0 = choose|d: nat| wf(MNode::C(c), d);
    wf_c1(c, d0); at_slot(c, d0, j);
    if let Some(m) = child(c, j) {
        assert(wf(m, d0 + 1));
        assert forall|res: MNodeTransformResult<H, F, K, V, M, R>| #[trigger] tdone(res, m, op) implies tslot(op, c, j, tnode(res, m)) by {
            assert forall|d: nat| #[trigger] wf(MNode::C(c), d) implies rz(tnode(res, m), d, j, gt(op, MNode::C(c), d)) by {
                at_slot(c, d, j); assert(wf(m, d + 1)); assert(tout(res, m, d + 1, gt(op, m, d + 1)));
                let s = tnode(res, m);
                if let Some(n) = s {
                    assert forall|x: int| (#[trigger] look(n, d + 1, x)) is Some implies dg(x, d) == j by { assert(gt(op, m, d + 1)(x) is Some); assert(look(m, d + 1, x) is Some); }
                }
                assert forall|x: int| dg(x, d) == j implies #[trigger] olook(s, d + 1, x) == gt(op, MNode::C(c), d)(x) by { assert(look(MNode::C(c), d, x) == look(m, d + 1, x)); assert(gt(op, m, d + 1)(x) == gt(op, MNode::C(c), d)(x)); }
            }
            assert(tout(res, m, d0 + 1, gt(op, m, d0 + 1)));
        }
        assert forall|res: MNodeTransformResult<H, F, K, V, M, R>| #[trigger] tkept(res, m, op) && op is Generic && ckeeps(op, c) implies res is Unchanged by {
            let d = choose|d: nat| #[trigger] wf(MNode::C(c), d) && keeps(op, MNode::C(c), d);
            at_slot(c, d, j);
            assert forall|x: int| stays(op, #[trigger] look(m, d + 1, x)) by { if look(m, d + 1, x) is Some { assert(dg(x, d) == j); assert(stays(op, look(MNode::C(c), d, x))); } }
            assert(wf(m, d + 1));
        }
    } else {
        assert forall|d: nat| #[trigger] wf(MNode::C(c), d) implies rz(None::<MNode<H, F, K, V, M>>, d, j, gt(op, MNode::C(c), d)) by {
            assert forall|x: int| dg(x, d) == j implies #[trigger] olook(None::<MNode<H, F, K, V, M>>, d + 1, x) == gt(op, MNode::C(c), d)(x) by { look_c(c, d, x); }
        }
    }
}
pub open spec fn built<H: Hashword, F: Flagword<H>, K: Key, V: Value, M>(b: F, s: Seq<MNode<H, F, K, V, M>>, n: Option<MNode<H, F, K, V, M>>) -> bool {
    match n { None => s.len() == 0, Some(MNode::C(c)) => cb(c) == b && cv(c) =~= s && s.len() > 0 && cx(c) == ssum(s) && bok(cn(c)), Some(n) => s =~= seq![n] }
}
pub proof fn t_fin<H: Hashword, F: Flagword<H>, K: Key, V: Value, M, R, Op>(c: CNode<H, F, K, V, M>, op: MapTransform<R, Op>)
    requires wfx(MNode::C(c))
    ensures forall|size: usize, b: F, s: Seq<MNode<H, F, K, V, M>>, un: bool, res: MNodeTransformResult<H, F, K, V, M, R>|
        #![trigger tpart(size, b, s, un, c, op, 0, wd()), tdone(res, MNode::C(c), op)]
        tpart(size, b, s, un, c, op, 0, wd()) && (match res { MNodeTransformResult::Unchanged(_) => un, _ => built(b, s, tnode(res, MNode::C(c))) }) ==> tdone(res, MNode::C(c), op),
        bok(cn(c)), cx(c) == ssum(cv(c)), rsum(cb(c), cv(c), wd()) == ssum(cv(c))
{
    let d0 = choose|d: nat| wf(MNode::C(c), d); wf_c1(c, d0); rsum_all(cb(c), cv(c));
    assert forall|size: usize, b: F, s: Seq<MNode<H, F, K, V, M>>, un: bool, res: MNodeTransformResult<H, F, K, V, M, R>|
        #![trigger tpart(size, b, s, un, c, op, 0, wd()), tdone(res, MNode::C(c), op)]
        tpart(size, b, s, un, c, op, 0, wd()) && (match res { MNodeTransformResult::Unchanged(_) => un, _ => built(b, s, tnode(res, MNode::C(c))) }) implies tdone(res, MNode::C(c), op) by {
        assert forall|d: nat| #[trigger] wf(MNode::C(c), d) implies tout(res, MNode::C(c), d, gt(op, MNode::C(c), d)) by {
            let g = gt(op, MNode::C(c), d);
            assert forall|j: nat| 0 <= j < wd() implies rzp(d, g)(j, #[trigger] slot(b, s, j)) by { assert(tp(op, c)(j, slot(b, s, j))); }
            assert(acc(b, s, 0, wd(), rzp(d, g)));
            acc_fin(b, s, d, g);
            if res is Unchanged { assert forall|x: int| #[trigger] look(MNode::C(c), d, x) == g(x) by { look_c(c, d, x); let j = dg(x, d); assert(tp(op, c)(j, slot(b, s, j))); assert(olook(slot(b, s, j), d + 1, x) == g(x)); } }
            else if let Some(n) = tnode(res, MNode::C(c)) { assert(fin(b, s, d, n)); if s.len() == 1 { assert(s.drop_last() =~= seq![]); reveal_with_fuel(ssum, 2); } }
        }
    }
}
pub proof fn t_join<H: Hashword, F: Flagword<H>, K: Key, V: Value, M, R, Op>(c: CNode<H, F, K, V, M>, op: MapTransform<R, Op>, mid: nat)
    ensures forall|ls: usize, lb: F, lv: Seq<MNode<H, F, K, V, M>>, lu: bool, rs: usize, rb: F, rv: Seq<MNode<H, F, K, V, M>>, ru: bool, b: F|
        #![trigger tpart(ls, lb, lv, lu, c, op, 0, mid), tpart(rs, rb, rv, ru, c, op, mid, wd()), mrg(lb, rb, b)]
        tpart(ls, lb, lv, lu, c, op, 0, mid) && tpart(rs, rb, rv, ru, c, op, mid, wd()) && mrg(lb, rb, b) && ls + rs <= usize::MAX ==> tpart((ls + rs) as usize, b, lv + rv, lu && ru, c, op, 0, wd())
{
    assert forall|ls: usize, lb: F, lv: Seq<MNode<H, F, K, V, M>>, lu: bool, rs: usize, rb: F, rv: Seq<MNode<H, F, K, V, M>>, ru: bool, b: F|
        #![trigger tpart(ls, lb, lv, lu, c, op, 0, mid), tpart(rs, rb, rv, ru, c, op, mid, wd()), mrg(lb, rb, b)]
        tpart(ls, lb, lv, lu, c, op, 0, mid) && tpart(rs, rb, rv, ru, c, op, mid, wd()) && mrg(lb, rb, b) && ls + rs <= usize::MAX implies tpart((ls + rs) as usize, b, lv + rv, lu && ru, c, op, 0, wd()) by {
        acc_join(lb, lv, rb, rv, b, 0, mid, wd(), tp(op, c)); ssum_app(lv, rv);
    }
}
