
// ---- transmute ----
pub open spec fn gu<H: Hashword, F: Flagword<H>, K: Key, V: Value, M, S: Key, X: Value, R, Op>(op: MapTransmute<R, Op>, n: MNode<H, F, K, V, M>, d: nat) -> spec_fn(int) -> Ent<S, X> {
    |x: int| ux::<K, V, S, X, R, Op>(op, look(n, d, x))
}
pub open spec fn unode<H: Hashword, F: Flagword<H>, K: Key, V: Value, M, R>(res: MNodeTransmuteResult<H, F, K, V, M, R>) -> Option<MNode<H, F, K, V, M>> {
    match res { MNodeTransmuteResult::C(c, _) => Some(MNode::C(c)), MNodeTransmuteResult::L(l, _) => Some(MNode::L(l)), MNodeTransmuteResult::S(s, _) => Some(MNode::S(s)), MNodeTransmuteResult::Removed(_) => None }
}
pub open spec fn oreal<H: Hashword, F: Flagword<H>, K: Key, V: Value, M>(n: Option<MNode<H, F, K, V, M>>, bound: nat, d: nat, g: spec_fn(int) -> Ent<K, V>) -> bool {
    match n { Some(n) => real(n, d, g) && sz(n) <= bound, None => forall|x: int| (#[trigger] g(x)) is None }
}
pub open spec fn udone<H: Hashword, F: Flagword<H>, K: Key, V: Value, M, S: Key, X: Value, R, Op>(res: MNodeTransmuteResult<H, F, S, X, M, R>, a: MNode<H, F, K, V, M>, op: MapTransmute<R, Op>) -> bool {
    forall|d: nat| #[trigger] wf(a, d) ==> oreal(unode(res), sz(a), d, gu(op, a, d))
}
pub open spec fn olreal<K: Key, V: Value>(n: Option<LNodeNext<K, V>>, bound: nat, g: spec_fn(int) -> Ent<K, V>) -> bool {
    match n { Some(n) => lreal(n, g) && 0 < nsz(n) <= bound, None => forall|x: int| (#[trigger] g(x)) is None }
}
pub open spec fn lunode<K: Key, V: Value, R>(res: LNodeTransmuteResult<K, V, R>) -> Option<LNodeNext<K, V>> {
    match res { LNodeTransmuteResult::L(l, _) => Some(LNodeNext::L(l)), LNodeTransmuteResult::S(s, _) => Some(LNodeNext::S(s)), LNodeTransmuteResult::Removed(_) => None }
}
pub open spec fn glu<K: Key, V: Value, S: Key, X: Value, R, Op>(op: MapTransmute<R, Op>, n: LNodeNext<K, V>) -> spec_fn(int) -> Ent<S, X> { |x: int| ux::<K, V, S, X, R, Op>(op, nfind(n, x)) }
pub open spec fn ludone<K: Key, V: Value, S: Key, X: Value, R, Op>(res: LNodeTransmuteResult<S, X, R>, a: LNodeNext<K, V>, op: MapTransmute<R, Op>) -> bool {
    olreal(lunode(res), nsz(a), glu(op, a))
}
pub open spec fn from_lu<H: Hashword, F: Flagword<H>, K: Key, V: Value, M, R>(res: LNodeTransmuteResult<K, V, R>) -> MNodeTransmuteResult<H, F, K, V, M, R> {
    match res { LNodeTransmuteResult::L(l, r) => MNodeTransmuteResult::L(l, r), LNodeTransmuteResult::S(s, r) => MNodeTransmuteResult::S(s, r), LNodeTransmuteResult::Removed(r) => MNodeTransmuteResult::Removed(r) }
}
pub open spec fn from_su<K: Key, V: Value, R>(res: SNodeTransmuteResult<K, V, R>) -> LNodeTransmuteResult<K, V, R> {
    match res { SNodeTransmuteResult::S(s, r) => LNodeTransmuteResult::S(s, r), SNodeTransmuteResult::Removed(r) => LNodeTransmuteResult::Removed(r) }
}
pub open spec fn from_u<H: Hashword, F: Flagword<H>, K: Key, V: Value, M, R>(res: MNodeTransmuteResult<H, F, K, V, M, R>) -> MNodeTransformResult<H, F, K, V, M, R> {
    match res { MNodeTransmuteResult::C(c, r) => MNodeTransformResult::C(c, r), MNodeTransmuteResult::L(l, r) => MNodeTransformResult::L(l, r), MNodeTransmuteResult::S(s, r) => MNodeTransformResult::S(s, r), MNodeTransmuteResult::Removed(r) => MNodeTransformResult::Removed(r) }
}
/// the leaf for what an operation answered
pub open spec fn su_of<K: Key, V: Value, R>(r: MapTransmuteResult<K, V, R>, res: SNodeTransmuteResult<K, V, R>) -> bool {
    match r {
        MapTransmuteResult::Transmuted(s, x, a) => res is S && res->S_0.key == s && res->S_0.value == x && res->S_1 == a,
        MapTransmuteResult::Removed(a) => res == SNodeTransmuteResult::<K, V, R>::Removed(a),
    }
}
pub open spec fn ontou<S: Key, X: Value, R>(g: spec_fn(int) -> Ent<S, X>, r: MapTransmuteResult<S, X, R>) -> spec_fn(int) -> Ent<S, X> {
    |x: int| match r { MapTransmuteResult::Transmuted(k, v, _) => if x == kid(k) { Some((k, v)) } else { g(x) }, MapTransmuteResult::Removed(_) => g(x) }
}
/// a list node for the answer fits in front of n
pub open spec fn fits<S: Key, X: Value, R>(r: MapTransmuteResult<S, X, R>, n: Option<LNodeNext<S, X>>) -> bool {
    match (r, n) { (MapTransmuteResult::Transmuted(k, v, _), Some(n)) => nfind(n, kid(k)) is None && nsz(n) < usize::MAX && forall|x: int| (#[trigger] nfind(n, x)) is Some ==> hid(x) == hid(kid(k)), _ => true }
}
pub proof fn lu_from<H: Hashword, F: Flagword<H>, K: Key, V: Value, M, S: Key, X: Value, R, Op>(a: MNode<H, F, K, V, M>, op: MapTransmute<R, Op>)
    ensures match a {
        MNode::L(l) => forall|r: LNodeTransmuteResult<S, X, R>| #[trigger] ludone(r, LNodeNext::L(l), op) ==> udone(from_lu::<H, F, S, X, M, R>(r), a, op),
        MNode::S(l) => forall|r: LNodeTransmuteResult<S, X, R>| #[trigger] ludone(r, LNodeNext::S(l), op) ==> udone(from_lu::<H, F, S, X, M, R>(r), a, op),
        MNode::C(_) => true }
{
    match a {
        MNode::L(l) => { assert forall|r: LNodeTransmuteResult<S, X, R>| #[trigger] ludone(r, LNodeNext::L(l), op) implies udone(from_lu::<H, F, S, X, M, R>(r), a, op) by { lu_m::<H, F, K, V, M, S, X, R, Op>(r, LNodeNext::L(l), op); } },
        MNode::S(l) => { assert forall|r: LNodeTransmuteResult<S, X, R>| #[trigger] ludone(r, LNodeNext::S(l), op) implies udone(from_lu::<H, F, S, X, M, R>(r), a, op) by { lu_m::<H, F, K, V, M, S, X, R, Op>(r, LNodeNext::S(l), op); } },
        MNode::C(_) => {},
    }
}
pub proof fn lu_m<H: Hashword, F: Flagword<H>, K: Key, V: Value, M, S: Key, X: Value, R, Op>(res: LNodeTransmuteResult<S, X, R>, a: LNodeNext<K, V>, op: MapTransmute<R, Op>)
    requires ludone(res, a, op)
    ensures udone(from_lu::<H, F, S, X, M, R>(res), from_next::<H, F, K, V, M>(a), op)
{
    let m = from_next::<H, F, K, V, M>(a); let rm = from_lu::<H, F, S, X, M, R>(res);
    assert forall|d: nat| #[trigger] wf(m, d) implies oreal(unode(rm), sz(m), d, gu(op, m, d)) by {
        let g: spec_fn(int) -> Ent<S, X> = gu(op, m, d); let gl: spec_fn(int) -> Ent<S, X> = glu(op, a);
        assert forall|x: int| #[trigger] g(x) == gl(x) by { look_n::<H, F, K, V, M>(a, d, x); }
        if let Some(n) = lunode(res) {
            assert(unode(rm) == Some(from_next::<H, F, S, X, M>(n)));
            assert forall|x: int| #[trigger] look(from_next::<H, F, S, X, M>(n), d, x) == g(x) by { look_n::<H, F, S, X, M>(n, d, x); assert(g(x) == gl(x)); }
        } else { assert forall|x: int| (#[trigger] g(x)) is None by { assert(g(x) == gl(x)); } }
    }
}
pub proof fn lu_step<K: Key, V: Value, S: Key, X: Value, R, Op>(this: Arc<LNode<K, V>>, op: MapTransmute<R, Op>)
    requires lwf(*this), mukey::<K, V, S, X, R, Op>(op)
    ensures forall|res: LNodeTransmuteResult<S, X, R>| #[trigger] ludone(res, this.next, op) ==> fits(mu::<K, V, S, X, R, Op>(op, this.key, this.value), lunode(res)),
        forall|x: int| #[trigger] glu::<K, V, S, X, R, Op>(op, LNodeNext::L(this))(x) == ontou(glu(op, this.next), mu::<K, V, S, X, R, Op>(op, this.key, this.value))(x)
{
    lall(this);
    let a = mul::<K, V, S, X, R, Op>(op, this);
    assert forall|res: LNodeTransmuteResult<S, X, R>| #[trigger] ludone(res, this.next, op) implies fits(a, lunode(res)) by {
        if let Some(n) = lunode(res) {
            assert forall|x: int| (#[trigger] nfind(n, x)) is Some implies nfind(this.next, x) is Some by { assert(glu::<K, V, S, X, R, Op>(op, this.next)(x) is Some); }
        }
    }
}
pub proof fn lall_u<K: Key, V: Value, R>(res: LNodeTransmuteResult<K, V, R>)
    ensures res is L ==> forall|x: int| #[trigger] nfind(LNodeNext::L(res->L_0), x) == (if kid(res->L_0.key) == x { Some((res->L_0.key, res->L_0.value)) } else { nfind(res->L_0.next, x) })
{ if let LNodeTransmuteResult::L(l, r) = res { lall(l); } }
// a branch
pub open spec fn uslot<H: Hashword, F: Flagword<H>, K: Key, V: Value, M, S: Key, X: Value, R, Op>(op: MapTransmute<R, Op>, c: CNode<H, F, K, V, M>, j: nat, s: Option<MNode<H, F, S, X, M>>) -> bool {
    osz(s) <= osz(child(c, j)) && forall|d: nat| #[trigger] wf(MNode::C(c), d) ==> rz(s, d, j, gu(op, MNode::C(c), d))
}
pub open spec fn up<H: Hashword, F: Flagword<H>, K: Key, V: Value, M, S: Key, X: Value, R, Op>(op: MapTransmute<R, Op>, c: CNode<H, F, K, V, M>) -> spec_fn(nat, Option<MNode<H, F, S, X, M>>) -> bool {
    |j: nat, s: Option<MNode<H, F, S, X, M>>| uslot(op, c, j, s)
}
pub open spec fn upart<H: Hashword, F: Flagword<H>, K: Key, V: Value, M, S: Key, X: Value, R, Op>(size: usize, b: F, s: Seq<MNode<H, F, S, X, M>>, c: CNode<H, F, K, V, M>, op: MapTransmute<R, Op>, lo: nat, hi: nat) -> bool {
    acc(b, s, lo, hi, up(op, c)) && size == ssum(s) && size + rsum(cb(c), cv(c), lo) <= rsum(cb(c), cv(c), hi)
}
pub proof fn u_child<H: Hashword, F: Flagword<H>, K: Key, V: Value, M, S: Key, X: Value, R, Op>(c: CNode<H, F, K, V, M>, j: nat, op: MapTransmute<R, Op>)
    requires wfx(MNode::C(c)), j < wd()
    ensures bok(cn(c)), cx(c) == ssum(cv(c)),
        child(c, j) is None ==> uslot(op, c, j, None::<MNode<H, F, S, X, M>>),
        child(c, j) is Some ==> wfx(child(c, j)->0) && sz(child(c, j)->0) > 0
            && (forall|res: MNodeTransmuteResult<H, F, S, X, M, R>| #[trigger] udone(res, child(c, j)->0, op) ==> uslot(op, c, j, unode(res)))
{
    let d0 = choose|d: nat| wf(MNode::C(c), d);
    wf_c1(c, d0); at_slot(c, d0, j);
    if let Some(m) = child(c, j) {
        assert(wf(m, d0 + 1));
        assert forall|res: MNodeTransmuteResult<H, F, S, X, M, R>| #[trigger] udone(res, m, op) implies uslot(op, c, j, unode(res)) by {
            assert forall|d: nat| #[trigger] wf(MNode::C(c), d) implies rz(unode(res), d, j, gu(op, MNode::C(c), d)) by {
                at_slot(c, d, j); assert(wf(m, d + 1));
                let g: spec_fn(int) -> Ent<S, X> = gu(op, m, d + 1); let gc: spec_fn(int) -> Ent<S, X> = gu(op, MNode::C(c), d);
                assert(oreal(unode(res), sz(m), d + 1, g));
                let s = unode(res);
                if let Some(n) = s {
                    assert forall|x: int| (#[trigger] look(n, d + 1, x)) is Some implies dg(x, d) == j by { assert(g(x) is Some); assert(look(m, d + 1, x) is Some); }
                }
                assert forall|x: int| dg(x, d) == j implies #[trigger] olook(s, d + 1, x) == gc(x) by { assert(look(MNode::C(c), d, x) == look(m, d + 1, x)); assert(g(x) == gc(x)); }
            }
            let g: spec_fn(int) -> Ent<S, X> = gu(op, m, d0 + 1);
            assert(oreal(unode(res), sz(m), d0 + 1, g));
        }
    } else {
        assert forall|d: nat| #[trigger] wf(MNode::C(c), d) implies rz(None::<MNode<H, F, S, X, M>>, d, j, gu(op, MNode::C(c), d)) by {
            let gc: spec_fn(int) -> Ent<S, X> = gu(op, MNode::C(c), d);
            assert forall|x: int| dg(x, d) == j implies #[trigger] olook(None::<MNode<H, F, S, X, M>>, d + 1, x) == gc(x) by { look_c(c, d, x); }
        }
    }
}
pub proof fn u_fin<H: Hashword, F: Flagword<H>, K: Key, V: Value, M, S: Key, X: Value, R, Op>(c: CNode<H, F, K, V, M>, op: MapTransmute<R, Op>)
    requires wfx(MNode::C(c))
    ensures forall|size: usize, b: F, s: Seq<MNode<H, F, S, X, M>>, res: MNodeTransmuteResult<H, F, S, X, M, R>|
        #![trigger upart(size, b, s, c, op, 0, wd()), udone(res, MNode::C(c), op)]
        upart(size, b, s, c, op, 0, wd()) && built(b, s, unode(res)) ==> udone(res, MNode::C(c), op),
        bok(cn(c)), cx(c) == ssum(cv(c)), rsum(cb(c), cv(c), wd()) == ssum(cv(c))
{
    let d0 = choose|d: nat| wf(MNode::C(c), d); wf_c1(c, d0); rsum_all(cb(c), cv(c));
    assert forall|size: usize, b: F, s: Seq<MNode<H, F, S, X, M>>, res: MNodeTransmuteResult<H, F, S, X, M, R>|
        #![trigger upart(size, b, s, c, op, 0, wd()), udone(res, MNode::C(c), op)]
        upart(size, b, s, c, op, 0, wd()) && built(b, s, unode(res)) implies udone(res, MNode::C(c), op) by {
        assert forall|d: nat| #[trigger] wf(MNode::C(c), d) implies oreal(unode(res), cx(c) as nat, d, gu(op, MNode::C(c), d)) by {
            let g: spec_fn(int) -> Ent<S, X> = gu(op, MNode::C(c), d);
            assert forall|j: nat| 0 <= j < wd() implies rzp(d, g)(j, #[trigger] slot(b, s, j)) by { assert(up::<H, F, K, V, M, S, X, R, Op>(op, c)(j, slot(b, s, j))); }
            assert(acc(b, s, 0, wd(), rzp(d, g)));
            acc_fin(b, s, d, g);
            if let Some(n) = unode(res) { assert(fin(b, s, d, n)); if s.len() == 1 { assert(s.drop_last() =~= seq![]); reveal_with_fuel(ssum, 2); } }
        }
    }
}
pub open spec fn to_su<K: Key, V: Value, R>(res: LNodeTransmuteResult<K, V, R>) -> SNodeTransmuteResult<K, V, R> {
    match res { LNodeTransmuteResult::S(s, r) => SNodeTransmuteResult::S(s, r), LNodeTransmuteResult::Removed(r) => SNodeTransmuteResult::Removed(r), LNodeTransmuteResult::L(_, r) => SNodeTransmuteResult::Removed(r) }
}
pub open spec fn to_lu<H: Hashword, F: Flagword<H>, K: Key, V: Value, M, R>(res: MNodeTransmuteResult<H, F, K, V, M, R>) -> LNodeTransmuteResult<K, V, R> {
    match res { MNodeTransmuteResult::L(l, r) => LNodeTransmuteResult::L(l, r), MNodeTransmuteResult::S(s, r) => LNodeTransmuteResult::S(s, r), MNodeTransmuteResult::Removed(r) => LNodeTransmuteResult::Removed(r), MNodeTransmuteResult::C(_, r) => LNodeTransmuteResult::Removed(r) }
}
pub open spec fn mul<K: Key, V: Value, S: Key, X: Value, R, Op>(op: MapTransmute<R, Op>, l: Arc<LNode<K, V>>) -> MapTransmuteResult<S, X, R> { mu(op, l.key, l.value) }
