// ---- folding one value per key ----
/// e, then the values of the keys of s, in that order
pub open spec fn mfold<T>(m: spec_fn(T, T) -> T, e: T, s: Seq<int>, d: spec_fn(int) -> Option<T>) -> T decreases s.len() {
    if s.len() == 0 { e } else { m(mfold(m, e, s.drop_last(), d), d(s.last())->0) }
}
/// s lists every key that has a value, once
pub open spec fn covers<T>(s: Seq<int>, d: spec_fn(int) -> Option<T>) -> bool {
    s.no_duplicates() && forall|x: int| #[trigger] s.contains(x) <==> d(x) is Some
}
/// r is e followed by the values of all keys, each once, in some order
pub open spec fn mred<T>(m: spec_fn(T, T) -> T, e: T, r: T, d: spec_fn(int) -> Option<T>) -> bool {
    exists|s: Seq<int>| #[trigger] covers(s, d) && r == mfold(m, e, s, d)
}
pub proof fn mf_ext<T>(m: spec_fn(T, T) -> T, e: T, s: Seq<int>, d1: spec_fn(int) -> Option<T>, d2: spec_fn(int) -> Option<T>)
    requires forall|x: int| s.contains(x) ==> d1(x) == #[trigger] d2(x)
    ensures mfold(m, e, s, d1) == mfold(m, e, s, d2) decreases s.len()
{
    if s.len() > 0 {
        assert(s.contains(s.last()));
        assert(d1(s.last()) == d2(s.last()));
        assert forall|x: int| s.drop_last().contains(x) implies d1(x) == #[trigger] d2(x) by {
            let i = choose|i: int| 0 <= i < s.drop_last().len() && s.drop_last()[i] == x; assert(s[i] == x);
        }
        mf_ext(m, e, s.drop_last(), d1, d2);
    }
}
pub proof fn mf_add<T>(m: spec_fn(T, T) -> T, e: T, s: Seq<int>, t: Seq<int>, d: spec_fn(int) -> Option<T>)
    ensures mfold(m, e, s + t, d) == mfold(m, mfold(m, e, s, d), t, d) decreases t.len()
{
    if t.len() == 0 { assert(s + t =~= s); } else { assert((s + t).drop_last() =~= s + t.drop_last()); mf_add(m, e, s, t.drop_last(), d); }
}
pub proof fn mr_ext<T>(m: spec_fn(T, T) -> T, e: T, r: T, d1: spec_fn(int) -> Option<T>, d2: spec_fn(int) -> Option<T>)
    requires mred(m, e, r, d1), forall|x: int| #[trigger] d2(x) == d1(x)
    ensures mred(m, e, r, d2)
{
    let s = choose|s: Seq<int>| #[trigger] covers(s, d1) && r == mfold(m, e, s, d1);
    assert forall|x: int| #[trigger] s.contains(x) <==> d2(x) is Some by { assert(d2(x) == d1(x)); }
    assert(covers(s, d2));
    mf_ext(m, e, s, d1, d2);
}
pub proof fn mr_none<T>(m: spec_fn(T, T) -> T, e: T, d: spec_fn(int) -> Option<T>)
    requires forall|x: int| (#[trigger] d(x)) is None
    ensures mred(m, e, e, d)
{
    let s = Seq::<int>::empty();
    assert(covers(s, d)); assert(mfold(m, e, s, d) == e);
}
pub proof fn mr_one<T>(m: spec_fn(T, T) -> T, e: T, x: int, d: spec_fn(int) -> Option<T>)
    requires d(x) is Some, forall|y: int| (#[trigger] d(y)) is Some ==> y == x
    ensures mred(m, e, m(e, d(x)->0), d)
{
    let s = Seq::<int>::empty().push(x);
    assert(s.drop_last() =~= Seq::empty()); assert(s.last() == x);
    assert forall|y: int| #[trigger] s.contains(y) <==> d(y) is Some by { if y == x { assert(s[0] == y); } }
    assert(covers(s, d));
    assert(mfold(m, e, s.drop_last(), d) == e);
}
/// one part, then another that shares no key with it
pub proof fn mr_then<T>(m: spec_fn(T, T) -> T, e: T, r1: T, r: T, d1: spec_fn(int) -> Option<T>, d2: spec_fn(int) -> Option<T>, d: spec_fn(int) -> Option<T>)
    requires mred(m, e, r1, d1), mred(m, r1, r, d2), forall|x: int| d1(x) is None || (#[trigger] d2(x)) is None,
        forall|x: int| #[trigger] d(x) == if d1(x) is Some { d1(x) } else { d2(x) }
    ensures mred(m, e, r, d)
{
    let s = choose|s: Seq<int>| #[trigger] covers(s, d1) && r1 == mfold(m, e, s, d1);
    let t = choose|t: Seq<int>| #[trigger] covers(t, d2) && r == mfold(m, r1, t, d2);
    let u = s + t;
    assert forall|x: int| s.contains(x) implies d1(x) == #[trigger] d(x) by { }
    assert forall|x: int| t.contains(x) implies d2(x) == #[trigger] d(x) by { }
    mf_ext(m, e, s, d1, d); mf_ext(m, r1, t, d2, d); mf_add(m, e, s, t, d);
    assert forall|x: int| #[trigger] u.contains(x) <==> d(x) is Some by {
        assert(d(x) == if d1(x) is Some { d1(x) } else { d2(x) });
        if u.contains(x) { let i = choose|i: int| 0 <= i < u.len() && u[i] == x; if i < s.len() { assert(s[i] == x); } else { assert(t[i - s.len()] == x); } assert(s.contains(x) || t.contains(x)); }
        if s.contains(x) { let i = choose|i: int| 0 <= i < s.len() && s[i] == x; assert(u[i] == x); }
        if t.contains(x) { let i = choose|i: int| 0 <= i < t.len() && t[i] == x; assert(u[i + s.len()] == x); }
        assert(d(x) is Some <==> (s.contains(x) || t.contains(x)));
    }
    assert(u.no_duplicates()) by {
        assert forall|i: int, j: int| 0 <= i < u.len() && 0 <= j < u.len() && i != j implies u[i] != u[j] by {
            if i < s.len() && j >= s.len() { assert(s.contains(s[i])); assert(t.contains(t[j - s.len()])); }
            if j < s.len() && i >= s.len() { assert(s.contains(s[j])); assert(t.contains(t[i - s.len()])); }
        }
    }
    assert(covers(u, d));
}

// ---- visits ----
pub open spec fn cat() -> spec_fn(Seq<Ev>, Seq<Ev>) -> Seq<Ev> { |a: Seq<Ev>, b: Seq<Ev>| a + b }
/// what the visitor logs for an entry
pub open spec fn vd<K, V, F: Fn(&K, &V) -> VpLog>(op: F, e: Ent<K, V>) -> Option<Seq<Ev>> {
    match e { Some(e) => Some(fap2::<F, K, V, VpLog>(op, e.0, e.1)@), None => None }
}
pub open spec fn vdn<H: Hashword, F: Flagword<H>, K: Key, V: Value, M, Op: Fn(&K, &V) -> VpLog>(op: Op, n: MNode<H, F, K, V, M>, d: nat) -> spec_fn(int) -> Option<Seq<Ev>> {
    |x: int| vd::<K, V, Op>(op, look(n, d, x))
}
pub open spec fn vdl<K: Key, V: Value, Op: Fn(&K, &V) -> VpLog>(op: Op, n: LNode<K, V>) -> spec_fn(int) -> Option<Seq<Ev>> {
    |x: int| vd::<K, V, Op>(op, lfind(n, x))
}
pub open spec fn vdx<K: Key, V: Value, Op: Fn(&K, &V) -> VpLog>(op: Op, n: LNodeNext<K, V>) -> spec_fn(int) -> Option<Seq<Ev>> {
    |x: int| vd::<K, V, Op>(op, nfind(n, x))
}
pub open spec fn vds<K: Key, V: Value, Op: Fn(&K, &V) -> VpLog>(op: Op, n: SNode<K, V>) -> spec_fn(int) -> Option<Seq<Ev>> {
    |x: int| vd::<K, V, Op>(op, sfind(n, x))
}
/// the first i children of a cnode
pub open spec fn vdc<H: Hashword, F: Flagword<H>, K: Key, V: Value, M, Op: Fn(&K, &V) -> VpLog>(op: Op, c: CNode<H, F, K, V, M>, d: nat, i: nat) -> spec_fn(int) -> Option<Seq<Ev>> {
    |x: int| if hb(cb(c), dg(x, d)) && rank(cb(c), dg(x, d)) < i { vd::<K, V, Op>(op, clook(c, d, x)) } else { None }
}
/// the log grew by one run of the visitor per entry
pub open spec fn visn<H: Hashword, F: Flagword<H>, K: Key, V: Value, M, Op: Fn(&K, &V) -> VpLog>(op: Op, n: MNode<H, F, K, V, M>, d: nat, l0: VpLog, l1: VpLog) -> bool {
    mred(cat(), l0@, l1@, vdn::<H, F, K, V, M, Op>(op, n, d))
}
pub open spec fn visl<K: Key, V: Value, Op: Fn(&K, &V) -> VpLog>(op: Op, n: LNode<K, V>, l0: VpLog, l1: VpLog) -> bool {
    mred(cat(), l0@, l1@, vdl::<K, V, Op>(op, n))
}
pub open spec fn visla<K: Key, V: Value, Op: Fn(&K, &V) -> VpLog>(op: Op, n: LNode<K, V>, l0: VpLog, l1: VpLog) -> bool {
    lwf(n) ==> visl::<K, V, Op>(op, n, l0, l1)
}
pub open spec fn visx<K: Key, V: Value, Op: Fn(&K, &V) -> VpLog>(op: Op, n: LNodeNext<K, V>, l0: VpLog, l1: VpLog) -> bool {
    match n { LNodeNext::L(l) => visl::<K, V, Op>(op, *l, l0, l1), LNodeNext::S(s) => viss::<K, V, Op>(op, *s, l0, l1) }
}
pub open spec fn viss<K: Key, V: Value, Op: Fn(&K, &V) -> VpLog>(op: Op, n: SNode<K, V>, l0: VpLog, l1: VpLog) -> bool {
    mred(cat(), l0@, l1@, vds::<K, V, Op>(op, n))
}
pub open spec fn visc<H: Hashword, F: Flagword<H>, K: Key, V: Value, M, Op: Fn(&K, &V) -> VpLog>(op: Op, c: CNode<H, F, K, V, M>, d: nat, i: nat, l0: VpLog, l1: VpLog) -> bool {
    mred(cat(), l0@, l1@, vdc::<H, F, K, V, M, Op>(op, c, d, i))
}
pub proof fn vis_s<K: Key, V: Value, Op: Fn(&K, &V) -> VpLog>(op: Op, s: SNode<K, V>, l0: VpLog, l1: VpLog)
    ensures l1@ == l0@ + fap2::<Op, K, V, VpLog>(op, s.key, s.value)@ ==> viss::<K, V, Op>(op, s, l0, l1)
{
    let d = vds::<K, V, Op>(op, s);
    assert(d(kid(s.key)) == Some(fap2::<Op, K, V, VpLog>(op, s.key, s.value)@));
    mr_one(cat(), l0@, kid(s.key), d);
}
/// an lnode: its own entry and the rest, in either order
pub proof fn vis_l<K: Key, V: Value, Op: Fn(&K, &V) -> VpLog>(op: Op, l: LNode<K, V>, l0: VpLog, l1: VpLog)
    requires lwf(l)
    ensures (forall|m: VpLog| m@ == l0@ + fap2::<Op, K, V, VpLog>(op, l.key, l.value)@ && #[trigger] visx::<K, V, Op>(op, l.next, m, l1) ==> visl::<K, V, Op>(op, l, l0, l1)),
        (forall|m: VpLog| l1@ == m@ + fap2::<Op, K, V, VpLog>(op, l.key, l.value)@ && #[trigger] visx::<K, V, Op>(op, l.next, l0, m) ==> visl::<K, V, Op>(op, l, l0, l1)),
        match l.next {
            LNodeNext::L(t) => forall|m: VpLog, n: VpLog| #[trigger] visla::<K, V, Op>(op, *t, m, n) ==> visx::<K, V, Op>(op, l.next, m, n),
            LNodeNext::S(t) => forall|m: VpLog, n: VpLog| #[trigger] viss::<K, V, Op>(op, *t, m, n) ==> visx::<K, V, Op>(op, l.next, m, n),
        },
{
    let d = vdl::<K, V, Op>(op, l); let o = fap2::<Op, K, V, VpLog>(op, l.key, l.value)@; let dx = vdx::<K, V, Op>(op, l.next);
    let d1 = |x: int| if x == kid(l.key) { Some(o) } else { None::<Seq<Ev>> };
    assert(d1(kid(l.key)) == Some(o));
    assert forall|m: VpLog, n: VpLog| #[trigger] visx::<K, V, Op>(op, l.next, m, n) implies mred(cat(), m@, n@, dx) by {
        match l.next {
            LNodeNext::L(t) => { mr_ext(cat(), m@, n@, vdl::<K, V, Op>(op, *t), dx); }
            LNodeNext::S(t) => { mr_ext(cat(), m@, n@, vds::<K, V, Op>(op, *t), dx); }
        }
    }
    assert forall|x: int| d1(x) is None || (#[trigger] dx(x)) is None by { }
    assert forall|x: int| #[trigger] d(x) == if d1(x) is Some { d1(x) } else { dx(x) } by { }
    assert forall|m: VpLog| m@ == l0@ + o && #[trigger] visx::<K, V, Op>(op, l.next, m, l1) implies visl::<K, V, Op>(op, l, l0, l1) by {
        mr_one(cat(), l0@, kid(l.key), d1);
        mr_then(cat(), l0@, m@, l1@, d1, dx, d);
    }
    assert forall|m: VpLog| l1@ == m@ + o && #[trigger] visx::<K, V, Op>(op, l.next, l0, m) implies visl::<K, V, Op>(op, l, l0, l1) by {
        mr_one(cat(), m@, kid(l.key), d1);
        mr_then(cat(), l0@, m@, l1@, dx, d1, d);
    }
}
/// at whatever depth the node belongs
pub open spec fn visa<H: Hashword, F: Flagword<H>, K: Key, V: Value, M, Op: Fn(&K, &V) -> VpLog>(op: Op, n: MNode<H, F, K, V, M>, l0: VpLog, l1: VpLog) -> bool {
    forall|d: nat| #[trigger] wf(n, d) ==> visn::<H, F, K, V, M, Op>(op, n, d, l0, l1)
}
pub open spec fn visca<H: Hashword, F: Flagword<H>, K: Key, V: Value, M, Op: Fn(&K, &V) -> VpLog>(op: Op, c: CNode<H, F, K, V, M>, i: nat, l0: VpLog, l1: VpLog) -> bool {
    forall|d: nat| #[trigger] cwf(c, d) ==> visc::<H, F, K, V, M, Op>(op, c, d, i, l0, l1)
}
pub proof fn vis_nn<H: Hashword, F: Flagword<H>, K: Key, V: Value, M, Op: Fn(&K, &V) -> VpLog>(op: Op, n: MNode<H, F, K, V, M>)
    ensures match n {
        MNode::C(c) => true,
        MNode::L(l) => forall|l0: VpLog, l1: VpLog| #[trigger] visla::<K, V, Op>(op, *l, l0, l1) ==> visa::<H, F, K, V, M, Op>(op, n, l0, l1),
        MNode::S(s) => forall|l0: VpLog, l1: VpLog| #[trigger] viss::<K, V, Op>(op, *s, l0, l1) ==> visa::<H, F, K, V, M, Op>(op, n, l0, l1),
    }
{
    match n {
        MNode::C(c) => {}
        MNode::L(l) => {
            assert forall|l0: VpLog, l1: VpLog| #[trigger] visla::<K, V, Op>(op, *l, l0, l1) implies visa::<H, F, K, V, M, Op>(op, n, l0, l1) by {
                assert forall|d: nat| #[trigger] wf(n, d) implies visn::<H, F, K, V, M, Op>(op, n, d, l0, l1) by {
                    mr_ext(cat(), l0@, l1@, vdl::<K, V, Op>(op, *l), vdn::<H, F, K, V, M, Op>(op, n, d));
                }
            }
        }
        MNode::S(t) => {
            assert forall|l0: VpLog, l1: VpLog| #[trigger] viss::<K, V, Op>(op, *t, l0, l1) implies visa::<H, F, K, V, M, Op>(op, n, l0, l1) by {
                assert forall|d: nat| #[trigger] wf(n, d) implies visn::<H, F, K, V, M, Op>(op, n, d, l0, l1) by {
                    mr_ext(cat(), l0@, l1@, vds::<K, V, Op>(op, *t), vdn::<H, F, K, V, M, Op>(op, n, d));
                }
            }
        }
    }
}
pub proof fn vis_c0<H: Hashword, F: Flagword<H>, K: Key, V: Value, M, Op: Fn(&K, &V) -> VpLog>(op: Op, c: CNode<H, F, K, V, M>, l0: VpLog)
    ensures visca::<H, F, K, V, M, Op>(op, c, 0, l0, l0)
{
    assert forall|d: nat| #[trigger] visc::<H, F, K, V, M, Op>(op, c, d, 0, l0, l0) by { mr_none(cat(), l0@, vdc::<H, F, K, V, M, Op>(op, c, d, 0)); }
}
pub proof fn vis_ckid<H: Hashword, F: Flagword<H>, K: Key, V: Value, M>(c: CNode<H, F, K, V, M>, i: nat)
    requires i < cv(c).len()
    ensures forall|d: nat| #[trigger] cwf(c, d) ==> wf(cv(c)[i as int], d + 1)
{
    assert forall|d: nat| #[trigger] cwf(c, d) implies wf(cv(c)[i as int], d + 1) by {
        let j = unrank(cb(c), wd(), i); ax_has(cb(c), j); assert(child(c, j) is Some);
    }
}
proof fn vis_cstep1<H: Hashword, F: Flagword<H>, K: Key, V: Value, M, Op: Fn(&K, &V) -> VpLog>(op: Op, c: CNode<H, F, K, V, M>, i: nat, l0: VpLog, l1: VpLog, l2: VpLog)
    requires i < cv(c).len(), forall|d: nat| #[trigger] cwf(c, d) ==> visc::<H, F, K, V, M, Op>(op, c, d, i, l0, l1),
        forall|d: nat| #[trigger] wf(cv(c)[i as int], d) ==> visn::<H, F, K, V, M, Op>(op, cv(c)[i as int], d, l1, l2)
    ensures forall|d: nat| #[trigger] cwf(c, d) ==> visc::<H, F, K, V, M, Op>(op, c, d, i + 1, l0, l2)
{
    vis_ckid(c, i);
    assert forall|d: nat| #[trigger] cwf(c, d) implies visc::<H, F, K, V, M, Op>(op, c, d, i + 1, l0, l2) by {
        let n = cv(c)[i as int]; let j = unrank(cb(c), wd(), i); ax_has(cb(c), j); assert(child(c, j) is Some);
        assert(wf(n, d + 1) && inslot(n, d, j));
        let d1 = vdc::<H, F, K, V, M, Op>(op, c, d, i); let d2 = vdn::<H, F, K, V, M, Op>(op, n, d + 1); let dd = vdc::<H, F, K, V, M, Op>(op, c, d, i + 1);
        assert forall|x: int| d1(x) is None || (#[trigger] d2(x)) is None by { if d2(x) is Some { assert(look(n, d + 1, x) is Some); assert(dg(x, d) == j); } }
        assert forall|x: int| #[trigger] dd(x) == if d1(x) is Some { d1(x) } else { d2(x) } by {
            if look(n, d + 1, x) is Some { assert(dg(x, d) == j); }
            if hb(cb(c), dg(x, d)) && rank(cb(c), dg(x, d)) == i { rank_inj(cb(c), dg(x, d), j); assert(dg(x, d) == j); }
        }
        mr_then(cat(), l0@, l1@, l2@, d1, d2, dd);
    }
}
pub proof fn vis_cstep<H: Hashword, F: Flagword<H>, K: Key, V: Value, M, Op: Fn(&K, &V) -> VpLog>(op: Op, c: CNode<H, F, K, V, M>, i: nat, l0: VpLog, l1: VpLog)
    requires i < cv(c).len(), visca::<H, F, K, V, M, Op>(op, c, i, l0, l1)
    ensures forall|l2: VpLog| #[trigger] visa::<H, F, K, V, M, Op>(op, cv(c)[i as int], l1, l2) ==> visca::<H, F, K, V, M, Op>(op, c, i + 1, l0, l2)
{
    vis_nn::<H, F, K, V, M, Op>(op, cv(c)[i as int]);
    assert forall|l2: VpLog| #[trigger] visa::<H, F, K, V, M, Op>(op, cv(c)[i as int], l1, l2) implies visca::<H, F, K, V, M, Op>(op, c, i + 1, l0, l2) by {
        vis_cstep1::<H, F, K, V, M, Op>(op, c, i, l0, l1, l2);
    }
}
pub proof fn vis_cend<H: Hashword, F: Flagword<H>, K: Key, V: Value, M, Op: Fn(&K, &V) -> VpLog>(op: Op, c: CNode<H, F, K, V, M>, l0: VpLog, l1: VpLog)
    requires visca::<H, F, K, V, M, Op>(op, c, cv(c).len(), l0, l1)
    ensures visa::<H, F, K, V, M, Op>(op, MNode::C(c), l0, l1)
{
    assert forall|d: nat| #[trigger] wf(MNode::C(c), d) implies visn::<H, F, K, V, M, Op>(op, MNode::C(c), d, l0, l1) by {
        assert(cwf(c, d));
        let d1 = vdc::<H, F, K, V, M, Op>(op, c, d, cv(c).len()); let d2 = vdn::<H, F, K, V, M, Op>(op, MNode::C(c), d);
        assert forall|x: int| #[trigger] d2(x) == d1(x) by { }
        mr_ext(cat(), l0@, l1@, d1, d2);
    }
}
