
// ---- two maps, one side's type kept: the leaves, for any relation j between the entries of both sides and the result ----
pub open spec fn own<K: Key, V: Value>(n: Option<LNodeNext<K, V>>) -> bool { match n { Some(m) => nwf(m) && nsz(m) > 0, None => true } }
pub open spec fn one_of<K, V>(e: Ent<K, V>) -> nat { match e { Some(_) => 1, None => 0 } }
/// q is p with e for key k
pub open spec fn lputs<K: Key, V: Value>(q: Option<LNodeNext<K, V>>, p: Option<LNodeNext<K, V>>, k: int, e: Ent<K, V>) -> bool {
    own(q) && onz(q) == onz(p) + one_of(e) && forall|x: int| #[trigger] onf(q, x) == if x == k { e } else { onf(p, x) }
}
/// an entry for key k fits in front of p
pub open spec fn pfit<K: Key, V: Value>(p: Option<LNodeNext<K, V>>, k: int) -> bool {
    match p { Some(n) => nwf(n) && 0 < nsz(n) < usize::MAX && nfind(n, k) is None && forall|x: int| (#[trigger] nfind(n, x)) is Some ==> hid(x) == hid(k), None => true }
}
/// n is what the entries of a give, those in s as the entries of the other side
pub open spec fn lpat<K: Key, V: Value, L: Key, W: Value, S: Key, X: Value>(n: Option<LNodeNext<S, X>>, a: LNodeNext<K, V>, s: Seq<(&L, &W)>, j: Jr<K, V, L, W, S, X>, x: int) -> bool {
    match nfind(a, x) { Some(e) => j(Some(e), rfind(s, x), onf(n, x)), None => onf(n, x) is None }
}
pub open spec fn lp<K: Key, V: Value, L: Key, W: Value, S: Key, X: Value>(n: Option<LNodeNext<S, X>>, a: LNodeNext<K, V>, s: Seq<(&L, &W)>, j: Jr<K, V, L, W, S, X>) -> bool {
    own(n) && onz(n) <= nsz(a) && forall|x: int| #[trigger] lpat(n, a, s, j, x)
}
/// n is what the entries of a give, none on the other side
pub open spec fn o1at<K: Key, V: Value, L: Key, W: Value, S: Key, X: Value>(n: Option<LNodeNext<S, X>>, a: LNodeNext<K, V>, j: Jr<K, V, L, W, S, X>, x: int) -> bool {
    match nfind(a, x) { Some(e) => j(Some(e), None, onf(n, x)), None => onf(n, x) is None }
}
pub open spec fn o1<K: Key, V: Value, L: Key, W: Value, S: Key, X: Value>(n: Option<LNodeNext<S, X>>, a: LNodeNext<K, V>, j: Jr<K, V, L, W, S, X>) -> bool {
    own(n) && onz(n) <= nsz(a) && forall|x: int| #[trigger] o1at(n, a, j, x)
}
pub open spec fn o2at<K: Key, V: Value, L: Key, W: Value, S: Key, X: Value>(n: Option<LNodeNext<S, X>>, b: LNodeNext<L, W>, j: Jr<K, V, L, W, S, X>, x: int) -> bool {
    match nfind(b, x) { Some(e) => j(None, Some(e), onf(n, x)), None => onf(n, x) is None }
}
pub open spec fn o2<K: Key, V: Value, L: Key, W: Value, S: Key, X: Value>(n: Option<LNodeNext<S, X>>, b: LNodeNext<L, W>, j: Jr<K, V, L, W, S, X>) -> bool {
    own(n) && onz(n) <= nsz(b) && forall|x: int| #[trigger] o2at(n, b, j, x)
}
/// n is what two entries give
pub open spec fn lvat<K: Key, V: Value, L: Key, W: Value, S: Key, X: Value>(n: Option<LNodeNext<S, X>>, k: K, v: V, l: L, w: W, j: Jr<K, V, L, W, S, X>, x: int) -> bool {
    j(if x == kid(k) { Some((k, v)) } else { None }, if x == kid(l) { Some((l, w)) } else { None }, onf(n, x))
}
pub open spec fn lv2<K: Key, V: Value, L: Key, W: Value, S: Key, X: Value>(n: Option<LNodeNext<S, X>>, k: K, v: V, l: L, w: W, j: Jr<K, V, L, W, S, X>) -> bool {
    own(n) && onz(n) <= (if kid(k) == kid(l) { 1nat } else { 2nat }) && forall|x: int| #[trigger] lvat(n, k, v, l, w, j, x)
}
pub proof fn lv_s<K: Key, V: Value, L: Key, W: Value, S: Key, X: Value>(a: LNodeNext<K, V>, s: Seq<(&L, &W)>, j: Jr<K, V, L, W, S, X>)
    requires jnone(j)
    ensures match a {
        LNodeNext::S(sn) => (forall|n: Option<LNodeNext<S, X>>, l: L, w: W| #[trigger] lv2(n, sn.key, sn.value, l, w, j) && rfind(s, kid(sn.key)) == Some((l, w)) && kid(l) == kid(sn.key) ==> lp(n, a, s, j))
            && (forall|n: Option<LNodeNext<S, X>>| #[trigger] o1(n, a, j) && rfind(s, kid(sn.key)) is None ==> lp(n, a, s, j)),
        _ => true }
{
    if let LNodeNext::S(sn) = a {
        let k = sid(sn);
        assert forall|x: int| nfind(a, x) == if x == k { Some(se(sn)) } else { None::<(K, V)> } by {}
        assert forall|n: Option<LNodeNext<S, X>>, l: L, w: W| #[trigger] lv2(n, sn.key, sn.value, l, w, j) && rfind(s, kid(sn.key)) == Some((l, w)) && kid(l) == kid(sn.key) implies lp(n, a, s, j) by {
            assert forall|x: int| #[trigger] lpat(n, a, s, j, x) by { assert(lvat(n, ske(sn), sve(sn), l, w, j, x)); }
        }
        assert forall|n: Option<LNodeNext<S, X>>| #[trigger] o1(n, a, j) && rfind(s, kid(sn.key)) is None implies lp(n, a, s, j) by {
            assert forall|x: int| #[trigger] lpat(n, a, s, j, x) by { assert(o1at(n, a, j, x)); }
        }
    }
}
pub open spec fn ske<K: Key, V: Value>(s: Arc<SNode<K, V>>) -> K { s.key }
pub open spec fn sve<K: Key, V: Value>(s: Arc<SNode<K, V>>) -> V { s.value }
pub proof fn lv_z<K: Key, V: Value, L: Key, W: Value, S: Key, X: Value>(a: LNodeNext<K, V>, r: Arc<SNode<L, W>>, j: Jr<K, V, L, W, S, X>)
    ensures match a { LNodeNext::S(sn) => forall|n: Option<LNodeNext<S, X>>| #[trigger] lv2(n, sn.key, sn.value, r.key, r.value, j) ==> lj(n, a, LNodeNext::S(r), j), _ => true }
{
    if let LNodeNext::S(sn) = a {
        assert forall|x: int| nfind(a, x) == if x == sid(sn) { Some(se(sn)) } else { None::<(K, V)> } by {}
        assert forall|x: int| nfind(LNodeNext::S(r), x) == if x == sid(r) { Some(se(r)) } else { None::<(L, W)> } by {}
        assert forall|n: Option<LNodeNext<S, X>>| #[trigger] lv2(n, sn.key, sn.value, r.key, r.value, j) implies lj(n, a, LNodeNext::S(r), j) by {
            assert forall|x: int| #[trigger] ljat(n, a, LNodeNext::S(r), j, x) by { assert(lvat(n, ske(sn), sve(sn), ske(r), sve(r), j, x)); }
        }
    }
}
/// the list entry put in front of what the rest of its list gave
pub proof fn lp_put<K: Key, V: Value, L: Key, W: Value, S: Key, X: Value>(l: Arc<LNode<K, V>>, s: Seq<(&L, &W)>, j: Jr<K, V, L, W, S, X>)
    requires lwf(*l)
    ensures forall|p: Option<LNodeNext<S, X>>| #[trigger] lp(p, l.next, s, j) ==> pfit(p, kid(l.key)),
        forall|p: Option<LNodeNext<S, X>>| #[trigger] o1(p, l.next, j) ==> pfit(p, kid(l.key)),
        forall|p: Option<LNodeNext<S, X>>, q: Option<LNodeNext<S, X>>, e: Ent<S, X>| #![trigger lp(p, l.next, s, j), lputs(q, p, kid(l.key), e)]
            lp(p, l.next, s, j) && lputs(q, p, kid(l.key), e) && j(Some((l.key, l.value)), rfind(s, kid(l.key)), e) ==> lp(q, LNodeNext::L(l), s, j)
{
    lall(l); lsz(l); let k = lid(l); let n = ln(l); nid_all(n); let a = LNodeNext::L(l);
    assert(nfind(n, k) is None); ln_hid(l);
    assert forall|p: Option<LNodeNext<S, X>>| #[trigger] lp(p, l.next, s, j) implies pfit(p, kid(l.key)) by {
        if let Some(m) = p { assert(lpat(p, n, s, j, k)); assert forall|x: int| (#[trigger] nfind(m, x)) is Some implies hid(x) == hid(k) by { assert(lpat(p, n, s, j, x)); assert(nfind(n, x) is Some); } }
    }
    assert forall|p: Option<LNodeNext<S, X>>| #[trigger] o1(p, l.next, j) implies pfit(p, kid(l.key)) by {
        if let Some(m) = p { assert(o1at(p, n, j, k)); assert forall|x: int| (#[trigger] nfind(m, x)) is Some implies hid(x) == hid(k) by { assert(o1at(p, n, j, x)); assert(nfind(n, x) is Some); } }
    }
    assert forall|p: Option<LNodeNext<S, X>>, q: Option<LNodeNext<S, X>>, e: Ent<S, X>| #![trigger lp(p, l.next, s, j), lputs(q, p, kid(l.key), e)]
            lp(p, l.next, s, j) && lputs(q, p, kid(l.key), e) && j(Some((l.key, l.value)), rfind(s, kid(l.key)), e) implies lp(q, LNodeNext::L(l), s, j) by {
        assert forall|x: int| #[trigger] lpat(q, a, s, j, x) by { assert(lpat(p, n, s, j, x)); assert(onf(q, x) == if x == k { e } else { onf(p, x) }); assert(nfind(a, x) == if k == x { Some(le(l)) } else { nfind(n, x) }); }
    }
}
/// the same for a single entry on the other side
pub proof fn lz_put<K: Key, V: Value, L: Key, W: Value, S: Key, X: Value>(l: Arc<LNode<K, V>>, r: Arc<SNode<L, W>>, j: Jr<K, V, L, W, S, X>)
    requires lwf(*l), hid(kid(l.key)) == hid(kid(r.key)), jnone(j), l.size < usize::MAX
    ensures forall|p: Option<LNodeNext<S, X>>| #[trigger] o1(p, l.next, j) ==> pfit(p, kid(l.key)),
        kid(l.key) == kid(r.key) ==> (forall|p: Option<LNodeNext<S, X>>, q: Option<LNodeNext<S, X>>, e: Ent<S, X>| #![trigger o1(p, l.next, j), lputs(q, p, kid(l.key), e)]
            o1(p, l.next, j) && lputs(q, p, kid(l.key), e) && j(Some((l.key, l.value)), Some((r.key, r.value)), e) ==> lj(q, LNodeNext::L(l), LNodeNext::S(r), j)),
        kid(l.key) != kid(r.key) ==> (forall|p: Option<LNodeNext<S, X>>| #[trigger] lj(p, l.next, LNodeNext::S(r), j) ==> pfit(p, kid(l.key)))
            && (forall|p: Option<LNodeNext<S, X>>, q: Option<LNodeNext<S, X>>, e: Ent<S, X>| #![trigger lj(p, l.next, LNodeNext::S(r), j), lputs(q, p, kid(l.key), e)]
            lj(p, l.next, LNodeNext::S(r), j) && lputs(q, p, kid(l.key), e) && j(Some((l.key, l.value)), None, e) ==> lj(q, LNodeNext::L(l), LNodeNext::S(r), j)),
{
    lall(l); lsz(l); let k = lid(l); let n = ln(l); nid_all(n); let a = LNodeNext::L(l); let b = LNodeNext::S(r);
    assert(nfind(n, k) is None); ln_hid(l);
    lp_put::<K, V, L, W, S, X>(l, Seq::<(&L, &W)>::empty(), j);
    assert forall|x: int| nfind(b, x) == if x == sid(r) { Some(se(r)) } else { None::<(L, W)> } by {}
    if k == sid(r) {
        assert forall|p: Option<LNodeNext<S, X>>, q: Option<LNodeNext<S, X>>, e: Ent<S, X>| #![trigger o1(p, l.next, j), lputs(q, p, kid(l.key), e)]
            o1(p, l.next, j) && lputs(q, p, kid(l.key), e) && j(Some((l.key, l.value)), Some((r.key, r.value)), e) implies lj(q, LNodeNext::L(l), LNodeNext::S(r), j) by {
            assert forall|x: int| #[trigger] ljat(q, a, b, j, x) by { assert(o1at(p, n, j, x)); assert(onf(q, x) == if x == k { e } else { onf(p, x) }); assert(nfind(a, x) == if k == x { Some(le(l)) } else { nfind(n, x) }); }
        }
    } else {
        assert forall|p: Option<LNodeNext<S, X>>| #[trigger] lj(p, l.next, LNodeNext::S(r), j) implies pfit(p, kid(l.key)) by {
            if let Some(m) = p { assert(ljat(p, n, b, j, k)); assert forall|x: int| (#[trigger] nfind(m, x)) is Some implies hid(x) == hid(k) by { assert(ljat(p, n, b, j, x)); assert(nfind(n, x) is Some || nfind(b, x) is Some); } }
        }
        assert forall|p: Option<LNodeNext<S, X>>, q: Option<LNodeNext<S, X>>, e: Ent<S, X>| #![trigger lj(p, l.next, LNodeNext::S(r), j), lputs(q, p, kid(l.key), e)]
            lj(p, l.next, LNodeNext::S(r), j) && lputs(q, p, kid(l.key), e) && j(Some((l.key, l.value)), None, e) implies lj(q, LNodeNext::L(l), LNodeNext::S(r), j) by {
            assert forall|x: int| #[trigger] ljat(q, a, b, j, x) by { assert(ljat(p, n, b, j, x)); assert(onf(q, x) == if x == k { e } else { onf(p, x) }); assert(nfind(a, x) == if k == x { Some(le(l)) } else { nfind(n, x) }); }
        }
    }
}
/// the entries of a, then the first i of those left over from b
pub open spec fn lqat<K: Key, V: Value, L: Key, W: Value, S: Key, X: Value>(n: Option<LNodeNext<S, X>>, a: LNodeNext<K, V>, b: LNodeNext<L, W>, t: Seq<(&L, &W)>, j: Jr<K, V, L, W, S, X>, x: int) -> bool {
    match nfind(a, x) { Some(e) => j(Some(e), nfind(b, x), onf(n, x)), None => match rfind(t, x) { Some(f) => j(None, Some(f), onf(n, x)), None => onf(n, x) is None } }
}
pub open spec fn lq<K: Key, V: Value, L: Key, W: Value, S: Key, X: Value>(n: Option<LNodeNext<S, X>>, a: LNodeNext<K, V>, b: LNodeNext<L, W>, t: Seq<(&L, &W)>, i: int, j: Jr<K, V, L, W, S, X>) -> bool {
    own(n) && onz(n) <= nsz(a) + i && forall|x: int| #[trigger] lqat(n, a, b, t.take(i), j, x)
}
pub proof fn lq_init<K: Key, V: Value, L: Key, W: Value, S: Key, X: Value>(a: LNodeNext<K, V>, b: LNodeNext<L, W>, j: Jr<K, V, L, W, S, X>)
    requires jnone(j)
    ensures forall|s: Seq<(&L, &W)>, t: Seq<(&L, &W)>| rall(s, b) && #[trigger] rtake(s, t, a) ==> rleft(t, a, b),
        forall|n: Option<LNodeNext<S, X>>, s: Seq<(&L, &W)>, t: Seq<(&L, &W)>| #![trigger lp(n, a, s, j), lq(n, a, b, t, 0, j)] rall(s, b) && lp(n, a, s, j) ==> lq(n, a, b, t, 0, j),
        forall|n: Option<LNodeNext<S, X>>, t: Seq<(&L, &W)>, i: int| #[trigger] lq(n, a, b, t, i, j) && rleft(t, a, b) && i == t.len() ==> lj(n, a, b, j)
{
    assert forall|n: Option<LNodeNext<S, X>>, s: Seq<(&L, &W)>, t: Seq<(&L, &W)>| #![trigger lp(n, a, s, j), lq(n, a, b, t, 0, j)] rall(s, b) && lp(n, a, s, j) implies lq(n, a, b, t, 0, j) by {
        assert forall|x: int| #[trigger] lqat(n, a, b, t.take(0), j, x) by { assert(lpat(n, a, s, j, x)); assert(rfind(s, x) == nfind(b, x)); assert(rfind(t.take(0), x) is None); }
    }
    assert forall|n: Option<LNodeNext<S, X>>, t: Seq<(&L, &W)>, i: int| #[trigger] lq(n, a, b, t, i, j) && rleft(t, a, b) && i == t.len() implies lj(n, a, b, j) by {
        assert(t.take(i) =~= t);
        assert forall|x: int| #[trigger] ljat(n, a, b, j, x) by { assert(lqat(n, a, b, t.take(i), j, x)); assert(rfind(t, x) == if nfind(a, x) is Some { None } else { nfind(b, x) }); }
    }
}
pub proof fn lq_put<K: Key, V: Value, L: Key, W: Value, S: Key, X: Value>(a: LNodeNext<K, V>, b: LNodeNext<L, W>, t: Seq<(&L, &W)>, i: int, j: Jr<K, V, L, W, S, X>)
    requires rleft(t, a, b), 0 <= i < t.len(), nwf(a), nwf(b), hid(nid(a)) == hid(nid(b)), nsz(a) + nsz(b) < usize::MAX, jnone(j)
    ensures forall|p: Option<LNodeNext<S, X>>| #[trigger] lq(p, a, b, t, i, j) ==> pfit(p, kid(*t[i].0)),
        forall|p: Option<LNodeNext<S, X>>, q: Option<LNodeNext<S, X>>, e: Ent<S, X>| #![trigger lq(p, a, b, t, i, j), lputs(q, p, kid(*t[i].0), e)]
            lq(p, a, b, t, i, j) && lputs(q, p, kid(*t[i].0), e) && j(None, Some((*t[i].0, *t[i].1)), e) ==> lq(q, a, b, t, i + 1, j)
{
    nid_all(a); nid_all(b);
    let u = t.take(i); let v = t.take(i + 1); let c = kid(*t[i].0);
    assert(v =~= u.push(t[i]));
    assert forall|k: int, m: int| 0 <= k < m < u.len() implies kid(*(#[trigger] u[k]).0) != kid(*(#[trigger] u[m]).0) by { assert(u[k] == t[k] && u[m] == t[m]); }
    rf_at(t, i);
    assert(rfind(t, c) is Some);
    assert(rfind(u, c) is None) by { if rfind(u, c) is Some { let k = choose|k: int| 0 <= k < u.len() && kid(*(#[trigger] u[k]).0) == c; assert(u[k] == t[k]); } }
    rf_push(u, t[i]);
    assert(nfind(a, c) is None && nfind(b, c) is Some);
    assert forall|x: int| (#[trigger] rfind(u, x)) is Some implies hid(x) == hid(c) by { let k = choose|k: int| 0 <= k < u.len() && kid(*(#[trigger] u[k]).0) == x; assert(u[k] == t[k]); rf_at(t, k); assert(rfind(t, x) is Some); assert(nfind(b, x) is Some); }
    assert forall|p: Option<LNodeNext<S, X>>| #[trigger] lq(p, a, b, t, i, j) implies pfit(p, kid(*t[i].0)) by {
        if let Some(m) = p {
            assert(lqat(p, a, b, u, j, c));
            assert forall|x: int| (#[trigger] nfind(m, x)) is Some implies hid(x) == hid(c) by { assert(lqat(p, a, b, u, j, x)); if nfind(a, x) is None { assert(rfind(u, x) is Some); } }
        }
    }
    assert forall|p: Option<LNodeNext<S, X>>, q: Option<LNodeNext<S, X>>, e: Ent<S, X>| #![trigger lq(p, a, b, t, i, j), lputs(q, p, kid(*t[i].0), e)]
            lq(p, a, b, t, i, j) && lputs(q, p, kid(*t[i].0), e) && j(None, Some((*t[i].0, *t[i].1)), e) implies lq(q, a, b, t, i + 1, j) by {
        assert forall|x: int| #[trigger] lqat(q, a, b, v, j, x) by { assert(lqat(p, a, b, u, j, x)); assert(onf(q, x) == if x == c { e } else { onf(p, x) }); assert(rfind(v, x) == if x == c { Some((*t[i].0, *t[i].1)) } else { rfind(u, x) }); }
    }
}
/// both leaves on their own, then side by side
pub proof fn o_split<H: Hashword, F: Flagword<H>, K: Key, V: Value, L: Key, W: Value, S: Key, X: Value, M>(a: LNodeNext<K, V>, b: LNodeNext<L, W>, d: nat, j: Jr<K, V, L, W, S, X>)
    requires apart(a, b, d), jnone(j)
    ensures forall|p: Option<LNodeNext<S, X>>| #[trigger] o1(p, a, j) ==> hashed(p, nsz(a), hid(nid(a))),
        forall|q: Option<LNodeNext<S, X>>| #[trigger] o2(q, b, j) ==> hashed(q, nsz(b), hid(nid(b))),
        forall|p: Option<LNodeNext<S, X>>, q: Option<LNodeNext<S, X>>, n: Option<MNode<H, F, S, X, M>>| #![trigger o1(p, a, j), o2(q, b, j), jd(n, Some(from_next::<H, F, K, V, M>(a)), Some(from_next::<H, F, L, W, M>(b)), d, j)]
            o1(p, a, j) && o2(q, b, j) && jmerge(n, p, q, d) ==> jd(n, Some(from_next::<H, F, K, V, M>(a)), Some(from_next::<H, F, L, W, M>(b)), d, j)
{
    nid_all(a); nid_all(b);
    assert forall|p: Option<LNodeNext<S, X>>| #[trigger] o1(p, a, j) implies hashed(p, nsz(a), hid(nid(a))) by {
        if let Some(m) = p { assert forall|x: int| (#[trigger] nfind(m, x)) is Some implies hid(x) == hid(nid(a)) by { assert(o1at(p, a, j, x)); assert(nfind(a, x) is Some); } }
    }
    assert forall|q: Option<LNodeNext<S, X>>| #[trigger] o2(q, b, j) implies hashed(q, nsz(b), hid(nid(b))) by {
        if let Some(m) = q { assert forall|x: int| (#[trigger] nfind(m, x)) is Some implies hid(x) == hid(nid(b)) by { assert(o2at(q, b, j, x)); assert(nfind(b, x) is Some); } }
    }
    assert forall|p: Option<LNodeNext<S, X>>, q: Option<LNodeNext<S, X>>, n: Option<MNode<H, F, S, X, M>>| #![trigger o1(p, a, j), o2(q, b, j), jd(n, Some(from_next::<H, F, K, V, M>(a)), Some(from_next::<H, F, L, W, M>(b)), d, j)]
            o1(p, a, j) && o2(q, b, j) && jmerge(n, p, q, d) implies jd(n, Some(from_next::<H, F, K, V, M>(a)), Some(from_next::<H, F, L, W, M>(b)), d, j) by {
        assert forall|x: int| nfind(a, x) is Some implies #[trigger] j(nfind(a, x), None, onf(p, x)) by { assert(o1at(p, a, j, x)); }
        assert forall|x: int| nfind(b, x) is Some implies #[trigger] j(None, nfind(b, x), onf(q, x)) by { assert(o2at(q, b, j, x)); }
        assert forall|x: int| nfind(a, x) is None implies (#[trigger] onf(p, x)) is None by { assert(o1at(p, a, j, x)); }
        assert forall|x: int| nfind(b, x) is None implies (#[trigger] onf(q, x)) is None by { assert(o2at(q, b, j, x)); }
        jm_core::<H, F, K, V, L, W, S, X, M>(a, b, d, j, p, q, n);
    }
}
/// what stands for the result: a node of the kept side when unchanged
pub open spec fn tz<H: Hashword, F: Flagword<H>, K: Key, V: Value, M, R>(res: MNodeTransformResult<H, F, K, V, M, R>, a: MNode<H, F, K, V, M>) -> Option<MNode<H, F, K, V, M>> {
    match res { MNodeTransformResult::Unchanged(_) => if sz(a) > 0 { Some(a) } else { None }, MNodeTransformResult::C(c, _) => Some(MNode::C(c)), MNodeTransformResult::L(l, _) => Some(MNode::L(l)), MNodeTransformResult::S(s, _) => Some(MNode::S(s)), MNodeTransformResult::Removed(_) => None }
}
/// leaf results as node results, kept side a
pub proof fn lj_t<H: Hashword, F: Flagword<H>, K: Key, V: Value, L: Key, W: Value, S: Key, X: Value, M, R>(a: LNodeNext<K, V>, b: LNodeNext<L, W>, c: LNodeNext<S, X>, d: nat, j: Jr<K, V, L, W, S, X>)
    requires nwf(c)
    ensures forall|r: LNodeTransformResult<S, X, R>| #[trigger] lj(lnode_of(r, c), a, b, j) ==> jd(tz(from_lt::<H, F, S, X, M, R>(r), from_next::<H, F, S, X, M>(c)), Some(from_next::<H, F, K, V, M>(a)), Some(from_next::<H, F, L, W, M>(b)), d, j)
{
    nid_all(c);
    assert forall|r: LNodeTransformResult<S, X, R>| #[trigger] lj(lnode_of(r, c), a, b, j) implies jd(tz(from_lt::<H, F, S, X, M, R>(r), from_next::<H, F, S, X, M>(c)), Some(from_next::<H, F, K, V, M>(a)), Some(from_next::<H, F, L, W, M>(b)), d, j) by {
        lj_m::<H, F, K, V, L, W, S, X, M>(lnode_of(r, c), a, b, d, j); assert(tz(from_lt::<H, F, S, X, M, R>(r), from_next::<H, F, S, X, M>(c)) == omn::<H, F, S, X, M>(lnode_of(r, c)));
    }
}
pub open spec fn samek<H: Hashword, F: Flagword<H>, K: Key, V: Value, M>(b: F, s: Seq<MNode<H, F, K, V, M>>, n: MNode<H, F, K, V, M>, d: nat, lo: nat, hi: nat) -> bool {
    forall|i: nat| lo <= i < hi ==> #[trigger] slot(b, s, i) == kd(n, d, i)
}
/// what was built: the node of the slots, or the kept node when they all stayed the same
pub proof fn k_fin<H: Hashword, F: Flagword<H>, K: Key, V: Value, L: Key, W: Value, S: Key, X: Value, M, R>(a: MNode<H, F, K, V, M>, b: MNode<H, F, L, W, M>, c: MNode<H, F, S, X, M>, d: nat, j: Jr<K, V, L, W, S, X>)
    requires jpre(a, b, d), jnone(j), d < lv(), wf(c, d), sz(c) <= sz(a) + sz(b)
    ensures forall|size: usize, bits: F, s: Seq<MNode<H, F, S, X, M>>, res: MNodeTransformResult<H, F, S, X, M, R>| #![trigger jpart(size, bits, s, a, b, d, j, 0, wd()), jd(tz(res, c), Some(a), Some(b), d, j)]
        jpart(size, bits, s, a, b, d, j, 0, wd()) && (match res { MNodeTransformResult::Unchanged(_) => samek(bits, s, c, d, 0, wd()), _ => built(bits, s, tz(res, c)) }) ==> jd(tz(res, c), Some(a), Some(b), d, j),
      forall|size: usize, bits: F, s: Seq<MNode<H, F, S, X, M>>| #[trigger] jpart(size, bits, s, a, b, d, j, 0, wd()) ==> rank(bits, wd()) == s.len() && size == ssum(s)
{
    assert forall|size: usize, bits: F, s: Seq<MNode<H, F, S, X, M>>, res: MNodeTransformResult<H, F, S, X, M, R>| #![trigger jpart(size, bits, s, a, b, d, j, 0, wd()), jd(tz(res, c), Some(a), Some(b), d, j)]
        jpart(size, bits, s, a, b, d, j, 0, wd()) && (match res { MNodeTransformResult::Unchanged(_) => samek(bits, s, c, d, 0, wd()), _ => built(bits, s, tz(res, c)) }) implies jd(tz(res, c), Some(a), Some(b), d, j) by {
        if res is Unchanged { k_same::<H, F, K, V, L, W, S, X, M>(size, bits, s, a, b, c, d, j); } else { j_built::<H, F, K, V, L, W, S, X, M>(size, bits, s, a, b, d, j, tz(res, c)); }
    }
}
pub proof fn k_same<H: Hashword, F: Flagword<H>, K: Key, V: Value, L: Key, W: Value, S: Key, X: Value, M>(size: usize, bits: F, s: Seq<MNode<H, F, S, X, M>>, a: MNode<H, F, K, V, M>, b: MNode<H, F, L, W, M>, c: MNode<H, F, S, X, M>, d: nat, j: Jr<K, V, L, W, S, X>)
    requires jpre(a, b, d), jnone(j), d < lv(), wf(c, d), sz(c) <= sz(a) + sz(b), jpart(size, bits, s, a, b, d, j, 0, wd()), samek(bits, s, c, d, 0, wd())
    ensures jd(if sz(c) > 0 { Some(c) } else { None }, Some(a), Some(b), d, j)
{
    let n = if sz(c) > 0 { Some(c) } else { None::<MNode<H, F, S, X, M>> };
    let p = js::<H, F, K, V, L, W, S, X, M>(a, b, d, j);
    assert forall|x: int| #[trigger] jat(n, Some(a), Some(b), d, j, x) by {
        let i = dg(x, d); ax_hdg(hid(x), d); assert(i < wd());
        assert(p(i, slot(bits, s, i))); at_kd(c, d, i); ksum_all(c, d, i);
        assert(slot(bits, s, i) == kd(c, d, i));
        assert(look(c, d, x) == olook(kd(c, d, i), d + 1, x));
        if sz(c) == 0 { assert(kd(c, d, i) is None); assert(olook(n, d, x) is None); }
        assert(olook(n, d, x) == olook(slot(bits, s, i), d + 1, x));
    }
}
pub open spec fn knext<H: Hashword, F: Flagword<H>, K: Key, V: Value, M>(b: F, s: Seq<MNode<H, F, K, V, M>>, c: MNode<H, F, K, V, M>, d: nat, lo: nat, i: nat, n: Option<MNode<H, F, K, V, M>>) -> bool {
    match n { None => kd(c, d, i) is None ==> samek(b, s, c, d, lo, i + 1),
        Some(m) => kd(c, d, i) == Some(m) ==> forall|r: F, k: nat| #[trigger] ins(b, k, r) && k == i ==> samek(r, s.push(m), c, d, lo, i + 1) }
}
/// one more slot
pub proof fn k_step<H: Hashword, F: Flagword<H>, K: Key, V: Value, L: Key, W: Value, S: Key, X: Value, M>(size: usize, bits: F, s: Seq<MNode<H, F, S, X, M>>, un: bool, a: MNode<H, F, K, V, M>, b: MNode<H, F, L, W, M>, c: MNode<H, F, S, X, M>, d: nat, j: Jr<K, V, L, W, S, X>, low: nat, i: nat)
    requires jpre(a, b, d), i < wd(), low <= i, jpart(size, bits, s, a, b, d, j, low, i), un ==> samek(bits, s, c, d, low, i), jnone(j), wf(c, d)
    ensures jkid(a, b, d, i), slot(bits, s, i) is None, !hb(bits, i),
        kd(a, d, i) is None && kd(b, d, i) is None ==> jpart(size, bits, s, a, b, d, j, low, i + 1),
        forall|n: Option<MNode<H, F, S, X, M>>, e: nat| #[trigger] jd(n, kd(a, d, i), kd(b, d, i), e, j) && e == d + 1 ==> jnext(size, bits, s, a, b, d, j, low, i, n),
        un ==> forall|n: Option<MNode<H, F, S, X, M>>, e: nat| #[trigger] jd(n, kd(a, d, i), kd(b, d, i), e, j) && e == d + 1 ==> knext(bits, s, c, d, low, i, n),
        un && kd(c, d, i) is None ==> samek(bits, s, c, d, low, i + 1),
        kd(c, d, i) is Some ==> sz(kd(c, d, i)->0) > 0
{
    j_kid(a, b, d, i); j_slot::<H, F, K, V, L, W, S, X, M>(a, b, d, j, i); at_kd(c, d, i);
    acc_step(bits, s, low, i, js::<H, F, K, V, L, W, S, X, M>(a, b, d, j)); ksum_all(a, d, i); ksum_all(b, d, i);
    assert forall|n: Option<MNode<H, F, S, X, M>>, e: nat| #[trigger] jd(n, kd(a, d, i), kd(b, d, i), e, j) && e == d + 1 implies jnext(size, bits, s, a, b, d, j, low, i, n) by { assert(jslot(a, b, d, j, i, n)); }
    if un {
        assert forall|n: Option<MNode<H, F, S, X, M>>, e: nat| #[trigger] jd(n, kd(a, d, i), kd(b, d, i), e, j) && e == d + 1 implies knext(bits, s, c, d, low, i, n) by {
            if let Some(m) = n { if kd(c, d, i) == Some(m) {
                assert forall|r: F, k: nat| #[trigger] ins(bits, k, r) && k == i implies samek(r, s.push(m), c, d, low, i + 1) by {
                    k_ins(bits, s, low, i, r, m, js::<H, F, K, V, L, W, S, X, M>(a, b, d, j));
                    assert forall|y: nat| low <= y < i + 1 implies #[trigger] slot(r, s.push(m), y) == kd(c, d, y) by { if y < i { assert(slot(bits, s, y) == kd(c, d, y)); } }
                }
            } }
        }
    }
}
pub proof fn k_ins<F, N>(b: F, s: Seq<N>, lo: nat, i: nat, r: F, v: N, p: spec_fn(nat, Option<N>) -> bool)
    requires acc(b, s, lo, i, p), i < wd(), ins(b, i, r)
    ensures forall|y: nat| #[trigger] slot(r, s.push(v), y) == if y == i { Some(v) } else { slot(b, s, y) }
{
    assert(!hb(b, i)); rank_top(b, i, wd()); slot_ins(b, i, r, s, v);
    assert(s.insert(rank(b, i) as int, v) =~= s.push(v));
}
