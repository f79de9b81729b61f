// ---- reductions of two-map operations (C12) ----
/// what the entries of one key class must contribute: both operation, left only, right only
pub open spec fn w2<K, V, L, W>(wb: spec_fn(K, V, L, W, int) -> int, wl: spec_fn(Ent<K, V>, int) -> int, wr: spec_fn(Ent<L, W>, int) -> int) -> spec_fn(Ent<K, V>, Ent<L, W>, int) -> int {
    |e: Ent<K, V>, f: Ent<L, W>, x: int| match e { Some(a) => match f { Some(b) => wb(a.0, a.1, b.0, b.1, x), None => wl(e, x) }, None => wr(f, x) }
}
pub open spec fn jw<H: Hashword, F: Flagword<H>, K: Key, V: Value, L: Key, W: Value, M, R>(r: R, ok: bool, w: spec_fn(Ent<K, V>, Ent<L, W>, int) -> int, a: Option<MNode<H, F, K, V, M>>, b: Option<MNode<H, F, L, W, M>>, d: nat) -> bool {
    ok ==> forall|x: int| #[trigger] rc(r, x) == w(olook(a, d, x), olook(b, d, x), x)
}
/// the slots lo..hi
pub open spec fn jp<H: Hashword, F: Flagword<H>, K: Key, V: Value, L: Key, W: Value, M, R>(r: R, ok: bool, w: spec_fn(Ent<K, V>, Ent<L, W>, int) -> int, a: MNode<H, F, K, V, M>, b: MNode<H, F, L, W, M>, d: nat, lo: nat, hi: nat) -> bool {
    ok ==> forall|x: int| #[trigger] rc(r, x) == (if lo <= dg(x, d) < hi { w(look(a, d, x), look(b, d, x), x) } else { 0 })
}
pub open spec fn jl<K: Key, V: Value, L: Key, W: Value, R>(r: R, ok: bool, w: spec_fn(Ent<K, V>, Ent<L, W>, int) -> int, a: LNodeNext<K, V>, b: LNodeNext<L, W>) -> bool {
    ok ==> forall|x: int| #[trigger] rc(r, x) == w(nfind(a, x), nfind(b, x), x)
}
pub open spec fn sx<K, V>(k: K, v: V, x: int) -> Ent<K, V> { if x == kid(k) { Some((k, v)) } else { None } }
/// two single entries
pub open spec fn jv<K, V, L, W, R>(r: R, ok: bool, w: spec_fn(Ent<K, V>, Ent<L, W>, int) -> int, k: K, v: V, l: L, u: W) -> bool {
    ok ==> forall|x: int| #[trigger] rc(r, x) == w(sx(k, v, x), sx(l, u, x), x)
}
/// the left entries, with what s holds for the same classes
pub open spec fn ji<K: Key, V: Value, L: Key, W: Value, R>(r: R, ok: bool, w: spec_fn(Ent<K, V>, Ent<L, W>, int) -> int, a: LNodeNext<K, V>, s: Seq<(&L, &W)>) -> bool {
    ok ==> forall|x: int| #[trigger] rc(r, x) == (if nfind(a, x) is Some { w(nfind(a, x), rfind(s, x), x) } else { 0 })
}
/// one left entry, with f on the right
pub open spec fn ii<K, V, L, W, R>(r: R, ok: bool, w: spec_fn(Ent<K, V>, Ent<L, W>, int) -> int, k: K, v: V, f: Ent<L, W>) -> bool {
    ok ==> forall|x: int| #[trigger] rc(r, x) == (if x == kid(k) { w(Some((k, v)), f, x) } else { 0 })
}
/// the left entries, and the right-only entries in t
pub open spec fn jk<K: Key, V: Value, L: Key, W: Value, R>(r: R, ok: bool, w: spec_fn(Ent<K, V>, Ent<L, W>, int) -> int, a: LNodeNext<K, V>, b: LNodeNext<L, W>, t: Seq<(&L, &W)>) -> bool {
    ok ==> forall|x: int| #[trigger] rc(r, x) == (if nfind(a, x) is Some { w(nfind(a, x), nfind(b, x), x) } else { w(None, rfind(t, x), x) })
}
pub proof fn jl_m<H: Hashword, F: Flagword<H>, K: Key, V: Value, L: Key, W: Value, M, R>(a: LNodeNext<K, V>, b: LNodeNext<L, W>, d: nat, ok: bool, w: spec_fn(Ent<K, V>, Ent<L, W>, int) -> int)
    ensures forall|r: R| #[trigger] jl(r, ok, w, a, b) ==> jw(r, ok, w, Some(from_next::<H, F, K, V, M>(a)), Some(from_next::<H, F, L, W, M>(b)), d)
{
    assert forall|r: R| #[trigger] jl(r, ok, w, a, b) implies jw(r, ok, w, Some(from_next::<H, F, K, V, M>(a)), Some(from_next::<H, F, L, W, M>(b)), d) by {
        assert forall|x: int| ok implies #[trigger] rc(r, x) == w(olook(Some(from_next::<H, F, K, V, M>(a)), d, x), olook(Some(from_next::<H, F, L, W, M>(b)), d, x), x) by {
            look_n::<H, F, K, V, M>(a, d, x); look_n::<H, F, L, W, M>(b, d, x);
        }
    }
}
/// leaves of different hashes, each reduced by itself
pub proof fn jl_apart<K: Key, V: Value, L: Key, W: Value, R, RO>(a: LNodeNext<K, V>, b: LNodeNext<L, W>, ro: RO, ok: bool, okl: bool, okr: bool, wb: spec_fn(K, V, L, W, int) -> int, wl: spec_fn(Ent<K, V>, int) -> int, wr: spec_fn(Ent<L, W>, int) -> int)
    requires nwf(a), nwf(b), hid(nid(a)) != hid(nid(b)), ok ==> rs::<R, RO>(ro) && okl && okr, wz(wl), wz(wr)
    ensures forall|r: R, s: R| #[trigger] rl(r, okl, wl, a) && #[trigger] rl(s, okr, wr, b) ==> jl(fap2::<RO, R, R, R>(ro, r, s), ok, w2(wb, wl, wr), a, b) && jl(fap2::<RO, R, R, R>(ro, s, r), ok, w2(wb, wl, wr), a, b)
{
    nid_all(a); nid_all(b);
    assert forall|r: R, s: R| #[trigger] rl(r, okl, wl, a) && #[trigger] rl(s, okr, wr, b) implies jl(fap2::<RO, R, R, R>(ro, r, s), ok, w2(wb, wl, wr), a, b) && jl(fap2::<RO, R, R, R>(ro, s, r), ok, w2(wb, wl, wr), a, b) by {
        assert forall|x: int| ok implies #[trigger] rc(r, x) + rc(s, x) == w2(wb, wl, wr)(nfind(a, x), nfind(b, x), x) by {
            assert(nfind(a, x) is None || nfind(b, x) is None);
        }
    }
}
pub proof fn jv_l<K: Key, V: Value, L: Key, W: Value, R>(a: Arc<SNode<K, V>>, b: Arc<SNode<L, W>>, ok: bool, w: spec_fn(Ent<K, V>, Ent<L, W>, int) -> int)
    ensures forall|r: R| #[trigger] jv(r, ok, w, ske(a), sve(a), ske(b), sve(b)) ==> jl(r, ok, w, LNodeNext::S(a), LNodeNext::S(b)),
        forall|r: R| #[trigger] jl(r, ok, w, LNodeNext::S(a), LNodeNext::S(b)) ==> jv(r, ok, w, ske(a), sve(a), ske(b), sve(b))
{
    assert forall|x: int| #[trigger] nfind(LNodeNext::S(a), x) == sx(ske(a), sve(a), x) by {}
    assert forall|x: int| #[trigger] nfind(LNodeNext::S(b), x) == sx(ske(b), sve(b), x) by {}
}
/// the head of a list against a single entry
pub proof fn jl_step<K: Key, V: Value, L: Key, W: Value, R>(l: Arc<LNode<K, V>>, s: Arc<SNode<L, W>>, ok: bool, okl: bool, wb: spec_fn(K, V, L, W, int) -> int, wl: spec_fn(Ent<K, V>, int) -> int, wr: spec_fn(Ent<L, W>, int) -> int)
    requires lwf(*l), ok ==> okl, wz(wl), wz(wr)
    ensures lid(l) == sid(s) ==> forall|r: R, a: R, b: R| #[trigger] radd(r, a, b, ok) && #[trigger] rl(b, okl, wl, l.next) && ii(a, ok, w2(wb, wl, wr), le(l).0, le(l).1, Some((ske(s), sve(s)))) ==> jl(r, ok, w2(wb, wl, wr), LNodeNext::L(l), LNodeNext::S(s)),
        lid(l) != sid(s) ==> forall|r: R, a: R, b: R| #[trigger] radd(r, a, b, ok) && #[trigger] jl(b, ok, w2(wb, wl, wr), l.next, LNodeNext::S(s)) && ii(a, ok, w2(wb, wl, wr), le(l).0, le(l).1, None) ==> jl(r, ok, w2(wb, wl, wr), LNodeNext::L(l), LNodeNext::S(s))
{
    lall(l); let k = lid(l);
    assert(nfind(l.next, k) is None);
    assert forall|x: int| #[trigger] nfind(LNodeNext::S(s), x) == sx(ske(s), sve(s), x) by {}
}
/// the head of a list, with what s holds
pub proof fn ji_step<K: Key, V: Value, L: Key, W: Value, R>(l: Arc<LNode<K, V>>, s: Seq<(&L, &W)>, ok: bool, w: spec_fn(Ent<K, V>, Ent<L, W>, int) -> int)
    requires lwf(*l)
    ensures forall|r: R, a: R, b: R| #[trigger] radd(r, a, b, ok) && #[trigger] ji(b, ok, w, l.next, s) && ii(a, ok, w, le(l).0, le(l).1, rfind(s, lid(l))) ==> ji(r, ok, w, LNodeNext::L(l), s)
{ lall(l); let k = lid(l); assert(nfind(l.next, k) is None); }
pub proof fn ji_s<K: Key, V: Value, L: Key, W: Value, R>(n: LNodeNext<K, V>, s: Seq<(&L, &W)>, ok: bool, okl: bool, wb: spec_fn(K, V, L, W, int) -> int, wl: spec_fn(Ent<K, V>, int) -> int, wr: spec_fn(Ent<L, W>, int) -> int)
    requires ok ==> okl, wz(wl), wz(wr)
    ensures match n { LNodeNext::S(sn) =>
        (forall|r: R, l: L, u: W| #[trigger] jv(r, ok, w2(wb, wl, wr), ske(sn), sve(sn), l, u) && rfind(s, sid(sn)) == Some((l, u)) ==> ji(r, ok, w2(wb, wl, wr), n, s))
        && (rfind(s, sid(sn)) is None ==> forall|r: R| #[trigger] rl(r, okl, wl, n) ==> ji(r, ok, w2(wb, wl, wr), n, s)), _ => true }
{
    if let LNodeNext::S(sn) = n {
        assert forall|x: int| #[trigger] nfind(n, x) == sx(ske(sn), sve(sn), x) by {}
    }
}
pub proof fn jk_all<K: Key, V: Value, L: Key, W: Value, R>(a: LNodeNext<K, V>, b: LNodeNext<L, W>, ok: bool, wb: spec_fn(K, V, L, W, int) -> int, wl: spec_fn(Ent<K, V>, int) -> int, wr: spec_fn(Ent<L, W>, int) -> int)
    requires wz(wl), wz(wr)
    ensures forall|s: Seq<(&L, &W)>, t: Seq<(&L, &W)>, r: R| #![trigger ji(r, ok, w2(wb, wl, wr), a, s), t.take(0)] rall(s, b) && ji(r, ok, w2(wb, wl, wr), a, s) ==> jk(r, ok, w2(wb, wl, wr), a, b, t.take(0)),
        forall|t: Seq<(&L, &W)>, r: R| #[trigger] jk(r, ok, w2(wb, wl, wr), a, b, t.take(t.len() as int)) && rleft(t, a, b) ==> jl(r, ok, w2(wb, wl, wr), a, b)
{
    assert forall|s: Seq<(&L, &W)>, t: Seq<(&L, &W)>, r: R| #![trigger ji(r, ok, w2(wb, wl, wr), a, s), t.take(0)] rall(s, b) && ji(r, ok, w2(wb, wl, wr), a, s) implies jk(r, ok, w2(wb, wl, wr), a, b, t.take(0)) by {
        assert forall|x: int| rfind(#[trigger] t.take(0), x) is None by {}
        assert forall|x: int| #[trigger] rfind(s, x) == nfind(b, x) by {}
    }
    assert forall|t: Seq<(&L, &W)>, r: R| #[trigger] jk(r, ok, w2(wb, wl, wr), a, b, t.take(t.len() as int)) && rleft(t, a, b) implies jl(r, ok, w2(wb, wl, wr), a, b) by {
        assert(t.take(t.len() as int) =~= t);
    }
}
pub proof fn jk_step<K: Key, V: Value, L: Key, W: Value, R, RO>(a: LNodeNext<K, V>, b: LNodeNext<L, W>, t: Seq<(&L, &W)>, i: int, ro: RO, ok: bool, wb: spec_fn(K, V, L, W, int) -> int, wl: spec_fn(Ent<K, V>, int) -> int, wr: spec_fn(Ent<L, W>, int) -> int)
    requires rleft(t, a, b), 0 <= i < t.len(), ok ==> rs::<R, RO>(ro), wz(wl), wz(wr)
    ensures forall|r: R, q: R| #[trigger] jk(r, ok, w2(wb, wl, wr), a, b, t.take(i)) && (ok ==> forall|x: int| #[trigger] rc(q, x) == (if x == kid(*t[i].0) { wr(Some((*t[i].0, *t[i].1)), x) } else { 0 }))
        ==> jk(#[trigger] fap2::<RO, R, R, R>(ro, r, q), ok, w2(wb, wl, wr), a, b, t.take(i + 1)),
        forall|r: R, q: R| #[trigger] jk(r, ok, w2(wb, wl, wr), a, b, t.take(i)) && (ok ==> forall|x: int| #[trigger] rc(q, x) == (if x == kid(*t[i].0) { wr(Some((*t[i].0, *t[i].1)), x) } else { 0 }))
        ==> jk(#[trigger] fap2::<RO, R, R, R>(ro, q, r), ok, w2(wb, wl, wr), a, b, t.take(i + 1))
{
    rf_at(t, i); let k = kid(*t[i].0);
    let p = t.take(i); let q = t.take(i + 1);
    assert(q =~= p.push(t[i])); assert(runq(p));
    assert(rfind(p, k) is None) by { if rfind(p, k) is Some { let j = choose|j: int| 0 <= j < p.len() && kid(*(#[trigger] p[j]).0) == k; assert(p[j] == t[j]); } }
    rf_push(p, t[i]);
    assert(nfind(a, k) is None) by { assert(rfind(t, k) is Some); }
}
/// what the calls contribute
pub open spec fn w4u<K, V, L, W, S, X, R, F>(op: MapTransmute<R, F>) -> spec_fn(K, V, L, W, int) -> int { |k: K, v: V, l: L, w: W, x: int| rc(mured(mu4::<K, V, L, W, S, X, R, F>(op, k, v, l, w)), x) }
pub open spec fn mu4loc<K, V, L, W, S, X, R, F>(op: MapTransmute<R, F>) -> bool {
    op is Generic && forall|k: K, v: V, l: L, w: W, x: int| kid(k) == kid(l) && x != kid(k) ==> #[trigger] rc(mured(mu4::<K, V, L, W, S, X, R, F>(op, k, v, l, w)), x) == 0
}
pub open spec fn w4t<K, V, L, W, Z, R, F>(op: MapTransform<R, F>) -> spec_fn(K, V, L, W, int) -> int { |k: K, v: V, l: L, w: W, x: int| rc(mtred(mt4::<K, V, L, W, Z, R, F>(op, k, v, l, w)), x) }
pub open spec fn mt4loc<K, V, L, W, Z, R, F>(op: MapTransform<R, F>) -> bool {
    op is Generic && forall|k: K, v: V, l: L, w: W, x: int| kid(k) == kid(l) && x != kid(k) ==> #[trigger] rc(mtred(mt4::<K, V, L, W, Z, R, F>(op, k, v, l, w)), x) == 0
}
pub open spec fn mjred<V, R>(r: MapJointTransformResult<V, R>) -> R {
    match r { MapJointTransformResult::UnchangedLR(r) => r, MapJointTransformResult::UnchangedL(r) => r, MapJointTransformResult::UnchangedR(r) => r, MapJointTransformResult::Transformed(_, r) => r, MapJointTransformResult::Removed(r) => r }
}
pub open spec fn w4j<K, V, R, F>(op: MapJointTransform<R, F>) -> spec_fn(K, V, K, V, int) -> int { |k: K, v: V, l: K, w: V, x: int| rc(mjred(mj::<K, V, R, F>(op, k, v, l, w)), x) }
pub open spec fn mjloc<K, V, R, F>(op: MapJointTransform<R, F>) -> bool {
    op is Generic && forall|k: K, v: V, l: K, w: V, x: int| kid(k) == kid(l) && x != kid(k) ==> #[trigger] rc(mjred(mj::<K, V, R, F>(op, k, v, l, w)), x) == 0
}
pub proof fn rfind_kid<L, W>(s: Seq<(&L, &W)>, x: int)
    ensures rfind(s, x) is Some ==> kid((rfind(s, x)->0).0) == x {}
// ---- the slots of an inner node ----
pub proof fn jp_step<H: Hashword, F: Flagword<H>, K: Key, V: Value, L: Key, W: Value, M, R, RO>(a: MNode<H, F, K, V, M>, b: MNode<H, F, L, W, M>, d: nat, i: nat, rop: RO, ok: bool, okl: bool, okr: bool, wb: spec_fn(K, V, L, W, int) -> int, wl: spec_fn(Ent<K, V>, int) -> int, wr: spec_fn(Ent<L, W>, int) -> int)
    requires jpre(a, b, d), i < wd(), ok ==> rs::<R, RO>(rop) && okl && okr, wz(wl), wz(wr)
    ensures kd(a, d, i) is None && kd(b, d, i) is None ==> forall|r: R, lo: nat| lo <= i && #[trigger] jp(r, ok, w2(wb, wl, wr), a, b, d, lo, i) ==> jp(r, ok, w2(wb, wl, wr), a, b, d, lo, i + 1),
        forall|r: R, s: R, lo: nat, e: nat| lo <= i && #[trigger] jp(r, ok, w2(wb, wl, wr), a, b, d, lo, i) && #[trigger] jw(s, ok, w2(wb, wl, wr), kd(a, d, i), kd(b, d, i), e) && e == d + 1
            ==> jp(fap2::<RO, R, R, R>(rop, r, s), ok, w2(wb, wl, wr), a, b, d, lo, i + 1) && jp(fap2::<RO, R, R, R>(rop, s, r), ok, w2(wb, wl, wr), a, b, d, lo, i + 1),
        kd(b, d, i) is None ==> forall|s: R, m: MNode<H, F, K, V, M>| #[trigger] rn(s, okl, wl, m) && kd(a, d, i) == Some(m) ==> jw(s, ok, w2(wb, wl, wr), kd(a, d, i), kd(b, d, i), d + 1),
        kd(a, d, i) is None ==> forall|s: R, m: MNode<H, F, L, W, M>| #[trigger] rn(s, okr, wr, m) && kd(b, d, i) == Some(m) ==> jw(s, ok, w2(wb, wl, wr), kd(a, d, i), kd(b, d, i), d + 1)
{
    at_kd(a, d, i); at_kd(b, d, i);
    let w = w2(wb, wl, wr);
    assert(w(None, None, 0) == 0);
    if kd(a, d, i) is None && kd(b, d, i) is None {
        assert forall|r: R, lo: nat| lo <= i && #[trigger] jp(r, ok, w, a, b, d, lo, i) implies jp(r, ok, w, a, b, d, lo, i + 1) by {
            assert forall|x: int| ok && dg(x, d) == i implies #[trigger] rc(r, x) == 0 && look(a, d, x) is None && look(b, d, x) is None by { }
        }
    }
    assert forall|r: R, s: R, lo: nat, e: nat| lo <= i && #[trigger] jp(r, ok, w, a, b, d, lo, i) && #[trigger] jw(s, ok, w, kd(a, d, i), kd(b, d, i), e) && e == d + 1
            implies jp(fap2::<RO, R, R, R>(rop, r, s), ok, w, a, b, d, lo, i + 1) && jp(fap2::<RO, R, R, R>(rop, s, r), ok, w, a, b, d, lo, i + 1) by {
        assert forall|x: int| ok implies #[trigger] rc(r, x) + rc(s, x) == (if lo <= dg(x, d) < i + 1 { w(look(a, d, x), look(b, d, x), x) } else { 0 }) by {
            assert(rc(s, x) == w(olook(kd(a, d, i), d + 1, x), olook(kd(b, d, i), d + 1, x), x));
        }
    }
    if kd(b, d, i) is None {
        assert forall|s: R, m: MNode<H, F, K, V, M>| #[trigger] rn(s, okl, wl, m) && kd(a, d, i) == Some(m) implies jw(s, ok, w, kd(a, d, i), kd(b, d, i), d + 1) by {
            assert(wf(m, d + 1));
            assert forall|x: int| ok implies #[trigger] rc(s, x) == w(olook(kd(a, d, i), d + 1, x), olook(kd(b, d, i), d + 1, x), x) by { }
        }
    }
    if kd(a, d, i) is None {
        assert forall|s: R, m: MNode<H, F, L, W, M>| #[trigger] rn(s, okr, wr, m) && kd(b, d, i) == Some(m) implies jw(s, ok, w, kd(a, d, i), kd(b, d, i), d + 1) by {
            assert(wf(m, d + 1));
            assert forall|x: int| ok implies #[trigger] rc(s, x) == w(olook(kd(a, d, i), d + 1, x), olook(kd(b, d, i), d + 1, x), x) by { }
        }
    }
}
pub proof fn jp_fin<H: Hashword, F: Flagword<H>, K: Key, V: Value, L: Key, W: Value, M, R, RO>(a: MNode<H, F, K, V, M>, b: MNode<H, F, L, W, M>, d: nat, rop: RO, ok: bool, w: spec_fn(Ent<K, V>, Ent<L, W>, int) -> int)
    requires ok ==> rs::<R, RO>(rop)
    ensures !ok ==> forall|r: R| #[trigger] jw(r, ok, w, Some(a), Some(b), d), forall|i: nat| #[trigger] jp(dflt::<R>(), ok, w, a, b, d, i, i),
        forall|r: R| #[trigger] jp(r, ok, w, a, b, d, 0, wd()) ==> jw(r, ok, w, Some(a), Some(b), d),
        forall|r: R, s: R, i: nat| i <= wd() && #[trigger] jp(r, ok, w, a, b, d, 0, i) && #[trigger] jp(s, ok, w, a, b, d, i, wd()) ==> jw(fap2::<RO, R, R, R>(rop, r, s), ok, w, Some(a), Some(b), d) && jw(fap2::<RO, R, R, R>(rop, s, r), ok, w, Some(a), Some(b), d)
{
    assert forall|x: int| (#[trigger] dg(x, d)) < wd() by { }
}
/// makes a term known to the solver
pub open spec fn gseen<R>(r: R) -> bool { true }
pub proof fn jv_of<K: Key, V: Value, L: Key, W: Value, R>(n: LNodeNext<K, V>, b: Arc<SNode<L, W>>, ok: bool, w: spec_fn(Ent<K, V>, Ent<L, W>, int) -> int)
    ensures match n { LNodeNext::S(a) => ske(a) == a.key && sve(a) == a.value && ske(b) == b.key && sve(b) == b.value && forall|r: R| #[trigger] jv(r, ok, w, ske(a), sve(a), ske(b), sve(b)) ==> jl(r, ok, w, n, LNodeNext::S(b)), _ => true }
{ if let LNodeNext::S(a) = n { jv_l::<K, V, L, W, R>(a, b, ok, w); } }
