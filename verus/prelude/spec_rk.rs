// written by tools/gen_red.py

pub open spec fn oku<K: Key, V: Value, L: Key, W: Value, S, X, R, RO, FB, FL, FR>(rop: RO, bo: MapTransmute<R, FB>, lo: MapTransmute<R, FL>, ro: MapTransmute<R, FR>) -> bool { rs::<R, RO>(rop) && mu4loc::<K, V, L, W, S, X, R, FB>(bo) && muloc::<K, V, S, X, R, FL>(lo) && muloc::<L, W, S, X, R, FR>(ro) }
pub open spec fn wju<K: Key, V: Value, L: Key, W: Value, S, X, R, RO, FB, FL, FR>(rop: RO, bo: MapTransmute<R, FB>, lo: MapTransmute<R, FL>, ro: MapTransmute<R, FR>) -> spec_fn(Ent<K, V>, Ent<L, W>, int) -> int { w2(w4u::<K, V, L, W, S, X, R, FB>(bo), wu::<K, V, S, X, R, FL>(lo), wu::<L, W, S, X, R, FR>(ro)) }
pub proof fn rf_u<K: Key, V: Value, L: Key, W: Value, S, X, R, RO, FB, FL, FR>(rop: RO, bo: MapTransmute<R, FB>, lo: MapTransmute<R, FL>, ro: MapTransmute<R, FR>)
    ensures oku::<K, V, L, W, S, X, R, RO, FB, FL, FR>(rop, bo, lo, ro) ==> bo is Generic && lo is Generic && ro is Generic && rs::<R, RO>(rop) && muloc::<K, V, S, X, R, FL>(lo) && muloc::<L, W, S, X, R, FR>(ro) && okm::<K, V, S, X, R, RO, FL>(rop, lo) && okm::<L, W, S, X, R, RO, FR>(rop, ro), wz(wu::<K, V, S, X, R, FL>(lo)), wz(wu::<L, W, S, X, R, FR>(ro)), wju::<K, V, L, W, S, X, R, RO, FB, FL, FR>(rop, bo, lo, ro) == w2(w4u::<K, V, L, W, S, X, R, FB>(bo), wu::<K, V, S, X, R, FL>(lo), wu::<L, W, S, X, R, FR>(ro)) {}
pub proof fn rz_u<K: Key, V: Value, L: Key, W: Value, S, X, R, RO, FB, FL, FR>(k: K, v: V, l: L, u: W, rop: RO, bo: MapTransmute<R, FB>, lo: MapTransmute<R, FL>, ro: MapTransmute<R, FR>)
    ensures gseen(mured(mu::<K, V, S, X, R, FL>(lo, k, v))), gseen(mured(mu::<L, W, S, X, R, FR>(ro, l, u))), gseen(mured(mu4::<K, V, L, W, S, X, R, FB>(bo, k, v, l, u))), kid(k) == kid(l) ==> jv(mured(mu4::<K, V, L, W, S, X, R, FB>(bo, k, v, l, u)), oku::<K, V, L, W, S, X, R, RO, FB, FL, FR>(rop, bo, lo, ro), wju::<K, V, L, W, S, X, R, RO, FB, FL, FR>(rop, bo, lo, ro), k, v, l, u),
        kid(k) != kid(l) ==> jv(fap2::<RO, R, R, R>(rop, mured(mu::<K, V, S, X, R, FL>(lo, k, v)), mured(mu::<L, W, S, X, R, FR>(ro, l, u))), oku::<K, V, L, W, S, X, R, RO, FB, FL, FR>(rop, bo, lo, ro), wju::<K, V, L, W, S, X, R, RO, FB, FL, FR>(rop, bo, lo, ro), k, v, l, u) && jv(fap2::<RO, R, R, R>(rop, mured(mu::<L, W, S, X, R, FR>(ro, l, u)), mured(mu::<K, V, S, X, R, FL>(lo, k, v))), oku::<K, V, L, W, S, X, R, RO, FB, FL, FR>(rop, bo, lo, ro), wju::<K, V, L, W, S, X, R, RO, FB, FL, FR>(rop, bo, lo, ro), k, v, l, u)
{ rf_u::<K, V, L, W, S, X, R, RO, FB, FL, FR>(rop, bo, lo, ro); let w = wju::<K, V, L, W, S, X, R, RO, FB, FL, FR>(rop, bo, lo, ro);
    if kid(k) == kid(l) { assert forall|x: int| oku::<K, V, L, W, S, X, R, RO, FB, FL, FR>(rop, bo, lo, ro) implies #[trigger] rc(mured(mu4::<K, V, L, W, S, X, R, FB>(bo, k, v, l, u)), x) == w(sx(k, v, x), sx(l, u, x), x) by { } }
    else { assert forall|x: int| oku::<K, V, L, W, S, X, R, RO, FB, FL, FR>(rop, bo, lo, ro) implies #[trigger] rc(mured(mu::<K, V, S, X, R, FL>(lo, k, v)), x) + rc(mured(mu::<L, W, S, X, R, FR>(ro, l, u)), x) == w(sx(k, v, x), sx(l, u, x), x) by { } }
}
pub proof fn ra_u<K: Key, V: Value, L: Key, W: Value, S, X, R, RO, FB, FL, FR>(a: LNodeNext<K, V>, b: LNodeNext<L, W>, rop: RO, bo: MapTransmute<R, FB>, lo: MapTransmute<R, FL>, ro: MapTransmute<R, FR>)
    ensures nwf(a) && nwf(b) && hid(nid(a)) != hid(nid(b)) ==> forall|r: R, s: R, p: bool, q: bool| #[trigger] rl(r, p, wu::<K, V, S, X, R, FL>(lo), a) && #[trigger] rl(s, q, wu::<L, W, S, X, R, FR>(ro), b) && (oku::<K, V, L, W, S, X, R, RO, FB, FL, FR>(rop, bo, lo, ro) ==> p && q)
        ==> jl(fap2::<RO, R, R, R>(rop, r, s), oku::<K, V, L, W, S, X, R, RO, FB, FL, FR>(rop, bo, lo, ro), wju::<K, V, L, W, S, X, R, RO, FB, FL, FR>(rop, bo, lo, ro), a, b) && jl(fap2::<RO, R, R, R>(rop, s, r), oku::<K, V, L, W, S, X, R, RO, FB, FL, FR>(rop, bo, lo, ro), wju::<K, V, L, W, S, X, R, RO, FB, FL, FR>(rop, bo, lo, ro), a, b)
{
    rf_u::<K, V, L, W, S, X, R, RO, FB, FL, FR>(rop, bo, lo, ro);
    if nwf(a) && nwf(b) && hid(nid(a)) != hid(nid(b)) {
    assert forall|r: R, s: R, p: bool, q: bool| #[trigger] rl(r, p, wu::<K, V, S, X, R, FL>(lo), a) && #[trigger] rl(s, q, wu::<L, W, S, X, R, FR>(ro), b) && (oku::<K, V, L, W, S, X, R, RO, FB, FL, FR>(rop, bo, lo, ro) ==> p && q)
        implies jl(fap2::<RO, R, R, R>(rop, r, s), oku::<K, V, L, W, S, X, R, RO, FB, FL, FR>(rop, bo, lo, ro), wju::<K, V, L, W, S, X, R, RO, FB, FL, FR>(rop, bo, lo, ro), a, b) && jl(fap2::<RO, R, R, R>(rop, s, r), oku::<K, V, L, W, S, X, R, RO, FB, FL, FR>(rop, bo, lo, ro), wju::<K, V, L, W, S, X, R, RO, FB, FL, FR>(rop, bo, lo, ro), a, b) by {
        jl_apart::<K, V, L, W, R, RO>(a, b, rop, oku::<K, V, L, W, S, X, R, RO, FB, FL, FR>(rop, bo, lo, ro), p, q, w4u::<K, V, L, W, S, X, R, FB>(bo), wu::<K, V, S, X, R, FL>(lo), wu::<L, W, S, X, R, FR>(ro));
    } }
}
pub proof fn rs_u<K: Key, V: Value, L: Key, W: Value, S, X, R, RO, FB, FL, FR>(l: Arc<LNode<K, V>>, s: Arc<SNode<L, W>>, rop: RO, bo: MapTransmute<R, FB>, lo: MapTransmute<R, FL>, ro: MapTransmute<R, FR>)
    requires lwf(*l)
    ensures ske(s) == s.key, sve(s) == s.value, gseen(mured(mu4::<K, V, L, W, S, X, R, FB>(bo, le(l).0, le(l).1, ske(s), sve(s)))), le(l).0 == l.key, le(l).1 == l.value, gseen(mured(mu::<K, V, S, X, R, FL>(lo, le(l).0, le(l).1))), lid(l) == sid(s) ==> forall|r: R, b: R, p: bool, q: bool| #[trigger] radd(r, mured(mu4::<K, V, L, W, S, X, R, FB>(bo, le(l).0, le(l).1, ske(s), sve(s))), b, p) && #[trigger] rl(b, q, wu::<K, V, S, X, R, FL>(lo), ln(l)) && (oku::<K, V, L, W, S, X, R, RO, FB, FL, FR>(rop, bo, lo, ro) ==> p && q) ==> jl(r, oku::<K, V, L, W, S, X, R, RO, FB, FL, FR>(rop, bo, lo, ro), wju::<K, V, L, W, S, X, R, RO, FB, FL, FR>(rop, bo, lo, ro), LNodeNext::L(l), LNodeNext::S(s)),
        lid(l) != sid(s) ==> forall|r: R, b: R, p: bool| #[trigger] radd(r, mured(mu::<K, V, S, X, R, FL>(lo, le(l).0, le(l).1)), b, p) && #[trigger] jl(b, oku::<K, V, L, W, S, X, R, RO, FB, FL, FR>(rop, bo, lo, ro), wju::<K, V, L, W, S, X, R, RO, FB, FL, FR>(rop, bo, lo, ro), ln(l), LNodeNext::S(s)) && (oku::<K, V, L, W, S, X, R, RO, FB, FL, FR>(rop, bo, lo, ro) ==> p) ==> jl(r, oku::<K, V, L, W, S, X, R, RO, FB, FL, FR>(rop, bo, lo, ro), wju::<K, V, L, W, S, X, R, RO, FB, FL, FR>(rop, bo, lo, ro), LNodeNext::L(l), LNodeNext::S(s))
{
    rf_u::<K, V, L, W, S, X, R, RO, FB, FL, FR>(rop, bo, lo, ro);
    jl_step::<K, V, L, W, R>(l, s, oku::<K, V, L, W, S, X, R, RO, FB, FL, FR>(rop, bo, lo, ro), oku::<K, V, L, W, S, X, R, RO, FB, FL, FR>(rop, bo, lo, ro), w4u::<K, V, L, W, S, X, R, FB>(bo), wu::<K, V, S, X, R, FL>(lo), wu::<L, W, S, X, R, FR>(ro));
    if lid(l) == sid(s) {
        let a = mured(mu4::<K, V, L, W, S, X, R, FB>(bo, le(l).0, le(l).1, ske(s), sve(s)));
        assert(ii(a, oku::<K, V, L, W, S, X, R, RO, FB, FL, FR>(rop, bo, lo, ro), wju::<K, V, L, W, S, X, R, RO, FB, FL, FR>(rop, bo, lo, ro), le(l).0, le(l).1, Some((ske(s), sve(s)))));
        assert forall|r: R, b: R, p: bool, q: bool| #[trigger] radd(r, a, b, p) && #[trigger] rl(b, q, wu::<K, V, S, X, R, FL>(lo), ln(l)) && (oku::<K, V, L, W, S, X, R, RO, FB, FL, FR>(rop, bo, lo, ro) ==> p && q) implies jl(r, oku::<K, V, L, W, S, X, R, RO, FB, FL, FR>(rop, bo, lo, ro), wju::<K, V, L, W, S, X, R, RO, FB, FL, FR>(rop, bo, lo, ro), LNodeNext::L(l), LNodeNext::S(s)) by {
            assert(radd(r, a, b, oku::<K, V, L, W, S, X, R, RO, FB, FL, FR>(rop, bo, lo, ro))); assert(rl(b, oku::<K, V, L, W, S, X, R, RO, FB, FL, FR>(rop, bo, lo, ro), wu::<K, V, S, X, R, FL>(lo), l.next));
        }
    } else {
        let a = mured(mu::<K, V, S, X, R, FL>(lo, le(l).0, le(l).1));
        assert(ii(a, oku::<K, V, L, W, S, X, R, RO, FB, FL, FR>(rop, bo, lo, ro), wju::<K, V, L, W, S, X, R, RO, FB, FL, FR>(rop, bo, lo, ro), le(l).0, le(l).1, None::<(L, W)>));
        assert forall|r: R, b: R, p: bool| #[trigger] radd(r, a, b, p) && #[trigger] jl(b, oku::<K, V, L, W, S, X, R, RO, FB, FL, FR>(rop, bo, lo, ro), wju::<K, V, L, W, S, X, R, RO, FB, FL, FR>(rop, bo, lo, ro), ln(l), LNodeNext::S(s)) && (oku::<K, V, L, W, S, X, R, RO, FB, FL, FR>(rop, bo, lo, ro) ==> p) implies jl(r, oku::<K, V, L, W, S, X, R, RO, FB, FL, FR>(rop, bo, lo, ro), wju::<K, V, L, W, S, X, R, RO, FB, FL, FR>(rop, bo, lo, ro), LNodeNext::L(l), LNodeNext::S(s)) by {
            assert(radd(r, a, b, oku::<K, V, L, W, S, X, R, RO, FB, FL, FR>(rop, bo, lo, ro)));
        }
    }
}
pub proof fn ri_u<K: Key, V: Value, L: Key, W: Value, S, X, R, RO, FB, FL, FR>(l: Arc<LNode<K, V>>, s: Seq<(&L, &W)>, rop: RO, bo: MapTransmute<R, FB>, lo: MapTransmute<R, FL>, ro: MapTransmute<R, FR>)
    requires lwf(*l)
    ensures le(l).0 == l.key, le(l).1 == l.value, gseen(mured(mu::<K, V, S, X, R, FL>(lo, le(l).0, le(l).1))), forall|r: R, b: R, p: bool, u: L, w: W| #[trigger] radd(r, mured(mu4::<K, V, L, W, S, X, R, FB>(bo, le(l).0, le(l).1, u, w)), b, p) && ji(b, oku::<K, V, L, W, S, X, R, RO, FB, FL, FR>(rop, bo, lo, ro), wju::<K, V, L, W, S, X, R, RO, FB, FL, FR>(rop, bo, lo, ro), ln(l), s) && rfind(s, lid(l)) == Some((u, w)) && (oku::<K, V, L, W, S, X, R, RO, FB, FL, FR>(rop, bo, lo, ro) ==> p) ==> ji(r, oku::<K, V, L, W, S, X, R, RO, FB, FL, FR>(rop, bo, lo, ro), wju::<K, V, L, W, S, X, R, RO, FB, FL, FR>(rop, bo, lo, ro), LNodeNext::L(l), s),
        rfind(s, lid(l)) is None ==> forall|r: R, b: R, p: bool| #[trigger] radd(r, mured(mu::<K, V, S, X, R, FL>(lo, le(l).0, le(l).1)), b, p) && ji(b, oku::<K, V, L, W, S, X, R, RO, FB, FL, FR>(rop, bo, lo, ro), wju::<K, V, L, W, S, X, R, RO, FB, FL, FR>(rop, bo, lo, ro), ln(l), s) && (oku::<K, V, L, W, S, X, R, RO, FB, FL, FR>(rop, bo, lo, ro) ==> p) ==> ji(r, oku::<K, V, L, W, S, X, R, RO, FB, FL, FR>(rop, bo, lo, ro), wju::<K, V, L, W, S, X, R, RO, FB, FL, FR>(rop, bo, lo, ro), LNodeNext::L(l), s),
        match ln(l) { LNodeNext::S(n) => ske(n) == n.key && sve(n) == n.value &&
            (forall|r: R, u: L, w: W| #[trigger] jv(r, oku::<K, V, L, W, S, X, R, RO, FB, FL, FR>(rop, bo, lo, ro), wju::<K, V, L, W, S, X, R, RO, FB, FL, FR>(rop, bo, lo, ro), ske(n), sve(n), u, w) && rfind(s, sid(n)) == Some((u, w)) ==> ji(r, oku::<K, V, L, W, S, X, R, RO, FB, FL, FR>(rop, bo, lo, ro), wju::<K, V, L, W, S, X, R, RO, FB, FL, FR>(rop, bo, lo, ro), ln(l), s))
            && (rfind(s, sid(n)) is None ==> forall|r: R, p: bool| #[trigger] rl(r, p, wu::<K, V, S, X, R, FL>(lo), ln(l)) && (oku::<K, V, L, W, S, X, R, RO, FB, FL, FR>(rop, bo, lo, ro) ==> p) ==> ji(r, oku::<K, V, L, W, S, X, R, RO, FB, FL, FR>(rop, bo, lo, ro), wju::<K, V, L, W, S, X, R, RO, FB, FL, FR>(rop, bo, lo, ro), ln(l), s)), _ => true }
{
    rf_u::<K, V, L, W, S, X, R, RO, FB, FL, FR>(rop, bo, lo, ro);
    ji_step::<K, V, L, W, R>(l, s, oku::<K, V, L, W, S, X, R, RO, FB, FL, FR>(rop, bo, lo, ro), wju::<K, V, L, W, S, X, R, RO, FB, FL, FR>(rop, bo, lo, ro)); ji_s::<K, V, L, W, R>(ln(l), s, oku::<K, V, L, W, S, X, R, RO, FB, FL, FR>(rop, bo, lo, ro), oku::<K, V, L, W, S, X, R, RO, FB, FL, FR>(rop, bo, lo, ro), w4u::<K, V, L, W, S, X, R, FB>(bo), wu::<K, V, S, X, R, FL>(lo), wu::<L, W, S, X, R, FR>(ro));
    assert forall|r: R, b: R, p: bool, u: L, w: W| #[trigger] radd(r, mured(mu4::<K, V, L, W, S, X, R, FB>(bo, le(l).0, le(l).1, u, w)), b, p) && ji(b, oku::<K, V, L, W, S, X, R, RO, FB, FL, FR>(rop, bo, lo, ro), wju::<K, V, L, W, S, X, R, RO, FB, FL, FR>(rop, bo, lo, ro), ln(l), s) && rfind(s, lid(l)) == Some((u, w)) && (oku::<K, V, L, W, S, X, R, RO, FB, FL, FR>(rop, bo, lo, ro) ==> p) implies ji(r, oku::<K, V, L, W, S, X, R, RO, FB, FL, FR>(rop, bo, lo, ro), wju::<K, V, L, W, S, X, R, RO, FB, FL, FR>(rop, bo, lo, ro), LNodeNext::L(l), s) by {
        if rfind(s, lid(l)) is Some { assert(kid(u) == kid(le(l).0)) by { rfind_kid(s, lid(l)); } }
        let a = mured(mu4::<K, V, L, W, S, X, R, FB>(bo, le(l).0, le(l).1, u, w));
        assert(ii(a, oku::<K, V, L, W, S, X, R, RO, FB, FL, FR>(rop, bo, lo, ro), wju::<K, V, L, W, S, X, R, RO, FB, FL, FR>(rop, bo, lo, ro), le(l).0, le(l).1, Some((u, w)))); assert(radd(r, a, b, oku::<K, V, L, W, S, X, R, RO, FB, FL, FR>(rop, bo, lo, ro)));
    }
    assert forall|r: R, b: R, p: bool| #[trigger] radd(r, mured(mu::<K, V, S, X, R, FL>(lo, le(l).0, le(l).1)), b, p) && ji(b, oku::<K, V, L, W, S, X, R, RO, FB, FL, FR>(rop, bo, lo, ro), wju::<K, V, L, W, S, X, R, RO, FB, FL, FR>(rop, bo, lo, ro), ln(l), s) && (oku::<K, V, L, W, S, X, R, RO, FB, FL, FR>(rop, bo, lo, ro) ==> p) && rfind(s, lid(l)) is None implies ji(r, oku::<K, V, L, W, S, X, R, RO, FB, FL, FR>(rop, bo, lo, ro), wju::<K, V, L, W, S, X, R, RO, FB, FL, FR>(rop, bo, lo, ro), LNodeNext::L(l), s) by {
        let a = mured(mu::<K, V, S, X, R, FL>(lo, le(l).0, le(l).1));
        assert(ii(a, oku::<K, V, L, W, S, X, R, RO, FB, FL, FR>(rop, bo, lo, ro), wju::<K, V, L, W, S, X, R, RO, FB, FL, FR>(rop, bo, lo, ro), le(l).0, le(l).1, None::<(L, W)>)); assert(radd(r, a, b, oku::<K, V, L, W, S, X, R, RO, FB, FL, FR>(rop, bo, lo, ro)));
    }
    if let LNodeNext::S(n) = ln(l) {
        assert forall|r: R, p: bool| #[trigger] rl(r, p, wu::<K, V, S, X, R, FL>(lo), ln(l)) && (oku::<K, V, L, W, S, X, R, RO, FB, FL, FR>(rop, bo, lo, ro) ==> p) && rfind(s, sid(n)) is None implies ji(r, oku::<K, V, L, W, S, X, R, RO, FB, FL, FR>(rop, bo, lo, ro), wju::<K, V, L, W, S, X, R, RO, FB, FL, FR>(rop, bo, lo, ro), ln(l), s) by { assert(rl(r, oku::<K, V, L, W, S, X, R, RO, FB, FL, FR>(rop, bo, lo, ro), wu::<K, V, S, X, R, FL>(lo), ln(l))); }
    }
}
pub proof fn rk_u<K: Key, V: Value, L: Key, W: Value, S, X, R, RO, FB, FL, FR>(a: LNodeNext<K, V>, b: LNodeNext<L, W>, rop: RO, bo: MapTransmute<R, FB>, lo: MapTransmute<R, FL>, ro: MapTransmute<R, FR>)
    ensures forall|s: Seq<(&L, &W)>, t: Seq<(&L, &W)>, r: R| #![trigger ji(r, oku::<K, V, L, W, S, X, R, RO, FB, FL, FR>(rop, bo, lo, ro), wju::<K, V, L, W, S, X, R, RO, FB, FL, FR>(rop, bo, lo, ro), a, s), t.take(0)] rall(s, b) && ji(r, oku::<K, V, L, W, S, X, R, RO, FB, FL, FR>(rop, bo, lo, ro), wju::<K, V, L, W, S, X, R, RO, FB, FL, FR>(rop, bo, lo, ro), a, s) ==> jk(r, oku::<K, V, L, W, S, X, R, RO, FB, FL, FR>(rop, bo, lo, ro), wju::<K, V, L, W, S, X, R, RO, FB, FL, FR>(rop, bo, lo, ro), a, b, t.take(0)),
        forall|t: Seq<(&L, &W)>, r: R| #[trigger] jk(r, oku::<K, V, L, W, S, X, R, RO, FB, FL, FR>(rop, bo, lo, ro), wju::<K, V, L, W, S, X, R, RO, FB, FL, FR>(rop, bo, lo, ro), a, b, t.take(t.len() as int)) && rleft(t, a, b) ==> jl(r, oku::<K, V, L, W, S, X, R, RO, FB, FL, FR>(rop, bo, lo, ro), wju::<K, V, L, W, S, X, R, RO, FB, FL, FR>(rop, bo, lo, ro), a, b)
{ rf_u::<K, V, L, W, S, X, R, RO, FB, FL, FR>(rop, bo, lo, ro); jk_all::<K, V, L, W, R>(a, b, oku::<K, V, L, W, S, X, R, RO, FB, FL, FR>(rop, bo, lo, ro), w4u::<K, V, L, W, S, X, R, FB>(bo), wu::<K, V, S, X, R, FL>(lo), wu::<L, W, S, X, R, FR>(ro)); }
pub proof fn rt_u<K: Key, V: Value, L: Key, W: Value, S, X, R, RO, FB, FL, FR>(a: LNodeNext<K, V>, b: LNodeNext<L, W>, t: Seq<(&L, &W)>, i: int, rop: RO, bo: MapTransmute<R, FB>, lo: MapTransmute<R, FL>, ro: MapTransmute<R, FR>)
    requires rleft(t, a, b), 0 <= i < t.len()
    ensures gseen(mured(mu::<L, W, S, X, R, FR>(ro, *t[i].0, *t[i].1))), forall|r: R| jk(r, oku::<K, V, L, W, S, X, R, RO, FB, FL, FR>(rop, bo, lo, ro), wju::<K, V, L, W, S, X, R, RO, FB, FL, FR>(rop, bo, lo, ro), a, b, t.take(i)) ==> jk(#[trigger] fap2::<RO, R, R, R>(rop, r, mured(mu::<L, W, S, X, R, FR>(ro, *t[i].0, *t[i].1))), oku::<K, V, L, W, S, X, R, RO, FB, FL, FR>(rop, bo, lo, ro), wju::<K, V, L, W, S, X, R, RO, FB, FL, FR>(rop, bo, lo, ro), a, b, t.take(i + 1)),
        forall|r: R| jk(r, oku::<K, V, L, W, S, X, R, RO, FB, FL, FR>(rop, bo, lo, ro), wju::<K, V, L, W, S, X, R, RO, FB, FL, FR>(rop, bo, lo, ro), a, b, t.take(i)) ==> jk(#[trigger] fap2::<RO, R, R, R>(rop, mured(mu::<L, W, S, X, R, FR>(ro, *t[i].0, *t[i].1)), r), oku::<K, V, L, W, S, X, R, RO, FB, FL, FR>(rop, bo, lo, ro), wju::<K, V, L, W, S, X, R, RO, FB, FL, FR>(rop, bo, lo, ro), a, b, t.take(i + 1))
{
    rf_u::<K, V, L, W, S, X, R, RO, FB, FL, FR>(rop, bo, lo, ro); jk_step::<K, V, L, W, R, RO>(a, b, t, i, rop, oku::<K, V, L, W, S, X, R, RO, FB, FL, FR>(rop, bo, lo, ro), w4u::<K, V, L, W, S, X, R, FB>(bo), wu::<K, V, S, X, R, FL>(lo), wu::<L, W, S, X, R, FR>(ro));
    let q = mured(mu::<L, W, S, X, R, FR>(ro, *t[i].0, *t[i].1)); let wr = wu::<L, W, S, X, R, FR>(ro);
    assert(oku::<K, V, L, W, S, X, R, RO, FB, FL, FR>(rop, bo, lo, ro) ==> forall|x: int| #[trigger] rc(q, x) == (if x == kid(*t[i].0) { wr(Some((*t[i].0, *t[i].1)), x) } else { 0 }));
}
pub proof fn rp_u<H: Hashword, F: Flagword<H>, M, K: Key, V: Value, L: Key, W: Value, S, X, R, RO, FB, FL, FR>(a: MNode<H, F, K, V, M>, b: MNode<H, F, L, W, M>, d: nat, i: nat, rop: RO, bo: MapTransmute<R, FB>, lo: MapTransmute<R, FL>, ro: MapTransmute<R, FR>)
    requires jpre(a, b, d), i < wd()
    ensures kd(a, d, i) is None && kd(b, d, i) is None ==> forall|r: R, j: nat| j <= i && #[trigger] jp(r, oku::<K, V, L, W, S, X, R, RO, FB, FL, FR>(rop, bo, lo, ro), wju::<K, V, L, W, S, X, R, RO, FB, FL, FR>(rop, bo, lo, ro), a, b, d, j, i) ==> jp(r, oku::<K, V, L, W, S, X, R, RO, FB, FL, FR>(rop, bo, lo, ro), wju::<K, V, L, W, S, X, R, RO, FB, FL, FR>(rop, bo, lo, ro), a, b, d, j, i + 1),
        forall|r: R, s: R, j: nat, e: nat| j <= i && #[trigger] jp(r, oku::<K, V, L, W, S, X, R, RO, FB, FL, FR>(rop, bo, lo, ro), wju::<K, V, L, W, S, X, R, RO, FB, FL, FR>(rop, bo, lo, ro), a, b, d, j, i) && #[trigger] jw(s, oku::<K, V, L, W, S, X, R, RO, FB, FL, FR>(rop, bo, lo, ro), wju::<K, V, L, W, S, X, R, RO, FB, FL, FR>(rop, bo, lo, ro), kd(a, d, i), kd(b, d, i), e) && e == d + 1
            ==> jp(fap2::<RO, R, R, R>(rop, r, s), oku::<K, V, L, W, S, X, R, RO, FB, FL, FR>(rop, bo, lo, ro), wju::<K, V, L, W, S, X, R, RO, FB, FL, FR>(rop, bo, lo, ro), a, b, d, j, i + 1) && jp(fap2::<RO, R, R, R>(rop, s, r), oku::<K, V, L, W, S, X, R, RO, FB, FL, FR>(rop, bo, lo, ro), wju::<K, V, L, W, S, X, R, RO, FB, FL, FR>(rop, bo, lo, ro), a, b, d, j, i + 1),
        kd(b, d, i) is None ==> forall|s: R, m: MNode<H, F, K, V, M>, p: bool| #[trigger] rn(s, p, wu::<K, V, S, X, R, FL>(lo), m) && kd(a, d, i) == Some(m) && (oku::<K, V, L, W, S, X, R, RO, FB, FL, FR>(rop, bo, lo, ro) ==> p) ==> jw(s, oku::<K, V, L, W, S, X, R, RO, FB, FL, FR>(rop, bo, lo, ro), wju::<K, V, L, W, S, X, R, RO, FB, FL, FR>(rop, bo, lo, ro), kd(a, d, i), kd(b, d, i), d + 1),
        kd(a, d, i) is None ==> forall|s: R, m: MNode<H, F, L, W, M>, p: bool| #[trigger] rn(s, p, wu::<L, W, S, X, R, FR>(ro), m) && kd(b, d, i) == Some(m) && (oku::<K, V, L, W, S, X, R, RO, FB, FL, FR>(rop, bo, lo, ro) ==> p) ==> jw(s, oku::<K, V, L, W, S, X, R, RO, FB, FL, FR>(rop, bo, lo, ro), wju::<K, V, L, W, S, X, R, RO, FB, FL, FR>(rop, bo, lo, ro), kd(a, d, i), kd(b, d, i), d + 1)
{
    rf_u::<K, V, L, W, S, X, R, RO, FB, FL, FR>(rop, bo, lo, ro); jp_step::<H, F, K, V, L, W, M, R, RO>(a, b, d, i, rop, oku::<K, V, L, W, S, X, R, RO, FB, FL, FR>(rop, bo, lo, ro), oku::<K, V, L, W, S, X, R, RO, FB, FL, FR>(rop, bo, lo, ro), oku::<K, V, L, W, S, X, R, RO, FB, FL, FR>(rop, bo, lo, ro), w4u::<K, V, L, W, S, X, R, FB>(bo), wu::<K, V, S, X, R, FL>(lo), wu::<L, W, S, X, R, FR>(ro));
    if kd(b, d, i) is None {
        assert forall|s: R, m: MNode<H, F, K, V, M>, p: bool| #[trigger] rn(s, p, wu::<K, V, S, X, R, FL>(lo), m) && kd(a, d, i) == Some(m) && (oku::<K, V, L, W, S, X, R, RO, FB, FL, FR>(rop, bo, lo, ro) ==> p) implies jw(s, oku::<K, V, L, W, S, X, R, RO, FB, FL, FR>(rop, bo, lo, ro), wju::<K, V, L, W, S, X, R, RO, FB, FL, FR>(rop, bo, lo, ro), kd(a, d, i), kd(b, d, i), d + 1) by { assert(rn(s, oku::<K, V, L, W, S, X, R, RO, FB, FL, FR>(rop, bo, lo, ro), wu::<K, V, S, X, R, FL>(lo), m)); }
    }
    if kd(a, d, i) is None {
        assert forall|s: R, m: MNode<H, F, L, W, M>, p: bool| #[trigger] rn(s, p, wu::<L, W, S, X, R, FR>(ro), m) && kd(b, d, i) == Some(m) && (oku::<K, V, L, W, S, X, R, RO, FB, FL, FR>(rop, bo, lo, ro) ==> p) implies jw(s, oku::<K, V, L, W, S, X, R, RO, FB, FL, FR>(rop, bo, lo, ro), wju::<K, V, L, W, S, X, R, RO, FB, FL, FR>(rop, bo, lo, ro), kd(a, d, i), kd(b, d, i), d + 1) by { assert(rn(s, oku::<K, V, L, W, S, X, R, RO, FB, FL, FR>(rop, bo, lo, ro), wu::<L, W, S, X, R, FR>(ro), m)); }
    }
}

pub open spec fn oktm<K: Key, V: Value, L: Key, W: Value, R, RO, FB, FL, FR>(rop: RO, bo: MapTransform<R, FB>, lo: MapTransform<R, FL>, ro: MapTransmute<R, FR>) -> bool { rs::<R, RO>(rop) && mt4loc::<K, V, L, W, V, R, FB>(bo) && mtloc::<K, V, R, FL>(lo) && muloc::<L, W, K, V, R, FR>(ro) }
pub open spec fn wjtm<K: Key, V: Value, L: Key, W: Value, R, RO, FB, FL, FR>(rop: RO, bo: MapTransform<R, FB>, lo: MapTransform<R, FL>, ro: MapTransmute<R, FR>) -> spec_fn(Ent<K, V>, Ent<L, W>, int) -> int { w2(w4t::<K, V, L, W, V, R, FB>(bo), wt::<K, V, R, FL>(lo), wu::<L, W, K, V, R, FR>(ro)) }
pub proof fn rf_tm<K: Key, V: Value, L: Key, W: Value, R, RO, FB, FL, FR>(rop: RO, bo: MapTransform<R, FB>, lo: MapTransform<R, FL>, ro: MapTransmute<R, FR>)
    ensures oktm::<K, V, L, W, R, RO, FB, FL, FR>(rop, bo, lo, ro) ==> bo is Generic && lo is Generic && ro is Generic && rs::<R, RO>(rop) && mtloc::<K, V, R, FL>(lo) && muloc::<L, W, K, V, R, FR>(ro) && okt::<K, V, R, RO, FL>(rop, lo) && okm::<L, W, K, V, R, RO, FR>(rop, ro), wz(wt::<K, V, R, FL>(lo)), wz(wu::<L, W, K, V, R, FR>(ro)), wjtm::<K, V, L, W, R, RO, FB, FL, FR>(rop, bo, lo, ro) == w2(w4t::<K, V, L, W, V, R, FB>(bo), wt::<K, V, R, FL>(lo), wu::<L, W, K, V, R, FR>(ro)) {}
pub proof fn rz_tm<K: Key, V: Value, L: Key, W: Value, R, RO, FB, FL, FR>(k: K, v: V, l: L, u: W, rop: RO, bo: MapTransform<R, FB>, lo: MapTransform<R, FL>, ro: MapTransmute<R, FR>)
    ensures gseen(mtred(mt::<K, V, R, FL>(lo, k, v))), gseen(mured(mu::<L, W, K, V, R, FR>(ro, l, u))), gseen(mtred(mt4::<K, V, L, W, V, R, FB>(bo, k, v, l, u))), kid(k) == kid(l) ==> jv(mtred(mt4::<K, V, L, W, V, R, FB>(bo, k, v, l, u)), oktm::<K, V, L, W, R, RO, FB, FL, FR>(rop, bo, lo, ro), wjtm::<K, V, L, W, R, RO, FB, FL, FR>(rop, bo, lo, ro), k, v, l, u),
        kid(k) != kid(l) ==> jv(fap2::<RO, R, R, R>(rop, mtred(mt::<K, V, R, FL>(lo, k, v)), mured(mu::<L, W, K, V, R, FR>(ro, l, u))), oktm::<K, V, L, W, R, RO, FB, FL, FR>(rop, bo, lo, ro), wjtm::<K, V, L, W, R, RO, FB, FL, FR>(rop, bo, lo, ro), k, v, l, u) && jv(fap2::<RO, R, R, R>(rop, mured(mu::<L, W, K, V, R, FR>(ro, l, u)), mtred(mt::<K, V, R, FL>(lo, k, v))), oktm::<K, V, L, W, R, RO, FB, FL, FR>(rop, bo, lo, ro), wjtm::<K, V, L, W, R, RO, FB, FL, FR>(rop, bo, lo, ro), k, v, l, u)
{ rf_tm::<K, V, L, W, R, RO, FB, FL, FR>(rop, bo, lo, ro); let w = wjtm::<K, V, L, W, R, RO, FB, FL, FR>(rop, bo, lo, ro);
    if kid(k) == kid(l) { assert forall|x: int| oktm::<K, V, L, W, R, RO, FB, FL, FR>(rop, bo, lo, ro) implies #[trigger] rc(mtred(mt4::<K, V, L, W, V, R, FB>(bo, k, v, l, u)), x) == w(sx(k, v, x), sx(l, u, x), x) by { } }
    else { assert forall|x: int| oktm::<K, V, L, W, R, RO, FB, FL, FR>(rop, bo, lo, ro) implies #[trigger] rc(mtred(mt::<K, V, R, FL>(lo, k, v)), x) + rc(mured(mu::<L, W, K, V, R, FR>(ro, l, u)), x) == w(sx(k, v, x), sx(l, u, x), x) by { } }
}
pub proof fn ra_tm<K: Key, V: Value, L: Key, W: Value, R, RO, FB, FL, FR>(a: LNodeNext<K, V>, b: LNodeNext<L, W>, rop: RO, bo: MapTransform<R, FB>, lo: MapTransform<R, FL>, ro: MapTransmute<R, FR>)
    ensures nwf(a) && nwf(b) && hid(nid(a)) != hid(nid(b)) ==> forall|r: R, s: R, p: bool, q: bool| #[trigger] rl(r, p, wt::<K, V, R, FL>(lo), a) && #[trigger] rl(s, q, wu::<L, W, K, V, R, FR>(ro), b) && (oktm::<K, V, L, W, R, RO, FB, FL, FR>(rop, bo, lo, ro) ==> p && q)
        ==> jl(fap2::<RO, R, R, R>(rop, r, s), oktm::<K, V, L, W, R, RO, FB, FL, FR>(rop, bo, lo, ro), wjtm::<K, V, L, W, R, RO, FB, FL, FR>(rop, bo, lo, ro), a, b) && jl(fap2::<RO, R, R, R>(rop, s, r), oktm::<K, V, L, W, R, RO, FB, FL, FR>(rop, bo, lo, ro), wjtm::<K, V, L, W, R, RO, FB, FL, FR>(rop, bo, lo, ro), a, b)
{
    rf_tm::<K, V, L, W, R, RO, FB, FL, FR>(rop, bo, lo, ro);
    if nwf(a) && nwf(b) && hid(nid(a)) != hid(nid(b)) {
    assert forall|r: R, s: R, p: bool, q: bool| #[trigger] rl(r, p, wt::<K, V, R, FL>(lo), a) && #[trigger] rl(s, q, wu::<L, W, K, V, R, FR>(ro), b) && (oktm::<K, V, L, W, R, RO, FB, FL, FR>(rop, bo, lo, ro) ==> p && q)
        implies jl(fap2::<RO, R, R, R>(rop, r, s), oktm::<K, V, L, W, R, RO, FB, FL, FR>(rop, bo, lo, ro), wjtm::<K, V, L, W, R, RO, FB, FL, FR>(rop, bo, lo, ro), a, b) && jl(fap2::<RO, R, R, R>(rop, s, r), oktm::<K, V, L, W, R, RO, FB, FL, FR>(rop, bo, lo, ro), wjtm::<K, V, L, W, R, RO, FB, FL, FR>(rop, bo, lo, ro), a, b) by {
        jl_apart::<K, V, L, W, R, RO>(a, b, rop, oktm::<K, V, L, W, R, RO, FB, FL, FR>(rop, bo, lo, ro), p, q, w4t::<K, V, L, W, V, R, FB>(bo), wt::<K, V, R, FL>(lo), wu::<L, W, K, V, R, FR>(ro));
    } }
}
pub proof fn rs_tm<K: Key, V: Value, L: Key, W: Value, R, RO, FB, FL, FR>(l: Arc<LNode<K, V>>, s: Arc<SNode<L, W>>, rop: RO, bo: MapTransform<R, FB>, lo: MapTransform<R, FL>, ro: MapTransmute<R, FR>)
    requires lwf(*l)
    ensures ske(s) == s.key, sve(s) == s.value, gseen(mtred(mt4::<K, V, L, W, V, R, FB>(bo, le(l).0, le(l).1, ske(s), sve(s)))), le(l).0 == l.key, le(l).1 == l.value, gseen(mtred(mt::<K, V, R, FL>(lo, le(l).0, le(l).1))), lid(l) == sid(s) ==> forall|r: R, b: R, p: bool, q: bool| #[trigger] radd(r, mtred(mt4::<K, V, L, W, V, R, FB>(bo, le(l).0, le(l).1, ske(s), sve(s))), b, p) && #[trigger] rl(b, q, wt::<K, V, R, FL>(lo), ln(l)) && (oktm::<K, V, L, W, R, RO, FB, FL, FR>(rop, bo, lo, ro) ==> p && q) ==> jl(r, oktm::<K, V, L, W, R, RO, FB, FL, FR>(rop, bo, lo, ro), wjtm::<K, V, L, W, R, RO, FB, FL, FR>(rop, bo, lo, ro), LNodeNext::L(l), LNodeNext::S(s)),
        lid(l) != sid(s) ==> forall|r: R, b: R, p: bool| #[trigger] radd(r, mtred(mt::<K, V, R, FL>(lo, le(l).0, le(l).1)), b, p) && #[trigger] jl(b, oktm::<K, V, L, W, R, RO, FB, FL, FR>(rop, bo, lo, ro), wjtm::<K, V, L, W, R, RO, FB, FL, FR>(rop, bo, lo, ro), ln(l), LNodeNext::S(s)) && (oktm::<K, V, L, W, R, RO, FB, FL, FR>(rop, bo, lo, ro) ==> p) ==> jl(r, oktm::<K, V, L, W, R, RO, FB, FL, FR>(rop, bo, lo, ro), wjtm::<K, V, L, W, R, RO, FB, FL, FR>(rop, bo, lo, ro), LNodeNext::L(l), LNodeNext::S(s))
{
    rf_tm::<K, V, L, W, R, RO, FB, FL, FR>(rop, bo, lo, ro);
    jl_step::<K, V, L, W, R>(l, s, oktm::<K, V, L, W, R, RO, FB, FL, FR>(rop, bo, lo, ro), oktm::<K, V, L, W, R, RO, FB, FL, FR>(rop, bo, lo, ro), w4t::<K, V, L, W, V, R, FB>(bo), wt::<K, V, R, FL>(lo), wu::<L, W, K, V, R, FR>(ro));
    if lid(l) == sid(s) {
        let a = mtred(mt4::<K, V, L, W, V, R, FB>(bo, le(l).0, le(l).1, ske(s), sve(s)));
        assert(ii(a, oktm::<K, V, L, W, R, RO, FB, FL, FR>(rop, bo, lo, ro), wjtm::<K, V, L, W, R, RO, FB, FL, FR>(rop, bo, lo, ro), le(l).0, le(l).1, Some((ske(s), sve(s)))));
        assert forall|r: R, b: R, p: bool, q: bool| #[trigger] radd(r, a, b, p) && #[trigger] rl(b, q, wt::<K, V, R, FL>(lo), ln(l)) && (oktm::<K, V, L, W, R, RO, FB, FL, FR>(rop, bo, lo, ro) ==> p && q) implies jl(r, oktm::<K, V, L, W, R, RO, FB, FL, FR>(rop, bo, lo, ro), wjtm::<K, V, L, W, R, RO, FB, FL, FR>(rop, bo, lo, ro), LNodeNext::L(l), LNodeNext::S(s)) by {
            assert(radd(r, a, b, oktm::<K, V, L, W, R, RO, FB, FL, FR>(rop, bo, lo, ro))); assert(rl(b, oktm::<K, V, L, W, R, RO, FB, FL, FR>(rop, bo, lo, ro), wt::<K, V, R, FL>(lo), l.next));
        }
    } else {
        let a = mtred(mt::<K, V, R, FL>(lo, le(l).0, le(l).1));
        assert(ii(a, oktm::<K, V, L, W, R, RO, FB, FL, FR>(rop, bo, lo, ro), wjtm::<K, V, L, W, R, RO, FB, FL, FR>(rop, bo, lo, ro), le(l).0, le(l).1, None::<(L, W)>));
        assert forall|r: R, b: R, p: bool| #[trigger] radd(r, a, b, p) && #[trigger] jl(b, oktm::<K, V, L, W, R, RO, FB, FL, FR>(rop, bo, lo, ro), wjtm::<K, V, L, W, R, RO, FB, FL, FR>(rop, bo, lo, ro), ln(l), LNodeNext::S(s)) && (oktm::<K, V, L, W, R, RO, FB, FL, FR>(rop, bo, lo, ro) ==> p) implies jl(r, oktm::<K, V, L, W, R, RO, FB, FL, FR>(rop, bo, lo, ro), wjtm::<K, V, L, W, R, RO, FB, FL, FR>(rop, bo, lo, ro), LNodeNext::L(l), LNodeNext::S(s)) by {
            assert(radd(r, a, b, oktm::<K, V, L, W, R, RO, FB, FL, FR>(rop, bo, lo, ro)));
        }
    }
}
pub proof fn ri_tm<K: Key, V: Value, L: Key, W: Value, R, RO, FB, FL, FR>(l: Arc<LNode<K, V>>, s: Seq<(&L, &W)>, rop: RO, bo: MapTransform<R, FB>, lo: MapTransform<R, FL>, ro: MapTransmute<R, FR>)
    requires lwf(*l)
    ensures le(l).0 == l.key, le(l).1 == l.value, gseen(mtred(mt::<K, V, R, FL>(lo, le(l).0, le(l).1))), forall|r: R, b: R, p: bool, u: L, w: W| #[trigger] radd(r, mtred(mt4::<K, V, L, W, V, R, FB>(bo, le(l).0, le(l).1, u, w)), b, p) && ji(b, oktm::<K, V, L, W, R, RO, FB, FL, FR>(rop, bo, lo, ro), wjtm::<K, V, L, W, R, RO, FB, FL, FR>(rop, bo, lo, ro), ln(l), s) && rfind(s, lid(l)) == Some((u, w)) && (oktm::<K, V, L, W, R, RO, FB, FL, FR>(rop, bo, lo, ro) ==> p) ==> ji(r, oktm::<K, V, L, W, R, RO, FB, FL, FR>(rop, bo, lo, ro), wjtm::<K, V, L, W, R, RO, FB, FL, FR>(rop, bo, lo, ro), LNodeNext::L(l), s),
        rfind(s, lid(l)) is None ==> forall|r: R, b: R, p: bool| #[trigger] radd(r, mtred(mt::<K, V, R, FL>(lo, le(l).0, le(l).1)), b, p) && ji(b, oktm::<K, V, L, W, R, RO, FB, FL, FR>(rop, bo, lo, ro), wjtm::<K, V, L, W, R, RO, FB, FL, FR>(rop, bo, lo, ro), ln(l), s) && (oktm::<K, V, L, W, R, RO, FB, FL, FR>(rop, bo, lo, ro) ==> p) ==> ji(r, oktm::<K, V, L, W, R, RO, FB, FL, FR>(rop, bo, lo, ro), wjtm::<K, V, L, W, R, RO, FB, FL, FR>(rop, bo, lo, ro), LNodeNext::L(l), s),
        match ln(l) { LNodeNext::S(n) => ske(n) == n.key && sve(n) == n.value &&
            (forall|r: R, u: L, w: W| #[trigger] jv(r, oktm::<K, V, L, W, R, RO, FB, FL, FR>(rop, bo, lo, ro), wjtm::<K, V, L, W, R, RO, FB, FL, FR>(rop, bo, lo, ro), ske(n), sve(n), u, w) && rfind(s, sid(n)) == Some((u, w)) ==> ji(r, oktm::<K, V, L, W, R, RO, FB, FL, FR>(rop, bo, lo, ro), wjtm::<K, V, L, W, R, RO, FB, FL, FR>(rop, bo, lo, ro), ln(l), s))
            && (rfind(s, sid(n)) is None ==> forall|r: R, p: bool| #[trigger] rl(r, p, wt::<K, V, R, FL>(lo), ln(l)) && (oktm::<K, V, L, W, R, RO, FB, FL, FR>(rop, bo, lo, ro) ==> p) ==> ji(r, oktm::<K, V, L, W, R, RO, FB, FL, FR>(rop, bo, lo, ro), wjtm::<K, V, L, W, R, RO, FB, FL, FR>(rop, bo, lo, ro), ln(l), s)), _ => true }
{
    rf_tm::<K, V, L, W, R, RO, FB, FL, FR>(rop, bo, lo, ro);
    ji_step::<K, V, L, W, R>(l, s, oktm::<K, V, L, W, R, RO, FB, FL, FR>(rop, bo, lo, ro), wjtm::<K, V, L, W, R, RO, FB, FL, FR>(rop, bo, lo, ro)); ji_s::<K, V, L, W, R>(ln(l), s, oktm::<K, V, L, W, R, RO, FB, FL, FR>(rop, bo, lo, ro), oktm::<K, V, L, W, R, RO, FB, FL, FR>(rop, bo, lo, ro), w4t::<K, V, L, W, V, R, FB>(bo), wt::<K, V, R, FL>(lo), wu::<L, W, K, V, R, FR>(ro));
    assert forall|r: R, b: R, p: bool, u: L, w: W| #[trigger] radd(r, mtred(mt4::<K, V, L, W, V, R, FB>(bo, le(l).0, le(l).1, u, w)), b, p) && ji(b, oktm::<K, V, L, W, R, RO, FB, FL, FR>(rop, bo, lo, ro), wjtm::<K, V, L, W, R, RO, FB, FL, FR>(rop, bo, lo, ro), ln(l), s) && rfind(s, lid(l)) == Some((u, w)) && (oktm::<K, V, L, W, R, RO, FB, FL, FR>(rop, bo, lo, ro) ==> p) implies ji(r, oktm::<K, V, L, W, R, RO, FB, FL, FR>(rop, bo, lo, ro), wjtm::<K, V, L, W, R, RO, FB, FL, FR>(rop, bo, lo, ro), LNodeNext::L(l), s) by {
        if rfind(s, lid(l)) is Some { assert(kid(u) == kid(le(l).0)) by { rfind_kid(s, lid(l)); } }
        let a = mtred(mt4::<K, V, L, W, V, R, FB>(bo, le(l).0, le(l).1, u, w));
        assert(ii(a, oktm::<K, V, L, W, R, RO, FB, FL, FR>(rop, bo, lo, ro), wjtm::<K, V, L, W, R, RO, FB, FL, FR>(rop, bo, lo, ro), le(l).0, le(l).1, Some((u, w)))); assert(radd(r, a, b, oktm::<K, V, L, W, R, RO, FB, FL, FR>(rop, bo, lo, ro)));
    }
    assert forall|r: R, b: R, p: bool| #[trigger] radd(r, mtred(mt::<K, V, R, FL>(lo, le(l).0, le(l).1)), b, p) && ji(b, oktm::<K, V, L, W, R, RO, FB, FL, FR>(rop, bo, lo, ro), wjtm::<K, V, L, W, R, RO, FB, FL, FR>(rop, bo, lo, ro), ln(l), s) && (oktm::<K, V, L, W, R, RO, FB, FL, FR>(rop, bo, lo, ro) ==> p) && rfind(s, lid(l)) is None implies ji(r, oktm::<K, V, L, W, R, RO, FB, FL, FR>(rop, bo, lo, ro), wjtm::<K, V, L, W, R, RO, FB, FL, FR>(rop, bo, lo, ro), LNodeNext::L(l), s) by {
        let a = mtred(mt::<K, V, R, FL>(lo, le(l).0, le(l).1));
        assert(ii(a, oktm::<K, V, L, W, R, RO, FB, FL, FR>(rop, bo, lo, ro), wjtm::<K, V, L, W, R, RO, FB, FL, FR>(rop, bo, lo, ro), le(l).0, le(l).1, None::<(L, W)>)); assert(radd(r, a, b, oktm::<K, V, L, W, R, RO, FB, FL, FR>(rop, bo, lo, ro)));
    }
    if let LNodeNext::S(n) = ln(l) {
        assert forall|r: R, p: bool| #[trigger] rl(r, p, wt::<K, V, R, FL>(lo), ln(l)) && (oktm::<K, V, L, W, R, RO, FB, FL, FR>(rop, bo, lo, ro) ==> p) && rfind(s, sid(n)) is None implies ji(r, oktm::<K, V, L, W, R, RO, FB, FL, FR>(rop, bo, lo, ro), wjtm::<K, V, L, W, R, RO, FB, FL, FR>(rop, bo, lo, ro), ln(l), s) by { assert(rl(r, oktm::<K, V, L, W, R, RO, FB, FL, FR>(rop, bo, lo, ro), wt::<K, V, R, FL>(lo), ln(l))); }
    }
}
pub proof fn rk_tm<K: Key, V: Value, L: Key, W: Value, R, RO, FB, FL, FR>(a: LNodeNext<K, V>, b: LNodeNext<L, W>, rop: RO, bo: MapTransform<R, FB>, lo: MapTransform<R, FL>, ro: MapTransmute<R, FR>)
    ensures forall|s: Seq<(&L, &W)>, t: Seq<(&L, &W)>, r: R| #![trigger ji(r, oktm::<K, V, L, W, R, RO, FB, FL, FR>(rop, bo, lo, ro), wjtm::<K, V, L, W, R, RO, FB, FL, FR>(rop, bo, lo, ro), a, s), t.take(0)] rall(s, b) && ji(r, oktm::<K, V, L, W, R, RO, FB, FL, FR>(rop, bo, lo, ro), wjtm::<K, V, L, W, R, RO, FB, FL, FR>(rop, bo, lo, ro), a, s) ==> jk(r, oktm::<K, V, L, W, R, RO, FB, FL, FR>(rop, bo, lo, ro), wjtm::<K, V, L, W, R, RO, FB, FL, FR>(rop, bo, lo, ro), a, b, t.take(0)),
        forall|t: Seq<(&L, &W)>, r: R| #[trigger] jk(r, oktm::<K, V, L, W, R, RO, FB, FL, FR>(rop, bo, lo, ro), wjtm::<K, V, L, W, R, RO, FB, FL, FR>(rop, bo, lo, ro), a, b, t.take(t.len() as int)) && rleft(t, a, b) ==> jl(r, oktm::<K, V, L, W, R, RO, FB, FL, FR>(rop, bo, lo, ro), wjtm::<K, V, L, W, R, RO, FB, FL, FR>(rop, bo, lo, ro), a, b)
{ rf_tm::<K, V, L, W, R, RO, FB, FL, FR>(rop, bo, lo, ro); jk_all::<K, V, L, W, R>(a, b, oktm::<K, V, L, W, R, RO, FB, FL, FR>(rop, bo, lo, ro), w4t::<K, V, L, W, V, R, FB>(bo), wt::<K, V, R, FL>(lo), wu::<L, W, K, V, R, FR>(ro)); }
pub proof fn rt_tm<K: Key, V: Value, L: Key, W: Value, R, RO, FB, FL, FR>(a: LNodeNext<K, V>, b: LNodeNext<L, W>, t: Seq<(&L, &W)>, i: int, rop: RO, bo: MapTransform<R, FB>, lo: MapTransform<R, FL>, ro: MapTransmute<R, FR>)
    requires rleft(t, a, b), 0 <= i < t.len()
    ensures gseen(mured(mu::<L, W, K, V, R, FR>(ro, *t[i].0, *t[i].1))), forall|r: R| jk(r, oktm::<K, V, L, W, R, RO, FB, FL, FR>(rop, bo, lo, ro), wjtm::<K, V, L, W, R, RO, FB, FL, FR>(rop, bo, lo, ro), a, b, t.take(i)) ==> jk(#[trigger] fap2::<RO, R, R, R>(rop, r, mured(mu::<L, W, K, V, R, FR>(ro, *t[i].0, *t[i].1))), oktm::<K, V, L, W, R, RO, FB, FL, FR>(rop, bo, lo, ro), wjtm::<K, V, L, W, R, RO, FB, FL, FR>(rop, bo, lo, ro), a, b, t.take(i + 1)),
        forall|r: R| jk(r, oktm::<K, V, L, W, R, RO, FB, FL, FR>(rop, bo, lo, ro), wjtm::<K, V, L, W, R, RO, FB, FL, FR>(rop, bo, lo, ro), a, b, t.take(i)) ==> jk(#[trigger] fap2::<RO, R, R, R>(rop, mured(mu::<L, W, K, V, R, FR>(ro, *t[i].0, *t[i].1)), r), oktm::<K, V, L, W, R, RO, FB, FL, FR>(rop, bo, lo, ro), wjtm::<K, V, L, W, R, RO, FB, FL, FR>(rop, bo, lo, ro), a, b, t.take(i + 1))
{
    rf_tm::<K, V, L, W, R, RO, FB, FL, FR>(rop, bo, lo, ro); jk_step::<K, V, L, W, R, RO>(a, b, t, i, rop, oktm::<K, V, L, W, R, RO, FB, FL, FR>(rop, bo, lo, ro), w4t::<K, V, L, W, V, R, FB>(bo), wt::<K, V, R, FL>(lo), wu::<L, W, K, V, R, FR>(ro));
    let q = mured(mu::<L, W, K, V, R, FR>(ro, *t[i].0, *t[i].1)); let wr = wu::<L, W, K, V, R, FR>(ro);
    assert(oktm::<K, V, L, W, R, RO, FB, FL, FR>(rop, bo, lo, ro) ==> forall|x: int| #[trigger] rc(q, x) == (if x == kid(*t[i].0) { wr(Some((*t[i].0, *t[i].1)), x) } else { 0 }));
}
pub proof fn rp_tm<H: Hashword, F: Flagword<H>, M, K: Key, V: Value, L: Key, W: Value, R, RO, FB, FL, FR>(a: MNode<H, F, K, V, M>, b: MNode<H, F, L, W, M>, d: nat, i: nat, rop: RO, bo: MapTransform<R, FB>, lo: MapTransform<R, FL>, ro: MapTransmute<R, FR>)
    requires jpre(a, b, d), i < wd()
    ensures kd(a, d, i) is None && kd(b, d, i) is None ==> forall|r: R, j: nat| j <= i && #[trigger] jp(r, oktm::<K, V, L, W, R, RO, FB, FL, FR>(rop, bo, lo, ro), wjtm::<K, V, L, W, R, RO, FB, FL, FR>(rop, bo, lo, ro), a, b, d, j, i) ==> jp(r, oktm::<K, V, L, W, R, RO, FB, FL, FR>(rop, bo, lo, ro), wjtm::<K, V, L, W, R, RO, FB, FL, FR>(rop, bo, lo, ro), a, b, d, j, i + 1),
        forall|r: R, s: R, j: nat, e: nat| j <= i && #[trigger] jp(r, oktm::<K, V, L, W, R, RO, FB, FL, FR>(rop, bo, lo, ro), wjtm::<K, V, L, W, R, RO, FB, FL, FR>(rop, bo, lo, ro), a, b, d, j, i) && #[trigger] jw(s, oktm::<K, V, L, W, R, RO, FB, FL, FR>(rop, bo, lo, ro), wjtm::<K, V, L, W, R, RO, FB, FL, FR>(rop, bo, lo, ro), kd(a, d, i), kd(b, d, i), e) && e == d + 1
            ==> jp(fap2::<RO, R, R, R>(rop, r, s), oktm::<K, V, L, W, R, RO, FB, FL, FR>(rop, bo, lo, ro), wjtm::<K, V, L, W, R, RO, FB, FL, FR>(rop, bo, lo, ro), a, b, d, j, i + 1) && jp(fap2::<RO, R, R, R>(rop, s, r), oktm::<K, V, L, W, R, RO, FB, FL, FR>(rop, bo, lo, ro), wjtm::<K, V, L, W, R, RO, FB, FL, FR>(rop, bo, lo, ro), a, b, d, j, i + 1),
        kd(b, d, i) is None ==> forall|s: R, m: MNode<H, F, K, V, M>, p: bool| #[trigger] rn(s, p, wt::<K, V, R, FL>(lo), m) && kd(a, d, i) == Some(m) && (oktm::<K, V, L, W, R, RO, FB, FL, FR>(rop, bo, lo, ro) ==> p) ==> jw(s, oktm::<K, V, L, W, R, RO, FB, FL, FR>(rop, bo, lo, ro), wjtm::<K, V, L, W, R, RO, FB, FL, FR>(rop, bo, lo, ro), kd(a, d, i), kd(b, d, i), d + 1),
        kd(a, d, i) is None ==> forall|s: R, m: MNode<H, F, L, W, M>, p: bool| #[trigger] rn(s, p, wu::<L, W, K, V, R, FR>(ro), m) && kd(b, d, i) == Some(m) && (oktm::<K, V, L, W, R, RO, FB, FL, FR>(rop, bo, lo, ro) ==> p) ==> jw(s, oktm::<K, V, L, W, R, RO, FB, FL, FR>(rop, bo, lo, ro), wjtm::<K, V, L, W, R, RO, FB, FL, FR>(rop, bo, lo, ro), kd(a, d, i), kd(b, d, i), d + 1)
{
    rf_tm::<K, V, L, W, R, RO, FB, FL, FR>(rop, bo, lo, ro); jp_step::<H, F, K, V, L, W, M, R, RO>(a, b, d, i, rop, oktm::<K, V, L, W, R, RO, FB, FL, FR>(rop, bo, lo, ro), oktm::<K, V, L, W, R, RO, FB, FL, FR>(rop, bo, lo, ro), oktm::<K, V, L, W, R, RO, FB, FL, FR>(rop, bo, lo, ro), w4t::<K, V, L, W, V, R, FB>(bo), wt::<K, V, R, FL>(lo), wu::<L, W, K, V, R, FR>(ro));
    if kd(b, d, i) is None {
        assert forall|s: R, m: MNode<H, F, K, V, M>, p: bool| #[trigger] rn(s, p, wt::<K, V, R, FL>(lo), m) && kd(a, d, i) == Some(m) && (oktm::<K, V, L, W, R, RO, FB, FL, FR>(rop, bo, lo, ro) ==> p) implies jw(s, oktm::<K, V, L, W, R, RO, FB, FL, FR>(rop, bo, lo, ro), wjtm::<K, V, L, W, R, RO, FB, FL, FR>(rop, bo, lo, ro), kd(a, d, i), kd(b, d, i), d + 1) by { assert(rn(s, oktm::<K, V, L, W, R, RO, FB, FL, FR>(rop, bo, lo, ro), wt::<K, V, R, FL>(lo), m)); }
    }
    if kd(a, d, i) is None {
        assert forall|s: R, m: MNode<H, F, L, W, M>, p: bool| #[trigger] rn(s, p, wu::<L, W, K, V, R, FR>(ro), m) && kd(b, d, i) == Some(m) && (oktm::<K, V, L, W, R, RO, FB, FL, FR>(rop, bo, lo, ro) ==> p) implies jw(s, oktm::<K, V, L, W, R, RO, FB, FL, FR>(rop, bo, lo, ro), wjtm::<K, V, L, W, R, RO, FB, FL, FR>(rop, bo, lo, ro), kd(a, d, i), kd(b, d, i), d + 1) by { assert(rn(s, oktm::<K, V, L, W, R, RO, FB, FL, FR>(rop, bo, lo, ro), wu::<L, W, K, V, R, FR>(ro), m)); }
    }
}

pub open spec fn okmt<K: Key, V: Value, L: Key, W: Value, R, RO, FB, FL, FR>(rop: RO, bo: MapTransform<R, FB>, lo: MapTransmute<R, FL>, ro: MapTransform<R, FR>) -> bool { rs::<R, RO>(rop) && mt4loc::<K, V, L, W, W, R, FB>(bo) && muloc::<K, V, L, W, R, FL>(lo) && mtloc::<L, W, R, FR>(ro) }
pub open spec fn wjmt<K: Key, V: Value, L: Key, W: Value, R, RO, FB, FL, FR>(rop: RO, bo: MapTransform<R, FB>, lo: MapTransmute<R, FL>, ro: MapTransform<R, FR>) -> spec_fn(Ent<K, V>, Ent<L, W>, int) -> int { w2(w4t::<K, V, L, W, W, R, FB>(bo), wu::<K, V, L, W, R, FL>(lo), wt::<L, W, R, FR>(ro)) }
pub proof fn rf_mt<K: Key, V: Value, L: Key, W: Value, R, RO, FB, FL, FR>(rop: RO, bo: MapTransform<R, FB>, lo: MapTransmute<R, FL>, ro: MapTransform<R, FR>)
    ensures okmt::<K, V, L, W, R, RO, FB, FL, FR>(rop, bo, lo, ro) ==> bo is Generic && lo is Generic && ro is Generic && rs::<R, RO>(rop) && muloc::<K, V, L, W, R, FL>(lo) && mtloc::<L, W, R, FR>(ro) && okm::<K, V, L, W, R, RO, FL>(rop, lo) && okt::<L, W, R, RO, FR>(rop, ro), wz(wu::<K, V, L, W, R, FL>(lo)), wz(wt::<L, W, R, FR>(ro)), wjmt::<K, V, L, W, R, RO, FB, FL, FR>(rop, bo, lo, ro) == w2(w4t::<K, V, L, W, W, R, FB>(bo), wu::<K, V, L, W, R, FL>(lo), wt::<L, W, R, FR>(ro)) {}
pub proof fn rz_mt<K: Key, V: Value, L: Key, W: Value, R, RO, FB, FL, FR>(k: K, v: V, l: L, u: W, rop: RO, bo: MapTransform<R, FB>, lo: MapTransmute<R, FL>, ro: MapTransform<R, FR>)
    ensures gseen(mured(mu::<K, V, L, W, R, FL>(lo, k, v))), gseen(mtred(mt::<L, W, R, FR>(ro, l, u))), gseen(mtred(mt4::<K, V, L, W, W, R, FB>(bo, k, v, l, u))), kid(k) == kid(l) ==> jv(mtred(mt4::<K, V, L, W, W, R, FB>(bo, k, v, l, u)), okmt::<K, V, L, W, R, RO, FB, FL, FR>(rop, bo, lo, ro), wjmt::<K, V, L, W, R, RO, FB, FL, FR>(rop, bo, lo, ro), k, v, l, u),
        kid(k) != kid(l) ==> jv(fap2::<RO, R, R, R>(rop, mured(mu::<K, V, L, W, R, FL>(lo, k, v)), mtred(mt::<L, W, R, FR>(ro, l, u))), okmt::<K, V, L, W, R, RO, FB, FL, FR>(rop, bo, lo, ro), wjmt::<K, V, L, W, R, RO, FB, FL, FR>(rop, bo, lo, ro), k, v, l, u) && jv(fap2::<RO, R, R, R>(rop, mtred(mt::<L, W, R, FR>(ro, l, u)), mured(mu::<K, V, L, W, R, FL>(lo, k, v))), okmt::<K, V, L, W, R, RO, FB, FL, FR>(rop, bo, lo, ro), wjmt::<K, V, L, W, R, RO, FB, FL, FR>(rop, bo, lo, ro), k, v, l, u)
{ rf_mt::<K, V, L, W, R, RO, FB, FL, FR>(rop, bo, lo, ro); let w = wjmt::<K, V, L, W, R, RO, FB, FL, FR>(rop, bo, lo, ro);
    if kid(k) == kid(l) { assert forall|x: int| okmt::<K, V, L, W, R, RO, FB, FL, FR>(rop, bo, lo, ro) implies #[trigger] rc(mtred(mt4::<K, V, L, W, W, R, FB>(bo, k, v, l, u)), x) == w(sx(k, v, x), sx(l, u, x), x) by { } }
    else { assert forall|x: int| okmt::<K, V, L, W, R, RO, FB, FL, FR>(rop, bo, lo, ro) implies #[trigger] rc(mured(mu::<K, V, L, W, R, FL>(lo, k, v)), x) + rc(mtred(mt::<L, W, R, FR>(ro, l, u)), x) == w(sx(k, v, x), sx(l, u, x), x) by { } }
}
pub proof fn ra_mt<K: Key, V: Value, L: Key, W: Value, R, RO, FB, FL, FR>(a: LNodeNext<K, V>, b: LNodeNext<L, W>, rop: RO, bo: MapTransform<R, FB>, lo: MapTransmute<R, FL>, ro: MapTransform<R, FR>)
    ensures nwf(a) && nwf(b) && hid(nid(a)) != hid(nid(b)) ==> forall|r: R, s: R, p: bool, q: bool| #[trigger] rl(r, p, wu::<K, V, L, W, R, FL>(lo), a) && #[trigger] rl(s, q, wt::<L, W, R, FR>(ro), b) && (okmt::<K, V, L, W, R, RO, FB, FL, FR>(rop, bo, lo, ro) ==> p && q)
        ==> jl(fap2::<RO, R, R, R>(rop, r, s), okmt::<K, V, L, W, R, RO, FB, FL, FR>(rop, bo, lo, ro), wjmt::<K, V, L, W, R, RO, FB, FL, FR>(rop, bo, lo, ro), a, b) && jl(fap2::<RO, R, R, R>(rop, s, r), okmt::<K, V, L, W, R, RO, FB, FL, FR>(rop, bo, lo, ro), wjmt::<K, V, L, W, R, RO, FB, FL, FR>(rop, bo, lo, ro), a, b)
{
    rf_mt::<K, V, L, W, R, RO, FB, FL, FR>(rop, bo, lo, ro);
    if nwf(a) && nwf(b) && hid(nid(a)) != hid(nid(b)) {
    assert forall|r: R, s: R, p: bool, q: bool| #[trigger] rl(r, p, wu::<K, V, L, W, R, FL>(lo), a) && #[trigger] rl(s, q, wt::<L, W, R, FR>(ro), b) && (okmt::<K, V, L, W, R, RO, FB, FL, FR>(rop, bo, lo, ro) ==> p && q)
        implies jl(fap2::<RO, R, R, R>(rop, r, s), okmt::<K, V, L, W, R, RO, FB, FL, FR>(rop, bo, lo, ro), wjmt::<K, V, L, W, R, RO, FB, FL, FR>(rop, bo, lo, ro), a, b) && jl(fap2::<RO, R, R, R>(rop, s, r), okmt::<K, V, L, W, R, RO, FB, FL, FR>(rop, bo, lo, ro), wjmt::<K, V, L, W, R, RO, FB, FL, FR>(rop, bo, lo, ro), a, b) by {
        jl_apart::<K, V, L, W, R, RO>(a, b, rop, okmt::<K, V, L, W, R, RO, FB, FL, FR>(rop, bo, lo, ro), p, q, w4t::<K, V, L, W, W, R, FB>(bo), wu::<K, V, L, W, R, FL>(lo), wt::<L, W, R, FR>(ro));
    } }
}
pub proof fn rs_mt<K: Key, V: Value, L: Key, W: Value, R, RO, FB, FL, FR>(l: Arc<LNode<K, V>>, s: Arc<SNode<L, W>>, rop: RO, bo: MapTransform<R, FB>, lo: MapTransmute<R, FL>, ro: MapTransform<R, FR>)
    requires lwf(*l)
    ensures ske(s) == s.key, sve(s) == s.value, gseen(mtred(mt4::<K, V, L, W, W, R, FB>(bo, le(l).0, le(l).1, ske(s), sve(s)))), le(l).0 == l.key, le(l).1 == l.value, gseen(mured(mu::<K, V, L, W, R, FL>(lo, le(l).0, le(l).1))), lid(l) == sid(s) ==> forall|r: R, b: R, p: bool, q: bool| #[trigger] radd(r, mtred(mt4::<K, V, L, W, W, R, FB>(bo, le(l).0, le(l).1, ske(s), sve(s))), b, p) && #[trigger] rl(b, q, wu::<K, V, L, W, R, FL>(lo), ln(l)) && (okmt::<K, V, L, W, R, RO, FB, FL, FR>(rop, bo, lo, ro) ==> p && q) ==> jl(r, okmt::<K, V, L, W, R, RO, FB, FL, FR>(rop, bo, lo, ro), wjmt::<K, V, L, W, R, RO, FB, FL, FR>(rop, bo, lo, ro), LNodeNext::L(l), LNodeNext::S(s)),
        lid(l) != sid(s) ==> forall|r: R, b: R, p: bool| #[trigger] radd(r, mured(mu::<K, V, L, W, R, FL>(lo, le(l).0, le(l).1)), b, p) && #[trigger] jl(b, okmt::<K, V, L, W, R, RO, FB, FL, FR>(rop, bo, lo, ro), wjmt::<K, V, L, W, R, RO, FB, FL, FR>(rop, bo, lo, ro), ln(l), LNodeNext::S(s)) && (okmt::<K, V, L, W, R, RO, FB, FL, FR>(rop, bo, lo, ro) ==> p) ==> jl(r, okmt::<K, V, L, W, R, RO, FB, FL, FR>(rop, bo, lo, ro), wjmt::<K, V, L, W, R, RO, FB, FL, FR>(rop, bo, lo, ro), LNodeNext::L(l), LNodeNext::S(s))
{
    rf_mt::<K, V, L, W, R, RO, FB, FL, FR>(rop, bo, lo, ro);
    jl_step::<K, V, L, W, R>(l, s, okmt::<K, V, L, W, R, RO, FB, FL, FR>(rop, bo, lo, ro), okmt::<K, V, L, W, R, RO, FB, FL, FR>(rop, bo, lo, ro), w4t::<K, V, L, W, W, R, FB>(bo), wu::<K, V, L, W, R, FL>(lo), wt::<L, W, R, FR>(ro));
    if lid(l) == sid(s) {
        let a = mtred(mt4::<K, V, L, W, W, R, FB>(bo, le(l).0, le(l).1, ske(s), sve(s)));
        assert(ii(a, okmt::<K, V, L, W, R, RO, FB, FL, FR>(rop, bo, lo, ro), wjmt::<K, V, L, W, R, RO, FB, FL, FR>(rop, bo, lo, ro), le(l).0, le(l).1, Some((ske(s), sve(s)))));
        assert forall|r: R, b: R, p: bool, q: bool| #[trigger] radd(r, a, b, p) && #[trigger] rl(b, q, wu::<K, V, L, W, R, FL>(lo), ln(l)) && (okmt::<K, V, L, W, R, RO, FB, FL, FR>(rop, bo, lo, ro) ==> p && q) implies jl(r, okmt::<K, V, L, W, R, RO, FB, FL, FR>(rop, bo, lo, ro), wjmt::<K, V, L, W, R, RO, FB, FL, FR>(rop, bo, lo, ro), LNodeNext::L(l), LNodeNext::S(s)) by {
            assert(radd(r, a, b, okmt::<K, V, L, W, R, RO, FB, FL, FR>(rop, bo, lo, ro))); assert(rl(b, okmt::<K, V, L, W, R, RO, FB, FL, FR>(rop, bo, lo, ro), wu::<K, V, L, W, R, FL>(lo), l.next));
        }
    } else {
        let a = mured(mu::<K, V, L, W, R, FL>(lo, le(l).0, le(l).1));
        assert(ii(a, okmt::<K, V, L, W, R, RO, FB, FL, FR>(rop, bo, lo, ro), wjmt::<K, V, L, W, R, RO, FB, FL, FR>(rop, bo, lo, ro), le(l).0, le(l).1, None::<(L, W)>));
        assert forall|r: R, b: R, p: bool| #[trigger] radd(r, a, b, p) && #[trigger] jl(b, okmt::<K, V, L, W, R, RO, FB, FL, FR>(rop, bo, lo, ro), wjmt::<K, V, L, W, R, RO, FB, FL, FR>(rop, bo, lo, ro), ln(l), LNodeNext::S(s)) && (okmt::<K, V, L, W, R, RO, FB, FL, FR>(rop, bo, lo, ro) ==> p) implies jl(r, okmt::<K, V, L, W, R, RO, FB, FL, FR>(rop, bo, lo, ro), wjmt::<K, V, L, W, R, RO, FB, FL, FR>(rop, bo, lo, ro), LNodeNext::L(l), LNodeNext::S(s)) by {
            assert(radd(r, a, b, okmt::<K, V, L, W, R, RO, FB, FL, FR>(rop, bo, lo, ro)));
        }
    }
}
pub proof fn ri_mt<K: Key, V: Value, L: Key, W: Value, R, RO, FB, FL, FR>(l: Arc<LNode<K, V>>, s: Seq<(&L, &W)>, rop: RO, bo: MapTransform<R, FB>, lo: MapTransmute<R, FL>, ro: MapTransform<R, FR>)
    requires lwf(*l)
    ensures le(l).0 == l.key, le(l).1 == l.value, gseen(mured(mu::<K, V, L, W, R, FL>(lo, le(l).0, le(l).1))), forall|r: R, b: R, p: bool, u: L, w: W| #[trigger] radd(r, mtred(mt4::<K, V, L, W, W, R, FB>(bo, le(l).0, le(l).1, u, w)), b, p) && ji(b, okmt::<K, V, L, W, R, RO, FB, FL, FR>(rop, bo, lo, ro), wjmt::<K, V, L, W, R, RO, FB, FL, FR>(rop, bo, lo, ro), ln(l), s) && rfind(s, lid(l)) == Some((u, w)) && (okmt::<K, V, L, W, R, RO, FB, FL, FR>(rop, bo, lo, ro) ==> p) ==> ji(r, okmt::<K, V, L, W, R, RO, FB, FL, FR>(rop, bo, lo, ro), wjmt::<K, V, L, W, R, RO, FB, FL, FR>(rop, bo, lo, ro), LNodeNext::L(l), s),
        rfind(s, lid(l)) is None ==> forall|r: R, b: R, p: bool| #[trigger] radd(r, mured(mu::<K, V, L, W, R, FL>(lo, le(l).0, le(l).1)), b, p) && ji(b, okmt::<K, V, L, W, R, RO, FB, FL, FR>(rop, bo, lo, ro), wjmt::<K, V, L, W, R, RO, FB, FL, FR>(rop, bo, lo, ro), ln(l), s) && (okmt::<K, V, L, W, R, RO, FB, FL, FR>(rop, bo, lo, ro) ==> p) ==> ji(r, okmt::<K, V, L, W, R, RO, FB, FL, FR>(rop, bo, lo, ro), wjmt::<K, V, L, W, R, RO, FB, FL, FR>(rop, bo, lo, ro), LNodeNext::L(l), s),
        match ln(l) { LNodeNext::S(n) => ske(n) == n.key && sve(n) == n.value &&
            (forall|r: R, u: L, w: W| #[trigger] jv(r, okmt::<K, V, L, W, R, RO, FB, FL, FR>(rop, bo, lo, ro), wjmt::<K, V, L, W, R, RO, FB, FL, FR>(rop, bo, lo, ro), ske(n), sve(n), u, w) && rfind(s, sid(n)) == Some((u, w)) ==> ji(r, okmt::<K, V, L, W, R, RO, FB, FL, FR>(rop, bo, lo, ro), wjmt::<K, V, L, W, R, RO, FB, FL, FR>(rop, bo, lo, ro), ln(l), s))
            && (rfind(s, sid(n)) is None ==> forall|r: R, p: bool| #[trigger] rl(r, p, wu::<K, V, L, W, R, FL>(lo), ln(l)) && (okmt::<K, V, L, W, R, RO, FB, FL, FR>(rop, bo, lo, ro) ==> p) ==> ji(r, okmt::<K, V, L, W, R, RO, FB, FL, FR>(rop, bo, lo, ro), wjmt::<K, V, L, W, R, RO, FB, FL, FR>(rop, bo, lo, ro), ln(l), s)), _ => true }
{
    rf_mt::<K, V, L, W, R, RO, FB, FL, FR>(rop, bo, lo, ro);
    ji_step::<K, V, L, W, R>(l, s, okmt::<K, V, L, W, R, RO, FB, FL, FR>(rop, bo, lo, ro), wjmt::<K, V, L, W, R, RO, FB, FL, FR>(rop, bo, lo, ro)); ji_s::<K, V, L, W, R>(ln(l), s, okmt::<K, V, L, W, R, RO, FB, FL, FR>(rop, bo, lo, ro), okmt::<K, V, L, W, R, RO, FB, FL, FR>(rop, bo, lo, ro), w4t::<K, V, L, W, W, R, FB>(bo), wu::<K, V, L, W, R, FL>(lo), wt::<L, W, R, FR>(ro));
    assert forall|r: R, b: R, p: bool, u: L, w: W| #[trigger] radd(r, mtred(mt4::<K, V, L, W, W, R, FB>(bo, le(l).0, le(l).1, u, w)), b, p) && ji(b, okmt::<K, V, L, W, R, RO, FB, FL, FR>(rop, bo, lo, ro), wjmt::<K, V, L, W, R, RO, FB, FL, FR>(rop, bo, lo, ro), ln(l), s) && rfind(s, lid(l)) == Some((u, w)) && (okmt::<K, V, L, W, R, RO, FB, FL, FR>(rop, bo, lo, ro) ==> p) implies ji(r, okmt::<K, V, L, W, R, RO, FB, FL, FR>(rop, bo, lo, ro), wjmt::<K, V, L, W, R, RO, FB, FL, FR>(rop, bo, lo, ro), LNodeNext::L(l), s) by {
        if rfind(s, lid(l)) is Some { assert(kid(u) == kid(le(l).0)) by { rfind_kid(s, lid(l)); } }
        let a = mtred(mt4::<K, V, L, W, W, R, FB>(bo, le(l).0, le(l).1, u, w));
        assert(ii(a, okmt::<K, V, L, W, R, RO, FB, FL, FR>(rop, bo, lo, ro), wjmt::<K, V, L, W, R, RO, FB, FL, FR>(rop, bo, lo, ro), le(l).0, le(l).1, Some((u, w)))); assert(radd(r, a, b, okmt::<K, V, L, W, R, RO, FB, FL, FR>(rop, bo, lo, ro)));
    }
    assert forall|r: R, b: R, p: bool| #[trigger] radd(r, mured(mu::<K, V, L, W, R, FL>(lo, le(l).0, le(l).1)), b, p) && ji(b, okmt::<K, V, L, W, R, RO, FB, FL, FR>(rop, bo, lo, ro), wjmt::<K, V, L, W, R, RO, FB, FL, FR>(rop, bo, lo, ro), ln(l), s) && (okmt::<K, V, L, W, R, RO, FB, FL, FR>(rop, bo, lo, ro) ==> p) && rfind(s, lid(l)) is None implies ji(r, okmt::<K, V, L, W, R, RO, FB, FL, FR>(rop, bo, lo, ro), wjmt::<K, V, L, W, R, RO, FB, FL, FR>(rop, bo, lo, ro), LNodeNext::L(l), s) by {
        let a = mured(mu::<K, V, L, W, R, FL>(lo, le(l).0, le(l).1));
        assert(ii(a, okmt::<K, V, L, W, R, RO, FB, FL, FR>(rop, bo, lo, ro), wjmt::<K, V, L, W, R, RO, FB, FL, FR>(rop, bo, lo, ro), le(l).0, le(l).1, None::<(L, W)>)); assert(radd(r, a, b, okmt::<K, V, L, W, R, RO, FB, FL, FR>(rop, bo, lo, ro)));
    }
    if let LNodeNext::S(n) = ln(l) {
        assert forall|r: R, p: bool| #[trigger] rl(r, p, wu::<K, V, L, W, R, FL>(lo), ln(l)) && (okmt::<K, V, L, W, R, RO, FB, FL, FR>(rop, bo, lo, ro) ==> p) && rfind(s, sid(n)) is None implies ji(r, okmt::<K, V, L, W, R, RO, FB, FL, FR>(rop, bo, lo, ro), wjmt::<K, V, L, W, R, RO, FB, FL, FR>(rop, bo, lo, ro), ln(l), s) by { assert(rl(r, okmt::<K, V, L, W, R, RO, FB, FL, FR>(rop, bo, lo, ro), wu::<K, V, L, W, R, FL>(lo), ln(l))); }
    }
}
pub proof fn rk_mt<K: Key, V: Value, L: Key, W: Value, R, RO, FB, FL, FR>(a: LNodeNext<K, V>, b: LNodeNext<L, W>, rop: RO, bo: MapTransform<R, FB>, lo: MapTransmute<R, FL>, ro: MapTransform<R, FR>)
    ensures forall|s: Seq<(&L, &W)>, t: Seq<(&L, &W)>, r: R| #![trigger ji(r, okmt::<K, V, L, W, R, RO, FB, FL, FR>(rop, bo, lo, ro), wjmt::<K, V, L, W, R, RO, FB, FL, FR>(rop, bo, lo, ro), a, s), t.take(0)] rall(s, b) && ji(r, okmt::<K, V, L, W, R, RO, FB, FL, FR>(rop, bo, lo, ro), wjmt::<K, V, L, W, R, RO, FB, FL, FR>(rop, bo, lo, ro), a, s) ==> jk(r, okmt::<K, V, L, W, R, RO, FB, FL, FR>(rop, bo, lo, ro), wjmt::<K, V, L, W, R, RO, FB, FL, FR>(rop, bo, lo, ro), a, b, t.take(0)),
        forall|t: Seq<(&L, &W)>, r: R| #[trigger] jk(r, okmt::<K, V, L, W, R, RO, FB, FL, FR>(rop, bo, lo, ro), wjmt::<K, V, L, W, R, RO, FB, FL, FR>(rop, bo, lo, ro), a, b, t.take(t.len() as int)) && rleft(t, a, b) ==> jl(r, okmt::<K, V, L, W, R, RO, FB, FL, FR>(rop, bo, lo, ro), wjmt::<K, V, L, W, R, RO, FB, FL, FR>(rop, bo, lo, ro), a, b)
{ rf_mt::<K, V, L, W, R, RO, FB, FL, FR>(rop, bo, lo, ro); jk_all::<K, V, L, W, R>(a, b, okmt::<K, V, L, W, R, RO, FB, FL, FR>(rop, bo, lo, ro), w4t::<K, V, L, W, W, R, FB>(bo), wu::<K, V, L, W, R, FL>(lo), wt::<L, W, R, FR>(ro)); }
pub proof fn rt_mt<K: Key, V: Value, L: Key, W: Value, R, RO, FB, FL, FR>(a: LNodeNext<K, V>, b: LNodeNext<L, W>, t: Seq<(&L, &W)>, i: int, rop: RO, bo: MapTransform<R, FB>, lo: MapTransmute<R, FL>, ro: MapTransform<R, FR>)
    requires rleft(t, a, b), 0 <= i < t.len()
    ensures gseen(mtred(mt::<L, W, R, FR>(ro, *t[i].0, *t[i].1))), forall|r: R| jk(r, okmt::<K, V, L, W, R, RO, FB, FL, FR>(rop, bo, lo, ro), wjmt::<K, V, L, W, R, RO, FB, FL, FR>(rop, bo, lo, ro), a, b, t.take(i)) ==> jk(#[trigger] fap2::<RO, R, R, R>(rop, r, mtred(mt::<L, W, R, FR>(ro, *t[i].0, *t[i].1))), okmt::<K, V, L, W, R, RO, FB, FL, FR>(rop, bo, lo, ro), wjmt::<K, V, L, W, R, RO, FB, FL, FR>(rop, bo, lo, ro), a, b, t.take(i + 1)),
        forall|r: R| jk(r, okmt::<K, V, L, W, R, RO, FB, FL, FR>(rop, bo, lo, ro), wjmt::<K, V, L, W, R, RO, FB, FL, FR>(rop, bo, lo, ro), a, b, t.take(i)) ==> jk(#[trigger] fap2::<RO, R, R, R>(rop, mtred(mt::<L, W, R, FR>(ro, *t[i].0, *t[i].1)), r), okmt::<K, V, L, W, R, RO, FB, FL, FR>(rop, bo, lo, ro), wjmt::<K, V, L, W, R, RO, FB, FL, FR>(rop, bo, lo, ro), a, b, t.take(i + 1))
{
    rf_mt::<K, V, L, W, R, RO, FB, FL, FR>(rop, bo, lo, ro); jk_step::<K, V, L, W, R, RO>(a, b, t, i, rop, okmt::<K, V, L, W, R, RO, FB, FL, FR>(rop, bo, lo, ro), w4t::<K, V, L, W, W, R, FB>(bo), wu::<K, V, L, W, R, FL>(lo), wt::<L, W, R, FR>(ro));
    let q = mtred(mt::<L, W, R, FR>(ro, *t[i].0, *t[i].1)); let wr = wt::<L, W, R, FR>(ro);
    assert(okmt::<K, V, L, W, R, RO, FB, FL, FR>(rop, bo, lo, ro) ==> forall|x: int| #[trigger] rc(q, x) == (if x == kid(*t[i].0) { wr(Some((*t[i].0, *t[i].1)), x) } else { 0 }));
}
pub proof fn rp_mt<H: Hashword, F: Flagword<H>, M, K: Key, V: Value, L: Key, W: Value, R, RO, FB, FL, FR>(a: MNode<H, F, K, V, M>, b: MNode<H, F, L, W, M>, d: nat, i: nat, rop: RO, bo: MapTransform<R, FB>, lo: MapTransmute<R, FL>, ro: MapTransform<R, FR>)
    requires jpre(a, b, d), i < wd()
    ensures kd(a, d, i) is None && kd(b, d, i) is None ==> forall|r: R, j: nat| j <= i && #[trigger] jp(r, okmt::<K, V, L, W, R, RO, FB, FL, FR>(rop, bo, lo, ro), wjmt::<K, V, L, W, R, RO, FB, FL, FR>(rop, bo, lo, ro), a, b, d, j, i) ==> jp(r, okmt::<K, V, L, W, R, RO, FB, FL, FR>(rop, bo, lo, ro), wjmt::<K, V, L, W, R, RO, FB, FL, FR>(rop, bo, lo, ro), a, b, d, j, i + 1),
        forall|r: R, s: R, j: nat, e: nat| j <= i && #[trigger] jp(r, okmt::<K, V, L, W, R, RO, FB, FL, FR>(rop, bo, lo, ro), wjmt::<K, V, L, W, R, RO, FB, FL, FR>(rop, bo, lo, ro), a, b, d, j, i) && #[trigger] jw(s, okmt::<K, V, L, W, R, RO, FB, FL, FR>(rop, bo, lo, ro), wjmt::<K, V, L, W, R, RO, FB, FL, FR>(rop, bo, lo, ro), kd(a, d, i), kd(b, d, i), e) && e == d + 1
            ==> jp(fap2::<RO, R, R, R>(rop, r, s), okmt::<K, V, L, W, R, RO, FB, FL, FR>(rop, bo, lo, ro), wjmt::<K, V, L, W, R, RO, FB, FL, FR>(rop, bo, lo, ro), a, b, d, j, i + 1) && jp(fap2::<RO, R, R, R>(rop, s, r), okmt::<K, V, L, W, R, RO, FB, FL, FR>(rop, bo, lo, ro), wjmt::<K, V, L, W, R, RO, FB, FL, FR>(rop, bo, lo, ro), a, b, d, j, i + 1),
        kd(b, d, i) is None ==> forall|s: R, m: MNode<H, F, K, V, M>, p: bool| #[trigger] rn(s, p, wu::<K, V, L, W, R, FL>(lo), m) && kd(a, d, i) == Some(m) && (okmt::<K, V, L, W, R, RO, FB, FL, FR>(rop, bo, lo, ro) ==> p) ==> jw(s, okmt::<K, V, L, W, R, RO, FB, FL, FR>(rop, bo, lo, ro), wjmt::<K, V, L, W, R, RO, FB, FL, FR>(rop, bo, lo, ro), kd(a, d, i), kd(b, d, i), d + 1),
        kd(a, d, i) is None ==> forall|s: R, m: MNode<H, F, L, W, M>, p: bool| #[trigger] rn(s, p, wt::<L, W, R, FR>(ro), m) && kd(b, d, i) == Some(m) && (okmt::<K, V, L, W, R, RO, FB, FL, FR>(rop, bo, lo, ro) ==> p) ==> jw(s, okmt::<K, V, L, W, R, RO, FB, FL, FR>(rop, bo, lo, ro), wjmt::<K, V, L, W, R, RO, FB, FL, FR>(rop, bo, lo, ro), kd(a, d, i), kd(b, d, i), d + 1)
{
    rf_mt::<K, V, L, W, R, RO, FB, FL, FR>(rop, bo, lo, ro); jp_step::<H, F, K, V, L, W, M, R, RO>(a, b, d, i, rop, okmt::<K, V, L, W, R, RO, FB, FL, FR>(rop, bo, lo, ro), okmt::<K, V, L, W, R, RO, FB, FL, FR>(rop, bo, lo, ro), okmt::<K, V, L, W, R, RO, FB, FL, FR>(rop, bo, lo, ro), w4t::<K, V, L, W, W, R, FB>(bo), wu::<K, V, L, W, R, FL>(lo), wt::<L, W, R, FR>(ro));
    if kd(b, d, i) is None {
        assert forall|s: R, m: MNode<H, F, K, V, M>, p: bool| #[trigger] rn(s, p, wu::<K, V, L, W, R, FL>(lo), m) && kd(a, d, i) == Some(m) && (okmt::<K, V, L, W, R, RO, FB, FL, FR>(rop, bo, lo, ro) ==> p) implies jw(s, okmt::<K, V, L, W, R, RO, FB, FL, FR>(rop, bo, lo, ro), wjmt::<K, V, L, W, R, RO, FB, FL, FR>(rop, bo, lo, ro), kd(a, d, i), kd(b, d, i), d + 1) by { assert(rn(s, okmt::<K, V, L, W, R, RO, FB, FL, FR>(rop, bo, lo, ro), wu::<K, V, L, W, R, FL>(lo), m)); }
    }
    if kd(a, d, i) is None {
        assert forall|s: R, m: MNode<H, F, L, W, M>, p: bool| #[trigger] rn(s, p, wt::<L, W, R, FR>(ro), m) && kd(b, d, i) == Some(m) && (okmt::<K, V, L, W, R, RO, FB, FL, FR>(rop, bo, lo, ro) ==> p) implies jw(s, okmt::<K, V, L, W, R, RO, FB, FL, FR>(rop, bo, lo, ro), wjmt::<K, V, L, W, R, RO, FB, FL, FR>(rop, bo, lo, ro), kd(a, d, i), kd(b, d, i), d + 1) by { assert(rn(s, okmt::<K, V, L, W, R, RO, FB, FL, FR>(rop, bo, lo, ro), wt::<L, W, R, FR>(ro), m)); }
    }
}

pub open spec fn okf<K: Key, V: Value, R, RO, FB, FL, FR>(rop: RO, bo: MapJointTransform<R, FB>, lo: MapTransform<R, FL>, ro: MapTransform<R, FR>) -> bool { rs::<R, RO>(rop) && mjloc::<K, V, R, FB>(bo) && mtloc::<K, V, R, FL>(lo) && mtloc::<K, V, R, FR>(ro) }
pub open spec fn wjf<K: Key, V: Value, R, RO, FB, FL, FR>(rop: RO, bo: MapJointTransform<R, FB>, lo: MapTransform<R, FL>, ro: MapTransform<R, FR>) -> spec_fn(Ent<K, V>, Ent<K, V>, int) -> int { w2(w4j::<K, V, R, FB>(bo), wt::<K, V, R, FL>(lo), wt::<K, V, R, FR>(ro)) }
pub proof fn rf_f<K: Key, V: Value, R, RO, FB, FL, FR>(rop: RO, bo: MapJointTransform<R, FB>, lo: MapTransform<R, FL>, ro: MapTransform<R, FR>)
    ensures okf::<K, V, R, RO, FB, FL, FR>(rop, bo, lo, ro) ==> bo is Generic && lo is Generic && ro is Generic && rs::<R, RO>(rop) && mtloc::<K, V, R, FL>(lo) && mtloc::<K, V, R, FR>(ro) && okt::<K, V, R, RO, FL>(rop, lo) && okt::<K, V, R, RO, FR>(rop, ro), wz(wt::<K, V, R, FL>(lo)), wz(wt::<K, V, R, FR>(ro)), wjf::<K, V, R, RO, FB, FL, FR>(rop, bo, lo, ro) == w2(w4j::<K, V, R, FB>(bo), wt::<K, V, R, FL>(lo), wt::<K, V, R, FR>(ro)) {}
pub proof fn rz_f<K: Key, V: Value, R, RO, FB, FL, FR>(k: K, v: V, l: K, u: V, rop: RO, bo: MapJointTransform<R, FB>, lo: MapTransform<R, FL>, ro: MapTransform<R, FR>)
    ensures gseen(mtred(mt::<K, V, R, FL>(lo, k, v))), gseen(mtred(mt::<K, V, R, FR>(ro, l, u))), gseen(mjred(mj::<K, V, R, FB>(bo, k, v, l, u))), kid(k) == kid(l) ==> jv(mjred(mj::<K, V, R, FB>(bo, k, v, l, u)), okf::<K, V, R, RO, FB, FL, FR>(rop, bo, lo, ro), wjf::<K, V, R, RO, FB, FL, FR>(rop, bo, lo, ro), k, v, l, u),
        kid(k) != kid(l) ==> jv(fap2::<RO, R, R, R>(rop, mtred(mt::<K, V, R, FL>(lo, k, v)), mtred(mt::<K, V, R, FR>(ro, l, u))), okf::<K, V, R, RO, FB, FL, FR>(rop, bo, lo, ro), wjf::<K, V, R, RO, FB, FL, FR>(rop, bo, lo, ro), k, v, l, u) && jv(fap2::<RO, R, R, R>(rop, mtred(mt::<K, V, R, FR>(ro, l, u)), mtred(mt::<K, V, R, FL>(lo, k, v))), okf::<K, V, R, RO, FB, FL, FR>(rop, bo, lo, ro), wjf::<K, V, R, RO, FB, FL, FR>(rop, bo, lo, ro), k, v, l, u)
{ rf_f::<K, V, R, RO, FB, FL, FR>(rop, bo, lo, ro); let w = wjf::<K, V, R, RO, FB, FL, FR>(rop, bo, lo, ro);
    if kid(k) == kid(l) { assert forall|x: int| okf::<K, V, R, RO, FB, FL, FR>(rop, bo, lo, ro) implies #[trigger] rc(mjred(mj::<K, V, R, FB>(bo, k, v, l, u)), x) == w(sx(k, v, x), sx(l, u, x), x) by { } }
    else { assert forall|x: int| okf::<K, V, R, RO, FB, FL, FR>(rop, bo, lo, ro) implies #[trigger] rc(mtred(mt::<K, V, R, FL>(lo, k, v)), x) + rc(mtred(mt::<K, V, R, FR>(ro, l, u)), x) == w(sx(k, v, x), sx(l, u, x), x) by { } }
}
pub proof fn ra_f<K: Key, V: Value, R, RO, FB, FL, FR>(a: LNodeNext<K, V>, b: LNodeNext<K, V>, rop: RO, bo: MapJointTransform<R, FB>, lo: MapTransform<R, FL>, ro: MapTransform<R, FR>)
    ensures nwf(a) && nwf(b) && hid(nid(a)) != hid(nid(b)) ==> forall|r: R, s: R, p: bool, q: bool| #[trigger] rl(r, p, wt::<K, V, R, FL>(lo), a) && #[trigger] rl(s, q, wt::<K, V, R, FR>(ro), b) && (okf::<K, V, R, RO, FB, FL, FR>(rop, bo, lo, ro) ==> p && q)
        ==> jl(fap2::<RO, R, R, R>(rop, r, s), okf::<K, V, R, RO, FB, FL, FR>(rop, bo, lo, ro), wjf::<K, V, R, RO, FB, FL, FR>(rop, bo, lo, ro), a, b) && jl(fap2::<RO, R, R, R>(rop, s, r), okf::<K, V, R, RO, FB, FL, FR>(rop, bo, lo, ro), wjf::<K, V, R, RO, FB, FL, FR>(rop, bo, lo, ro), a, b)
{
    rf_f::<K, V, R, RO, FB, FL, FR>(rop, bo, lo, ro);
    if nwf(a) && nwf(b) && hid(nid(a)) != hid(nid(b)) {
    assert forall|r: R, s: R, p: bool, q: bool| #[trigger] rl(r, p, wt::<K, V, R, FL>(lo), a) && #[trigger] rl(s, q, wt::<K, V, R, FR>(ro), b) && (okf::<K, V, R, RO, FB, FL, FR>(rop, bo, lo, ro) ==> p && q)
        implies jl(fap2::<RO, R, R, R>(rop, r, s), okf::<K, V, R, RO, FB, FL, FR>(rop, bo, lo, ro), wjf::<K, V, R, RO, FB, FL, FR>(rop, bo, lo, ro), a, b) && jl(fap2::<RO, R, R, R>(rop, s, r), okf::<K, V, R, RO, FB, FL, FR>(rop, bo, lo, ro), wjf::<K, V, R, RO, FB, FL, FR>(rop, bo, lo, ro), a, b) by {
        jl_apart::<K, V, K, V, R, RO>(a, b, rop, okf::<K, V, R, RO, FB, FL, FR>(rop, bo, lo, ro), p, q, w4j::<K, V, R, FB>(bo), wt::<K, V, R, FL>(lo), wt::<K, V, R, FR>(ro));
    } }
}
pub proof fn rs_f<K: Key, V: Value, R, RO, FB, FL, FR>(l: Arc<LNode<K, V>>, s: Arc<SNode<K, V>>, rop: RO, bo: MapJointTransform<R, FB>, lo: MapTransform<R, FL>, ro: MapTransform<R, FR>)
    requires lwf(*l)
    ensures ske(s) == s.key, sve(s) == s.value, gseen(mjred(mj::<K, V, R, FB>(bo, le(l).0, le(l).1, ske(s), sve(s)))), le(l).0 == l.key, le(l).1 == l.value, gseen(mtred(mt::<K, V, R, FL>(lo, le(l).0, le(l).1))), lid(l) == sid(s) ==> forall|r: R, b: R, p: bool, q: bool| #[trigger] radd(r, mjred(mj::<K, V, R, FB>(bo, le(l).0, le(l).1, ske(s), sve(s))), b, p) && #[trigger] rl(b, q, wt::<K, V, R, FL>(lo), ln(l)) && (okf::<K, V, R, RO, FB, FL, FR>(rop, bo, lo, ro) ==> p && q) ==> jl(r, okf::<K, V, R, RO, FB, FL, FR>(rop, bo, lo, ro), wjf::<K, V, R, RO, FB, FL, FR>(rop, bo, lo, ro), LNodeNext::L(l), LNodeNext::S(s)),
        lid(l) != sid(s) ==> forall|r: R, b: R, p: bool| #[trigger] radd(r, mtred(mt::<K, V, R, FL>(lo, le(l).0, le(l).1)), b, p) && #[trigger] jl(b, okf::<K, V, R, RO, FB, FL, FR>(rop, bo, lo, ro), wjf::<K, V, R, RO, FB, FL, FR>(rop, bo, lo, ro), ln(l), LNodeNext::S(s)) && (okf::<K, V, R, RO, FB, FL, FR>(rop, bo, lo, ro) ==> p) ==> jl(r, okf::<K, V, R, RO, FB, FL, FR>(rop, bo, lo, ro), wjf::<K, V, R, RO, FB, FL, FR>(rop, bo, lo, ro), LNodeNext::L(l), LNodeNext::S(s))
{
    rf_f::<K, V, R, RO, FB, FL, FR>(rop, bo, lo, ro);
    jl_step::<K, V, K, V, R>(l, s, okf::<K, V, R, RO, FB, FL, FR>(rop, bo, lo, ro), okf::<K, V, R, RO, FB, FL, FR>(rop, bo, lo, ro), w4j::<K, V, R, FB>(bo), wt::<K, V, R, FL>(lo), wt::<K, V, R, FR>(ro));
    if lid(l) == sid(s) {
        let a = mjred(mj::<K, V, R, FB>(bo, le(l).0, le(l).1, ske(s), sve(s)));
        assert(ii(a, okf::<K, V, R, RO, FB, FL, FR>(rop, bo, lo, ro), wjf::<K, V, R, RO, FB, FL, FR>(rop, bo, lo, ro), le(l).0, le(l).1, Some((ske(s), sve(s)))));
        assert forall|r: R, b: R, p: bool, q: bool| #[trigger] radd(r, a, b, p) && #[trigger] rl(b, q, wt::<K, V, R, FL>(lo), ln(l)) && (okf::<K, V, R, RO, FB, FL, FR>(rop, bo, lo, ro) ==> p && q) implies jl(r, okf::<K, V, R, RO, FB, FL, FR>(rop, bo, lo, ro), wjf::<K, V, R, RO, FB, FL, FR>(rop, bo, lo, ro), LNodeNext::L(l), LNodeNext::S(s)) by {
            assert(radd(r, a, b, okf::<K, V, R, RO, FB, FL, FR>(rop, bo, lo, ro))); assert(rl(b, okf::<K, V, R, RO, FB, FL, FR>(rop, bo, lo, ro), wt::<K, V, R, FL>(lo), l.next));
        }
    } else {
        let a = mtred(mt::<K, V, R, FL>(lo, le(l).0, le(l).1));
        assert(ii(a, okf::<K, V, R, RO, FB, FL, FR>(rop, bo, lo, ro), wjf::<K, V, R, RO, FB, FL, FR>(rop, bo, lo, ro), le(l).0, le(l).1, None::<(K, V)>));
        assert forall|r: R, b: R, p: bool| #[trigger] radd(r, a, b, p) && #[trigger] jl(b, okf::<K, V, R, RO, FB, FL, FR>(rop, bo, lo, ro), wjf::<K, V, R, RO, FB, FL, FR>(rop, bo, lo, ro), ln(l), LNodeNext::S(s)) && (okf::<K, V, R, RO, FB, FL, FR>(rop, bo, lo, ro) ==> p) implies jl(r, okf::<K, V, R, RO, FB, FL, FR>(rop, bo, lo, ro), wjf::<K, V, R, RO, FB, FL, FR>(rop, bo, lo, ro), LNodeNext::L(l), LNodeNext::S(s)) by {
            assert(radd(r, a, b, okf::<K, V, R, RO, FB, FL, FR>(rop, bo, lo, ro)));
        }
    }
}
pub proof fn ri_f<K: Key, V: Value, R, RO, FB, FL, FR>(l: Arc<LNode<K, V>>, s: Seq<(&K, &V)>, rop: RO, bo: MapJointTransform<R, FB>, lo: MapTransform<R, FL>, ro: MapTransform<R, FR>)
    requires lwf(*l)
    ensures le(l).0 == l.key, le(l).1 == l.value, gseen(mtred(mt::<K, V, R, FL>(lo, le(l).0, le(l).1))), forall|r: R, b: R, p: bool, u: K, w: V| #[trigger] radd(r, mjred(mj::<K, V, R, FB>(bo, le(l).0, le(l).1, u, w)), b, p) && ji(b, okf::<K, V, R, RO, FB, FL, FR>(rop, bo, lo, ro), wjf::<K, V, R, RO, FB, FL, FR>(rop, bo, lo, ro), ln(l), s) && rfind(s, lid(l)) == Some((u, w)) && (okf::<K, V, R, RO, FB, FL, FR>(rop, bo, lo, ro) ==> p) ==> ji(r, okf::<K, V, R, RO, FB, FL, FR>(rop, bo, lo, ro), wjf::<K, V, R, RO, FB, FL, FR>(rop, bo, lo, ro), LNodeNext::L(l), s),
        rfind(s, lid(l)) is None ==> forall|r: R, b: R, p: bool| #[trigger] radd(r, mtred(mt::<K, V, R, FL>(lo, le(l).0, le(l).1)), b, p) && ji(b, okf::<K, V, R, RO, FB, FL, FR>(rop, bo, lo, ro), wjf::<K, V, R, RO, FB, FL, FR>(rop, bo, lo, ro), ln(l), s) && (okf::<K, V, R, RO, FB, FL, FR>(rop, bo, lo, ro) ==> p) ==> ji(r, okf::<K, V, R, RO, FB, FL, FR>(rop, bo, lo, ro), wjf::<K, V, R, RO, FB, FL, FR>(rop, bo, lo, ro), LNodeNext::L(l), s),
        match ln(l) { LNodeNext::S(n) => ske(n) == n.key && sve(n) == n.value &&
            (forall|r: R, u: K, w: V| #[trigger] jv(r, okf::<K, V, R, RO, FB, FL, FR>(rop, bo, lo, ro), wjf::<K, V, R, RO, FB, FL, FR>(rop, bo, lo, ro), ske(n), sve(n), u, w) && rfind(s, sid(n)) == Some((u, w)) ==> ji(r, okf::<K, V, R, RO, FB, FL, FR>(rop, bo, lo, ro), wjf::<K, V, R, RO, FB, FL, FR>(rop, bo, lo, ro), ln(l), s))
            && (rfind(s, sid(n)) is None ==> forall|r: R, p: bool| #[trigger] rl(r, p, wt::<K, V, R, FL>(lo), ln(l)) && (okf::<K, V, R, RO, FB, FL, FR>(rop, bo, lo, ro) ==> p) ==> ji(r, okf::<K, V, R, RO, FB, FL, FR>(rop, bo, lo, ro), wjf::<K, V, R, RO, FB, FL, FR>(rop, bo, lo, ro), ln(l), s)), _ => true }
{
    rf_f::<K, V, R, RO, FB, FL, FR>(rop, bo, lo, ro);
    ji_step::<K, V, K, V, R>(l, s, okf::<K, V, R, RO, FB, FL, FR>(rop, bo, lo, ro), wjf::<K, V, R, RO, FB, FL, FR>(rop, bo, lo, ro)); ji_s::<K, V, K, V, R>(ln(l), s, okf::<K, V, R, RO, FB, FL, FR>(rop, bo, lo, ro), okf::<K, V, R, RO, FB, FL, FR>(rop, bo, lo, ro), w4j::<K, V, R, FB>(bo), wt::<K, V, R, FL>(lo), wt::<K, V, R, FR>(ro));
    assert forall|r: R, b: R, p: bool, u: K, w: V| #[trigger] radd(r, mjred(mj::<K, V, R, FB>(bo, le(l).0, le(l).1, u, w)), b, p) && ji(b, okf::<K, V, R, RO, FB, FL, FR>(rop, bo, lo, ro), wjf::<K, V, R, RO, FB, FL, FR>(rop, bo, lo, ro), ln(l), s) && rfind(s, lid(l)) == Some((u, w)) && (okf::<K, V, R, RO, FB, FL, FR>(rop, bo, lo, ro) ==> p) implies ji(r, okf::<K, V, R, RO, FB, FL, FR>(rop, bo, lo, ro), wjf::<K, V, R, RO, FB, FL, FR>(rop, bo, lo, ro), LNodeNext::L(l), s) by {
        if rfind(s, lid(l)) is Some { assert(kid(u) == kid(le(l).0)) by { rfind_kid(s, lid(l)); } }
        let a = mjred(mj::<K, V, R, FB>(bo, le(l).0, le(l).1, u, w));
        assert(ii(a, okf::<K, V, R, RO, FB, FL, FR>(rop, bo, lo, ro), wjf::<K, V, R, RO, FB, FL, FR>(rop, bo, lo, ro), le(l).0, le(l).1, Some((u, w)))); assert(radd(r, a, b, okf::<K, V, R, RO, FB, FL, FR>(rop, bo, lo, ro)));
    }
    assert forall|r: R, b: R, p: bool| #[trigger] radd(r, mtred(mt::<K, V, R, FL>(lo, le(l).0, le(l).1)), b, p) && ji(b, okf::<K, V, R, RO, FB, FL, FR>(rop, bo, lo, ro), wjf::<K, V, R, RO, FB, FL, FR>(rop, bo, lo, ro), ln(l), s) && (okf::<K, V, R, RO, FB, FL, FR>(rop, bo, lo, ro) ==> p) && rfind(s, lid(l)) is None implies ji(r, okf::<K, V, R, RO, FB, FL, FR>(rop, bo, lo, ro), wjf::<K, V, R, RO, FB, FL, FR>(rop, bo, lo, ro), LNodeNext::L(l), s) by {
        let a = mtred(mt::<K, V, R, FL>(lo, le(l).0, le(l).1));
        assert(ii(a, okf::<K, V, R, RO, FB, FL, FR>(rop, bo, lo, ro), wjf::<K, V, R, RO, FB, FL, FR>(rop, bo, lo, ro), le(l).0, le(l).1, None::<(K, V)>)); assert(radd(r, a, b, okf::<K, V, R, RO, FB, FL, FR>(rop, bo, lo, ro)));
    }
    if let LNodeNext::S(n) = ln(l) {
        assert forall|r: R, p: bool| #[trigger] rl(r, p, wt::<K, V, R, FL>(lo), ln(l)) && (okf::<K, V, R, RO, FB, FL, FR>(rop, bo, lo, ro) ==> p) && rfind(s, sid(n)) is None implies ji(r, okf::<K, V, R, RO, FB, FL, FR>(rop, bo, lo, ro), wjf::<K, V, R, RO, FB, FL, FR>(rop, bo, lo, ro), ln(l), s) by { assert(rl(r, okf::<K, V, R, RO, FB, FL, FR>(rop, bo, lo, ro), wt::<K, V, R, FL>(lo), ln(l))); }
    }
}
pub proof fn rk_f<K: Key, V: Value, R, RO, FB, FL, FR>(a: LNodeNext<K, V>, b: LNodeNext<K, V>, rop: RO, bo: MapJointTransform<R, FB>, lo: MapTransform<R, FL>, ro: MapTransform<R, FR>)
    ensures forall|s: Seq<(&K, &V)>, t: Seq<(&K, &V)>, r: R| #![trigger ji(r, okf::<K, V, R, RO, FB, FL, FR>(rop, bo, lo, ro), wjf::<K, V, R, RO, FB, FL, FR>(rop, bo, lo, ro), a, s), t.take(0)] rall(s, b) && ji(r, okf::<K, V, R, RO, FB, FL, FR>(rop, bo, lo, ro), wjf::<K, V, R, RO, FB, FL, FR>(rop, bo, lo, ro), a, s) ==> jk(r, okf::<K, V, R, RO, FB, FL, FR>(rop, bo, lo, ro), wjf::<K, V, R, RO, FB, FL, FR>(rop, bo, lo, ro), a, b, t.take(0)),
        forall|t: Seq<(&K, &V)>, r: R| #[trigger] jk(r, okf::<K, V, R, RO, FB, FL, FR>(rop, bo, lo, ro), wjf::<K, V, R, RO, FB, FL, FR>(rop, bo, lo, ro), a, b, t.take(t.len() as int)) && rleft(t, a, b) ==> jl(r, okf::<K, V, R, RO, FB, FL, FR>(rop, bo, lo, ro), wjf::<K, V, R, RO, FB, FL, FR>(rop, bo, lo, ro), a, b)
{ rf_f::<K, V, R, RO, FB, FL, FR>(rop, bo, lo, ro); jk_all::<K, V, K, V, R>(a, b, okf::<K, V, R, RO, FB, FL, FR>(rop, bo, lo, ro), w4j::<K, V, R, FB>(bo), wt::<K, V, R, FL>(lo), wt::<K, V, R, FR>(ro)); }
pub proof fn rt_f<K: Key, V: Value, R, RO, FB, FL, FR>(a: LNodeNext<K, V>, b: LNodeNext<K, V>, t: Seq<(&K, &V)>, i: int, rop: RO, bo: MapJointTransform<R, FB>, lo: MapTransform<R, FL>, ro: MapTransform<R, FR>)
    requires rleft(t, a, b), 0 <= i < t.len()
    ensures gseen(mtred(mt::<K, V, R, FR>(ro, *t[i].0, *t[i].1))), forall|r: R| jk(r, okf::<K, V, R, RO, FB, FL, FR>(rop, bo, lo, ro), wjf::<K, V, R, RO, FB, FL, FR>(rop, bo, lo, ro), a, b, t.take(i)) ==> jk(#[trigger] fap2::<RO, R, R, R>(rop, r, mtred(mt::<K, V, R, FR>(ro, *t[i].0, *t[i].1))), okf::<K, V, R, RO, FB, FL, FR>(rop, bo, lo, ro), wjf::<K, V, R, RO, FB, FL, FR>(rop, bo, lo, ro), a, b, t.take(i + 1)),
        forall|r: R| jk(r, okf::<K, V, R, RO, FB, FL, FR>(rop, bo, lo, ro), wjf::<K, V, R, RO, FB, FL, FR>(rop, bo, lo, ro), a, b, t.take(i)) ==> jk(#[trigger] fap2::<RO, R, R, R>(rop, mtred(mt::<K, V, R, FR>(ro, *t[i].0, *t[i].1)), r), okf::<K, V, R, RO, FB, FL, FR>(rop, bo, lo, ro), wjf::<K, V, R, RO, FB, FL, FR>(rop, bo, lo, ro), a, b, t.take(i + 1))
{
    rf_f::<K, V, R, RO, FB, FL, FR>(rop, bo, lo, ro); jk_step::<K, V, K, V, R, RO>(a, b, t, i, rop, okf::<K, V, R, RO, FB, FL, FR>(rop, bo, lo, ro), w4j::<K, V, R, FB>(bo), wt::<K, V, R, FL>(lo), wt::<K, V, R, FR>(ro));
    let q = mtred(mt::<K, V, R, FR>(ro, *t[i].0, *t[i].1)); let wr = wt::<K, V, R, FR>(ro);
    assert(okf::<K, V, R, RO, FB, FL, FR>(rop, bo, lo, ro) ==> forall|x: int| #[trigger] rc(q, x) == (if x == kid(*t[i].0) { wr(Some((*t[i].0, *t[i].1)), x) } else { 0 }));
}
pub proof fn rp_f<H: Hashword, F: Flagword<H>, M, K: Key, V: Value, R, RO, FB, FL, FR>(a: MNode<H, F, K, V, M>, b: MNode<H, F, K, V, M>, d: nat, i: nat, rop: RO, bo: MapJointTransform<R, FB>, lo: MapTransform<R, FL>, ro: MapTransform<R, FR>)
    requires jpre(a, b, d), i < wd()
    ensures kd(a, d, i) is None && kd(b, d, i) is None ==> forall|r: R, j: nat| j <= i && #[trigger] jp(r, okf::<K, V, R, RO, FB, FL, FR>(rop, bo, lo, ro), wjf::<K, V, R, RO, FB, FL, FR>(rop, bo, lo, ro), a, b, d, j, i) ==> jp(r, okf::<K, V, R, RO, FB, FL, FR>(rop, bo, lo, ro), wjf::<K, V, R, RO, FB, FL, FR>(rop, bo, lo, ro), a, b, d, j, i + 1),
        forall|r: R, s: R, j: nat, e: nat| j <= i && #[trigger] jp(r, okf::<K, V, R, RO, FB, FL, FR>(rop, bo, lo, ro), wjf::<K, V, R, RO, FB, FL, FR>(rop, bo, lo, ro), a, b, d, j, i) && #[trigger] jw(s, okf::<K, V, R, RO, FB, FL, FR>(rop, bo, lo, ro), wjf::<K, V, R, RO, FB, FL, FR>(rop, bo, lo, ro), kd(a, d, i), kd(b, d, i), e) && e == d + 1
            ==> jp(fap2::<RO, R, R, R>(rop, r, s), okf::<K, V, R, RO, FB, FL, FR>(rop, bo, lo, ro), wjf::<K, V, R, RO, FB, FL, FR>(rop, bo, lo, ro), a, b, d, j, i + 1) && jp(fap2::<RO, R, R, R>(rop, s, r), okf::<K, V, R, RO, FB, FL, FR>(rop, bo, lo, ro), wjf::<K, V, R, RO, FB, FL, FR>(rop, bo, lo, ro), a, b, d, j, i + 1),
        kd(b, d, i) is None ==> forall|s: R, m: MNode<H, F, K, V, M>, p: bool| #[trigger] rn(s, p, wt::<K, V, R, FL>(lo), m) && kd(a, d, i) == Some(m) && (okf::<K, V, R, RO, FB, FL, FR>(rop, bo, lo, ro) ==> p) ==> jw(s, okf::<K, V, R, RO, FB, FL, FR>(rop, bo, lo, ro), wjf::<K, V, R, RO, FB, FL, FR>(rop, bo, lo, ro), kd(a, d, i), kd(b, d, i), d + 1),
        kd(a, d, i) is None ==> forall|s: R, m: MNode<H, F, K, V, M>, p: bool| #[trigger] rn(s, p, wt::<K, V, R, FR>(ro), m) && kd(b, d, i) == Some(m) && (okf::<K, V, R, RO, FB, FL, FR>(rop, bo, lo, ro) ==> p) ==> jw(s, okf::<K, V, R, RO, FB, FL, FR>(rop, bo, lo, ro), wjf::<K, V, R, RO, FB, FL, FR>(rop, bo, lo, ro), kd(a, d, i), kd(b, d, i), d + 1)
{
    rf_f::<K, V, R, RO, FB, FL, FR>(rop, bo, lo, ro); jp_step::<H, F, K, V, K, V, M, R, RO>(a, b, d, i, rop, okf::<K, V, R, RO, FB, FL, FR>(rop, bo, lo, ro), okf::<K, V, R, RO, FB, FL, FR>(rop, bo, lo, ro), okf::<K, V, R, RO, FB, FL, FR>(rop, bo, lo, ro), w4j::<K, V, R, FB>(bo), wt::<K, V, R, FL>(lo), wt::<K, V, R, FR>(ro));
    if kd(b, d, i) is None {
        assert forall|s: R, m: MNode<H, F, K, V, M>, p: bool| #[trigger] rn(s, p, wt::<K, V, R, FL>(lo), m) && kd(a, d, i) == Some(m) && (okf::<K, V, R, RO, FB, FL, FR>(rop, bo, lo, ro) ==> p) implies jw(s, okf::<K, V, R, RO, FB, FL, FR>(rop, bo, lo, ro), wjf::<K, V, R, RO, FB, FL, FR>(rop, bo, lo, ro), kd(a, d, i), kd(b, d, i), d + 1) by { assert(rn(s, okf::<K, V, R, RO, FB, FL, FR>(rop, bo, lo, ro), wt::<K, V, R, FL>(lo), m)); }
    }
    if kd(a, d, i) is None {
        assert forall|s: R, m: MNode<H, F, K, V, M>, p: bool| #[trigger] rn(s, p, wt::<K, V, R, FR>(ro), m) && kd(b, d, i) == Some(m) && (okf::<K, V, R, RO, FB, FL, FR>(rop, bo, lo, ro) ==> p) implies jw(s, okf::<K, V, R, RO, FB, FL, FR>(rop, bo, lo, ro), wjf::<K, V, R, RO, FB, FL, FR>(rop, bo, lo, ro), kd(a, d, i), kd(b, d, i), d + 1) by { assert(rn(s, okf::<K, V, R, RO, FB, FL, FR>(rop, bo, lo, ro), wt::<K, V, R, FR>(ro), m)); }
    }
}
