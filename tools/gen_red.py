#!/usr/bin/env python3
"""Writes verus/prelude/spec_rk.rs: the lemmas of spec_rj.rs, once for each family of two-map operations."""
import os
T = '''
pub open spec fn ok@X<@GD>(rop: RO, bo: @BT, lo: @LT, ro: @RT) -> bool { rs::<R, RO>(rop) && @BLOC && @LLOC && @RLOC }
pub open spec fn wj@X<@GD>(rop: RO, bo: @BT, lo: @LT, ro: @RT) -> spec_fn(Ent<K, V>, Ent<@L, @W>, int) -> int { w2(@WB, @WL, @WR) }
pub proof fn rf_@X<@GD>(rop: RO, bo: @BT, lo: @LT, ro: @RT)
    ensures @OK ==> bo is Generic && lo is Generic && ro is Generic && rs::<R, RO>(rop) && @LLOC && @RLOC && @LOK && @ROK, wz(@WL), wz(@WR), @WW == w2(@WB, @WL, @WR) {}
pub proof fn rz_@X<@GD>(k: K, v: V, l: @L, u: @W, rop: RO, bo: @BT, lo: @LT, ro: @RT)
    ensures gseen(@LR(k, v))), gseen(@RR(l, u))), gseen(@BR(k, v, l, u))), kid(k) == kid(l) ==> jv(@BR(k, v, l, u)), @OK, @WW, k, v, l, u),
        kid(k) != kid(l) ==> jv(fap2::<RO, R, R, R>(rop, @LR(k, v)), @RR(l, u))), @OK, @WW, k, v, l, u) && jv(fap2::<RO, R, R, R>(rop, @RR(l, u)), @LR(k, v))), @OK, @WW, k, v, l, u)
{ rf_@X::<@GU>(rop, bo, lo, ro); let w = @WW;
    if kid(k) == kid(l) { assert forall|x: int| @OK implies #[trigger] rc(@BR(k, v, l, u)), x) == w(sx(k, v, x), sx(l, u, x), x) by { } }
    else { assert forall|x: int| @OK implies #[trigger] rc(@LR(k, v)), x) + rc(@RR(l, u)), x) == w(sx(k, v, x), sx(l, u, x), x) by { } }
}
pub proof fn ra_@X<@GD>(a: LNodeNext<K, V>, b: LNodeNext<@L, @W>, rop: RO, bo: @BT, lo: @LT, ro: @RT)
    ensures nwf(a) && nwf(b) && hid(nid(a)) != hid(nid(b)) ==> forall|r: R, s: R, p: bool, q: bool| #[trigger] rl(r, p, @WL, a) && #[trigger] rl(s, q, @WR, b) && (@OK ==> p && q)
        ==> jl(fap2::<RO, R, R, R>(rop, r, s), @OK, @WW, a, b) && jl(fap2::<RO, R, R, R>(rop, s, r), @OK, @WW, a, b)
{
    rf_@X::<@GU>(rop, bo, lo, ro);
    if nwf(a) && nwf(b) && hid(nid(a)) != hid(nid(b)) {
    assert forall|r: R, s: R, p: bool, q: bool| #[trigger] rl(r, p, @WL, a) && #[trigger] rl(s, q, @WR, b) && (@OK ==> p && q)
        implies jl(fap2::<RO, R, R, R>(rop, r, s), @OK, @WW, a, b) && jl(fap2::<RO, R, R, R>(rop, s, r), @OK, @WW, a, b) by {
        jl_apart::<K, V, @L, @W, R, RO>(a, b, rop, @OK, p, q, @WB, @WL, @WR);
    } }
}
pub proof fn rs_@X<@GD>(l: Arc<LNode<K, V>>, s: Arc<SNode<@L, @W>>, rop: RO, bo: @BT, lo: @LT, ro: @RT)
    requires lwf(*l)
    ensures ske(s) == s.key, sve(s) == s.value, gseen(@BR(le(l).0, le(l).1, ske(s), sve(s)))), le(l).0 == l.key, le(l).1 == l.value, gseen(@LR(le(l).0, le(l).1))), lid(l) == sid(s) ==> forall|r: R, b: R, p: bool, q: bool| #[trigger] radd(r, @BR(le(l).0, le(l).1, ske(s), sve(s))), b, p) && #[trigger] rl(b, q, @WL, ln(l)) && (@OK ==> p && q) ==> jl(r, @OK, @WW, LNodeNext::L(l), LNodeNext::S(s)),
        lid(l) != sid(s) ==> forall|r: R, b: R, p: bool| #[trigger] radd(r, @LR(le(l).0, le(l).1)), b, p) && #[trigger] jl(b, @OK, @WW, ln(l), LNodeNext::S(s)) && (@OK ==> p) ==> jl(r, @OK, @WW, LNodeNext::L(l), LNodeNext::S(s))
{
    rf_@X::<@GU>(rop, bo, lo, ro);
    jl_step::<K, V, @L, @W, R>(l, s, @OK, @OK, @WB, @WL, @WR);
    if lid(l) == sid(s) {
        let a = @BR(le(l).0, le(l).1, ske(s), sve(s)));
        assert(ii(a, @OK, @WW, le(l).0, le(l).1, Some((ske(s), sve(s)))));
        assert forall|r: R, b: R, p: bool, q: bool| #[trigger] radd(r, a, b, p) && #[trigger] rl(b, q, @WL, ln(l)) && (@OK ==> p && q) implies jl(r, @OK, @WW, LNodeNext::L(l), LNodeNext::S(s)) by {
            assert(radd(r, a, b, @OK)); assert(rl(b, @OK, @WL, l.next));
        }
    } else {
        let a = @LR(le(l).0, le(l).1));
        assert(ii(a, @OK, @WW, le(l).0, le(l).1, None::<(@L, @W)>));
        assert forall|r: R, b: R, p: bool| #[trigger] radd(r, a, b, p) && #[trigger] jl(b, @OK, @WW, ln(l), LNodeNext::S(s)) && (@OK ==> p) implies jl(r, @OK, @WW, LNodeNext::L(l), LNodeNext::S(s)) by {
            assert(radd(r, a, b, @OK));
        }
    }
}
pub proof fn ri_@X<@GD>(l: Arc<LNode<K, V>>, s: Seq<(&@L, &@W)>, rop: RO, bo: @BT, lo: @LT, ro: @RT)
    requires lwf(*l)
    ensures le(l).0 == l.key, le(l).1 == l.value, gseen(@LR(le(l).0, le(l).1))), forall|r: R, b: R, p: bool, u: @L, w: @W| #[trigger] radd(r, @BR(le(l).0, le(l).1, u, w)), b, p) && ji(b, @OK, @WW, ln(l), s) && rfind(s, lid(l)) == Some((u, w)) && (@OK ==> p) ==> ji(r, @OK, @WW, LNodeNext::L(l), s),
        rfind(s, lid(l)) is None ==> forall|r: R, b: R, p: bool| #[trigger] radd(r, @LR(le(l).0, le(l).1)), b, p) && ji(b, @OK, @WW, ln(l), s) && (@OK ==> p) ==> ji(r, @OK, @WW, LNodeNext::L(l), s),
        match ln(l) { LNodeNext::S(n) => ske(n) == n.key && sve(n) == n.value &&
            (forall|r: R, u: @L, w: @W| #[trigger] jv(r, @OK, @WW, ske(n), sve(n), u, w) && rfind(s, sid(n)) == Some((u, w)) ==> ji(r, @OK, @WW, ln(l), s))
            && (rfind(s, sid(n)) is None ==> forall|r: R, p: bool| #[trigger] rl(r, p, @WL, ln(l)) && (@OK ==> p) ==> ji(r, @OK, @WW, ln(l), s)), _ => true }
{
    rf_@X::<@GU>(rop, bo, lo, ro);
    ji_step::<K, V, @L, @W, R>(l, s, @OK, @WW); ji_s::<K, V, @L, @W, R>(ln(l), s, @OK, @OK, @WB, @WL, @WR);
    assert forall|r: R, b: R, p: bool, u: @L, w: @W| #[trigger] radd(r, @BR(le(l).0, le(l).1, u, w)), b, p) && ji(b, @OK, @WW, ln(l), s) && rfind(s, lid(l)) == Some((u, w)) && (@OK ==> p) implies ji(r, @OK, @WW, LNodeNext::L(l), s) by {
        if rfind(s, lid(l)) is Some { assert(kid(u) == kid(le(l).0)) by { rfind_kid(s, lid(l)); } }
        let a = @BR(le(l).0, le(l).1, u, w));
        assert(ii(a, @OK, @WW, le(l).0, le(l).1, Some((u, w)))); assert(radd(r, a, b, @OK));
    }
    assert forall|r: R, b: R, p: bool| #[trigger] radd(r, @LR(le(l).0, le(l).1)), b, p) && ji(b, @OK, @WW, ln(l), s) && (@OK ==> p) && rfind(s, lid(l)) is None implies ji(r, @OK, @WW, LNodeNext::L(l), s) by {
        let a = @LR(le(l).0, le(l).1));
        assert(ii(a, @OK, @WW, le(l).0, le(l).1, None::<(@L, @W)>)); assert(radd(r, a, b, @OK));
    }
    if let LNodeNext::S(n) = ln(l) {
        assert forall|r: R, p: bool| #[trigger] rl(r, p, @WL, ln(l)) && (@OK ==> p) && rfind(s, sid(n)) is None implies ji(r, @OK, @WW, ln(l), s) by { assert(rl(r, @OK, @WL, ln(l))); }
    }
}
pub proof fn rk_@X<@GD>(a: LNodeNext<K, V>, b: LNodeNext<@L, @W>, rop: RO, bo: @BT, lo: @LT, ro: @RT)
    ensures forall|s: Seq<(&@L, &@W)>, t: Seq<(&@L, &@W)>, r: R| #![trigger ji(r, @OK, @WW, a, s), t.take(0)] rall(s, b) && ji(r, @OK, @WW, a, s) ==> jk(r, @OK, @WW, a, b, t.take(0)),
        forall|t: Seq<(&@L, &@W)>, r: R| #[trigger] jk(r, @OK, @WW, a, b, t.take(t.len() as int)) && rleft(t, a, b) ==> jl(r, @OK, @WW, a, b)
{ rf_@X::<@GU>(rop, bo, lo, ro); jk_all::<K, V, @L, @W, R>(a, b, @OK, @WB, @WL, @WR); }
pub proof fn rt_@X<@GD>(a: LNodeNext<K, V>, b: LNodeNext<@L, @W>, t: Seq<(&@L, &@W)>, i: int, rop: RO, bo: @BT, lo: @LT, ro: @RT)
    requires rleft(t, a, b), 0 <= i < t.len()
    ensures gseen(@RR(*t[i].0, *t[i].1))), forall|r: R| jk(r, @OK, @WW, a, b, t.take(i)) ==> jk(#[trigger] fap2::<RO, R, R, R>(rop, r, @RR(*t[i].0, *t[i].1))), @OK, @WW, a, b, t.take(i + 1)),
        forall|r: R| jk(r, @OK, @WW, a, b, t.take(i)) ==> jk(#[trigger] fap2::<RO, R, R, R>(rop, @RR(*t[i].0, *t[i].1)), r), @OK, @WW, a, b, t.take(i + 1))
{
    rf_@X::<@GU>(rop, bo, lo, ro); jk_step::<K, V, @L, @W, R, RO>(a, b, t, i, rop, @OK, @WB, @WL, @WR);
    let q = @RR(*t[i].0, *t[i].1)); let wr = @WR;
    assert(@OK ==> forall|x: int| #[trigger] rc(q, x) == (if x == kid(*t[i].0) { wr(Some((*t[i].0, *t[i].1)), x) } else { 0 }));
}
pub proof fn rp_@X<H: Hashword, F: Flagword<H>, M, @GD>(a: MNode<H, F, K, V, M>, b: MNode<H, F, @L, @W, M>, d: nat, i: nat, rop: RO, bo: @BT, lo: @LT, ro: @RT)
    requires jpre(a, b, d), i < wd()
    ensures kd(a, d, i) is None && kd(b, d, i) is None ==> forall|r: R, j: nat| j <= i && #[trigger] jp(r, @OK, @WW, a, b, d, j, i) ==> jp(r, @OK, @WW, a, b, d, j, i + 1),
        forall|r: R, s: R, j: nat, e: nat| j <= i && #[trigger] jp(r, @OK, @WW, a, b, d, j, i) && #[trigger] jw(s, @OK, @WW, kd(a, d, i), kd(b, d, i), e) && e == d + 1
            ==> jp(fap2::<RO, R, R, R>(rop, r, s), @OK, @WW, a, b, d, j, i + 1) && jp(fap2::<RO, R, R, R>(rop, s, r), @OK, @WW, a, b, d, j, i + 1),
        kd(b, d, i) is None ==> forall|s: R, m: MNode<H, F, K, V, M>, p: bool| #[trigger] rn(s, p, @WL, m) && kd(a, d, i) == Some(m) && (@OK ==> p) ==> jw(s, @OK, @WW, kd(a, d, i), kd(b, d, i), d + 1),
        kd(a, d, i) is None ==> forall|s: R, m: MNode<H, F, @L, @W, M>, p: bool| #[trigger] rn(s, p, @WR, m) && kd(b, d, i) == Some(m) && (@OK ==> p) ==> jw(s, @OK, @WW, kd(a, d, i), kd(b, d, i), d + 1)
{
    rf_@X::<@GU>(rop, bo, lo, ro); jp_step::<H, F, K, V, @L, @W, M, R, RO>(a, b, d, i, rop, @OK, @OK, @OK, @WB, @WL, @WR);
    if kd(b, d, i) is None {
        assert forall|s: R, m: MNode<H, F, K, V, M>, p: bool| #[trigger] rn(s, p, @WL, m) && kd(a, d, i) == Some(m) && (@OK ==> p) implies jw(s, @OK, @WW, kd(a, d, i), kd(b, d, i), d + 1) by { assert(rn(s, @OK, @WL, m)); }
    }
    if kd(a, d, i) is None {
        assert forall|s: R, m: MNode<H, F, @L, @W, M>, p: bool| #[trigger] rn(s, p, @WR, m) && kd(b, d, i) == Some(m) && (@OK ==> p) implies jw(s, @OK, @WW, kd(a, d, i), kd(b, d, i), d + 1) by { assert(rn(s, @OK, @WR, m)); }
    }
}
'''
MT = ('MapTransform<R, %s>', 'mtred(mt::<%s, R, %s>(%s, ', 'mtloc::<%s, R, %s>(%s)', 'wt::<%s, R, %s>(%s)', 'okt::<%s, R, RO, %s>(rop, %s)')
MU = ('MapTransmute<R, %s>', 'mured(mu::<%s, R, %s>(%s, ', 'muloc::<%s, R, %s>(%s)', 'wu::<%s, R, %s>(%s)', 'okm::<%s, R, RO, %s>(rop, %s)')
def fam(x, gd, gu, l, w, bt, br, bloc, wb, left, lg, right, rg):
    t = T
    side = lambda m, g, f, o: [m[0] % f] + [s % (g, f, o) for s in m[1:]]
    ls, rs = side(left, lg, 'FL', 'lo'), side(right, rg, 'FR', 'ro')
    ok = 'ok@X::<@GU>(rop, bo, lo, ro)'; ww = 'wj@X::<@GU>(rop, bo, lo, ro)'
    for k, v in (('@BLOC', bloc), ('@LLOC', ls[2]), ('@RLOC', rs[2]), ('@LOK', ls[4]), ('@ROK', rs[4]), ('@OK', ok), ('@WW', ww), ('@WB', wb), ('@WL', ls[3]), ('@WR', rs[3]),
                 ('@BT', bt), ('@LT', ls[0]), ('@RT', rs[0]), ('@BR(', br), ('@LR(', ls[1]), ('@RR(', rs[1]), ('@GD', gd), ('@GU', gu), ('@X', x), ('@L', l), ('@W', w)):
        t = t.replace(k, v)
    return t
S = '// written by tools/gen_red.py\n'
A = 'K: Key, V: Value, L: Key, W: Value, %sR, RO, FB, FL, FR'
U = 'K, V, L, W, %sR, RO, FB, FL, FR'
S += fam('u', A % 'S, X, ', U % 'S, X, ', 'L', 'W', 'MapTransmute<R, FB>', 'mured(mu4::<K, V, L, W, S, X, R, FB>(bo, ', 'mu4loc::<K, V, L, W, S, X, R, FB>(bo)', 'w4u::<K, V, L, W, S, X, R, FB>(bo)', MU, 'K, V, S, X', MU, 'L, W, S, X')
for x, z, left, lg, right, rg in (('tm', 'V', MT, 'K, V', MU, 'L, W, K, V'), ('mt', 'W', MU, 'K, V, L, W', MT, 'L, W')):
    S += fam(x, A % '', U % '', 'L', 'W', 'MapTransform<R, FB>', 'mtred(mt4::<K, V, L, W, %s, R, FB>(bo, ' % z, 'mt4loc::<K, V, L, W, %s, R, FB>(bo)' % z, 'w4t::<K, V, L, W, %s, R, FB>(bo)' % z, left, lg, right, rg)
S += fam('f', 'K: Key, V: Value, R, RO, FB, FL, FR', 'K, V, R, RO, FB, FL, FR', 'K', 'V', 'MapJointTransform<R, FB>', 'mjred(mj::<K, V, R, FB>(bo, ', 'mjloc::<K, V, R, FB>(bo)', 'w4j::<K, V, R, FB>(bo)', MT, 'K, V', MT, 'K, V')
open(os.path.join(os.path.dirname(os.path.abspath(__file__)), '../verus/prelude/spec_rk.rs'), 'w').write(S)
