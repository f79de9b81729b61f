// ---- the same operation seen from the other side (C12) ----
pub broadcast proof fn jw_flip_u<H: Hashword, F: Flagword<H>, K: Key, V: Value, L: Key, W: Value, S, X, M, R, RO, FB, FP, FL, FR>(r: R, rop: RO, op: MapTransmute<R, FB>, po: MapTransmute<R, FP>, lo: MapTransmute<R, FL>, ro: MapTransmute<R, FR>, a: Option<MNode<H, F, K, V, M>>, b: Option<MNode<H, F, L, W, M>>, d: nat)
    requires #[trigger] uflip::<K, V, L, W, S, X, R, FB, FP>(op, po), op is Generic ==> po is Generic,
        #[trigger] jw(r, oku::<L, W, K, V, S, X, R, RO, FP, FR, FL>(rop, po, ro, lo), wju::<L, W, K, V, S, X, R, RO, FP, FR, FL>(rop, po, ro, lo), b, a, d)
    ensures jw(r, oku::<K, V, L, W, S, X, R, RO, FB, FL, FR>(rop, op, lo, ro), wju::<K, V, L, W, S, X, R, RO, FB, FL, FR>(rop, op, lo, ro), a, b, d)
{
    if oku::<K, V, L, W, S, X, R, RO, FB, FL, FR>(rop, op, lo, ro) {
        assert forall|k: L, v: W, l: K, w: V, x: int| kid(k) == kid(l) && x != kid(k) implies #[trigger] rc(mured(mu4::<L, W, K, V, S, X, R, FP>(po, k, v, l, w)), x) == 0 by {
            assert(mu4::<L, W, K, V, S, X, R, FP>(po, k, v, l, w) == mu4::<K, V, L, W, S, X, R, FB>(op, l, w, k, v));
        }
        assert forall|x: int| #[trigger] rc(r, x) == wju::<K, V, L, W, S, X, R, RO, FB, FL, FR>(rop, op, lo, ro)(olook(a, d, x), olook(b, d, x), x) by {
            if let Some(e) = olook(a, d, x) { if let Some(f) = olook(b, d, x) { assert(mu4::<L, W, K, V, S, X, R, FP>(po, f.0, f.1, e.0, e.1) == mu4::<K, V, L, W, S, X, R, FB>(op, e.0, e.1, f.0, f.1)); } }
        }
    }
}
pub broadcast proof fn jw_flip_tm<H: Hashword, F: Flagword<H>, K: Key, V: Value, L: Key, W: Value, M, R, RO, FB, FP, FL, FR>(r: R, rop: RO, op: MapTransform<R, FB>, po: MapTransform<R, FP>, lo: MapTransform<R, FL>, ro: MapTransmute<R, FR>, a: Option<MNode<H, F, K, V, M>>, b: Option<MNode<H, F, L, W, M>>, d: nat)
    requires #[trigger] tflip::<K, V, L, W, V, R, FB, FP>(op, po), op is Generic ==> po is Generic,
        #[trigger] jw(r, okmt::<L, W, K, V, R, RO, FP, FR, FL>(rop, po, ro, lo), wjmt::<L, W, K, V, R, RO, FP, FR, FL>(rop, po, ro, lo), b, a, d)
    ensures jw(r, oktm::<K, V, L, W, R, RO, FB, FL, FR>(rop, op, lo, ro), wjtm::<K, V, L, W, R, RO, FB, FL, FR>(rop, op, lo, ro), a, b, d)
{
    if oktm::<K, V, L, W, R, RO, FB, FL, FR>(rop, op, lo, ro) {
        assert forall|k: L, v: W, l: K, w: V, x: int| kid(k) == kid(l) && x != kid(k) implies #[trigger] rc(mtred(mt4::<L, W, K, V, V, R, FP>(po, k, v, l, w)), x) == 0 by {
            assert(mt4::<L, W, K, V, V, R, FP>(po, k, v, l, w) == mt4::<K, V, L, W, V, R, FB>(op, l, w, k, v));
        }
        assert forall|x: int| #[trigger] rc(r, x) == wjtm::<K, V, L, W, R, RO, FB, FL, FR>(rop, op, lo, ro)(olook(a, d, x), olook(b, d, x), x) by {
            if let Some(e) = olook(a, d, x) { if let Some(f) = olook(b, d, x) { assert(mt4::<L, W, K, V, V, R, FP>(po, f.0, f.1, e.0, e.1) == mt4::<K, V, L, W, V, R, FB>(op, e.0, e.1, f.0, f.1)); } }
        }
    }
}
pub broadcast proof fn jw_flip_mt<H: Hashword, F: Flagword<H>, K: Key, V: Value, L: Key, W: Value, M, R, RO, FB, FP, FL, FR>(r: R, rop: RO, op: MapTransform<R, FB>, po: MapTransform<R, FP>, lo: MapTransmute<R, FL>, ro: MapTransform<R, FR>, a: Option<MNode<H, F, K, V, M>>, b: Option<MNode<H, F, L, W, M>>, d: nat)
    requires #[trigger] tflip::<K, V, L, W, W, R, FB, FP>(op, po), op is Generic ==> po is Generic,
        #[trigger] jw(r, oktm::<L, W, K, V, R, RO, FP, FR, FL>(rop, po, ro, lo), wjtm::<L, W, K, V, R, RO, FP, FR, FL>(rop, po, ro, lo), b, a, d)
    ensures jw(r, okmt::<K, V, L, W, R, RO, FB, FL, FR>(rop, op, lo, ro), wjmt::<K, V, L, W, R, RO, FB, FL, FR>(rop, op, lo, ro), a, b, d)
{
    if okmt::<K, V, L, W, R, RO, FB, FL, FR>(rop, op, lo, ro) {
        assert forall|k: L, v: W, l: K, w: V, x: int| kid(k) == kid(l) && x != kid(k) implies #[trigger] rc(mtred(mt4::<L, W, K, V, W, R, FP>(po, k, v, l, w)), x) == 0 by {
            assert(mt4::<L, W, K, V, W, R, FP>(po, k, v, l, w) == mt4::<K, V, L, W, W, R, FB>(op, l, w, k, v));
        }
        assert forall|x: int| #[trigger] rc(r, x) == wjmt::<K, V, L, W, R, RO, FB, FL, FR>(rop, op, lo, ro)(olook(a, d, x), olook(b, d, x), x) by {
            if let Some(e) = olook(a, d, x) { if let Some(f) = olook(b, d, x) { assert(mt4::<L, W, K, V, W, R, FP>(po, f.0, f.1, e.0, e.1) == mt4::<K, V, L, W, W, R, FB>(op, e.0, e.1, f.0, f.1)); } }
        }
    }
}
pub broadcast proof fn jw_flip_f<H: Hashword, F: Flagword<H>, K: Key, V: Value, M, R, RO, FB, FL, FR>(r: R, rop: RO, op: MapJointTransform<R, FB>, lo: MapTransform<R, FL>, ro: MapTransform<R, FR>, a: Option<MNode<H, F, K, V, M>>, b: Option<MNode<H, F, K, V, M>>, d: nat)
    requires #[trigger] jw(r, okf::<K, V, R, RO, FB, FR, FL>(rop, opflip(op), ro, lo), wjf::<K, V, R, RO, FB, FR, FL>(rop, opflip(op), ro, lo), b, a, d)
    ensures jw(r, okf::<K, V, R, RO, FB, FL, FR>(rop, op, lo, ro), wjf::<K, V, R, RO, FB, FL, FR>(rop, op, lo, ro), a, b, d)
{
    let po = opflip(op);
    assert forall|k: K, v: V, l: K, w: V| mjred(#[trigger] mj::<K, V, R, FB>(po, k, v, l, w)) == mjred(mj::<K, V, R, FB>(op, l, w, k, v)) by {}
    if okf::<K, V, R, RO, FB, FL, FR>(rop, op, lo, ro) {
        assert forall|k: K, v: V, l: K, w: V, x: int| kid(k) == kid(l) && x != kid(k) implies #[trigger] rc(mjred(mj::<K, V, R, FB>(po, k, v, l, w)), x) == 0 by {
            assert(mjred(mj::<K, V, R, FB>(po, k, v, l, w)) == mjred(mj::<K, V, R, FB>(op, l, w, k, v)));
        }
        assert forall|x: int| #[trigger] rc(r, x) == wjf::<K, V, R, RO, FB, FL, FR>(rop, op, lo, ro)(olook(a, d, x), olook(b, d, x), x) by {
            if let Some(e) = olook(a, d, x) { if let Some(f) = olook(b, d, x) { assert(mjred(mj::<K, V, R, FB>(po, f.0, f.1, e.0, e.1)) == mjred(mj::<K, V, R, FB>(op, e.0, e.1, f.0, f.1))); } }
        }
    }
}
pub open spec fn ljred<K: Key, V: Value, R>(r: LNodeJointTransformResult<K, V, R>) -> R {
    match r { LNodeJointTransformResult::UnchangedLR(r) => r, LNodeJointTransformResult::UnchangedL(r) => r, LNodeJointTransformResult::UnchangedR(r) => r,
        LNodeJointTransformResult::L(_, r) => r, LNodeJointTransformResult::S(_, r) => r, LNodeJointTransformResult::Removed(r) => r }
}
pub open spec fn jred<H: Hashword, F: Flagword<H>, K: Key, V: Value, M, R>(r: MNodeJointTransformResult<H, F, K, V, M, R>) -> R {
    match r { MNodeJointTransformResult::UnchangedLR(r) => r, MNodeJointTransformResult::UnchangedL(r) => r, MNodeJointTransformResult::UnchangedR(r) => r,
        MNodeJointTransformResult::C(_, r) => r, MNodeJointTransformResult::L(_, r) => r, MNodeJointTransformResult::S(_, r) => r, MNodeJointTransformResult::Removed(r) => r }
}
pub broadcast proof fn jred_flip<H: Hashword, F: Flagword<H>, K: Key, V: Value, M, R>(r: MNodeJointTransformResult<H, F, K, V, M, R>)
    ensures #[trigger] jred(fjflip(r)) == jred(r) {}
