
// ---- sets ----
pub uninterp spec fn fap1<F, A, R>(f: F, a: A) -> R;
pub open spec fn pure1<A, R, F: Fn(&A) -> R>(f: F) -> bool {
    (forall|a: &A| #[trigger] f.requires((a,))) && (forall|a: &A, r: R| #[trigger] f.ensures((a,), r) ==> r == fap1::<F, A, R>(f, *a))
}
/// a closure that may be called has an outcome (fap2 names it)
pub axiom fn ax_call2<A, B, R, F: Fn(&A, &B) -> R>(f: F)
    ensures forall|a: A, b: B| f.requires((&a, &b)) ==> f.ensures((&a, &b), #[trigger] fap2::<F, A, B, R>(f, a, b));
/// the closure itself, with the outcome of its calls named
pub fn vp_c2<A, B, R, F: Fn(&A, &B) -> R>(f: F) -> (g: F)
    ensures g == f, forall|a: A, b: B| f.requires((&a, &b)) ==> f.ensures((&a, &b), #[trigger] fap2::<F, A, B, R>(f, a, b))
{ proof { ax_call2::<A, B, R, F>(f); } f }
pub fn vp_c4<A, B, C, D, R, F: Fn(&A, &B, &C, &D) -> R>(f: F) -> (g: F)
    ensures g == f, forall|a: A, b: B, c: C, d: D| f.requires((&a, &b, &c, &d)) ==> f.ensures((&a, &b, &c, &d), #[trigger] fap4::<F, A, B, C, D, R>(f, a, b, c, d))
{ proof { ax_call4::<A, B, C, D, R, F>(f); } f }

pub open spec fn st<K, R, F>(op: SetTransform<R, F>, k: K) -> SetTransformResult<R> {
    match op { SetTransform::Generic(f) => fap1(f, k), SetTransform::Unchanged(r) => SetTransformResult::Unchanged(r), SetTransform::Removed(r) => SetTransformResult::Removed(r) }
}
pub open spec fn st2<K, L, R, F>(op: SetTransform<R, F>, k: K, l: L) -> SetTransformResult<R> {
    match op { SetTransform::Generic(f) => fap2(f, k, l), SetTransform::Unchanged(r) => SetTransformResult::Unchanged(r), SetTransform::Removed(r) => SetTransformResult::Removed(r) }
}
pub open spec fn su<K, S, R, F>(op: SetTransmute<R, F>, k: K) -> SetTransmuteResult<S, R> {
    match op { SetTransmute::Generic(f) => fap1(f, k), SetTransmute::Removed(r) => SetTransmuteResult::Removed(r) }
}
pub open spec fn su2<K, L, S, R, F>(op: SetTransmute<R, F>, k: K, l: L) -> SetTransmuteResult<S, R> {
    match op { SetTransmute::Generic(f) => fap2(f, k, l), SetTransmute::Removed(r) => SetTransmuteResult::Removed(r) }
}
pub open spec fn sjflip<R>(r: SetJointTransformResult<R>) -> SetJointTransformResult<R> {
    match r { SetJointTransformResult::UnchangedL(r) => SetJointTransformResult::UnchangedR(r), SetJointTransformResult::UnchangedR(r) => SetJointTransformResult::UnchangedL(r), _ => r }
}
pub open spec fn sopflip<R, F>(op: SetJointTransform<R, F>) -> SetJointTransform<R, F> {
    match op { SetJointTransform::Generic(f, z) => SetJointTransform::Generic(f, !z), SetJointTransform::UnchangedL(r) => SetJointTransform::UnchangedR(r), SetJointTransform::UnchangedR(r) => SetJointTransform::UnchangedL(r), _ => op }
}
pub open spec fn sj<K, R, F>(op: SetJointTransform<R, F>, k: K, l: K) -> SetJointTransformResult<R> {
    match op { SetJointTransform::Generic(f, z) => if z { sjflip(fap2::<F, K, K, SetJointTransformResult<R>>(f, l, k)) } else { fap2::<F, K, K, SetJointTransformResult<R>>(f, k, l) },
        SetJointTransform::UnchangedLR(r) => SetJointTransformResult::UnchangedLR(r), SetJointTransform::UnchangedL(r) => SetJointTransformResult::UnchangedL(r), SetJointTransform::UnchangedR(r) => SetJointTransformResult::UnchangedR(r),
        SetJointTransform::Removed(r) => SetJointTransformResult::Removed(r) }
}
pub open spec fn stok<K, R, F: Fn(&K) -> SetTransformResult<R>>(op: SetTransform<R, F>) -> bool { op is Generic ==> pure1::<K, SetTransformResult<R>, F>(op->Generic_0) }
pub open spec fn st2ok<K, L, R, F: Fn(&K, &L) -> SetTransformResult<R>>(op: SetTransform<R, F>) -> bool { op is Generic ==> pure2::<K, L, SetTransformResult<R>, F>(op->Generic_0) }
pub open spec fn sjok<K, R, F: Fn(&K, &K) -> SetJointTransformResult<R>>(op: SetJointTransform<R, F>) -> bool { op is Generic ==> pure2::<K, K, SetJointTransformResult<R>, F>(op->Generic_0) }
/// the operation keeps the identity of keys
pub open spec fn suok<K, S, R, F: Fn(&K) -> SetTransmuteResult<S, R>>(op: SetTransmute<R, F>) -> bool {
    op is Generic ==> pure1::<K, SetTransmuteResult<S, R>, F>(op->Generic_0) && forall|k: K| match #[trigger] fap1::<F, K, SetTransmuteResult<S, R>>(op->Generic_0, k) { SetTransmuteResult::Transmuted(s, _) => kid(s) == kid(k), _ => true }
}
pub open spec fn su2ok<K, L, S, R, F: Fn(&K, &L) -> SetTransmuteResult<S, R>>(op: SetTransmute<R, F>) -> bool {
    op is Generic ==> pure2::<K, L, SetTransmuteResult<S, R>, F>(op->Generic_0) && forall|k: K, l: L| kid(k) == kid(l) ==> match #[trigger] fap2::<F, K, L, SetTransmuteResult<S, R>>(op->Generic_0, k, l) { SetTransmuteResult::Transmuted(s, _) => kid(s) == kid(k), _ => true }
}
pub open spec fn smr<V, R>(r: SetTransformResult<R>) -> MapTransformResult<V, R> {
    match r { SetTransformResult::Unchanged(r) => MapTransformResult::Unchanged(r), SetTransformResult::Removed(r) => MapTransformResult::Removed(r) }
}
pub open spec fn sjr<V, R>(r: SetJointTransformResult<R>) -> MapJointTransformResult<V, R> {
    match r { SetJointTransformResult::UnchangedLR(r) => MapJointTransformResult::UnchangedLR(r), SetJointTransformResult::UnchangedL(r) => MapJointTransformResult::UnchangedL(r),
        SetJointTransformResult::UnchangedR(r) => MapJointTransformResult::UnchangedR(r), SetJointTransformResult::Removed(r) => MapJointTransformResult::Removed(r) }
}
pub open spec fn sur<S, R>(r: SetTransmuteResult<S, R>) -> MapTransmuteResult<S, (), R> {
    match r { SetTransmuteResult::Transmuted(s, r) => MapTransmuteResult::Transmuted(s, (), r), SetTransmuteResult::Removed(r) => MapTransmuteResult::Removed(r) }
}
/// what a set holds afterwards of the class of one key
pub open spec fn skeep<K, R>(a: (K, ()), r: SetTransformResult<R>) -> Ent<K, ()> { match r { SetTransformResult::Unchanged(_) => Some(a), SetTransformResult::Removed(_) => None } }
pub open spec fn sput<S, R>(r: SetTransmuteResult<S, R>) -> Ent<S, ()> { match r { SetTransmuteResult::Transmuted(s, _) => Some((s, ())), SetTransmuteResult::Removed(_) => None } }
pub open spec fn stx<K, R, F>(op: SetTransform<R, F>, e: Ent<K, ()>) -> Ent<K, ()> { match e { Some(a) => skeep(a, st(op, a.0)), None => None } }
pub open spec fn sux<K, S, R, F>(op: SetTransmute<R, F>, e: Ent<K, ()>) -> Ent<S, ()> { match e { Some(a) => sput(su::<K, S, R, F>(op, a.0)), None => None } }
pub open spec fn sffx<K, R, FB, FL, FR>(bo: SetJointTransform<R, FB>, lo: SetTransform<R, FL>, ro: SetTransform<R, FR>, e: Ent<K, ()>, f: Ent<K, ()>, r: Ent<K, ()>) -> bool {
    match e {
        Some(a) => match f {
            Some(b) => match sj(bo, a.0, b.0) { SetJointTransformResult::UnchangedLR(_) => r == Some(a) || r == Some(b), SetJointTransformResult::UnchangedL(_) => r == Some(a), SetJointTransformResult::UnchangedR(_) => r == Some(b), SetJointTransformResult::Removed(_) => r is None },
            None => r == stx(lo, e) },
        None => r == stx(ro, f),
    }
}
pub open spec fn sfmx<K, L, R, FB, FL, FR>(bo: SetTransform<R, FB>, lo: SetTransform<R, FL>, ro: SetTransmute<R, FR>, e: Ent<K, ()>, f: Ent<L, ()>) -> Ent<K, ()> {
    match e { Some(a) => match f { Some(b) => skeep(a, st2(bo, a.0, b.0)), None => stx(lo, e) }, None => sux::<L, K, R, FR>(ro, f) }
}
pub open spec fn smfx<K, L, R, FB, FL, FR>(bo: SetTransform<R, FB>, lo: SetTransmute<R, FL>, ro: SetTransform<R, FR>, e: Ent<K, ()>, f: Ent<L, ()>) -> Ent<L, ()> {
    match f { Some(b) => match e { Some(a) => skeep(b, st2(bo, a.0, b.0)), None => stx(ro, f) }, None => sux::<K, L, R, FL>(lo, e) }
}
pub open spec fn smmx<K, L, S, R, FB, FL, FR>(bo: SetTransmute<R, FB>, lo: SetTransmute<R, FL>, ro: SetTransmute<R, FR>, e: Ent<K, ()>, f: Ent<L, ()>) -> Ent<S, ()> {
    match e { Some(a) => match f { Some(b) => sput(su2::<K, L, S, R, FB>(bo, a.0, b.0)), None => sux::<K, S, R, FL>(lo, e) }, None => sux::<L, S, R, FR>(ro, f) }
}
// ---- transfuted: the key stays, the value is converted ----
pub open spec fn fuok<K, W, V, R, F: Fn(&K, &W) -> SetTransmuteResult<V, R>>(op: SetTransmute<R, F>) -> bool { op is Generic ==> pure2::<K, W, SetTransmuteResult<V, R>, F>(op->Generic_0) }
pub open spec fn fur<K, V, R>(k: K, r: SetTransmuteResult<V, R>) -> MapTransmuteResult<K, V, R> {
    match r { SetTransmuteResult::Transmuted(v, r) => MapTransmuteResult::Transmuted(k, v, r), SetTransmuteResult::Removed(r) => MapTransmuteResult::Removed(r) }
}
pub open spec fn fux<K, W, V, R, F>(op: SetTransmute<R, F>, e: Ent<K, W>) -> Ent<K, V> {
    match e { Some(b) => match su2::<K, W, V, R, F>(op, b.0, b.1) { SetTransmuteResult::Transmuted(v, _) => Some((b.0, v)), SetTransmuteResult::Removed(_) => None }, None => None }
}
pub open spec fn jfux<K, V, W, R, FB, FL, FR>(bo: MapTransform<R, FB>, lo: MapTransform<R, FL>, ro: SetTransmute<R, FR>, e: Ent<K, V>, f: Ent<K, W>) -> Ent<K, V> {
    match e { Some(a) => match f { Some(b) => mtr(a.0, a.1, mt4::<K, V, K, W, V, R, FB>(bo, a.0, a.1, b.0, b.1)), None => tx(lo, e) }, None => fux::<K, W, V, R, FR>(ro, f) }
}
pub open spec fn jufx<K, V, W, R, FB, FL, FR>(bo: MapTransform<R, FB>, lo: SetTransmute<R, FL>, ro: MapTransform<R, FR>, e: Ent<K, V>, f: Ent<K, W>) -> Ent<K, W> {
    match f { Some(b) => match e { Some(a) => mtr(b.0, b.1, mt4::<K, V, K, W, W, R, FB>(bo, a.0, a.1, b.0, b.1)), None => tx(ro, f) }, None => fux::<K, V, W, R, FL>(lo, e) }
}
