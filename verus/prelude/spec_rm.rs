// ---- reductions of set operations and of the transfute operations (C12): the weights of set calls ----
pub open spec fn stloc<K: Key, R, F>(op: SetTransform<R, F>) -> bool {
    op is Generic && forall|k: K, x: int| x != kid(k) ==> #[trigger] rc(mtred(smr::<(), R>(fap1::<F, K, SetTransformResult<R>>(op->Generic_0, k))), x) == 0
}
pub open spec fn wst<K: Key, R, F>(op: SetTransform<R, F>) -> spec_fn(Ent<K, ()>, int) -> int {
    |e: Ent<K, ()>, x: int| match e { Some(a) => rc(mtred(smr::<(), R>(fap1::<F, K, SetTransformResult<R>>(op->Generic_0, a.0))), x), None => 0 }
}
pub open spec fn suloc<K: Key, S, R, F>(op: SetTransmute<R, F>) -> bool {
    op is Generic && forall|k: K, x: int| x != kid(k) ==> #[trigger] rc(mured(sur::<S, R>(fap1::<F, K, SetTransmuteResult<S, R>>(op->Generic_0, k))), x) == 0
}
pub open spec fn wsu<K: Key, S, R, F>(op: SetTransmute<R, F>) -> spec_fn(Ent<K, ()>, int) -> int {
    |e: Ent<K, ()>, x: int| match e { Some(a) => rc(mured(sur::<S, R>(fap1::<F, K, SetTransmuteResult<S, R>>(op->Generic_0, a.0))), x), None => 0 }
}
pub open spec fn st2loc<K: Key, L: Key, R, F>(op: SetTransform<R, F>) -> bool {
    op is Generic && forall|k: K, l: L, x: int| kid(k) == kid(l) && x != kid(k) ==> #[trigger] rc(mtred(smr::<(), R>(st2::<K, L, R, F>(op, k, l))), x) == 0
}
pub open spec fn wst2<K: Key, L: Key, R, F>(op: SetTransform<R, F>) -> spec_fn(K, (), L, (), int) -> int {
    |k: K, v: (), l: L, w: (), x: int| rc(mtred(smr::<(), R>(st2::<K, L, R, F>(op, k, l))), x)
}
pub open spec fn su2loc<K: Key, L: Key, S, R, F>(op: SetTransmute<R, F>) -> bool {
    op is Generic && forall|k: K, l: L, x: int| kid(k) == kid(l) && x != kid(k) ==> #[trigger] rc(mured(sur::<S, R>(su2::<K, L, S, R, F>(op, k, l))), x) == 0
}
pub open spec fn wsu2<K: Key, L: Key, S, R, F>(op: SetTransmute<R, F>) -> spec_fn(K, (), L, (), int) -> int {
    |k: K, v: (), l: L, w: (), x: int| rc(mured(sur::<S, R>(su2::<K, L, S, R, F>(op, k, l))), x)
}
pub open spec fn sjloc<K: Key, R, F>(op: SetJointTransform<R, F>) -> bool {
    op is Generic && forall|k: K, l: K, x: int| kid(k) == kid(l) && x != kid(k) ==> #[trigger] rc(mjred(sjr::<(), R>(fap2::<F, K, K, SetJointTransformResult<R>>(op->Generic_0, k, l))), x) == 0
}
pub open spec fn wsj<K: Key, R, F>(op: SetJointTransform<R, F>) -> spec_fn(K, (), K, (), int) -> int {
    |k: K, v: (), l: K, w: (), x: int| rc(mjred(sjr::<(), R>(if op->Generic_1 { fap2::<F, K, K, SetJointTransformResult<R>>(op->Generic_0, l, k) } else { fap2::<F, K, K, SetJointTransformResult<R>>(op->Generic_0, k, l) })), x)
}
/// the transfute operation's call on an entry with the key k
pub open spec fn fuloc<K: Key, W, V, R, F>(op: SetTransmute<R, F>) -> bool {
    op is Generic && forall|k: K, w: W, x: int| x != kid(k) ==> #[trigger] rc(mured(fur::<K, V, R>(k, fap2::<F, K, W, SetTransmuteResult<V, R>>(op->Generic_0, k, w))), x) == 0
}
pub open spec fn wfu<K: Key, W, V, R, F>(op: SetTransmute<R, F>) -> spec_fn(Ent<K, W>, int) -> int {
    |e: Ent<K, W>, x: int| match e { Some(a) => rc(mured(fur::<K, V, R>(a.0, fap2::<F, K, W, SetTransmuteResult<V, R>>(op->Generic_0, a.0, a.1))), x), None => 0 }
}
pub open spec fn oks<K: Key, R, RO, F>(rop: RO, op: SetTransform<R, F>) -> bool { rs::<R, RO>(rop) && stloc::<K, R, F>(op) }
pub open spec fn okv<K: Key, S, R, RO, F>(rop: RO, op: SetTransmute<R, F>) -> bool { rs::<R, RO>(rop) && suloc::<K, S, R, F>(op) }
pub broadcast proof fn mjred_flip<V, R>(r: MapJointTransformResult<V, R>)
    ensures #[trigger] mjred(mjflip(r)) == mjred(r) {}
