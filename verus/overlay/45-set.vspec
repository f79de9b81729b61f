fn results::MapTransformResult::from<SetTransformResult> (other) : C18
  spec { res == smr::<V, ReduceT>(other) }
fn results::MapJointTransformResult::from<SetJointTransformResult> (other) : C18
  spec { res == sjr::<V, ReduceT>(other) }
fn results::SetJointTransformResult::flip (self) : C18
  ensures res == sjflip(self)
fn transformations::SetJointTransform::flip (self) : C18
  ensures res == sopflip(*self)
fn transformations::SetJointTransform::call (self, k, l) : C18
  requires sjok::<K, ReduceT, F>(*self)
  ensures res == sj::<K, ReduceT, F>(*self, *k, *l)
fn transformations::SetTransform::call (self, k) : C18
  requires stok::<K, ReduceT, F>(*self)
  ensures res == st::<K, ReduceT, F>(*self, *k)
fn transformations::SetTransform::call_transmute (self, k, l) : C18
  requires st2ok::<K, L, ReduceT, F>(*self)
  ensures res == st2::<K, L, ReduceT, F>(*self, *k, *l)
fn transformations::SetTransmute::call (self, k) : C18
  requires suok::<K, S, ReduceT, F>(*self)
  ensures res == su::<K, S, ReduceT, F>(*self, *k)
fn transformations::SetTransmute::call_transmute (self, k, l) : C18
  requires su2ok::<K, L, S, ReduceT, F>(*self)
  ensures res == su2::<K, L, S, ReduceT, F>(*self, *k, *l)
fn set::HashTrieSet::transform (self, reduce_op, op, par_strat) : C18
  requires stok::<K, ReduceT, Op>(op), pure2::<ReduceT, ReduceT, ReduceT, ReduceOp>(reduce_op), twf(self.set)
  closure 0 (p0: &K, p1: &()) -> (r: MapTransformResult<(), ReduceT>)
    creq true
    cens r == smr::<(), ReduceT>(fap1::<Op, K, SetTransformResult<ReduceT>>(f, *p0))
  ensures forall|x: int| #[trigger] tl(res.0.set, x) == stx::<K, ReduceT, Op>(op, tl(self.set, x))
  ensures[C18,C04] twf(res.0.set), sz(res.0.set.root) <= sz(self.set.root)
fn set::HashTrieSet::transmute (self, reduce_op, op) : C18
  requires suok::<K, S, ReduceT, Op>(op), pure2::<ReduceT, ReduceT, ReduceT, ReduceOp>(reduce_op), twf(self.set)
  closure 0 (p0: &K, p1: &()) -> (r: MapTransmuteResult<S, (), ReduceT>)
    creq true
    cens r == sur::<S, ReduceT>(fap1::<Op, K, SetTransmuteResult<S, ReduceT>>(f, *p0))
  ensures forall|x: int| #[trigger] tl(res.0.set, x) == sux::<K, S, ReduceT, Op>(op, tl(self.set, x))
  ensures[C18,C04] twf(res.0.set), sz(res.0.set.root) <= sz(self.set.root)
fn set::HashTrieSet::transform_with_transformed (self, right, reduce_op, both_op, left_op, right_op, par_strat) : C18
  requires sjok::<K, ReduceT, BothOp>(both_op), stok::<K, ReduceT, LeftOp>(left_op), stok::<K, ReduceT, RightOp>(right_op), pure2::<ReduceT, ReduceT, ReduceT, ReduceOp>(reduce_op), twf(self.set), twf(right.set), sz(self.set.root) + sz(right.set.root) <= cap()
  closure 0 (p0: &K, p1: &(), p2: &K, p3: &()) -> (r: MapJointTransformResult<(), ReduceT>)
    creq true
    cens r == sjr::<(), ReduceT>(fap2::<BothOp, K, K, SetJointTransformResult<ReduceT>>(g, *p0, *p2))
  closure 1 (p0: &K, p1: &()) -> (r: MapTransformResult<(), ReduceT>)
    creq true
    cens r == smr::<(), ReduceT>(fap1::<LeftOp, K, SetTransformResult<ReduceT>>(f, *p0))
  closure 2 (p0: &K, p1: &()) -> (r: MapTransformResult<(), ReduceT>)
    creq true
    cens r == smr::<(), ReduceT>(fap1::<RightOp, K, SetTransformResult<ReduceT>>(f, *p0))
  ensures forall|x: int| sffx::<K, ReduceT, BothOp, LeftOp, RightOp>(both_op, left_op, right_op, tl(self.set, x), tl(right.set, x), #[trigger] tl(res.0.set, x))
  ensures[C18,C04] twf(res.0.set), sz(res.0.set.root) <= sz(self.set.root) + sz(right.set.root)
fn set::HashTrieSet::transform_with_transmuted (self, right, reduce_op, both_op, left_op, right_op, par_strat) : C18
  requires st2ok::<K, L, ReduceT, BothOp>(both_op), stok::<K, ReduceT, LeftOp>(left_op), suok::<L, K, ReduceT, RightOp>(right_op), pure2::<ReduceT, ReduceT, ReduceT, ReduceOp>(reduce_op), twf(self.set), twf(right.set), sz(self.set.root) + sz(right.set.root) <= cap()
  closure 0 (p0: &K, p1: &(), p2: &L, p3: &()) -> (r: MapTransformResult<(), ReduceT>)
    creq true
    cens r == smr::<(), ReduceT>(st2::<K, L, ReduceT, BothOp>(both_op, *p0, *p2))
  closure 1 (p0: &K, p1: &()) -> (r: MapTransformResult<(), ReduceT>)
    creq true
    cens r == smr::<(), ReduceT>(fap1::<LeftOp, K, SetTransformResult<ReduceT>>(f, *p0))
  closure 2 (p0: &L, p1: &()) -> (r: MapTransmuteResult<K, (), ReduceT>)
    creq true
    cens r == sur::<K, ReduceT>(fap1::<RightOp, L, SetTransmuteResult<K, ReduceT>>(f, *p0))
  ensures forall|x: int| #[trigger] tl(res.0.set, x) == sfmx::<K, L, ReduceT, BothOp, LeftOp, RightOp>(both_op, left_op, right_op, tl(self.set, x), tl(right.set, x))
  ensures[C18,C04] twf(res.0.set), sz(res.0.set.root) <= sz(self.set.root) + sz(right.set.root)
fn set::HashTrieSet::transmute_with_transformed (self, right, reduce_op, both_op, left_op, right_op, par_strat) : C18
  requires st2ok::<K, L, ReduceT, BothOp>(both_op), suok::<K, L, ReduceT, LeftOp>(left_op), stok::<L, ReduceT, RightOp>(right_op), pure2::<ReduceT, ReduceT, ReduceT, ReduceOp>(reduce_op), twf(self.set), twf(right.set), sz(self.set.root) + sz(right.set.root) <= cap()
  closure 0 (p0: &K, p1: &(), p2: &L, p3: &()) -> (r: MapTransformResult<(), ReduceT>)
    creq true
    cens r == smr::<(), ReduceT>(st2::<K, L, ReduceT, BothOp>(both_op, *p0, *p2))
  closure 1 (p0: &K, p1: &()) -> (r: MapTransmuteResult<L, (), ReduceT>)
    creq true
    cens r == sur::<L, ReduceT>(fap1::<LeftOp, K, SetTransmuteResult<L, ReduceT>>(f, *p0))
  closure 2 (p0: &L, p1: &()) -> (r: MapTransformResult<(), ReduceT>)
    creq true
    cens r == smr::<(), ReduceT>(fap1::<RightOp, L, SetTransformResult<ReduceT>>(f, *p0))
  ensures forall|x: int| #[trigger] tl(res.0.set, x) == smfx::<K, L, ReduceT, BothOp, LeftOp, RightOp>(both_op, left_op, right_op, tl(self.set, x), tl(right.set, x))
  ensures[C18,C04] twf(res.0.set), sz(res.0.set.root) <= sz(self.set.root) + sz(right.set.root)
fn set::HashTrieSet::transmute_with_transmuted (self, right, reduce_op, both_op, left_op, right_op) : C18
  requires su2ok::<K, L, S, ReduceT, BothOp>(both_op), suok::<K, S, ReduceT, LeftOp>(left_op), suok::<L, S, ReduceT, RightOp>(right_op), pure2::<ReduceT, ReduceT, ReduceT, ReduceOp>(reduce_op), twf(self.set), twf(right.set), sz(self.set.root) + sz(right.set.root) <= cap()
  closure 0 (p0: &K, p1: &(), p2: &L, p3: &()) -> (r: MapTransmuteResult<S, (), ReduceT>)
    creq true
    cens r == sur::<S, ReduceT>(su2::<K, L, S, ReduceT, BothOp>(both_op, *p0, *p2))
  closure 1 (p0: &K, p1: &()) -> (r: MapTransmuteResult<S, (), ReduceT>)
    creq true
    cens r == sur::<S, ReduceT>(fap1::<LeftOp, K, SetTransmuteResult<S, ReduceT>>(f, *p0))
  closure 2 (p0: &L, p1: &()) -> (r: MapTransmuteResult<S, (), ReduceT>)
    creq true
    cens r == sur::<S, ReduceT>(fap1::<RightOp, L, SetTransmuteResult<S, ReduceT>>(f, *p0))
  ensures forall|x: int| #[trigger] tl(res.0.set, x) == smmx::<K, L, S, ReduceT, BothOp, LeftOp, RightOp>(both_op, left_op, right_op, tl(self.set, x), tl(right.set, x))
  ensures[C18,C04] twf(res.0.set), sz(res.0.set.root) <= sz(self.set.root) + sz(right.set.root)
fn transformations::SetTransform::flip_transmute (self) : C18
  requires st2ok::<K, L, ReduceT, F>(*self)
  closure 0 (p0: &L, p1: &K) -> (r: SetTransformResult<ReduceT>)
    creq true
    cens r == fap2::<F, K, L, SetTransformResult<ReduceT>>(g, *p1, *p0)
  ensures st2ok::<L, K, ReduceT, _>(res)
  ensures forall|l: L, k: K| #[trigger] st2::<L, K, ReduceT, _>(res, l, k) == st2::<K, L, ReduceT, F>(*self, k, l)
fn transformations::SetTransmute::flip (self) : C18
  requires su2ok::<K, L, S, ReduceT, F>(*self)
  closure 0 (p0: &L, p1: &K) -> (r: SetTransmuteResult<S, ReduceT>)
    creq true
    cens r == fap2::<F, K, L, SetTransmuteResult<S, ReduceT>>(g, *p1, *p0)
  ensures su2ok::<L, K, S, ReduceT, _>(res)
  ensures forall|l: L, k: K| #[trigger] su2::<L, K, S, ReduceT, _>(res, l, k) == su2::<K, L, S, ReduceT, F>(*self, k, l)
fn enums::ParallelismStrategy::default_par () : C14
  ensures true
fn enums::ParallelismStrategy::default () : C14
  ensures true
