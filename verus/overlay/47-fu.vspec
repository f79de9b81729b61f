fn map::HashTrieMap::transform_with_transfuted (self, right, reduce_op, both_op, left_op, right_op, par_strat) : C10
  requires mt4ok::<K, V, K, W, V, ReduceT, BothOp>(both_op), mtok::<K, V, ReduceT, LeftOp>(left_op), fuok::<K, W, V, ReduceT, RightOp>(right_op), pure2::<ReduceT, ReduceT, ReduceT, ReduceOp>(reduce_op)
  requires twf(self.set), twf(right.set), sz(self.set.root) + sz(right.set.root) <= cap()
  closure 0 (p0: &K, p1: &W) -> (r: MapTransmuteResult<K, V, ReduceT>)
    creq true
    cens r == fur::<K, V, ReduceT>(*p0, fap2::<RightOp, K, W, SetTransmuteResult<V, ReduceT>>(g, *p0, *p1))
  ensures forall|x: int| #[trigger] tl(res.0.set, x) == jfux::<K, V, W, ReduceT, BothOp, LeftOp, RightOp>(both_op, left_op, right_op, tl(self.set, x), tl(right.set, x))
  ensures[C04,C10] twf(res.0.set), sz(res.0.set.root) <= sz(self.set.root) + sz(right.set.root)
fn map::HashTrieMap::transfute_with_transformed (self, right, reduce_op, both_op, left_op, right_op, par_strat) : C10
  requires mt4ok::<K, V, K, W, W, ReduceT, BothOp>(both_op), fuok::<K, V, W, ReduceT, LeftOp>(left_op), mtok::<K, W, ReduceT, RightOp>(right_op), pure2::<ReduceT, ReduceT, ReduceT, ReduceOp>(reduce_op)
  requires twf(self.set), twf(right.set), sz(self.set.root) + sz(right.set.root) <= cap()
  closure 0 (p0: &K, p1: &V) -> (r: MapTransmuteResult<K, W, ReduceT>)
    creq true
    cens r == fur::<K, W, ReduceT>(*p0, fap2::<LeftOp, K, V, SetTransmuteResult<W, ReduceT>>(g, *p0, *p1))
  ensures forall|x: int| #[trigger] tl(res.0.set, x) == jufx::<K, V, W, ReduceT, BothOp, LeftOp, RightOp>(both_op, left_op, right_op, tl(self.set, x), tl(right.set, x))
  ensures[C04,C10] twf(res.0.set), sz(res.0.set.root) <= sz(self.set.root) + sz(right.set.root)
