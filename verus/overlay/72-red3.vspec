def RS rs::<ReduceT, ReduceOp>(reduce_op)
more set::HashTrieSet::transform : C12,C13
  ensures rn(res.1, oks::<K, ReduceT, ReduceOp, Op>(reduce_op, op), wst::<K, ReduceT, Op>(op), self.set.root)
more set::HashTrieSet::transmute : C12
  ensures rn(res.1, okv::<K, S, ReduceT, ReduceOp, Op>(reduce_op, op), wsu::<K, S, ReduceT, Op>(op), self.set.root)
more set::HashTrieSet::transform_with_transformed : C12,C13
  ensures jw(res.1, $RS && sjloc::<K, ReduceT, BothOp>(both_op) && stloc::<K, ReduceT, LeftOp>(left_op) && stloc::<K, ReduceT, RightOp>(right_op), w2(wsj::<K, ReduceT, BothOp>(both_op), wst::<K, ReduceT, LeftOp>(left_op), wst::<K, ReduceT, RightOp>(right_op)), Some(self.set.root), Some(right.set.root), 0)
more set::HashTrieSet::transform_with_transmuted : C12,C13
  ensures jw(res.1, $RS && st2loc::<K, L, ReduceT, BothOp>(both_op) && stloc::<K, ReduceT, LeftOp>(left_op) && suloc::<L, K, ReduceT, RightOp>(right_op), w2(wst2::<K, L, ReduceT, BothOp>(both_op), wst::<K, ReduceT, LeftOp>(left_op), wsu::<L, K, ReduceT, RightOp>(right_op)), Some(self.set.root), Some(right.set.root), 0)
more set::HashTrieSet::transmute_with_transformed : C12,C13
  ensures jw(res.1, $RS && st2loc::<K, L, ReduceT, BothOp>(both_op) && suloc::<K, L, ReduceT, LeftOp>(left_op) && stloc::<L, ReduceT, RightOp>(right_op), w2(wst2::<K, L, ReduceT, BothOp>(both_op), wsu::<K, L, ReduceT, LeftOp>(left_op), wst::<L, ReduceT, RightOp>(right_op)), Some(self.set.root), Some(right.set.root), 0)
more set::HashTrieSet::transmute_with_transmuted : C12
  ensures jw(res.1, $RS && su2loc::<K, L, S, ReduceT, BothOp>(both_op) && suloc::<K, S, ReduceT, LeftOp>(left_op) && suloc::<L, S, ReduceT, RightOp>(right_op), w2(wsu2::<K, L, S, ReduceT, BothOp>(both_op), wsu::<K, S, ReduceT, LeftOp>(left_op), wsu::<L, S, ReduceT, RightOp>(right_op)), Some(self.set.root), Some(right.set.root), 0)
more map::HashTrieMap::transform_with_transfuted : C12,C13
  ensures jw(res.1, $RS && mt4loc::<K, V, K, W, V, ReduceT, BothOp>(both_op) && mtloc::<K, V, ReduceT, LeftOp>(left_op) && fuloc::<K, W, V, ReduceT, RightOp>(right_op), w2(w4t::<K, V, K, W, V, ReduceT, BothOp>(both_op), wt::<K, V, ReduceT, LeftOp>(left_op), wfu::<K, W, V, ReduceT, RightOp>(right_op)), Some(self.set.root), Some(right.set.root), 0)
more map::HashTrieMap::transfute_with_transformed : C12,C13
  ensures jw(res.1, $RS && mt4loc::<K, V, K, W, W, ReduceT, BothOp>(both_op) && fuloc::<K, V, W, ReduceT, LeftOp>(left_op) && mtloc::<K, W, ReduceT, RightOp>(right_op), w2(w4t::<K, V, K, W, W, ReduceT, BothOp>(both_op), wfu::<K, V, W, ReduceT, LeftOp>(left_op), wt::<K, W, ReduceT, RightOp>(right_op)), Some(self.set.root), Some(right.set.root), 0)
