more snode::transform : C12
  pre rl_s::<K, V, ReduceT, Op>(op, *this);
  ensures rl(stred(res), mtloc::<K, V, ReduceT, Op>(op), wt::<K, V, ReduceT, Op>(op), LNodeNext::S(*this))
more lnode::transform : C12
  ensures rl(ltred(res), okt::<K, V, ReduceT, ReduceOp, Op>(reduce_op, op), wt::<K, V, ReduceT, Op>(op), LNodeNext::L(*this))
more lnode::transform_impl : C12
  pre rl_step::<K, V, ReduceT>(*this, okt::<K, V, ReduceT, ReduceOp, Op>(reduce_op, op), wt::<K, V, ReduceT, Op>(op));
  ensures rl(ltred(res), okt::<K, V, ReduceT, ReduceOp, Op>(reduce_op, op), wt::<K, V, ReduceT, Op>(op), LNodeNext::L(*this))
more lnode::transform_result : C12
  ensures radd(ltred(res), mtred(result), ltred(next), rs::<ReduceT, ReduceOp>(reduce_op))
def R okt::<K, V, ReduceT, ReduceOp, Op>(reduce_op, op), wt::<K, V, ReduceT, Op>(op)
def RR rs::<ReduceT, ReduceOp>(reduce_op)
more mnode::MNode::transform : C12
  pre rl_n::<H, F, K, V, M, ReduceT>(*self, $R);
  ensures rn(tred(res), $R, *self)
more cnode::transform : C12
  pre rp_fin::<H, F, K, V, M, ReduceT, ReduceOp>(*this, reduce_op, $R);
  ensures[C12,C13] rn(tred(res), $R, MNode::C(*this))
more cnode::transform_impl : C12
  pre rp_fin::<H, F, K, V, M, ReduceT, ReduceOp>(*this, reduce_op, $R);
  loop 0
    inv rp(reduced, $R, *this, range.start as nat, vp_i0 as nat)
    begin rp_step::<H, F, K, V, M, ReduceT, ReduceOp>(*this, (vp_i0 - 1) as nat, reduce_op, $R);
  ensures[C12,C13] rp(res.4, $R, *this, range.start as nat, range.end as nat)
more hash_trie::HashTrie::transform : C12
  ensures[C12,C13] rn(res.1, $R, self.root)
more map::HashTrieMap::transform : C12
  ensures[C12,C13] rn(res.1, $R, self.set.root)
def RU okm::<K, V, S, X, ReduceT, ReduceOp, Op>(reduce_op, op), wu::<K, V, S, X, ReduceT, Op>(op)
more snode::transmute : C12
  pre rl_su::<K, V, S, X, ReduceT, Op>(op, *this);
  ensures rl(sured(res), muloc::<K, V, S, X, ReduceT, Op>(op), wu::<K, V, S, X, ReduceT, Op>(op), LNodeNext::S(*this))
more lnode::transmute : C12
  ensures rl(lured(res), $RU, LNodeNext::L(*this))
more lnode::transmute_impl : C12
  pre rl_step::<K, V, ReduceT>(*this, $RU);
  ensures rl(lured(res), $RU, LNodeNext::L(*this))
more lnode::transmute_result : C12
  ensures radd(lured(res), mured(result), lured(next), $RR)
more mnode::MNode::transmute : C12
  pre rl_n::<H, F, K, V, M, ReduceT>(*self, $RU);
  ensures rn(ured(res), $RU, *self)
more cnode::transmute : C12
  pre rp_fin::<H, F, K, V, M, ReduceT, ReduceOp>(*this, reduce_op, $RU);
  loop 0
    inv rp(reduced, $RU, *this, 0, vp_i0 as nat)
    begin rp_step::<H, F, K, V, M, ReduceT, ReduceOp>(*this, (vp_i0 - 1) as nat, reduce_op, $RU);
  ensures rn(ured(res), $RU, MNode::C(*this))
more hash_trie::HashTrie::transmute : C12
  ensures rn(res.1, $RU, self.root)
more map::HashTrieMap::transmute : C12
  ensures rn(res.1, $RU, self.set.root)
