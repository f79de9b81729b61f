fn results::MNodeTransformResult::from<LNodeTransformResult> (other) : C07
  spec { res == from_lt(other) }
fn results::MNodeTransformResult::from<SNodeTransformResult> (other) : C07
  spec { res == from_lt::<H, F, K, V, M, ReduceT>(from_st(other)) }
fn results::LNodeTransformResult::from<SNodeTransformResult> (other) : C07
  spec { res == from_st(other) }
fn transformations::MapTransform::call (self, k, v) : C07
  requires mtok::<K, V, ReduceT, F>(*self)
  ensures res == mt(*self, *k, *v)
fn snode::transform (this, op) : C07
  requires mtok::<K, V, ReduceT, Op>(op)
  pre assert(nfind(LNodeNext::S(*this), kid(this.key)) == Some((this.key, this.value)));
  ensures ltdone(from_st(res), LNodeNext::S(*this), op)
fn lnode::transform (this, reduce_op, op) : C07
  requires mtok::<K, V, ReduceT, Op>(op), pure2::<ReduceT, ReduceT, ReduceT, ReduceOp>(reduce_op), lwf(**this)
  ensures ltdone(res, LNodeNext::L(*this), op)
fn lnode::transform_impl (this, reduce_op, op) : C07
  requires mtok::<K, V, ReduceT, Op>(op), op is Generic, pure2::<ReduceT, ReduceT, ReduceT, ReduceOp>(reduce_op), lwf(**this)
  pre lall(*this); lt_step(*this, op);
  ensures ltdone(res, LNodeNext::L(*this), op)
fn lnode::transform_result (this, result, next, reduce_op) : C07
  requires pure2::<ReduceT, ReduceT, ReduceT, ReduceOp>(reduce_op), lwf(**this)
  requires pfit(lnode_of(next, this.next), kid(this.key)) || (exists|g: spec_fn(int) -> Ent<K, V>| #[trigger] ltout(next, this.next, g) && (forall|x: int| (#[trigger] g(x)) is Some ==> nfind(this.next, x) is Some))
  pre lall(*this);
  post lall_r(res);
  ensures forall|g: spec_fn(int) -> Ent<K, V>| #[trigger] ltout(next, this.next, g) && (forall|x: int| (#[trigger] g(x)) is Some ==> nfind(this.next, x) is Some) ==> ltout(res, LNodeNext::L(*this), onto(g, kid(this.key), mtr(this.key, this.value, result)))
  ensures res is Unchanged <==> (result is Unchanged && next is Unchanged)
  ensures[C09,C10] pfit(lnode_of(next, this.next), kid(this.key)) ==> lputs(lnode_of(res, LNodeNext::L(*this)), lnode_of(next, this.next), kid(this.key), mtr(this.key, this.value, result))
fn mnode::MNode::transform (self, reduce_op, op, par_strat) : C07
  requires mtok::<K, V, ReduceT, Op>(op), pure2::<ReduceT, ReduceT, ReduceT, ReduceOp>(reduce_op), wfx(*self)
  pre lt_from(*self, op);
  ensures tdone(res, *self, op)
  ensures[C07,C17] tkept(res, *self, op)
fn cnode::transform (this, reduce_op, op, par_strat) : C07,C13
  requires mtok::<K, V, ReduceT, Op>(op), pure2::<ReduceT, ReduceT, ReduceT, ReduceOp>(reduce_op), wfx(MNode::C(*this))
  pre t_fin(*this, op); t_join(*this, op, wd() / 2);
  ensures tdone(res, MNode::C(*this), op)
  ensures[C07,C17] tkept(res, MNode::C(*this), op)
fn cnode::transform_impl (this, reduce_op, op, range, par_strat) : C07,C13
  requires mtok::<K, V, ReduceT, Op>(op), op is Generic, pure2::<ReduceT, ReduceT, ReduceT, ReduceOp>(reduce_op), wfx(MNode::C(*this)), range.start <= range.end <= wd()
  pre acc_new(dflt::<F>(), Seq::<MNode<H, F, K, V, M>>::empty(), range.start as nat, tp(op, *this));
  loop 0
    inv vp_e0 == range.end, range.start <= vp_i0 <= vp_e0 <= wd(), wfx(MNode::C(*this)), op is Generic, mtok::<K, V, ReduceT, Op>(op), pure2::<ReduceT, ReduceT, ReduceT, ReduceOp>(reduce_op)
    inv tpart(size, bits_t, values_t@, unchanged, *this, op, range.start as nat, vp_i0 as nat)
    begin t_child(*this, (vp_i0 - 1) as nat, op); acc_step(bits_t, values_t@, range.start as nat, (vp_i0 - 1) as nat, tp(op, *this)); rsum_step(*this, (vp_i0 - 1) as nat);
  ensures tpart(res.0, res.1, res.2@, res.3, *this, op, range.start as nat, range.end as nat)
fn hash_trie::HashTrie::transform (self, reduce_op, op, par_strat) : C07,C13
  requires mtok::<K, V, ReduceT, Op>(op), pure2::<ReduceT, ReduceT, ReduceT, ReduceOp>(reduce_op), twf(*self)
  post assert forall|x: int| #[trigger] tl(res.0, x) == tx(op, tl(*self, x)) by { assert(tl(res.0, x) == gt(op, self.root, 0)(x)); }
      if op is Generic && tsame(*self, op) { assert(keeps(op, self.root, 0)) by { assert forall|x: int| stays(op, #[trigger] look(self.root, 0, x)) by { assert(stays(op, tl(*self, x))); } } }
  ensures ttx(*self, res.0, op)
  ensures[C04,C07] twf(res.0), sz(res.0.root) <= sz(self.root)
  ensures[C07,C17] op is Generic && tsame(*self, op) ==> res.0 == *self
fn map::HashTrieMap::transform (self, reduce_op, op, par_strat) : C07,C13
  requires mtok::<K, V, ReduceT, Op>(op), pure2::<ReduceT, ReduceT, ReduceT, ReduceOp>(reduce_op), twf(self.set)
  ensures ttx(self.set, res.0.set, op)
  ensures[C04,C07] twf(res.0.set), sz(res.0.set.root) <= sz(self.set.root)
  ensures[C07,C17] op is Generic && tsame(self.set, op) ==> res.0.set == self.set
