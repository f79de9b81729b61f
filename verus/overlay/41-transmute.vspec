fn results::MNodeTransmuteResult::from<LNodeTransmuteResult> (other) : C08
  spec { res == from_lu(other) }
fn results::MNodeTransmuteResult::from<SNodeTransmuteResult> (other) : C08
  spec { res == from_lu::<H, F, K, V, M, ReduceT>(from_su(other)) }
fn results::LNodeTransmuteResult::from<SNodeTransmuteResult> (other) : C08
  spec { res == from_su(other) }
fn results::SNodeTransmuteResult::from<MapTransmuteResult> (other) : C08
  spec { su_of(other, res) }
fn results::LNodeTransmuteResult::from<MapTransmuteResult> (other) : C08,C11
  spec { exists|s: SNodeTransmuteResult<K, V, ReduceT>| #[trigger] su_of(other, s) && res == from_su(s) }
  post assert(su_of(other, to_su(res))); assert(res == from_su(to_su(res)));
fn results::MNodeTransmuteResult::from<MapTransmuteResult> (other) : C08,C11
  spec { exists|s: SNodeTransmuteResult<K, V, ReduceT>| #[trigger] su_of(other, s) && res == from_lu::<H, F, K, V, M, ReduceT>(from_su(s)) }
  post assert(su_of(other, to_su(to_lu(res)))); assert(res == from_lu::<H, F, K, V, M, ReduceT>(from_su(to_su(to_lu(res)))));
fn transformations::MapTransmute::call (self, k, v) : C08
  requires muok::<K, V, S, X, ReduceT, F>(*self)
  ensures res == mu::<K, V, S, X, ReduceT, F>(*self, *k, *v)
fn snode::transmute (this, op) : C08
  requires muok::<K, V, S, X, ReduceT, Op>(op), mukey::<K, V, S, X, ReduceT, Op>(op)
  pre assert(nfind(LNodeNext::S(*this), kid(this.key)) == Some((this.key, this.value)));
  ensures ludone(from_su(res), LNodeNext::S(*this), op)
fn lnode::transmute (this, reduce_op, op) : C08
  requires muok::<K, V, S, X, ReduceT, Op>(op), mukey::<K, V, S, X, ReduceT, Op>(op), pure2::<ReduceT, ReduceT, ReduceT, ReduceOp>(reduce_op), lwf(**this)
  ensures ludone(res, LNodeNext::L(*this), op)
fn lnode::transmute_impl (this, reduce_op, op) : C08
  requires muok::<K, V, S, X, ReduceT, Op>(op), mukey::<K, V, S, X, ReduceT, Op>(op), op is Generic, pure2::<ReduceT, ReduceT, ReduceT, ReduceOp>(reduce_op), lwf(**this)
  pre lall(*this); lu_step::<K, V, S, X, ReduceT, Op>(*this, op);
  ensures ludone(res, LNodeNext::L(*this), op)
fn lnode::transmute_result (result, next, reduce_op) : C08
  requires pure2::<ReduceT, ReduceT, ReduceT, ReduceOp>(reduce_op), fits(result, lunode(next))
  requires exists|g: spec_fn(int) -> Ent<S, X>, n: nat| #[trigger] olreal(lunode(next), n, g) && n < usize::MAX
  post lall_u(res);
  ensures forall|g: spec_fn(int) -> Ent<S, X>, n: nat| #[trigger] olreal(lunode(next), n, g) && n < usize::MAX ==> olreal(lunode(res), n + 1, ontou(g, result))
fn mnode::MNode::transmute (self, reduce_op, op) : C08
  requires muok::<K, V, S, X, ReduceT, Op>(op), mukey::<K, V, S, X, ReduceT, Op>(op), pure2::<ReduceT, ReduceT, ReduceT, ReduceOp>(reduce_op), wfx(*self)
  pre lu_from::<H, F, K, V, M, S, X, ReduceT, Op>(*self, op);
  ensures udone(res, *self, op)
fn cnode::transmute (this, reduce_op, op) : C08
  requires muok::<K, V, S, X, ReduceT, Op>(op), mukey::<K, V, S, X, ReduceT, Op>(op), pure2::<ReduceT, ReduceT, ReduceT, ReduceOp>(reduce_op), wfx(MNode::C(*this))
  pre u_fin::<H, F, K, V, M, S, X, ReduceT, Op>(*this, op); acc_new(dflt::<F>(), Seq::<MNode<H, F, S, X, M>>::empty(), 0, up(op, *this));
  loop 0
    inv vp_e0 == wd(), vp_i0 <= vp_e0, wfx(MNode::C(*this)), op is Generic, muok::<K, V, S, X, ReduceT, Op>(op), mukey::<K, V, S, X, ReduceT, Op>(op), pure2::<ReduceT, ReduceT, ReduceT, ReduceOp>(reduce_op)
    inv upart(size, bits_t, values_t@, *this, op, 0, vp_i0 as nat)
    begin u_child::<H, F, K, V, M, S, X, ReduceT, Op>(*this, (vp_i0 - 1) as nat, op); acc_step(bits_t, values_t@, 0, (vp_i0 - 1) as nat, up(op, *this)); rsum_step(*this, (vp_i0 - 1) as nat);
  ensures udone(res, MNode::C(*this), op)
fn hash_trie::HashTrie::transmute (self, reduce_op, op) : C08
  requires muok::<K, V, S, X, ReduceT, Op>(op), mukey::<K, V, S, X, ReduceT, Op>(op), pure2::<ReduceT, ReduceT, ReduceT, ReduceOp>(reduce_op), twf(*self)
  post assert forall|x: int| #[trigger] tl(res.0, x) == ux::<K, V, S, X, ReduceT, Op>(op, tl(*self, x)) by { assert(tl(res.0, x) == gu::<H, F, K, V, M, S, X, ReduceT, Op>(op, self.root, 0)(x)); }
  ensures forall|x: int| #[trigger] tl(res.0, x) == ux::<K, V, S, X, ReduceT, Op>(op, tl(*self, x))
  ensures[C04,C08] twf(res.0), sz(res.0.root) <= sz(self.root)
fn map::HashTrieMap::transmute (self, reduce_op, op) : C08
  requires muok::<K, V, S, X, ReduceT, Op>(op), mukey::<K, V, S, X, ReduceT, Op>(op), pure2::<ReduceT, ReduceT, ReduceT, ReduceOp>(reduce_op), twf(self.set)
  ensures forall|x: int| #[trigger] tl(res.0.set, x) == ux::<K, V, S, X, ReduceT, Op>(op, tl(self.set, x))
  ensures[C04,C08] twf(res.0.set), sz(res.0.set.root) <= sz(self.set.root)
