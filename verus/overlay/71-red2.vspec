more transformations::MapTransmute::flip : C12
  ensures *self is Generic ==> res is Generic
more transformations::MapTransform::flip_transform_transmute : C12
  ensures *self is Generic ==> res is Generic
more transformations::MapTransform::flip_transmute_transform : C12
  ensures *self is Generic ==> res is Generic
more lnode::transform_with_transformed_result : C12
  ensures radd(ltred(res), mtred(result), ltred(next), rs::<ReduceT, ReduceOp>(reduce_op))
more lnode::transform_with_transmuted_result : C12
  ensures radd(ltred(res), mtred(result), lured(next), rs::<ReduceT, ReduceOp>(reduce_op))
more lnode::transmute_with_transformed_result : C12
  ensures radd(ltred(res), mured(result), ltred(next), rs::<ReduceT, ReduceOp>(reduce_op))
more lnode::joint_transform_with_joint_transformed_result : C12
  ensures radd(ljred(res), mjred(result), ljred(next), rs::<ReduceT, ReduceOp>(reduce_op))
more lnode::joint_transform_with_transformed_result : C12
  ensures radd(ljred(res), mjred(result), ltred(next), rs::<ReduceT, ReduceOp>(reduce_op))
more lnode::transform_with_joint_transformed_result : C12
  ensures radd(ljred(res), mtred(result), ljred(next), rs::<ReduceT, ReduceOp>(reduce_op))
// family u
def UT K, V, L, W, S, X, ReduceT, ReduceOp, BothOp, LeftOp, RightOp
def O reduce_op, both_op, left_op, right_op
def OK oku::<$UT>($O)
def WW wju::<$UT>($O)
more snode::transmute_with_transmuted_values : C12
  hide jv, oku, wju
  pre rz_u::<$UT>(*this_key, *this_value, *right_key, *right_value, $O);
  ensures jv(lured(res), $OK, $WW, *this_key, *this_value, *right_key, *right_value)
more lnode::transmute_with_transmuted_snode_impl : C12
  hide jl, jv, rl, radd, oku, wju, okm, okt, rs
  pre rf_u::<$UT>($O); rs_u::<$UT>(*this, *right, $O); jv_of::<K, V, L, W, ReduceT>(ln(*this), *right, $OK, $WW);
  ensures jl(lured(res), $OK, $WW, LNodeNext::L(*this), LNodeNext::S(*right))
more lnode::transmute_with_transmuted_lnode_impl : C12
  hide ji, jv, rl, radd, oku, wju, okm, okt, rs
  pre rf_u::<$UT>($O); ri_u::<$UT>(*this, old(rights)@, $O);
  ensures ji(lured(res), $OK, $WW, LNodeNext::L(*this), old(rights)@)
more lnode::transmute_with_transmuted_lnode : C12
  hide ji, jk, jl, jw, rl, oku, wju, okm, okt, rs
  pre rf_u::<$UT>($O); rk_u::<$UT>(LNodeNext::L(*this), LNodeNext::L(*right), $O); jl_m::<H, F, K, V, L, W, M, ReduceT>(LNodeNext::L(*this), LNodeNext::L(*right), depth as nat, $OK, $WW); ra_u::<$UT>(LNodeNext::L(*this), LNodeNext::L(*right), $O);
  loop 1
    inv jk(lured(next), $OK, $WW, LNodeNext::L(*this), LNodeNext::L(*right), vp_s1@.take(vp_i1 as int))
    begin rt_u::<$UT>(LNodeNext::L(*this), LNodeNext::L(*right), vp_s1@, vp_i1 - 1, $O);
  ensures jw(ured(res), $OK, $WW, Some(MNode::<H, F, K, V, M>::L(*this)), Some(MNode::<H, F, L, W, M>::L(*right)), depth as nat)
more lnode::transmute_with_transmuted_snode : C12
  hide jl, jw, jv, rl, oku, wju, okm, okt, rs
  pre rf_u::<$UT>($O); jv_of::<K, V, L, W, ReduceT>(LNodeNext::L(*this), *right, $OK, $WW); jl_m::<H, F, K, V, L, W, M, ReduceT>(LNodeNext::L(*this), LNodeNext::S(*right), depth as nat, $OK, $WW); ra_u::<$UT>(LNodeNext::L(*this), LNodeNext::S(*right), $O);
  ensures jw(ured(res), $OK, $WW, Some(MNode::<H, F, K, V, M>::L(*this)), Some(MNode::<H, F, L, W, M>::S(*right)), depth as nat)
more snode::transmute_with_transmuted_snode : C12
  hide jl, jw, jv, rl, oku, wju, okm, okt, rs
  pre rf_u::<$UT>($O); jv_of::<K, V, L, W, ReduceT>(LNodeNext::S(*this), *right, $OK, $WW); jl_m::<H, F, K, V, L, W, M, ReduceT>(LNodeNext::S(*this), LNodeNext::S(*right), depth as nat, $OK, $WW); ra_u::<$UT>(LNodeNext::S(*this), LNodeNext::S(*right), $O);
  ensures jw(ured(res), $OK, $WW, Some(MNode::<H, F, K, V, M>::S(*this)), Some(MNode::<H, F, L, W, M>::S(*right)), depth as nat)
more cnode::transmute_with_transmuted_cnode : C12
  hide jp, jw, rn, rl, oku, wju, okm, okt, rs
  pre rf_u::<$UT>($O); jp_fin::<H, F, K, V, L, W, M, ReduceT, ReduceOp>(MNode::C(*this), MNode::C(*right), depth as nat, reduce_op, $OK, $WW);
  loop 0
    inv jp(reduced, $OK, $WW, MNode::C(*this), MNode::C(*right), depth as nat, 0, vp_i0 as nat)
    begin rf_u::<$UT>($O); rp_u::<H, F, M, $UT>(MNode::C(*this), MNode::C(*right), depth as nat, (vp_i0 - 1) as nat, $O);
  ensures jw(ured(res), $OK, $WW, Some(MNode::C(*this)), Some(MNode::C(*right)), depth as nat)
more cnode::transmute_with_transmuted_lnode : C12
  hide jp, jw, rn, rl, oku, wju, okm, okt, rs
  pre rf_u::<$UT>($O); jp_fin::<H, F, K, V, L, W, M, ReduceT, ReduceOp>(MNode::C(*this), MNode::<H, F, L, W, M>::L(*right), depth as nat, reduce_op, $OK, $WW); rl_n::<H, F, L, W, M, ReduceT>(MNode::<H, F, L, W, M>::L(*right), okm::<L, W, S, X, ReduceT, ReduceOp, RightOp>(reduce_op, right_op), wu::<L, W, S, X, ReduceT, RightOp>(right_op));
  loop 0
    inv jp(reduced, $OK, $WW, MNode::C(*this), MNode::<H, F, L, W, M>::L(*right), depth as nat, 0, vp_i0 as nat)
    begin rf_u::<$UT>($O); rp_u::<H, F, M, $UT>(MNode::C(*this), MNode::<H, F, L, W, M>::L(*right), depth as nat, (vp_i0 - 1) as nat, $O); rl_n::<H, F, L, W, M, ReduceT>(MNode::<H, F, L, W, M>::L(*right), okm::<L, W, S, X, ReduceT, ReduceOp, RightOp>(reduce_op, right_op), wu::<L, W, S, X, ReduceT, RightOp>(right_op));
  ensures jw(ured(res), $OK, $WW, Some(MNode::C(*this)), Some(MNode::<H, F, L, W, M>::L(*right)), depth as nat)
more cnode::transmute_with_transmuted_snode : C12
  hide jp, jw, rn, rl, oku, wju, okm, okt, rs
  pre rf_u::<$UT>($O); jp_fin::<H, F, K, V, L, W, M, ReduceT, ReduceOp>(MNode::C(*this), MNode::<H, F, L, W, M>::S(*right), depth as nat, reduce_op, $OK, $WW); rl_n::<H, F, L, W, M, ReduceT>(MNode::<H, F, L, W, M>::S(*right), muloc::<L, W, S, X, ReduceT, RightOp>(right_op), wu::<L, W, S, X, ReduceT, RightOp>(right_op));
  loop 0
    inv jp(reduced, $OK, $WW, MNode::C(*this), MNode::<H, F, L, W, M>::S(*right), depth as nat, 0, vp_i0 as nat)
    begin rf_u::<$UT>($O); rp_u::<H, F, M, $UT>(MNode::C(*this), MNode::<H, F, L, W, M>::S(*right), depth as nat, (vp_i0 - 1) as nat, $O); rl_n::<H, F, L, W, M, ReduceT>(MNode::<H, F, L, W, M>::S(*right), muloc::<L, W, S, X, ReduceT, RightOp>(right_op), wu::<L, W, S, X, ReduceT, RightOp>(right_op));
  ensures jw(ured(res), $OK, $WW, Some(MNode::C(*this)), Some(MNode::<H, F, L, W, M>::S(*right)), depth as nat)
more cnode::transmute_with_transmuted : C12
  hide jw, oku, wju
  ensures jw(ured(res), $OK, $WW, Some(MNode::C(*this)), Some(*right), depth as nat)
more lnode::transmute_with_transmuted : C12
  hide jw, oku, wju
  ensures jw(ured(res), $OK, $WW, Some(MNode::L(*this)), Some(*right), depth as nat)
more snode::transmute_with_transmuted : C12
  hide jw, oku, wju
  ensures jw(ured(res), $OK, $WW, Some(MNode::S(*this)), Some(*right), depth as nat)
more mnode::MNode::transmute_with_transmuted : C12
  hide jw, oku, wju
  ensures jw(ured(res), $OK, $WW, Some(*self), Some(*right), depth as nat)
more mnode::MNode::transmute_with_transmuted_lnode : C12
  hide jw, oku, wju
  ensures jw(ured(res), $OK, $WW, Some(*self), Some(MNode::<H, F, L, W, M>::L(*right)), depth as nat)
more mnode::MNode::transmute_with_transmuted_snode : C12
  hide jw, oku, wju
  ensures jw(ured(res), $OK, $WW, Some(*self), Some(MNode::<H, F, L, W, M>::S(*right)), depth as nat)
more hash_trie::HashTrie::transmute_with_transmuted : C12
  hide jw, oku, wju
  ensures jw(res.1, $OK, $WW, Some(self.root), Some(right.root), 0)
more map::HashTrieMap::transmute_with_transmuted : C12
  hide jw, oku, wju
  ensures jw(res.1, $OK, $WW, Some(self.set.root), Some(right.set.root), 0)
// family tm
def UT K, V, L, W, ReduceT, ReduceOp, BothOp, LeftOp, RightOp
def O reduce_op, both_op, left_op, right_op
def OK oktm::<$UT>($O)
def WW wjtm::<$UT>($O)
more snode::transform_with_transmuted_snode_impl : C12
  hide jv, oktm, wjtm
  pre rz_tm::<$UT>(ske(*this), sve(*this), *right_key, *right_value, $O);
  ensures jv(ltred(res), $OK, $WW, this.key, this.value, *right_key, *right_value)
more lnode::transform_with_transmuted_snode_impl : C12
  hide jl, jv, rl, radd, oktm, wjtm, okm, okt, rs
  pre rf_tm::<$UT>($O); rs_tm::<$UT>(*this, *right, $O); jv_of::<K, V, L, W, ReduceT>(ln(*this), *right, $OK, $WW);
  ensures jl(ltred(res), $OK, $WW, LNodeNext::L(*this), LNodeNext::S(*right))
more lnode::transform_with_transmuted_lnode_impl : C12
  hide ji, jv, rl, radd, oktm, wjtm, okm, okt, rs
  pre rf_tm::<$UT>($O); ri_tm::<$UT>(*this, old(rights)@, $O);
  ensures ji(ltred(res), $OK, $WW, LNodeNext::L(*this), old(rights)@)
more lnode::transform_with_transmuted_lnode : C12
  hide ji, jk, jl, jw, rl, oktm, wjtm, okm, okt, rs
  pre rf_tm::<$UT>($O); rk_tm::<$UT>(LNodeNext::L(*this), LNodeNext::L(*right), $O); jl_m::<H, F, K, V, L, W, M, ReduceT>(LNodeNext::L(*this), LNodeNext::L(*right), depth as nat, $OK, $WW); ra_tm::<$UT>(LNodeNext::L(*this), LNodeNext::L(*right), $O);
  loop 1
    inv jk(ltred(next), $OK, $WW, LNodeNext::L(*this), LNodeNext::L(*right), vp_s1@.take(vp_i1 as int))
    begin rt_tm::<$UT>(LNodeNext::L(*this), LNodeNext::L(*right), vp_s1@, vp_i1 - 1, $O);
  ensures jw(tred(res), $OK, $WW, Some(MNode::<H, F, K, V, M>::L(*this)), Some(MNode::<H, F, L, W, M>::L(*right)), depth as nat)
more lnode::transform_with_transmuted_snode : C12
  hide jl, jw, jv, rl, oktm, wjtm, okm, okt, rs
  pre rf_tm::<$UT>($O); jv_of::<K, V, L, W, ReduceT>(LNodeNext::L(*this), *right, $OK, $WW); jl_m::<H, F, K, V, L, W, M, ReduceT>(LNodeNext::L(*this), LNodeNext::S(*right), depth as nat, $OK, $WW); ra_tm::<$UT>(LNodeNext::L(*this), LNodeNext::S(*right), $O);
  ensures jw(tred(res), $OK, $WW, Some(MNode::<H, F, K, V, M>::L(*this)), Some(MNode::<H, F, L, W, M>::S(*right)), depth as nat)
more snode::transform_with_transmuted_snode : C12
  hide jl, jw, jv, rl, oktm, wjtm, okm, okt, rs
  pre rf_tm::<$UT>($O); jv_of::<K, V, L, W, ReduceT>(LNodeNext::S(*this), *right, $OK, $WW); jl_m::<H, F, K, V, L, W, M, ReduceT>(LNodeNext::S(*this), LNodeNext::S(*right), depth as nat, $OK, $WW); ra_tm::<$UT>(LNodeNext::S(*this), LNodeNext::S(*right), $O);
  ensures jw(tred(res), $OK, $WW, Some(MNode::<H, F, K, V, M>::S(*this)), Some(MNode::<H, F, L, W, M>::S(*right)), depth as nat)
more cnode::transform_with_transmuted_cnode : C12,C13
  hide jp, jw, rn, rl, oktm, wjtm, okm, okt, rs
  pre rf_tm::<$UT>($O); jp_fin::<H, F, K, V, L, W, M, ReduceT, ReduceOp>(MNode::C(*this), MNode::<H, F, L, W, M>::C(*right), depth as nat, reduce_op, $OK, $WW);
  loop 0
    inv jp(reduced, $OK, $WW, MNode::C(*this), MNode::<H, F, L, W, M>::C(*right), depth as nat, 0, vp_i0 as nat)
    begin rf_tm::<$UT>($O); rp_tm::<H, F, M, $UT>(MNode::C(*this), MNode::<H, F, L, W, M>::C(*right), depth as nat, (vp_i0 - 1) as nat, $O);
  ensures jw(tred(res), $OK, $WW, Some(MNode::C(*this)), Some(MNode::<H, F, L, W, M>::C(*right)), depth as nat)
more cnode::transform_with_transmuted_lnode : C12,C13
  hide jp, jw, rn, rl, oktm, wjtm, okm, okt, rs
  pre rf_tm::<$UT>($O); jp_fin::<H, F, K, V, L, W, M, ReduceT, ReduceOp>(MNode::C(*this), MNode::<H, F, L, W, M>::L(*right), depth as nat, reduce_op, $OK, $WW); rl_n::<H, F, L, W, M, ReduceT>(MNode::<H, F, L, W, M>::L(*right), okm::<L, W, K, V, ReduceT, ReduceOp, RightOp>(reduce_op, right_op), wu::<L, W, K, V, ReduceT, RightOp>(right_op));
  loop 0
    inv jp(reduced, $OK, $WW, MNode::C(*this), MNode::<H, F, L, W, M>::L(*right), depth as nat, 0, vp_i0 as nat)
    begin rf_tm::<$UT>($O); rp_tm::<H, F, M, $UT>(MNode::C(*this), MNode::<H, F, L, W, M>::L(*right), depth as nat, (vp_i0 - 1) as nat, $O); rl_n::<H, F, L, W, M, ReduceT>(MNode::<H, F, L, W, M>::L(*right), okm::<L, W, K, V, ReduceT, ReduceOp, RightOp>(reduce_op, right_op), wu::<L, W, K, V, ReduceT, RightOp>(right_op));
  ensures jw(tred(res), $OK, $WW, Some(MNode::C(*this)), Some(MNode::<H, F, L, W, M>::L(*right)), depth as nat)
more cnode::transform_with_transmuted_snode : C12,C13
  hide jp, jw, rn, rl, oktm, wjtm, okm, okt, rs
  pre rf_tm::<$UT>($O); jp_fin::<H, F, K, V, L, W, M, ReduceT, ReduceOp>(MNode::C(*this), MNode::<H, F, L, W, M>::S(*right), depth as nat, reduce_op, $OK, $WW); rl_n::<H, F, L, W, M, ReduceT>(MNode::<H, F, L, W, M>::S(*right), muloc::<L, W, K, V, ReduceT, RightOp>(right_op), wu::<L, W, K, V, ReduceT, RightOp>(right_op));
  loop 0
    inv jp(reduced, $OK, $WW, MNode::C(*this), MNode::<H, F, L, W, M>::S(*right), depth as nat, 0, vp_i0 as nat)
    begin rf_tm::<$UT>($O); rp_tm::<H, F, M, $UT>(MNode::C(*this), MNode::<H, F, L, W, M>::S(*right), depth as nat, (vp_i0 - 1) as nat, $O); rl_n::<H, F, L, W, M, ReduceT>(MNode::<H, F, L, W, M>::S(*right), muloc::<L, W, K, V, ReduceT, RightOp>(right_op), wu::<L, W, K, V, ReduceT, RightOp>(right_op));
  ensures jw(tred(res), $OK, $WW, Some(MNode::C(*this)), Some(MNode::<H, F, L, W, M>::S(*right)), depth as nat)
more cnode::transform_with_transmuted : C12,C13
  hide jw, oktm, wjtm
  ensures jw(tred(res), $OK, $WW, Some(MNode::C(*this)), Some(*right), depth as nat)
more lnode::transform_with_transmuted : C12,C13
  hide jw, oktm, wjtm
  ensures jw(tred(res), $OK, $WW, Some(MNode::L(*this)), Some(*right), depth as nat)
more snode::transform_with_transmuted : C12,C13
  hide jw, oktm, wjtm
  ensures jw(tred(res), $OK, $WW, Some(MNode::S(*this)), Some(*right), depth as nat)
more mnode::MNode::transform_with_transmuted : C12,C13
  hide jw, oktm, wjtm
  ensures jw(tred(res), $OK, $WW, Some(*self), Some(*right), depth as nat)
more mnode::MNode::transform_with_transmuted_lnode : C12,C13
  hide jw, oktm, wjtm
  ensures jw(tred(res), $OK, $WW, Some(*self), Some(MNode::<H, F, L, W, M>::L(*right)), depth as nat)
more mnode::MNode::transform_with_transmuted_snode : C12,C13
  hide jw, oktm, wjtm
  ensures jw(tred(res), $OK, $WW, Some(*self), Some(MNode::<H, F, L, W, M>::S(*right)), depth as nat)
more hash_trie::HashTrie::transform_with_transmuted : C12,C13
  hide jw, oktm, wjtm
  ensures jw(res.1, $OK, $WW, Some(self.root), Some(right.root), 0)
more map::HashTrieMap::transform_with_transmuted : C12,C13
  hide jw, oktm, wjtm
  ensures jw(res.1, $OK, $WW, Some(self.set.root), Some(right.set.root), 0)
// family mt
def UT K, V, L, W, ReduceT, ReduceOp, BothOp, LeftOp, RightOp
def O reduce_op, both_op, left_op, right_op
def OK okmt::<$UT>($O)
def WW wjmt::<$UT>($O)
more snode::transmute_with_transformed_snode_impl : C12
  hide jv, okmt, wjmt
  pre rz_mt::<$UT>(ske(*this), sve(*this), ske(*right), sve(*right), $O);
  ensures jv(ltred(res), $OK, $WW, this.key, this.value, right.key, right.value)
more lnode::transmute_with_transformed_snode_impl : C12
  hide jl, jv, rl, radd, okmt, wjmt, okm, okt, rs
  pre rf_mt::<$UT>($O); rs_mt::<$UT>(*this, *right, $O); jv_of::<K, V, L, W, ReduceT>(ln(*this), *right, $OK, $WW);
  ensures jl(ltred(res), $OK, $WW, LNodeNext::L(*this), LNodeNext::S(*right))
more lnode::transmute_with_transformed_snode : C12
  hide jl, jw, jv, rl, okmt, wjmt, okm, okt, rs
  pre rf_mt::<$UT>($O); jv_of::<K, V, L, W, ReduceT>(LNodeNext::L(*this), *right, $OK, $WW); jl_m::<H, F, K, V, L, W, M, ReduceT>(LNodeNext::L(*this), LNodeNext::S(*right), depth as nat, $OK, $WW); ra_mt::<$UT>(LNodeNext::L(*this), LNodeNext::S(*right), $O);
  ensures jw(tred(res), $OK, $WW, Some(MNode::<H, F, K, V, M>::L(*this)), Some(MNode::<H, F, L, W, M>::S(*right)), depth as nat)
more snode::transmute_with_transformed_snode : C12
  hide jl, jw, jv, rl, okmt, wjmt, okm, okt, rs
  pre rf_mt::<$UT>($O); jv_of::<K, V, L, W, ReduceT>(LNodeNext::S(*this), *right, $OK, $WW); jl_m::<H, F, K, V, L, W, M, ReduceT>(LNodeNext::S(*this), LNodeNext::S(*right), depth as nat, $OK, $WW); ra_mt::<$UT>(LNodeNext::S(*this), LNodeNext::S(*right), $O);
  ensures jw(tred(res), $OK, $WW, Some(MNode::<H, F, K, V, M>::S(*this)), Some(MNode::<H, F, L, W, M>::S(*right)), depth as nat)
more cnode::transmute_with_transformed_cnode : C12,C13
  hide jp, jw, rn, rl, okmt, wjmt, okm, okt, rs
  pre rf_mt::<$UT>($O); jp_fin::<H, F, K, V, L, W, M, ReduceT, ReduceOp>(MNode::C(*this), MNode::<H, F, L, W, M>::C(*right), depth as nat, reduce_op, $OK, $WW);
  loop 0
    inv jp(reduced, $OK, $WW, MNode::C(*this), MNode::<H, F, L, W, M>::C(*right), depth as nat, 0, vp_i0 as nat)
    begin rf_mt::<$UT>($O); rp_mt::<H, F, M, $UT>(MNode::C(*this), MNode::<H, F, L, W, M>::C(*right), depth as nat, (vp_i0 - 1) as nat, $O);
  ensures jw(tred(res), $OK, $WW, Some(MNode::C(*this)), Some(MNode::<H, F, L, W, M>::C(*right)), depth as nat)
more cnode::transmute_with_transformed_lnode : C12,C13
  hide jp, jw, rn, rl, okmt, wjmt, okm, okt, rs
  pre rf_mt::<$UT>($O); jp_fin::<H, F, K, V, L, W, M, ReduceT, ReduceOp>(MNode::C(*this), MNode::<H, F, L, W, M>::L(*right), depth as nat, reduce_op, $OK, $WW); rl_n::<H, F, L, W, M, ReduceT>(MNode::<H, F, L, W, M>::L(*right), okt::<L, W, ReduceT, ReduceOp, RightOp>(reduce_op, right_op), wt::<L, W, ReduceT, RightOp>(right_op));
  loop 0
    inv jp(reduced, $OK, $WW, MNode::C(*this), MNode::<H, F, L, W, M>::L(*right), depth as nat, 0, vp_i0 as nat)
    begin rf_mt::<$UT>($O); rp_mt::<H, F, M, $UT>(MNode::C(*this), MNode::<H, F, L, W, M>::L(*right), depth as nat, (vp_i0 - 1) as nat, $O); rl_n::<H, F, L, W, M, ReduceT>(MNode::<H, F, L, W, M>::L(*right), okt::<L, W, ReduceT, ReduceOp, RightOp>(reduce_op, right_op), wt::<L, W, ReduceT, RightOp>(right_op));
  ensures jw(tred(res), $OK, $WW, Some(MNode::C(*this)), Some(MNode::<H, F, L, W, M>::L(*right)), depth as nat)
more cnode::transmute_with_transformed_snode : C12,C13
  hide jp, jw, rn, rl, okmt, wjmt, okm, okt, rs
  pre rf_mt::<$UT>($O); jp_fin::<H, F, K, V, L, W, M, ReduceT, ReduceOp>(MNode::C(*this), MNode::<H, F, L, W, M>::S(*right), depth as nat, reduce_op, $OK, $WW); rl_n::<H, F, L, W, M, ReduceT>(MNode::<H, F, L, W, M>::S(*right), mtloc::<L, W, ReduceT, RightOp>(right_op), wt::<L, W, ReduceT, RightOp>(right_op));
  loop 0
    inv jp(reduced, $OK, $WW, MNode::C(*this), MNode::<H, F, L, W, M>::S(*right), depth as nat, 0, vp_i0 as nat)
    begin rf_mt::<$UT>($O); rp_mt::<H, F, M, $UT>(MNode::C(*this), MNode::<H, F, L, W, M>::S(*right), depth as nat, (vp_i0 - 1) as nat, $O); rl_n::<H, F, L, W, M, ReduceT>(MNode::<H, F, L, W, M>::S(*right), mtloc::<L, W, ReduceT, RightOp>(right_op), wt::<L, W, ReduceT, RightOp>(right_op));
  ensures jw(tred(res), $OK, $WW, Some(MNode::C(*this)), Some(MNode::<H, F, L, W, M>::S(*right)), depth as nat)
more cnode::transmute_with_transformed : C12,C13
  hide jw, okmt, wjmt
  ensures jw(tred(res), $OK, $WW, Some(MNode::C(*this)), Some(*right), depth as nat)
more lnode::transmute_with_transformed : C12,C13
  hide jw, okmt, wjmt
  ensures jw(tred(res), $OK, $WW, Some(MNode::L(*this)), Some(*right), depth as nat)
more snode::transmute_with_transformed : C12,C13
  hide jw, okmt, wjmt
  ensures jw(tred(res), $OK, $WW, Some(MNode::S(*this)), Some(*right), depth as nat)
more mnode::MNode::transmute_with_transformed : C12,C13
  hide jw, okmt, wjmt
  ensures jw(tred(res), $OK, $WW, Some(*self), Some(*right), depth as nat)
more mnode::MNode::transmute_with_transformed_lnode : C12,C13
  hide jw, okmt, wjmt
  ensures jw(tred(res), $OK, $WW, Some(*self), Some(MNode::<H, F, L, W, M>::L(*right)), depth as nat)
more mnode::MNode::transmute_with_transformed_snode : C12,C13
  hide jw, okmt, wjmt
  ensures jw(tred(res), $OK, $WW, Some(*self), Some(MNode::<H, F, L, W, M>::S(*right)), depth as nat)
more hash_trie::HashTrie::transmute_with_transformed : C12,C13
  hide jw, okmt, wjmt
  ensures jw(res.1, $OK, $WW, Some(self.root), Some(right.root), 0)
more map::HashTrieMap::transmute_with_transformed : C12,C13
  hide jw, okmt, wjmt
  ensures jw(res.1, $OK, $WW, Some(self.set.root), Some(right.set.root), 0)
// family f
def UT K, V, ReduceT, ReduceOp, BothOp, LeftOp, RightOp
def O reduce_op, both_op, left_op, right_op
def OK okf::<$UT>($O)
def WW wjf::<$UT>($O)
more snode::transform_with_transformed_snode_impl : C12
  hide jv, okf, wjf
  pre rz_f::<$UT>(ske(*this), sve(*this), ske(*right), sve(*right), $O);
  ensures jv(ljred(res), $OK, $WW, this.key, this.value, right.key, right.value)
more lnode::transform_with_transformed_snode_impl : C12
  hide jl, jv, rl, radd, okf, wjf, okm, okt, rs
  pre rf_f::<$UT>($O); rs_f::<$UT>(*this, *right, $O); jv_of::<K, V, K, V, ReduceT>(ln(*this), *right, $OK, $WW);
  ensures jl(ljred(res), $OK, $WW, LNodeNext::L(*this), LNodeNext::S(*right))
more lnode::transform_with_transformed_lnode_impl : C12
  hide ji, jv, rl, radd, okf, wjf, okm, okt, rs
  pre rf_f::<$UT>($O); ri_f::<$UT>(*this, old(rights)@, $O);
  ensures ji(ljred(res), $OK, $WW, LNodeNext::L(*this), old(rights)@)
more lnode::transform_with_transformed_lnode : C12
  hide ji, jk, jl, jw, rl, okf, wjf, okm, okt, rs
  pre rf_f::<$UT>($O); rk_f::<$UT>(LNodeNext::L(*this), LNodeNext::L(*right), $O); jl_m::<H, F, K, V, K, V, M, ReduceT>(LNodeNext::L(*this), LNodeNext::L(*right), depth as nat, $OK, $WW); ra_f::<$UT>(LNodeNext::L(*this), LNodeNext::L(*right), $O);
  loop 1
    inv jk(ljred(next), $OK, $WW, LNodeNext::L(*this), LNodeNext::L(*right), vp_s1@.take(vp_i1 as int))
    begin rt_f::<$UT>(LNodeNext::L(*this), LNodeNext::L(*right), vp_s1@, vp_i1 - 1, $O);
  ensures jw(jred(res), $OK, $WW, Some(MNode::<H, F, K, V, M>::L(*this)), Some(MNode::<H, F, K, V, M>::L(*right)), depth as nat)
more lnode::transform_with_transformed_snode : C12
  hide jl, jw, jv, rl, okf, wjf, okm, okt, rs
  pre rf_f::<$UT>($O); jv_of::<K, V, K, V, ReduceT>(LNodeNext::L(*this), *right, $OK, $WW); jl_m::<H, F, K, V, K, V, M, ReduceT>(LNodeNext::L(*this), LNodeNext::S(*right), depth as nat, $OK, $WW); ra_f::<$UT>(LNodeNext::L(*this), LNodeNext::S(*right), $O);
  ensures jw(jred(res), $OK, $WW, Some(MNode::<H, F, K, V, M>::L(*this)), Some(MNode::<H, F, K, V, M>::S(*right)), depth as nat)
more snode::transform_with_transformed_snode : C12
  hide jl, jw, jv, rl, okf, wjf, okm, okt, rs
  pre rf_f::<$UT>($O); jv_of::<K, V, K, V, ReduceT>(LNodeNext::S(*this), *right, $OK, $WW); jl_m::<H, F, K, V, K, V, M, ReduceT>(LNodeNext::S(*this), LNodeNext::S(*right), depth as nat, $OK, $WW); ra_f::<$UT>(LNodeNext::S(*this), LNodeNext::S(*right), $O);
  ensures jw(jred(res), $OK, $WW, Some(MNode::<H, F, K, V, M>::S(*this)), Some(MNode::<H, F, K, V, M>::S(*right)), depth as nat)
more cnode::transform_with_transformed_cnode : C12,C13
  hide jp, jw, rn, rl, okf, wjf, okm, okt, rs
  pre rf_f::<$UT>($O); jp_fin::<H, F, K, V, K, V, M, ReduceT, ReduceOp>(MNode::C(*this), MNode::<H, F, K, V, M>::C(*right), depth as nat, reduce_op, $OK, $WW);
  ensures jw(jred(res), $OK, $WW, Some(MNode::C(*this)), Some(MNode::<H, F, K, V, M>::C(*right)), depth as nat)
more cnode::transform_with_transformed_cnode_impl : C12,C13
  hide jp, jw, rn, rl, okf, wjf, okm, okt, rs
  pre rf_f::<$UT>($O); jp_fin::<H, F, K, V, K, V, M, ReduceT, ReduceOp>(MNode::C(*this), MNode::<H, F, K, V, M>::C(*right), depth as nat, reduce_op, $OK, $WW);
  loop 0
    inv jp(reduced, $OK, $WW, MNode::C(*this), MNode::<H, F, K, V, M>::C(*right), depth as nat, range.start as nat, vp_i0 as nat)
    begin rf_f::<$UT>($O); rp_f::<H, F, M, $UT>(MNode::C(*this), MNode::<H, F, K, V, M>::C(*right), depth as nat, (vp_i0 - 1) as nat, $O);
  ensures jp(res.5, $OK, $WW, MNode::C(*this), MNode::<H, F, K, V, M>::C(*right), depth as nat, range.start as nat, range.end as nat)
more cnode::transform_with_transformed_lnode : C12,C13
  hide jp, jw, rn, rl, okf, wjf, okm, okt, rs
  pre rf_f::<$UT>($O); jp_fin::<H, F, K, V, K, V, M, ReduceT, ReduceOp>(MNode::C(*this), MNode::<H, F, K, V, M>::L(*right), depth as nat, reduce_op, $OK, $WW); rl_n::<H, F, K, V, M, ReduceT>(MNode::<H, F, K, V, M>::L(*right), okt::<K, V, ReduceT, ReduceOp, RightOp>(reduce_op, right_op), wt::<K, V, ReduceT, RightOp>(right_op));
  loop 0
    inv jp(reduced, $OK, $WW, MNode::C(*this), MNode::<H, F, K, V, M>::L(*right), depth as nat, 0, vp_i0 as nat)
    begin rf_f::<$UT>($O); rp_f::<H, F, M, $UT>(MNode::C(*this), MNode::<H, F, K, V, M>::L(*right), depth as nat, (vp_i0 - 1) as nat, $O); rl_n::<H, F, K, V, M, ReduceT>(MNode::<H, F, K, V, M>::L(*right), okt::<K, V, ReduceT, ReduceOp, RightOp>(reduce_op, right_op), wt::<K, V, ReduceT, RightOp>(right_op));
  ensures jw(jred(res), $OK, $WW, Some(MNode::C(*this)), Some(MNode::<H, F, K, V, M>::L(*right)), depth as nat)
more cnode::transform_with_transformed_snode : C12,C13
  hide jp, jw, rn, rl, okf, wjf, okm, okt, rs
  pre rf_f::<$UT>($O); jp_fin::<H, F, K, V, K, V, M, ReduceT, ReduceOp>(MNode::C(*this), MNode::<H, F, K, V, M>::S(*right), depth as nat, reduce_op, $OK, $WW); rl_n::<H, F, K, V, M, ReduceT>(MNode::<H, F, K, V, M>::S(*right), mtloc::<K, V, ReduceT, RightOp>(right_op), wt::<K, V, ReduceT, RightOp>(right_op));
  loop 0
    inv jp(reduced, $OK, $WW, MNode::C(*this), MNode::<H, F, K, V, M>::S(*right), depth as nat, 0, vp_i0 as nat)
    begin rf_f::<$UT>($O); rp_f::<H, F, M, $UT>(MNode::C(*this), MNode::<H, F, K, V, M>::S(*right), depth as nat, (vp_i0 - 1) as nat, $O); rl_n::<H, F, K, V, M, ReduceT>(MNode::<H, F, K, V, M>::S(*right), mtloc::<K, V, ReduceT, RightOp>(right_op), wt::<K, V, ReduceT, RightOp>(right_op));
  ensures jw(jred(res), $OK, $WW, Some(MNode::C(*this)), Some(MNode::<H, F, K, V, M>::S(*right)), depth as nat)
more cnode::transform_with_transformed : C12,C13
  hide jw, okf, wjf
  ensures jw(jred(res), $OK, $WW, Some(MNode::C(*this)), Some(*right), depth as nat)
more lnode::transform_with_transformed : C12,C13
  hide jw, okf, wjf
  ensures jw(jred(res), $OK, $WW, Some(MNode::L(*this)), Some(*right), depth as nat)
more snode::transform_with_transformed : C12,C13
  hide jw, okf, wjf
  ensures jw(jred(res), $OK, $WW, Some(MNode::S(*this)), Some(*right), depth as nat)
more mnode::MNode::transform_with_transformed : C12,C13
  hide jw, okf, wjf
  ensures jw(jred(res), $OK, $WW, Some(*self), Some(*right), depth as nat)
more mnode::MNode::transform_with_transformed_lnode : C12,C13
  hide jw, okf, wjf
  ensures jw(jred(res), $OK, $WW, Some(*self), Some(MNode::<H, F, K, V, M>::L(*right)), depth as nat)
more mnode::MNode::transform_with_transformed_snode : C12,C13
  hide jw, okf, wjf
  ensures jw(jred(res), $OK, $WW, Some(*self), Some(MNode::<H, F, K, V, M>::S(*right)), depth as nat)
more hash_trie::HashTrie::transform_with_transformed : C12,C13
  hide jw, okf, wjf
  ensures jw(res.1, $OK, $WW, Some(self.root), Some(right.root), 0)
more map::HashTrieMap::transform_with_transformed : C12,C13
  hide jw, okf, wjf
  ensures jw(res.1, $OK, $WW, Some(self.set.root), Some(right.set.root), 0)
