def OFF mjok::<K, V, ReduceT, BothOp>(both_op), mtok::<K, V, ReduceT, LeftOp>(left_op), mtok::<K, V, ReduceT, RightOp>(right_op), pure2::<ReduceT, ReduceT, ReduceT, ReduceOp>(reduce_op)
def JFF jff::<K, V, ReduceT, BothOp, LeftOp, RightOp>(both_op, left_op, right_op)
def SFF jff_sides::<K, V, ReduceT, BothOp, LeftOp, RightOp>(both_op, left_op, right_op)
fn results::MapJointTransformResult::flip (self) : C09
  ensures res == mjflip(self)
fn results::MNodeJointTransformResult::flip (self) : C09
  ensures res == fjflip(self)
fn results::MNodeJointTransformResult::from<LNodeJointTransformResult> (other) : C09
  spec { res == from_lj(other) }
fn transformations::MapJointTransform::call (self, k, v, l, w) : C09
  requires mjok::<K, V, ReduceT, F>(*self)
  ensures res == mj::<K, V, ReduceT, F>(*self, *k, *v, *l, *w)
fn transformations::MapJointTransform::flip (self) : C09
  ensures res == opflip(*self)
fn lnode::joint_transform_with_joint_transformed_result (this, result, that, next, reduce_op) : C09
  requires pure2::<ReduceT, ReduceT, ReduceT, ReduceOp>(reduce_op), lwf(**this), pfit(flz(next, this.next), kid(this.key)), !(next is UnchangedR), result is UnchangedR ==> that is Some && kid(tk(that)) == kid(this.key)
  pre lall(*this);
  post lall_j(res);
  ensures !(res is UnchangedR), res is UnchangedLR ==> result is UnchangedLR && next is UnchangedLR
  ensures that is None && !(result is UnchangedR) ==> lputs(flz(res, LNodeNext::L(*this)), flz(next, this.next), kid(this.key), mjl(this.key, this.value, this.key, this.value, result))
  ensures that is Some ==> lputs(flz(res, LNodeNext::L(*this)), flz(next, this.next), kid(this.key), mjl(this.key, this.value, tk(that), tv(that), result))
fn lnode::joint_transform_with_transformed_result (this, result, that, next, reduce_op) : C09
  requires pure2::<ReduceT, ReduceT, ReduceT, ReduceOp>(reduce_op), lwf(**this), pfit(lnode_of(next, this.next), kid(this.key)), kid(that.key) == kid(this.key)
  pre lall(*this);
  post lall_j(res);
  ensures !(res is UnchangedLR)
  ensures lputs(fl(res, LNodeNext::L(*this), LNodeNext::S(*that)), lnode_of(next, this.next), kid(this.key), mjl(this.key, this.value, that.key, that.value, result))
fn lnode::transform_with_joint_transformed_result (this, result, that, next, reduce_op) : C09
  requires pure2::<ReduceT, ReduceT, ReduceT, ReduceOp>(reduce_op), lwf(**this), pfit(fl(next, this.next, LNodeNext::S(*that)), kid(this.key))
  pre lall(*this);
  post lall_j(res);
  ensures !(res is UnchangedLR)
  ensures lputs(fl(res, LNodeNext::L(*this), LNodeNext::S(*that)), fl(next, this.next, LNodeNext::S(*that)), kid(this.key), mtr(this.key, this.value, result))
fn snode::transform_with_transformed_snode_impl (this, right, reduce_op, both_op, left_op, right_op) : C09
  requires $OFF
  requires hid(kid(this.key)) == hid(kid(right.key))
  post lall_j(res);
  ensures lv2(fl(res, LNodeNext::S(*this), LNodeNext::S(*right)), this.key, this.value, right.key, right.value, $JFF)
  ensures res is UnchangedLR ==> lv2(Some(LNodeNext::S(*right)), this.key, this.value, right.key, right.value, $JFF)
fn lnode::transform_with_transformed_snode_impl (this, right, reduce_op, both_op, left_op, right_op) : C09
  requires $OFF
  requires lwf(**this), hid(kid(this.key)) == hid(kid(right.key)), nsz(LNodeNext::L(*this)) < usize::MAX
  pre lall(*this); ln_hid(*this); $SFF; lz_put(*this, *right, $JFF); ot1(ln(*this), left_op, $JFF); lv_z(ln(*this), *right, $JFF);
  ensures !(res is UnchangedLR)
  ensures lj(fl(res, LNodeNext::L(*this), LNodeNext::S(*right)), LNodeNext::L(*this), LNodeNext::S(*right), $JFF)
fn snode::transform_with_transformed_snode (this, right, reduce_op, both_op, left_op, right_op, depth) : C09
  requires $OFF
  requires jpre::<H, F, K, V, K, V, M>(MNode::S(*this), MNode::S(*right), depth as nat), depth <= lv()
  pre let a = LNodeNext::S(*this); let b = LNodeNext::S(*right); $SFF; lv_z(a, *right, $JFF); lj_f::<H, F, K, V, M, ReduceT>(a, b, depth as nat, $JFF);
      l_apart::<H, F, K, V, K, V, M>(a, b, depth as nat); ot1(a, left_op, $JFF); ot2(b, right_op, $JFF); if hid(nid(a)) != hid(nid(b)) { o_split::<H, F, K, V, K, V, K, V, M>(a, b, depth as nat, $JFF); }
  ensures fdo(res, MNode::<H, F, K, V, M>::S(*this), MNode::<H, F, K, V, M>::S(*right), depth as nat, $JFF)
fn lnode::transform_with_transformed_snode (this, right, reduce_op, both_op, left_op, right_op, depth) : C09
  requires $OFF
  requires jpre::<H, F, K, V, K, V, M>(MNode::L(*this), MNode::S(*right), depth as nat), depth <= lv()
  pre let a = LNodeNext::L(*this); let b = LNodeNext::S(*right); $SFF;  lj_f::<H, F, K, V, M, ReduceT>(a, b, depth as nat, $JFF);
      l_apart::<H, F, K, V, K, V, M>(a, b, depth as nat); ot1(a, left_op, $JFF); ot2(b, right_op, $JFF); if hid(nid(a)) != hid(nid(b)) { o_split::<H, F, K, V, K, V, K, V, M>(a, b, depth as nat, $JFF); }
  ensures fdo(res, MNode::<H, F, K, V, M>::L(*this), MNode::<H, F, K, V, M>::S(*right), depth as nat, $JFF)
fn lnode::transform_with_transformed_lnode_impl (this, rights, reduce_op, both_op, left_op, right_op) : C09
  hide lp, o1, lv2, pfit, lputs, rtake, rswap, rfind, runq, lwf, nfind, lrall
  requires $OFF
  requires lwf(**this), runq(old(rights)@), forall|x: int| (#[trigger] rfind(old(rights)@, x)) is Some ==> hid(x) == hid(kid(this.key))
  pre $SFF; ln_hid(*this); rt_s::<K, V, K, V>(ln(*this), old(rights)@); rt_l::<K, V, K, V>(*this, old(rights)@); lp_put(*this, old(rights)@, $JFF); lv_s(ln(*this), old(rights)@, $JFF); ot1(ln(*this), left_op, $JFF); lr_put(*this, old(rights)@, $JFF); lv_lr::<K, V>(ln(*this), $JFF);
  loop 0
    inv vp_i0 <= rights.len(), rights@ == old(rights)@, vp_f0 is None ==> rnot(rights@, vp_i0 as int, kid(snode.key)), vp_f0 is Some ==> vp_f0->0 < rights.len() && kid(*rights@[vp_f0->0 as int].0) == kid(snode.key)
  loop 1
    inv vp_i1 <= rights.len(), runq(rights@), rtake(old(rights)@, rights@, this.next), vp_f1 is None ==> rnot(rights@, vp_i1 as int, kid(this.key)), vp_f1 is Some ==> vp_f1->0 < rights.len() && kid(*rights@[vp_f1->0 as int].0) == kid(this.key)
  ensures rtake(old(rights)@, final(rights)@, LNodeNext::L(*this)), !(res is UnchangedR), res is UnchangedLR ==> lrall(LNodeNext::L(*this), old(rights)@, $JFF)
  ensures lp(flz(res, LNodeNext::L(*this)), LNodeNext::L(*this), old(rights)@, $JFF)
fn lnode::transform_with_transformed_lnode (this, right, reduce_op, both_op, left_op, right_op, depth) : C09
  hide lp, lq, rall, rbuild, rleft, rtake, rfind, runq, nfind, lj, jd, ltdone, o1, o2, hashed, lwf, nwf, lrall, lrb
  requires $OFF
  requires jpre::<H, F, K, V, K, V, M>(MNode::L(*this), MNode::L(*right), depth as nat), depth <= lv()
  pre let a = LNodeNext::L(*this); let b = LNodeNext::L(*right); $SFF; ll_init::<H, F, K, V, K, V, M>(*this, *right, depth as nat); lj_f::<H, F, K, V, M, ReduceT>(a, b, depth as nat, $JFF); rb_init(*right); h_from::<H, F, K, V, M>();
      lq_init(a, b, $JFF); lr_fin(a, b, $JFF);
      if hid(nid(a)) != hid(nid(b)) { l_apart::<H, F, K, V, K, V, M>(a, b, depth as nat); ot1(a, left_op, $JFF); ot2(b, right_op, $JFF); o_split::<H, F, K, V, K, V, K, V, M>(a, b, depth as nat, $JFF); }
  loop 0
    xinv rbuild(rights@, r.next, LNodeNext::L(*right))
    lens rall(rights@, LNodeNext::L(*right))
    begin rb_step(rights@, ln(*r), LNodeNext::L(*right));
  loop 1
    inv vp_i1 <= vp_s1.len(), rleft(vp_s1@, LNodeNext::L(*this), LNodeNext::L(*right)), nsz(LNodeNext::L(*this)) + nsz(LNodeNext::L(*right)) < usize::MAX, vp_s1.len() <= nsz(LNodeNext::L(*right)), nwf(LNodeNext::L(*this)), nwf(LNodeNext::L(*right)), hid(nid(LNodeNext::L(*this))) == hid(nid(LNodeNext::L(*right))), $OFF
    inv lq(flz(next, LNodeNext::L(*this)), LNodeNext::L(*this), LNodeNext::L(*right), vp_s1@, vp_i1 as int, $JFF), !(next is UnchangedR), next is UnchangedLR ==> vp_i1 == 0 && lrb(LNodeNext::L(*this), LNodeNext::L(*right), $JFF)
    begin $SFF; lf_next::<K, V, ReduceT, RightOp>(LNodeNext::L(*this), LNodeNext::L(*right), vp_s1@, vp_i1 - 1, $JFF, right_op);
  ensures fdo(res, MNode::<H, F, K, V, M>::L(*this), MNode::<H, F, K, V, M>::L(*right), depth as nat, $JFF)
fn cnode::transform_with_transformed_cnode_impl (this, right, reduce_op, both_op, left_op, right_op, depth, range, par_strat) : C09
  hide fpart, jd, wf, look, tdone, jkid, jpre, keep
  requires $OFF
  requires jpre(MNode::C(*this), MNode::<H, F, K, V, M>::C(*right), depth as nat), depth <= lv(), range.start <= range.end <= wd()
  pre j_pre(MNode::C(*this), MNode::<H, F, K, V, M>::C(*right), depth as nat); f_new(MNode::C(*this), MNode::<H, F, K, V, M>::C(*right), depth as nat, $JFF, range.start as nat, 0);
  loop 0
    inv vp_e0 == range.end, range.start <= vp_i0 <= vp_e0 <= wd(), depth < lv(), jpre(MNode::C(*this), MNode::<H, F, K, V, M>::C(*right), depth as nat), bok(cn(*this)), bok(cn(*right)), $OFF
    inv fpart(size, bits_t, values_t@, unchangedl, unchangedr, MNode::C(*this), MNode::<H, F, K, V, M>::C(*right), depth as nat, $JFF, range.start as nat, vp_i0 as nat)
    begin f_step::<H, F, K, V, M, ReduceT, BothOp, LeftOp, RightOp>(size, bits_t, values_t@, unchangedl, unchangedr, MNode::C(*this), MNode::<H, F, K, V, M>::C(*right), depth as nat, both_op, left_op, right_op, range.start as nat, (vp_i0 - 1) as nat);
  ensures fpart(res.0, res.1, res.2@, res.3, res.4, MNode::C(*this), MNode::<H, F, K, V, M>::C(*right), depth as nat, $JFF, range.start as nat, range.end as nat)
fn cnode::transform_with_transformed_cnode (this, right, reduce_op, both_op, left_op, right_op, depth, par_strat) : C09,C13
  hide fpart, jd, wf, look, tdone, jkid, jpre, keep
  requires $OFF
  requires jpre(MNode::C(*this), MNode::<H, F, K, V, M>::C(*right), depth as nat), depth <= lv()
  pre j_pre(MNode::C(*this), MNode::<H, F, K, V, M>::C(*right), depth as nat); f_fin::<H, F, K, V, M, ReduceT, BothOp, LeftOp, RightOp>(MNode::C(*this), MNode::<H, F, K, V, M>::C(*right), depth as nat, both_op, left_op, right_op); f_join(MNode::C(*this), MNode::<H, F, K, V, M>::C(*right), depth as nat, $JFF, wd() / 2); f_const::<H, F, K, V, M, ReduceT, BothOp, LeftOp, RightOp>(MNode::C(*this), MNode::<H, F, K, V, M>::C(*right), depth as nat, both_op, left_op, right_op);
  ensures fdo(res, MNode::C(*this), MNode::<H, F, K, V, M>::C(*right), depth as nat, $JFF)
fn cnode::transform_with_transformed_lnode (this, right, reduce_op, both_op, left_op, right_op, depth, par_strat) : C09
  hide fpart, jd, wf, look, tdone, jkid, jpre, keep
  requires $OFF
  requires jpre(MNode::C(*this), MNode::<H, F, K, V, M>::L(*right), depth as nat), depth <= lv()
  pre j_pre(MNode::C(*this), MNode::<H, F, K, V, M>::L(*right), depth as nat); f_new(MNode::C(*this), MNode::<H, F, K, V, M>::L(*right), depth as nat, $JFF, 0, 0); f_fin::<H, F, K, V, M, ReduceT, BothOp, LeftOp, RightOp>(MNode::C(*this), MNode::<H, F, K, V, M>::L(*right), depth as nat, both_op, left_op, right_op); lt_from::<H, F, K, V, M, ReduceT, RightOp>(MNode::<H, F, K, V, M>::L(*right), right_op);
  loop 0
    inv vp_e0 == wd(), vp_i0 <= vp_e0, depth < lv(), jpre(MNode::C(*this), MNode::<H, F, K, V, M>::L(*right), depth as nat), bok(cn(*this)), bpos(flag) == Some(hdg(hid(kid(right.key)), depth as nat)), lwf(**right), $OFF
    inv fpart(size, bits_t, values_t@, unchangedl, unchangedr, MNode::C(*this), MNode::<H, F, K, V, M>::L(*right), depth as nat, $JFF, 0, vp_i0 as nat)
    begin f_step::<H, F, K, V, M, ReduceT, BothOp, LeftOp, RightOp>(size, bits_t, values_t@, unchangedl, unchangedr, MNode::C(*this), MNode::<H, F, K, V, M>::L(*right), depth as nat, both_op, left_op, right_op, 0, (vp_i0 - 1) as nat); j_pre(MNode::C(*this), MNode::<H, F, K, V, M>::L(*right), depth as nat); lt_from::<H, F, K, V, M, ReduceT, RightOp>(MNode::<H, F, K, V, M>::L(*right), right_op);
  ensures fdo(res, MNode::C(*this), MNode::<H, F, K, V, M>::L(*right), depth as nat, $JFF)
fn cnode::transform_with_transformed_snode (this, right, reduce_op, both_op, left_op, right_op, depth, par_strat) : C09
  hide fpart, jd, wf, look, tdone, jkid, jpre, keep
  requires $OFF
  requires jpre(MNode::C(*this), MNode::<H, F, K, V, M>::S(*right), depth as nat), depth <= lv()
  pre j_pre(MNode::C(*this), MNode::<H, F, K, V, M>::S(*right), depth as nat); f_new(MNode::C(*this), MNode::<H, F, K, V, M>::S(*right), depth as nat, $JFF, 0, 0); f_fin::<H, F, K, V, M, ReduceT, BothOp, LeftOp, RightOp>(MNode::C(*this), MNode::<H, F, K, V, M>::S(*right), depth as nat, both_op, left_op, right_op); lt_from::<H, F, K, V, M, ReduceT, RightOp>(MNode::<H, F, K, V, M>::S(*right), right_op);
  loop 0
    inv vp_e0 == wd(), vp_i0 <= vp_e0, depth < lv(), jpre(MNode::C(*this), MNode::<H, F, K, V, M>::S(*right), depth as nat), bok(cn(*this)), bpos(flag) == Some(hdg(hid(kid(right.key)), depth as nat)), $OFF
    inv fpart(size, bits_t, values_t@, unchangedl, unchangedr, MNode::C(*this), MNode::<H, F, K, V, M>::S(*right), depth as nat, $JFF, 0, vp_i0 as nat)
    begin f_step::<H, F, K, V, M, ReduceT, BothOp, LeftOp, RightOp>(size, bits_t, values_t@, unchangedl, unchangedr, MNode::C(*this), MNode::<H, F, K, V, M>::S(*right), depth as nat, both_op, left_op, right_op, 0, (vp_i0 - 1) as nat); j_pre(MNode::C(*this), MNode::<H, F, K, V, M>::S(*right), depth as nat); lt_from::<H, F, K, V, M, ReduceT, RightOp>(MNode::<H, F, K, V, M>::S(*right), right_op);
  ensures fdo(res, MNode::C(*this), MNode::<H, F, K, V, M>::S(*right), depth as nat, $JFF)
fn cnode::transform_with_transformed (this, right, reduce_op, both_op, left_op, right_op, depth, par_strat) : C09
  requires $OFF
  requires jpre(MNode::C(*this), *right, depth as nat), depth <= lv()
  ensures fdo(res, MNode::C(*this), *right, depth as nat, $JFF)
fn lnode::transform_with_transformed (this, right, reduce_op, both_op, left_op, right_op, depth, par_strat) : C09
  requires $OFF
  requires jpre(MNode::L(*this), *right, depth as nat), depth <= lv()
  ensures fdo(res, MNode::L(*this), *right, depth as nat, $JFF)
fn snode::transform_with_transformed (this, right, reduce_op, both_op, left_op, right_op, depth, par_strat) : C09
  requires $OFF
  requires jpre(MNode::S(*this), *right, depth as nat), depth <= lv()
  ensures fdo(res, MNode::S(*this), *right, depth as nat, $JFF)
fn mnode::MNode::transform_with_transformed (self, right, reduce_op, both_op, left_op, right_op, depth, par_strat) : C09
  requires $OFF
  requires jpre(*self, *right, depth as nat), depth <= lv()
  ensures fdo(res, *self, *right, depth as nat, $JFF)
fn mnode::MNode::transform_with_transformed_lnode (self, right, reduce_op, both_op, left_op, right_op, depth, par_strat) : C09
  requires $OFF
  requires jpre(*self, MNode::<H, F, K, V, M>::L(*right), depth as nat), depth <= lv()
  ensures fdo(res, *self, MNode::<H, F, K, V, M>::L(*right), depth as nat, $JFF)
fn mnode::MNode::transform_with_transformed_snode (self, right, reduce_op, both_op, left_op, right_op, depth, par_strat) : C09
  requires $OFF
  requires jpre(*self, MNode::<H, F, K, V, M>::S(*right), depth as nat), depth <= lv()
  ensures fdo(res, *self, MNode::<H, F, K, V, M>::S(*right), depth as nat, $JFF)
fn hash_trie::HashTrie::transform_with_transformed (self, right, reduce_op, both_op, left_op, right_op, par_strat) : C09
  requires $OFF
  requires twf(*self), twf(*right), sz(self.root) + sz(right.root) <= cap()
  hide jffx, jd, jff, jpre, look
  pre ff_top::<H, F, K, V, M, ReduceT, BothOp, LeftOp, RightOp>(self.root, right.root, both_op, left_op, right_op); z_none(self.root); z_none(right.root);
  post assert forall|x: int| jffx::<K, V, ReduceT, BothOp, LeftOp, RightOp>(both_op, left_op, right_op, tl(*self, x), tl(*right, x), #[trigger] tl(res.0, x)) by { };
  ensures forall|x: int| jffx::<K, V, ReduceT, BothOp, LeftOp, RightOp>(both_op, left_op, right_op, tl(*self, x), tl(*right, x), #[trigger] tl(res.0, x))
  ensures[C04,C09] twf(res.0), sz(res.0.root) <= sz(self.root) + sz(right.root)
fn map::HashTrieMap::transform_with_transformed (self, right, reduce_op, both_op, left_op, right_op, par_strat) : C09
  requires $OFF
  requires twf(self.set), twf(right.set), sz(self.set.root) + sz(right.set.root) <= cap()
  ensures forall|x: int| jffx::<K, V, ReduceT, BothOp, LeftOp, RightOp>(both_op, left_op, right_op, tl(self.set, x), tl(right.set, x), #[trigger] tl(res.0.set, x))
  ensures[C04,C09] twf(res.0.set), sz(res.0.set.root) <= sz(self.set.root) + sz(right.set.root)
