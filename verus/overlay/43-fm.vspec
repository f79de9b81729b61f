def OTM mt4ok::<K, V, L, W, V, ReduceT, BothOp>(both_op), mtok::<K, V, ReduceT, LeftOp>(left_op), muok::<L, W, K, V, ReduceT, RightOp>(right_op), mukey::<L, W, K, V, ReduceT, RightOp>(right_op), pure2::<ReduceT, ReduceT, ReduceT, ReduceOp>(reduce_op)
def JTM jtm::<K, V, L, W, ReduceT, BothOp, LeftOp, RightOp>(both_op, left_op, right_op)
def OMT mt4ok::<K, V, L, W, W, ReduceT, BothOp>(both_op), muok::<K, V, L, W, ReduceT, LeftOp>(left_op), mukey::<K, V, L, W, ReduceT, LeftOp>(left_op), mtok::<L, W, ReduceT, RightOp>(right_op), pure2::<ReduceT, ReduceT, ReduceT, ReduceOp>(reduce_op)
def JMT jmt::<K, V, L, W, ReduceT, BothOp, LeftOp, RightOp>(both_op, left_op, right_op)
def STM jtm_sides::<K, V, L, W, ReduceT, BothOp, LeftOp, RightOp>(both_op, left_op, right_op)
def SMT jmt_sides::<K, V, L, W, ReduceT, BothOp, LeftOp, RightOp>(both_op, left_op, right_op)
fn results::MNodeTransformResult::from<MNodeTransmuteResult> (other) : C10
  spec { res == from_u(other) }
fn results::MNodeTransformResult::from<LNodeTransmuteResult> (other) : C10
  spec { res == from_u(from_lu::<H, F, K, V, M, ReduceT>(other)) }
fn results::MNodeTransformResult::from<SNodeTransmuteResult> (other) : C10
  spec { res == from_u(from_lu::<H, F, K, V, M, ReduceT>(from_su(other))) }
fn transformations::MapTransform::call_transform_transmute (self, k, v, l, w) : C10
  requires mt4ok::<K, V, L, W, V, ReduceT, F>(*self)
  ensures res == mt4::<K, V, L, W, V, ReduceT, F>(*self, *k, *v, *l, *w)
fn transformations::MapTransform::call_transmute_transform (self, k, v, l, w) : C10
  requires mt4ok::<K, V, L, W, W, ReduceT, F>(*self)
  ensures res == mt4::<K, V, L, W, W, ReduceT, F>(*self, *k, *v, *l, *w)
fn transformations::MapTransform::flip_transform_transmute (self) : C10
  requires mt4ok::<K, V, L, W, V, ReduceT, F>(*self)
  closure 0 (l: &L, w: &W, k: &K, v: &V) -> (r: MapTransformResult<V, ReduceT>)
    creq true
    cens r == fap4r::<F, K, V, L, W, MapTransformResult<V, ReduceT>>(&g, k, v, l, w)
  post tflip_ok4::<K, V, L, W, V, ReduceT, F, _>(*self, res);
  ensures mt4ok::<L, W, K, V, V, ReduceT, _>(res)
  ensures tflip::<K, V, L, W, V, ReduceT, F, _>(*self, res)
fn transformations::MapTransform::flip_transmute_transform (self) : C10
  requires mt4ok::<K, V, L, W, W, ReduceT, F>(*self)
  closure 0 (l: &L, w: &W, k: &K, v: &V) -> (r: MapTransformResult<W, ReduceT>)
    creq true
    cens r == fap4r::<F, K, V, L, W, MapTransformResult<W, ReduceT>>(&g, k, v, l, w)
  post tflip_ok4::<K, V, L, W, W, ReduceT, F, _>(*self, res);
  ensures mt4ok::<L, W, K, V, W, ReduceT, _>(res)
  ensures tflip::<K, V, L, W, W, ReduceT, F, _>(*self, res)
fn lnode::transform_with_transformed_result (this, result, next, reduce_op) : C09,C10
  requires pure2::<ReduceT, ReduceT, ReduceT, ReduceOp>(reduce_op), lwf(**this), pfit(lnode_of(next, this.next), kid(this.key))
  pre lall(*this);
  post lall_r(res);
  ensures lputs(lnode_of(res, LNodeNext::L(*this)), lnode_of(next, this.next), kid(this.key), mtr(this.key, this.value, result))
fn lnode::transform_with_transmuted_result (this, result, next, reduce_op) : C10
  requires pure2::<ReduceT, ReduceT, ReduceT, ReduceOp>(reduce_op), pfit(lunode(next), kid(this.key))
  post lall_r(res);
  ensures lputs(lnode_of(res, LNodeNext::S(*this)), lunode(next), kid(this.key), mtr(this.key, this.value, result))
fn lnode::transmute_with_transformed_result (this, result, next, reduce_op) : C10
  requires pure2::<ReduceT, ReduceT, ReduceT, ReduceOp>(reduce_op), own(lnode_of(next, LNodeNext::S(*this))), result is Transmuted ==> pfit(lnode_of(next, LNodeNext::S(*this)), kid(result->Transmuted_0))
  post lall_r(res);
  ensures forall|k: int| #[trigger] pfit(lnode_of(next, LNodeNext::S(*this)), k) && (result is Transmuted ==> kid(result->Transmuted_0) == k) ==> lputs(lnode_of(res, LNodeNext::S(*this)), lnode_of(next, LNodeNext::S(*this)), k, mur(result))
fn snode::transform_with_transmuted_snode_impl (this, right_key, right_value, reduce_op, both_op, left_op, right_op) : C10
  requires $OTM
  requires hid(kid(this.key)) == hid(kid(*right_key))
  post lall_r(res);
  ensures lv2(lnode_of(res, LNodeNext::S(*this)), this.key, this.value, *right_key, *right_value, $JTM)
fn snode::transmute_with_transformed_snode_impl (this, right, reduce_op, both_op, left_op, right_op) : C10
  requires $OMT
  requires hid(kid(this.key)) == hid(kid(right.key))
  post lall_r(res);
  ensures lv2(lnode_of(res, LNodeNext::S(*right)), this.key, this.value, right.key, right.value, $JMT)
fn snode::transform_with_transmuted_snode (this, right, reduce_op, both_op, left_op, right_op, depth) : C10
  requires $OTM
  requires jpre::<H, F, K, V, L, W, M>(MNode::S(*this), MNode::S(*right), depth as nat), depth <= lv()
  pre let a = LNodeNext::S(*this); let b = LNodeNext::S(*right); $STM; lv_z(a, *right, $JTM); lj_t::<H, F, K, V, L, W, K, V, M, ReduceT>(a, b, a, depth as nat, $JTM);
      l_apart::<H, F, K, V, L, W, M>(a, b, depth as nat); ot1(a, left_op, $JTM); ou2(b, right_op, $JTM); if hid(nid(a)) != hid(nid(b)) { o_split::<H, F, K, V, L, W, K, V, M>(a, b, depth as nat, $JTM); }
  ensures jd(tz(res, MNode::S(*this)), Some(MNode::<H, F, K, V, M>::S(*this)), Some(MNode::<H, F, L, W, M>::S(*right)), depth as nat, $JTM)
fn snode::transmute_with_transformed_snode (this, right, reduce_op, both_op, left_op, right_op, depth) : C10
  requires $OMT
  requires jpre::<H, F, K, V, L, W, M>(MNode::S(*this), MNode::S(*right), depth as nat), depth <= lv()
  pre let a = LNodeNext::S(*this); let b = LNodeNext::S(*right); $SMT; lv_z(a, *right, $JMT); lj_t::<H, F, K, V, L, W, L, W, M, ReduceT>(a, b, b, depth as nat, $JMT);
      l_apart::<H, F, K, V, L, W, M>(a, b, depth as nat); ou1(a, left_op, $JMT); ot2(b, right_op, $JMT); if hid(nid(a)) != hid(nid(b)) { o_split::<H, F, K, V, L, W, L, W, M>(a, b, depth as nat, $JMT); }
  ensures jd(tz(res, MNode::S(*right)), Some(MNode::<H, F, K, V, M>::S(*this)), Some(MNode::<H, F, L, W, M>::S(*right)), depth as nat, $JMT)
fn lnode::transform_with_transmuted_snode_impl (this, right, reduce_op, both_op, left_op, right_op) : C10
  requires $OTM
  requires lwf(**this), hid(kid(this.key)) == hid(kid(right.key)), nsz(LNodeNext::L(*this)) < usize::MAX
  pre lall(*this); ln_hid(*this); $STM; lz_put(*this, *right, $JTM); ot1(ln(*this), left_op, $JTM); lv_z(ln(*this), *right, $JTM);
  ensures lj(lnode_of(res, LNodeNext::L(*this)), LNodeNext::L(*this), LNodeNext::S(*right), $JTM)
fn lnode::transmute_with_transformed_snode_impl (this, right, reduce_op, both_op, left_op, right_op) : C10
  requires $OMT
  requires lwf(**this), hid(kid(this.key)) == hid(kid(right.key)), nsz(LNodeNext::L(*this)) < usize::MAX
  pre lall(*this); ln_hid(*this); $SMT; lz_put(*this, *right, $JMT); ou1(ln(*this), left_op, $JMT); lv_z(ln(*this), *right, $JMT);
  ensures lj(lnode_of(res, LNodeNext::S(*right)), LNodeNext::L(*this), LNodeNext::S(*right), $JMT)
fn lnode::transform_with_transmuted_snode (this, right, reduce_op, both_op, left_op, right_op, depth) : C10
  requires $OTM
  requires jpre::<H, F, K, V, L, W, M>(MNode::L(*this), MNode::S(*right), depth as nat), depth <= lv()
  pre let a = LNodeNext::L(*this); let b = LNodeNext::S(*right); $STM; lj_t::<H, F, K, V, L, W, K, V, M, ReduceT>(a, b, a, depth as nat, $JTM);
      l_apart::<H, F, K, V, L, W, M>(a, b, depth as nat); ot1(a, left_op, $JTM); ou2(b, right_op, $JTM); if hid(nid(a)) != hid(nid(b)) { o_split::<H, F, K, V, L, W, K, V, M>(a, b, depth as nat, $JTM); }
  ensures jd(tz(res, MNode::L(*this)), Some(MNode::<H, F, K, V, M>::L(*this)), Some(MNode::<H, F, L, W, M>::S(*right)), depth as nat, $JTM)
fn lnode::transmute_with_transformed_snode (this, right, reduce_op, both_op, left_op, right_op, depth) : C10
  requires $OMT
  requires jpre::<H, F, K, V, L, W, M>(MNode::L(*this), MNode::S(*right), depth as nat), depth <= lv()
  pre let a = LNodeNext::L(*this); let b = LNodeNext::S(*right); $SMT; lj_t::<H, F, K, V, L, W, L, W, M, ReduceT>(a, b, b, depth as nat, $JMT);
      l_apart::<H, F, K, V, L, W, M>(a, b, depth as nat); ou1(a, left_op, $JMT); ot2(b, right_op, $JMT); if hid(nid(a)) != hid(nid(b)) { o_split::<H, F, K, V, L, W, L, W, M>(a, b, depth as nat, $JMT); }
  ensures jd(tz(res, MNode::S(*right)), Some(MNode::<H, F, K, V, M>::L(*this)), Some(MNode::<H, F, L, W, M>::S(*right)), depth as nat, $JMT)
fn lnode::transform_with_transmuted_lnode_impl (this, rights, reduce_op, both_op, left_op, right_op) : C10
  hide lp, o1, lv2, pfit, lputs, rtake, rswap, rfind, runq, mukey, lwf, nfind
  requires $OTM
  requires lwf(**this), runq(old(rights)@), forall|x: int| (#[trigger] rfind(old(rights)@, x)) is Some ==> hid(x) == hid(kid(this.key))
  pre $STM; ln_hid(*this); rt_s::<K, V, L, W>(ln(*this), old(rights)@); rt_l::<K, V, L, W>(*this, old(rights)@); lp_put(*this, old(rights)@, $JTM); lv_s(ln(*this), old(rights)@, $JTM); ot1(ln(*this), left_op, $JTM);
  loop 0
    inv vp_i0 <= rights.len(), rights@ == old(rights)@, vp_f0 is None ==> rnot(rights@, vp_i0 as int, kid(snode.key)), vp_f0 is Some ==> vp_f0->0 < rights.len() && kid(*rights@[vp_f0->0 as int].0) == kid(snode.key)
  loop 1
    inv vp_i1 <= rights.len(), runq(rights@), rtake(old(rights)@, rights@, this.next), vp_f1 is None ==> rnot(rights@, vp_i1 as int, kid(this.key)), vp_f1 is Some ==> vp_f1->0 < rights.len() && kid(*rights@[vp_f1->0 as int].0) == kid(this.key)
  ensures rtake(old(rights)@, final(rights)@, LNodeNext::L(*this))
  ensures lp(lnode_of(res, LNodeNext::L(*this)), LNodeNext::L(*this), old(rights)@, $JTM)
fn lnode::transform_with_transmuted_lnode (this, right, reduce_op, both_op, left_op, right_op, depth) : C10
  hide lp, lq, rall, rbuild, rleft, rtake, rfind, runq, mukey, nfind, lj, jd, ludone, ltdone, o1, o2, hashed, lwf, nwf
  requires $OTM
  requires jpre::<H, F, K, V, L, W, M>(MNode::L(*this), MNode::L(*right), depth as nat), depth <= lv()
  pre let a = LNodeNext::L(*this); let b = LNodeNext::L(*right); $STM; ll_init::<H, F, K, V, L, W, M>(*this, *right, depth as nat); lj_t::<H, F, K, V, L, W, K, V, M, ReduceT>(a, b, a, depth as nat, $JTM); rb_init(*right); h_from::<H, F, K, V, M>();
      lq_init(a, b, $JTM);
      if hid(nid(a)) != hid(nid(b)) { l_apart::<H, F, K, V, L, W, M>(a, b, depth as nat); ot1(a, left_op, $JTM); ou2(b, right_op, $JTM); o_split::<H, F, K, V, L, W, K, V, M>(a, b, depth as nat, $JTM); }
  loop 0
    xinv rbuild(rights@, r.next, LNodeNext::L(*right))
    lens rall(rights@, LNodeNext::L(*right))
    begin rb_step(rights@, ln(*r), LNodeNext::L(*right));
  loop 1
    inv vp_i1 <= vp_s1.len(), rleft(vp_s1@, LNodeNext::L(*this), LNodeNext::L(*right)), nsz(LNodeNext::L(*this)) + nsz(LNodeNext::L(*right)) < usize::MAX, vp_s1.len() <= nsz(LNodeNext::L(*right)), nwf(LNodeNext::L(*this)), nwf(LNodeNext::L(*right)), hid(nid(LNodeNext::L(*this))) == hid(nid(LNodeNext::L(*right))), $OTM
    inv lq(lnode_of(next, LNodeNext::L(*this)), LNodeNext::L(*this), LNodeNext::L(*right), vp_s1@, vp_i1 as int, $JTM)
    begin $STM; lq_next(LNodeNext::L(*this), LNodeNext::L(*right), vp_s1@, vp_i1 - 1, LNodeNext::L(*this), $JTM, right_op);
  ensures jd(tz(res, MNode::L(*this)), Some(MNode::<H, F, K, V, M>::L(*this)), Some(MNode::<H, F, L, W, M>::L(*right)), depth as nat, $JTM)
fn cnode::transform_with_transmuted_cnode (this, right, reduce_op, both_op, left_op, right_op, depth, par_strat) : C10,C13
  hide jpart, jd, wf, look, udone, tdone, jkid, jpre, mukey, samek
  requires $OTM
  requires jpre(MNode::C(*this), MNode::<H, F, L, W, M>::C(*right), depth as nat), depth <= lv()
  pre j_pre(MNode::C(*this), MNode::<H, F, L, W, M>::C(*right), depth as nat); fm_init::<H, F, K, V, L, W, M, ReduceT, BothOp, LeftOp, RightOp>(MNode::C(*this), MNode::<H, F, L, W, M>::C(*right), depth as nat, both_op, left_op, right_op, dflt::<F>(), Seq::<MNode<H, F, K, V, M>>::empty(), 0);
  loop 0
    inv vp_e0 == wd(), vp_i0 <= vp_e0, depth < lv(), jpre(MNode::C(*this), MNode::<H, F, L, W, M>::C(*right), depth as nat), bok(cn(*this)), bok(cn(*right)), $OTM
    inv jpart(size, bits_t, values_t@, MNode::C(*this), MNode::<H, F, L, W, M>::C(*right), depth as nat, $JTM, 0, vp_i0 as nat), unchangedl ==> samek(bits_t, values_t@, MNode::C(*this), depth as nat, 0, vp_i0 as nat)
    begin fm_step::<H, F, K, V, L, W, M, ReduceT, BothOp, LeftOp, RightOp>(size, bits_t, values_t@, unchangedl, MNode::C(*this), MNode::<H, F, L, W, M>::C(*right), depth as nat, both_op, left_op, right_op, (vp_i0 - 1) as nat);
  ensures jd(tz(res, MNode::C(*this)), Some(MNode::C(*this)), Some(MNode::<H, F, L, W, M>::C(*right)), depth as nat, $JTM)
fn cnode::transform_with_transmuted_lnode (this, right, reduce_op, both_op, left_op, right_op, depth, par_strat) : C10
  hide jpart, jd, wf, look, udone, tdone, jkid, jpre, mukey, samek
  requires $OTM
  requires jpre(MNode::C(*this), MNode::<H, F, L, W, M>::L(*right), depth as nat), depth <= lv()
  pre j_pre(MNode::C(*this), MNode::<H, F, L, W, M>::L(*right), depth as nat); fm_init::<H, F, K, V, L, W, M, ReduceT, BothOp, LeftOp, RightOp>(MNode::C(*this), MNode::<H, F, L, W, M>::L(*right), depth as nat, both_op, left_op, right_op, dflt::<F>(), Seq::<MNode<H, F, K, V, M>>::empty(), 0); lu_from::<H, F, L, W, M, K, V, ReduceT, RightOp>(MNode::<H, F, L, W, M>::L(*right), right_op);
  loop 0
    inv vp_e0 == wd(), vp_i0 <= vp_e0, depth < lv(), jpre(MNode::C(*this), MNode::<H, F, L, W, M>::L(*right), depth as nat), bok(cn(*this)), bpos(flag) == Some(hdg(hid(kid(right.key)), depth as nat)), lwf(**right), $OTM
    inv jpart(size, bits_t, values_t@, MNode::C(*this), MNode::<H, F, L, W, M>::L(*right), depth as nat, $JTM, 0, vp_i0 as nat), unchangedl ==> samek(bits_t, values_t@, MNode::C(*this), depth as nat, 0, vp_i0 as nat)
    begin fm_step::<H, F, K, V, L, W, M, ReduceT, BothOp, LeftOp, RightOp>(size, bits_t, values_t@, unchangedl, MNode::C(*this), MNode::<H, F, L, W, M>::L(*right), depth as nat, both_op, left_op, right_op, (vp_i0 - 1) as nat); lu_from::<H, F, L, W, M, K, V, ReduceT, RightOp>(MNode::<H, F, L, W, M>::L(*right), right_op);
  ensures jd(tz(res, MNode::C(*this)), Some(MNode::C(*this)), Some(MNode::<H, F, L, W, M>::L(*right)), depth as nat, $JTM)
fn cnode::transform_with_transmuted_snode (this, right, reduce_op, both_op, left_op, right_op, depth, par_strat) : C10
  hide jpart, jd, wf, look, udone, tdone, jkid, jpre, mukey, samek
  requires $OTM
  requires jpre(MNode::C(*this), MNode::<H, F, L, W, M>::S(*right), depth as nat), depth <= lv()
  pre j_pre(MNode::C(*this), MNode::<H, F, L, W, M>::S(*right), depth as nat); fm_init::<H, F, K, V, L, W, M, ReduceT, BothOp, LeftOp, RightOp>(MNode::C(*this), MNode::<H, F, L, W, M>::S(*right), depth as nat, both_op, left_op, right_op, dflt::<F>(), Seq::<MNode<H, F, K, V, M>>::empty(), 0); lu_from::<H, F, L, W, M, K, V, ReduceT, RightOp>(MNode::<H, F, L, W, M>::S(*right), right_op);
  loop 0
    inv vp_e0 == wd(), vp_i0 <= vp_e0, depth < lv(), jpre(MNode::C(*this), MNode::<H, F, L, W, M>::S(*right), depth as nat), bok(cn(*this)), bpos(flag) == Some(hdg(hid(kid(right.key)), depth as nat)), $OTM
    inv jpart(size, bits_t, values_t@, MNode::C(*this), MNode::<H, F, L, W, M>::S(*right), depth as nat, $JTM, 0, vp_i0 as nat), unchangedl ==> samek(bits_t, values_t@, MNode::C(*this), depth as nat, 0, vp_i0 as nat)
    begin fm_step::<H, F, K, V, L, W, M, ReduceT, BothOp, LeftOp, RightOp>(size, bits_t, values_t@, unchangedl, MNode::C(*this), MNode::<H, F, L, W, M>::S(*right), depth as nat, both_op, left_op, right_op, (vp_i0 - 1) as nat); lu_from::<H, F, L, W, M, K, V, ReduceT, RightOp>(MNode::<H, F, L, W, M>::S(*right), right_op);
  ensures jd(tz(res, MNode::C(*this)), Some(MNode::C(*this)), Some(MNode::<H, F, L, W, M>::S(*right)), depth as nat, $JTM)
fn cnode::transmute_with_transformed_cnode (this, right, reduce_op, both_op, left_op, right_op, depth, par_strat) : C10,C13
  hide jpart, jd, wf, look, udone, tdone, jkid, jpre, mukey, samek
  requires $OMT
  requires jpre(MNode::C(*this), MNode::<H, F, L, W, M>::C(*right), depth as nat), depth <= lv()
  pre j_pre(MNode::C(*this), MNode::<H, F, L, W, M>::C(*right), depth as nat); mf_init::<H, F, K, V, L, W, M, ReduceT, BothOp, LeftOp, RightOp>(MNode::C(*this), MNode::<H, F, L, W, M>::C(*right), depth as nat, both_op, left_op, right_op, dflt::<F>(), Seq::<MNode<H, F, L, W, M>>::empty(), 0);
  loop 0
    inv vp_e0 == wd(), vp_i0 <= vp_e0, depth < lv(), jpre(MNode::C(*this), MNode::<H, F, L, W, M>::C(*right), depth as nat), bok(cn(*this)), bok(cn(*right)), $OMT
    inv jpart(size, bits_t, values_t@, MNode::C(*this), MNode::<H, F, L, W, M>::C(*right), depth as nat, $JMT, 0, vp_i0 as nat), unchangedr ==> samek(bits_t, values_t@, MNode::<H, F, L, W, M>::C(*right), depth as nat, 0, vp_i0 as nat)
    begin mf_step::<H, F, K, V, L, W, M, ReduceT, BothOp, LeftOp, RightOp>(size, bits_t, values_t@, unchangedr, MNode::C(*this), MNode::<H, F, L, W, M>::C(*right), depth as nat, both_op, left_op, right_op, (vp_i0 - 1) as nat);
  ensures jd(tz(res, MNode::<H, F, L, W, M>::C(*right)), Some(MNode::C(*this)), Some(MNode::<H, F, L, W, M>::C(*right)), depth as nat, $JMT)
fn cnode::transmute_with_transformed_lnode (this, right, reduce_op, both_op, left_op, right_op, depth) : C10
  hide jpart, jd, wf, look, udone, tdone, jkid, jpre, mukey, samek
  requires $OMT
  requires jpre(MNode::C(*this), MNode::<H, F, L, W, M>::L(*right), depth as nat), depth <= lv()
  pre j_pre(MNode::C(*this), MNode::<H, F, L, W, M>::L(*right), depth as nat); mf_init::<H, F, K, V, L, W, M, ReduceT, BothOp, LeftOp, RightOp>(MNode::C(*this), MNode::<H, F, L, W, M>::L(*right), depth as nat, both_op, left_op, right_op, dflt::<F>(), Seq::<MNode<H, F, L, W, M>>::empty(), 0); lt_from::<H, F, L, W, M, ReduceT, RightOp>(MNode::<H, F, L, W, M>::L(*right), right_op);
  loop 0
    inv vp_e0 == wd(), vp_i0 <= vp_e0, depth < lv(), jpre(MNode::C(*this), MNode::<H, F, L, W, M>::L(*right), depth as nat), bok(cn(*this)), bpos(flag) == Some(hdg(hid(kid(right.key)), depth as nat)), wfx(MNode::<H, F, L, W, M>::L(*right)), lwf(**right), $OMT
    inv jpart(size, bits_t, values_t@, MNode::C(*this), MNode::<H, F, L, W, M>::L(*right), depth as nat, $JMT, 0, vp_i0 as nat), unchangedr ==> samek(bits_t, values_t@, MNode::<H, F, L, W, M>::L(*right), depth as nat, 0, vp_i0 as nat)
    begin mf_step::<H, F, K, V, L, W, M, ReduceT, BothOp, LeftOp, RightOp>(size, bits_t, values_t@, unchangedr, MNode::C(*this), MNode::<H, F, L, W, M>::L(*right), depth as nat, both_op, left_op, right_op, (vp_i0 - 1) as nat); lt_from::<H, F, L, W, M, ReduceT, RightOp>(MNode::<H, F, L, W, M>::L(*right), right_op);
  ensures jd(tz(res, MNode::<H, F, L, W, M>::L(*right)), Some(MNode::C(*this)), Some(MNode::<H, F, L, W, M>::L(*right)), depth as nat, $JMT)
fn cnode::transmute_with_transformed_snode (this, right, reduce_op, both_op, left_op, right_op, depth, par_strat) : C10
  hide jpart, jd, wf, look, udone, tdone, jkid, jpre, mukey, samek
  requires $OMT
  requires jpre(MNode::C(*this), MNode::<H, F, L, W, M>::S(*right), depth as nat), depth <= lv()
  pre j_pre(MNode::C(*this), MNode::<H, F, L, W, M>::S(*right), depth as nat); mf_init::<H, F, K, V, L, W, M, ReduceT, BothOp, LeftOp, RightOp>(MNode::C(*this), MNode::<H, F, L, W, M>::S(*right), depth as nat, both_op, left_op, right_op, dflt::<F>(), Seq::<MNode<H, F, L, W, M>>::empty(), 0); lt_from::<H, F, L, W, M, ReduceT, RightOp>(MNode::<H, F, L, W, M>::S(*right), right_op);
  loop 0
    inv vp_e0 == wd(), vp_i0 <= vp_e0, depth < lv(), jpre(MNode::C(*this), MNode::<H, F, L, W, M>::S(*right), depth as nat), bok(cn(*this)), bpos(flag) == Some(hdg(hid(kid(right.key)), depth as nat)), wfx(MNode::<H, F, L, W, M>::S(*right)), $OMT
    inv jpart(size, bits_t, values_t@, MNode::C(*this), MNode::<H, F, L, W, M>::S(*right), depth as nat, $JMT, 0, vp_i0 as nat), unchangedr ==> samek(bits_t, values_t@, MNode::<H, F, L, W, M>::S(*right), depth as nat, 0, vp_i0 as nat)
    begin mf_step::<H, F, K, V, L, W, M, ReduceT, BothOp, LeftOp, RightOp>(size, bits_t, values_t@, unchangedr, MNode::C(*this), MNode::<H, F, L, W, M>::S(*right), depth as nat, both_op, left_op, right_op, (vp_i0 - 1) as nat); lt_from::<H, F, L, W, M, ReduceT, RightOp>(MNode::<H, F, L, W, M>::S(*right), right_op);
  ensures jd(tz(res, MNode::<H, F, L, W, M>::S(*right)), Some(MNode::C(*this)), Some(MNode::<H, F, L, W, M>::S(*right)), depth as nat, $JMT)
fn cnode::transform_with_transmuted (this, right, reduce_op, both_op, left_op, right_op, depth, par_strat) : C10
  requires $OTM
  requires jpre(MNode::C(*this), *right, depth as nat), depth <= lv()
  ensures jd(tz(res, MNode::C(*this)), Some(MNode::C(*this)), Some(*right), depth as nat, $JTM)
fn lnode::transform_with_transmuted (this, right, reduce_op, both_op, left_op, right_op, depth) : C10
  requires $OTM
  requires jpre(MNode::L(*this), *right, depth as nat), depth <= lv()
  ensures jd(tz(res, MNode::L(*this)), Some(MNode::L(*this)), Some(*right), depth as nat, $JTM)
fn snode::transform_with_transmuted (this, right, reduce_op, both_op, left_op, right_op, depth, par_strat) : C10
  requires $OTM
  requires jpre(MNode::S(*this), *right, depth as nat), depth <= lv()
  ensures jd(tz(res, MNode::S(*this)), Some(MNode::S(*this)), Some(*right), depth as nat, $JTM)
fn mnode::MNode::transform_with_transmuted (self, right, reduce_op, both_op, left_op, right_op, depth, par_strat) : C10
  requires $OTM
  requires jpre(*self, *right, depth as nat), depth <= lv()
  ensures jd(tz(res, *self), Some(*self), Some(*right), depth as nat, $JTM)
fn mnode::MNode::transform_with_transmuted_lnode (self, right, reduce_op, both_op, left_op, right_op, depth, par_strat) : C10
  requires $OTM
  requires jpre(*self, MNode::<H, F, L, W, M>::L(*right), depth as nat), depth <= lv()
  ensures jd(tz(res, *self), Some(*self), Some(MNode::<H, F, L, W, M>::L(*right)), depth as nat, $JTM)
fn mnode::MNode::transform_with_transmuted_snode (self, right, reduce_op, both_op, left_op, right_op, depth, par_strat) : C10
  requires $OTM
  requires jpre(*self, MNode::<H, F, L, W, M>::S(*right), depth as nat), depth <= lv()
  ensures jd(tz(res, *self), Some(*self), Some(MNode::<H, F, L, W, M>::S(*right)), depth as nat, $JTM)
fn hash_trie::HashTrie::transform_with_transmuted (self, right, reduce_op, both_op, left_op, right_op, par_strat) : C10
  requires $OTM
  requires twf(*self), twf(*right), sz(self.root) + sz(right.root) <= cap()
  hide jtmx, jd, jtm, jpre, mukey, look
  pre fm_top::<H, F, K, V, L, W, M, ReduceT, BothOp, LeftOp, RightOp>(self.root, right.root, both_op, left_op, right_op); z_none(self.root); z_none(right.root);
  post assert forall|x: int| #[trigger] tl(res.0, x) == jtmx::<K, V, L, W, ReduceT, BothOp, LeftOp, RightOp>(both_op, left_op, right_op, tl(*self, x), tl(*right, x)) by { };
  ensures forall|x: int| #[trigger] tl(res.0, x) == jtmx::<K, V, L, W, ReduceT, BothOp, LeftOp, RightOp>(both_op, left_op, right_op, tl(*self, x), tl(*right, x))
  ensures[C04,C10] twf(res.0), sz(res.0.root) <= sz(self.root) + sz(right.root)
fn map::HashTrieMap::transform_with_transmuted (self, right, reduce_op, both_op, left_op, right_op, par_strat) : C10
  requires $OTM
  requires twf(self.set), twf(right.set), sz(self.set.root) + sz(right.set.root) <= cap()
  ensures forall|x: int| #[trigger] tl(res.0.set, x) == jtmx::<K, V, L, W, ReduceT, BothOp, LeftOp, RightOp>(both_op, left_op, right_op, tl(self.set, x), tl(right.set, x))
  ensures[C04,C10] twf(res.0.set), sz(res.0.set.root) <= sz(self.set.root) + sz(right.set.root)
fn cnode::transmute_with_transformed (this, right, reduce_op, both_op, left_op, right_op, depth, par_strat) : C10
  requires $OMT
  requires jpre(MNode::C(*this), *right, depth as nat), depth <= lv()
  ensures jd(tz(res, *right), Some(MNode::C(*this)), Some(*right), depth as nat, $JMT)
fn lnode::transmute_with_transformed (this, right, reduce_op, both_op, left_op, right_op, depth, par_strat) : C10
  requires $OMT
  requires jpre(MNode::L(*this), *right, depth as nat), depth <= lv()
  ensures jd(tz(res, *right), Some(MNode::L(*this)), Some(*right), depth as nat, $JMT)
fn snode::transmute_with_transformed (this, right, reduce_op, both_op, left_op, right_op, depth, par_strat) : C10
  requires $OMT
  requires jpre(MNode::S(*this), *right, depth as nat), depth <= lv()
  ensures jd(tz(res, *right), Some(MNode::S(*this)), Some(*right), depth as nat, $JMT)
fn mnode::MNode::transmute_with_transformed (self, right, reduce_op, both_op, left_op, right_op, depth, par_strat) : C10
  requires $OMT
  requires jpre(*self, *right, depth as nat), depth <= lv()
  ensures jd(tz(res, *right), Some(*self), Some(*right), depth as nat, $JMT)
fn mnode::MNode::transmute_with_transformed_lnode (self, right, reduce_op, both_op, left_op, right_op, depth) : C10
  requires $OMT
  requires jpre(*self, MNode::<H, F, L, W, M>::L(*right), depth as nat), depth <= lv()
  ensures jd(tz(res, MNode::<H, F, L, W, M>::L(*right)), Some(*self), Some(MNode::<H, F, L, W, M>::L(*right)), depth as nat, $JMT)
fn mnode::MNode::transmute_with_transformed_snode (self, right, reduce_op, both_op, left_op, right_op, depth, par_strat) : C10
  requires $OMT
  requires jpre(*self, MNode::<H, F, L, W, M>::S(*right), depth as nat), depth <= lv()
  ensures jd(tz(res, MNode::<H, F, L, W, M>::S(*right)), Some(*self), Some(MNode::<H, F, L, W, M>::S(*right)), depth as nat, $JMT)
fn hash_trie::HashTrie::transmute_with_transformed (self, right, reduce_op, both_op, left_op, right_op, par_strat) : C10
  requires $OMT
  requires twf(*self), twf(*right), sz(self.root) + sz(right.root) <= cap()
  hide jmtx, jd, jmt, jpre, mukey, look
  pre mf_top::<H, F, K, V, L, W, M, ReduceT, BothOp, LeftOp, RightOp>(self.root, right.root, both_op, left_op, right_op); z_none(self.root); z_none(right.root);
  post assert forall|x: int| #[trigger] tl(res.0, x) == jmtx::<K, V, L, W, ReduceT, BothOp, LeftOp, RightOp>(both_op, left_op, right_op, tl(*self, x), tl(*right, x)) by { };
  ensures forall|x: int| #[trigger] tl(res.0, x) == jmtx::<K, V, L, W, ReduceT, BothOp, LeftOp, RightOp>(both_op, left_op, right_op, tl(*self, x), tl(*right, x))
  ensures[C04,C10] twf(res.0), sz(res.0.root) <= sz(self.root) + sz(right.root)
fn map::HashTrieMap::transmute_with_transformed (self, right, reduce_op, both_op, left_op, right_op, par_strat) : C10
  requires $OMT
  requires twf(self.set), twf(right.set), sz(self.set.root) + sz(right.set.root) <= cap()
  ensures forall|x: int| #[trigger] tl(res.0.set, x) == jmtx::<K, V, L, W, ReduceT, BothOp, LeftOp, RightOp>(both_op, left_op, right_op, tl(self.set, x), tl(right.set, x))
  ensures[C04,C10] twf(res.0.set), sz(res.0.set.root) <= sz(self.set.root) + sz(right.set.root)
