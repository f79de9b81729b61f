def UT K, V, L, W, S, X, ReduceT, BothOp, LeftOp, RightOp
def OPS muok4::<K, V, L, W, S, X, ReduceT, BothOp>(both_op), mukey4::<K, V, L, W, S, X, ReduceT, BothOp>(both_op), muok::<K, V, S, X, ReduceT, LeftOp>(left_op), mukey::<K, V, S, X, ReduceT, LeftOp>(left_op), muok::<L, W, S, X, ReduceT, RightOp>(right_op), mukey::<L, W, S, X, ReduceT, RightOp>(right_op), pure2::<ReduceT, ReduceT, ReduceT, ReduceOp>(reduce_op)
def JU ju::<K, V, L, W, S, X, ReduceT, BothOp, LeftOp, RightOp>(both_op, left_op, right_op)
def GV gv::<K, V, L, W, S, X, ReduceT, BothOp, LeftOp, RightOp>(both_op, left_op, right_op
def GZ gz::<K, V, L, W, S, X, ReduceT, BothOp, LeftOp, RightOp>(both_op, left_op, right_op
def GI gi::<K, V, L, W, S, X, ReduceT, BothOp, LeftOp>(both_op, left_op
def GK gk::<K, V, L, W, S, X, ReduceT, BothOp, LeftOp, RightOp>(both_op, left_op, right_op
fn transformations::MapTransmute::call_transmute (self, k, v, l, w) : C11
  requires muok4::<K, V, L, W, S, X, ReduceT, F>(*self)
  ensures res == mu4::<K, V, L, W, S, X, ReduceT, F>(*self, *k, *v, *l, *w)
fn transformations::MapTransmute::flip (self) : C11
  requires muok4::<K, V, L, W, S, X, ReduceT, F>(*self)
  closure 0 (l: &L, w: &W, k: &K, v: &V) -> (r: MapTransmuteResult<S, X, ReduceT>)
    creq true
    cens r == fap4r::<F, K, V, L, W, MapTransmuteResult<S, X, ReduceT>>(&g, k, v, l, w)
  post flip_ok4::<K, V, L, W, S, X, ReduceT, F, _>(*self, res);
  ensures muok4::<L, W, K, V, S, X, ReduceT, _>(res)
  ensures uflip::<K, V, L, W, S, X, ReduceT, F, _>(*self, res)
fn snode::transmute_with_transmuted_values (this_key, this_value, right_key, right_value, reduce_op, both_op, left_op, right_op) : C11
  requires $OPS
  requires hid(kid(*this_key)) == hid(kid(*right_key))
  post lall_u(res);
  ensures olreal(lunode(res), if kid(*this_key) == kid(*right_key) { 1 } else { 2 }, $GV, *this_key, *this_value, *right_key, *right_value))
fn snode::transmute_with_transmuted_snode (this, right, reduce_op, both_op, left_op, right_op, depth) : C11
  requires $OPS
  requires jpre::<H, F, K, V, L, W, M>(MNode::S(*this), MNode::S(*right), depth as nat), depth <= lv()
  pre let a = LNodeNext::S(*this); let b = LNodeNext::S(*right); gz_s::<$UT>(both_op, left_op, right_op, a, *right); lj_u::<H, F, K, V, L, W, S, X, M, ReduceT>(a, b, depth as nat, $JU);
      l_apart::<H, F, K, V, L, W, M>(a, b, depth as nat); if hid(nid(a)) != hid(nid(b)) { u_split::<H, F, K, V, L, W, S, X, M, ReduceT, BothOp, LeftOp, RightOp>(a, b, depth as nat, both_op, left_op, right_op); u_hashed::<K, V, S, X, ReduceT, LeftOp>(a, left_op); u_hashed::<L, W, S, X, ReduceT, RightOp>(b, right_op); }
  ensures jd(unode(res), Some(MNode::<H, F, K, V, M>::S(*this)), Some(MNode::<H, F, L, W, M>::S(*right)), depth as nat, $JU)
fn lnode::transmute_with_transmuted_snode_impl (this, right, reduce_op, both_op, left_op, right_op) : C11
  requires $OPS
  requires lwf(**this), hid(kid(this.key)) == hid(kid(right.key)), nsz(LNodeNext::L(*this)) < usize::MAX
  pre lall(*this); ln_hid(*this); gz_step::<$UT>(both_op, left_op, right_op, *this, *right); gz_s::<$UT>(both_op, left_op, right_op, ln(*this), *right);
  ensures olreal(lunode(res), nsz(LNodeNext::L(*this)) + 1, $GZ, LNodeNext::L(*this), *right))
fn lnode::transmute_with_transmuted_snode (this, right, reduce_op, both_op, left_op, right_op, depth) : C11
  requires $OPS
  requires jpre::<H, F, K, V, L, W, M>(MNode::L(*this), MNode::S(*right), depth as nat), depth <= lv()
  pre let a = LNodeNext::L(*this); let b = LNodeNext::S(*right); gz_s::<$UT>(both_op, left_op, right_op, a, *right); lj_u::<H, F, K, V, L, W, S, X, M, ReduceT>(a, b, depth as nat, $JU);
      l_apart::<H, F, K, V, L, W, M>(a, b, depth as nat); if hid(nid(a)) != hid(nid(b)) { u_split::<H, F, K, V, L, W, S, X, M, ReduceT, BothOp, LeftOp, RightOp>(a, b, depth as nat, both_op, left_op, right_op); u_hashed::<K, V, S, X, ReduceT, LeftOp>(a, left_op); u_hashed::<L, W, S, X, ReduceT, RightOp>(b, right_op); }
  ensures jd(unode(res), Some(MNode::<H, F, K, V, M>::L(*this)), Some(MNode::<H, F, L, W, M>::S(*right)), depth as nat, $JU)
fn lnode::transmute_with_transmuted_lnode_impl (this, rights, reduce_op, both_op, left_op, right_op) : C11
  hide olreal, gi, rtake, rswap, rfind, runq, ontou, fits, mukey, mukey4, lwf, nfind
  requires $OPS
  requires lwf(**this), runq(old(rights)@), forall|x: int| (#[trigger] rfind(old(rights)@, x)) is Some ==> hid(x) == hid(kid(this.key))
  pre ln_hid(*this); rt_s::<K, V, L, W>(ln(*this), old(rights)@); rt_l::<K, V, L, W>(*this, old(rights)@); gi_put::<K, V, L, W, S, X, ReduceT, BothOp, LeftOp>(both_op, left_op, *this, old(rights)@); gi_s::<$UT>(both_op, left_op, right_op, ln(*this), old(rights)@);
      gi_base::<K, V, L, W>(ln(*this), old(rights)@);
  loop 0
    inv vp_i0 <= rights.len(), rights@ == old(rights)@, vp_f0 is None ==> rnot(rights@, vp_i0 as int, kid(snode.key)), vp_f0 is Some ==> vp_f0->0 < rights.len() && kid(*rights@[vp_f0->0 as int].0) == kid(snode.key)
  loop 1
    inv vp_i1 <= rights.len(), runq(rights@), rtake(old(rights)@, rights@, this.next), vp_f1 is None ==> rnot(rights@, vp_i1 as int, kid(this.key)), vp_f1 is Some ==> vp_f1->0 < rights.len() && kid(*rights@[vp_f1->0 as int].0) == kid(this.key)
  ensures rtake(old(rights)@, final(rights)@, LNodeNext::L(*this))
  ensures olreal(lunode(res), nsz(LNodeNext::L(*this)), $GI, LNodeNext::L(*this), old(rights)@))
fn lnode::transmute_with_transmuted_lnode (this, right, reduce_op, both_op, left_op, right_op, depth) : C11
  hide olreal, gk, gi, rall, rbuild, rleft, rtake, rfind, runq, mukey, mukey4, nfind, lj, jd, ludone, hashed, lwf, nwf
  requires $OPS
  requires jpre::<H, F, K, V, L, W, M>(MNode::L(*this), MNode::L(*right), depth as nat), depth <= lv()
  pre let a = LNodeNext::L(*this); let b = LNodeNext::L(*right); lj_u::<H, F, K, V, L, W, S, X, M, ReduceT>(a, b, depth as nat, $JU); ll_init::<H, F, K, V, L, W, M>(*this, *right, depth as nat); rb_init(*right); h_from::<H, F, S, X, M>();
      gk_init::<$UT>(both_op, left_op, right_op, a, b);
      if hid(nid(a)) != hid(nid(b)) { l_apart::<H, F, K, V, L, W, M>(a, b, depth as nat); u_split::<H, F, K, V, L, W, S, X, M, ReduceT, BothOp, LeftOp, RightOp>(a, b, depth as nat, both_op, left_op, right_op); u_hashed::<K, V, S, X, ReduceT, LeftOp>(a, left_op); u_hashed::<L, W, S, X, ReduceT, RightOp>(b, right_op); }
  loop 0
    xinv rbuild(rights@, r.next, LNodeNext::L(*right))
    lens rall(rights@, LNodeNext::L(*right))
    begin rb_step(rights@, ln(*r), LNodeNext::L(*right));
  loop 1
    inv vp_i1 <= vp_s1.len(), rleft(vp_s1@, LNodeNext::L(*this), LNodeNext::L(*right)), nsz(LNodeNext::L(*this)) + nsz(LNodeNext::L(*right)) < usize::MAX, vp_s1.len() <= nsz(LNodeNext::L(*right)), nwf(LNodeNext::L(*this)), nwf(LNodeNext::L(*right)), hid(nid(LNodeNext::L(*this))) == hid(nid(LNodeNext::L(*right))), $OPS
    inv olreal(lunode(next), nsz(LNodeNext::L(*this)) + vp_i1 as nat, $GK, LNodeNext::L(*this), LNodeNext::L(*right), vp_s1@.take(vp_i1 as int)))
    begin gk_put::<$UT>(both_op, left_op, right_op, LNodeNext::L(*this), LNodeNext::L(*right), vp_s1@, vp_i1 - 1);
  ensures jd(unode(res), Some(MNode::<H, F, K, V, M>::L(*this)), Some(MNode::<H, F, L, W, M>::L(*right)), depth as nat, $JU)
fn cnode::transmute_with_transmuted_cnode (this, right, reduce_op, both_op, left_op, right_op, depth) : C11
  hide jpart, jd, wf, look, udone, jkid, jpre, mukey, mukey4
  requires $OPS
  requires jpre(MNode::C(*this), MNode::C(*right), depth as nat), depth <= lv()
  pre j_pre(MNode::C(*this), MNode::C(*right), depth as nat); ju_none::<$UT>(both_op, left_op, right_op); j_fin::<H, F, K, V, L, W, S, X, M, ReduceT>(MNode::C(*this), MNode::C(*right), depth as nat, $JU); j_new::<H, F, K, V, L, W, S, X, M>(MNode::C(*this), MNode::C(*right), depth as nat, $JU, 0, 0);
  loop 0
    inv vp_e0 == wd(), vp_i0 <= vp_e0, depth < lv(), jpre(MNode::C(*this), MNode::C(*right), depth as nat), bok(cn(*this)), bok(cn(*right)), $OPS
    inv jpart(size, bits_t, values_t@, MNode::C(*this), MNode::C(*right), depth as nat, $JU, 0, vp_i0 as nat)
    begin j_step::<H, F, K, V, L, W, S, X, M, ReduceT, BothOp, LeftOp, RightOp>(size, bits_t, values_t@, MNode::C(*this), MNode::C(*right), depth as nat, both_op, left_op, right_op, 0, (vp_i0 - 1) as nat); jkid_all(MNode::C(*this), MNode::C(*right), depth as nat, (vp_i0 - 1) as nat);
  ensures jd(unode(res), Some(MNode::C(*this)), Some(MNode::C(*right)), depth as nat, $JU)
fn cnode::transmute_with_transmuted_lnode (this, right, reduce_op, both_op, left_op, right_op, depth) : C11
  hide jpart, jd, wf, look, udone, jkid, jpre, mukey, mukey4
  requires $OPS
  requires jpre(MNode::C(*this), MNode::<H, F, L, W, M>::L(*right), depth as nat), depth <= lv()
  pre j_pre(MNode::C(*this), MNode::<H, F, L, W, M>::L(*right), depth as nat); ju_none::<$UT>(both_op, left_op, right_op); j_fin::<H, F, K, V, L, W, S, X, M, ReduceT>(MNode::C(*this), MNode::<H, F, L, W, M>::L(*right), depth as nat, $JU); j_new::<H, F, K, V, L, W, S, X, M>(MNode::C(*this), MNode::<H, F, L, W, M>::L(*right), depth as nat, $JU, 0, 0); lu_from::<H, F, L, W, M, S, X, ReduceT, RightOp>(MNode::<H, F, L, W, M>::L(*right), right_op);
  loop 0
    inv vp_e0 == wd(), vp_i0 <= vp_e0, depth < lv(), jpre(MNode::C(*this), MNode::<H, F, L, W, M>::L(*right), depth as nat), bok(cn(*this)), $OPS, bpos(flag) == Some(hdg(hid(kid(right.key)), depth as nat)), lwf(**right)
    inv jpart(size, bits_t, values_t@, MNode::C(*this), MNode::<H, F, L, W, M>::L(*right), depth as nat, $JU, 0, vp_i0 as nat)
    begin j_step::<H, F, K, V, L, W, S, X, M, ReduceT, BothOp, LeftOp, RightOp>(size, bits_t, values_t@, MNode::C(*this), MNode::<H, F, L, W, M>::L(*right), depth as nat, both_op, left_op, right_op, 0, (vp_i0 - 1) as nat); jkid_all(MNode::C(*this), MNode::<H, F, L, W, M>::L(*right), depth as nat, (vp_i0 - 1) as nat); lu_from::<H, F, L, W, M, S, X, ReduceT, RightOp>(MNode::<H, F, L, W, M>::L(*right), right_op);
  ensures jd(unode(res), Some(MNode::C(*this)), Some(MNode::<H, F, L, W, M>::L(*right)), depth as nat, $JU)
fn cnode::transmute_with_transmuted_snode (this, right, reduce_op, both_op, left_op, right_op, depth) : C11
  hide jpart, jd, wf, look, udone, jkid, jpre, mukey, mukey4
  requires $OPS
  requires jpre(MNode::C(*this), MNode::<H, F, L, W, M>::S(*right), depth as nat), depth <= lv()
  pre j_pre(MNode::C(*this), MNode::<H, F, L, W, M>::S(*right), depth as nat); ju_none::<$UT>(both_op, left_op, right_op); j_fin::<H, F, K, V, L, W, S, X, M, ReduceT>(MNode::C(*this), MNode::<H, F, L, W, M>::S(*right), depth as nat, $JU); j_new::<H, F, K, V, L, W, S, X, M>(MNode::C(*this), MNode::<H, F, L, W, M>::S(*right), depth as nat, $JU, 0, 0); lu_from::<H, F, L, W, M, S, X, ReduceT, RightOp>(MNode::<H, F, L, W, M>::S(*right), right_op);
  loop 0
    inv vp_e0 == wd(), vp_i0 <= vp_e0, depth < lv(), jpre(MNode::C(*this), MNode::<H, F, L, W, M>::S(*right), depth as nat), bok(cn(*this)), $OPS, bpos(flag) == Some(hdg(hid(kid(right.key)), depth as nat))
    inv jpart(size, bits_t, values_t@, MNode::C(*this), MNode::<H, F, L, W, M>::S(*right), depth as nat, $JU, 0, vp_i0 as nat)
    begin j_step::<H, F, K, V, L, W, S, X, M, ReduceT, BothOp, LeftOp, RightOp>(size, bits_t, values_t@, MNode::C(*this), MNode::<H, F, L, W, M>::S(*right), depth as nat, both_op, left_op, right_op, 0, (vp_i0 - 1) as nat); jkid_all(MNode::C(*this), MNode::<H, F, L, W, M>::S(*right), depth as nat, (vp_i0 - 1) as nat); lu_from::<H, F, L, W, M, S, X, ReduceT, RightOp>(MNode::<H, F, L, W, M>::S(*right), right_op);
  ensures jd(unode(res), Some(MNode::C(*this)), Some(MNode::<H, F, L, W, M>::S(*right)), depth as nat, $JU)
fn cnode::transmute_with_transmuted (this, right, reduce_op, both_op, left_op, right_op, depth) : C11
  requires $OPS
  requires jpre(MNode::C(*this), *right, depth as nat), depth <= lv()
  ensures jd(unode(res), Some(MNode::C(*this)), Some(*right), depth as nat, $JU)
fn lnode::transmute_with_transmuted (this, right, reduce_op, both_op, left_op, right_op, depth) : C11
  requires $OPS
  requires jpre(MNode::L(*this), *right, depth as nat), depth <= lv()
  ensures jd(unode(res), Some(MNode::L(*this)), Some(*right), depth as nat, $JU)
fn snode::transmute_with_transmuted (this, right, reduce_op, both_op, left_op, right_op, depth) : C11
  requires $OPS
  requires jpre(MNode::S(*this), *right, depth as nat), depth <= lv()
  ensures jd(unode(res), Some(MNode::S(*this)), Some(*right), depth as nat, $JU)
fn mnode::MNode::transmute_with_transmuted (self, right, reduce_op, both_op, left_op, right_op, depth) : C11
  requires $OPS
  requires jpre(*self, *right, depth as nat), depth <= lv()
  ensures jd(unode(res), Some(*self), Some(*right), depth as nat, $JU)
fn mnode::MNode::transmute_with_transmuted_lnode (self, right, reduce_op, both_op, left_op, right_op, depth) : C11
  requires $OPS
  requires jpre(*self, MNode::<H, F, L, W, M>::L(*right), depth as nat), depth <= lv()
  ensures jd(unode(res), Some(*self), Some(MNode::<H, F, L, W, M>::L(*right)), depth as nat, $JU)
fn mnode::MNode::transmute_with_transmuted_snode (self, right, reduce_op, both_op, left_op, right_op, depth) : C11
  requires $OPS
  requires jpre(*self, MNode::<H, F, L, W, M>::S(*right), depth as nat), depth <= lv()
  ensures jd(unode(res), Some(*self), Some(MNode::<H, F, L, W, M>::S(*right)), depth as nat, $JU)
fn hash_trie::HashTrie::transmute_with_transmuted (self, right, reduce_op, both_op, left_op, right_op) : C11
  requires $OPS
  requires twf(*self), twf(*right), sz(self.root) + sz(right.root) <= cap()
  hide jux, jd, ju, jpre, mukey, mukey4, look
  pre j_top::<H, F, K, V, L, W, S, X, M, ReduceT, BothOp, LeftOp, RightOp>(self.root, right.root, both_op, left_op, right_op);
  post assert forall|x: int| #[trigger] tl(res.0, x) == jux::<$UT>(both_op, left_op, right_op, tl(*self, x), tl(*right, x)) by { };
  ensures forall|x: int| #[trigger] tl(res.0, x) == jux::<$UT>(both_op, left_op, right_op, tl(*self, x), tl(*right, x))
  ensures[C04,C11] twf(res.0), sz(res.0.root) <= sz(self.root) + sz(right.root)
fn map::HashTrieMap::transmute_with_transmuted (self, right, reduce_op, both_op, left_op, right_op) : C11
  requires $OPS
  requires twf(self.set), twf(right.set), sz(self.set.root) + sz(right.set.root) <= cap()
  ensures forall|x: int| #[trigger] tl(res.0.set, x) == jux::<$UT>(both_op, left_op, right_op, tl(self.set, x), tl(right.set, x))
  ensures[C04,C11] twf(res.0.set), sz(res.0.set.root) <= sz(self.set.root) + sz(right.set.root)
