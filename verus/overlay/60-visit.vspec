fn snode::SNode::visit (self, op) : C06
  requires pure2::<K, V, VpLog, Op>(op)
  ensures viss::<K, V, Op>(op, *self, *old(vp_log), *final(vp_log))
  post vis_s::<K, V, Op>(op, *self, *old(vp_log), *vp_log);
fn lnode::LNode::visit (self, op) : C06
  requires pure2::<K, V, VpLog, Op>(op)
  ensures visla::<K, V, Op>(op, *self, *old(vp_log), *final(vp_log))
  post if lwf(*self) { vis_l::<K, V, Op>(op, *self, *old(vp_log), *vp_log); }
fn cnode::CNode::visit (self, op) : C06
  requires pure2::<K, V, VpLog, Op>(op)
  ensures visa::<H, F, K, V, M, Op>(op, MNode::C(*self), *old(vp_log), *final(vp_log))
  hide visca, visl, visla, viss, wf, lwf, look
  pre vis_c0::<H, F, K, V, M, Op>(op, *self, *vp_log);
  loop 0
    inv pure2::<K, V, VpLog, Op>(op), vp_s0@ == cv(*self), vp_i0 <= vp_s0@.len()
    inv visca::<H, F, K, V, M, Op>(op, *self, vp_i0 as nat, *old(vp_log), *vp_log)
    begin vis_cstep::<H, F, K, V, M, Op>(op, *self, (vp_i0 - 1) as nat, *old(vp_log), *vp_log); vis_nn::<H, F, K, V, M, Op>(op, cv(*self)[vp_i0 - 1]);
  post vis_cend::<H, F, K, V, M, Op>(op, *self, *old(vp_log), *vp_log);
fn mnode::MNode::visit (self, op) : C06
  requires pure2::<K, V, VpLog, Op>(op)
  ensures visa::<H, F, K, V, M, Op>(op, *self, *old(vp_log), *final(vp_log))
  pre vis_nn::<H, F, K, V, M, Op>(op, *self);
fn hash_trie::HashTrie::visit (self, op) : C06
  requires pure2::<K, V, VpLog, Op>(op), twf(*self)
  ensures mred(cat(), old(vp_log)@, final(vp_log)@, tvd::<H, F, K, V, M, Op>(op, *self))
  post mr_ext(cat(), old(vp_log)@, vp_log@, vdn::<H, F, K, V, M, Op>(op, self.root, 0), tvd::<H, F, K, V, M, Op>(op, *self));
fn map::HashTrieMap::visit (self, op) : C06
  requires pure2::<K, V, VpLog, Op>(op), twf(self.set)
  closure 0 (p0: &K, p1: &V) -> (r: VpLog)
    creq true
    cens r@ == fap2::<Op, K, V, VpLog>(op, *p0, *p1)@
  ensures mred(cat(), old(vp_log)@, final(vp_log)@, tvd::<H, F, K, V, M, Op>(op, self.set))
  post mv_end::<H, F, K, V, M, Op>(op, self.set, old(vp_log)@, vp_log@);
fn set::HashTrieSet::visit (self, op) : C06
  requires pure1::<K, VpLog, Op>(op), twf(self.set)
  closure 0 (p0: &K, p1: &()) -> (r: VpLog)
    creq true
    cens r@ == fap1::<Op, K, VpLog>(op, *p0)@
  ensures mred(cat(), old(vp_log)@, final(vp_log)@, svd::<H, F, K, M, Op>(op, self.set))
  post sv_end::<H, F, K, M, Op>(op, self.set, old(vp_log)@, vp_log@);
