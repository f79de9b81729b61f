fn results::InsertResult::from<CNodeInsertResult> (other) : C01,C02,C05,C14
  spec { res == from_c(other) }
fn results::InsertResult::from<LNodeInsertResult> (other) : C01,C02,C05,C14
  spec { res == from_l(other) }
fn results::RemoveResult::from<LNodeRemoveResult> (other) : C01,C03,C05,C14
  spec { res == from_lrem(other) }
fn results::RemoveResult::from<SNodeRemoveResult> (other) : C01,C03,C05,C14
  spec { res == from_srem(other) }
fn cnode::MNode::from<CNode> (other) : C01
  spec { res == MNode::C(other) }
fn lnode::MNode::from<LNodeNext> (other) : C01
  spec { res == from_next(other) }
fn lnode::MNode::from<LNode> (other) : C01
  spec { res == MNode::L(other) }
fn snode::MNode::from<SNode> (other) : C01
  spec { res == MNode::S(other) }

fn mnode::MNode::clone (self) : C05,C17
  ensures res == *self
fn mnode::MNode::default () : C01,C04
  ensures wf(res, 0), sz(res) == 0, forall|x: int| look(res, 0, x) is None
fn mnode::MNode::size (self) : C04
  ensures res == sz(*self)
fn mnode::MNode::find (self, key, flag) : C01
  requires kf(flag, kid(*key)), wf(*self, fd(flag))
  ensures found(res, look(*self, fd(flag), kid(*key)))
fn mnode::MNode::insert (self, key, value, flag, replace) : C01,C02
  requires kf(flag, kid(key)), wf(*self, fd(flag)), pm(*self, fd(flag), kid(key)), sz(*self) < cap()
  ensures ins_m(*self, fd(flag), key, value, replace, res)
  ensures[C01,C04] insz_m(*self, fd(flag), res)
fn mnode::MNode::remove (self, key, flag) : C01,C03
  requires kf(flag, kid(*key)), wf(*self, fd(flag))
  ensures rem_m(*self, fd(flag), kid(*key), res)
  ensures[C01,C04] remsz_m(*self, fd(flag), res)

fn cnode::CNode::new (nodes) : C01
  ensures *res.nodes == *nodes
fn cnode::CNode::clone (self) : C05,C17
  ensures res == *self
fn cnode::CNode::default () : C01,C04
  ensures cwf(res, 0), cx(res) == 0, forall|x: int| clook(res, 0, x) is None
  post assert forall|j: nat| chok(#[trigger] child(res, j), 0, j) by {}; wf_c2(res, 0);
fn cnode::CNode::size (self) : C04
  ensures res == cx(*self)
fn cnode::CNode::find (self, key, flag) : C01
  requires kf(flag, kid(*key)), cwf(*self, fd(flag))
  ensures found(res, clook(*self, fd(flag), kid(*key)))
fn cnode::CNode::insert (self, key, value, flag, replace) : C01,C02
  requires kf(flag, kid(key)), cwf(*self, fd(flag)), pm(MNode::C(*self), fd(flag), kid(key)), cx(*self) < cap()
  pre let d = fd(flag); let j = dg(kid(key), d); at_slot(*self, d, j); if hb(cb(*self), j) { pm_child(*self, d, kid(key)); }
  post if let CNodeInsertResult::InsertedC(c, p, q, prev) = &res { let d = fd(flag); let j = dg(kid(key), d); let v = cv(*c)[rank(cb(*self), j) as int];
      if hb(cb(*self), j) { c_upd(*self, *c, d, j, v); } else { c_ins(*self, *c, d, j, v); } }
  ensures ins_m(MNode::C(*self), fd(flag), key, value, replace, from_c(res))
  ensures[C01,C04] insz_m(MNode::C(*self), fd(flag), from_c(res))
fn cnode::CNode::remove (self, key, flag) : C01,C03
  requires kf(flag, kid(*key)), cwf(*self, fd(flag))
  pre at_slot(*self, fd(flag), dg(kid(*key), fd(flag)));
  post let d = fd(flag); let j = dg(kid(*key), d);
      if let RemoveResult::RemovedC(c, k, v) = &res { if hb(cb(*c), j) { c_upd(*self, *c, d, j, cv(*c)[rank(cb(*self), j) as int]); } else { c_rem(*self, *c, d, j); } }
      if let RemoveResult::RemovedZ(k, v) = &res { c_only(*self, d, j); }
  ensures rem_m(MNode::C(*self), fd(flag), kid(*key), res)
  ensures[C01,C04] remsz_m(MNode::C(*self), fd(flag), res)
fn cnode::lift_to_cnode_and_insert (this, this_flag, right, right_flag) : C01,C02,C14
  requires flok(this_flag), flok(right_flag), this_flag.depth == right_flag.depth, !(this is C), !(right is C), wf(this, 0), wf(right, 0)
  requires hv(this_flag.hash_value) != hv(right_flag.hash_value)
  requires forall|i: nat| i < this_flag.depth ==> #[trigger] hdg(hv(this_flag.hash_value), i) == hdg(hv(right_flag.hash_value), i)
  requires forall|x: int| (#[trigger] look(this, 0, x)) is Some ==> hid(x) == hv(this_flag.hash_value)
  requires forall|x: int| (#[trigger] look(right, 0, x)) is Some ==> hid(x) == hv(right_flag.hash_value)
  requires 0 < sz(this), 0 < sz(right), sz(this) + sz(right) <= cap()
  pre ax_hash(hv(this_flag.hash_value), hv(right_flag.hash_value)); let d = this_flag.depth as nat; let i = hdg(hv(this_flag.hash_value), d); let j = hdg(hv(right_flag.hash_value), d);
      rank_one(this_flag.flag, i, wd()); rank_one(this_flag.flag, i, j); rank_one(this_flag.flag, i, i);
      assert forall|r: F| ins(this_flag.flag, j, r) && i != j implies #[trigger] rank(r, wd()) == 2 && rank(r, i) == (if j < i { 1nat } else { 0 }) by { rank_ins(this_flag.flag, j, r, wd()); rank_ins(this_flag.flag, j, r, i); }
      leaf_slot(this, d, hv(this_flag.hash_value)); leaf_slot(right, d, hv(right_flag.hash_value));
  post let d = this_flag.depth as nat; let i = hdg(hv(this_flag.hash_value), d); let j = hdg(hv(right_flag.hash_value), d);
      if i == j { c_new1(res, d, i, cv(res)[0]); } else { c_new2(res, d, this_flag.flag, i, this, j, right); }
  ensures forall|x: int| #[trigger] look(MNode::C(res), this_flag.depth as nat, x) == (match look(this, 0, x) { Some(e) => Some(e), None => look(right, 0, x) })
  ensures[C01,C04] cwf(res, this_flag.depth as nat), cx(res) == sz(this) + sz(right)

fn lnode::LNodeNext::key (self) : C01
  ensures nfind(*self, kid(*res)) is Some
fn lnode::LNode::key (self) : C01
  ensures *res == self.key
fn lnode::LNode::value (self) : C01
  ensures *res == self.value
fn lnode::LNode::new (key, value, next) : C01
  requires nwf(next), nsz(next) < usize::MAX
  ensures res.key == key, res.value == value, res.next == next, res.size == 1 + nsz(next)
fn lnode::LNode::size (self) : C04
  ensures res == self.size
fn lnode::LNode::find (self, key) : C01
  ensures found(res, lfind(*self, kid(*key)))
fn lnode::insert (this, key, value, key_flag, replace) : C01,C02
  requires kf(key_flag, kid(key)), lwf(**this), lpm(LNodeNext::L(*this), fd(key_flag), kid(key)), this.size < cap()
  post lall(*this); if let LNodeInsertResult::InsertedL(l, p, q, prev) = &res { lall(*l); }
  ensures ins_m(MNode::<H, F, K, V, M>::L(*this), fd(key_flag), key, value, replace, from_l(res))
  ensures[C01,C04] insz_m(MNode::<H, F, K, V, M>::L(*this), fd(key_flag), from_l(res))
fn lnode::remove (this, key) : C01,C03
  requires lwf(**this)
  ensures forall|d: nat| #[trigger] rem_m(MNode::<H, F, K, V, M>::L(*this), d, kid(*key), res)
  ensures[C01,C04] forall|d: nat| #[trigger] remsz_m(MNode::<H, F, K, V, M>::L(*this), d, res)
fn lnode::remove_from_lnode (this, key) : C01,C03
  requires lwf(**this)
  post lall(*this);
      if let LNodeRemoveResult::RemovedL(l, k, v) = &res { lall(*l); assert(lput(LNodeNext::L(*this), LNodeNext::L(*l), kid(*key), None)); }
      if let LNodeRemoveResult::RemovedS(l, k, v) = &res { assert(lput(LNodeNext::L(*this), LNodeNext::S(*l), kid(*key), None)); }
  ensures lrem(LNodeNext::L(*this), kid(*key), res)
fn lnode::lift_to_cnode_and_insert (this, key, value, key_flag) : C01,C02,C14
  requires kf(key_flag, kid(key)), nwf(this), lpm(this, fd(key_flag), kid(key)), nsz(this) < cap(), nfind(this, kid(key)) is None
  pre lpm_dig(this, fd(key_flag), kid(key));
      assert forall|i: int| (#[trigger] nfind(this, i)) is Some implies nsz(this) >= 1 && (forall|x: int| (#[trigger] nfind(this, x)) is Some ==> hid(x) == hid(i)) by { nhash(this, i); };
  ensures ins_m(from_next::<H, F, K, V, M>(this), fd(key_flag), key, value, true, from_l(res))
  ensures ins_m(from_next::<H, F, K, V, M>(this), fd(key_flag), key, value, false, from_l(res))
  ensures[C01,C04] insz_m(from_next::<H, F, K, V, M>(this), fd(key_flag), from_l(res))

fn snode::SNode::key (self) : C01
  ensures *res == self.key
fn snode::SNode::value (self) : C01
  ensures *res == self.value
fn snode::SNode::new (key, value) : C01
  ensures res.key == key, res.value == value
fn snode::SNode::find (self, key) : C01
  ensures found(res, sfind(*self, kid(*key)))
fn snode::insert (this, key, value, key_flag, replace) : C01,C02
  requires kf(key_flag, kid(key)), lpm(LNodeNext::S(*this), fd(key_flag), kid(key))
  ensures ins_m(MNode::<H, F, K, V, M>::S(*this), fd(key_flag), key, value, replace, res)
  ensures[C01,C04] insz_m(MNode::<H, F, K, V, M>::S(*this), fd(key_flag), res)
fn snode::remove (this, key) : C01,C03
  ensures match res { SNodeRemoveResult::NotFound => sfind(**this, kid(*key)) is None, SNodeRemoveResult::RemovedZ(k, v) => sfind(**this, kid(*key)) == Some((*k, *v)) }
