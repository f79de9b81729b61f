fn hash_trie::HashTrie::new () : C01,C04
  ensures twf(res), sz(res.root) == 0, forall|x: int| (#[trigger] tl(res, x)) is None
fn hash_trie::HashTrie::default () : C01,C03,C04
  ensures twf(res), sz(res.root) == 0, forall|x: int| (#[trigger] tl(res, x)) is None
fn hash_trie::HashTrie::singleton (mnode) : C01
  ensures res.root == mnode
fn hash_trie::HashTrie::clone (self) : C05,C17
  ensures res == *self
fn hash_trie::HashTrie::size (self) : C04
  ensures res == sz(self.root)
  ensures twf(*self) ==> lists(ents(self.root), |id: int| tl(*self, id)) && res == ents(self.root).len()
  pre if twf(*self) { ents_ok(self.root, 0); assert((|id: int| tl(*self, id)) =~= (|id: int| look(self.root, 0, id))); }
fn hash_trie::HashTrie::find (self, key) : C01
  requires twf(*self)
  ensures match res { Ok(kv) => tl(*self, kid(*key)) == Some((*kv.0, *kv.1)), Err(_) => tl(*self, kid(*key)) is None }
fn hash_trie::HashTrie::insert (self, key, value, replace) : C02
  requires twf(*self), sz(self.root) < cap()
  ensures match res { Err(kv) => refused(kv.0, kv.1, tl(*self, kid(key)), replace), Ok(r) => key.into_rel(r.1.v()) && value.into_rel(r.2.v()) && holds(r.3, tl(*self, kid(key))) && (r.3 is Some ==> replace) }
  ensures[C01] res is Ok ==> twf(res->Ok_0.0) && tput(*self, res->Ok_0.0, kid(key), Some((res->Ok_0.1.v(), res->Ok_0.2.v())))
  ensures[C04] res is Ok ==> sz(res->Ok_0.0.root) == sz(self.root) + (if tl(*self, kid(key)) is None { 1nat } else { 0nat })
fn hash_trie::HashTrie::remove (self, key) : C03
  requires twf(*self)
  ensures match res { Err(_) => tl(*self, kid(*key)) is None, Ok(r) => tl(*self, kid(*key)) == Some((*r.1, *r.2)) }
  ensures[C01,C03] res is Ok ==> twf(res->Ok_0.0) && tput(*self, res->Ok_0.0, kid(*key), None)
  ensures[C04] res is Ok ==> sz(res->Ok_0.0.root) + 1 == sz(self.root)
