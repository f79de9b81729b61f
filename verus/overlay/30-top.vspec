fn map::HashTrieMap::new () : C01,C04
  ensures twf(res.set), sz(res.set.root) == 0, forall|x: int| (#[trigger] tl(res.set, x)) is None
fn map::HashTrieMap::default () : C01,C04
  ensures twf(res.set), sz(res.set.root) == 0, forall|x: int| (#[trigger] tl(res.set, x)) is None
fn map::HashTrieMap::size (self) : C04
  ensures res == sz(self.set.root)
fn map::HashTrieMap::find (self, key) : C01
  requires twf(self.set)
  ensures match res { Ok(kv) => tl(self.set, kid(*key)) == Some((*kv.0, *kv.1)), Err(_) => tl(self.set, kid(*key)) is None }
fn map::HashTrieMap::insert (self, key, value, replace) : C02
  requires twf(self.set), sz(self.set.root) < cap()
  ensures match res { Err(kv) => refused(kv.0, kv.1, tl(self.set, kid(key)), replace), Ok(r) => key.into_rel(r.1.v()) && value.into_rel(r.2.v()) && holds(r.3, tl(self.set, kid(key))) && (r.3 is Some ==> replace) }
  ensures[C01] res is Ok ==> twf(res->Ok_0.0.set) && tput(self.set, res->Ok_0.0.set, kid(key), Some((res->Ok_0.1.v(), res->Ok_0.2.v())))
  ensures[C04] res is Ok ==> sz(res->Ok_0.0.set.root) == sz(self.set.root) + (if tl(self.set, kid(key)) is None { 1nat } else { 0nat })
fn map::HashTrieMap::remove (self, key) : C03
  requires twf(self.set)
  ensures match res { Err(_) => tl(self.set, kid(*key)) is None, Ok(r) => tl(self.set, kid(*key)) == Some((*r.1, *r.2)) }
  ensures[C01,C03] res is Ok ==> twf(res->Ok_0.0.set) && tput(self.set, res->Ok_0.0.set, kid(*key), None)
  ensures[C04] res is Ok ==> sz(res->Ok_0.0.set.root) + 1 == sz(self.set.root)

fn set::HashTrieSet::new () : C18,C01,C04
  ensures twf(res.set), sz(res.set.root) == 0, forall|x: int| (#[trigger] tl(res.set, x)) is None
fn set::HashTrieSet::default () : C18,C01,C04
  ensures twf(res.set), sz(res.set.root) == 0, forall|x: int| (#[trigger] tl(res.set, x)) is None
fn set::HashTrieSet::size (self) : C18,C04
  ensures res == sz(self.set.root)
fn set::HashTrieSet::find (self, key) : C18,C01
  requires twf(self.set)
  ensures match res { Ok(k) => tl(self.set, kid(*key)) == Some((*k, ())), Err(_) => tl(self.set, kid(*key)) is None }
fn set::HashTrieSet::insert (self, key, replace) : C18,C02
  requires twf(self.set), sz(self.set.root) < cap()
  ensures match res { Err(k) => !replace && tl(self.set, kid(key)) == Some((*k, ())), Ok(r) => key.into_rel(r.1.v()) && (r.2 is Some ==> replace) && match r.2 { Some(k) => tl(self.set, kid(key)) == Some((*k, ())), None => tl(self.set, kid(key)) is None } }
  ensures[C18,C01] res is Ok ==> twf(res->Ok_0.0.set) && tput(self.set, res->Ok_0.0.set, kid(key), Some((res->Ok_0.1.v(), ())))
  ensures[C18,C04] res is Ok ==> sz(res->Ok_0.0.set.root) == sz(self.set.root) + (if tl(self.set, kid(key)) is None { 1nat } else { 0nat })
fn set::HashTrieSet::remove (self, key) : C18,C03
  requires twf(self.set)
  ensures match res { Err(_) => tl(self.set, kid(*key)) is None, Ok(r) => tl(self.set, kid(*key)) == Some((*r.1, ())) }
  ensures[C18,C01,C03] res is Ok ==> twf(res->Ok_0.0.set) && tput(self.set, res->Ok_0.0.set, kid(*key), None)
  ensures[C18,C04] res is Ok ==> sz(res->Ok_0.0.set.root) + 1 == sz(self.set.root)
