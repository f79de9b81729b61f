fn mnode::MNode::eq (self, other) : C17
  ensures res ==> *self == *other
  ensures *self == *other ==> res
fn cnode::CNode::eq (self, other) : C17
  ensures res ==> *self == *other
  ensures *self == *other ==> res
fn hash_trie::HashTrie::eq (self, other) : C17
  ensures res ==> *self == *other
  ensures *self == *other ==> res
fn map::HashTrieMap::eq (self, other) : C17
  ensures res ==> *self == *other
  ensures *self == *other ==> res
fn set::HashTrieSet::eq (self, other) : C17
  ensures res ==> *self == *other
  ensures *self == *other ==> res
