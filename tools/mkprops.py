import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None,hook=None):
    d={"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,
       "anchors":{"files":files,"mechanism":[{"name":a,"where":b} for a,b in mech]}}
    if state: d["anchors"]["state"]=[{"name":a,"meaning":b,"where":c} for a,b,c in state]
    d["anchors"]["observe_at"]=observe or []
    d["anchors"]["hook_needed"]=hook
    P.append(d)
N="src/node/"
CORE=["src/hash_trie.rs",N+"mnode.rs",N+"cnode.rs",N+"lnode.rs",N+"snode.rs","src/bit_indexed_array.rs","src/flag.rs"]
ST=[("node tree","CNode holds a bit-indexed array of children by hash digit, LNode a list of entries with one and the same full hash, SNode one entry",N+"*.rs"),
    ("CNode extra","number of entries below the node",N+"cnode.rs")]
p("C01","Lookup agrees with the history of inserts and removes",
  "For a map or set built by any sequence of inserts and removes, looking a key up finds exactly the entry that the last effective insert of an equal key stored, and finds nothing when the key was never inserted or was removed since. This holds for every hash distribution, including keys whose hashes agree in any number of bits or entirely, and for lookups, inserts and removes made through a second key type that hashes and compares alike.",
  ["inputs","histories"],"all keys, values, hash functions, operation sequences; all supported hash word and flag word pairs",
  "The tests insert a few hundred integers with one hasher; they never reach full-hash collisions through the public API, deep shared prefixes, or cross-type keys.",
  CORE,[("find/insert/remove","src/hash_trie.rs"),("lift_to_cnode_and_insert",N+"cnode.rs, "+N+"lnode.rs"),("bit-indexed update/insert/remove","src/bit_indexed_array.rs")],ST,["HashTrieMap::find","HashTrieSet::find"])
p("C02","Insert reports what it did",
  "An insert that does not ask for replacement is refused, and returns the entry already stored, exactly when an equal key is present; every other insert is accepted. An accepted insert reports the previously stored entry if and only if there was one, and the pointers it returns address the key and value now stored in the new map.",
  ["inputs","histories"],"all keys, maps and replace flags",
  "The tests check a refused and a replacing insert on one short string and on one integer; collision lists and deep levels are not reached.",
  CORE,[("insert","src/hash_trie.rs"),("InsertResult","src/results.rs")],ST,["HashTrieMap::insert","HashTrieSet::insert"])
p("C03","Remove returns the removed entry and touches nothing else",
  "Removing a key fails exactly when no equal key is present. When it succeeds it returns the key and value that were stored, and the new map holds every other entry of the old one unchanged and no entry for that key.",
  ["inputs","histories"],"all keys and all maps, including the last entry of a map, of a branch and of a collision list",
  "The tests remove integers from a map without collisions and look only at a few of the remaining keys.",
  CORE,[("remove","src/hash_trie.rs"),("remove_from_lnode",N+"lnode.rs"),("removed/updated","src/bit_indexed_array.rs")],ST,["HashTrieMap::remove","HashTrieSet::remove"])
p("C04","Size is the number of entries",
  "After any sequence of inserts, removes, transforms, transmutes and two-map operations, the reported size of a map or set equals the number of distinct keys it holds.",
  ["inputs","histories"],"all maps reachable through the public operations",
  "The size is cached at every branch and list node and recomputed along several hundred code paths; the tests compare it on a handful of them.",
  CORE,[("CNode::size via extra",N+"cnode.rs"),("LNode::size",N+"lnode.rs")],ST,["HashTrieMap::size","HashTrieSet::size"])
p("C05","Earlier versions never change",
  "No operation changes an existing map or set: after any further operations on it or on maps derived from it, every earlier version still gives the same lookups, size and visited entries as when it was made.",
  ["histories","inputs"],"all operation histories over a family of maps sharing structure",
  "Tests overwrite or drop the old version; structural sharing makes aliasing mistakes visible only in versions nobody looks at again.",
  CORE,[("operations take &self and build new nodes",N+"*.rs"),("Arc sharing",N+"*.rs")],ST,["HashTrieMap::find","HashTrieMap::visit"])
p("C06","Visit sees every entry exactly once",
  "Visiting a map or set calls the visitor once for each entry it holds, with that entry's key and value, and never for anything else.",
  ["inputs","histories"],"all maps, including branches and collision lists of any length",
  "No existing test calls visit on a map with collisions or on more than one shape.",
  ["src/hash_trie.rs",N+"mnode.rs",N+"cnode.rs",N+"lnode.rs",N+"snode.rs"],[("visit",N+"*.rs"),("iteration over the array values","src/bit_indexed_array.rs")],ST,["HashTrieMap::visit","HashTrieSet::visit"])
p("C07","Transform applies the operation entry by entry",
  "Transforming a map with a pure operation yields exactly the entries for which the operation says unchanged (same value) or transformed (new value, same key), and drops those it says to remove; the constant operations behave like a generic operation that always gives that answer. If the operation leaves every entry unchanged, the result equals the original map.",
  ["inputs","histories"],"all maps, all pure operations, generic and constant, both traversal strategies",
  "The tests transform integers with one all-transforming operation; mixtures of unchanged, transformed and removed entries that collapse branches and lists are not sampled.",
  ["src/hash_trie.rs","src/map.rs","src/transformations.rs",N+"cnode.rs",N+"lnode.rs",N+"snode.rs"],[("transform",N+"*.rs"),("transform_result",N+"lnode.rs")],ST,["HashTrieMap::transform"])
p("C08","Transmute maps entries to the new key and value types",
  "Transmuting a map with a pure operation that keeps key identity yields exactly the new entries the operation gives for the entries it does not remove, each found under its own key.",
  ["inputs","histories"],"all maps, all pure operations that respect the hash-alike contract",
  "The tests transmute one integer map with an operation that keeps everything.",
  ["src/hash_trie.rs","src/map.rs",N+"cnode.rs",N+"lnode.rs",N+"snode.rs"],[("transmute",N+"*.rs"),("transmute_result",N+"lnode.rs")],ST,["HashTrieMap::transmute"])
p("C09","Joining two maps of one type combines them key by key",
  "Transforming a map together with another of the same type gives, for each key in either, exactly what the operations decide: the both-operation for keys in both, with the left and right entries in that order, the left operation for keys only in the left map and the right operation for keys only in the right map; a kept, new or removed entry appears, or not, accordingly. Where the both-operation allows keeping either entry, either may appear; where it gives a new value, it is stored under an equal key. The constant operations behave like a generic operation that always gives that answer.",
  ["inputs","histories"],"all pairs of maps of any shapes (empty, single, collision lists, branches), all pure operations, both strategies",
  "The tests join integer maps without collisions with uniform operations; the node-kind pairings times outcomes are several hundred paths, and collision lists are never joined.",
  ["src/hash_trie.rs","src/map.rs","src/transformations.rs","src/results.rs",N+"cnode.rs",N+"lnode.rs",N+"snode.rs"],[("transform_with_transformed",N+"*.rs"),("joint result combinators",N+"lnode.rs"),("flip","src/transformations.rs, src/results.rs")],ST,["HashTrieMap::transform_with_transformed"])
p("C10","Joining maps of two types combines them key by key",
  "The mixed two-map operations, which keep the type of one side and convert the entries of the other, give for each key in either map exactly what the operations decide: the both-operation for keys in both with its arguments in left-right order, the left operation for keys only in the left map and the right operation for keys only in the right map; nothing is lost, duplicated or taken from the wrong side.",
  ["inputs","histories"],"all pairs of maps of two hash-alike key types, all pure operations, both strategies",
  "The tests run each mixed operation once, on integer maps without collisions.",
  ["src/hash_trie.rs","src/map.rs","src/transformations.rs",N+"cnode.rs",N+"lnode.rs",N+"snode.rs"],[("transform_with_transmuted, transmute_with_transformed",N+"*.rs"),("transform_with_transfuted","src/map.rs")],ST,["HashTrieMap::transform_with_transmuted","HashTrieMap::transmute_with_transformed","HashTrieMap::transform_with_transfuted"])
p("C11","Transmuting two maps together combines them key by key",
  "Transmuting two maps into a third type gives, for each key in either map, exactly the entry the matching operation returns (both, left only or right only, with arguments in left-right order), and no entry where it says to remove.",
  ["inputs","histories"],"all pairs of maps of hash-alike key types, all pure operations",
  "The tests run it once, on integer maps without collisions.",
  ["src/hash_trie.rs","src/map.rs","src/transformations.rs",N+"cnode.rs",N+"lnode.rs",N+"snode.rs"],[("transmute_with_transmuted",N+"*.rs"),("transmute_result",N+"lnode.rs")],ST,["HashTrieMap::transmute_with_transmuted"])
p("C12","Reductions count every decision exactly once",
  "For generic operations and an associative, commutative reduction whose default value is neutral, the second result of each transform, transmute and two-map operation is the reduction of the secondary results of one operation call per key of the map or maps involved: none is left out, none is counted twice.",
  ["inputs","histories"],"all maps and pairs of maps, all pure generic operations, both strategies",
  "The tests reduce to unit or to one sum; a dropped or doubled term on a particular node pairing stays unseen.",
  ["src/hash_trie.rs",N+"cnode.rs",N+"lnode.rs",N+"snode.rs"],[("reduce_op calls",N+"*.rs")],ST,["second component of every transform and transmute result"])
p("C13","The traversal strategy does not change the outcome",
  "Running an operation under the parallel strategy gives the same resulting entries, size and (for associative, commutative reductions with a neutral default) the same reduction as running it sequentially.",
  ["inputs","schedules","histories"],"all maps and pairs of maps, all pure operations, both strategies",
  "The tests run the parallel strategy on two maps and compare a few lookups.",
  ["src/enums.rs",N+"cnode.rs"],[("MiddleIndex split, append and bit_merge",N+"cnode.rs"),("BitMerge","src/traits.rs")],ST,["HashTrieMap::transform and the two-map operations"])
p("C14","Every operation completes, at every depth of the trie",
  "No operation on a map or set panics or fails to return, whatever the hashes: keys that differ only in the last bits of the hash, keys that share the whole hash, lists of any length on either side of a two-map operation, and every supported pair of hash word and flag word.",
  ["inputs","histories","configurations"],"all keys and hash values, all supported word pairs, all operations on all map shapes",
  "Exhausting the hash needs keys chosen to collide, which no test has; the panics and unwraps on these paths are never executed.",
  ["src/flag.rs"]+CORE[:5],[("Flag::next / new_at_depth","src/flag.rs"),("unwrap and panic sites",N+"*.rs")],ST,["all public operations"])
p("C15","Bit-word primitives obey their documented laws",
  "For every supported word type, inserting, removing, merging, locating and counting bits gives the documented result on every pair of operands, and reports the documented error exactly when its condition is violated (not a single bit, bit already or not present, overlapping words, index out of range).",
  ["inputs","configurations"],"all words of each type, all operands",
  "The tests try a few bits of a few words; the traits are public and implemented separately for each of six types.",
  ["src/traits.rs"],[("BitContains, BitIndex, BitInsert, BitMerge, BitRemove, CountOnes, LogB, MaskLogB, MaxOnes, NthBit","src/traits.rs")],None,["traits::*"])
p("C16","Hash words narrower than the hasher's output are usable",
  "A hasher's 64-bit output yields a hash of every supported narrower word without failing, equal for equal keys and depending on the output only; for outputs that fit the word it is the output itself.",
  ["inputs","configurations"],"all hasher outputs, hash words of 8, 16, 32 and 64 bits",
  "The tests use 64-bit hash words with hashers whose output always fits.",
  ["src/traits.rs"],[("HasherBv blanket implementations","src/traits.rs")],None,["HasherBv::hash"])
p("C17","Clones are equal and equality is identity of content",
  "A clone of a map or set equals it and holds the same entries; two maps that compare equal hold the same entries, and a refused insert or an operation that leaves every entry of a map unchanged never yields a map that compares equal while holding different entries.",
  ["inputs","histories"],"all maps reachable through the public operations",
  "The tests compare two or three pairs of maps for equality.",
  ["src/hash_trie.rs",N+"mnode.rs",N+"cnode.rs"],[("PartialEq by node identity",N+"cnode.rs, "+N+"mnode.rs")],ST,["HashTrieMap::eq, clone"])
p("C18","Set operations follow the same laws as map operations",
  "Every set operation (find, insert, remove, size, visit, transform, transmute and the two-set operations) does to the set of keys what the corresponding map operation does to a map's keys, decision by decision: kept, replaced by the converted key, or removed, with left and right in order.",
  ["inputs","histories"],"all sets and pairs of sets, all pure operations, generic and constant, both strategies",
  "The set layer wraps closures and operations of its own around the map; the tests exercise a few of the wrappers with uniform operations.",
  ["src/set.rs","src/results.rs","src/transformations.rs"],[("HashTrieSet wrappers","src/set.rs"),("From conversions of results and operations","src/results.rs, src/transformations.rs")],ST,["HashTrieSet::*"])
p("C19","Maps may be shared and used from several threads",
  "Sharing maps, sending them between threads, and operating on clones from several threads at once is free of data races and gives each thread the results it would get alone.",
  ["schedules"],"all interleavings of threads working on maps that share structure",
  "The tests are single-threaded; nothing exercises the unsafe Send and Sync implementations.",
  [N+"cnode.rs",N+"mnode.rs"],[("unsafe impl Send/Sync",N+"cnode.rs")],ST,["threads holding clones"])
p("C20","Each stored key and value is dropped exactly once",
  "Every key and value moved or cloned into a map is dropped exactly once when the last map holding it goes away, also when a user-supplied clone or operation panics part-way through.",
  ["inputs","fault_sequences"],"all histories, and panics at every user callback",
  "The tests never count drops and never panic inside a callback.",
  ["src/bit_indexed_array.rs"],[("element-wise initialisation of an uninitialised array","src/bit_indexed_array.rs")],ST,["Drop of keys and values"])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
