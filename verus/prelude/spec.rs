use crate::node::lnode::LNodeNext;
broadcast use crate::traits::group_traits;
pub type Ent<K, V> = Option<(K, V)>;

// ---- what a node holds ----
pub open spec fn sfind<K: Key, V: Value>(s: SNode<K, V>, id: int) -> Ent<K, V> {
    if kid(s.key) == id { Some((s.key, s.value)) } else { None }
}
pub open spec fn lfind<K: Key, V: Value>(l: LNode<K, V>, id: int) -> Ent<K, V> decreases l {
    if kid(l.key) == id { Some((l.key, l.value)) } else { match l.next { LNodeNext::L(m) => lfind(*m, id), LNodeNext::S(s) => sfind(*s, id) } }
}
pub open spec fn nfind<K: Key, V: Value>(n: LNodeNext<K, V>, id: int) -> Ent<K, V> {
    match n { LNodeNext::L(m) => lfind(*m, id), LNodeNext::S(s) => sfind(*s, id) }
}
/// the entry stored for the key class id below a node at depth d
pub open spec fn look<H: Hashword, F: Flagword<H>, K: Key, V: Value, M>(n: MNode<H, F, K, V, M>, d: nat, id: int) -> Ent<K, V> decreases n {
    match n {
        MNode::C(c) => if hb(c.nodes.bits, dg(id, d)) && rank(c.nodes.bits, dg(id, d)) < c.nodes.values@.len() {
            look(c.nodes.values@[rank(c.nodes.bits, dg(id, d)) as int], d + 1, id)
        } else { None },
        MNode::L(l) => lfind(*l, id),
        MNode::S(s) => sfind(*s, id),
    }
}
pub open spec fn clook<H: Hashword, F: Flagword<H>, K: Key, V: Value, M>(c: CNode<H, F, K, V, M>, d: nat, id: int) -> Ent<K, V> { look(MNode::C(c), d, id) }
pub open spec fn child<H: Hashword, F: Flagword<H>, K: Key, V: Value, M>(c: CNode<H, F, K, V, M>, j: nat) -> Option<MNode<H, F, K, V, M>> {
    slot(c.nodes.bits, c.nodes.values@, j)
}
pub open spec fn olook<H: Hashword, F: Flagword<H>, K: Key, V: Value, M>(n: Option<MNode<H, F, K, V, M>>, d: nat, id: int) -> Ent<K, V> {
    match n { Some(n) => look(n, d, id), None => None }
}
// ---- sizes ----
pub open spec fn nsz<K: Key, V: Value>(n: LNodeNext<K, V>) -> nat { match n { LNodeNext::L(m) => m.size as nat, LNodeNext::S(s) => 1 } }
pub open spec fn sz<H: Hashword, F: Flagword<H>, K: Key, V: Value, M>(n: MNode<H, F, K, V, M>) -> nat {
    match n { MNode::C(c) => c.nodes.extra as nat, MNode::L(l) => l.size as nat, MNode::S(s) => 1 }
}
pub open spec fn osz<H: Hashword, F: Flagword<H>, K: Key, V: Value, M>(n: Option<MNode<H, F, K, V, M>>) -> nat {
    match n { Some(n) => sz(n), None => 0 }
}
pub open spec fn ssum<H: Hashword, F: Flagword<H>, K: Key, V: Value, M>(s: Seq<MNode<H, F, K, V, M>>) -> nat decreases s.len() {
    if s.len() == 0 { 0 } else { ssum(s.drop_last()) + sz(s.last()) }
}
// ---- shape ----
pub open spec fn lwf<K: Key, V: Value>(l: LNode<K, V>) -> bool decreases l {
    l.size == 1 + nsz(l.next)
    && nfind(l.next, kid(l.key)) is None
    && (forall|id: int| (#[trigger] nfind(l.next, id)) is Some ==> hid(id) == hid(kid(l.key)))
    && match l.next { LNodeNext::L(m) => lwf(*m), LNodeNext::S(s) => true }
}
pub open spec fn nwf<K: Key, V: Value>(n: LNodeNext<K, V>) -> bool { match n { LNodeNext::L(m) => lwf(*m), LNodeNext::S(s) => true } }
/// every id found in n at depth d + 1 belongs in slot j of its parent
pub open spec fn inslot<H: Hashword, F: Flagword<H>, K: Key, V: Value, M>(n: MNode<H, F, K, V, M>, d: nat, j: nat) -> bool {
    forall|id: int| (#[trigger] look(n, d + 1, id)) is Some ==> dg(id, d) == j
}
pub open spec fn wf<H: Hashword, F: Flagword<H>, K: Key, V: Value, M>(n: MNode<H, F, K, V, M>, d: nat) -> bool decreases n {
    match n {
        MNode::C(c) => d < lv() && bok(*c.nodes) && c.nodes.extra == ssum(c.nodes.values@)
            && (forall|j: nat| (#[trigger] child(c, j)) is Some ==> {
                let m = c.nodes.values@[rank(c.nodes.bits, j) as int];
                wf(m, d + 1) && sz(m) > 0 && inslot(m, d, j)
            }),
        MNode::L(l) => lwf(*l),
        MNode::S(s) => true,
    }
}
pub open spec fn cwf<H: Hashword, F: Flagword<H>, K: Key, V: Value, M>(c: CNode<H, F, K, V, M>, d: nat) -> bool { wf(MNode::C(c), d) }
/// every key below n agrees with id on the digits above depth d
pub open spec fn pm<H: Hashword, F: Flagword<H>, K: Key, V: Value, M>(n: MNode<H, F, K, V, M>, d: nat, id: int) -> bool {
    forall|x: int, i: nat| (#[trigger] look(n, d, x)) is Some && i < d ==> (#[trigger] dg(x, i)) == dg(id, i)
}
pub open spec fn lpm<K: Key, V: Value>(n: LNodeNext<K, V>, d: nat, id: int) -> bool {
    forall|x: int, i: nat| (#[trigger] nfind(n, x)) is Some && i < d ==> (#[trigger] dg(x, i)) == dg(id, i)
}
/// the flag a key of class id has at depth d
pub open spec fn kfl<H, F>(f: Option<Flag<H, F>>, d: nat, id: int) -> bool {
    match f { Some(f) => flok(f) && f.depth == d && hv(f.hash_value) == hid(id), None => d == lv() }
}
pub open spec fn cn<H: Hashword, F: Flagword<H>, K: Key, V: Value, M>(c: CNode<H, F, K, V, M>) -> DynBia<F, MNode<H, F, K, V, M>, usize> { *c.nodes }
pub open spec fn cb<H: Hashword, F: Flagword<H>, K: Key, V: Value, M>(c: CNode<H, F, K, V, M>) -> F { c.nodes.bits }
pub open spec fn cv<H: Hashword, F: Flagword<H>, K: Key, V: Value, M>(c: CNode<H, F, K, V, M>) -> Seq<MNode<H, F, K, V, M>> { c.nodes.values@ }
pub open spec fn cx<H: Hashword, F: Flagword<H>, K: Key, V: Value, M>(c: CNode<H, F, K, V, M>) -> usize { c.nodes.extra }
// ---- lemmas ----
pub proof fn rank_mono<F>(b: F, i: nat, j: nat) requires i <= j ensures rank(b, i) <= rank(b, j), i < j && hb(b, i) ==> rank(b, i) < rank(b, j) decreases j {
    if i < j { rank_mono(b, i, (j - 1) as nat); }
}
pub proof fn rank_same<F>(a: F, b: F, n: nat) requires forall|i: nat| i < n ==> hb(a, i) == hb(b, i) ensures rank(a, n) == rank(b, n) decreases n {
    if n > 0 { rank_same(a, b, (n - 1) as nat); }
}
pub proof fn rank_ins<F>(b: F, i: nat, r: F, n: nat) requires ins(b, i, r), !hb(b, i) ensures rank(r, n) == rank(b, n) + if i < n { 1nat } else { 0nat } decreases n {
    if n > 0 { rank_ins(b, i, r, (n - 1) as nat); }
}
pub proof fn rank_rem<F>(b: F, i: nat, r: F, n: nat) requires rem(b, i, r), hb(b, i) ensures rank(r, n) + (if i < n { 1nat } else { 0nat }) == rank(b, n) decreases n {
    if n > 0 { rank_rem(b, i, r, (n - 1) as nat); }
}
pub proof fn rank_none<F>(b: F, n: nat) requires none(b) ensures rank(b, n) == 0 decreases n {
    if n > 0 { rank_none(b, (n - 1) as nat); }
}
/// the bit whose rank is k
pub proof fn unrank<F>(b: F, n: nat, k: nat) -> (j: nat) requires k < rank(b, n) ensures j < n, hb(b, j), rank(b, j) == k decreases n {
    if rank(b, (n - 1) as nat) > k { unrank(b, (n - 1) as nat, k) } else { (n - 1) as nat }
}
pub broadcast proof fn slot_has<F, V>(b: F, s: Seq<V>, j: nat) requires rank(b, wd()) == s.len() ensures (#[trigger] slot(b, s, j)) is Some <==> hb(b, j) {
    if hb(b, j) { ax_has(b, j); rank_mono(b, j, wd()); }
}
pub proof fn slot_ins<F, V>(b: F, i: nat, r: F, s: Seq<V>, v: V)
    requires rank(b, wd()) == s.len(), !hb(b, i), i < wd(), ins(b, i, r)
    ensures forall|j: nat| #[trigger] slot(r, s.insert(rank(b, i) as int, v), j) == if j == i { Some(v) } else { slot(b, s, j) },
        rank(r, wd()) == s.len() + 1
{
    rank_mono(b, i, wd()); rank_ins(b, i, r, wd());
    assert forall|j: nat| #[trigger] slot(r, s.insert(rank(b, i) as int, v), j) == if j == i { Some(v) } else { slot(b, s, j) } by {
        rank_ins(b, i, r, j); ax_has(b, j);
        if j < i { rank_mono(b, j, i); } else { rank_mono(b, i, j); }
        if hb(b, j) { rank_mono(b, j, wd()); }
    }
}
pub proof fn slot_upd<F, V>(b: F, i: nat, s: Seq<V>, v: V)
    requires rank(b, wd()) == s.len(), hb(b, i)
    ensures forall|j: nat| #[trigger] slot(b, s.update(rank(b, i) as int, v), j) == if j == i { Some(v) } else { slot(b, s, j) }
{
    ax_has(b, i); rank_mono(b, i, wd());
    assert forall|j: nat| #[trigger] slot(b, s.update(rank(b, i) as int, v), j) == if j == i { Some(v) } else { slot(b, s, j) } by {
        ax_has(b, j);
        if j < i { rank_mono(b, j, i); } else { rank_mono(b, i, j); }
        if hb(b, j) { rank_mono(b, j, wd()); }
    }
}
pub proof fn slot_rem<F, V>(b: F, i: nat, r: F, s: Seq<V>)
    requires rank(b, wd()) == s.len(), hb(b, i), rem(b, i, r)
    ensures forall|j: nat| #[trigger] slot(r, s.remove(rank(b, i) as int), j) == if j == i { None } else { slot(b, s, j) },
{
    ax_has(b, i); rank_mono(b, i, wd()); rank_rem(b, i, r, wd());
    assert forall|j: nat| #[trigger] slot(r, s.remove(rank(b, i) as int), j) == if j == i { None } else { slot(b, s, j) } by {
        ax_has(b, j); rank_rem(b, i, r, j);
        if j < i { rank_mono(b, j, i); } else { rank_mono(b, i, j); }
        if hb(b, j) { rank_mono(b, j, wd()); }
    }
}
pub proof fn ssum_push<H: Hashword, F: Flagword<H>, K: Key, V: Value, M>(s: Seq<MNode<H, F, K, V, M>>, v: MNode<H, F, K, V, M>) ensures ssum(s.push(v)) == ssum(s) + sz(v) {
    assert(s.push(v).drop_last() =~= s);
}
pub proof fn ssum_upd<H: Hashword, F: Flagword<H>, K: Key, V: Value, M>(s: Seq<MNode<H, F, K, V, M>>, i: int, v: MNode<H, F, K, V, M>) requires 0 <= i < s.len() ensures ssum(s.update(i, v)) + sz(s[i]) == ssum(s) + sz(v) decreases s.len() {
    if i == s.len() - 1 { assert(s.update(i, v).drop_last() =~= s.drop_last()); }
    else { ssum_upd(s.drop_last(), i, v); assert(s.update(i, v).drop_last() =~= s.drop_last().update(i, v)); }
}
pub proof fn ssum_ins<H: Hashword, F: Flagword<H>, K: Key, V: Value, M>(s: Seq<MNode<H, F, K, V, M>>, i: int, v: MNode<H, F, K, V, M>) requires 0 <= i <= s.len() ensures ssum(s.insert(i, v)) == ssum(s) + sz(v) decreases s.len() {
    if i == s.len() { assert(s.insert(i, v).drop_last() =~= s); }
    else { ssum_ins(s.drop_last(), i, v); assert(s.insert(i, v).drop_last() =~= s.drop_last().insert(i, v)); }
}
pub proof fn ssum_rem<H: Hashword, F: Flagword<H>, K: Key, V: Value, M>(s: Seq<MNode<H, F, K, V, M>>, i: int) requires 0 <= i < s.len() ensures ssum(s.remove(i)) + sz(s[i]) == ssum(s) {
    ssum_ins(s.remove(i), i, s[i]); assert(s.remove(i).insert(i, s[i]) =~= s);
}
pub proof fn ssum_le<H: Hashword, F: Flagword<H>, K: Key, V: Value, M>(s: Seq<MNode<H, F, K, V, M>>, i: int) requires 0 <= i < s.len() ensures sz(s[i]) <= ssum(s), sz(s[i]) == ssum(s) ==> forall|j: int| 0 <= j < s.len() && j != i ==> sz(s[j]) == 0 {
    ssum_rem(s, i);
    assert forall|j: int| sz(s[i]) == ssum(s) && 0 <= j < s.len() && j != i implies sz(s[j]) == 0 by {
        let k = if j < i { j } else { j - 1 };
        ssum_rem(s.remove(i), k); assert(s.remove(i)[k] == s[j]);
    }
}
// ---- a branch and its children ----
pub broadcast proof fn look_c<H: Hashword, F: Flagword<H>, K: Key, V: Value, M>(c: CNode<H, F, K, V, M>, d: nat, id: int)
    ensures #[trigger] look(MNode::C(c), d, id) == olook(child(c, dg(id, d)), d + 1, id) {}
pub broadcast proof fn look_l<H: Hashword, F: Flagword<H>, K: Key, V: Value, M>(l: Arc<LNode<K, V>>, d: nat, id: int)
    ensures #[trigger] look(MNode::<H, F, K, V, M>::L(l), d, id) == lfind(*l, id) {}
pub broadcast proof fn look_s<H: Hashword, F: Flagword<H>, K: Key, V: Value, M>(s: Arc<SNode<K, V>>, d: nat, id: int)
    ensures #[trigger] look(MNode::<H, F, K, V, M>::S(s), d, id) == sfind(*s, id) {}
pub open spec fn chok<H: Hashword, F: Flagword<H>, K: Key, V: Value, M>(n: Option<MNode<H, F, K, V, M>>, d: nat, j: nat) -> bool {
    match n { Some(m) => wf(m, d + 1) && sz(m) > 0 && inslot(m, d, j), None => true }
}
pub open spec fn cshape<H: Hashword, F: Flagword<H>, K: Key, V: Value, M>(c: CNode<H, F, K, V, M>, d: nat) -> bool {
    d < lv() && bok(cn(c)) && cx(c) == ssum(cv(c))
}
pub proof fn wf_c1<H: Hashword, F: Flagword<H>, K: Key, V: Value, M>(c: CNode<H, F, K, V, M>, d: nat)
    requires cwf(c, d) ensures cshape(c, d), forall|j: nat| chok(#[trigger] child(c, j), d, j)
{
    assert forall|j: nat| chok(#[trigger] child(c, j), d, j) by {}
}
pub proof fn wf_c2<H: Hashword, F: Flagword<H>, K: Key, V: Value, M>(c: CNode<H, F, K, V, M>, d: nat)
    requires cshape(c, d), forall|j: nat| chok(#[trigger] child(c, j), d, j) ensures cwf(c, d)
{
    assert forall|j: nat| (#[trigger] child(c, j)) is Some implies {
        let m = cv(c)[rank(cb(c), j) as int];
        wf(m, d + 1) && sz(m) > 0 && inslot(m, d, j) } by { assert(chok(child(c, j), d, j)); }
}
pub broadcast proof fn wf_child<H: Hashword, F: Flagword<H>, K: Key, V: Value, M>(c: CNode<H, F, K, V, M>, d: nat, j: nat)
    requires #[trigger] cwf(c, d) ensures chok(#[trigger] child(c, j), d, j), osz(child(c, j)) <= cx(c),
        child(c, j) is Some ==> cx(c) > 0
{
    wf_c1(c, d);
    if child(c, j) is Some { ssum_le(cv(c), rank(cb(c), j) as int); }
}
/// what replacing, adding or removing the child of slot j does
pub proof fn c_upd<H: Hashword, F: Flagword<H>, K: Key, V: Value, M>(c: CNode<H, F, K, V, M>, r: CNode<H, F, K, V, M>, d: nat, j: nat, v: MNode<H, F, K, V, M>)
    requires cwf(c, d), hb(cb(c), j), cb(r) == cb(c), cv(r) == cv(c).update(rank(cb(c), j) as int, v), chok(Some(v), d, j),
        cx(r) + osz(child(c, j)) == cx(c) + sz(v)
    ensures cwf(r, d), forall|x: int| #[trigger] look(MNode::C(r), d, x) == if dg(x, d) == j { look(v, d + 1, x) } else { look(MNode::C(c), d, x) }
{
    wf_c1(c, d); slot_upd(cb(c), j, cv(c), v); ax_has(cb(c), j); rank_mono(cb(c), j, wd());
    ssum_upd(cv(c), rank(cb(c), j) as int, v);
    assert forall|k: nat| #[trigger] child(r, k) == (if k == j { Some(v) } else { child(c, k) }) by {
        assert(child(r, k) == slot(cb(c), cv(c).update(rank(cb(c), j) as int, v), k));
    }
    assert forall|k: nat| chok(#[trigger] child(r, k), d, k) by { assert(chok(child(c, k), d, k)); }
    assert forall|x: int| #[trigger] look(MNode::C(r), d, x) == (if dg(x, d) == j { look(v, d + 1, x) } else { look(MNode::C(c), d, x) }) by { look_c(r, d, x); look_c(c, d, x); let k = dg(x, d); assert(child(r, k) == child(r, dg(x, d))); }
    wf_c2(r, d);
}
pub proof fn c_ins<H: Hashword, F: Flagword<H>, K: Key, V: Value, M>(c: CNode<H, F, K, V, M>, r: CNode<H, F, K, V, M>, d: nat, j: nat, v: MNode<H, F, K, V, M>)
    requires cwf(c, d), !hb(cb(c), j), j < wd(), ins(cb(c), j, cb(r)), cv(r) == cv(c).insert(rank(cb(c), j) as int, v), chok(Some(v), d, j),
        cx(r) == cx(c) + sz(v)
    ensures cwf(r, d), forall|x: int| #[trigger] look(MNode::C(r), d, x) == if dg(x, d) == j { look(v, d + 1, x) } else { look(MNode::C(c), d, x) }
{
    wf_c1(c, d); slot_ins(cb(c), j, cb(r), cv(c), v); rank_mono(cb(c), j, wd());
    ssum_ins(cv(c), rank(cb(c), j) as int, v);
    assert forall|k: nat| #[trigger] child(r, k) == (if k == j { Some(v) } else { child(c, k) }) by {
        assert(child(r, k) == slot(cb(r), cv(c).insert(rank(cb(c), j) as int, v), k));
    }
    assert forall|k: nat| chok(#[trigger] child(r, k), d, k) by { assert(chok(child(c, k), d, k)); }
    assert forall|x: int| #[trigger] look(MNode::C(r), d, x) == (if dg(x, d) == j { look(v, d + 1, x) } else { look(MNode::C(c), d, x) }) by { look_c(r, d, x); look_c(c, d, x); let k = dg(x, d); assert(child(r, k) == child(r, dg(x, d))); }
    wf_c2(r, d);
}
pub proof fn c_rem<H: Hashword, F: Flagword<H>, K: Key, V: Value, M>(c: CNode<H, F, K, V, M>, r: CNode<H, F, K, V, M>, d: nat, j: nat)
    requires cwf(c, d), hb(cb(c), j), rem(cb(c), j, cb(r)), cv(r) == cv(c).remove(rank(cb(c), j) as int), bok(cn(r)),
        cx(r) + osz(child(c, j)) == cx(c)
    ensures cwf(r, d), forall|x: int| #[trigger] look(MNode::C(r), d, x) == if dg(x, d) == j { None } else { look(MNode::C(c), d, x) }
{
    wf_c1(c, d); slot_rem(cb(c), j, cb(r), cv(c)); ax_has(cb(c), j); rank_mono(cb(c), j, wd());
    ssum_rem(cv(c), rank(cb(c), j) as int);
    assert forall|k: nat| #[trigger] child(r, k) == (if k == j { None } else { child(c, k) }) by {
        assert(child(r, k) == slot(cb(r), cv(c).remove(rank(cb(c), j) as int), k));
    }
    assert forall|k: nat| chok(#[trigger] child(r, k), d, k) by { assert(chok(child(c, k), d, k)); }
    assert forall|x: int| #[trigger] look(MNode::C(r), d, x) == (if dg(x, d) == j { None::<(K, V)> } else { look(MNode::C(c), d, x) }) by { look_c(r, d, x); look_c(c, d, x); let k = dg(x, d); assert(child(r, k) == child(r, dg(x, d))); }
    wf_c2(r, d);
}
/// a branch as small as one of its children has no other
pub proof fn c_only<H: Hashword, F: Flagword<H>, K: Key, V: Value, M>(c: CNode<H, F, K, V, M>, d: nat, j: nat)
    requires cwf(c, d), hb(cb(c), j), osz(child(c, j)) == cx(c)
    ensures forall|k: nat| (#[trigger] child(c, k)) is Some ==> k == j
{
    wf_c1(c, d); ax_has(cb(c), j); rank_mono(cb(c), j, wd());
    ssum_le(cv(c), rank(cb(c), j) as int);
    assert forall|k: nat| (#[trigger] child(c, k)) is Some implies k == j by {
        assert(chok(child(c, k), d, k)); ax_has(cb(c), k);
        if k < j { rank_mono(cb(c), k, j); } else { rank_mono(cb(c), j, k); }
    }
}
pub proof fn lsz<K: Key, V: Value>(l: Arc<LNode<K, V>>) requires lwf(*l) ensures l.size >= 2 decreases l {
    match l.next { LNodeNext::L(m) => lsz(m), LNodeNext::S(s) => {} }
}
// ---- the entries of a node, in the order a visit meets them ----
pub open spec fn lents<K: Key, V: Value>(l: LNode<K, V>) -> Seq<(K, V)> decreases l {
    seq![(l.key, l.value)] + match l.next { LNodeNext::L(m) => lents(*m), LNodeNext::S(s) => seq![(s.key, s.value)] }
}
pub open spec fn ents<H: Hashword, F: Flagword<H>, K: Key, V: Value, M>(n: MNode<H, F, K, V, M>) -> Seq<(K, V)> decreases n, 0nat {
    match n { MNode::C(c) => cents(c, c.nodes.values@.len()), MNode::L(l) => lents(*l), MNode::S(s) => seq![(s.key, s.value)] }
}
/// those of the first k children
pub open spec fn cents<H: Hashword, F: Flagword<H>, K: Key, V: Value, M>(c: CNode<H, F, K, V, M>, k: nat) -> Seq<(K, V)> decreases c, k {
    if k == 0 || k > c.nodes.values@.len() { Seq::empty() } else { cents(c, (k - 1) as nat) + ents(c.nodes.values@[k - 1]) }
}
pub open spec fn nents<K: Key, V: Value>(n: LNodeNext<K, V>) -> Seq<(K, V)> { match n { LNodeNext::L(m) => lents(*m), LNodeNext::S(s) => seq![(s.key, s.value)] } }
/// es lists what f finds, each key class once
pub open spec fn lists<K: Key, V: Value>(es: Seq<(K, V)>, f: spec_fn(int) -> Ent<K, V>) -> bool {
    (forall|i: int| 0 <= i < es.len() ==> f(kid((#[trigger] es[i]).0)) == Some(es[i]))
    && (forall|i: int, j: int| 0 <= i < j < es.len() ==> kid((#[trigger] es[i]).0) != kid((#[trigger] es[j]).0))
    && (forall|id: int| (#[trigger] f(id)) is Some ==> exists|i: int| 0 <= i < es.len() && kid((#[trigger] es[i]).0) == id)
}
pub open spec fn nx<K: Key, V: Value>(l: Arc<LNode<K, V>>) -> LNodeNext<K, V> { l.next }
pub open spec fn ke<K: Key, V: Value>(l: Arc<LNode<K, V>>) -> (K, V) { (l.key, l.value) }
pub proof fn lents_ok<K: Key, V: Value>(n: LNodeNext<K, V>)
    requires nwf(n) ensures lists(nents(n), |id: int| nfind(n, id)), nents(n).len() == nsz(n) decreases n
{
    let f = |id: int| nfind(n, id);
    match n {
        LNodeNext::L(m) => {
            lents_ok(nx(m));
            let r = nents(nx(m)); let g = |id: int| nfind(nx(m), id); let es = nents(n);
            let e = ke(m); assert(es =~= seq![e] + r);
            lall(m);
            assert forall|i: int| 0 <= i < es.len() implies f(kid((#[trigger] es[i]).0)) == Some(es[i]) by {
                if i > 0 { assert(es[i] == r[i - 1]); assert(g(kid(r[i - 1].0)) == Some(r[i - 1])); }
            }
            assert forall|i: int, j: int| 0 <= i < j < es.len() implies kid((#[trigger] es[i]).0) != kid((#[trigger] es[j]).0) by {
                assert(es[j] == r[j - 1]); assert(g(kid(r[j - 1].0)) == Some(r[j - 1])); if i > 0 { assert(es[i] == r[i - 1]); }
            }
            assert forall|id: int| (#[trigger] f(id)) is Some implies exists|i: int| 0 <= i < es.len() && kid((#[trigger] es[i]).0) == id by {
                if id == kid(m.key) { assert(kid(es[0].0) == id); } else { assert(g(id) is Some); let i = choose|i: int| 0 <= i < r.len() && kid((#[trigger] r[i]).0) == id; assert(es[i + 1] == r[i]); }
            }
        }
        LNodeNext::S(s) => { let es = nents(n); assert forall|id: int| (#[trigger] f(id)) is Some implies exists|i: int| 0 <= i < es.len() && kid((#[trigger] es[i]).0) == id by { assert(kid(es[0].0) == id); } }
    }
}
/// what the first k children hold
pub open spec fn flook<H: Hashword, F: Flagword<H>, K: Key, V: Value, M>(c: CNode<H, F, K, V, M>, d: nat, k: nat, id: int) -> Ent<K, V> {
    if rank(cb(c), dg(id, d)) < k { look(MNode::C(c), d, id) } else { None }
}
pub proof fn rank_inj<F>(b: F, i: nat, j: nat) requires hb(b, i), hb(b, j), rank(b, i) == rank(b, j) ensures i == j {
    if i < j { rank_mono(b, i, j); } else if j < i { rank_mono(b, j, i); }
}
pub proof fn ents_ok<H: Hashword, F: Flagword<H>, K: Key, V: Value, M>(n: MNode<H, F, K, V, M>, d: nat)
    requires wf(n, d) ensures lists(ents(n), |id: int| look(n, d, id)), ents(n).len() == sz(n) decreases n, 0nat
{
    match n {
        MNode::C(c) => {
            let l = cv(c).len();
            cents_ok(c, d, l);
            assert(cv(c).take(l as int) =~= cv(c));
            assert forall|id: int| look(n, d, id) == #[trigger] flook(c, d, l, id) by { look_c(c, d, id); }
            let f = |id: int| look(n, d, id); let g = |id: int| flook(c, d, l, id);
            assert forall|id: int| f(id) == #[trigger] g(id) by { assert(look(n, d, id) == flook(c, d, l, id)); }
            assert(f =~= g);
        }
        MNode::L(l) => { lents_ok(LNodeNext::L(l)); let f = |id: int| look(n, d, id); let g = |id: int| nfind(LNodeNext::L(l), id);
            assert forall|id: int| f(id) == #[trigger] g(id) by { look_l::<H, F, K, V, M>(l, d, id); }
            assert(f =~= g); }
        MNode::S(s) => { lents_ok(LNodeNext::S(s)); let f = |id: int| look(n, d, id); let g = |id: int| nfind(LNodeNext::S(s), id);
            assert forall|id: int| f(id) == #[trigger] g(id) by { look_s::<H, F, K, V, M>(s, d, id); }
            assert(f =~= g); }
    }
}
pub proof fn cents_ok<H: Hashword, F: Flagword<H>, K: Key, V: Value, M>(c: CNode<H, F, K, V, M>, d: nat, k: nat)
    requires cwf(c, d), k <= cv(c).len() ensures lists(cents(c, k), |id: int| flook(c, d, k, id)), cents(c, k).len() == ssum(cv(c).take(k as int)) decreases c, k
{
    let f = |id: int| flook(c, d, k, id);
    if k > 0 {
        let p = (k - 1) as nat;
        cents_ok(c, d, p);
        wf_c1(c, d);
        let j = unrank(cb(c), wd(), p);
        let m = cv(c)[p as int];
        at_slot(c, d, j);
        assert(m == c.nodes.values@[p as int]);
        ents_ok(m, d + 1);
        assert(cv(c).take(k as int).drop_last() =~= cv(c).take(p as int));
        let a = cents(c, p); let b = ents(m); let es = cents(c, k);
        assert(es =~= a + b);
        let g = |id: int| flook(c, d, p, id); let h = |id: int| look(m, d + 1, id);
        assert forall|id: int| #[trigger] h(id) is Some implies f(id) == h(id) && g(id) is None by { assert(dg(id, d) == j); }
        assert forall|id: int| #[trigger] g(id) is Some implies f(id) == g(id) by { }
        assert forall|i: int| 0 <= i < es.len() implies f(kid((#[trigger] es[i]).0)) == Some(es[i]) by {
            if i < a.len() { assert(es[i] == a[i]); assert(g(kid(a[i].0)) == Some(a[i])); } else { assert(es[i] == b[i - a.len()]); assert(h(kid(b[i - a.len()].0)) == Some(es[i])); }
        }
        assert forall|i: int, l: int| 0 <= i < l < es.len() implies kid((#[trigger] es[i]).0) != kid((#[trigger] es[l]).0) by {
            if i < a.len() { assert(es[i] == a[i]); assert(g(kid(a[i].0)) == Some(a[i])); } else { assert(es[i] == b[i - a.len()]); }
            if l < a.len() { assert(es[l] == a[l]); } else { assert(es[l] == b[l - a.len()]); assert(h(kid(b[l - a.len()].0)) == Some(es[l])); }
        }
        assert forall|id: int| (#[trigger] f(id)) is Some implies exists|i: int| 0 <= i < es.len() && kid((#[trigger] es[i]).0) == id by {
            look_c(c, d, id);
            if rank(cb(c), dg(id, d)) < p { assert(g(id) is Some); let i = choose|i: int| 0 <= i < a.len() && kid((#[trigger] a[i]).0) == id; assert(es[i] == a[i]); }
            else { rank_inj(cb(c), dg(id, d), j); assert(h(id) is Some); let i = choose|i: int| 0 <= i < b.len() && kid((#[trigger] b[i]).0) == id; assert(es[i + a.len()] == b[i]); }
        }
    } else { assert(cv(c).take(0) =~= seq![]); }
}
/// sizes are below this (a map of that many entries does not fit in memory)
pub open spec fn cap() -> nat { (usize::MAX / 4) as nat }
/// what is known of slot j of a branch
pub proof fn at_slot<H: Hashword, F: Flagword<H>, K: Key, V: Value, M>(c: CNode<H, F, K, V, M>, d: nat, j: nat)
    requires cwf(c, d), j < wd()
    ensures cshape(c, d), rank(cb(c), j) <= cv(c).len(), hb(cb(c), j) <==> child(c, j) is Some,
        hb(cb(c), j) ==> rank(cb(c), j) < cv(c).len() && child(c, j) == Some(cv(c)[rank(cb(c), j) as int]) && ({
            let m = cv(c)[rank(cb(c), j) as int];
            wf(m, d + 1) && 0 < sz(m) <= cx(c) && inslot(m, d, j) && forall|x: int| dg(x, d) == j ==> #[trigger] look(MNode::C(c), d, x) == look(m, d + 1, x)
        })
{
    wf_c1(c, d); wf_child(c, d, j); rank_mono(cb(c), j, wd()); slot_has(cb(c), cv(c), j);
    assert forall|x: int| hb(cb(c), j) && dg(x, d) == j implies #[trigger] look(MNode::C(c), d, x) == look(cv(c)[rank(cb(c), j) as int], d + 1, x) by { look_c(c, d, x); }
}
pub proof fn leaf_slot<H: Hashword, F: Flagword<H>, K: Key, V: Value, M>(n: MNode<H, F, K, V, M>, d: nat, h: int)
    requires !(n is C), wf(n, 0), sz(n) > 0, forall|x: int| (#[trigger] look(n, 0, x)) is Some ==> hid(x) == h
    ensures chok(Some(n), d, hdg(h, d)), forall|x: int| #[trigger] look(n, d + 1, x) == look(n, 0, x)
{
    assert forall|x: int| #[trigger] look(n, d + 1, x) == look(n, 0, x) by { leaf_any(n, d + 1, x); }
}
pub broadcast proof fn lfind_n<K: Key, V: Value>(l: Arc<LNode<K, V>>, id: int) ensures #[trigger] lfind(*l, id) == nfind(LNodeNext::L(l), id) {}
pub broadcast proof fn sfind_n<K: Key, V: Value>(s: Arc<SNode<K, V>>, id: int) ensures #[trigger] sfind(*s, id) == nfind(LNodeNext::S(s), id) {}
/// all keys of a list share their hash
pub proof fn nhash<K: Key, V: Value>(n: LNodeNext<K, V>, id: int)
    requires nwf(n), nfind(n, id) is Some ensures nsz(n) >= 1, forall|x: int| (#[trigger] nfind(n, x)) is Some ==> hid(x) == hid(id)
{
    if let LNodeNext::L(m) = n {
        lfind_u(m, id);
        assert forall|x: int| (#[trigger] nfind(n, x)) is Some implies hid(x) == hid(kid(m.key)) by { lfind_u(m, x); };
    }
}
pub broadcast proof fn lfind_u<K: Key, V: Value>(l: Arc<LNode<K, V>>, id: int)
    ensures #![trigger lwf(*l), lfind(*l, id)] lfind(*l, id) == (if kid(l.key) == id { Some((l.key, l.value)) } else { nfind(l.next, id) }) {}
pub proof fn lpm_dig<K: Key, V: Value>(n: LNodeNext<K, V>, d: nat, id: int)
    requires lpm(n, d, id), d <= lv()
    ensures forall|x: int, e: nat| (#[trigger] nfind(n, x)) is Some && e < d ==> (#[trigger] hdg(hid(x), e)) == hdg(hid(id), e),
        d == lv() ==> forall|x: int| (#[trigger] nfind(n, x)) is Some ==> hid(x) == hid(id)
{
    assert forall|x: int, e: nat| (#[trigger] nfind(n, x)) is Some && e < d implies (#[trigger] hdg(hid(x), e)) == hdg(hid(id), e) by { assert(dg(x, e) == dg(id, e)); }
    if d == lv() { assert forall|x: int| (#[trigger] nfind(n, x)) is Some implies hid(x) == hid(id) by { ax_hash(hid(x), hid(id)); } }
}
/// lfind in terms of the rest of the list, for every key
pub proof fn lall<K: Key, V: Value>(l: Arc<LNode<K, V>>)
    ensures forall|x: int| #[trigger] nfind(LNodeNext::L(l), x) == (if kid(l.key) == x { Some((l.key, l.value)) } else { nfind(l.next, x) })
{}
pub broadcast group group_vp { crate::traits::group_traits, slot_has, look_c, look_l, look_s, look_n, wf_child, pm_l, pm_s, lfind_n, sfind_n, lfind_u, uflip_key, rf_swap, jd_flip, jd_fm, jd_mf, fd_flip, jw_flip_u, jw_flip_tm, jw_flip_mt, jw_flip_f, jred_flip, mjred_flip }
// ---- single-map operations ----
pub open spec fn fd<H, F>(f: Option<Flag<H, F>>) -> nat { match f { Some(f) => f.depth as nat, None => lv() } }
pub open spec fn kf<H, F>(f: Option<Flag<H, F>>, id: int) -> bool { match f { Some(f) => flok(f) && hv(f.hash_value) == hid(id), None => true } }
pub open spec fn found<K: Key, V: Value>(res: FindResult<K, V>, e: Ent<K, V>) -> bool {
    match res { FindResult::NotFound => e is None, FindResult::Found(k, v) => e == Some((*k, *v)) }
}
pub open spec fn holds<K, V>(p: Option<(&K, &V)>, e: Ent<K, V>) -> bool { match p { Some(kv) => e == Some((*kv.0, *kv.1)), None => e is None } }
pub open spec fn put<H: Hashword, F: Flagword<H>, K: Key, V: Value, M>(a: MNode<H, F, K, V, M>, b: MNode<H, F, K, V, M>, d: nat, id: int, e: Ent<K, V>) -> bool {
    forall|x: int| #[trigger] look(b, d, x) == if x == id { e } else { look(a, d, x) }
}
/// b is a with key class id set to (k, v)
pub open spec fn inserted<H: Hashword, F: Flagword<H>, K: Key, V: Value, M, L: Key + VpInto<K>, W: VpInto<V>>(a: MNode<H, F, K, V, M>, b: MNode<H, F, K, V, M>, d: nat, key: L, value: W, k: K, v: V, prev: Option<(&K, &V)>, replace: bool) -> bool {
    put(a, b, d, kid(key), Some((k, v))) && key.into_rel(k) && value.into_rel(v) && kid(k) == kid(key)
    && holds(prev, look(a, d, kid(key))) && (prev is Some ==> replace)
}
pub open spec fn grown<H: Hashword, F: Flagword<H>, K: Key, V: Value, M>(a: MNode<H, F, K, V, M>, b: MNode<H, F, K, V, M>, d: nat, prev: Option<(&K, &V)>) -> bool {
    wf(b, d) && sz(b) == sz(a) + (if prev is None { 1nat } else { 0nat }) && (prev is Some ==> (a is C <==> b is C) && (a is S <==> b is S))
}
pub open spec fn refused<K, V>(k: &K, v: &V, e: Ent<K, V>, replace: bool) -> bool { !replace && e == Some((*k, *v)) }
pub open spec fn ins_m<'a, H: Hashword, F: Flagword<H>, K: Key, V: Value, M, L: Key + VpInto<K>, W: VpInto<V>>(a: MNode<H, F, K, V, M>, d: nat, key: L, value: W, replace: bool, res: InsertResult<'a, H, F, K, V, M>) -> bool {
    match res {
        InsertResult::Found(k, v) => refused(k, v, look(a, d, kid(key)), replace),
        InsertResult::InsertedC(c, p, q, prev) => inserted(a, MNode::C(c), d, key, value, p.v(), q.v(), prev, replace),
        InsertResult::InsertedL(l, p, q, prev) => inserted(a, MNode::L(l), d, key, value, p.v(), q.v(), prev, replace),
        InsertResult::InsertedS(s, p, q, prev) => inserted(a, MNode::S(s), d, key, value, p.v(), q.v(), prev, replace),
    }
}
pub open spec fn insz_m<'a, H: Hashword, F: Flagword<H>, K: Key, V: Value, M>(a: MNode<H, F, K, V, M>, d: nat, res: InsertResult<'a, H, F, K, V, M>) -> bool {
    match res {
        InsertResult::Found(k, v) => true,
        InsertResult::InsertedC(c, p, q, prev) => grown(a, MNode::C(c), d, prev),
        InsertResult::InsertedL(l, p, q, prev) => grown(a, MNode::L(l), d, prev),
        InsertResult::InsertedS(s, p, q, prev) => grown(a, MNode::S(s), d, prev),
    }
}
pub open spec fn from_c<'a, H: Hashword, F: Flagword<H>, K: Key, V: Value, M>(r: CNodeInsertResult<'a, H, F, K, V, M>) -> InsertResult<'a, H, F, K, V, M> {
    match r { CNodeInsertResult::Found(k, v) => InsertResult::Found(k, v), CNodeInsertResult::InsertedC(c, p, q, prev) => InsertResult::InsertedC(c, p, q, prev) }
}
pub open spec fn from_l<'a, H: Hashword, F: Flagword<H>, K: Key, V: Value, M>(r: LNodeInsertResult<'a, H, F, K, V, M>) -> InsertResult<'a, H, F, K, V, M> {
    match r { LNodeInsertResult::Found(k, v) => InsertResult::Found(k, v), LNodeInsertResult::InsertedC(c, p, q, prev) => InsertResult::InsertedC(c, p, q, prev), LNodeInsertResult::InsertedL(l, p, q, prev) => InsertResult::InsertedL(l, p, q, prev) }
}
pub open spec fn from_next<H: Hashword, F: Flagword<H>, K: Key, V: Value, M>(r: LNodeNext<K, V>) -> MNode<H, F, K, V, M> {
    match r { LNodeNext::L(l) => MNode::L(l), LNodeNext::S(s) => MNode::S(s) }
}
pub open spec fn removed<H: Hashword, F: Flagword<H>, K: Key, V: Value, M>(a: MNode<H, F, K, V, M>, b: MNode<H, F, K, V, M>, d: nat, id: int, k: &K, v: &V) -> bool {
    put(a, b, d, id, None) && look(a, d, id) == Some((*k, *v))
}
pub open spec fn shrunk<H: Hashword, F: Flagword<H>, K: Key, V: Value, M>(a: MNode<H, F, K, V, M>, b: MNode<H, F, K, V, M>, d: nat) -> bool {
    wf(b, d) && sz(b) + 1 == sz(a) && sz(b) > 0
}
pub open spec fn rem_m<'a, H: Hashword, F: Flagword<H>, K: Key, V: Value, M>(a: MNode<H, F, K, V, M>, d: nat, id: int, res: RemoveResult<'a, H, F, K, V, M>) -> bool {
    match res {
        RemoveResult::NotFound => look(a, d, id) is None,
        RemoveResult::RemovedC(c, k, v) => removed(a, MNode::C(c), d, id, k, v),
        RemoveResult::RemovedL(l, k, v) => removed(a, MNode::L(l), d, id, k, v),
        RemoveResult::RemovedS(s, k, v) => removed(a, MNode::S(s), d, id, k, v),
        RemoveResult::RemovedZ(k, v) => look(a, d, id) == Some((*k, *v)) && forall|x: int| x != id ==> (#[trigger] look(a, d, x)) is None,
    }
}
pub open spec fn remsz_m<'a, H: Hashword, F: Flagword<H>, K: Key, V: Value, M>(a: MNode<H, F, K, V, M>, d: nat, res: RemoveResult<'a, H, F, K, V, M>) -> bool {
    match res {
        RemoveResult::NotFound => true,
        RemoveResult::RemovedC(c, k, v) => shrunk(a, MNode::C(c), d),
        RemoveResult::RemovedL(l, k, v) => shrunk(a, MNode::L(l), d),
        RemoveResult::RemovedS(s, k, v) => shrunk(a, MNode::S(s), d),
        RemoveResult::RemovedZ(k, v) => sz(a) == 1,
    }
}
pub open spec fn from_lrem<'a, H: Hashword, F: Flagword<H>, K: Key, V: Value, M>(r: LNodeRemoveResult<'a, K, V>) -> RemoveResult<'a, H, F, K, V, M> {
    match r { LNodeRemoveResult::NotFound => RemoveResult::NotFound, LNodeRemoveResult::RemovedL(l, k, v) => RemoveResult::RemovedL(l, k, v), LNodeRemoveResult::RemovedS(s, k, v) => RemoveResult::RemovedS(s, k, v) }
}
pub open spec fn from_srem<'a, H: Hashword, F: Flagword<H>, K: Key, V: Value, M>(r: SNodeRemoveResult<'a, K, V>) -> RemoveResult<'a, H, F, K, V, M> {
    match r { SNodeRemoveResult::NotFound => RemoveResult::NotFound, SNodeRemoveResult::RemovedZ(k, v) => RemoveResult::RemovedZ(k, v) }
}
pub open spec fn lput<K: Key, V: Value>(a: LNodeNext<K, V>, b: LNodeNext<K, V>, id: int, e: Ent<K, V>) -> bool {
    forall|x: int| #[trigger] nfind(b, x) == if x == id { e } else { nfind(a, x) }
}
pub open spec fn lremoved<K: Key, V: Value>(a: LNodeNext<K, V>, b: LNodeNext<K, V>, id: int, k: &K, v: &V) -> bool {
    lput(a, b, id, None) && nfind(a, id) == Some((*k, *v)) && nwf(b) && nsz(b) + 1 == nsz(a)
}
pub open spec fn lrem<'a, K: Key, V: Value>(a: LNodeNext<K, V>, id: int, res: LNodeRemoveResult<'a, K, V>) -> bool {
    match res {
        LNodeRemoveResult::NotFound => nfind(a, id) is None,
        LNodeRemoveResult::RemovedL(l, k, v) => lremoved(a, LNodeNext::L(l), id, k, v),
        LNodeRemoveResult::RemovedS(s, k, v) => lremoved(a, LNodeNext::S(s), id, k, v),
    }
}
pub broadcast proof fn pm_l<H: Hashword, F: Flagword<H>, K: Key, V: Value, M>(l: Arc<LNode<K, V>>, d: nat, id: int)
    ensures #[trigger] pm(MNode::<H, F, K, V, M>::L(l), d, id) ==> lpm(LNodeNext::L(l), d, id)
{
    assert forall|x: int, i: nat| pm(MNode::<H, F, K, V, M>::L(l), d, id) && (#[trigger] nfind(LNodeNext::L(l), x)) is Some && i < d implies (#[trigger] dg(x, i)) == dg(id, i) by { look_l::<H, F, K, V, M>(l, d, x); }
}
pub broadcast proof fn pm_s<H: Hashword, F: Flagword<H>, K: Key, V: Value, M>(l: Arc<SNode<K, V>>, d: nat, id: int)
    ensures #[trigger] pm(MNode::<H, F, K, V, M>::S(l), d, id) ==> lpm(LNodeNext::S(l), d, id)
{
    assert forall|x: int, i: nat| pm(MNode::<H, F, K, V, M>::S(l), d, id) && (#[trigger] nfind(LNodeNext::S(l), x)) is Some && i < d implies (#[trigger] dg(x, i)) == dg(id, i) by { look_s::<H, F, K, V, M>(l, d, x); }
}
pub proof fn pm_child<H: Hashword, F: Flagword<H>, K: Key, V: Value, M>(c: CNode<H, F, K, V, M>, d: nat, id: int)
    requires cwf(c, d), pm(MNode::C(c), d, id), child(c, dg(id, d)) is Some ensures pm(child(c, dg(id, d))->0, d + 1, id)
{
    let m = child(c, dg(id, d))->0; wf_child(c, d, dg(id, d));
    assert forall|x: int, i: nat| (#[trigger] look(m, d + 1, x)) is Some && i < d + 1 implies (#[trigger] dg(x, i)) == dg(id, i) by { look_c(c, d, x); }
}
pub broadcast proof fn look_n<H: Hashword, F: Flagword<H>, K: Key, V: Value, M>(n: LNodeNext<K, V>, d: nat, id: int)
    ensures #[trigger] look(from_next::<H, F, K, V, M>(n), d, id) == nfind(n, id) {}
pub proof fn rank_one<F>(f: F, j: nat, n: nat) requires one(f, j) ensures rank(f, n) == if j < n { 1nat } else { 0nat } decreases n {
    if n > 0 { rank_one(f, j, (n - 1) as nat); }
}
pub broadcast proof fn leaf_any<H: Hashword, F: Flagword<H>, K: Key, V: Value, M>(n: MNode<H, F, K, V, M>, d: nat, x: int)
    requires !(n is C) ensures #[trigger] look(n, d, x) == look(n, 0, x) {}
pub proof fn c_new1<H: Hashword, F: Flagword<H>, K: Key, V: Value, M>(c: CNode<H, F, K, V, M>, d: nat, j: nat, v: MNode<H, F, K, V, M>)
    requires d < lv(), one(cb(c), j), cv(c) =~= seq![v], chok(Some(v), d, j), cx(c) == sz(v)
    ensures cwf(c, d), forall|x: int| #[trigger] look(MNode::C(c), d, x) == if dg(x, d) == j { look(v, d + 1, x) } else { None }
{
    rank_one(cb(c), j, wd()); rank_one(cb(c), j, j);
    assert(cv(c).drop_last() =~= seq![]);
    reveal_with_fuel(ssum, 3);
    assert forall|k: nat| chok(#[trigger] child(c, k), d, k) by {}
    wf_c2(c, d);
    assert forall|x: int| #[trigger] look(MNode::C(c), d, x) == (if dg(x, d) == j { look(v, d + 1, x) } else { None::<(K, V)> }) by { look_c(c, d, x); }
}
pub proof fn c_new2<H: Hashword, F: Flagword<H>, K: Key, V: Value, M>(c: CNode<H, F, K, V, M>, d: nat, b: F, i: nat, u: MNode<H, F, K, V, M>, j: nat, v: MNode<H, F, K, V, M>)
    requires d < lv(), one(b, i), i != j, j < wd(), ins(b, j, cb(c)), cv(c) =~= (if i < j { seq![u, v] } else { seq![v, u] }), chok(Some(u), d, i), chok(Some(v), d, j), cx(c) == sz(u) + sz(v)
    ensures cwf(c, d), forall|x: int| #[trigger] look(MNode::C(c), d, x) == if dg(x, d) == i { look(u, d + 1, x) } else if dg(x, d) == j { look(v, d + 1, x) } else { None }
{
    rank_one(b, i, wd()); rank_ins(b, j, cb(c), wd()); rank_one(b, i, i); rank_one(b, i, j); rank_ins(b, j, cb(c), i); rank_ins(b, j, cb(c), j);
    assert(cv(c).drop_last().drop_last() =~= seq![]);
    reveal_with_fuel(ssum, 3);
    assert(ssum(cv(c).drop_last()) == sz(cv(c)[0]));
    assert forall|k: nat| chok(#[trigger] child(c, k), d, k) by {}
    wf_c2(c, d);
    assert forall|x: int| #[trigger] look(MNode::C(c), d, x) == (if dg(x, d) == i { look(u, d + 1, x) } else if dg(x, d) == j { look(v, d + 1, x) } else { None::<(K, V)> }) by { look_c(c, d, x); }
}
