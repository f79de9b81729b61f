//! Differential engine: random histories over controlled-hash keys, against a BTreeMap model.
//! One module per (hash word, flag word) pair, generated by `engine!`.
use crate::keys::*;
use std::collections::BTreeMap;
pub type MA = BTreeMap<u32, (u32, u64)>; // id -> (key tag, value)

pub struct Fail { pub cat: String, pub msg: String }
pub struct Cx {
    pub seed: u64,
    pub rng: Rng,
    pub log: Vec<String>,
    pub hs: Vec<u64>,      // id -> hash
    pub weights: [u64; 16], // op kind weights
    pub fresh: u32,
}
impl Cx {
    pub fn new(seed: u64, hbits: u32, logb: u32, weights: [u64; 16]) -> Cx {
        let mut rng = Rng(seed);
        let mask = if hbits >= 64 { u64::MAX } else { (1u64 << hbits) - 1 };
        // a few base hashes, plus variants that differ from a base in one digit only
        let nb = 1 + rng.below(2);
        let mut pool: Vec<u64> = (0..nb).map(|_| match rng.below(4) { 0 => 0, 1 => mask, _ => rng.next() & mask }).collect();
        let levels = (hbits + logb - 1) / logb;
        for _ in 0..rng.below(4) {
            let b = pool[rng.below(pool.len() as u64) as usize];
            let d = match rng.below(3) { 0 => levels - 1, 1 => 0, _ => rng.below(levels as u64) as u32 };
            let sh = d * logb;
            let digit = 1 + rng.below((1u64 << logb) - 1);
            let v = b ^ ((digit.checked_shl(sh).unwrap_or(0)) & mask);
            if !pool.contains(&v) { pool.push(v) }
        }
        if rng.chance(1, 3) { for _ in 0..4 { pool.push(rng.next() & mask) } }
        let n = 3 + rng.below(8) as usize;
        let hs = (0..n).map(|_| pool[rng.below(pool.len() as u64) as usize]).collect();
        Cx { seed, rng, log: vec![], hs, weights, fresh: 1 }
    }
    pub fn pick(&mut self) -> usize {
        let t: u64 = self.weights.iter().sum();
        let mut x = self.rng.below(t);
        for (i, w) in self.weights.iter().enumerate() { if x < *w { return i } x -= *w }
        0
    }
    pub fn tag(&mut self) -> u32 { self.fresh += 1; self.fresh }
    pub fn id(&mut self) -> u32 { self.rng.below(self.hs.len() as u64) as u32 }
}
macro_rules! bad { ($cat:expr, $($a:tt)*) => { return Err(Fail { cat: $cat.to_string(), msg: format!($($a)*) }) } }
macro_rules! ck { ($c:expr, $cat:expr, $($a:tt)*) => { if !$c { bad!($cat, $($a)*) } } }

/// Per-entry decisions, a pure function of (seed, id, values); s selects the table, m how skewed it is.
#[derive(Clone, Copy, Debug)]
pub struct T { pub s: u64, pub m: u64 }
impl T {
    pub fn code(&self, id: u32, n: u64) -> u64 { match self.m { 0 => mix2(self.s, id as u64) % n, k => (k - 1) % n } }
    pub fn w(&self, a: u64, b: u64, c: u64) -> u64 { mix2(mix2(self.s ^ 0x51, a), mix2(b, c)) }
}

#[macro_export]
macro_rules! engine { ($name:ident, $H:ty, $F:ty) => {
pub mod $name {
    use $crate::keys::*;
    use $crate::engine::*;
    use hash_trie::{*, results::*, transformations::*};
    use std::cell::RefCell;
    use std::rc::Rc;
    use std::collections::BTreeMap;
    use hash_trie::traits::{MaxOnes, LogB};
    pub type A = HashTrieMap<$H, $F, KA, u64, CH>;
    pub type B = HashTrieMap<$H, $F, KB, u32, CH>;
    pub type SA = HashTrieSet<$H, $F, KA, CH>;
    pub type SB = HashTrieSet<$H, $F, KB, CH>;
    pub type MB = BTreeMap<u32, (u32, u32)>;
    fn lim() -> usize { 64 }

    pub fn check_a(cx: &Cx, op: &str, what: &str, m: &A, e: &MA) -> Result<(), Fail> {
        let cat = format!("{op}:{what}");
        for id in 0..cx.hs.len() as u32 {
            let h = cx.hs[id as usize];
            let f = m.find(&KA { id, h, tag: 0 }).ok().map(|(k, v)| (k.id, k.tag, *v));
            let g = m.find(&KB { id, h, tag: 0 }).ok().map(|(k, v)| (k.id, k.tag, *v));
            let x = e.get(&id).map(|(t, v)| (id, *t, *v));
            ck!(f == x, cat, "after {op}: find(id {id}, hash {h:#x}) gave {f:?}, the map should give {x:?} (id, key tag, value)");
            ck!(g == x, cat, "after {op}: find by the second key type (id {id}) gave {g:?}, should give {x:?}");
        }
        ck!(m.size() == e.len(), format!("{op}:{}", if what == "persist" { "persist" } else { "size" }), "after {op}: size() = {}, the map holds {} keys", m.size(), e.len());
        let seen = Rc::new(RefCell::new(Vec::new()));
        let s = seen.clone();
        m.visit(move |k: &KA, v: &u64| { assert!(s.borrow().len() < lim(), "visit does not end"); s.borrow_mut().push((k.id, k.tag, *v)) });
        let mut got = seen.borrow().clone(); got.sort();
        let want: Vec<_> = e.iter().map(|(i, (t, v))| (*i, *t, *v)).collect();
        ck!(got == want, format!("{op}:{}", if what == "persist" { "persist" } else { "visit" }), "after {op}: visit saw {got:?}, should see {want:?}");
        Ok(())
    }
    pub fn check_b(cx: &Cx, op: &str, what: &str, m: &B, e: &MB) -> Result<(), Fail> {
        let cat = format!("{op}:{what}");
        for id in 0..cx.hs.len() as u32 {
            let h = cx.hs[id as usize];
            let f = m.find(&KB { id, h, tag: 0 }).ok().map(|(k, v)| (k.id, k.tag, *v));
            let x = e.get(&id).map(|(t, v)| (id, *t, *v));
            ck!(f == x, cat, "after {op}: find(id {id}, hash {h:#x}) gave {f:?}, the map should give {x:?}");
        }
        ck!(m.size() == e.len(), format!("{op}:{}", if what == "persist" { "persist" } else { "size" }), "after {op}: size() = {}, the map holds {} keys", m.size(), e.len());
        let seen = Rc::new(RefCell::new(Vec::new()));
        let s = seen.clone();
        m.visit(move |k: &KB, v: &u32| { assert!(s.borrow().len() < lim(), "visit does not end"); s.borrow_mut().push((k.id, k.tag, *v)) });
        let mut got = seen.borrow().clone(); got.sort();
        let want: Vec<_> = e.iter().map(|(i, (t, v))| (*i, *t, *v)).collect();
        ck!(got == want, format!("{op}:{}", if what == "persist" { "persist" } else { "visit" }), "after {op}: visit saw {got:?}, should see {want:?}");
        Ok(())
    }
    // structural well-formedness seen from outside: every key can be removed and the rest stays
    pub fn drain_a(cx: &mut Cx, m: &A, e: &MA) -> Result<(), Fail> {
        let mut m = m.clone(); let mut e = e.clone();
        let mut ids: Vec<u32> = e.keys().cloned().collect();
        for i in 0..ids.len() { let j = cx.rng.below(ids.len() as u64) as usize; ids.swap(i, j) }
        for id in ids {
            let r = m.remove(&KB { id, h: cx.hs[id as usize], tag: 0 }).map(|(m, k, v)| (m, k.tag, *v));
            match r {
                Err(_) => bad!("remove:view", "remove(id {id}) says not found, the key is present"),
                Ok((m2, t, v)) => {
                    ck!(e.get(&id) == Some(&(t, v)), "remove:ret", "remove(id {id}) returned (tag {t}, {v}), should be {:?}", e.get(&id));
                    e.remove(&id);
                    check_a(cx, "remove", "view", &m2, &e)?;
                    m = m2;
                }
            }
        }
        Ok(())
    }

    fn setop(r: u64) -> u64 { r }

    pub fn history(cx: &mut Cx, steps: usize, cur: &dyn Fn(&str)) -> Result<(), Fail> {
        let mut pa: Vec<(A, MA)> = vec![(A::new(), MA::new())];
        let mut pb: Vec<(B, MB)> = vec![(B::new(), MB::new())];
        let pl = <$F as MaxOnes>::max_ones(); let _ = pl;
        for _ in 0..steps {
            // now and then seed a map with many keys in one go
            let k = cx.pick();
            let ia = cx.rng.below(pa.len() as u64) as usize;
            let ja = cx.rng.below(pa.len() as u64) as usize;
            let jb = cx.rng.below(pb.len() as u64) as usize;
            let (ma, ea) = pa[ia].clone();
            let par = if cx.rng.chance(1, 2) { ParallelismStrategy::Sequential } else { ParallelismStrategy::MiddleIndex };
            let alt = match par { ParallelismStrategy::Sequential => ParallelismStrategy::MiddleIndex, _ => ParallelismStrategy::Sequential };
            let skew = |r: &mut Rng| if r.chance(1, 2) { 0 } else { 1 + r.below(5) };
            let tb = T { s: cx.rng.next(), m: skew(&mut cx.rng) };
            let tl = T { s: cx.rng.next(), m: skew(&mut cx.rng) };
            let tr = T { s: cx.rng.next(), m: skew(&mut cx.rng) };
            // constant operations: 0 generic, 1.. constant variants
            let cb = if cx.rng.chance(1, 3) { 1 + cx.rng.below(4) } else { 0 };
            let cl = if cx.rng.chance(1, 3) { 1 + cx.rng.below(2) } else { 0 };
            let cr = if cx.rng.chance(1, 3) { 1 + cx.rng.below(2) } else { 0 };
            let add = |a: &u64, b: &u64| a.wrapping_add(*b);
            match k {
                0 | 1 => { // insert (0: same key type, 1: second key type)
                    let id = cx.id(); let tag = cx.tag(); let v = cx.rng.next() % 1000; let replace = cx.rng.chance(1, 2); let h = cx.hs[id as usize];
                    cur("insert");
                    cx.log.push(format!("a{} = a{ia}.insert(id {id} hash {h:#x} tag {tag}, {v}, replace {replace}{})", pa.len(), if k == 1 { ", by the second key type" } else { "" }));
                    let old = ea.get(&id).cloned();
                    let mut en = ea.clone();
                    if old.is_none() || replace { en.insert(id, (tag, v)); }
                    let r = if k == 0 { ma.insert(KA { id, h, tag }, v, replace) } else { ma.insert(KB { id, h, tag }, v, replace) };
                    let nm = match r {
                        Err((k, v)) => {
                            ck!(old.is_some() && !replace, "insert:ret", "insert(id {id}, replace {replace}) was refused, key present before: {}", old.is_some());
                            ck!((k.id, k.tag, *v) == (id, old.unwrap().0, old.unwrap().1), "insert:ret", "refused insert returned {:?}, the entry is {:?}", (k, v), old);
                            None
                        }
                        Ok((m, kp, vp, prev)) => {
                            ck!(old.is_none() || replace, "insert:ret", "insert(id {id}, replace false) accepted although the key is present");
                            ck!(prev.map(|(k, v)| (k.tag, *v)) == old, "insert:ret", "insert(id {id}) reports previous {:?}, the previous entry is {:?}", prev, old);
                            { let (kr, vr) = unsafe { (&*kp, &*vp) };
                              ck!((kr.id, kr.tag, *vr) == (id, tag, v), "insert:ret", "the returned pointers show {:?}, the inserted entry is {:?}", (kr, vr), (id, tag, v));
                              if let Ok((fk, fv)) = m.find(&KA { id, h, tag: 0 }) { ck!(std::ptr::eq(fk, kp) && std::ptr::eq(fv, vp), "insert:ret", "the returned pointers do not address the entry stored in the new map (id {id})"); } }
                            Some(m)
                        }
                    };
                    if let Some(m) = nm { check_a(cx, "insert", "view", &m, &en)?; pa.push((m, en)); }
                    check_a(cx, "insert", "persist", &ma, &ea)?;
                }
                2 => { // remove
                    let id = cx.id(); let h = cx.hs[id as usize];
                    cur("remove");
                    cx.log.push(format!("a{} = a{ia}.remove(id {id} hash {h:#x})", pa.len()));
                    let mut en = ea.clone(); let old = en.remove(&id);
                    match ma.remove(&KA { id, h, tag: 0 }) {
                        Err(_) => ck!(old.is_none(), "remove:view", "remove(id {id}) says not found, the key is present"),
                        Ok((m, k, v)) => {
                            ck!(old == Some((k.tag, *v)) && k.id == id, "remove:ret", "remove(id {id}) returned {:?}, the entry was {:?}", (k, v), old);
                            check_a(cx, "remove", "view", &m, &en)?;
                            pa.push((m, en));
                        }
                    }
                    check_a(cx, "remove", "persist", &ma, &ea)?;
                }
                3 => { // insert into the second map family
                    let (mb, eb) = pb[jb].clone();
                    let id = cx.id(); let tag = cx.tag(); let v = (cx.rng.next() % 1000) as u32; let h = cx.hs[id as usize];
                    cur("insert");
                    cx.log.push(format!("b{} = b{jb}.insert(id {id} hash {h:#x} tag {tag}, {v}, replace true)", pb.len()));
                    let mut en = eb.clone(); en.insert(id, (tag, v));
                    if let Ok((m, ..)) = mb.insert(KB { id, h, tag }, v, true) { check_b(cx, "insert", "view", &m, &en)?; pb.push((m, en)); } else { bad!("insert:ret", "insert with replace was refused") }
                }
                4 => { // transform
                    cur("transform");
                    cx.log.push(format!("a{} = a{ia}.transform({} {tl:?}, {par:?})", pa.len(), ["generic", "unchanged", "removed"][cl as usize]));
                    let g = move |k: &KA, v: &u64| { let w = tl.w(k.id as u64, k.tag as u64, *v); match tl.code(k.id, 3) { 0 => MapTransformResult::Unchanged(w), 1 => MapTransformResult::Transformed(w % 1000, w), _ => MapTransformResult::Removed(w) } };
                    let run = |p| match cl { 0 => block_on(ma.transform(add, new_map_transform_generic(g), p)), 1 => block_on(ma.transform(add, new_map_transform_unchanged(7u64), p)), _ => block_on(ma.transform(add, new_map_transform_removed(7u64), p)) };
                    let (m, r) = run(par);
                    let mut en = MA::new(); let mut sum = 0u64; let mut allunch = true;
                    for (id, (t, v)) in &ea {
                        let w = tl.w(*id as u64, *t as u64, *v); sum = sum.wrapping_add(w);
                        match if cl > 0 { (cl - 1) * 2 } else { tl.code(*id, 3) } { 0 => { en.insert(*id, (*t, *v)); }, 1 => { allunch = false; en.insert(*id, (*t, w % 1000)); }, _ => { allunch = false; } }
                    }
                    check_a(cx, "transform", "view", &m, &en)?;
                    if cl == 0 { ck!(r == sum, "transform:red", "transform reduced to {r}, the sum over all entries is {sum}"); }
                    if allunch && (cl == 0 || cl == 1) { ck!(m == ma, "transform:same", "every entry was left unchanged, but the result is not equal to the original map"); }
                    check_a(cx, "transform", "persist", &ma, &ea)?;
                    let (m2, r2) = run(alt);
                    check_a(cx, "transform", "par", &m2, &en).map_err(|f| Fail { cat: "transform:par".into(), msg: f.msg })?;
                    if cl == 0 { ck!(r2 == r, "transform:par", "the two strategies reduce to {r} and {r2}"); }
                    pa.push((m, en));
                }
                5 => { // transmute to the second family
                    cur("transmute");
                    cx.log.push(format!("b{} = a{ia}.transmute({} {tl:?})", pb.len(), if cl == 2 { "removed" } else { "generic" }));
                    let g = move |k: &KA, v: &u64| { let w = tl.w(k.id as u64, k.tag as u64, *v); match tl.code(k.id, 2) { 0 => MapTransmuteResult::Transmuted(KB { id: k.id, h: k.h, tag: k.tag ^ 0x1000 }, (w % 1000) as u32, w), _ => MapTransmuteResult::Removed(w) } };
                    let (m, r) = if cl == 2 { unsafe { ma.transmute(add, new_map_transmute_removed::<KA, u64, KB, u32, u64>(7u64)) } } else { unsafe { ma.transmute(add, new_map_transmute_generic(g)) } };
                    let mut en = MB::new(); let mut sum = 0u64;
                    for (id, (t, v)) in &ea { let w = tl.w(*id as u64, *t as u64, *v); sum = sum.wrapping_add(w); if cl != 2 && tl.code(*id, 2) == 0 { en.insert(*id, (*t ^ 0x1000, (w % 1000) as u32)); } }
                    check_b(cx, "transmute", "view", &m, &en)?;
                    if cl != 2 { ck!(r == sum, "transmute:red", "transmute reduced to {r}, the sum over all entries is {sum}"); }
                    check_a(cx, "transmute", "persist", &ma, &ea)?;
                    pb.push((m, en));
                }
                6 => { // transform_with_transformed
                    let (mr, er) = pa[ja].clone();
                    cur("ff");
                    cx.log.push(format!("a{} = a{ia}.transform_with_transformed(a{ja}, both {cb} {tb:?}, left {cl} {tl:?}, right {cr} {tr:?}, {par:?}) [0 generic]", pa.len()));
                    let gb = move |k: &KA, v: &u64, l: &KA, x: &u64| { let w = tb.w(mix2(k.tag as u64, *v), mix2(l.tag as u64, *x), k.id as u64); match tb.code(k.id, 5) { 0 => MapJointTransformResult::UnchangedLR(w), 1 => MapJointTransformResult::UnchangedL(w), 2 => MapJointTransformResult::UnchangedR(w), 3 => MapJointTransformResult::Transformed(w % 1000, w), _ => MapJointTransformResult::Removed(w) } };
                    let gl = move |k: &KA, v: &u64| { let w = tl.w(k.id as u64, k.tag as u64, *v); match tl.code(k.id, 3) { 0 => MapTransformResult::Unchanged(w), 1 => MapTransformResult::Transformed(w % 1000, w), _ => MapTransformResult::Removed(w) } };
                    let gr = move |k: &KA, v: &u64| { let w = tr.w(k.id as u64, k.tag as u64, *v); match tr.code(k.id, 3) { 0 => MapTransformResult::Unchanged(w), 1 => MapTransformResult::Transformed(w % 1000, w), _ => MapTransformResult::Removed(w) } };
                    fn b2<X>(f: X, c: u64) -> MapJointTransform<u64, X> { match c { 0 => MapJointTransform::Generic(f, false), 1 => MapJointTransform::UnchangedLR(7), 2 => MapJointTransform::UnchangedL(7), 3 => MapJointTransform::UnchangedR(7), _ => MapJointTransform::Removed(7) } }
                    fn t2<X>(f: X, c: u64) -> MapTransform<u64, X> { match c { 0 => MapTransform::Generic(f), 1 => MapTransform::Unchanged(7), _ => MapTransform::Removed(7) } }
                    let run = |p| block_on(ma.transform_with_transformed(&mr, add, b2(gb, cb), t2(gl, cl), t2(gr, cr), p));
                    let (m, r) = run(par);
                    // UnchangedLR lets the implementation keep either entry; everything else is determined
                    let mut sum = 0u64; let (mut samel, mut samer) = (true, true);
                    let mut en = MA::new(); let mut either: Vec<u32> = vec![]; let mut newv: Vec<(u32, u32, u32, u64)> = vec![]; // newv: either key object may carry the new value
                    for id in 0..cx.hs.len() as u32 {
                        match (ea.get(&id), er.get(&id)) {
                            (Some((t, v)), Some((u, x))) => {
                                let w = tb.w(mix2(*t as u64, *v), mix2(*u as u64, *x), id as u64); sum = sum.wrapping_add(w);
                                match if cb > 0 { [9, 0, 1, 2, 4][cb as usize] } else { tb.code(id, 5) } { 0 => { en.insert(id, (*t, *v)); either.push(id) }, 1 => { samer = false; en.insert(id, (*t, *v)); }, 2 => { samel = false; en.insert(id, (*u, *x)); }, 3 => { samel = false; samer = false; en.insert(id, (*t, w % 1000)); newv.push((id, *t, *u, w % 1000)); }, _ => { samel = false; samer = false; } }
                            }
                            (Some((t, v)), None) => { samer = false; let w = tl.w(id as u64, *t as u64, *v); sum = sum.wrapping_add(w); match if cl > 0 { (cl - 1) * 2 } else { tl.code(id, 3) } { 0 => { en.insert(id, (*t, *v)); }, 1 => { samel = false; en.insert(id, (*t, w % 1000)); }, _ => { samel = false; } } }
                            (None, Some((t, v))) => { let w = tr.w(id as u64, *t as u64, *v); sum = sum.wrapping_add(w); match if cr > 0 { (cr - 1) * 2 } else { tr.code(id, 3) } { 0 => { samel = false; en.insert(id, (*t, *v)); }, 1 => { samel = false; samer = false; en.insert(id, (*t, w % 1000)); }, _ => {} } }
                            _ => {}
                        }
                    }
                    let _ = samer;
                    let settle = |m: &A, en: &mut MA| for id in &either { if let (Ok((k, v)), Some((u, x))) = (m.find(&KA { id: *id, h: cx.hs[*id as usize], tag: 0 }), er.get(id)) { if (k.tag, *v) == (*u, *x) { en.insert(*id, (k.tag, *v)); } } };
                    let en0 = en.clone(); for (id, t, u, v) in &newv { let kt = m.find(&KA { id: *id, h: cx.hs[*id as usize], tag: 0 }).map(|(k, _)| k.tag).unwrap_or(*t); en.insert(*id, (if kt == *u { *u } else { *t }, *v)); }
                    settle(&m, &mut en);
                    check_a(cx, "ff", "view", &m, &en)?;
                    if cb + cl + cr == 0 { ck!(r == sum, "ff:red", "transform_with_transformed reduced to {r}, the sum over all entries is {sum}"); }
                    let _ = samel;
                    check_a(cx, "ff", "persist", &ma, &ea)?; check_a(cx, "ff", "persist", &mr, &er)?;
                    let (m2, r2) = run(alt);
                    let mut en2 = en0; for (id, t, u, v) in &newv { let kt = m2.find(&KA { id: *id, h: cx.hs[*id as usize], tag: 0 }).map(|(k, _)| k.tag).unwrap_or(*t); en2.insert(*id, (if kt == *u { *u } else { *t }, *v)); } settle(&m2, &mut en2);
                    check_a(cx, "ff", "par", &m2, &en2).map_err(|f| Fail { cat: "ff:par".into(), msg: f.msg })?;
                    if cb + cl + cr == 0 { ck!(r2 == r, "ff:par", "the two strategies reduce to {r} and {r2}"); }
                    pa.push((m, en));
                }
                7 | 8 | 9 => { // mixed: 7 transform_with_transmuted, 8 transmute_with_transformed (roles swapped), 9 transmute_with_transmuted
                    let (mr, er) = pb[jb].clone();
                    let cb = cb % 3;
                    let op = ["fm", "mf", "mm"][k - 7];
                    cur(op);
                    let dst = if k == 7 { format!("a{}", pa.len()) } else { format!("b{}", pb.len()) };
                    cx.log.push(format!("{dst} = a{ia}.{}(b{jb}, both {cb} {tb:?}, left {cl} {tl:?}, right {cr} {tr:?}, {par:?}) [0 generic, 1 unchanged, 2 removed]", ["transform_with_transmuted", "transmute_with_transformed", "transmute_with_transmuted"][k - 7]));
                    fn t2<X>(f: X, c: u64) -> MapTransform<u64, X> { match c { 0 => MapTransform::Generic(f), 1 => MapTransform::Unchanged(7), _ => MapTransform::Removed(7) } }
                    fn m2<X>(f: X, c: u64) -> MapTransmute<u64, X> { match c { 2 => MapTransmute::Removed(7), _ => MapTransmute::Generic(f) } }
                    let wb = move |i: u32, t: u32, v: u64, u: u32, x: u32| tb.w(mix2(t as u64, v), mix2(u as u64, x as u64), i as u64);
                    let wr = move |i: u32, t: u32, v: u32| tr.w(i as u64, t as u64, v as u64);
                    if k == 7 {
                        let gb = move |k: &KA, v: &u64, l: &KB, x: &u32| { let w = wb(k.id, k.tag, *v, l.tag, *x); match tb.code(k.id, 3) { 0 => MapTransformResult::Unchanged(w), 1 => MapTransformResult::Transformed(w % 1000, w), _ => MapTransformResult::Removed(w) } };
                        let gl = move |k: &KA, v: &u64| { let w = tl.w(k.id as u64, k.tag as u64, *v); match tl.code(k.id, 3) { 0 => MapTransformResult::Unchanged(w), 1 => MapTransformResult::Transformed(w % 1000, w), _ => MapTransformResult::Removed(w) } };
                        let gr = move |k: &KB, v: &u32| { let w = wr(k.id, k.tag, *v); match tr.code(k.id, 2) { 0 => MapTransmuteResult::Transmuted(KA { id: k.id, h: k.h, tag: k.tag ^ 0x2000 }, w % 1000, w), _ => MapTransmuteResult::Removed(w) } };
                        let run = |p| block_on(unsafe { ma.transform_with_transmuted(&mr, add, t2(gb, cb), t2(gl, cl), m2(gr, cr), p) });
                        let (m, r) = run(par);
                        let mut en = MA::new(); let mut sum = 0u64;
                        for id in 0..cx.hs.len() as u32 { match (ea.get(&id), er.get(&id)) {
                            (Some((t, v)), Some((u, x))) => { let w = wb(id, *t, *v, *u, *x); sum = sum.wrapping_add(w); match if cb > 0 { (cb - 1) * 2 } else { tb.code(id, 3) } { 0 => { en.insert(id, (*t, *v)); }, 1 => { en.insert(id, (*t, w % 1000)); }, _ => {} } }
                            (Some((t, v)), None) => { let w = tl.w(id as u64, *t as u64, *v); sum = sum.wrapping_add(w); match if cl > 0 { (cl - 1) * 2 } else { tl.code(id, 3) } { 0 => { en.insert(id, (*t, *v)); }, 1 => { en.insert(id, (*t, w % 1000)); }, _ => {} } }
                            (None, Some((t, v))) => { let w = wr(id, *t, *v); sum = sum.wrapping_add(w); if cr != 2 && tr.code(id, 2) == 0 { en.insert(id, (*t ^ 0x2000, w % 1000)); } }
                            _ => {} } }
                        check_a(cx, op, "view", &m, &en)?;
                        if cb + cl == 0 && cr != 2 { ck!(r == sum, "fm:red", "reduced to {r}, the sum over all entries is {sum}"); }
                        let (mm2, r2) = run(alt);
                        check_a(cx, op, "par", &mm2, &en).map_err(|f| Fail { cat: "fm:par".into(), msg: f.msg })?;
                        if cb + cl == 0 && cr != 2 { ck!(r2 == r, "fm:par", "the two strategies reduce to {r} and {r2}"); }
                        pa.push((m, en));
                    } else if k == 8 {
                        let gb = move |k: &KA, v: &u64, l: &KB, x: &u32| { let w = wb(k.id, k.tag, *v, l.tag, *x); match tb.code(k.id, 3) { 0 => MapTransformResult::Unchanged(w), 1 => MapTransformResult::Transformed((w % 1000) as u32, w), _ => MapTransformResult::Removed(w) } };
                        let gl = move |k: &KA, v: &u64| { let w = tl.w(k.id as u64, k.tag as u64, *v); match tl.code(k.id, 2) { 0 => MapTransmuteResult::Transmuted(KB { id: k.id, h: k.h, tag: k.tag ^ 0x2000 }, (w % 1000) as u32, w), _ => MapTransmuteResult::Removed(w) } };
                        let gr = move |k: &KB, v: &u32| { let w = wr(k.id, k.tag, *v); match tr.code(k.id, 3) { 0 => MapTransformResult::Unchanged(w), 1 => MapTransformResult::Transformed((w % 1000) as u32, w), _ => MapTransformResult::Removed(w) } };
                        let run = |p| block_on(unsafe { ma.transmute_with_transformed(&mr, add, t2(gb, cb), m2(gl, cl), t2(gr, cr), p) });
                        let (m, r) = run(par);
                        let mut en = MB::new(); let mut sum = 0u64;
                        for id in 0..cx.hs.len() as u32 { match (ea.get(&id), er.get(&id)) {
                            (Some((t, v)), Some((u, x))) => { let w = wb(id, *t, *v, *u, *x); sum = sum.wrapping_add(w); match if cb > 0 { (cb - 1) * 2 } else { tb.code(id, 3) } { 0 => { en.insert(id, (*u, *x)); }, 1 => { en.insert(id, (*u, (w % 1000) as u32)); }, _ => {} } }
                            (Some((t, v)), None) => { let w = tl.w(id as u64, *t as u64, *v); sum = sum.wrapping_add(w); if cl != 2 && tl.code(id, 2) == 0 { en.insert(id, (*t ^ 0x2000, (w % 1000) as u32)); } }
                            (None, Some((t, v))) => { let w = wr(id, *t, *v); sum = sum.wrapping_add(w); match if cr > 0 { (cr - 1) * 2 } else { tr.code(id, 3) } { 0 => { en.insert(id, (*t, *v)); }, 1 => { en.insert(id, (*t, (w % 1000) as u32)); }, _ => {} } }
                            _ => {} } }
                        check_b(cx, op, "view", &m, &en)?;
                        if cb + cr == 0 && cl != 2 { ck!(r == sum, "mf:red", "reduced to {r}, the sum over all entries is {sum}"); }
                        let (mm2, r2) = run(alt);
                        check_b(cx, op, "par", &mm2, &en).map_err(|f| Fail { cat: "mf:par".into(), msg: f.msg })?;
                        if cb + cr == 0 && cl != 2 { ck!(r2 == r, "mf:par", "the two strategies reduce to {r} and {r2}"); }
                        pb.push((m, en));
                    } else {
                        let gb = move |k: &KA, v: &u64, l: &KB, x: &u32| { let w = wb(k.id, k.tag, *v, l.tag, *x); match tb.code(k.id, 2) { 0 => MapTransmuteResult::Transmuted(KB { id: k.id, h: k.h, tag: k.tag ^ 0x4000 }, (w % 1000) as u32, w), _ => MapTransmuteResult::Removed(w) } };
                        let gl = move |k: &KA, v: &u64| { let w = tl.w(k.id as u64, k.tag as u64, *v); match tl.code(k.id, 2) { 0 => MapTransmuteResult::Transmuted(KB { id: k.id, h: k.h, tag: k.tag ^ 0x2000 }, (w % 1000) as u32, w), _ => MapTransmuteResult::Removed(w) } };
                        let gr = move |k: &KB, v: &u32| { let w = wr(k.id, k.tag, *v); match tr.code(k.id, 2) { 0 => MapTransmuteResult::Transmuted(KB { id: k.id, h: k.h, tag: k.tag ^ 0x8000 }, (w % 1000) as u32, w), _ => MapTransmuteResult::Removed(w) } };
                        let (m, r) = unsafe { ma.transmute_with_transmuted(&mr, add, m2(gb, cb), m2(gl, cl), m2(gr, cr)) };
                        let mut en = MB::new(); let mut sum = 0u64;
                        for id in 0..cx.hs.len() as u32 { match (ea.get(&id), er.get(&id)) {
                            (Some((t, v)), Some((u, x))) => { let w = wb(id, *t, *v, *u, *x); sum = sum.wrapping_add(w); if cb != 2 && tb.code(id, 2) == 0 { en.insert(id, (*t ^ 0x4000, (w % 1000) as u32)); } }
                            (Some((t, v)), None) => { let w = tl.w(id as u64, *t as u64, *v); sum = sum.wrapping_add(w); if cl != 2 && tl.code(id, 2) == 0 { en.insert(id, (*t ^ 0x2000, (w % 1000) as u32)); } }
                            (None, Some((t, v))) => { let w = wr(id, *t, *v); sum = sum.wrapping_add(w); if cr != 2 && tr.code(id, 2) == 0 { en.insert(id, (*t ^ 0x8000, (w % 1000) as u32)); } }
                            _ => {} } }
                        check_b(cx, op, "view", &m, &en)?;
                        if cb != 2 && cl != 2 && cr != 2 { ck!(r == sum, "mm:red", "reduced to {r}, the sum over all entries is {sum}"); }
                        pb.push((m, en));
                    }
                    check_a(cx, op, "persist", &ma, &ea)?; check_b(cx, op, "persist", &mr, &er)?;
                }
                10 => { // clone / equality / default / empty joint cases
                    cur("eq");
                    cx.log.push(format!("clone and equality of a{ia}"));
                    ck!(ma == ma.clone(), "eq:same", "a clone is not equal to its original");
                    let (mj, ej) = &pa[ja];
                    if &ma == mj { ck!(&ea == ej, "eq:same", "two maps compare equal but hold different entries"); }
                    ck!(A::default().size() == 0 && A::new().size() == 0, "eq:same", "a new map is not empty");
                    check_a(cx, "eq", "same", &ma.clone(), &ea)?;
                }
                11 => { // drain
                    cur("remove");
                    cx.log.push(format!("remove every key of a{ia} in random order"));
                    drain_a(cx, &ma, &ea)?;
                    check_a(cx, "remove", "persist", &ma, &ea)?;
                }
                12 => { // every old version still intact
                    cur("insert");
                    cx.log.push("re-check all earlier versions".into());
                    for (m, e) in &pa { check_a(cx, "all", "persist", m, e)?; }
                    for (m, e) in &pb { check_b(cx, "all", "persist", m, e)?; }
                }
                13 => { // transfuted variants (same key type, other value type)
                    cur("fu");
                    let swap = cx.rng.chance(1, 2);
                    let mw: HashTrieMap<$H, $F, KA, u32, CH>; let mut ew = MB::new();
                    { let (m, r) = unsafe { pa[ja].0.transmute(add, new_map_transmute_generic(|k: &KA, v: &u64| MapTransmuteResult::Transmuted(*k, *v as u32, 0u64))) }; let _ = r; mw = m; for (id, (t, v)) in &pa[ja].1 { ew.insert(*id, (*t, *v as u32)); } }
                    fn t2<X>(f: X, c: u64) -> MapTransform<u64, X> { match c { 0 => MapTransform::Generic(f), 1 => MapTransform::Unchanged(7), _ => MapTransform::Removed(7) } }
                    fn s2<X>(f: X, c: u64) -> SetTransmute<u64, X> { match c { 2 => SetTransmute::Removed(7), _ => SetTransmute::Generic(f) } }
                    let cb = cb % 3;
                    cx.log.push(format!("a{ia} with a{ja} (values as u32): {}, both {cb} {tb:?}, left {cl} {tl:?}, right {cr} {tr:?}", if swap { "transfute_with_transformed" } else { "transform_with_transfuted" }));
                    let wb = move |i: u32, t: u32, v: u64, u: u32, x: u32| tb.w(mix2(t as u64, v), mix2(u as u64, x as u64), i as u64);
                    let wr = move |i: u32, t: u32, v: u32| tr.w(i as u64, t as u64, v as u64);
                    if !swap {
                        let gb = move |k: &KA, v: &u64, l: &KA, x: &u32| { let w = wb(k.id, k.tag, *v, l.tag, *x); match tb.code(k.id, 3) { 0 => MapTransformResult::Unchanged(w), 1 => MapTransformResult::Transformed(w % 1000, w), _ => MapTransformResult::Removed(w) } };
                        let gl = move |k: &KA, v: &u64| { let w = tl.w(k.id as u64, k.tag as u64, *v); match tl.code(k.id, 3) { 0 => MapTransformResult::Unchanged(w), 1 => MapTransformResult::Transformed(w % 1000, w), _ => MapTransformResult::Removed(w) } };
                        let gr = move |k: &KA, v: &u32| { let w = wr(k.id, k.tag, *v); match tr.code(k.id, 2) { 0 => SetTransmuteResult::Transmuted(w % 1000, w), _ => SetTransmuteResult::Removed(w) } };
                        let (m, r) = block_on(ma.transform_with_transfuted(&mw, add, t2(gb, cb), t2(gl, cl), s2(gr, cr), par));
                        let mut en = MA::new(); let mut sum = 0u64;
                        for id in 0..cx.hs.len() as u32 { match (ea.get(&id), ew.get(&id)) {
                            (Some((t, v)), Some((u, x))) => { let w = wb(id, *t, *v, *u, *x); sum = sum.wrapping_add(w); match if cb > 0 { (cb - 1) * 2 } else { tb.code(id, 3) } { 0 => { en.insert(id, (*t, *v)); }, 1 => { en.insert(id, (*t, w % 1000)); }, _ => {} } }
                            (Some((t, v)), None) => { let w = tl.w(id as u64, *t as u64, *v); sum = sum.wrapping_add(w); match if cl > 0 { (cl - 1) * 2 } else { tl.code(id, 3) } { 0 => { en.insert(id, (*t, *v)); }, 1 => { en.insert(id, (*t, w % 1000)); }, _ => {} } }
                            (None, Some((t, v))) => { let w = wr(id, *t, *v); sum = sum.wrapping_add(w); if cr != 2 && tr.code(id, 2) == 0 { en.insert(id, (*t, w % 1000)); } }
                            _ => {} } }
                        check_a(cx, "fu", "view", &m, &en)?;
                        if cb + cl == 0 && cr != 2 { ck!(r == sum, "fu:red", "reduced to {r}, the sum over all entries is {sum}"); }
                        pa.push((m, en));
                    } else {
                        let gb = move |k: &KA, v: &u64, l: &KA, x: &u32| { let w = wb(k.id, k.tag, *v, l.tag, *x); match tb.code(k.id, 3) { 0 => MapTransformResult::Unchanged(w), 1 => MapTransformResult::Transformed((w % 1000) as u32, w), _ => MapTransformResult::Removed(w) } };
                        let gl = move |k: &KA, v: &u64| { let w = tl.w(k.id as u64, k.tag as u64, *v); match tl.code(k.id, 2) { 0 => SetTransmuteResult::Transmuted((w % 1000) as u32, w), _ => SetTransmuteResult::Removed(w) } };
                        let gr = move |k: &KA, v: &u32| { let w = wr(k.id, k.tag, *v); match tr.code(k.id, 3) { 0 => MapTransformResult::Unchanged(w), 1 => MapTransformResult::Transformed((w % 1000) as u32, w), _ => MapTransformResult::Removed(w) } };
                        let (m, r) = block_on(ma.transfute_with_transformed(&mw, add, t2(gb, cb), s2(gl, cl), t2(gr, cr), par));
                        let mut en = MB::new(); let mut sum = 0u64;
                        for id in 0..cx.hs.len() as u32 { match (ea.get(&id), ew.get(&id)) {
                            (Some((t, v)), Some((u, x))) => { let w = wb(id, *t, *v, *u, *x); sum = sum.wrapping_add(w); match if cb > 0 { (cb - 1) * 2 } else { tb.code(id, 3) } { 0 => { en.insert(id, (*u, *x)); }, 1 => { en.insert(id, (*u, (w % 1000) as u32)); }, _ => {} } }
                            (Some((t, v)), None) => { let w = tl.w(id as u64, *t as u64, *v); sum = sum.wrapping_add(w); if cl != 2 && tl.code(id, 2) == 0 { en.insert(id, (*t, (w % 1000) as u32)); } }
                            (None, Some((t, v))) => { let w = wr(id, *t, *v); sum = sum.wrapping_add(w); match if cr > 0 { (cr - 1) * 2 } else { tr.code(id, 3) } { 0 => { en.insert(id, (*t, *v)); }, 1 => { en.insert(id, (*t, (w % 1000) as u32)); }, _ => {} } }
                            _ => {} } }
                        let mut got = MB::new();
                        let c = Rc::new(RefCell::new(Vec::new())); let c2 = c.clone();
                        m.visit(move |k: &KA, v: &u32| { assert!(c2.borrow().len() < lim(), "visit does not end"); c2.borrow_mut().push((k.id, k.tag, *v)) });
                        for (i, t, v) in c.borrow().iter() { got.insert(*i, (*t, *v)); }
                        ck!(got == en && c.borrow().len() == en.len(), "fu:view", "transfute_with_transformed gave {:?}, should give {en:?}", c.borrow());
                        for (id, x) in &en { let f = m.find(&KA { id: *id, h: cx.hs[*id as usize], tag: 0 }).ok().map(|(k, v)| (k.tag, *v)); ck!(f == Some(*x), "fu:view", "after transfute_with_transformed find(id {id}) gave {f:?}, should give {x:?}"); }
                        ck!(m.size() == en.len(), "fu:size", "after transfute_with_transformed size() = {}, entries {}", m.size(), en.len());
                        if cb + cr == 0 && cl != 2 { ck!(r == sum, "fu:red", "reduced to {r}, the sum over all entries is {sum}"); }
                    }
                    check_a(cx, "fu", "persist", &ma, &ea)?;
                }
                14 => { // deep build: insert every id in random order into an empty map
                    cur("insert");
                    let n = cx.hs.len() as u64;
                    let mut m = A::new(); let mut e = MA::new();
                    let mut order: Vec<u32> = (0..n as u32).collect();
                    for i in 0..order.len() { let j = cx.rng.below(n) as usize; order.swap(i, j) }
                    cx.log.push(format!("a{} = new map, insert ids {order:?} in this order with value = id", pa.len()));
                    for id in order { let tag = cx.tag(); e.insert(id, (tag, id as u64)); m = match m.insert(KA { id, h: cx.hs[id as usize], tag }, id as u64, false) { Ok((m, ..)) => m, Err(_) => bad!("insert:ret", "insert of an absent key was refused") }; check_a(cx, "insert", "view", &m, &e)?; }
                    pa.push((m, e));
                }
                _ => { // sets
                    cur("set");
                    set_round(cx, setop(k as u64), par, tb, tl, tr, cb, cl, cr)?;
                }
            }
            while pa.len() > 10 { let i = cx.rng.below(pa.len() as u64) as usize; cx.log.push(format!("forget a{i} (last takes its number)")); pa.swap_remove(i); }
            while pb.len() > 8 { let i = cx.rng.below(pb.len() as u64) as usize; cx.log.push(format!("forget b{i} (last takes its number)")); pb.swap_remove(i); }
        }
        Ok(())
    }

    fn check_s(cx: &Cx, op: &str, m: &SA, e: &BTreeMap<u32, u32>) -> Result<(), Fail> {
        for id in 0..cx.hs.len() as u32 {
            let h = cx.hs[id as usize];
            let f = m.find(&KA { id, h, tag: 0 }).ok().map(|k| k.tag);
            ck!(f == e.get(&id).cloned(), format!("set:{op}"), "after {op}: find(id {id}) gave tag {f:?}, the set should give {:?}", e.get(&id));
        }
        ck!(m.size() == e.len(), format!("set:{op}"), "after {op}: size() = {}, the set holds {}", m.size(), e.len());
        let c = Rc::new(RefCell::new(Vec::new())); let c2 = c.clone();
        m.visit(move |k: &KA| { assert!(c2.borrow().len() < lim(), "visit does not end"); c2.borrow_mut().push((k.id, k.tag)) });
        let mut got = c.borrow().clone(); got.sort();
        let want: Vec<_> = e.iter().map(|(a, b)| (*a, *b)).collect();
        ck!(got == want, format!("set:{op}"), "after {op}: visit saw {got:?}, should see {want:?}");
        Ok(())
    }
    fn check_sb(cx: &Cx, op: &str, m: &SB, e: &BTreeMap<u32, u32>) -> Result<(), Fail> {
        for id in 0..cx.hs.len() as u32 {
            let h = cx.hs[id as usize];
            let f = m.find(&KB { id, h, tag: 0 }).ok().map(|k| k.tag);
            ck!(f == e.get(&id).cloned(), format!("set:{op}"), "after {op}: find(id {id}) gave tag {f:?}, the set should give {:?}", e.get(&id));
        }
        ck!(m.size() == e.len(), format!("set:{op}"), "after {op}: size() = {}, the set holds {}", m.size(), e.len());
        Ok(())
    }
    fn set_round(cx: &mut Cx, _k: u64, par: ParallelismStrategy, tb: T, tl: T, tr: T, cb: u64, cl: u64, cr: u64) -> Result<(), Fail> {
        let add = |a: &u64, b: &u64| a.wrapping_add(*b);
        let (mut s, mut e) = (SA::new(), BTreeMap::new());
        let (mut r, mut f) = (SA::new(), BTreeMap::new());
        let (mut q, mut g) = (SB::new(), BTreeMap::new());
        let n = cx.hs.len() as u64;
        cx.log.push("sets: build s, r, q by random inserts and removes".into());
        for _ in 0..2 * n {
            let id = cx.id(); let h = cx.hs[id as usize]; let tag = cx.tag(); let replace = cx.rng.chance(1, 2);
            cx.log.push(format!("s.insert(id {id} hash {h:#x} tag {tag}, replace {replace})"));
            let old = e.get(&id).cloned();
            let s1 = s.clone(); let e1 = e.clone();
            let next = match s.insert(KA { id, h, tag }, replace) {
                Ok((m, kp, prev)) => { ck!(old.is_none() || replace, "set:insert", "insert accepted a present key"); ck!(prev.map(|k| k.tag) == old, "set:insert", "insert reports previous tag {prev:?}, was {old:?}"); ck!(unsafe { (*kp).tag } == tag, "set:insert", "the returned pointer does not show the inserted key"); e.insert(id, tag); Some(m) }
                Err(k) => { ck!(old == Some(k.tag) && !replace, "set:insert", "insert refused, returned tag {}, was {old:?}", k.tag); None }
            };
            if let Some(m) = next { s = m }
            check_s(cx, "insert", &s, &e)?;
            check_s(cx, "insert", &s1, &e1)?;
            if cx.rng.chance(1, 4) {
                let id = cx.id(); let h = cx.hs[id as usize];
                cx.log.push(format!("s.remove(id {id} hash {h:#x})"));
                let old = e.remove(&id);
                let next = match s.remove(&KB { id, h, tag: 0 }) { Ok((m, k)) => { ck!(old == Some(k.tag), "set:remove", "remove returned tag {}, was {old:?}", k.tag); Some(m) } Err(_) => { ck!(old.is_none(), "set:remove", "remove did not find a present key"); None } };
                if let Some(m) = next { s = m }
                check_s(cx, "remove", &s, &e)?;
            }
            let id = cx.id(); let h = cx.hs[id as usize]; let tag = cx.tag();
            if cx.rng.chance(1, 2) { cx.log.push(format!("r.insert(id {id} hash {h:#x} tag {tag})")); f.insert(id, tag); r = match r.insert(KA { id, h, tag }, true) { Ok((m, ..)) => m, Err(_) => bad!("set:insert", "insert with replace refused") }; }
            let id = cx.id(); let h = cx.hs[id as usize]; let tag = cx.tag();
            if cx.rng.chance(1, 2) { cx.log.push(format!("q.insert(id {id} hash {h:#x} tag {tag})")); g.insert(id, tag); q = match q.insert(KB { id, h, tag }, true) { Ok((m, ..)) => m, Err(_) => bad!("set:insert", "insert with replace refused") }; }
        }
        let ids = 0..cx.hs.len() as u32;
        fn j2<X>(f: X, c: u64) -> SetJointTransform<u64, X> { match c { 0 => SetJointTransform::Generic(f, false), 1 => SetJointTransform::UnchangedLR(7), 2 => SetJointTransform::UnchangedL(7), 3 => SetJointTransform::UnchangedR(7), _ => SetJointTransform::Removed(7) } }
        fn t2<X>(f: X, c: u64) -> SetTransform<u64, X> { match c { 0 => SetTransform::Generic(f), 1 => SetTransform::Unchanged(7), _ => SetTransform::Removed(7) } }
        fn m2<X>(f: X, c: u64) -> SetTransmute<u64, X> { match c { 2 => SetTransmute::Removed(7), _ => SetTransmute::Generic(f) } }
        let w1 = |t: T, i: u32, a: u32| t.w(i as u64, a as u64, 1);
        let w2 = |t: T, i: u32, a: u32, b: u32| t.w(i as u64, a as u64, b as u64);
        match cx.rng.below(6) {
            0 => {
                cx.log.push(format!("s.transform({cl} {tl:?}, {par:?})"));
                let (m, red) = block_on(s.transform(add, t2(move |k: &KA| { let w = w1(tl, k.id, k.tag); if tl.code(k.id, 2) == 0 { SetTransformResult::Unchanged(w) } else { SetTransformResult::Removed(w) } }, cl), par));
                let mut en = BTreeMap::new(); let mut sum = 0u64;
                for (i, t) in &e { sum = sum.wrapping_add(w1(tl, *i, *t)); if if cl > 0 { cl - 1 } else { tl.code(*i, 2) } == 0 { en.insert(*i, *t); } }
                check_s(cx, "transform", &m, &en)?;
                if cl == 0 { ck!(red == sum, "set:red", "set transform reduced to {red}, sum is {sum}"); }
            }
            1 => {
                cx.log.push(format!("s.transmute({cl} {tl:?})"));
                let (m, red) = unsafe { s.transmute(add, m2(move |k: &KA| { let w = w1(tl, k.id, k.tag); if tl.code(k.id, 2) == 0 { SetTransmuteResult::Transmuted(KB { id: k.id, h: k.h, tag: k.tag ^ 0x1000 }, w) } else { SetTransmuteResult::Removed(w) } }, cl)) };
                let mut en = BTreeMap::new(); let mut sum = 0u64;
                for (i, t) in &e { sum = sum.wrapping_add(w1(tl, *i, *t)); if cl != 2 && tl.code(*i, 2) == 0 { en.insert(*i, *t ^ 0x1000); } }
                check_sb(cx, "transmute", &m, &en)?;
                if cl != 2 { ck!(red == sum, "set:red", "set transmute reduced to {red}, sum is {sum}"); }
            }
            2 => {
                cx.log.push(format!("s.transform_with_transformed(r, both {cb} {tb:?}, left {cl} {tl:?}, right {cr} {tr:?}, {par:?})"));
                let (m, red) = block_on(s.transform_with_transformed(&r, add,
                    j2(move |k: &KA, l: &KA| { let w = w2(tb, k.id, k.tag, l.tag); match tb.code(k.id, 4) { 0 => SetJointTransformResult::UnchangedLR(w), 1 => SetJointTransformResult::UnchangedL(w), 2 => SetJointTransformResult::UnchangedR(w), _ => SetJointTransformResult::Removed(w) } }, cb),
                    t2(move |k: &KA| { let w = w1(tl, k.id, k.tag); if tl.code(k.id, 2) == 0 { SetTransformResult::Unchanged(w) } else { SetTransformResult::Removed(w) } }, cl),
                    t2(move |k: &KA| { let w = w1(tr, k.id, k.tag); if tr.code(k.id, 2) == 0 { SetTransformResult::Unchanged(w) } else { SetTransformResult::Removed(w) } }, cr), par));
                let mut en = BTreeMap::new(); let mut sum = 0u64;
                for i in ids { match (e.get(&i), f.get(&i)) {
                    (Some(a), Some(b)) => { sum = sum.wrapping_add(w2(tb, i, *a, *b)); match if cb > 0 { cb - 1 } else { tb.code(i, 4) } { 0 => { let t = m.find(&KA { id: i, h: cx.hs[i as usize], tag: 0 }).map(|k| k.tag).unwrap_or(*a); en.insert(i, if t == *b { *b } else { *a }); }, 1 => { en.insert(i, *a); }, 2 => { en.insert(i, *b); }, _ => {} } }
                    (Some(a), None) => { sum = sum.wrapping_add(w1(tl, i, *a)); if if cl > 0 { cl - 1 } else { tl.code(i, 2) } == 0 { en.insert(i, *a); } }
                    (None, Some(a)) => { sum = sum.wrapping_add(w1(tr, i, *a)); if if cr > 0 { cr - 1 } else { tr.code(i, 2) } == 0 { en.insert(i, *a); } }
                    _ => {} } }
                check_s(cx, "ff", &m, &en)?;
                if cb + cl + cr == 0 { ck!(red == sum, "set:red", "set transform_with_transformed reduced to {red}, sum is {sum}"); }
            }
            3 => {
                let cb = cb % 3;
                cx.log.push(format!("s.transform_with_transmuted(q, both {cb} {tb:?}, left {cl} {tl:?}, right {cr} {tr:?}, {par:?})"));
                let (m, red) = block_on(unsafe { s.transform_with_transmuted(&q, add,
                    t2(move |k: &KA, l: &KB| { let w = w2(tb, k.id, k.tag, l.tag); if tb.code(k.id, 2) == 0 { SetTransformResult::Unchanged(w) } else { SetTransformResult::Removed(w) } }, cb),
                    t2(move |k: &KA| { let w = w1(tl, k.id, k.tag); if tl.code(k.id, 2) == 0 { SetTransformResult::Unchanged(w) } else { SetTransformResult::Removed(w) } }, cl),
                    m2(move |k: &KB| { let w = w1(tr, k.id, k.tag); if tr.code(k.id, 2) == 0 { SetTransmuteResult::Transmuted(KA { id: k.id, h: k.h, tag: k.tag ^ 0x1000 }, w) } else { SetTransmuteResult::Removed(w) } }, cr), par) });
                let mut en = BTreeMap::new(); let mut sum = 0u64;
                for i in ids { match (e.get(&i), g.get(&i)) {
                    (Some(a), Some(b)) => { sum = sum.wrapping_add(w2(tb, i, *a, *b)); if if cb > 0 { cb - 1 } else { tb.code(i, 2) } == 0 { en.insert(i, *a); } }
                    (Some(a), None) => { sum = sum.wrapping_add(w1(tl, i, *a)); if if cl > 0 { cl - 1 } else { tl.code(i, 2) } == 0 { en.insert(i, *a); } }
                    (None, Some(a)) => { sum = sum.wrapping_add(w1(tr, i, *a)); if cr != 2 && tr.code(i, 2) == 0 { en.insert(i, *a ^ 0x1000); } }
                    _ => {} } }
                check_s(cx, "fm", &m, &en)?;
                if cb + cl == 0 && cr != 2 { ck!(red == sum, "set:red", "set transform_with_transmuted reduced to {red}, sum is {sum}"); }
            }
            4 => {
                let cb = cb % 3;
                cx.log.push(format!("s.transmute_with_transformed(q, both {cb} {tb:?}, left {cl} {tl:?}, right {cr} {tr:?}, {par:?})"));
                let (m, red) = block_on(unsafe { s.transmute_with_transformed(&q, add,
                    t2(move |k: &KA, l: &KB| { let w = w2(tb, k.id, k.tag, l.tag); if tb.code(k.id, 2) == 0 { SetTransformResult::Unchanged(w) } else { SetTransformResult::Removed(w) } }, cb),
                    m2(move |k: &KA| { let w = w1(tl, k.id, k.tag); if tl.code(k.id, 2) == 0 { SetTransmuteResult::Transmuted(KB { id: k.id, h: k.h, tag: k.tag ^ 0x1000 }, w) } else { SetTransmuteResult::Removed(w) } }, cl),
                    t2(move |k: &KB| { let w = w1(tr, k.id, k.tag); if tr.code(k.id, 2) == 0 { SetTransformResult::Unchanged(w) } else { SetTransformResult::Removed(w) } }, cr), par) });
                let mut en = BTreeMap::new(); let mut sum = 0u64;
                for i in ids { match (e.get(&i), g.get(&i)) {
                    (Some(a), Some(b)) => { sum = sum.wrapping_add(w2(tb, i, *a, *b)); if if cb > 0 { cb - 1 } else { tb.code(i, 2) } == 0 { en.insert(i, *b); } }
                    (Some(a), None) => { sum = sum.wrapping_add(w1(tl, i, *a)); if cl != 2 && tl.code(i, 2) == 0 { en.insert(i, *a ^ 0x1000); } }
                    (None, Some(a)) => { sum = sum.wrapping_add(w1(tr, i, *a)); if if cr > 0 { cr - 1 } else { tr.code(i, 2) } == 0 { en.insert(i, *a); } }
                    _ => {} } }
                check_sb(cx, "mf", &m, &en)?;
                if cb + cr == 0 && cl != 2 { ck!(red == sum, "set:red", "set transmute_with_transformed reduced to {red}, sum is {sum}"); }
            }
            _ => {
                cx.log.push(format!("s.transmute_with_transmuted(q, both {cb} {tb:?}, left {cl} {tl:?}, right {cr} {tr:?})"));
                let (m, red): (SB, u64) = unsafe { s.transmute_with_transmuted(&q, add,
                    m2(move |k: &KA, l: &KB| { let w = w2(tb, k.id, k.tag, l.tag); if tb.code(k.id, 2) == 0 { SetTransmuteResult::Transmuted(KB { id: k.id, h: k.h, tag: k.tag ^ 0x4000 }, w) } else { SetTransmuteResult::Removed(w) } }, cb),
                    m2(move |k: &KA| { let w = w1(tl, k.id, k.tag); if tl.code(k.id, 2) == 0 { SetTransmuteResult::Transmuted(KB { id: k.id, h: k.h, tag: k.tag ^ 0x1000 }, w) } else { SetTransmuteResult::Removed(w) } }, cl),
                    m2(move |k: &KB| { let w = w1(tr, k.id, k.tag); if tr.code(k.id, 2) == 0 { SetTransmuteResult::Transmuted(KB { id: k.id, h: k.h, tag: k.tag ^ 0x2000 }, w) } else { SetTransmuteResult::Removed(w) } }, cr)) };
                let mut en = BTreeMap::new(); let mut sum = 0u64;
                for i in ids { match (e.get(&i), g.get(&i)) {
                    (Some(a), Some(b)) => { sum = sum.wrapping_add(w2(tb, i, *a, *b)); if cb != 2 && tb.code(i, 2) == 0 { en.insert(i, *a ^ 0x4000); } }
                    (Some(a), None) => { sum = sum.wrapping_add(w1(tl, i, *a)); if cl != 2 && tl.code(i, 2) == 0 { en.insert(i, *a ^ 0x1000); } }
                    (None, Some(a)) => { sum = sum.wrapping_add(w1(tr, i, *a)); if cr != 2 && tr.code(i, 2) == 0 { en.insert(i, *a ^ 0x2000); } }
                    _ => {} } }
                check_sb(cx, "mm", &m, &en)?;
                if cb != 2 && cl != 2 && cr != 2 { ck!(red == sum, "set:red", "set transmute_with_transmuted reduced to {red}, sum is {sum}"); }
            }
        }
        check_s(cx, "persist", &s, &e)?; check_s(cx, "persist", &r, &f)?; check_sb(cx, "persist", &q, &g)?;
        Ok(())
    }

    pub fn new_cx(seed: u64, weights: [u64; 16]) -> Cx { Cx::new(seed, <$H as MaxOnes>::max_ones() as u32, <$F as LogB>::log_b() as u32, weights) }
}
}; }
