// contracts discharged by the Kani harnesses f_* for every hash and flag word pair
pub struct Flag<H, F> { pub hash_value: H, pub depth: usize, pub flag: F }
pub open spec fn flok<H, F>(f: Flag<H, F>) -> bool {
    f.depth < lv() && bpos(f.flag) == Some(hdg(hv(f.hash_value), f.depth as nat))
}
impl<H: Hashword, F: Flagword<H>> Flag<H, F> {
    #[verifier::external_body]
    pub fn new(hash_value: H) -> (res: Self) ensures flok(res), res.hash_value == hash_value, res.depth == 0 { unimplemented!() }
    #[verifier::external_body]
    pub fn new_at_depth(hash_value: H, depth: usize) -> (res: Option<Self>)
        requires depth <= lv(),
        ensures depth < lv() ==> res is Some && flok(res->0) && res->0.hash_value == hash_value && res->0.depth == depth, depth == lv() ==> res is None
    { unimplemented!() }
    #[verifier::external_body]
    pub fn hash_value(&self) -> (res: H) ensures res == self.hash_value { unimplemented!() }
    #[verifier::external_body]
    pub fn depth(&self) -> (res: usize) ensures res == self.depth { unimplemented!() }
    #[verifier::external_body]
    pub fn flag(&self) -> (res: F) ensures res == self.flag { unimplemented!() }
    #[verifier::external_body]
    pub fn next(&self) -> (res: Option<Self>)
        requires flok(*self),
        ensures self.depth + 1 < lv() ==> res is Some && flok(res->0) && res->0.hash_value == self.hash_value && res->0.depth == self.depth + 1,
            self.depth + 1 == lv() ==> res is None
    { unimplemented!() }
    pub fn from(hash_value: H) -> (res: Self) ensures flok(res), res.hash_value == hash_value, res.depth == 0 { Self::new(hash_value) }
}
