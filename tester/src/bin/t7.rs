#[path = "../engine.rs"] #[macro_use] mod engine;
#[path = "../keys.rs"] mod keys;
type HW = u64;
type FW = usize;
const PAIR: &str = "u64/usize";
include!("../run.rs");
