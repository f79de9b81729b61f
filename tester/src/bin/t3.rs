#[path = "../engine.rs"] #[macro_use] mod engine;
#[path = "../keys.rs"] mod keys;
type HW = u32;
type FW = u64;
const PAIR: &str = "u32/u64";
include!("../run.rs");
