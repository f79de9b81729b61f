#[path = "../engine.rs"] #[macro_use] mod engine;
#[path = "../keys.rs"] mod keys;
type HW = u64;
type FW = u32;
const PAIR: &str = "u64/u32";
include!("../run.rs");
