#[path = "../engine.rs"] #[macro_use] mod engine;
#[path = "../keys.rs"] mod keys;
type HW = u8;
type FW = u8;
const PAIR: &str = "u8/u8";
include!("../run.rs");
