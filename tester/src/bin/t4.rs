#[path = "../engine.rs"] #[macro_use] mod engine;
#[path = "../keys.rs"] mod keys;
type HW = u16;
type FW = u8;
const PAIR: &str = "u16/u8";
include!("../run.rs");
