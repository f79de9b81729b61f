#[path = "../engine.rs"] #[macro_use] mod engine;
#[path = "../keys.rs"] mod keys;
type HW = u16;
type FW = u16;
const PAIR: &str = "u16/u16";
include!("../run.rs");
