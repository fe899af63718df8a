//! Simulated scenarios for the pricing library. Every scenario body runs as thread 0 of one simulation.
#[path = "../../te-harness/src/util.rs"]
mod util;
#[path = "../../te-harness/src/docs.rs"]
mod docs;
mod world;
mod contract;
mod s_engine;
mod s_date;
mod s_save;
use simos::runner::Prop;

static PROPS: &[Prop] = &[s_engine::Q01, s_engine::Q02, s_engine::Q03, s_date::Q04, s_date::Q05, s_engine::Q06, s_save::Q07];

fn main() { simos::runner::main(PROPS) }
