//! Simulated scenarios for the trading engine. Every scenario body runs as thread 0 of one simulation.
mod util;
mod s_sync;
mod s_log;
mod krx;
mod s_feed;
mod book;
mod s_book;
mod s_time;
mod s_net;
mod docs;
mod s_restart;
use simos::runner::Prop;

static PROPS: &[Prop] = &[s_sync::S01, s_sync::S02, s_sync::S03, s_sync::S04,
    s_log::L01, s_log::L02, s_log::L03, s_log::L04,
    s_time::T01, s_time::T02, s_net::N01,
    s_feed::F01, s_feed::F02, s_feed::F03, s_book::F04,
    s_book::B01, s_book::B02, s_book::B03, s_book::X01, s_restart::X02];

fn main() { simos::runner::main(PROPS) }
