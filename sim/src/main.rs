#![allow(unknown_lints, invalid_runtime_symbol_definitions, dead_code)]
//! Deterministic simulation of swrs: see /verif/DESIGN.md.

mod aes;
mod driver;
mod edit;
mod bridge;
mod damage;
mod interpose;
mod model;
mod sketch;
mod props;
mod rng;
mod sched;
mod shrink;
mod simfs;
mod world;

use std::cell::RefCell;

thread_local! {
    static PANIC_AT: RefCell<String> = const { RefCell::new(String::new()) };
}

pub fn last_panic_location() -> String {
    PANIC_AT.with(|p| p.borrow().clone())
}

/// ends the current run from any of its threads
pub fn abort_run(class: &str, msg: &str) -> ! {
    world::IN_SUT.set(false);
    driver::send_result(Err((class.to_string(), msg.to_string())));
    unsafe { libc::_exit(0) }
}

fn main() {
    std::panic::set_hook(Box::new(|i| {
        let was = world::IN_SUT.get();
        world::IN_SUT.set(false);
        let at = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        PANIC_AT.with(|p| *p.borrow_mut() = at.clone());
        if world::SIM_ID.get() < 0 {
            eprintln!("harness panic at {at}: {i}");
        }
        world::IN_SUT.set(was);
    }));
    std::process::exit(driver::main());
}
