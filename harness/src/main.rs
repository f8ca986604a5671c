//! odv: bounded model checking of open-dis-rust against an executable reference model.
//! usage: odv <PROPERTY> quick|thorough [--item N] [-v]
#![allow(dead_code)]
mod alloc;
#[macro_use]
mod bind;
mod c_conc;
mod c_enum;
mod c_err;
mod c_face;
mod c_fault;
mod c_hdr;
mod c_rec;
mod c_vec;
mod c_wire;
mod checks;
mod clock;
mod drive;
mod engine;
mod flags;
mod fragbuf;
mod gen_enums;
mod genv;
#[cfg(feature = "own")]
mod own;
#[cfg(not(feature = "own"))]
mod own {
    pub fn enabled() -> bool {
        false
    }
    pub fn own_pdus() -> Vec<crate::bind::PduInfo> {
        vec![]
    }
    pub fn header_items() -> Vec<crate::engine::Item> {
        vec![]
    }
}
mod sched;
mod spec;
mod val;

use std::sync::atomic::AtomicBool;

#[global_allocator]
static GLOBAL: alloc::Counting = alloc::Counting;

/// the code under check is being stepped one instruction at a time: allow it more CPU
pub static SINGLE_STEP: AtomicBool = AtomicBool::new(false);

fn main() {
    engine::start_clock();
    let a: Vec<String> = std::env::args().collect();
    if a.len() < 3 {
        eprintln!("usage: odv <PROPERTY> quick|thorough [--item N] [-v]");
        std::process::exit(3);
    }
    let mut o = engine::Opts { prop: a[1].clone(), tier: a[2].clone(), only: None, verbose: false };
    let mut i = 3;
    while i < a.len() {
        match a[i].as_str() {
            "--item" => {
                o.only = a.get(i + 1).and_then(|s| s.parse().ok());
                i += 1;
            }
            "-v" => o.verbose = true,
            _ => {}
        }
        i += 1;
    }
    if o.tier != "quick" && o.tier != "thorough" {
        eprintln!("tier is quick or thorough");
        std::process::exit(3);
    }
    if o.prop == "C28" {
        #[cfg(feature = "own")]
        own::enable();
        if !own::enabled() {
            eprintln!("C28 needs the feature `own`");
            std::process::exit(3);
        }
    }
    if o.prop == "C19" {
        // a zone whose hours are not UTC's: DIS time counts from the UTC hour
        unsafe { std::env::set_var("TZ", "ODV-05:30") };
    }
    // force the tables before the worker is forked
    let _ = bind::enums();
    let _ = spec::spec();
    let _ = bind::pdus();
    let _ = bind::records();
    let _ = genv::literals();
    let Some(plan) = checks::plan(&o.prop, o.tier == "thorough") else {
        eprintln!("unknown property {}", o.prop);
        std::process::exit(3);
    };
    std::process::exit(engine::run(&o, &plan));
}
