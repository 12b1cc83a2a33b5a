//! Fact extractor: a rustc driver that dumps, for every public `root_*` function of the crate
//! being compiled, the type-checked and trait-resolved MIR of everything reachable from it.
//!
//! It is used as `RUSTC_WRAPPER`; crates other than the one named by `GSC_FACTS_CRATE` are
//! compiled unchanged.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

mod json;
mod dump;

use rustc_driver::{Callbacks, Compilation};
use rustc_interface::interface;
use rustc_middle::ty::TyCtxt;

struct Lib { out: String }
impl Callbacks for Lib {
    fn after_analysis<'tcx>(&mut self, _c: &interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        dump::lib(tcx, &self.out);
        Compilation::Continue
    }
}

struct Facts { out: String }
impl Callbacks for Facts {
    fn after_analysis<'tcx>(&mut self, _c: &interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        dump::run(tcx, &self.out);
        Compilation::Continue
    }
}

fn main() -> std::process::ExitCode {
    let mut args: Vec<String> = std::env::args().collect();
    // As a wrapper: argv[1] is the real rustc.
    let mut real = "rustc".to_string();
    if args.len() > 1 && (args[1] == "rustc" || args[1].ends_with("/rustc")) {
        real = args.remove(1);
    }
    let krate = args.iter().position(|a| a == "--crate-name").and_then(|i| args.get(i + 1)).cloned();
    let want = std::env::var("GSC_FACTS_CRATE").ok();
    let out = std::env::var("GSC_FACTS_OUT").ok();
    let lib = std::env::var("GSC_LIB_CRATE").ok();
    let lib_out = std::env::var("GSC_LIB_OUT").ok();
    if let (Some(k), Some(w), Some(o)) = (&krate, &lib, &lib_out) {
        if k == w {
            let o = o.clone();
            return rustc_driver::catch_with_exit_code(|| {
                rustc_driver::compiler_entrypoint(&args, &mut Lib { out: o });
            });
        }
    }
    match (krate, want, out) {
        (Some(k), Some(w), Some(o)) if k == w => rustc_driver::catch_with_exit_code(|| {
            rustc_driver::compiler_entrypoint(&args, &mut Facts { out: o });
        }),
        _ => {
            use std::os::unix::process::CommandExt;
            let e = std::process::Command::new(real).args(&args[1..]).exec();
            eprintln!("gsc-facts: {e}");
            std::process::ExitCode::from(101)
        }
    }
}
