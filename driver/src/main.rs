//! Writes the typed, resolved program (MIR before borrow checking, callees,
//! types, impls, statics) of every workspace crate as JSON. Injected with
//! RUSTC_WORKSPACE_WRAPPER under `cargo +nightly check`.
#![feature(rustc_private)]
#![allow(rustc::internal)]

extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_span;

mod dump;
mod json;

use rustc_driver::{Callbacks, Compilation};
use rustc_middle::ty::TyCtxt;

struct Dump {
    out: Option<String>,
}

impl Callbacks for Dump {
    fn after_expansion<'tcx>(
        &mut self,
        _c: &rustc_interface::interface::Compiler,
        tcx: TyCtxt<'tcx>,
    ) -> Compilation {
        if let Some(out) = &self.out {
            dump::dump(tcx, out);
        }
        Compilation::Continue
    }
}

fn main() -> std::process::ExitCode {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER: argv[1] is the real rustc.
    if args.len() > 1 && args[1].ends_with("rustc") {
        args.remove(1);
    }
    let is_build = args.windows(2).any(|w| w[0] == "--crate-name" && !w[1].starts_with("build_script"))
        && !args.iter().any(|a| a == "--print" || a.starts_with("--print="));
    // the witness program is compiled as a test harness, so that `#[test]` functions keep their bodies
    if args.windows(2).any(|w| w[0] == "--crate-name" && w[1] == "vwitness") {
        args.push("--test".into());
    }
    let out = std::env::var("MIRDUMP_OUT").ok().filter(|_| is_build);
    let code = rustc_driver::catch_with_exit_code(move || {
        rustc_driver::compiler_entrypoint(&args, &mut Dump { out });
    });
    code
}
