//! Dumps the MIR of a workspace crate as JSON facts for the analyses in /verif/sa.
//!
//! Run as RUSTC_WORKSPACE_WRAPPER: argv[1] is the real rustc, the rest its arguments.
//! For every body of the crate the freshly built MIR (before borrow checking steals it and
//! before coroutine lowering) is cloned; after analysis it is printed with erased regions,
//! revealed opaque types, resolved callees and evaluated constants. Bodies of a white list of
//! std functions (Option/Result/iterator plumbing, `?`, poll_fn) that the crate's bodies call
//! are dumped too, monomorphised.
#![feature(rustc_private)]

extern crate rustc_abi;
extern crate rustc_attr_ir;
extern crate rustc_data_structures;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;
extern crate rustc_type_ir;

mod dump;
mod json;

use rustc_driver::Compilation;
use rustc_interface::interface::{Compiler, Config};
use rustc_middle::ty::TyCtxt;

struct Cb {
    out: String,
}

impl rustc_driver::Callbacks for Cb {
    fn config(&mut self, config: &mut Config) {
        config.override_queries = Some(|_sess, providers| dump::keep_built(&mut providers.queries));
    }

    fn after_expansion<'tcx>(&mut self, _c: &Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        dump::dump(tcx, &self.out);
        Compilation::Continue
    }
}

fn main() -> std::process::ExitCode {
    let mut args: Vec<String> = std::env::args().collect();
    // as a workspace wrapper: [driver, rustc, args...]
    if args.len() > 1 && (args[1].ends_with("rustc") || args[1].contains("/rustc")) {
        args.remove(1);
    }
    let crate_name = args
        .iter()
        .position(|a| a == "--crate-name")
        .and_then(|i| args.get(i + 1).cloned())
        .unwrap_or_default();
    let out_dir = std::env::var("MIRDUMP_OUT").unwrap_or_default();
    let is_bin = args.windows(2).any(|w| w[0] == "--crate-type" && w[1] == "bin");
    let skip = out_dir.is_empty()
        || crate_name.is_empty()
        || crate_name == "___"
        || crate_name.starts_with("build_script")
        || args.iter().any(|a| a.starts_with("--print"));
    rustc_driver::catch_with_exit_code(move || {
        if skip {
            struct Nop;
            impl rustc_driver::Callbacks for Nop {}
            rustc_driver::compiler_entrypoint(&args, &mut Nop);
        } else {
            let out = format!(
                "{}/{}{}.json",
                out_dir,
                crate_name,
                if is_bin { "-bin" } else { "" }
            );
            rustc_driver::compiler_entrypoint(&args, &mut Cb { out });
        }
    })
}
