#![feature(rustc_private)]
//! kfacts: a rustc driver that, when it compiles the crate `vharness`, writes a fact base about
//! the knaster workspace: every workspace function (concretised at Float := f32, Size := U2, every
//! other type parameter symbolic), the transitive closure of its callees through the standard
//! library and all third-party crates (resolved with the compiler's own instance resolution), the
//! full typed MIR of workspace bodies, and tables of items, types, trait impls and drop glue.
extern crate rustc_abi;
extern crate rustc_attr_ir;
extern crate rustc_data_structures;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;
mod collect;
mod json;
use rustc_driver::{Callbacks, Compilation};
use rustc_interface::interface::Compiler;
use rustc_middle::ty::TyCtxt;

struct Cb;
impl Callbacks for Cb {
    fn after_analysis<'tcx>(&mut self, _c: &Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let out = std::env::var("KFACTS_OUT").expect("KFACTS_OUT");
        collect::run(tcx, &out);
        Compilation::Continue
    }
}
struct Plain;
impl Callbacks for Plain {}

fn main() -> std::process::ExitCode {
    // RUSTC_WORKSPACE_WRAPPER: argv = [self, rustc, args...]
    let mut args: Vec<String> = std::env::args().collect();
    args.remove(1);
    let is_h = args
        .windows(2)
        .any(|w| w[0] == "--crate-name" && w[1] == "vharness");
    rustc_driver::catch_with_exit_code(|| {
        if is_h && std::env::var("KFACTS_OUT").is_ok() {
            rustc_driver::compiler_entrypoint(&args, &mut Cb);
        } else {
            rustc_driver::compiler_entrypoint(&args, &mut Plain);
        }
    })
}
