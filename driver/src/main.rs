//! rustc driver: compiles a crate as usual (metadata only) and, for the crates named in
//! ADVDUMP_CRATES, writes its type-checked program to ADVDUMP_OUT/<crate>.json:
//! items, types, impls, THIR bodies with resolved callees, and MIR with elaborated drops.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_ast;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_index;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_span;

mod json;
mod mirdump;
mod thirdump;
mod types;

use json::{n, s, J};
use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::LocalDefId;
use rustc_interface::interface;
use rustc_middle::thir::{ExprId, Thir};
use rustc_middle::ty::TyCtxt;
use types::Cx;

struct Dump {
    enabled: bool,
    out: String,
}

impl Callbacks for Dump {
    fn config(&mut self, config: &mut interface::Config) {
        if self.enabled {
            config.opts.unstable_opts.mir_opt_level = Some(0);
        }
    }
    fn after_expansion<'tcx>(
        &mut self,
        _c: &interface::Compiler,
        tcx: TyCtxt<'tcx>,
    ) -> Compilation {
        if !self.enabled {
            return Compilation::Continue;
        }
        // Clone all THIR first: later queries (opaque types, borrowck) steal it.
        let owners: Vec<LocalDefId> = tcx.hir_body_owners().collect();
        let mut thirs: Vec<(LocalDefId, Thir<'tcx>, ExprId)> = Vec::new();
        for d in owners.iter() {
            match tcx.thir_body(*d) {
                Ok((t, e)) => thirs.push((*d, t.borrow().clone(), e)),
                Err(_) => {
                    // type error: let rustc report it
                    return Compilation::Continue;
                }
            }
        }
        tcx.ensure_ok().analysis(());
        if tcx.dcx().has_errors().is_some() {
            return Compilation::Continue;
        }
        let mut cx = Cx::new(tcx);
        let mut bodies = Vec::new();
        for (d, t, e) in thirs.iter() {
            bodies.push(thirdump::body(&mut cx, *d, t, *e));
        }
        let mut mirs = Vec::new();
        for d in owners.iter() {
            let kind = tcx.def_kind(*d);
            if matches!(kind, DefKind::Fn | DefKind::AssocFn | DefKind::Closure) {
                mirs.push(mirdump::body(&mut cx, *d));
            }
        }
        let items = types::items(&mut cx);
        let impls = types::impls(&mut cx);
        let adts = types::adts(&mut cx);
        let mut o = String::new();
        let tys = std::mem::take(&mut cx.types);
        let defs = std::mem::take(&mut cx.defs);
        J::O(vec![
            ("crate", s(tcx.crate_name(rustc_hir::def_id::LOCAL_CRATE).to_string())),
            ("items", J::A(items)),
            ("impls", J::A(impls)),
            ("adts", J::A(adts)),
            ("bodies", J::A(bodies)),
            ("mir", J::A(mirs)),
            ("types", J::A(tys)),
            ("defs", J::A(defs)),
            ("nbodies", n(owners.len())),
        ])
        .write(&mut o);
        std::fs::write(&self.out, o).expect("advdump: cannot write output");
        Compilation::Continue
    }
}

fn main() -> std::process::ExitCode {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER: argv[1] is the path of rustc
    if args.len() > 1 && (args[1].ends_with("rustc") || args[1].ends_with("rustc.exe")) {
        args.remove(1);
    }
    let name = args
        .iter()
        .position(|a| a == "--crate-name")
        .and_then(|i| args.get(i + 1).cloned())
        .unwrap_or_default();
    let wanted = std::env::var("ADVDUMP_CRATES").unwrap_or_default();
    let is_test = args.iter().any(|a| a == "--test");
    let enabled = !is_test && wanted.split(',').any(|w| w == name && !w.is_empty());
    let out = format!(
        "{}/{}.json",
        std::env::var("ADVDUMP_OUT").unwrap_or_else(|_| ".".into()),
        name
    );
    let mut d = Dump { enabled, out };
    rustc_driver::catch_with_exit_code(|| rustc_driver::compiler_entrypoint(&args, &mut d))
}
