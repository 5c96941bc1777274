#![feature(rustc_private)]
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, ModId};
use rustc_middle::middle::resolve::ModChild;
use rustc_middle::ty::{self, Instance, TyCtxt};
use std::sync::OnceLock;

static CUT: OnceLock<Vec<String>> = OnceLock::new();

/// Paths (or crates, or path prefixes ending in `*`) left without a body: reaching one is reported by the engine.
fn is_cut<'tcx>(tcx: TyCtxt<'tcx>, def_id: DefId) -> bool {
    let cut = CUT.get_or_init(|| {
        std::env::var("SYM_CUT").unwrap_or_default().split_whitespace().map(str::to_string).collect()
    });
    if cut.is_empty() {
        return false;
    }
    let c = tcx.crate_name(def_id.krate);
    let c = c.as_str();
    if !cut.iter().any(|k| k.starts_with(c)) {
        return false;
    }
    let p = rustc_middle::ty::print::with_no_visible_paths!(rustc_middle::ty::print::with_no_trimmed_paths!(tcx.def_path_str(def_id)));
    let is = |k: &str| match k.strip_suffix('*') {
        Some(k) => p.starts_with(k),
        None => p == *k || c == k,
    };
    // `!path` makes an exception
    cut.iter().any(|k| is(k)) && !cut.iter().any(|k| k.strip_prefix('!').is_some_and(is))
}

/// Every function with MIR available is code-generated into the harness crate's
/// own LLVM module, whichever crate it comes from.
fn should_codegen_locally<'tcx>(tcx: TyCtxt<'tcx>, instance: Instance<'tcx>) -> bool {
    let Some(def_id) = instance.def.def_id_if_not_guaranteed_local_codegen() else {
        return true;
    };
    if tcx.is_foreign_item(def_id) {
        return false;
    }
    if def_id.is_local() {
        return true;
    }
    if is_cut(tcx, def_id) {
        return false;
    }
    if let DefKind::Static { .. } = tcx.def_kind(def_id) {
        return true;
    }
    matches!(tcx.def_kind(def_id), DefKind::Ctor(..)) || tcx.is_mir_available(def_id)
}

/// Items of other crates are all visible to the harness: it drives internal functions
/// directly, and no hook in the checked crates is needed.
fn visibility<'tcx>(_: TyCtxt<'tcx>, _: DefId) -> ty::Visibility<ModId> {
    ty::Visibility::Public
}

type AdtFn = for<'tcx> fn(TyCtxt<'tcx>, DefId) -> ty::AdtDef<'tcx>;
type ChildrenFn = for<'tcx> fn(TyCtxt<'tcx>, DefId) -> &'tcx [ModChild];
static ADT: OnceLock<AdtFn> = OnceLock::new();
static CHILDREN: OnceLock<ChildrenFn> = OnceLock::new();

fn adt_def<'tcx>(tcx: TyCtxt<'tcx>, did: DefId) -> ty::AdtDef<'tcx> {
    let d = ADT.get().unwrap()(tcx, did);
    if !tcx.crate_name(did.krate).as_str().starts_with("sail_") {
        return d;
    }
    // interned by identity, so it is changed in place, before anyone else sees it
    for v in d.variants() {
        for f in v.fields.iter() {
            let p = f as *const ty::FieldDef as *mut ty::FieldDef;
            unsafe { (*p).vis = ty::Visibility::Public };
        }
    }
    d
}

fn module_children<'tcx>(tcx: TyCtxt<'tcx>, did: DefId) -> &'tcx [ModChild] {
    let c = CHILDREN.get().unwrap()(tcx, did);
    if !tcx.crate_name(did.krate).as_str().starts_with("sail_") {
        return c;
    }
    tcx.arena.alloc_from_iter(c.iter().map(|m| ModChild { ident: m.ident, res: m.res, vis: ty::Visibility::Public, reexport_chain: m.reexport_chain.clone() }))
}

struct Cb {
    harness: bool,
}
impl rustc_driver::Callbacks for Cb {
    fn config(&mut self, config: &mut rustc_interface::Config) {
        if !self.harness {
            return;
        }
        config.override_queries = Some(|_sess, providers| {
            providers.hooks.should_codegen_locally = should_codegen_locally;
            let _ = ADT.set(providers.extern_queries.adt_def);
            let _ = CHILDREN.set(providers.extern_queries.module_children);
            providers.extern_queries.visibility = visibility;
            providers.extern_queries.adt_def = adt_def;
            providers.extern_queries.module_children = module_children;
        });
    }
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // invoked as RUSTC_WRAPPER: symrustc <rustc> args...
    if args.len() > 1 && args[1].ends_with("rustc") {
        args.remove(1);
    }
    // The harness crate (built by `cargo check`) additionally gets one optimized LLVM module.
    let is_harness = args
        .windows(2)
        .any(|w| w[0] == "--crate-name" && w[1].starts_with("symharness"));
    if is_harness {
        for a in args.iter_mut() {
            if let Some(rest) = a.strip_prefix("--emit=") {
                *a = format!("--emit={rest},llvm-ir");
            }
        }
        if let Ok(extra) = std::env::var("SYM_CODEGEN_FLAGS") {
            args.extend(extra.split_whitespace().map(str::to_string));
        }
    }
    rustc_driver::install_ice_hook("harness", |_| ());
    rustc_driver::compiler_entrypoint(&args, &mut Cb { harness: is_harness });
}
