#![feature(rustc_private)]
#![allow(dead_code)]
extern crate rustc_abi;
extern crate rustc_data_structures;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

mod exec;
mod expr;
mod explore;
mod intrin;
mod ir;
mod json;
mod mem;
mod posix;
mod vfs;
mod z3;

use rustc_driver::{Callbacks, Compilation};
use rustc_interface::interface::{Compiler, Config};
use rustc_middle::ty::TyCtxt;
use rustc_span::source_map::FileLoader;
use std::path::{Path, PathBuf};

/// Source overlay: text appended to files of the crate as they are read by the compiler.
struct Overlay { map: Vec<(PathBuf, String)> }
impl FileLoader for Overlay {
    fn file_exists(&self, p: &Path) -> bool { p.exists() }
    fn read_file(&self, p: &Path) -> std::io::Result<String> {
        let mut s = std::fs::read_to_string(p)?;
        let c = std::fs::canonicalize(p).unwrap_or_else(|_| p.to_path_buf());
        for (q, add) in &self.map { if *q == c { s.push('\n'); s.push_str(add); s.push('\n'); } }
        Ok(s)
    }
    fn read_binary_file(&self, p: &Path) -> std::io::Result<std::sync::Arc<[u8]>> { Ok(std::fs::read(p)?.into()) }
    fn current_directory(&self) -> std::io::Result<PathBuf> { std::env::current_dir() }
}
struct Cb { native: bool }
impl Callbacks for Cb {
    fn config(&mut self, c: &mut Config) {
        if let Ok(p) = std::env::var("VP_OVERLAY") {
            // file format: lines "path<TAB>text to append"
            let t = std::fs::read_to_string(&p).expect("overlay");
            let mut map = vec![];
            for l in t.lines() {
                if let Some((a, b)) = l.split_once('\t') { map.push((std::fs::canonicalize(a).unwrap_or_else(|_| a.into()), b.replace("\\n", "\n"))); }
            }
            c.file_loader = Some(Box::new(Overlay { map }));
        }
    }
    fn after_analysis<'tcx>(&mut self, _c: &Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        if self.native { return Compilation::Continue; }
        explore::main(tcx);
        Compilation::Stop
    }
}
fn main() -> std::process::ExitCode {
    let native = std::env::var("VP_NATIVE").is_ok();
    let args: Vec<String> = std::env::args().collect();
    if std::env::var("RUST_MIN_STACK").is_err() { unsafe { std::env::set_var("RUST_MIN_STACK", (1u64 << 30).to_string()); } }
    rustc_driver::catch_with_exit_code(|| { rustc_driver::compiler_entrypoint(&args, &mut Cb { native }); })
}
