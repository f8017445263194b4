//! What cargo sees, and what is left behind: isolation of mutants, the source tree, temporary directories.
#![allow(dead_code, unused, static_mut_refs)]
use crate::vp;
use crate::vph::*;

const LIB: &str = "mod a;\npub fn f() -> bool {\n    x() == 1\n}\n";
const A: &str = "pub fn g() {\n    h();\n}\n";
fn muts() -> Vec<Mu> {
    let s = |b: &str| format!("mod a;\npub fn f() -> bool {{\n    {b}\n}}\n");
    vec![
        mu("src/lib.rs", &s("{{x() == 1}}"), "true", "replace f -> bool with true"),
        mu("src/lib.rs", &s("{{x() == 1}}"), "false", "replace f -> bool with false"),
        mu("src/lib.rs", &s("x() {{==}} 1"), "!=", "replace == with != in f"),
        mu("src/a.rs", "pub fn g() {\n    {{h();}}\n}\n", "()", "replace g with ()"),
    ]
}
fn muts2() -> Vec<Mu> {
    vec![
        mu("src/lib.rs", "mod a;\npub fn f() {\n    {{x()}}\n}\n", "()", "replace f with ()"),
        mu("src/a.rs", "pub fn g() {\n    {{h();}}\n}\n", "()", "replace g with ()"),
    ]
}
const LIB2: &str = "mod a;\npub fn f() {\n    x()\n}\n";
static mut SYM_FROM: i32 = -1;
static mut HANG: bool = false;
static mut INTR: bool = false;
fn on_spawn() {
    let a = child_argv();
    if answer(P1, &a) { return; }
    let (k, ph) = observe();
    unsafe {
        if k >= SYM_FROM {
            // the first two mutants may hang in either phase
            if HANG && k >= 0 && k < 2 && vp::any_bool("hang") { result(Res::Hang); } else { result_any("fails"); }
        }
    }
}
fn done(v: &[Vec<String>], code: i32) {
    check_lists(v);
    let g = exit_code();
    if g != code { vp::fail(&format!("exit code {g}, expected {code}")); }
}
fn on_exit() {
    source_untouched();
    no_temp();
    let (v, code, n) = verdicts(false, true);
    done(&v, code);
    if code == 4 { vp::check(n == 0, "no mutant is tested when the baseline fails"); vp::cover("baseline failed"); }
    else { vp::check(n == lab().muts.len(), "every mutant is tested"); vp::cover("all tested"); }
    if !v[1].is_empty() { vp::cover("caught"); }
    if !v[0].is_empty() { vp::cover("missed"); }
    if !v[2].is_empty() { vp::cover("timeout"); }
}
fn four() { base(); w("README", "hello\n"); mkdir(&at("tests/data")); w("tests/data/x", "1"); lab_start(&[("src/lib.rs", LIB), ("src/a.rs", A)], muts()); }
fn two() { base(); lab_start(&[("src/lib.rs", LIB2), ("src/a.rs", A)], muts2()); }
/// copied tree: every success/failure of every command
#[inline(never)]
pub fn tree_copy() { four(); hooks(on_spawn, on_exit); begin(&["--no-shuffle"]); go() }
/// in place, commands may also hang until they are timed out
#[inline(never)]
pub fn tree_in_place() { four(); lab().in_place = true; unsafe { HANG = true; SYM_FROM = 0; } hooks(on_spawn, on_exit); begin(&["--no-shuffle", "--in-place", "--timeout=0.1", "--build-timeout=0.1"]); go() }
/// a timeout in the copied tree
#[inline(never)]
pub fn tree_copy_hang() { two(); unsafe { HANG = true; } hooks(on_spawn, on_exit); begin(&["--no-shuffle", "--timeout=0.1", "--build-timeout=0.1"]); go() }

// ---- failures of the operating system ----
static mut TMP_FAULT: bool = false;
fn fault_exit() {
    let f = fault();
    let l = lab();
    if !f.is_empty() { vp::cover("a system call failed"); } else { vp::cover("no failure"); }
    // if restoring a mutated file is what failed, that file cannot be expected to be as it was; all else can
    let mut ex: Vec<&str> = vec!["mutants.out", "mutants.out.old"];
    if l.in_place { for m in &l.muts { if f.ends_with(m.file) && l.seen.iter().any(|s| s.who >= 0 && l.muts[s.who as usize].file == m.file) { ex.push(m.file); } } }
    if !same(W, l.snap, &ex) { vp::fail("after a failed system call, the source tree is not as it was before"); }
    if !(f.starts_with("unlink") || f.starts_with("rmdir") || f.starts_with("remove") || f.contains("opendir") || f.starts_with("stat") || f.contains("openat") || f.contains("open /tmp/vpw/t")) { no_temp(); }
    // a source file that cannot be examined counts as not being there
    if f.starts_with("stat") { return; }
    let (v, code, n) = verdicts(false, true);
    let g = exit_code();
    if g == 0 || g == 2 || g == 3 || g == 4 {
        // a reported result is the right result
        if g != code { vp::fail(&format!("exit code {g}, expected {code} or an error")); }
        if g != 4 && n != l.muts.len() { vp::fail(&format!("exit code {g} although only {n} mutants were tested")); }
        check_lists(&v);
    } else { vp::check(g == 1 || g == 101, "an error exit"); vp::check(!f.is_empty(), "an error needs a cause"); vp::cover("error exit"); }
}
fn fault_spawn() {
    let a = child_argv();
    if answer(P1, &a) { return; }
    let (k, ph) = observe();
    if k == 1 && ph == Ph::Test { result(Res::Exit(101)); }
}
fn arm(wr_only: u64) { vp::pxctl(16, wr_only, 0); vp::pxctl(1, vp::any_u32("failing system call") as u64, 0); }
/// any one modifying system call fails
#[inline(never)]
pub fn tree_fault() { two(); hooks(fault_spawn, fault_exit); begin(&["--no-shuffle"]); arm(1); go() }
#[inline(never)]
pub fn tree_fault_in_place() { two(); lab().in_place = true; hooks(fault_spawn, fault_exit); begin(&["--no-shuffle", "--in-place"]); arm(1); go() }
#[inline(never)]
pub fn tree_fault_all() { two(); hooks(fault_spawn, fault_exit); begin(&["--no-shuffle"]); arm(0); go() }

// ---- interrupts ----
static mut AFTER: Option<usize> = None;
fn intr_spawn() {
    if interrupted() && unsafe { AFTER.is_none() } { unsafe { AFTER = Some(lab().seen.len()); } }
    let a = child_argv();
    if answer(P1, &a) { return; }
    let (k, ph) = observe();
    if k == 1 && ph == Ph::Test { child_status(101 << 8, 3); lab().seen.last_mut().unwrap().r = Res::Exit(101); } else { child_status(0, 2); }
}
fn intr_exit() {
    source_untouched();
    no_temp();
    let l = lab();
    children_gone();
    if interrupted() {
        vp::cover("interrupted");
        let g = exit_code();
        let (v, code, n) = verdicts(false, true);
        if g != 1 {
            // too late to matter: everything had been tested
            if g != code { vp::fail(&format!("after an interrupt the exit code is {g}")); }
            if n != l.muts.len() { vp::fail("after an interrupt the run ended as if it were complete"); }
            vp::cover("interrupt came too late");
        }
        if let Some(k) = unsafe { AFTER } { if l.seen.len() > k + 1 { vp::fail("more than one cargo command was started after the interrupt"); } }
    } else { vp::check(exit_code() == 2, "exit code of an undisturbed run"); vp::cover("not interrupted"); }
}
fn intr_arm() { vp::pxctl(3, vp::any_u32("interrupt at system call") as u64, 0); }
#[inline(never)]
pub fn tree_intr() { two(); hooks(intr_spawn, intr_exit); begin(&["--no-shuffle"]); intr_arm(); go() }
#[inline(never)]
pub fn tree_intr_in_place() { two(); lab().in_place = true; hooks(intr_spawn, intr_exit); begin(&["--no-shuffle", "--in-place"]); intr_arm(); go() }

// ---- line endings ----
fn crlf_exit() { source_untouched(); no_temp(); vp::check(exit_code() == 2, "exit code"); vp::cover("restored"); }
fn crlf(in_place: bool) {
    base();
    let mut t = String::new();
    for l in LIB2.lines() { t += l; t += vp::one_of("line ending", &["\n", "\r\n"]); }
    lab_start(&[("src/lib.rs", &t), ("src/a.rs", A)], muts2());
    lab().in_place = in_place;
    hooks(fault_spawn, crlf_exit);
    begin(&["--no-shuffle"]);
    if in_place { arg("--in-place"); }
    go()
}
#[inline(never)]
pub fn tree_crlf_in_place() { crlf(true) }
#[inline(never)]
pub fn tree_crlf_copy() { crlf(false) }

// ---- source files that are links ----
static mut LINKED: u64 = 0;
static mut THROUGH: &[&str] = &[];
fn link_spawn() {
    let a = child_argv();
    if answer(P1, &a) { return; }
    let d = child_cwd();
    let k = which(&d);
    let l = lab();
    unsafe {
        let ip = l.in_place;
        if !ip {
            vp::check(d != W && d.starts_with(T), "cargo runs in a copy under the temporary directory");
            if !same(W, l.snap, &["mutants.out"]) { vp::fail("the source tree was changed"); }
            if !same("/tmp/vpw/shared", LINKED, &[]) { vp::fail("a file outside the source tree was changed"); }
        }
        let mut ex = vec!["mutants.out"];
        ex.extend(THROUGH.iter());
        if k >= 0 { ex.push(l.muts[k as usize].file); }
        if !same(&d, l.snap, &ex) { vp::fail("cargo is run on a tree that differs by more than the mutated file"); }
    }
    l.seen.push(Seen { who: k, ph: phase(&a), dir: d, argv: a, r: Res::Exit(0) });
    result_any("fails");
}
fn link_exit() {
    unsafe {
        if !same(W, lab().snap, &["mutants.out"]) { vp::fail("after the run, the source tree is not as it was before"); }
        if !same("/tmp/vpw/shared", LINKED, &[]) { vp::fail("after the run, a file outside the source tree is not as it was before"); }
        no_temp();
        let (v, code, n) = verdicts(false, true);
        done(&v, code);
        vp::check(n == 2 || code == 4, "every mutant is tested");
        vp::cover(if lab().in_place { "in place" } else { "copied" });
    }
}
#[inline(never)]
pub fn tree_link() {
    base();
    mkdir("/tmp/vpw/shared");
    put("/tmp/vpw/shared/a.rs", A.as_bytes());
    mkdir(&at("real"));
    w("real/a.rs", A);
    let k = vp::pick("link", 4);
    lab_start(&[("src/lib.rs", LIB2)], muts2());
    symlink(match k { 0 => "/tmp/vpw/w/real/a.rs", 1 => "/tmp/vpw/shared/a.rs", 2 => "../real/a.rs", _ => "a2.rs" }, &at("src/a.rs"));
    if k == 3 { symlink("../real/a.rs", &at("src/a2.rs")); }
    let l = lab();
    l.files.push(("src/a.rs", A.as_bytes().to_vec()));
    l.snap = snap(W);
    l.in_place = vp::any_bool("--in-place");
    unsafe { LINKED = snap("/tmp/vpw/shared"); THROUGH = &["src/a.rs", "real/a.rs"]; }
    hooks(link_spawn, link_exit);
    begin(&["--no-shuffle"]);
    if lab().in_place { args(&["--in-place"]); }
    go()
}
