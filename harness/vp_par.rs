//! Parallel testing: every mutant once, each in a tree of its own, whatever the schedule and the results.
#![allow(dead_code, unused, static_mut_refs)]
use crate::vp;
use crate::vph::*;

// the first mutant is in one file, the others in another
fn src(n: usize) -> (Vec<(&'static str, String)>, Vec<Mu>) {
    let names = ["f", "g", "h", "k"];
    let f = |k: usize, mark: bool| if mark { format!("pub fn {}() {{\n    {{{{x{}()}}}}\n}}\n", names[k], k) } else { format!("pub fn {}() {{\n    x{}()\n}}\n", names[k], k) };
    let lib = |mark: bool| format!("mod b;\n{}", f(0, mark));
    let rest = |mark: usize| { let mut t = String::new(); for k in 1..n { t += &f(k, k == mark); } t };
    let mut m = vec![mu("src/lib.rs", &lib(true), "()", "replace f with ()")];
    for k in 1..n { m.push(mu("src/b.rs", &rest(k), "()", &format!("replace {} with ()", names[k]))); }
    (vec![("src/lib.rs", lib(false)), ("src/b.rs", rest(0))], m)
}
static mut SYM: bool = false;
static mut POLLS: bool = false;
fn on_spawn() {
    let a = child_argv();
    if answer(P1, &a) { return; }
    let d = child_cwd();
    // nobody else is working in this directory
    let l = lab();
    let me = children() - 1;
    for (i, s) in l.seen.iter().enumerate() {
        if s.dir == d { let b = vp::pxctl(15, unsafe { IDS[i] }, 0); if b & 1 == 0 { vp::fail("two cargo commands run in the same directory at the same time"); } }
    }
    unsafe { IDS.push(me); }
    let (k, ph) = observe();
    unsafe {
        if k < 0 { return; }
        if l.seen[0].dir != d { vp::cover("a second directory"); }
        let mut fail = false;
        if SYM && ph == Ph::Test || (SYM && k == 0) { fail = vp::any_bool("fails"); }
        let polls = if POLLS && ph == Ph::Test { vp::pick("polls until it ends", 2) as u64 } else { 1 };
        child_status(if fail { 101 << 8 } else { 0 }, polls);
        l.seen.last_mut().unwrap().r = Res::Exit(if fail { 101 } else { 0 });
    }
}
static mut IDS: Vec<u64> = Vec::new();
fn on_exit() {
    source_untouched();
    no_temp();
    protocol(false);
    let (v, code, n) = verdicts(false, true);
    vp::check(n == lab().muts.len(), "every mutant is tested");
    check_sets(&v);
    check_counts(&v, n, 0);
    expect_exit(code);
    let l = lab();
    let t = text(&outp("outcomes.json"));
    vp::check(json(&t, "outcomes/#") == Some((n + 1).to_string()), "outcomes.json has one entry per scenario");
    let mut names: Vec<String> = vec![];
    for i in 1..n + 1 { let s = json(&t, &format!("outcomes/{i}/scenario/Mutant/function/function_name")); if let Some(s) = s { if names.contains(&s) { vp::fail("outcomes.json has a mutant twice"); } names.push(s); } else { vp::fail("outcomes.json lacks a mutant's name"); } }
    // logs: one per scenario
    let logs = list(&outp("log"));
    vp::check(logs.len() == n + 1, "one log file per scenario");
}
fn start(n: usize) { base(); let (t, m) = src(n); let v: Vec<(&'static str, &str)> = t.iter().map(|(f, t)| (*f, t.as_str())).collect(); lab_start(&v, m); hooks(on_spawn, on_exit); begin(&["--no-shuffle", "-j2"]); }
/// every order of the runnable threads at every scheduling point
#[inline(never)]
pub fn par_sched() { start(2); vp::pxctl(36, 1, 0); go() }
#[inline(never)]
pub fn par_results() { start(3); unsafe { SYM = true; POLLS = true; } go() }
#[inline(never)]
pub fn par_sched3() { start(3); unsafe { SYM = true; } vp::pxctl(36, 1, 0); go() }

// ---- the order is random ----
#[inline(never)]
pub fn par_shuffle() {
    base();
    let (t, m) = src(3);
    let v: Vec<(&'static str, &str)> = t.iter().map(|(f, t)| (*f, t.as_str())).collect();
    lab_start(&v, m);
    hooks(on_spawn, shuffle_exit);
    begin(&[]);
    match vp::pick("options", 3) { 0 => (), 1 => args(&["-j2"]), _ => args(&["--shuffle"]) }
    fastrand::seed(vp::pick("random seed", 16) as u64);
    go()
}
fn shuffle_exit() {
    let l = lab();
    let mut order = String::new();
    for s in &l.seen { if s.who >= 0 && s.ph == Ph::Build { order.push((b'0' + s.who as u8) as char); } }
    vp::cover(if order == "012" { "in order" } else { "in another order" });
    on_exit()
}

// ---- interrupts ----
static mut AFTER: Option<usize> = None;
fn intr_spawn() {
    if interrupted() && unsafe { AFTER.is_none() } { unsafe { AFTER = Some(lab().seen.len()); } }
    let a = child_argv();
    if answer(P1, &a) { return; }
    let (k, ph) = observe();
    child_status(0, 2);
}
fn intr_exit() {
    source_untouched();
    no_temp();
    children_gone();
    let l = lab();
    if interrupted() {
        vp::cover("interrupted");
        let g = exit_code();
        let (v, code, n) = verdicts(false, true);
        if g != 1 {
            if g != code { vp::fail(&format!("after an interrupt the exit code is {g}")); }
            if n != l.muts.len() { vp::fail("after an interrupt the run ended as if it were complete"); }
        }
        // each worker may just have been starting one
        if let Some(k) = unsafe { AFTER } { if l.seen.len() > k + 2 { vp::fail("more than two cargo commands were started after the interrupt"); } }
    } else { vp::check(exit_code() == 2, "exit code of an undisturbed run"); vp::cover("not interrupted"); }
}
#[inline(never)]
pub fn par_intr() { start(3); hooks(intr_spawn, intr_exit); vp::pxctl(3, vp::any_u32("interrupt at system call") as u64, 0); go() }
