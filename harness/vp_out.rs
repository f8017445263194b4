//! The output directory: rotation, iteration over earlier results, logs, diffs and lists.
#![allow(dead_code, unused, static_mut_refs)]
use crate::vp;
use crate::vph::*;

const LIB: &str = "pub fn f() -> bool {\n    x()\n}\npub fn g() {\n    y();\n}\n";
fn muts() -> Vec<Mu> {
    let s = |a: &str, b: &str| format!("pub fn f() -> bool {{\n    {a}\n}}\npub fn g() {{\n    {b}\n}}\n");
    vec![
        mu("src/lib.rs", &s("{{x()}}", "y();"), "true", "replace f -> bool with true"),
        mu("src/lib.rs", &s("{{x()}}", "y();"), "false", "replace f -> bool with false"),
        mu("src/lib.rs", &s("x()", "{{y();}}"), "()", "replace g with ()"),
    ]
}
static mut SKIP: [bool; 3] = [false; 3];
static mut PREV: Vec<String> = Vec::new();
static mut ITER: bool = false;
static mut OLD: u64 = u64::MAX;
static mut DIR: &str = W;
static mut SYM: bool = true;
fn o(rel: &str) -> String { format!("{}/mutants.out/{rel}", unsafe { DIR }) }
fn on_spawn() {
    let a = child_argv();
    if answer(P1, &a) { return; }
    let (k, ph) = observe();
    // what cargo says goes to this scenario's log
    child_out(&format!("<{ph:?} of {k}>\n"));
    if k >= 0 && unsafe { SYM } && (ph == Ph::Test || k == 1) { result_any("fails"); }
}
fn check_out() {
    unsafe {
        let l = lab();
        let (v, code, n) = verdicts(false, true);
        let want: Vec<usize> = (0..3).filter(|i| !SKIP[*i]).collect();
        // exactly the mutants that are left, in order
        let mut seen: Vec<usize> = vec![];
        for s in &l.seen { if s.who >= 0 && !seen.contains(&(s.who as usize)) { seen.push(s.who as usize); } }
        if seen != want { vp::fail(&format!("tested mutants {seen:?}, expected {want:?}")); }
        expect_exit(code);
        for (f, want) in LISTS.iter().zip(&v) { let got = lines(&o(f)); if got != *want { vp::fail(&format!("{f} holds {got:?}, expected {want:?}")); } }
        // mutants.json lists them
        let mj = text(&o("mutants.json"));
        vp::check(json(&mj, "#") == Some(want.len().to_string()), "mutants.json has all the mutants of this run");
        for (i, k) in want.iter().enumerate() {
            let m = &l.muts[*k];
            vp::check(json(&mj, &format!("{i}/replacement")).as_deref() == Some(m.repl), "mutants.json replacement");
            vp::check(json(&mj, &format!("{i}/file")).as_deref() == Some(m.file), "mutants.json file");
        }
        if want.is_empty() { vp::cover("nothing to test"); vp::check(l.seen.is_empty(), "nothing is run"); return; }
        vp::cover("tested");
        // each scenario has a log of its own with its own output, and each mutant a diff
        let t = text(&o("outcomes.json"));
        vp::check(json(&t, "outcomes/#") == Some((n + 1).to_string()), "outcomes.json has one entry per scenario");
        let mut logs: Vec<String> = vec![];
        let mut diffs: Vec<String> = vec![];
        for i in 0..n + 1 {
            let who: i32 = if i == 0 { -1 } else { want[i - 1] as i32 };
            let Some(lp) = json(&t, &format!("outcomes/{i}/log_path")) else { vp::fail("outcomes.json lacks log_path"); return; };
            if logs.contains(&lp) { vp::fail("two scenarios share a log"); }
            let lt = text(&o(&lp));
            for s in &l.seen {
                let has = lt.contains(&format!("<{:?} of {}>", s.ph, s.who));
                if has != (s.who == who) { vp::fail(&format!("the log of scenario {who} and the output of {:?} of {}", s.ph, s.who)); }
            }
            logs.push(lp);
            let dp = json(&t, &format!("outcomes/{i}/diff_path"));
            if who >= 0 {
                let Some(dp) = dp else { vp::fail("outcomes.json lacks diff_path"); return; };
                if diffs.contains(&dp) { vp::fail("two mutants share a diff"); }
                let d = text(&o(&dp));
                let m = &l.muts[who as usize];
                if !applies(&d, LIB, m) { vp::note(&d); vp::fail(&format!("the diff of {} does not turn the source into the mutant", m.name)); }
                vp::check(lt.contains(&d), "the log shows the diff");
                diffs.push(dp);
            }
        }
        vp::check(list(&o("log")).len() == n + 1, "one log per scenario");
        vp::check(list(&o("diff")).len() == n, "one diff per mutant");
        if ITER {
            let mut got = lines(&o("previously_caught.txt"));
            let mut want = PREV.clone();
            got.sort(); got.dedup(); want.sort(); want.dedup();
            if got != want { vp::fail(&format!("previously_caught.txt holds {got:?}, expected {want:?}")); }
        } else { vp::check(!exists(&o("previously_caught.txt")), "previously_caught.txt only with --iterate"); }
    }
}
/// apply a unified diff whose hunks have context, and compare with the mutant
pub fn applies(d: &str, old: &str, m: &Mu) -> bool {
    let src: Vec<&str> = old.split_inclusive('\n').collect();
    let mut out = String::new();
    let mut at = 0usize;
    for l in d.split_inclusive('\n') {
        if l.starts_with("---") || l.starts_with("+++") { continue; }
        if l.starts_with("@@") {
            let n: usize = match l.split(|c| c == '-' || c == ',' || c == ' ').filter_map(|x| x.parse().ok()).next() { Some(n) => n, None => return false };
            if n < 1 || n - 1 < at { return false; }
            while at < n - 1 { out += src[at]; at += 1; }
            continue;
        }
        let (c, rest) = l.split_at(1);
        match c {
            " " => { if at >= src.len() || src[at] != rest { return false; } out += rest; at += 1; }
            "-" => { if at >= src.len() || src[at] != rest { return false; } at += 1; }
            "+" => out += rest,
            _ => return false,
        }
    }
    while at < src.len() { out += src[at]; at += 1; }
    m.is(out.as_bytes())
}
fn on_exit() {
    unsafe {
        check_out();
        source_untouched();
        no_temp();
        let old = format!("{DIR}/mutants.out.old");
        if OLD == u64::MAX { vp::check(!exists(&old), "nothing to rotate"); }
        else { if !same(&old, OLD, &["lock.json"]) { vp::fail("the previous mutants.out was not kept as mutants.out.old"); } vp::cover("rotated"); }
    }
}
fn start() { base(); lab_start(&[("src/lib.rs", LIB)], muts()); hooks(on_spawn, on_exit); begin(&["--no-shuffle"]); }
/// a previous mutants.out, and one before it
#[inline(never)]
pub fn out_rotate() {
    start();
    let dir = vp::pick("output in", 4);
    let d = if dir == 0 { W } else if dir == 1 { "/tmp/vpw/x" } else if dir == 2 { "/tmp/vpw/x/new" } else { "/tmp/vpw/x/env" };
    unsafe { DIR = d; SYM = false; }
    mkdir("/tmp/vpw/x");
    match dir { 0 => {} 1 => args(&["-o", "/tmp/vpw/x"]), 2 => arg("--output=/tmp/vpw/x/new"), _ => env("CARGO_MUTANTS_OUTPUT", "/tmp/vpw/x/env") }
    if dir < 2 {
        if vp::any_bool("mutants.out exists") {
            mkdir(&format!("{d}/mutants.out"));
            if vp::any_bool("with results") {
                mkdir(&format!("{d}/mutants.out/log"));
                put(&format!("{d}/mutants.out/caught.txt"), b"old caught\n");
                put(&format!("{d}/mutants.out/outcomes.json"), b"{}");
                put(&format!("{d}/mutants.out/log/baseline.log"), b"old log");
            }
            if vp::any_bool("with a lock file") { put(&format!("{d}/mutants.out/lock.json"), b"{ very old and quite long indeed, longer than the new one could ever be: 0123456789 0123456789 0123456789 0123456789 0123456789 0123456789 0123456789 0123456789 }"); }
            unsafe { OLD = snap(&format!("{d}/mutants.out")); }
        }
        if vp::any_bool("mutants.out.old exists") {
            mkdir(&format!("{d}/mutants.out.old/log"));
            put(&format!("{d}/mutants.out.old/missed.txt"), b"older\n");
            put(&format!("{d}/mutants.out.old/log/x"), b"older\n");
            unsafe { if OLD == u64::MAX { OLD = snap(&format!("{d}/mutants.out.old")); } }
        }
    }
    lab().snap = snap(W);
    go()
}
/// results of every mutant in an earlier run, and --iterate
#[inline(never)]
pub fn out_iterate() {
    start();
    unsafe { ITER = true; SYM = false; }
    mkdir(&outp(""));
    let l = lab();
    let mut files = [String::new(), String::new(), String::new()];
    let names = ["caught.txt", "unviable.txt", "previously_caught.txt"];
    for i in 0..3 {
        let k = vp::pick("earlier result", 4) as usize;
        if k < 3 { files[k] += &l.muts[i].name; files[k] += "\n"; unsafe { SKIP[i] = true; } }
    }
    // mutants that no longer exist; some have names that contain those of others
    files[2] += "src/lib.rs:99:1: replace gone with ()\n";
    files[0] = format!("{}0\nsrc/lib.rs:2:5: replace f -> bool with\n{}src/lib.rs:2:5: replace f -> bool\n", l.muts[0].name, files[0]);
    for k in 0..3 { put(&outp(names[k]), files[k].as_bytes()); for s in files[k].lines() { unsafe { PREV.push(s.to_string()); } } }
    put(&outp("missed.txt"), l.muts[0].name.as_bytes());
    put(&outp("timeout.txt"), l.muts[1].name.as_bytes());
    unsafe { OLD = snap(&outp("")); }
    arg("--iterate");
    lab().snap = snap(W);
    go()
}
/// similar names are different mutants
#[inline(never)]
pub fn out_iterate_names() {
    start();
    unsafe { ITER = true; SYM = false; }
    mkdir(&outp(""));
    let l = lab();
    let k = vp::pick("near miss", 6);
    let n = l.muts[0].name.clone();
    let t = match k { 0 => n[..n.len() - 1].to_string(), 1 => format!("{n} "), 2 => n.replace(":2:", ":22:"), 3 => n.replace("lib", "lib2"), 4 => format!(" {n}"), _ => { unsafe { SKIP[0] = true; } n } };
    let file = vp::one_of("file", &["caught.txt", "unviable.txt", "previously_caught.txt"]);
    put(&outp(file), format!("{t}{}", if vp::any_bool("ends with a newline") { "\n" } else { "" }).as_bytes());
    unsafe { PREV.push(t); OLD = snap(&outp("")); }
    arg("--iterate");
    lab().snap = snap(W);
    go()
}
#[inline(never)]
pub fn out_results() { start(); go() }
