//! Verdicts, counts and exit codes for every combination of cargo results.
#![allow(dead_code, unused, static_mut_refs)]
use crate::vp;
use crate::vph::*;

const ONE: &str = "pub fn f() {\n    g()\n}\n";
static mut SRC1: bool = false;
const SRC: &str = "pub fn f(a: bool) -> bool {\n    !a\n}\n";
static mut MUTS: Vec<Mu> = Vec::new();
#[derive(Clone, Copy, PartialEq)]
enum R { Exit(u64), Sig, Hang }
struct Ev { who: i32, ph: Ph, r: R }
static mut EVS: Vec<Ev> = Vec::new();
static mut HANGS: u32 = 0; // how many children may hang
static mut FULL: bool = false;
static mut BASE: bool = true;
static mut BASE_SYM: bool = false;
static mut CHECK: bool = false;
static mut SHOW: (bool, bool) = (false, false); // -v, -V

fn muts() -> Vec<Mu> {
    let s = |b: &str| format!("pub fn f(a: bool) -> bool {{\n    {b}\n}}\n");
    vec![
        mu("src/lib.rs", &s("{{!a}}"), "true", "replace f -> bool with true"),
        mu("src/lib.rs", &s("{{!a}}"), "false", "replace f -> bool with false"),
        mu("src/lib.rs", &s("{{!}}a"), "", "delete ! in f"),
    ]
}
fn who() -> i32 {
    let got = read(&format!("{}/src/lib.rs", child_cwd())).unwrap();
    if got == (if unsafe { SRC1 } { ONE } else { SRC }).as_bytes() { return -1; }
    unsafe { for (i, m) in MUTS.iter().enumerate() { if m.is(&got) { return i as i32; } } }
    vp::fail("cargo was run on a tree that is neither the original nor one of the expected mutants");
    -2
}
fn on_spawn() {
    let a = child_argv();
    if answer(P1, &a) { return; }
    let ph = phase(&a);
    let k = who();
    unsafe {
        if !BASE || k >= 0 || BASE_SYM {
            let r = if HANGS > 0 && (k >= 0 || ph == Ph::Test) && vp::any_bool("hang") { HANGS -= 1; child_status(0, u64::MAX); R::Hang }
                else if FULL {
                    // any raw wait status: exited with a code, or ended by a signal
                    let raw = vp::any_u16("wait status") as u64;
                    let (sig, code) = (raw & 0x7f, raw >> 8);
                    vp::assume((sig == 0 && raw & 0x80 == 0) || (sig >= 1 && sig <= 64 && code == 0));
                    child_status(raw, 1);
                    if sig == 0 { R::Exit(code) } else { R::Sig }
                }
                else { let f = vp::any_bool("fails"); child_status(if f { 101 << 8 } else { 0 }, 1); R::Exit(if f { 101 } else { 0 }) };
            EVS.push(Ev { who: k, ph, r });
        } else { EVS.push(Ev { who: k, ph, r: R::Exit(0) }); }
    }
}
fn ok(r: R) -> bool { match r { R::Exit(c) => c == 0, _ => false } }
fn on_exit() {
    unsafe {
        let mut i = 0;
        let seq: &[Ph] = if CHECK { &[Ph::Check] } else { &[Ph::Build, Ph::Test] };
        // replay the required protocol over the observed children
        let mut base_failed = false;
        let mut step = |who: i32| -> Vec<R> {
            let mut v = vec![];
            for ph in seq {
                if i >= EVS.len() { vp::fail(&format!("{ph:?} was not run for scenario {who}")); }
                let e = &EVS[i];
                if e.who != who || e.ph != *ph { vp::fail(&format!("expected {ph:?} of scenario {who}, cargo ran {:?} of {}", e.ph, e.who)); }
                i += 1;
                v.push(e.r);
                if !ok(e.r) { break; }
            }
            v
        };
        let mut base_r = vec![];
        if BASE { let v = step(-1); base_failed = !ok(*v.last().unwrap()); base_r = v; }
        let (mut missed, mut caught, mut timeout, mut unviable, mut success) = (vec![], vec![], vec![], vec![], 0);
        let mut summaries = vec![];
        let mut results: Vec<Vec<R>> = vec![];
        if !base_failed {
            for k in 0..MUTS.len() {
                let v = step(k as i32);
                let name = MUTS[k].name.clone();
                let last = *v.last().unwrap();
                let testing = v.len() == 2;
                let s = match last {
                    R::Hang => { timeout.push(name); "Timeout" }
                    R::Sig => { "Failure" }
                    R::Exit(c) => {
                        if c == 0 { if CHECK { success += 1; "Success" } else { missed.push(name); "MissedMutant" } }
                        else if testing { caught.push(name); "CaughtMutant" } else { unviable.push(name); "Unviable" }
                    }
                };
                results.push(v);
                summaries.push(s);
            }
            vp::cover("all mutants tested");
        } else { vp::cover("baseline failed"); }
        vp::check(i == EVS.len(), "no cargo command beyond the required ones");
        for (f, want) in [("missed.txt", &missed), ("caught.txt", &caught), ("timeout.txt", &timeout), ("unviable.txt", &unviable)] {
            let got = lines(&outp(f));
            if got != *want { vp::fail(&format!("{f} holds {got:?}, expected {want:?}")); }
        }
        let want = if base_failed { 4 } else if !timeout.is_empty() { 3 } else if !missed.is_empty() { 2 } else { 0 };
        let got = exit_code();
        if got != want { vp::fail(&format!("exit code {got}, expected {want}")); }
        let t = text(&outp("outcomes.json"));
        let tested = if base_failed { 0 } else { MUTS.len() };
        for (k, n) in [("total_mutants", tested), ("missed", missed.len()), ("caught", caught.len()), ("timeout", timeout.len()), ("unviable", unviable.len()), ("success", success)] {
            let g = json(&t, k);
            if g != Some(n.to_string()) { vp::fail(&format!("outcomes.json {k} is {g:?}, expected {n}")); }
        }
        let b = BASE as usize;
        vp::check(json(&t, "outcomes/#") == Some((tested + b).to_string()), "outcomes.json has one entry per scenario");
        for (k, s) in summaries.iter().enumerate() {
            let g = json(&t, &format!("outcomes/{}/summary", k + b));
            if g.as_deref() != Some(*s) { vp::fail(&format!("outcomes.json summary of mutant {k} is {g:?}, expected {s}")); }
            phases(&t, k + b, &results[k], seq);
            let g = json(&t, &format!("outcomes/{}/scenario/Mutant/function/function_name", k + b));
            if g.as_deref() != Some("f") { vp::fail(&format!("outcomes.json has {g:?} as the function of mutant {k}")); }
        }
        if BASE {
            let g = json(&t, "outcomes/0/summary");
            let s = match *base_r.last().unwrap() { R::Exit(0) => "Success", R::Hang => "Timeout", _ => "Failure" };
            if g.as_deref() != Some(s) { vp::fail(&format!("outcomes.json summary of the baseline is {g:?}, expected {s}")); }
            if json(&t, "outcomes/0/scenario").as_deref() != Some("Baseline") { vp::fail("the first outcome is not the baseline"); }
            phases(&t, 0, &base_r, seq);
        }
        console(base_failed, &summaries, tested);
        if !timeout.is_empty() { vp::cover("timeout"); }
        if !missed.is_empty() { vp::cover("missed"); }
        if !caught.is_empty() { vp::cover("caught"); }
        if !unviable.is_empty() { vp::cover("unviable"); }
    }
}
/// outcomes.json has the phases that were run, with their results
fn phases(t: &str, i: usize, v: &[R], seq: &[Ph]) {
    let g = json(t, &format!("outcomes/{i}/phase_results/#"));
    if g != Some(v.len().to_string()) { vp::fail(&format!("outcomes.json has {g:?} phases for scenario {i}, expected {}", v.len())); }
    for (k, r) in v.iter().enumerate() {
        let at = format!("outcomes/{i}/phase_results/{k}");
        let g = json(t, &format!("{at}/phase"));
        if g != Some(format!("{:?}", seq[k])) { vp::fail(&format!("outcomes.json has phase {g:?}, expected {:?}", seq[k])); }
        let good = match r {
            R::Hang => json(t, &format!("{at}/process_status")).as_deref() == Some("Timeout"),
            R::Sig => json(t, &format!("{at}/process_status/Signalled")).is_some(),
            R::Exit(0) => json(t, &format!("{at}/process_status")).as_deref() == Some("Success"),
            R::Exit(_) => json(t, &format!("{at}/process_status/Failure")).is_some(),
        };
        if !good { vp::fail(&format!("outcomes.json has the wrong process_status for phase {k} of scenario {i}")); }
    }
}
/// what is printed: the mutants that need attention, those asked for, and the final counts
fn console(base_failed: bool, summaries: &[&str], tested: usize) {
    let out = stdout();
    let ls: Vec<&str> = out.lines().collect();
    let muts = unsafe { &MUTS };
    let (v, big_v) = unsafe { SHOW };
    for (k, m) in muts.iter().enumerate() {
        let hits: Vec<&&str> = ls.iter().filter(|l| l.ends_with(m.name.as_str()) && l.len() > m.name.len()).collect();
        let want = if k >= tested { None } else { match summaries[k] {
            "MissedMutant" => Some("MISSED"), "Timeout" => Some("TIMEOUT"), "CaughtMutant" if v => Some("caught"), "Unviable" if big_v => Some("unviable"),
            "CaughtMutant" | "Unviable" => None, "Success" => Some("ok"), _ => Some("FAILED") } };
        match want {
            None => if !hits.is_empty() { vp::fail(&format!("printed {hits:?}")); },
            Some(w) => if hits.len() != 1 || !hits[0].starts_with(w) { vp::fail(&format!("printed {hits:?} where {w} was expected for {}", m.name)); },
        }
    }
    let last: Vec<&&str> = ls.iter().filter(|l| l.contains(" tested")).collect();
    if base_failed { if !last.is_empty() { vp::fail("printed a summary although the baseline failed"); } return; }
    if last.len() != 1 { vp::fail(&format!("printed the summary {last:?}")); }
    let (head, tail) = last[0].split_once(": ").unwrap();
    let head_want = if tested == 1 { String::from("1 mutant tested") } else { format!("{tested} mutants tested") };
    if head != head_want { vp::fail(&format!("printed {head:?}, expected {head_want:?}")); }
    let n = |s: &str| summaries.iter().filter(|x| **x == s).count();
    let mut want = vec![];
    for (s, w) in [("MissedMutant", "missed"), ("CaughtMutant", "caught"), ("Unviable", "unviable"), ("Timeout", "timeouts"), ("Success", "succeeded")] { if n(s) > 0 { want.push(format!("{} {w}", n(s))); } }
    let got: Vec<&str> = tail.split(", ").filter(|s| !s.is_empty()).collect();
    if got.len() != want.len() || want.iter().any(|w| !got.contains(&w.as_str())) { vp::fail(&format!("printed the counts {tail:?}, expected {want:?}")); }
}
fn show() {
    unsafe { SHOW = (vp::any_bool("-v"), vp::any_bool("-V")); if SHOW.0 { arg("-v"); } if SHOW.1 { arg("-V"); } }
}
fn setup() {
    base();
    w("src/lib.rs", SRC);
    unsafe { MUTS = muts(); }
    hooks(on_spawn, on_exit);
}
fn one() {
    unsafe { SRC1 = true; MUTS.truncate(0); MUTS.push(mu("src/lib.rs", "pub fn f() {\n    {{g()}}\n}\n", "()", "replace f with ()")); }
    w("src/lib.rs", ONE);
}
/// every wait status of every cargo command of one mutant, and of the baseline
#[inline(never)]
pub fn verdict_status() { setup(); one(); unsafe { FULL = true; } begin(&["--no-shuffle", "--no-times"]); go() }
#[inline(never)]
pub fn verdict_base() { setup(); one(); unsafe { FULL = true; BASE_SYM = true; } begin(&["--no-shuffle", "--no-times"]); go() }
/// success or failure of every cargo command of three mutants, and whether caught and unviable ones are printed
#[inline(never)]
pub fn verdict_combo() { setup(); begin(&["--no-shuffle", "--no-times"]); show(); go() }
#[inline(never)]
pub fn verdict_hang() { setup(); unsafe { HANGS = 6; } begin(&["--no-shuffle", "--no-times", "--timeout=0.1", "--build-timeout=0.1"]); go() }
/// the baseline may hang too
#[inline(never)]
pub fn verdict_base_hang() { setup(); one(); unsafe { HANGS = 2; BASE_SYM = true; } begin(&["--no-times", "--timeout=0.1", "--build-timeout=0.1"]); go() }
/// --check
#[inline(never)]
pub fn verdict_check() { setup(); unsafe { CHECK = true; BASE_SYM = true; HANGS = 2; } begin(&["--no-shuffle", "--no-times", "--check", "--build-timeout=0.1"]); show(); go() }
/// no baseline
#[inline(never)]
pub fn verdict_skip() { setup(); unsafe { BASE = false; } begin(&["--no-shuffle", "--no-times", "--baseline=skip"]); show(); go() }
/// nextest
#[inline(never)]
pub fn verdict_nextest() { setup(); one(); unsafe { FULL = true; } begin(&["--no-shuffle", "--no-times", "--test-tool=nextest"]); go() }
