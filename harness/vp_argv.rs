//! The cargo commands: how options, the configuration file and the environment become arguments and variables.
#![allow(dead_code, unused, static_mut_refs)]
use crate::vp;
use crate::vph::*;

const LIB: &str = "pub fn f() {\n    g()\n}\n";
fn muts() -> Vec<Mu> { vec![mu("src/lib.rs", "pub fn f() {\n    {{g()}}\n}\n", "()", "replace f with ()")] }
pub struct Want { head: Vec<&'static str>, nextest: bool, check: bool, mid: Vec<String>, tail: Vec<String>, test_tail: Vec<String>, rustflags: Option<String>, jobserver: bool }
static mut WANT: Option<Want> = None;
fn want() -> &'static mut Want { unsafe { WANT.as_mut().unwrap() } }
fn on_spawn() {
    let a = child_argv();
    if answer(P1, &a) { return; }
    let (k, ph) = observe();
    if a[0] != CARGO { vp::fail(&format!("cargo is run as {}", a[0])); }
    let w = want();
    let mut head: Vec<&str> = match (ph, w.nextest) {
        (Ph::Check, _) => vec!["check", "--tests"],
        (Ph::Build, false) => vec!["test", "--no-run"],
        (Ph::Test, false) => vec!["test"],
        (Ph::Build, true) => vec!["nextest", "run", "--no-run"],
        (Ph::Test, true) => vec!["nextest", "run"],
    };
    if w.check != (ph == Ph::Check) { vp::fail(&format!("unexpected {ph:?}")); }
    let mut tail: Vec<String> = w.tail.clone();
    if ph == Ph::Test { tail.extend(w.test_tail.iter().cloned()); }
    let n = head.len();
    let rest = &a[1..];
    if rest.len() < n || rest[..n].iter().zip(&head).any(|(x, y)| x != y) { vp::fail(&format!("{ph:?} is run as {a:?}")); }
    if rest.len() < n + tail.len() || rest[rest.len() - tail.len()..] != tail[..] { vp::fail(&format!("{a:?} does not end with {tail:?}")); }
    let mut mid: Vec<String> = rest[n..rest.len() - tail.len()].to_vec();
    let mut m2 = w.mid.clone();
    mid.sort();
    m2.sort();
    if mid != m2 { vp::fail(&format!("{a:?}: expected the options {m2:?}")); }
    vp::check(child_env("INSTA_UPDATE").as_deref() == Some("no"), "INSTA_UPDATE=no");
    vp::check(child_env("INSTA_FORCE_PASS").as_deref() == Some("0"), "INSTA_FORCE_PASS=0");
    let rf = child_env("CARGO_ENCODED_RUSTFLAGS");
    if rf != w.rustflags { vp::fail(&format!("CARGO_ENCODED_RUSTFLAGS is {rf:?}, expected {:?}", w.rustflags)); }
    if (child_env("CARGO_MAKEFLAGS").is_some() || child_env("MAKEFLAGS").is_some()) != w.jobserver { vp::fail("the jobserver is passed on exactly if it is enabled"); }
}
fn on_exit() {
    let l = lab();
    let check = want().check;
    protocol(check);
    let (v, code, n) = verdicts(check, true);
    vp::check(n == 1, "the mutant is tested");
    check_lists(&v);
    check_counts(&v, 1, if check { 1 } else { 0 });
    expect_exit(if check { 0 } else { 2 });
    source_untouched();
    no_temp();
}
fn start() {
    base();
    unsafe { WANT = Some(Want { head: vec![], nextest: false, check: false, mid: vec!["--verbose".into(), "--package=p@0.1.0".into()], tail: vec![], test_tail: vec![], rustflags: None, jobserver: true }); }
    mkdir(&at(".cargo"));
    hooks(on_spawn, on_exit);
    begin(&["--no-shuffle"]);
}
fn run(config: &str) {
    if !config.is_empty() { w(".cargo/mutants.toml", config); }
    lab_start(&[("src/lib.rs", LIB)], muts());
    go()
}
/// 0: absent, 1: in the configuration, 2: on the command line, 3: both (the command line wins), 4: the configuration is not read
fn place(name: &str) -> (bool, bool) { let k = vp::pick(name, 4); (k & 1 != 0, k & 2 != 0) }
/// profile and test tool, from the configuration or the command line, for tests and for --check
#[inline(never)]
pub fn argv_profile() {
    start();
    let mut cfg = String::new();
    let (pc, pa) = place("profile");
    let (tc, ta) = place("test tool");
    let check = vp::any_bool("check");
    let nocfg = if pc || tc { vp::any_bool("no config") } else { false };
    if pc { cfg += "profile = \"fromcfg\"\n"; }
    if pa { arg("--profile=fromargs"); }
    if tc { cfg += "test_tool = \"nextest\"\n"; }
    if ta { arg("--test-tool"); arg(if tc { "cargo" } else { "nextest" }); }
    if check { arg("--check"); }
    if nocfg { arg("--no-config"); }
    let w = want();
    let (pc, tc2) = (pc && !nocfg, tc && !nocfg);
    w.nextest = if ta { !tc } else { tc2 };
    w.check = check;
    let o = if w.nextest { "--cargo-profile=" } else { "--profile=" };
    if pa { w.mid.push(format!("{o}fromargs")); } else if pc { w.mid.push(format!("{o}fromcfg")); }
    run(&cfg)
}
#[inline(never)]
pub fn argv_features() {
    start();
    let w = want();
    if vp::any_bool("all features") { arg("--all-features"); w.mid.push("--all-features".into()); }
    if vp::any_bool("no default features") { arg("--no-default-features"); w.mid.push("--no-default-features".into()); }
    match vp::pick("features", 4) {
        0 => {}
        1 => { args(&["--features", "a"]); w.mid.push("--features=a".into()); }
        2 => { args(&["--features=a", "--features", "b,c d"]); w.mid.push("--features=a".into()); w.mid.push("--features=b,c d".into()); }
        _ => { args(&["--features="]); w.mid.push("--features=".into()); }
    }
    if vp::any_bool("check") { arg("--check"); w.check = true; }
    run("")
}
#[inline(never)]
pub fn argv_extra() {
    start();
    let mut cfg = String::new();
    let w = want();
    let n = vp::pick("cargo args", 3);
    if n > 0 { arg("-C"); arg("--x=1"); w.tail.push("--x=1".into()); }
    if n > 1 { arg("--cargo-arg=--y z"); w.tail.push("--y z".into()); }
    if vp::any_bool("configured cargo args") { cfg += "additional_cargo_args = [\"--c1\", \"--c2\"]\n"; w.tail.push("--c1".into()); w.tail.push("--c2".into()); }
    let m = vp::any_bool("configured test args");
    if m { cfg += "additional_cargo_test_args = [\"--t1\"]\n"; }
    if vp::any_bool("check") { arg("--check"); w.check = true; }
    let k = vp::pick("test args", 3);
    if k > 0 { arg("--"); arg("--lib"); w.test_tail.push("--lib".into()); }
    if k > 1 { arg("--"); arg("--nocapture"); w.test_tail.push("--".into()); w.test_tail.push("--nocapture".into()); }
    if m { w.test_tail.push("--t1".into()); }
    run(&cfg)
}
#[inline(never)]
pub fn argv_rustflags() {
    start();
    let mut cfg = String::new();
    let mut cap = false;
    match vp::pick("cap_lints", 6) {
        0 => {}
        1 => { cfg += "cap_lints = true\n"; cap = true; }
        2 => { arg("--cap-lints=true"); cap = true; }
        3 => { cfg += "cap_lints = true\n"; arg("--cap-lints=false"); }
        4 => { cfg += "cap_lints = false\n"; arg("--cap-lints=true"); cap = true; }
        _ => { cfg += "cap_lints = false\n"; }
    }
    let enc = vp::pick("CARGO_ENCODED_RUSTFLAGS", 3);
    let mut given = None;
    match enc { 0 => {} 1 => { env("CARGO_ENCODED_RUSTFLAGS", ""); given = Some(String::new()); } _ => { env("CARGO_ENCODED_RUSTFLAGS", "-C\x1fx y"); given = Some("-C\x1fx y".into()); } }
    let mut fl = String::new();
    match vp::pick("RUSTFLAGS", 4) { 0 => {} 1 => env("RUSTFLAGS", ""), 2 => { env("RUSTFLAGS", "-Dwarnings"); fl = "-Dwarnings\x1f".into(); } _ => { env("RUSTFLAGS", " -C  y "); fl = "-C\x1fy\x1f".into(); } }
    let w = want();
    w.rustflags = if !cap { given } else { Some(match given { Some(g) => if g.is_empty() { "--cap-lints=warn".into() } else { format!("{g}\x1f--cap-lints=warn") }, None => format!("{fl}--cap-lints=warn") }) };
    if vp::any_bool("no jobserver") { arg("--jobserver=false"); w.jobserver = false; }
    run(&cfg)
}
