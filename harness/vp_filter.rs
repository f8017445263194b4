//! Selecting mutants: shards, names, files, lists that run nothing.
#![allow(dead_code, unused, static_mut_refs)]
use crate::vp;
use crate::vph::*;

const LIB: &str = "mod a;\nmod b;\npub fn f1() {\n    x();\n}\npub fn f2() -> bool {\n    x() && y()\n}\n";
const A: &str = "pub fn g1() {\n    x();\n}\nimpl S {\n    pub fn g2(&self) {\n        x();\n    }\n}\n";
const B: &str = "pub fn h1() -> i32 {\n    3\n}\n";
pub const ALL: [&str; 10] = [
    "src/lib.rs:4:5: replace f1 with ()",
    "src/lib.rs:7:5: replace f2 -> bool with true",
    "src/lib.rs:7:5: replace f2 -> bool with false",
    "src/lib.rs:7:9: replace && with || in f2",
    "src/a.rs:2:5: replace g1 with ()",
    "src/a.rs:6:9: replace S::g2 with ()",
    "src/b.rs:2:5: replace h1 -> i32 with 0",
    "src/b.rs:2:5: replace h1 -> i32 with 1",
    "src/b.rs:2:5: replace h1 -> i32 with -1",
    "",
];
const N: usize = 9;
static mut WANT: [bool; 16] = [true; 16];
static mut ERR: bool = false;
fn on_exit() {
    unsafe {
        nothing_written();
        if ERR { vp::check(exit_code() == 1, "a usage error exits with code 1"); vp::check(stdout().is_empty(), "and lists nothing"); vp::cover("rejected"); return; }
        expect_exit(0);
        let mut want: Vec<&str> = vec![];
        for i in 0..N { if WANT[i] { want.push(ALL[i]); } }
        check_listed(&want);
        if want.len() == N { vp::cover("all"); } else if want.is_empty() { vp::cover("none"); } else { vp::cover("some"); }
    }
}
fn start() { base(); lab_start(&[("src/lib.rs", LIB), ("src/a.rs", A), ("src/b.rs", B)], vec![]); hooks(list_spawn, on_exit); begin(&["--list"]); unsafe { WANT = [true; 16]; ERR = false; } }

// ---- shards ----
fn digit(c: u8) -> bool { c >= b'0' && c <= b'9' }
/// every k/n of one digit each; the shards of one n are disjoint and cover everything
#[inline(never)]
pub fn shard_digits() {
    start();
    let (a, b) = (vp::any_u8("k"), vp::any_u8("n"));
    vp::assume(digit(a) && digit(b));
    argb(&[b'-', b'-', b's', b'h', b'a', b'r', b'd', b'=', a, b'/', b]);
    let (k, n) = ((a - b'0') as usize, (b - b'0') as usize);
    unsafe {
        if k >= n { ERR = true; } else { for i in 0..N { WANT[i] = i % n == k; } }
    }
    go()
}
/// nineteen mutants, and every k and n of one digit
static mut MANY: Vec<String> = Vec::new();
fn many_exit() {
    unsafe {
        nothing_written();
        if ERR { vp::check(exit_code() == 1, "a usage error exits with code 1"); vp::check(stdout().is_empty(), "and lists nothing"); vp::cover("rejected"); return; }
        expect_exit(0);
        let want: Vec<&str> = (0..MANY.len()).filter(|i| WANTN[*i]).map(|i| MANY[i].as_str()).collect();
        check_listed(&want);
        vp::cover("some");
    }
}
static mut WANTN: [bool; 32] = [true; 32];
#[inline(never)]
pub fn shard_many() {
    base();
    let mut t = String::new();
    for i in 0..19 { t += &format!("fn f{i}() {{\n    x();\n}}\n"); unsafe { MANY.push(format!("src/lib.rs:{}:5: replace f{i} with ()", 3 * i + 2)); } }
    lab_start(&[("src/lib.rs", &t)], vec![]);
    hooks(list_spawn, many_exit);
    begin(&["--list"]);
    let (a, b) = (vp::any_u8("k"), vp::any_u8("n"));
    vp::assume(digit(a) && digit(b));
    argb(&[b'-', b'-', b's', b'h', b'a', b'r', b'd', b'=', a, b'/', b]);
    let (k, n) = ((a - b'0') as usize, (b - b'0') as usize);
    unsafe {
        if k >= n { ERR = true; } else { for i in 0..19 { WANTN[i] = i % n == k; } }
    }
    go()
}
/// two digits
#[inline(never)]
pub fn shard_two_digits() {
    start();
    let (a, b, c) = (vp::any_u8("k"), vp::any_u8("n, tens"), vp::any_u8("n, ones"));
    vp::assume((a == b'0' || a == b'3' || a == b'9') && b == b'1' && digit(c));
    let (a, c) = (vp::concretize(a as u64) as u8, vp::concretize(c as u64) as u8);
    args(&["--shard"]);
    argb(&[a, b'/', b, c]);
    let (k, n) = ((a - b'0') as usize, (b - b'0') as usize * 10 + (c - b'0') as usize);
    unsafe {
        if k >= n { ERR = true; } else { for i in 0..N { WANT[i] = i % n == k; } }
    }
    go()
}
/// any other text of up to four bytes is refused
#[inline(never)]
pub fn shard_text() {
    start();
    let n = vp::pick("length", 4) as usize;
    let mut v: Vec<u8> = vec![];
    for _ in 0..n { v.push(vp::concretize(vp::byte_of("byte", b"019/-+ .") as u64) as u8); }
    args(&["--shard"]);
    let mut w = b"--shard=".to_vec();
    w = vec![];
    let s = v.clone();
    // what a shard looks like: digits (an optional + is accepted by Rust's integer parser), slash, digits
    let slash = s.iter().position(|c| *c == b'/');
    let num = |t: &[u8]| -> Option<u32> {
        let t = if t.len() > 1 && t[0] == b'+' { &t[1..] } else { t };
        if t.is_empty() { return None; }
        let mut n = 0u32;
        for c in t { if !digit(*c) { return None; } n = n * 10 + (*c - b'0') as u32; }
        Some(n)
    };
    let ok = match slash { None => None, Some(i) => match (num(&s[..i]), num(&s[i + 1..])) { (Some(k), Some(n)) if k < n => Some((k, n)), _ => None } };
    unsafe { match ok { None => ERR = true, Some((k, n)) => for i in 0..N { WANT[i] = i % n as usize == k as usize; } } }
    // a value that begins with a dash is an option, and an error too
    argb(&v);
    go()
}

// ---- names ----
const RES: [(&str, fn(&str) -> bool); 9] = [
    ("replace f1", |s| s.contains("replace f1")), ("bool", |s| s.contains("bool")), ("^src/a.rs", |s| s.starts_with("src/a.rs")), ("true$", |s| s.ends_with("true")),
    ("S::g2", |s| s.contains("S::g2")), ("nothing at all", |_| false), ("i32 with (0|1)$", |s| s.ends_with("i32 with 0") || s.ends_with("i32 with 1")), (":7:", |s| s.contains(":7:")), ("", |_| true),
];
/// up to two expressions each for --re and --exclude-re, on the command line or in the configuration
#[inline(never)]
pub fn filter_re() {
    start();
    let i = vp::pick("--re", 10) as usize;
    let e = vp::pick("--exclude-re", 10) as usize;
    // neighbours in the table, and either of them alone
    vp::assume(i == 9 || e == 9 || e == (i + 1) % 9 || e == (i + 4) % 9);
    let place = if i == 9 || e == 9 { vp::pick("given in", 3) } else { 0 }; // command line, configuration, both (command line wins)
    let mut cfg = String::new();
    let lit = |s: &str| format!("'{s}'");
    if i < 9 { if place == 1 { cfg += &format!("examine_re = [{}]\n", lit(RES[i].0)); } else { args(&["--re", RES[i].0]); } }
    if e < 9 { if place == 1 { cfg += &format!("exclude_re = [{}]\n", lit(RES[e].0)); } else { args(&["--exclude-re", RES[e].0]); } }
    let (mut inc, mut exc): (Vec<usize>, Vec<usize>) = (vec![], vec![]);
    if i < 9 { inc.push(i); }
    if e < 9 { exc.push(e); }
    if place == 2 { cfg += "examine_re = ['h1']\nexclude_re = ['g1', 'f2']\n"; }
    unsafe {
        for k in 0..N {
            let s = ALL[k];
            let mut ok = inc.is_empty() || inc.iter().any(|r| RES[*r].1(s));
            if exc.iter().any(|r| RES[*r].1(s)) { ok = false; }
            if place == 2 { if inc.is_empty() && !s.contains("h1") { ok = false; } if exc.is_empty() && (s.contains("g1") || s.contains("f2")) { ok = false; } }
            WANT[k] = ok;
        }
    }
    if !cfg.is_empty() { mkdir(&at(".cargo")); w(".cargo/mutants.toml", &cfg); lab().snap = snap(W); }
    go()
}
#[inline(never)]
pub fn filter_re2() {
    start();
    let i = vp::pick("first", 8) as usize;
    let j = vp::pick("second", 8) as usize;
    vp::assume(j == (i + 1) % 8 || j == (i + 3) % 8);
    let ex = vp::any_bool("exclude");
    let o = if ex { "-E" } else { "-F" };
    args(&[o, RES[i].0, o, RES[j].0]);
    unsafe { for k in 0..N { let m = RES[i].1(ALL[k]) || RES[j].1(ALL[k]); WANT[k] = m != ex; } }
    go()
}
// ---- files ----
const GLOBS: [(&str, [bool; 3]); 10] = [
    ("src/a.rs", [false, true, false]), ("a.rs", [false, true, false]), ("*.rs", [true, true, true]), ("src/*.rs", [true, true, true]), ("src", [true, true, true]),
    ("src/[ab].rs", [false, true, true]), ("{lib,b}.rs", [true, false, true]), ("x/*", [false, false, false]), ("**/b.rs", [false, false, true]), ("lib", [false, false, false]),
];
fn file_of(k: usize) -> usize { if k < 4 { 0 } else if k < 6 { 1 } else { 2 } }
#[inline(never)]
pub fn filter_file() {
    start();
    let i = vp::pick("--file", 11) as usize;
    let e = vp::pick("--exclude", 11) as usize;
    vp::assume(i == 10 || e == 10 || e == (i + 1) % 10);
    let config = vp::any_bool("in the configuration");
    let mut cfg = String::new();
    if i < 10 { if config { cfg += &format!("examine_globs = ['{}']\n", GLOBS[i].0); } else { args(&["-f", GLOBS[i].0]); } }
    if e < 10 { if config { cfg += &format!("exclude_globs = ['{}']\n", GLOBS[e].0); } else { args(&["-e", GLOBS[e].0]); } }
    unsafe { for k in 0..N { let f = file_of(k); WANT[k] = (i == 10 || GLOBS[i].1[f]) && !(e < 10 && GLOBS[e].1[f]); } }
    if !cfg.is_empty() { mkdir(&at(".cargo")); w(".cargo/mutants.toml", &cfg); lab().snap = snap(W); }
    go()
}

// ---- lists of files ----
static mut FILES: [bool; 4] = [true; 4];
static mut JSON: bool = false;
fn files_exit() {
    unsafe {
        nothing_written();
        expect_exit(0);
        const F: [&str; 4] = ["src/lib.rs", "src/a.rs", "src/b.rs", "src/c.rs"];
        let want: Vec<&str> = (0..4).filter(|i| FILES[*i]).map(|i| F[i]).collect();
        if JSON {
            let t = stdout();
            let n = json(&t, "#");
            if n != Some(want.len().to_string()) { vp::fail(&format!("{n:?} files in the JSON list, expected {}", want.len())); }
            for (i, f) in want.iter().enumerate() {
                let (p, k) = (json(&t, &format!("{i}/path")), json(&t, &format!("{i}/package")));
                if p.as_deref() != Some(f) || k.as_deref() != Some("p") { vp::fail(&format!("file {i} of the JSON list is {p:?} in package {k:?}, expected {f}")); }
            }
        } else { check_listed(&want); }
        vp::cover(if want.is_empty() { "none" } else if want.len() == 4 { "all" } else { "some" });
    }
}
/// --list-files names every source file that the file filters let through, whether or not it has mutants
#[inline(never)]
pub fn files_list() {
    base();
    // c.rs has nothing to mutate
    let lib = "mod a;\nmod b;\nmod c;\npub fn f1() {\n    x();\n}\n";
    lab_start(&[("src/lib.rs", lib), ("src/a.rs", A), ("src/b.rs", B), ("src/c.rs", "// nothing\n")], vec![]);
    hooks(list_spawn, files_exit);
    begin(&["--list-files"]);
    unsafe {
        JSON = vp::any_bool("--json");
        if JSON { args(&["--json"]); }
        let i = vp::pick("--file", 11) as usize;
        let e = vp::pick("--exclude", 11) as usize;
        vp::assume(i == 10 || e == 10 || e == (i + 3) % 10);
        if i < 10 { args(&["-f", GLOBS[i].0]); }
        if e < 10 { args(&["-e", GLOBS[e].0]); }
        let other = if i == 10 && e < 3 { vp::pick("other filters", 4) } else { 0 };
        // these select mutants, not files
        match other { 1 => args(&["--re", "nothing"]), 2 => args(&["--shard", "1/3"]), 3 => args(&["--list"]), _ => () }
        // c.rs matches as its directory and extension do
        let c = |g: usize| [2, 3, 4].contains(&g);
        for k in 0..4 {
            let inc = i == 10 || if k < 3 { GLOBS[i].1[k] } else { c(i) };
            let exc = e < 10 && if k < 3 { GLOBS[e].1[k] } else { c(e) };
            FILES[k] = inc && !exc;
        }
    }
    go()
}
/// names, files, diffs and shards together: shards divide what the others leave
#[inline(never)]
pub fn filter_all() {
    start();
    let f = vp::pick("files", 4);
    let r = vp::pick("names", 4);
    vp::assume(f == r || r == (f + 1) % 4 || r == (f + 2) % 4);
    let d = vp::any_bool("diff");
    let (k, n) = [(0, 1), (0, 2), (1, 2)][vp::pick("shard", 3) as usize];
    match f { 1 => args(&["-f", "lib.rs", "-f", "b.rs"]), 2 => args(&["-e", "b.rs"]), 3 => args(&["-f", "src/*", "-e", "lib.rs"]), _ => () }
    match r { 1 => args(&["--re", "replace [fg]"]), 2 => args(&["-E", "f1", "-E", "with true"]), 3 => args(&["-F", "bool|i32", "-E", "false"]), _ => () }
    if d {
        // line 6 of lib.rs and line 2 of b.rs are new
        w("d.diff", "--- a/src/lib.rs\n+++ b/src/lib.rs\n@@ -6,0 +7,1 @@\n+    x() && y()\n--- a/src/b.rs\n+++ b/src/b.rs\n@@ -1,0 +2,1 @@\n+    3\n");
        lab().snap = snap(W);
        args(&["--in-diff", "d.diff"]);
    }
    if n > 1 || k > 0 { args(&["--shard"]); arg(&format!("{k}/{n}")); }
    let mut i = 0;
    for j in 0..N {
        let s = ALL[j];
        let fi = file_of(j);
        let mut ok = match f { 1 => fi != 1, 2 => fi != 2, 3 => fi != 0, _ => true };
        ok &= match r { 1 => s.contains("replace f") || s.contains("replace g"), 2 => !s.contains("f1") && !s.contains("with true"), 3 => (s.contains("bool") || s.contains("i32")) && !s.contains("false"), _ => true };
        if d { ok &= s.starts_with("src/lib.rs:7:") || fi == 2; }
        if ok { i += 1; }
        unsafe { WANT[j] = ok && (i - 1) % n == k; }
    }
    go()
}
// ---- runs on some of the mutants, in random order ----
static mut TESTED: Vec<String> = Vec::new();
fn run_spawn() {
    let a = child_argv();
    if answer(P1, &a) { return; }
    let k = which(&child_cwd());
    if k < 0 { vp::fail("cargo was run on the original tree"); return; }
    unsafe { TESTED.push(lab().muts[k as usize].name.clone()); }
    child_status(0, 1);
}
fn run_exit() {
    unsafe {
        expect_exit(0);
        let mut want: Vec<String> = (0..5).filter(|i| WANT[*i]).map(|i| lab().muts[i].name.clone()).collect();
        want.sort();
        TESTED.sort();
        if TESTED != want { vp::fail(&format!("tested {TESTED:?}, expected {want:?}")); }
        vp::cover("tested");
    }
}
/// the mutants of a shard are the same whether listed or tested, whatever the order of testing
#[inline(never)]
pub fn shard_run() {
    base();
    let mut t = String::new();
    for i in 0..5 { t += &format!("fn f{i}() {{\n    x{i}();\n}}\n"); }
    let m = (0..5).map(|i| mu("src/lib.rs", &t.replace(&format!("x{i}();"), &format!("{{{{x{i}();}}}}")), "()", &format!("replace f{i} with ()"))).collect();
    lab_start(&[("src/lib.rs", &t)], m);
    hooks(run_spawn, run_exit);
    begin(&["--check", "--baseline=skip"]);
    let n = 1 + vp::pick("shards", 4) as usize;
    let k = vp::pick("shard", 4) as usize;
    vp::assume(k < n);
    args(&["--shard"]);
    arg(&format!("{k}/{n}"));
    unsafe { for j in 0..5 { WANT[j] = j % n == k; } }
    let s = vp::pick("random seed", 5) as u64;
    if s == 0 { args(&["--no-shuffle"]); } else { fastrand::seed(s); }
    go()
}
