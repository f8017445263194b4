//! Which packages are mutated and tested, and which of their files.
#![allow(dead_code, unused, static_mut_refs)]
use crate::vp;
use crate::vph::*;

struct Pk { name: &'static str, dir: &'static str, targets: Vec<(&'static str, String)> }
static mut PK: Vec<Pk> = Vec::new();
static mut DEFAULTS: Vec<usize> = Vec::new();
static mut VIRTUAL: bool = true;
fn pk() -> &'static Vec<Pk> { unsafe { &PK } }
fn dir_of(p: &Pk) -> String { if p.dir.is_empty() { W.to_string() } else { at(p.dir) } }
fn metadata() -> String {
    let mut s = String::from("{\"packages\":[");
    let id = |p: &Pk| format!("\"path+file://{}#{}@0.1.0\"", dir_of(p), p.name);
    for (i, p) in pk().iter().enumerate() {
        let dir = dir_of(p);
        if i > 0 { s.push(','); }
        s += &format!("{{\"name\":\"{}\",\"version\":\"0.1.0\",\"id\":{},\"license\":null,\"license_file\":null,\"description\":null,\"source\":null,\"dependencies\":[],\"targets\":[", p.name, id(p));
        for (j, (k, f)) in p.targets.iter().enumerate() {
            if j > 0 { s.push(','); }
            let f = if f.starts_with('/') { f.clone() } else { format!("{dir}/{f}") };
            s += &format!("{{\"kind\":[\"{k}\"],\"crate_types\":[\"{k}\"],\"name\":\"t{j}\",\"src_path\":\"{f}\",\"edition\":\"2021\",\"doc\":true,\"doctest\":true,\"test\":true}}");
        }
        s += &format!("],\"features\":{{}},\"manifest_path\":\"{dir}/Cargo.toml\",\"metadata\":null,\"publish\":null,\"authors\":[],\"categories\":[],\"keywords\":[],\"readme\":null,\"repository\":null,\"homepage\":null,\"documentation\":null,\"edition\":\"2021\",\"links\":null,\"default_run\":null,\"rust_version\":null}}");
    }
    let all: Vec<String> = pk().iter().map(|p| id(p)).collect();
    let def: Vec<String> = unsafe { DEFAULTS.iter().map(|i| id(&PK[*i])).collect() };
    s += &format!("],\"workspace_members\":[{}],\"workspace_default_members\":[{}],\"resolve\":null,\"target_directory\":\"{W}/target\",\"version\":1,\"workspace_root\":\"{W}\",\"metadata\":null}}", all.join(","), def.join(","));
    s
}
/// where the program's child runs, as an absolute path without dots
fn child_abs() -> String {
    let d = child_cwd();
    let full = if d.starts_with('/') { d } else { format!("{}/{d}", run_cwd()) };
    let mut v: Vec<&str> = vec![];
    for c in full.split('/') { match c { "" | "." => (), ".." => { v.pop(); } _ => v.push(c) } }
    format!("/{}", v.join("/"))
}
fn queries(a: &[String]) -> bool {
    match a.get(1).map(|s| s.as_str()) {
        Some("locate-project") => {
            let d = child_abs();
            if !(d == W || d.starts_with(&format!("{W}/"))) { vp::fail(&format!("cargo locate-project runs in {d}")); }
            let mut best = String::from(W);
            if !a.iter().any(|x| x == "--workspace") { for p in pk() { let pd = dir_of(p); if (d == pd || d.starts_with(&format!("{pd}/"))) && pd.len() > best.len() { best = pd; } } }
            child_out(&format!("{{\"root\":\"{best}/Cargo.toml\"}}\n"));
            true
        }
        Some("metadata") => { child_out(&metadata()); true }
        _ => false,
    }
}
fn on_list_spawn() { let a = child_argv(); if !queries(&a) { vp::fail(&format!("a listing run started {a:?}")); } }
static mut WANT: Vec<String> = Vec::new();
static mut ERR: bool = false;
fn on_list_exit() {
    unsafe {
        nothing_written();
        if ERR { vp::check(exit_code() != 0, "this is an error"); vp::check(stdout().is_empty(), "and nothing is listed"); vp::cover("rejected"); return; }
        expect_exit(0);
        let out = stdout();
        let mut got: Vec<&str> = out.lines().collect();
        let mut want: Vec<&str> = WANT.iter().map(|s| s.as_str()).collect();
        got.sort();
        want.sort();
        if got != want { vp::fail(&format!("listed {got:?}, expected {want:?}")); }
        vp::cover(if want.is_empty() { "none" } else { "some" });
    }
}
const FN: &str = "pub fn f() {\n    x();\n}\n";
/// the workspace: packages a, b (in crates/b), ab (whose name and directory begin with a's), and perhaps one at the root
fn tree(root: bool) {
    base();
    unsafe {
        PK.clear();
        VIRTUAL = !root;
        // cargo lists them in no particular order
        PK.push(Pk { name: "b", dir: "crates/b", targets: vec![("lib", "src/lib.rs".into())] });
        PK.push(Pk { name: "ab", dir: "ab", targets: vec![("lib", "src/lib.rs".into())] });
        PK.push(Pk { name: "a", dir: "a", targets: vec![("bin", "src/main.rs".into())] });
        if root { PK.push(Pk { name: "root", dir: "", targets: vec![("lib", "src/lib.rs".into())] }); }
    }
    for d in ["a", "a/src", "a/src/deep", "ab", "ab/src", "crates", "crates/b", "crates/b/src"] { mkdir(&at(d)); }
    w("Cargo.toml", "[workspace]\n");
    for d in ["a", "ab", "crates/b"] { w(&format!("{d}/Cargo.toml"), TOML); }
    w("a/src/main.rs", FN);
    w("ab/src/lib.rs", FN);
    w("crates/b/src/lib.rs", FN);
    if root { w("src/lib.rs", FN); }
}
fn file(p: &str) -> &'static str { match p { "a" => "a/src/main.rs", "ab" => "ab/src/lib.rs", "b" => "crates/b/src/lib.rs", _ => "src/lib.rs" } }
fn names(root: bool) -> Vec<&'static str> { let mut v = vec!["a", "ab", "b"]; if root { v.push("root"); } v }
#[inline(never)]
pub fn pkg_select() {
    let root = vp::any_bool("a package at the root");
    tree(root);
    let all = names(root);
    // where the run starts: directory, arguments, the package found there
    let s = vp::pick("start", 14);
    let (d, a, here): (&str, &[&str], &str) = match s {
        0 => ("", &[], ""), 1 => ("a", &[], "a"), 2 => ("a/src/deep", &[], "a"), 3 => ("", &["-d", "a"], "a"), 4 => ("", &["--dir=crates/b/src"], "b"), 5 => ("ab", &[], "ab"), 6 => ("crates", &[], ""),
        7 => ("", &["--manifest-path", "a/Cargo.toml"], "a"), 8 => ("a", &["--manifest-path=Cargo.toml"], "a"), 9 => ("", &["--manifest-path", "./Cargo.toml"], ""), 10 => ("a", &["-d", ".."], ""), 11 => ("ab", &["-d", "../crates/b"], "b"),
        12 => ("", &["--manifest-path", "crates/Cargo.toml"], "!"), _ => ("", &["-d", "nowhere"], "!"),
    };
    let c = vp::pick("packages", 7);
    vp::assume(c == 0 || s == 0 || s == 1 || s == 4 || s == 8);
    let dm = if s == 0 || s == 6 || s == 10 { vp::pick("default members", 4) } else { 0 };
    vp::assume(dm == 0 || c == 0);
    let defs: Vec<&str> = match dm { 0 => all.clone(), 1 => vec!["b"], 2 => vec!["ab", "a"], _ => vec![] };
    unsafe {
        DEFAULTS = (0..PK.len()).filter(|i| if root && dm == 0 { PK[*i].name == "root" } else { defs.contains(&PK[*i].name) }).collect();
        let sel: Vec<&str> = match c {
            0 => if here == "" { if root { vec!["root"] } else { defs } } else { vec![here] },
            1 => all.clone(), 2 => vec!["a"], 3 => vec!["a", "b"], 4 => vec!["ab"], 5 => vec!["b"], _ => vec![],
        };
        ERR = here == "!";
        WANT = sel.iter().filter(|p| **p != "!").map(|p| format!("{}:2:5: replace f with ()", file(p))).collect();
    }
    lab_start(&[], vec![]);
    hooks(on_list_spawn, on_list_exit);
    start_in(&if d.is_empty() { W.to_string() } else { at(d) });
    begin(&["--list"]);
    args(a);
    args(match c { 0 => &[], 1 => &["--workspace"], 2 => &["-p", "a"], 3 => &["-p=b", "--package=a"], 4 => &["--package", "ab"], 5 => &["-p", "b", "-p", "nothing"], _ => &["--package=nothing"] });
    go()
}
/// one more target of package a, of any kind, in its own file
#[inline(never)]
pub fn pkg_kinds() {
    const K: [(&str, bool); 11] = [("lib", true), ("bin", true), ("proc-macro", true), ("cdylib", true), ("dylib", true), ("rlib", true), ("staticlib", true), ("test", false), ("example", false), ("bench", false), ("custom-build", false)];
    tree(false);
    let k = K[vp::pick("kind", 11) as usize];
    let place = vp::pick("file", 4); // beside, elsewhere in the workspace, outside, the same file again
    let f = match place { 0 => "src/extra.rs".to_string(), 1 => at("ab/odd.rs"), 2 => "/tmp/vpw/out.rs".into(), _ => "src/main.rs".into() };
    w("a/src/extra.rs", FN);
    w("ab/odd.rs", FN);
    put("/tmp/vpw/out.rs", FN.as_bytes());
    unsafe {
        PK[2].targets.push((k.0, f));
        if vp::any_bool("first") { PK[2].targets.reverse(); }
        DEFAULTS = vec![0, 1, 2];
        WANT = vec!["a/src/main.rs:2:5: replace f with ()".into()];
        if k.1 && place == 0 { WANT.push("a/src/extra.rs:2:5: replace f with ()".into()); }
        if k.1 && place == 1 { WANT.push("ab/odd.rs:2:5: replace f with ()".into()); }
    }
    lab_start(&[], vec![]);
    hooks(on_list_spawn, on_list_exit);
    begin(&["--list", "-p", "a"]);
    go()
}

// ---- which tests are run ----
static mut MUTWANT: u32 = 0;
static mut TESTS: Vec<&'static str> = Vec::new(); // packages named for the tests
static mut SCOPE: u32 = 0; // 0: the mutated package, 1: the workspace, 2: TESTS
static mut SELECTED: Vec<&'static str> = Vec::new();
fn on_run_spawn() {
    let a = child_argv();
    if queries(&a) { return; }
    let (k, ph) = observe();
    let mut got: Vec<String> = a.iter().filter(|x| x.starts_with("--package") || x.starts_with("-p") || *x == "--workspace" || *x == "--all").cloned().collect();
    got.sort();
    unsafe {
        let named = |v: &[&'static str]| -> Vec<String> { let mut r: Vec<String> = v.iter().map(|p| format!("--package={p}@0.1.0")).collect(); r.sort(); r };
        let want: Vec<String> = match SCOPE {
            1 => vec!["--workspace".into()],
            2 => named(&TESTS),
            _ => if k < 0 { named(&SELECTED) } else { let f = lab().muts[k as usize].file; named(&[*["a", "ab", "b"].iter().find(|p| file(p) == f).unwrap()]) },
        };
        if got != want { vp::fail(&format!("{} is run on {got:?}, expected {want:?}", if k < 0 { "the baseline" } else { "a mutant" })); }
    }
    result(Res::Exit(0));
}
fn on_run_exit() {
    source_untouched();
    protocol(unsafe { CHECK });
    let (v, code, n) = verdicts(unsafe { CHECK }, true);
    unsafe { if n != SELECTED.len() { vp::fail(&format!("{n} mutants tested, expected {}", SELECTED.len())); } }
    expect_exit(code);
    vp::cover("tested");
}
static mut CHECK: bool = false;
#[inline(never)]
pub fn pkg_tests() {
    tree(false);
    unsafe {
        DEFAULTS = vec![0, 1, 2];
        let t = vp::pick("--test options", 6);
        let c = vp::pick("configuration", 4);
        let sel = vp::pick("packages", 3);
        CHECK = t == 0 && vp::any_bool("--check");
        SELECTED = match sel { 0 => vec!["a", "ab", "b"], 1 => vec!["a"], _ => vec!["b", "a"] };
        // from the command line, else from the configuration
        let named = |v: &[&'static str]| { TESTS = v.to_vec(); SCOPE = 2; };
        match t {
            1 => SCOPE = 1, 2 => named(&["b"]), 3 => named(&["ab", "b"]), 4 => named(&["a", "b"]),
            // --test-workspace=false overrides the configuration's test_workspace only
            _ => match c { 1 if t != 5 => SCOPE = 1, 2 => named(&["ab"]), 3 if t != 5 => SCOPE = 1, 3 => named(&["b"]), _ => SCOPE = 0 },
        }
        let cfg = match c { 0 => "", 1 => "test_workspace = true\n", 2 => "test_package = ['ab']\ntest_workspace = false\n", _ => "test_workspace = true\ntest_package = ['b']\n" };
        if !cfg.is_empty() { mkdir(&at(".cargo")); w(".cargo/mutants.toml", cfg); }
        let muts: Vec<Mu> = ["a", "ab", "b"].iter().map(|p| mu(file(p), "pub fn f() {\n    {{x();}}\n}\n", "()", "replace f with ()")).collect();
        lab_start(&[("a/src/main.rs", FN), ("ab/src/lib.rs", FN), ("crates/b/src/lib.rs", FN)], muts);
        hooks(on_run_spawn, on_run_exit);
        begin(&["--no-shuffle"]);
        if CHECK { args(&["--check"]); }
        args(match sel { 0 => &[], 1 => &["-p", "a"], _ => &["-p", "a", "-p", "b"] });
        args(match t { 0 => &[], 1 => &["--test-workspace=true"], 2 => &["--test-package", "b"], 3 => &["--test-package=ab,b"], 4 => &["--test-package=a", "--test-package=b"], _ => &["--test-workspace=false"] });
    }
    go()
}
