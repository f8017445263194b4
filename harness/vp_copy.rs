//! What the copy that cargo works on contains.
#![allow(dead_code, unused, static_mut_refs)]
use crate::vp;
use crate::vph::*;

const SRC: &str = "pub fn f() {\n    x();\n}\n";
static mut GONE: Vec<String> = Vec::new(); // relative paths that are not copied
static mut CHANGED: Vec<&'static str> = Vec::new(); // files that are checked by themselves
static mut SEE: Option<fn(&str)> = None;
static mut IN_PLACE: bool = false;
static mut SEEN: u32 = 0;
fn on_spawn() {
    let a = child_argv();
    if answer(P1, &a) { return; }
    let d = child_cwd();
    unsafe {
        SEEN += 1;
        let l = lab();
        let mut ex: Vec<&str> = vec!["mutants.out", "mutants.out.old", "src/lib.rs"];
        if !same(W, l.snap, &ex) { vp::fail("the source tree was changed"); }
        if IN_PLACE { vp::check(d == W, "with --in-place, cargo runs in the source tree"); }
        else {
            for g in &GONE { if exists(&format!("{d}/{g}")) { vp::fail(&format!("{g} was copied")); } ex.push(g); }
            for c in &CHANGED { ex.push(c); }
            if exists(&format!("{d}/mutants.out")) || exists(&format!("{d}/mutants.out.old")) { vp::fail("an output directory was copied"); }
            if !same(&d, l.snap, &ex) { let v = list(&d); vp::note(&format!("{v:?}")); vp::fail("the copy lacks something or differs"); }
        }
        if let Some(f) = SEE { f(&d); }
    }
    child_status(0, 1);
}
fn on_exit() {
    unsafe {
        if !same(W, lab().snap, &["mutants.out", "mutants.out.old"]) { vp::fail("after the run, the source tree is not as it was"); }
        no_temp();
        if exit_code() != 0 { vp::fail(&format!("exit code {}: {}", exit_code(), stderr())); }
        if SEEN != 1 { vp::fail(&format!("{SEEN} cargo commands, expected one")); }
        vp::cover("copied");
    }
}
fn run(a: &[&str]) {
    lab_start(&[("src/lib.rs", SRC)], vec![]);
    hooks(on_spawn, on_exit);
    begin(&["--check", "--baseline=skip"]);
    args(a);
    go()
}
const VCS: [&str; 7] = [".git", ".hg", ".jj", ".bzr", ".svn", "_darcs", ".pijul"];
/// version control directories, output directories, and everything else that is not source
#[inline(never)]
pub fn copy_vcs() {
    base();
    let v = VCS[vp::pick("directory", 7) as usize];
    let sub = vp::any_bool("in a subdirectory");
    let o = vp::pick("copy_vcs", 6);
    mkdir(&at("sub"));
    let p = if sub { format!("sub/{v}") } else { v.to_string() };
    mkdir(&at(&p));
    w(&format!("{p}/x"), "x");
    // names that only look like it
    w(&format!("sub/{v}x"), "no");
    w("sub/git", "no");
    w(".gitattributes", "no");
    mkdir(&at(".cargo"));
    let (cfg, a, on): (&str, &[&str], bool) = match o { 0 => ("", &[], false), 1 => ("", &["--copy-vcs=true"], true), 2 => ("copy_vcs = true\n", &[], true), 3 => ("copy_vcs = true\n", &["--copy-vcs=false"], false), 4 => ("copy_vcs = false\n", &["--copy-vcs", "true"], true), _ => ("copy_vcs = true\n", &["--no-config"], false) };
    w(".cargo/mutants.toml", cfg);
    unsafe { if !on { GONE.push(p); } }
    run(a)
}
#[inline(never)]
pub fn copy_kinds() {
    base();
    mkdir(&at("sub"));
    mkdir(&at("sub/empty"));
    mkdir(&at("sub/.hidden"));
    w("sub/.hidden/file", "h");
    w(".hidden", "h");
    w("sub/exec.sh", "#!/bin/sh\n");
    chmod(&at("sub/exec.sh"), 0o755);
    w("sub/ro", "read-only");
    chmod(&at("sub/ro"), 0o444);
    w("sub/\u{e9}t\u{e9} \u{1F600}", "name");
    w("sub/mutants.out.txt", "kept");
    w("sub/mutants_out", "kept");
    w("sub/empty_file", "");
    // .ignore files have no meaning here
    w(".ignore", "sub\nsrc\n");
    w("sub/.rgignore", "*\n");
    let k = vp::pick("link", 7);
    match k { 0 => symlink("sub/ro", &at("link")), 1 => symlink("nowhere", &at("link")), 2 => symlink("sub", &at("link")), 3 => symlink("../src/lib.rs", &at("sub/link")), 4 => symlink("/tmp/vpw/outside", &at("link")), 5 => symlink(".", &at("sub/link")), _ => () }
    if vp::any_bool("output directories") {
        for d in ["mutants.out", "mutants.out.old", "sub/mutants.out", "sub/mutants.out.old"] { mkdir(&at(d)); w(&format!("{d}/x"), "old"); }
        unsafe { GONE.push("sub/mutants.out".into()); GONE.push("sub/mutants.out.old".into()); }
    }
    let b = vp::any_bool("--in-place");
    unsafe { IN_PLACE = b; }
    run(if b { &["--in-place"] } else { &[] })
}
const IGN: [(&str, &[&str]); 10] = [
    ("", &[]), ("foo\n", &["foo", "sub/foo"]), ("*.log\n!keep.log\n", &["a.log", "sub/b.log"]), ("/foo\n", &["foo"]), ("build/\n", &["build"]), ("# foo\n\n", &[]), ("sub/foo\n", &["sub/foo"]), ("sub/*\n!sub/foo\n", &["sub/b.log", "sub/build"]), ("**/build\n", &["build", "sub/build"]), ("f?o\nbuild/x\n", &["foo", "sub/foo", "build/x"]),
];
/// files that git ignores
#[inline(never)]
pub fn copy_ignore() {
    base();
    env("HOME", "/tmp/vpw/h");
    env("XDG_CONFIG_HOME", "/tmp/vpw/h/.config");
    mkdir(&at("sub"));
    mkdir(&at("build"));
    w("foo", "1");
    w("sub/foo", "2");
    w("a.log", "3");
    w("sub/b.log", "4");
    w("keep.log", "5");
    w("build/x", "6");
    w("sub/build", "a file");
    let k = vp::pick("ignored", 10) as usize;
    let git = vp::any_bool(".git exists");
    let wher = vp::pick("in", 4); // .gitignore, .git/info/exclude, the global file, sub/.gitignore
    vp::assume(wher == 0 || k < 4);
    vp::assume(wher < 1 || wher > 2 || git);
    // what an anchored pattern in the global file is relative to is left open
    vp::assume(!(wher == 2 && k == 3));
    let o = vp::pick("--gitignore", 3);
    if git { mkdir(&at(".git")); mkdir(&at(".git/info")); unsafe { GONE.push(".git".into()); } }
    match wher {
        0 => w(".gitignore", IGN[k].0), 1 => w(".git/info/exclude", IGN[k].0), 3 => w("sub/.gitignore", IGN[k].0),
        _ => { mkdir("/tmp/vpw/h"); mkdir("/tmp/vpw/h/.config"); mkdir("/tmp/vpw/h/.config/git"); put("/tmp/vpw/h/.config/git/ignore", IGN[k].0.as_bytes()); }
    }
    if git && o != 2 {
        for x in IGN[k].1 { unsafe {
            if wher == 3 { if !x.starts_with("sub/") && k != 3 { continue; } if k == 3 { GONE.push("sub/foo".into()); continue; } }
            GONE.push(x.to_string());
        } }
    }
    run(match o { 0 => &[], 1 => &["--gitignore=true"], _ => &["--gitignore=false"] })
}

// ---- manifests ----
static mut TEXT: String = String::new();
static mut PATH: String = String::new();
static mut MAN: &str = "Cargo.toml";
fn norm(p: &str) -> String { let mut v: Vec<&str> = vec![]; for c in p.split('/') { match c { "" | "." => (), ".." => { v.pop(); } _ => v.push(c) } } format!("/{}", v.join("/")) }
/// does the path ever lead above its start?
fn climbs(p: &str) -> bool { if p.starts_with('/') { return false; } let mut d = 0i32; for c in p.split('/') { match c { "" | "." => (), ".." => { d -= 1; if d < 0 { return true; } } _ => d += 1 } } false }
/// the manifest in the copy is the one in the source, with exactly the paths that lead out of the tree made absolute
fn see_manifest(d: &str) {
    unsafe {
        let got = text(&format!("{d}/{MAN}"));
        let Ok(g) = got.parse::<toml::Value>() else { vp::fail("the manifest in the copy is not valid TOML"); return; };
        let o: toml::Value = TEXT.parse().unwrap();
        same_value(&g, &o, "");
        vp::cover(if climbs(&PATH) { "outside" } else { "inside" });
    }
}
fn same_value(g: &toml::Value, o: &toml::Value, at_: &str) {
    use toml::Value::*;
    match (g, o) {
        (Table(a), Table(b)) => {
            if a.len() != b.len() { vp::fail(&format!("{at_}: the copy's manifest has other keys")); }
            for (k, v) in b { match a.get(k) { Some(x) => same_value(x, v, &format!("{at_}.{k}")), None => vp::fail(&format!("{at_}.{k} is missing in the copy's manifest")) } }
        }
        (Array(a), Array(b)) => { if a.len() != b.len() { vp::fail(&format!("{at_}: lengths differ")); } for (x, y) in a.iter().zip(b) { same_value(x, y, at_); } }
        (String(a), String(b)) => {
            let is_path = b.starts_with("") && (at_.ends_with(".path") || at_ == ".paths") && !at_.starts_with(".package") && !at_.starts_with(".lib");
            if is_path && climbs(b) {
                if !a.starts_with('/') || norm(a) != norm(&format!("{W}/{b}")) { vp::fail(&format!("{at_} is {a:?} in the copy; in the source it is {b:?}, which leads out of the tree")); }
            } else if a != b { vp::fail(&format!("{at_} is {a:?} in the copy, {b:?} in the source")); }
        }
        _ => if g != o { vp::fail(&format!("{at_} differs in the copy's manifest")); }
    }
}
fn man(t: std::string::String, file: &'static str, p: &str, a: &[&str]) {
    unsafe { TEXT = t.clone(); PATH = p.to_string(); MAN = file; CHANGED.push(file); SEE = Some(see_manifest); }
    if file != "Cargo.toml" { mkdir(&at(".cargo")); }
    w(file, &t);
    run(a)
}
/// every path of up to four bytes over dot, slash and x
#[inline(never)]
pub fn manifest_text() {
    base();
    let n = 1 + vp::pick("length", 4) as usize;
    let mut b = vec![];
    for _ in 0..n { b.push(vp::concretize(vp::byte_of("path", b"./x") as u64) as u8); }
    let p = unsafe { String::from_utf8_unchecked(b) };
    man(format!("{TOML}[dependencies]\nother = \"1\"\nd = {{ path = \"{p}\", version = \"1.0\" }}\n"), "Cargo.toml", &p, &[])
}
const PATHS: [&str; 8] = ["../d", "d", "../../d/e", "x/../../d", "./../d", "/abs/d", "x/../d", ".."];
#[inline(never)]
pub fn manifest_tables() {
    base();
    let p = PATHS[vp::pick("path", 8) as usize];
    let k = vp::pick("table", 12);
    let t = match k {
        0 => format!("[dependencies]\nd = {{ path = \"{p}\" }}\n"), 1 => format!("[dev-dependencies.d]\npath = \"{p}\"\nfeatures = ['a', 'b']\n"), 2 => format!("[build-dependencies]\nd = {{ path = '{p}', optional = true }}\n"),
        3 => format!("[target.'cfg(unix)'.dependencies]\nd = {{ path = \"{p}\" }}\n"), 4 => format!("[target.x86_64-unknown-linux-gnu.dev-dependencies.d]\npath = \"{p}\"\n"), 5 => format!("[workspace]\nmembers = ['a']\n[workspace.dependencies]\nd = {{ path = \"{p}\" }}\n"),
        6 => format!("[replace]\n'd:0.1.0' = {{ path = \"{p}\" }}\n"), 7 => format!("[patch.crates-io]\nd = {{ path = \"{p}\" }}\ne = {{ git = 'https://x' }}\n"), 8 => format!("[patch.'https://github.com/a/b']\nd = {{ path = \"{p}\" }}\n[patch.crates-io.e]\npath = \"../e\"\n"),
        9 => format!("[dependencies]\nd = '1'\ne = {{ path = \"{p}\" }}\nf = {{ path = '../f' }}\n[lib]\nname = 'q'\n[package.metadata.m]\nn = '../x'\n"),
        10 => format!("[target.'cfg(windows)'.build-dependencies]\nd = {{ path = \"{p}\" }}\n"), _ => format!("[dependencies.d]\npath = \"{p}\"\npackage = '../p'\n[features]\ndefault = ['../f']\n"),
    };
    man(format!("{TOML}{t}"), "Cargo.toml", p, &[])
}
#[inline(never)]
pub fn manifest_config() {
    base();
    let p = PATHS[vp::pick("path", 8) as usize];
    let q = PATHS[vp::pick("second path", 8) as usize];
    vp::assume(p != q);
    man(format!("paths = [\"{p}\", \"{q}\"]\n[build]\ntarget-dir = 'x'\n[env]\nA = '../e'\n"), ".cargo/config.toml", if climbs(p) { p } else { q }, &[])
}
/// in place, and where nothing needs to change, manifests stay as they are byte for byte
#[inline(never)]
pub fn manifest_bytes() {
    base();
    let ip = vp::any_bool("--in-place");
    let p = if ip { PATHS[vp::pick("path", 8) as usize] } else { ["d", "/abs/d", "x/../d", "."][vp::pick("path", 4) as usize] };
    w("Cargo.toml", &format!("# comment\n{TOML}[dependencies]\n  d   = {{ path= '{p}' }} # odd spacing\n"));
    mkdir(&at(".cargo"));
    w(".cargo/config.toml", &format!("# comment\npaths  = [ '{p}' ]\n"));
    // links to files in the source tree are not written through
    unsafe { IN_PLACE = ip; }
    run(if ip { &["--in-place"] } else { &[] })
}
/// manifests that are links to files elsewhere: what they point to is left alone
static mut LINKS: u64 = 0;
fn see_links(d: &str) { unsafe { vp::check(same("/tmp/vpw/shared", LINKS, &[]), "a file that the source tree links to was changed"); see_manifest(d); } }
#[inline(never)]
pub fn manifest_links() {
    base();
    let which = vp::any_bool("configuration");
    mkdir("/tmp/vpw/shared");
    let t = if which { "paths = ['../d']\n".to_string() } else { format!("{TOML}[dependencies]\nd = {{ path = '../d' }}\n") };
    put("/tmp/vpw/shared/m", t.as_bytes());
    w("m", &t);
    let f = if which { ".cargo/config.toml" } else { "Cargo.toml" };
    if which { mkdir(&at(".cargo")); } else { rm(&at("Cargo.toml")); }
    symlink(match vp::pick("link", 3) { 0 => if which { "../m" } else { "m" }, 1 => "/tmp/vpw/w/m", _ => "/tmp/vpw/shared/m" }, &at(f));
    unsafe { TEXT = t; PATH = "../d".into(); MAN = f; CHANGED.push(f); LINKS = snap("/tmp/vpw/shared"); SEE = Some(see_links); }
    run(&[])
}
