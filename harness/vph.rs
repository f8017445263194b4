//! Shared parts of the whole-program harnesses: the tree, the modelled cargo, and readers for what the program wrote.
#![allow(dead_code, unused, static_mut_refs)]
use crate::vp;
use std::ffi::CString;

pub const W: &str = "/tmp/vpw/w";
pub const T: &str = "/tmp/vpw/t";
pub const CARGO: &str = "/tmp/vpw/bin/cargo";
pub const MARK: &str = " /* ~ changed by cargo-mutants ~ */";

fn c(s: &str) -> CString { CString::new(s).unwrap() }
fn cb(s: &[u8]) -> Vec<u8> { let mut v = s.to_vec(); v.push(0); v }
pub fn arg(s: &str) { let s = cb(s.as_bytes()); vp::pxctl(30, s.as_ptr() as u64, 0); }
pub fn argb(s: &[u8]) { let s = cb(s); vp::pxctl(30, s.as_ptr() as u64, 0); }
pub fn args(v: &[&str]) { for a in v { arg(a); } }
pub fn env(k: &str, v: &str) { let (k, v) = (c(k), c(v)); vp::pxctl(20, k.as_ptr() as u64, v.as_ptr() as u64); }
pub fn cwd(p: &str) { let p = c(p); vp::pxctl(34, p.as_ptr() as u64, 0); }
pub fn put(p: &str, d: &[u8]) { let p = c(p); let x = [d.as_ptr() as u64, d.len() as u64]; vp::pxctl(44, p.as_ptr() as u64, x.as_ptr() as u64); }
pub fn w(rel: &str, d: &str) { put(&at(rel), d.as_bytes()); }
pub fn at(rel: &str) -> String { let mut s = String::from(W); s.push('/'); s.push_str(rel); s }
pub fn mkdir(p: &str) { let p = c(p); vp::pxctl(49, p.as_ptr() as u64, 0); }
pub fn symlink(t: &str, p: &str) { let (t, p) = (c(t), c(p)); vp::pxctl(47, t.as_ptr() as u64, p.as_ptr() as u64); }
pub fn chmod(p: &str, m: u32) { let p = c(p); vp::pxctl(48, p.as_ptr() as u64, m as u64); }
pub fn rm(p: &str) { let p = c(p); vp::pxctl(54, p.as_ptr() as u64, 0); }
pub fn read(p: &str) -> Option<Vec<u8>> {
    let p = c(p);
    let n = vp::pxctl(42, p.as_ptr() as u64, 0);
    if n == u64::MAX { return None; }
    let mut v = vec![0u8; n as usize];
    if n > 0 { vp::pxctl(42, p.as_ptr() as u64, v.as_mut_ptr() as u64); }
    Some(v)
}
pub fn text(p: &str) -> String { match read(p) { Some(v) => unsafe { String::from_utf8_unchecked(v) }, None => { vp::fail(&format!("there is no file {p}")); String::new() } } }
/// everything under p: kind letter then relative path
pub fn list(p: &str) -> Vec<String> {
    let p = c(p);
    let n = vp::pxctl(43, p.as_ptr() as u64, 0);
    let mut v = vec![0u8; n as usize];
    if n > 0 { vp::pxctl(43, p.as_ptr() as u64, v.as_mut_ptr() as u64); }
    v.split(|b| *b == 0).filter(|s| !s.is_empty()).map(|s| String::from_utf8(s.to_vec()).unwrap()).collect()
}
pub fn exists(p: &str) -> bool { let p = c(p); vp::pxctl(52, p.as_ptr() as u64, 0) != u64::MAX }
pub fn snap(p: &str) -> u64 { let p = c(p); vp::pxctl(40, p.as_ptr() as u64, 0) }
/// is the tree at p equal to the snapshot, leaving out these relative paths?
pub fn same(p: &str, snap: u64, except: &[&str]) -> bool {
    vp::pxctl(46, 0, 0);
    for e in except { let e = c(e); vp::pxctl(46, e.as_ptr() as u64, 0); }
    let p = c(p);
    vp::pxctl(41, p.as_ptr() as u64, snap) != 0
}
pub fn out(k: u64) -> String {
    let n = vp::pxctl(29, 0, k) as usize;
    let mut v = vec![0u8; n];
    if n > 0 { vp::pxctl(29, v.as_mut_ptr() as u64, k); }
    unsafe { String::from_utf8_unchecked(v) }
}
pub fn stdout() -> String { out(1) }
pub fn stderr() -> String { out(2) }
pub fn exit_code() -> i32 { vp::pxctl(33, 0, 0) as i32 }
pub fn json(t: &str, q: &str) -> Option<String> {
    let q = c(q);
    let x = [t.as_ptr() as u64, t.len() as u64, q.as_ptr() as u64];
    let n = vp::pxctl(55, x.as_ptr() as u64, 0);
    if n == u64::MAX { return None; }
    let mut v = vec![0u8; n as usize];
    if n > 0 { vp::pxctl(55, x.as_ptr() as u64, v.as_mut_ptr() as u64); }
    Some(unsafe { String::from_utf8_unchecked(v) })
}
// ---- the child that was just spawned ----
pub fn child_argv() -> Vec<String> {
    let n = vp::pxctl(6, 0, 0);
    let mut r = vec![];
    let mut b = vec![0u8; 2048];
    for i in 0..n { let k = vp::pxctl(7, i, b.as_mut_ptr() as u64) as usize; r.push(unsafe { String::from_utf8_unchecked(b[..k].to_vec()) }); }
    r
}
pub fn child_cwd() -> String { let mut b = vec![0u8; 2048]; let k = vp::pxctl(8, b.as_mut_ptr() as u64, 0) as usize; b.truncate(k); String::from_utf8(b).unwrap() }
pub fn child_env(k: &str) -> Option<String> { let k = c(k); let mut b = vec![0u8; 2048]; let n = vp::pxctl(9, k.as_ptr() as u64, b.as_mut_ptr() as u64); if n == u64::MAX { return None; } b.truncate(n as usize); Some(unsafe { String::from_utf8_unchecked(b) }) }
pub fn child_out(s: &str) { vp::pxctl(32, s.as_ptr() as u64, s.len() as u64); }
/// raw wait status (may be symbolic), and how many polls see it still running (u64::MAX: it never ends by itself)
pub fn child_status(raw: u64, polls: u64) { vp::pxctl(5, raw, polls); }
/// the injected failure, or "" if there was none on this path
pub fn fault() -> String { let n = vp::pxctl(56, 0, 0) as usize; let mut v = vec![0u8; n]; if n > 0 { vp::pxctl(56, v.as_mut_ptr() as u64, 0); } String::from_utf8(v).unwrap() }
pub fn interrupted() -> bool { vp::pxctl(25, 0, 0) != 0 }
pub fn children() -> u64 { vp::pxctl(14, 0, 0) }

// ---- packages for `cargo metadata` ----
pub struct Pkg { pub name: &'static str, pub dir: &'static str, pub targets: &'static [(&'static str, &'static str)] }
pub const P1: &[Pkg] = &[Pkg { name: "p", dir: "", targets: &[("lib", "src/lib.rs")] }];
pub fn meta(pk: &[Pkg]) -> String {
    let mut s = String::from("{\"packages\":[");
    let mut ids = String::new();
    for (i, p) in pk.iter().enumerate() {
        let dir = if p.dir.is_empty() { W.to_string() } else { at(p.dir) };
        if i > 0 { s.push(','); ids.push(','); }
        let id = format!("\"path+file://{dir}#{}@0.1.0\"", p.name);
        ids.push_str(&id);
        s += &format!("{{\"name\":\"{}\",\"version\":\"0.1.0\",\"id\":{id},\"license\":null,\"license_file\":null,\"description\":null,\"source\":null,\"dependencies\":[],\"targets\":[", p.name);
        for (j, (k, f)) in p.targets.iter().enumerate() {
            if j > 0 { s.push(','); }
            s += &format!("{{\"kind\":[\"{k}\"],\"crate_types\":[\"{k}\"],\"name\":\"{}\",\"src_path\":\"{dir}/{f}\",\"edition\":\"2021\",\"doc\":true,\"doctest\":true,\"test\":true}}", p.name);
        }
        s += &format!("],\"features\":{{}},\"manifest_path\":\"{dir}/Cargo.toml\",\"metadata\":null,\"publish\":null,\"authors\":[],\"categories\":[],\"keywords\":[],\"readme\":null,\"repository\":null,\"homepage\":null,\"documentation\":null,\"edition\":\"2021\",\"links\":null,\"default_run\":null,\"rust_version\":null}}");
    }
    s += &format!("],\"workspace_members\":[{ids}],\"workspace_default_members\":[{ids}],\"resolve\":null,\"target_directory\":\"{W}/target\",\"version\":1,\"workspace_root\":\"{W}\",\"metadata\":null}}");
    s
}
/// Answers the `cargo locate-project` and `cargo metadata` queries; true if this child was one of them.
pub fn answer(pk: &[Pkg], a: &[String]) -> bool {
    match a.get(1).map(|s| s.as_str()) {
        Some("locate-project") => {
            let cw = child_cwd();
            // the package whose directory holds the working directory, or the workspace
            let mut best = String::from(W);
            if !a.iter().any(|x| x == "--workspace") {
                let d = if cw.starts_with('/') { cw } else { let r = run_cwd(); if cw == "." { r } else { format!("{r}/{cw}") } };
                for p in pk { let pd = if p.dir.is_empty() { W.to_string() } else { at(p.dir) }; if d.starts_with(&pd) && pd.len() > best.len() { best = pd; } }
            }
            child_out(&format!("{{\"root\":\"{best}/Cargo.toml\"}}\n"));
            true
        }
        Some("metadata") => { child_out(&meta(pk)); true }
        _ => false,
    }
}
static mut RUN_CWD: Option<String> = None;
pub fn run_cwd() -> String { unsafe { RUN_CWD.clone().unwrap() } }
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Ph { Check, Build, Test }
pub fn phase(a: &[String]) -> Ph {
    if a[1] == "check" { Ph::Check } else if a.iter().any(|x| x == "--no-run") { Ph::Build } else { Ph::Test }
}
pub const TOML: &str = "[package]\nname = \"p\"\nversion = \"0.1.0\"\nedition = \"2021\"\n";
/// Directories and environment every scenario starts with.
pub fn base() {
    mkdir(&at("src"));
    mkdir(T);
    w("Cargo.toml", TOML);
    env("CARGO", CARGO);
    env("TMPDIR", T);
    cwd(W);
    unsafe { RUN_CWD = Some(W.to_string()); }
}
pub fn start_in(p: &str) { cwd(p); unsafe { RUN_CWD = Some(p.to_string()); } }
pub fn hooks(spawn: fn(), exit: fn()) {
    vp::pxctl(4, spawn as usize as u64, 0);
    vp::pxctl(31, exit as usize as u64, 0);
}
pub fn begin(a: &[&str]) { arg("cargo-mutants"); arg("mutants"); for x in a { arg(x); } }
/// runs the program; it ends in the exit hook
pub fn go() {
    vp::pxctl(45, 0, 0);
    let r = super::main();
    // what std's runtime does with main's result
    match r { Ok(()) => std::process::exit(0), Err(e) => { eprintln!("Error: {e:?}"); std::process::exit(1) } }
}
// ---- mutants a scenario expects ----
#[derive(Clone)]
pub struct Mu { pub file: &'static str, pub name: String, pub before: Vec<u8>, pub repl: &'static str, pub after: Vec<u8> }
impl Mu {
    /// does `got` hold the file with exactly this change?
    pub fn is(&self, got: &[u8]) -> bool {
        let p = self.before.len();
        let r = self.repl.len();
        let plain = p + r + self.after.len();
        if got.len() != plain && got.len() != plain + MARK.len() { return false; }
        let m = got.len() - plain;
        let a = got[..p] == self.before[..];
        if !a { return false; }
        if &got[p..p + r] != self.repl.as_bytes() { return false; }
        if m != 0 && &got[p + r..p + r + m] != MARK.as_bytes() { return false; }
        got[p + r + m..] == self.after[..]
    }
}
/// `mark` selects the text to replace: the source has it as {{text}}
pub fn mu(file: &'static str, marked: &str, repl: &'static str, what: &str) -> Mu {
    let a = marked.find("{{").unwrap();
    let b = marked.find("}}").unwrap();
    let (mut line, mut col) = (1, 1);
    for ch in marked[..a].chars() { if ch == '\n' { line += 1; col = 1; } else { col += 1; } }
    Mu { file, name: format!("{file}:{line}:{col}: {what}"), before: marked[..a].as_bytes().to_vec(), repl, after: marked[b + 2..].as_bytes().to_vec() }
}
pub fn lines(p: &str) -> Vec<String> { text(p).lines().map(|s| s.to_string()).collect() }
pub fn outp(rel: &str) -> String { format!("{W}/mutants.out/{rel}") }

// ---- a run over a known set of sources: which mutant is a cargo command looking at? ----
pub struct Lab { pub snap: u64, pub files: Vec<(&'static str, Vec<u8>)>, pub muts: Vec<Mu>, pub in_place: bool, pub seen: Vec<Seen>, pub extra: Vec<&'static str> }
#[derive(Clone)]
pub struct Seen { pub who: i32, pub ph: Ph, pub dir: String, pub argv: Vec<String>, pub r: Res }
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Res { Exit(u64), Sig, Hang }
pub fn okr(r: Res) -> bool { match r { Res::Exit(c) => c == 0, _ => false } }
pub static mut LAB: Option<Lab> = None;
pub fn lab() -> &'static mut Lab { unsafe { LAB.as_mut().unwrap() } }
/// puts the sources down, and remembers the tree as it is now
pub fn lab_start(files: &[(&'static str, &str)], muts: Vec<Mu>) {
    for (f, t) in files { w(f, t); }
    let l = Lab { snap: snap(W), files: files.iter().map(|(f, t)| (*f, t.as_bytes().to_vec())).collect(), muts, in_place: false, seen: vec![], extra: vec![] };
    unsafe { LAB = Some(l); }
}
/// -1 for the unmutated tree, or the index of the one mutant the tree in `dir` differs by; anything else is a violation
pub fn which(dir: &str) -> i32 {
    let l = lab();
    let mut changed: Option<usize> = None;
    for (i, (f, t)) in l.files.iter().enumerate() {
        let got = read(&format!("{dir}/{f}"));
        let Some(got) = got else { vp::fail(&format!("cargo was run in {dir} where {f} is missing")); return -2; };
        if got != *t {
            if changed.is_some() { vp::fail("cargo was run on a tree with two changed files"); }
            changed = Some(i);
        }
    }
    let Some(i) = changed else { return -1 };
    let got = read(&format!("{dir}/{}", l.files[i].0)).unwrap();
    for (k, m) in l.muts.iter().enumerate() { if m.file == l.files[i].0 && m.is(&got) { return k as i32; } }
    vp::note(&String::from_utf8_lossy(&got));
    vp::fail(&format!("{} holds neither the original text nor one of the expected mutants", l.files[i].0));
    -2
}
/// checks the tree the new child runs in, and records it; the caller gives the child a result with `result`
pub fn observe() -> (i32, Ph) {
    let a = child_argv();
    let ph = phase(&a);
    let d = child_cwd();
    let k = which(&d);
    let l = lab();
    let m: &str = if k >= 0 { l.muts[k as usize].file } else { "" };
    let mut ex: Vec<&str> = vec!["mutants.out", "mutants.out.old"];
    ex.extend(l.extra.iter());
    if l.in_place {
        vp::check(d == W, "with --in-place, cargo runs in the source tree");
        if k >= 0 { ex.push(m); }
        if !same(W, l.snap, &ex) { vp::fail("with --in-place, the source tree differs from the original by more than the mutated file"); }
    } else {
        vp::check(d != W && d.starts_with(T), "cargo runs in a copy under the temporary directory");
        if !same(W, l.snap, &ex) { vp::fail("the source tree was changed"); }
        if k >= 0 { ex.push(m); }
        if !same(&d, l.snap, &ex) { vp::fail("the copy differs from the source tree by more than the mutated file"); }
    }
    l.seen.push(Seen { who: k, ph, dir: d, argv: a, r: Res::Exit(0) });
    (k, ph)
}
pub fn result(r: Res) {
    match r { Res::Exit(c) => child_status(c << 8, 1), Res::Sig => child_status(9, 1), Res::Hang => child_status(0, u64::MAX) }
    lab().seen.last_mut().unwrap().r = r;
}
/// success or failure (101), chosen by the solver
pub fn result_any(name: &str) -> bool { let f = vp::any_bool(name); result(Res::Exit(if f { 101 } else { 0 })); !f }
/// the source tree is as it was, apart from the output directory
pub fn source_untouched() {
    let l = lab();
    let mut ex: Vec<&str> = vec!["mutants.out", "mutants.out.old"];
    ex.extend(l.extra.iter());
    if !same(W, l.snap, &ex) { vp::fail("after the run, the source tree is not as it was before"); }
}
pub fn no_temp() { let v = list(T); if !v.is_empty() { vp::fail(&format!("temporary files were left behind: {v:?}")); } }
/// The verdict lists that the observed children imply, the exit code, and how many mutants were tested
pub fn verdicts(check_only: bool, baseline: bool) -> (Vec<Vec<String>>, i32, usize) {
    let l = lab();
    let mut v: Vec<Vec<String>> = vec![vec![], vec![], vec![], vec![]]; // missed caught timeout unviable
    let mut order: Vec<i32> = vec![];
    for s in &l.seen { if !order.contains(&s.who) { order.push(s.who); } }
    let mut tested = 0;
    let mut failed_base = false;
    for who in order {
        let s = l.seen.iter().filter(|s| s.who == who).last().unwrap();
        if who == -1 { if !okr(s.r) { failed_base = true; } continue; }
        tested += 1;
        if who < 0 { continue; }
        let n = l.muts[who as usize].name.clone();
        match s.r {
            Res::Hang => v[2].push(n),
            Res::Sig => (),
            Res::Exit(c) => if c != 0 { if s.ph == Ph::Test { v[1].push(n) } else { v[3].push(n) } } else if !check_only { v[0].push(n) },
        }
    }
    let code = if failed_base { 4 } else if !v[2].is_empty() { 3 } else if !v[0].is_empty() { 2 } else { 0 };
    (v, code, tested)
}
/// each scenario ran its phases once, in order, in one directory, stopping at the first failure
pub fn protocol(check_only: bool) {
    let l = lab();
    let seq: &[Ph] = if check_only { &[Ph::Check] } else { &[Ph::Build, Ph::Test] };
    for who in -1..l.muts.len() as i32 {
        let s: Vec<&Seen> = l.seen.iter().filter(|s| s.who == who).collect();
        if s.is_empty() { continue; }
        for (i, x) in s.iter().enumerate() {
            if i >= seq.len() || x.ph != seq[i] { vp::fail(&format!("scenario {who} ran {:?} as its command number {}", x.ph, i + 1)); }
            if x.dir != s[0].dir { vp::fail(&format!("scenario {who} ran in two directories")); }
            if i + 1 < s.len() && !okr(x.r) { vp::fail(&format!("scenario {who} went on after {:?} did not succeed", x.ph)); }
        }
        if okr(s[s.len() - 1].r) && s.len() < seq.len() { vp::fail(&format!("scenario {who} ended before its tests were run")); }
    }
}
pub const LISTS: [&str; 4] = ["missed.txt", "caught.txt", "timeout.txt", "unviable.txt"];
pub fn check_lists(v: &[Vec<String>]) { for (f, want) in LISTS.iter().zip(v) { let got = lines(&outp(f)); if got != *want { vp::fail(&format!("{f} holds {got:?}, expected {want:?}")); } } }
/// the same without regard to order
pub fn check_sets(v: &[Vec<String>]) { for (f, want) in LISTS.iter().zip(v) { let (mut got, mut want) = (lines(&outp(f)), want.clone()); got.sort(); want.sort(); if got != want { vp::fail(&format!("{f} holds {got:?}, expected {want:?}")); } } }
/// the counts in outcomes.json
pub fn check_counts(v: &[Vec<String>], tested: usize, success: usize) {
    let t = text(&outp("outcomes.json"));
    for (k, n) in [("total_mutants", tested), ("missed", v[0].len()), ("caught", v[1].len()), ("timeout", v[2].len()), ("unviable", v[3].len()), ("success", success)] {
        let g = json(&t, k);
        if g != Some(n.to_string()) { vp::fail(&format!("outcomes.json {k} is {g:?}, expected {n}")); }
    }
}
pub fn expect_exit(code: i32) { let g = exit_code(); if g != code { vp::fail(&format!("exit code {g}, expected {code}")); } }

// ---- runs that only list ----
/// a listing run starts only the two queries to cargo
pub fn list_spawn() { let a = child_argv(); if !answer(P1, &a) { vp::fail(&format!("a listing run started {a:?}")); } }
pub fn check_listed(want: &[&str]) {
    let out = stdout();
    let got: Vec<&str> = out.lines().collect();
    if got.len() != want.len() || got.iter().zip(want).any(|(a, b)| a != b) { vp::fail(&format!("listed {got:?}, expected {want:?}")); }
}
pub fn nothing_written() {
    let l = lab();
    if !same(W, l.snap, &[]) { vp::fail("a run that tests nothing changed the source tree"); }
    no_temp();
}
/// every process that was started has ended and been waited for
pub fn children_gone() {
    for i in 0..children() { let b = vp::pxctl(15, i, 0); if b & 1 == 0 { vp::fail(&format!("process number {i} was left running or was not waited for")); } }
}
