//! --in-diff: exactly the mutants whose code overlaps what the diff changed.
#![allow(dead_code, unused, static_mut_refs)]
use crate::vp;
use crate::vph::*;

const LIB: &str = "pub fn f() {\n    a()\n}\n\npub fn g() {\n    b();\n    c();\n}\npub fn h() -> bool { d() }\n";
const MU: [(&str, usize, usize); 4] = [
    ("src/lib.rs:2:5: replace f with ()", 2, 2), ("src/lib.rs:6:5: replace g with ()", 6, 7),
    ("src/lib.rs:9:22: replace h -> bool with true", 9, 9), ("src/lib.rs:9:22: replace h -> bool with false", 9, 9),
];
static mut TOUCHED: [bool; 16] = [false; 16];
static mut ERR: bool = false;
fn on_exit() {
    unsafe {
        nothing_written();
        if ERR { vp::check(exit_code() == 1, "a diff that does not fit is an error"); vp::check(stdout().is_empty(), "and lists nothing"); vp::cover("rejected"); return; }
        expect_exit(0);
        let mut want: Vec<&str> = vec![];
        for (n, a, b) in MU { if (a..=b).any(|l| TOUCHED[l]) { want.push(n); } }
        check_listed(&want);
        if want.len() == MU.len() { vp::cover("all"); } else if want.is_empty() { vp::cover("none"); } else { vp::cover("some"); }
    }
}
fn start() { base(); lab_start(&[("src/lib.rs", LIB)], vec![]); hooks(list_spawn, on_exit); begin(&["--list", "--in-diff", "/tmp/vpw/x.diff"]); unsafe { TOUCHED = [false; 16]; } }
fn finish(d: &str) { put("/tmp/vpw/x.diff", d.as_bytes()); go() }
/// one hunk over the lines s..s+n of the new file: each added or context, with a deletion before line `del` (s..=s+n) or none
fn hunk(s: usize, n: usize, add: &[bool], del: Option<usize>, text: &[&str]) -> Vec<u8> {
    let mut o = n as u64;
    let mut b: Vec<u8> = vec![];
    // no branching on `add`: the program takes the decision when it reads the diff
    let touch = |l: usize, c: bool| unsafe { if l >= 1 && l <= 15 { TOUCHED[l] = TOUCHED[l] | c; } };
    for i in 0..=n {
        if del == Some(s + i) { b.extend_from_slice(b"-    gone();\n"); o += 1; touch(s + i, true); touch(s + i - 1, true); }
        if i == n { break; }
        b.push(vp::select_u64(add[i], b'+' as u64, b' ' as u64) as u8);
        o -= vp::select_u64(add[i], 1, 0);
        touch(s + i, add[i]);
        b.extend_from_slice(text[i].as_bytes());
        b.push(b'\n');
    }
    // a side with no lines names the line before it
    let start = if n == 0 { s - 1 } else { s };
    let os = vp::select_u64(o == 0, s as u64 - 1, s as u64);
    let mut h: Vec<u8> = b"@@ -".to_vec();
    h.push(b'0' + os as u8); h.push(b','); h.push(b'0' + o as u8);
    h.extend_from_slice(format!(" +{start},{n} @@\n").as_bytes());
    h.extend(b);
    h
}
fn lines_of() -> Vec<&'static str> { LIB.lines().collect() }
fn one(path: &str) {
    start();
    let l = lines_of();
    let n = vp::pick("lines in hunk", 3) as usize + 1;
    let s = vp::pick("first line of hunk", 9) as usize + 1;
    vp::assume(s + n <= 10);
    let mut add = [false; 3];
    for i in 0..n { add[i] = vp::any_bool("added"); }
    let d = vp::pick("deletion before line", 5) as usize;
    // tools show a deletion at the end of a hunk only at the end of the file
    vp::assume(d <= n || (d == n + 1 && s + n == 10));
    let del = if d == 0 { None } else { Some(s + d - 1) };
    let h = hunk(s, n, &add, del, &l[s - 1..s - 1 + n]);
    let mut d = format!("--- a/src/lib.rs\n+++ {path}\n").into_bytes();
    d.extend(h);
    put("/tmp/vpw/x.diff", &d);
    go()
}
#[inline(never)]
pub fn diff_hunk() { one("b/src/lib.rs") }
/// two hunks with no context at all, as from `git diff -U0`
#[inline(never)]
pub fn diff_u0() {
    start();
    let l = lines_of();
    let k = vp::pick("second hunk", 3);
    let a = vp::pick("first hunk at line", 5) as usize + 1;
    let da = vp::any_bool("first hunk deletes");
    let b = if k == 0 { 6 } else { vp::pick("second hunk at line", 4) as usize + 6 };
    let mut d = b"diff --git a/src/lib.rs b/src/lib.rs\nindex 1..2 100644\n--- a/src/lib.rs\n+++ b/src/lib.rs\n".to_vec();
    d.extend(if da { hunk(a, 0, &[], Some(a), &[]) } else { hunk(a, 1, &[true], None, &l[a - 1..a]) });
    if k == 1 { d.extend(hunk(b, 0, &[], Some(b), &[])); }
    if k == 2 { d.extend(hunk(b, 1, &[true], Some(b), &l[b - 1..b])); }
    put("/tmp/vpw/x.diff", &d);
    go()
}
/// which file the diff names, and how
#[inline(never)]
pub fn diff_path() {
    start();
    let l = lines_of();
    let k = vp::pick("path", 8);
    let h = "@@ -6,2 +6,2 @@\n+    b();\n-    x();\n     c();\n";
    let mut d = String::new();
    let mut hit = true;
    match k {
        0 => d += &format!("--- a/src/lib.rs\n+++ b/src/lib.rs\n{h}"),
        1 => d += &format!("--- src/lib.rs\n+++ src/lib.rs\n{h}"),
        2 => d += &format!("--- a/src/lib.rs\t2023-11-12 13:05:25.774658230 -0800\n+++ b/src/lib.rs\t2023-11-12 12:54:04.373806696 -0800\n{h}"),
        3 => { d += "--- a/src/lib.rs\n+++ /dev/null\n@@ -1,1 +0,0 @@\n-x\n"; hit = false; }
        4 => { d += &format!("--- a/src/other.rs\n+++ b/src/other.rs\n{h}"); hit = false; }
        5 => { d += &format!("--- a/lib.rs\n+++ b/lib.rs\n{h}"); hit = false; }
        6 => d += &format!("Binary files a/x.png and b/x.png differ\n--- a/src/lib.rs\n+++ b/src/lib.rs\n{h}"),
        _ => d += &format!("--- a/README\n+++ b/README\n@@ -1,1 +1,1 @@\n-x\n+y\n--- a/src/lib.rs\n+++ b/src/lib.rs\n{h}"),
    }
    if hit { unsafe { TOUCHED[6] = true; TOUCHED[7] = true; } }
    finish(&d)
}
/// the diff's idea of the new text must match the tree: one symbolic byte of a context or added line
#[inline(never)]
pub fn diff_mismatch() {
    start();
    let c = vp::byte_of("byte", b"abcd();{ ");
    let add = vp::any_bool("added");
    let pos = vp::pick("position", 3);
    let mut v = b"    b();".to_vec();
    let i = [3, 4, 7][pos as usize];
    let ok = v[i] == c;
    v[i] = c;
    let mut d = b"--- a/src/lib.rs\n+++ b/src/lib.rs\n@@ -5,2 +5,3 @@\n pub fn g() {\n".to_vec();
    d.push(if add { b'+' } else { b' ' });
    d.extend_from_slice(&v);
    d.extend_from_slice(b"\n+    c();\n");
    unsafe { TOUCHED[7] = true; TOUCHED[6] = add; ERR = !ok; }
    put("/tmp/vpw/x.diff", &d);
    go()
}
/// nothing in the diff
#[inline(never)]
pub fn diff_empty() {
    start();
    let t = vp::one_of("diff", &["", "\n", "Binary files a/x and b/x differ\n", " \n\n"]);
    finish(t)
}
