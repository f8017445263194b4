//! A mutant is exactly the change that its name, its JSON and its diff say it is.
#![allow(dead_code, unused, static_mut_refs)]
use crate::vp;
use crate::vph::*;

/// One character whose bytes the solver chooses: the class (and so its length) is case-split.
fn ch(name: &str, out: &mut Vec<u8>, classes: &[u32]) {
    match classes[vp::pick(name, classes.len() as u32) as usize] {
        0 => { let b = vp::any_u8(name); vp::assume(b >= 0x20 && b < 0x7f && b != b'*' && b != b'/' && b != b'!' && b != b'"' && b != b'\\' && b != b'\''); out.push(b); }
        1 => { let b = vp::any_u8(name); vp::assume(b >= 0x80 && b < 0xc0); out.extend([0xc3, b]); }
        2 => { let b = vp::any_u8(name); vp::assume(b >= 0x80 && b < 0xc0); out.extend([0xe2, 0x82, b]); }
        3 => { let b = vp::any_u8(name); vp::assume(b >= 0x80 && b < 0xc0); out.extend([0xf0, 0x9f, 0x98, b]); }
        4 => out.push(b'\t'),
        5 => out.push(b'\n'),
        6 => out.push(b'\r'),
        7 => out.extend(b"\r\n"),
        8 => {}
        _ => { let b = vp::any_u8(name); vp::assume(b >= 0x21 && b < 0x7f && b != b'"' && b != b'\\'); out.push(b); }
    }
}
/// positions in characters; a line ends at \n
fn pos(t: &[u8], at: usize) -> (usize, usize) {
    let (mut l, mut c) = (1, 1);
    for b in &t[..at] { if *b == b'\n' { l += 1; c = 1; } else if *b & 0xc0 != 0x80 { c += 1; } }
    (l, c)
}
struct M { file: &'static str, at: (usize, usize), end: (usize, usize), what: String, repl: &'static str, genre: &'static str, a: usize, b: usize }
static mut MS: Vec<M> = Vec::new();
static mut SRC: Vec<u8> = Vec::new();
fn find(t: &[u8], s: &str) -> usize { let s = s.as_bytes(); let mut i = 0; while i + s.len() <= t.len() { if &t[i..i + s.len()] == s { return i; } i += 1; } usize::MAX }
/// the source is `SRC`; the text from `from` to the end of `to` is replaced
fn m(from: &str, to: &str, repl: &'static str, genre: &'static str, what: &str) {
    unsafe {
        let a = find(&SRC, from);
        let b = a + find(&SRC[a..], to) + to.len();
        MS.push(M { file: "src/lib.rs", at: pos(&SRC, a), end: pos(&SRC, b), what: what.to_string(), repl, genre, a, b });
    }
}
fn name(x: &M) -> String { format!("{}:{}:{}: {}", x.file, x.at.0, x.at.1, x.what) }
fn list_exit() {
    unsafe {
        expect_exit(0);
        nothing_written();
        let out = stdout();
        let mut got: Vec<&str> = out.lines().collect();
        let want: Vec<String> = MS.iter().map(name).collect();
        for w in &want { if !got.contains(&w.as_str()) { vp::fail(&format!("{w} is not in the list {got:?}")); } }
        if got.len() != want.len() { vp::fail(&format!("listed {got:?}, expected {want:?}")); }
        vp::cover("listed");
    }
}
fn json_exit() {
    unsafe {
        expect_exit(0);
        nothing_written();
        check_json(&stdout());
        vp::cover("json");
    }
}
fn check_json(t: &str) {
    unsafe {
        if json(t, "#") != Some(MS.len().to_string()) { vp::fail(&format!("JSON has {:?} mutants, expected {}", json(t, "#"), MS.len())); }
        for x in &MS {
            let mut hit = false;
            for i in 0..MS.len() {
                let n = |k: &str| json(t, &format!("{i}/{k}")).unwrap_or_default();
                if n("span/start/line") == x.at.0.to_string() && n("span/start/column") == x.at.1.to_string() && n("span/end/line") == x.end.0.to_string() && n("span/end/column") == x.end.1.to_string()
                    && n("replacement") == x.repl && n("genre") == x.genre && n("file") == x.file && n("package") == "p" && n("function/function_name") == "f" { hit = true; }
            }
            if !hit { vp::fail(&format!("no JSON for {} to {:?}", name(x), x.end)); }
        }
    }
}
fn put_src(parts: &[&[u8]]) {
    let mut v: Vec<u8> = vec![];
    for p in parts { v.extend(*p); }
    unsafe { SRC = v; }
}
/// a source whose comments and strings hold symbolic characters
fn source(classes: &[u32]) {
    let (mut s, mut t) = (vec![], vec![]);
    ch("character in a comment", &mut s, classes);
    ch("character in a comment", &mut t, classes);
    put_src(&[b"pub fn f(a: u8) -> bool {\n    /*", &s, b"*/ a /*", &t, b"*/ == g() && !h() // end\n}\n"]);
    m("a /*", "!h()", "true", "FnValue", "replace f -> bool with true");
    m("a /*", "!h()", "false", "FnValue", "replace f -> bool with false");
    m("==", "==", "!=", "BinaryOperator", "replace == with != in f");
    m("&&", "&&", "||", "BinaryOperator", "replace && with || in f");
    m("!h", "!", "", "UnaryOperator", "delete ! in f");
}
fn strings() {
    let mut s = vec![];
    ch("character in a string", &mut s, &[0, 1, 2, 3, 4, 5]);
    ch("character in a string", &mut s, &[0, 3, 8]);
    put_src(&[b"pub fn f() -> bool {\n    k(\"", &s, b"\", '\xc3\xa9') == -1\n}"]);
    m("k(", " == -1", "true", "FnValue", "replace f -> bool with true");
    m("k(", " == -1", "false", "FnValue", "replace f -> bool with false");
    m("== -", "==", "!=", "BinaryOperator", "replace == with != in f");
    m("-1\n", "-", "", "UnaryOperator", "delete - in f");
}
fn arms() { arms_with(&[0, 1, 3, 5]) }
fn arms_with(classes: &[u32]) {
    let (mut s, mut t) = (vec![], vec![]);
    ch("character", &mut s, classes);
    ch("character", &mut t, classes);
    put_src(&[b"pub fn f(a: u8) {\n    match a {\n        1 => x(), /*", &s, b"*/ b if /*", &t, b"*/ b > 3 => y(),\n        _ => z(),\n    }\n}\n"]);
    m("match", "z(),\n    }", "()", "FnValue", "replace f with ()");
    m("1 =>", "x(),", "", "MatchArm", "delete match arm");
    m("b > 3", "> 3", "true", "MatchArmGuard", "replace match guard with true");
    m("b > 3", "> 3", "false", "MatchArmGuard", "replace match guard with false");
    m("> 3", ">", "==", "BinaryOperator", "replace > with == in f");
    m("> 3", ">", "<", "BinaryOperator", "replace > with < in f");
    m("> 3", ">", ">=", "BinaryOperator", "replace > with >= in f");
}
fn go_list(json: bool) {
    base();
    let t = unsafe { String::from_utf8_unchecked(SRC.clone()) };
    lab_start(&[("src/lib.rs", &t)], vec![]);
    hooks(list_spawn, if json { json_exit } else { list_exit });
    begin(&["--list"]);
    if json { arg("--json"); }
    go()
}
#[inline(never)]
pub fn repl_list() { source(&[0, 1, 2, 3, 4, 5]); go_list(false) }
#[inline(never)]
pub fn repl_json() { source(&[0, 1, 2, 3, 4, 5]); go_list(true) }
#[inline(never)]
pub fn repl_strings() { strings(); go_list(vp::any_bool("--json")) }
#[inline(never)]
pub fn repl_arms() { arms(); go_list(vp::any_bool("--json")) }
#[inline(never)]
pub fn repl_cr() { source(&[6, 7, 0]); go_list(true) }

// ---- applied ----
static mut SEEN: Vec<bool> = Vec::new();
/// the text with DOS line endings written as Unix ones, which is how a mutated file may be written
fn unix(t: &[u8]) -> Vec<u8> { let mut v = Vec::with_capacity(t.len()); for i in 0..t.len() { if t[i] == b'\r' && i + 1 < t.len() && t[i + 1] == b'\n' { continue; } v.push(t[i]); } v }
fn mutated(x: &M) -> Mu { unsafe { Mu { file: x.file, name: name(x), before: unix(&SRC[..x.a]), repl: x.repl, after: unix(&SRC[x.b..]) } } }
fn run_spawn() {
    let a = child_argv();
    if answer(P1, &a) { return; }
    unsafe {
        let got = read(&format!("{}/src/lib.rs", child_cwd())).unwrap();
        if got == SRC { return; }
        let mut hit = 0;
        for (i, x) in MS.iter().enumerate() { if mutated(x).is(&got) { SEEN[i] = true; hit += 1; } }
        if hit != 1 { vp::note(&String::from_utf8_lossy(&got)); vp::fail("cargo was run on a source that is not the original with one of the listed mutations"); }
    }
}
fn run_exit() {
    unsafe {
        expect_exit(2);
        source_untouched();
        for (i, x) in MS.iter().enumerate() { if !SEEN[i] { vp::fail(&format!("{} was not tested", name(x))); } }
        let got = lines(&outp("missed.txt"));
        for x in &MS { if !got.contains(&name(x)) { vp::fail(&format!("{} is not in missed.txt", name(x))); } }
        check_json(&text(&outp("mutants.json")));
        // a bare carriage return counts as a line end in a diff, but not in a source file
        let cr = unix(&SRC).contains(&b'\r');
        // the diffs turn the source into the mutants
        let o = text(&outp("outcomes.json"));
        let src = String::from_utf8_unchecked(unix(&SRC));
        for i in 0..MS.len() {
            let Some(dp) = json(&o, &format!("outcomes/{i}/diff_path")) else { vp::fail("outcomes.json lacks diff_path"); return; };
            let d = text(&outp(&dp));
            let at = |k: &str| json(&o, &format!("outcomes/{i}/scenario/Mutant/{k}")).unwrap_or_default();
            let Some(x) = MS.iter().find(|x| at("span/start/line") == x.at.0.to_string() && at("span/start/column") == x.at.1.to_string() && at("replacement") == x.repl && at("genre") == x.genre) else { vp::fail("outcomes.json has an unknown mutant"); return; };
            if !cr && !applies(&d, &src, &mutated(x)) { vp::note(&d); vp::fail(&format!("the diff of {} does not turn the source into the mutant", name(x))); }
        }
        vp::cover("applied");
    }
}
/// applies a unified diff, and compares with the mutant
pub fn applies(d: &str, old: &str, m: &Mu) -> bool {
    let src: Vec<&str> = old.split_inclusive('\n').collect();
    let mut out = String::new();
    let mut at = 0usize;
    let mut head = true;
    for l in d.split_inclusive('\n') {
        if l.starts_with("@@") {
            head = false;
            let n: usize = match l.split(|c| c == '-' || c == ',' || c == ' ').filter_map(|x| x.parse().ok()).next() { Some(n) => n, None => return false };
            if n < 1 || n - 1 < at { return false; }
            while at < n - 1 { out += src[at]; at += 1; }
            continue;
        }
        if head { continue; }
        if l.starts_with('\\') { if out.ends_with('\n') { out.pop(); } continue; }
        let (c, rest) = l.split_at(1);
        match c {
            " " => { if at >= src.len() || src[at].trim_end_matches('\n') != rest.trim_end_matches('\n') { return false; } out += rest; at += 1; }
            "-" => { if at >= src.len() || src[at].trim_end_matches('\n') != rest.trim_end_matches('\n') { return false; } at += 1; }
            "+" => out += rest,
            _ => return false,
        }
    }
    while at < src.len() { out += src[at]; at += 1; }
    m.is(out.as_bytes())
}
fn go_run() {
    base();
    let t = unsafe { String::from_utf8_unchecked(SRC.clone()) };
    unsafe { for _ in 0..MS.len() { SEEN.push(false); } }
    lab_start(&[("src/lib.rs", &t)], vec![]);
    hooks(run_spawn, run_exit);
    begin(&["--no-shuffle", "--baseline=skip"]);
    go()
}
#[inline(never)]
pub fn repl_run() { source(&[0, 1, 2, 3, 4, 5]); go_run() }
#[inline(never)]
pub fn repl_run_strings() { strings(); go_run() }
#[inline(never)]
pub fn repl_run_cr() { source(&[6, 7, 0]); go_run() }
#[inline(never)]
pub fn repl_run_arms() { arms(); go_run() }

fn first_line() {
    let mut s = vec![];
    let k = vp::pick("file starts with", 3);
    if k == 1 { s.extend([0xef, 0xbb, 0xbf]); }
    if k == 2 { s.extend(b"#![allow(x)] "); }
    let mut t = vec![];
    ch("character", &mut t, &[0, 2, 8]);
    put_src(&[&s, b"fn f() -> bool { x(/*", &t, b"*/) == 1 }"]);
    m("x(", "== 1", "true", "FnValue", "replace f -> bool with true");
    m("x(", "== 1", "false", "FnValue", "replace f -> bool with false");
    m("== 1", "==", "!=", "BinaryOperator", "replace == with != in f");
}
#[inline(never)]
pub fn repl_first() { first_line(); go_list(true) }
#[inline(never)]
pub fn repl_run_first() { first_line(); go_run() }
// ---- diffs in lists ----
fn diff_json_exit() {
    unsafe {
        expect_exit(0);
        nothing_written();
        let t = stdout();
        check_json(&t);
        let src = String::from_utf8_unchecked(unix(&SRC));
        for i in 0..MS.len() {
            let n = |k: &str| json(&t, &format!("{i}/{k}")).unwrap_or_default();
            let Some(x) = MS.iter().find(|x| n("span/start/line") == x.at.0.to_string() && n("span/start/column") == x.at.1.to_string() && n("replacement") == x.repl && n("genre") == x.genre) else { vp::fail("unknown mutant"); return; };
            if !applies(&n("diff"), &src, &mutated(x)) { vp::fail(&format!("the listed diff of {} does not turn the source into the mutant", name(x))); }
        }
        vp::cover("diffs");
    }
}
fn diff_text_exit() {
    unsafe {
        expect_exit(0);
        nothing_written();
        let t = stdout();
        let src = String::from_utf8_unchecked(unix(&SRC));
        for x in &MS {
            let n = format!("{}\n", name(x));
            let Some(a) = t.find(&n) else { vp::fail(&format!("{} is not listed", name(x))); return; };
            let rest = &t[a + n.len()..];
            let e = rest.find("\nsrc/lib.rs:").map(|e| e + 1).unwrap_or(rest.len());
            let mut d = String::new();
            for l in rest[..e].split_inclusive('\n') { if l != "\n" { d += l; } }
            if !applies(&d, &src, &mutated(x)) { vp::note(&d); vp::fail(&format!("the listed diff of {} does not turn the source into the mutant", name(x))); }
        }
        vp::cover("diffs");
    }
}
#[inline(never)]
pub fn repl_diff() {
    let json = vp::any_bool("--json");
    // the JSON is read back with concrete characters
    if vp::any_bool("a match") { arms_with(if json { &[4, 5] } else { &[0, 2, 5] }); } else { source(if json { &[4, 5] } else { &[0, 2, 5] }); }
    base();
    let t = unsafe { String::from_utf8_unchecked(SRC.clone()) };
    lab_start(&[("src/lib.rs", &t)], vec![]);
    hooks(list_spawn, if json { diff_json_exit } else { diff_text_exit });
    begin(&["--list", "--diff"]);
    if json { arg("--json"); }
    go()
}
/// names without positions
fn nocol_exit() {
    unsafe {
        expect_exit(0);
        let out = stdout();
        let mut got: Vec<&str> = out.lines().collect();
        let mut want: Vec<String> = MS.iter().map(|x| format!("{}: {}", x.file, x.what)).collect();
        got.sort(); want.sort();
        if got.len() != want.len() || got.iter().zip(&want).any(|(a, b)| a != b) { vp::fail(&format!("listed {got:?}, expected {want:?}")); }
        vp::cover("without positions");
    }
}
#[inline(never)]
pub fn repl_nocol() {
    source(&[0]);
    base();
    let t = unsafe { String::from_utf8_unchecked(SRC.clone()) };
    lab_start(&[("src/lib.rs", &t)], vec![]);
    let off = vp::any_bool("without positions");
    hooks(list_spawn, if off { nocol_exit } else { list_exit });
    begin(&["--list", if off { "--line-col=false" } else { "--line-col=true" }]);
    go()
}
