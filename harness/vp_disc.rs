//! Which mutants are found: operators, exclusions, match arms, skipped calls, modules.
#![allow(dead_code, unused, static_mut_refs)]
use crate::vp;
use crate::vph::*;

/// A source text under construction, with the mutants expected in it.
pub struct S { pub file: &'static str, pub t: String, pub want: Vec<String>, line: usize, col: usize }
pub fn s(file: &'static str) -> S { S { file, t: String::new(), want: vec![], line: 1, col: 1 } }
impl S {
    pub fn p(&mut self, x: &str) -> &mut S { for ch in x.chars() { if ch == '\n' { self.line += 1; self.col = 1; } else { self.col += 1; } } self.t.push_str(x); self }
    /// expects a mutant at this position, if `on`
    pub fn m(&mut self, on: bool, what: &str) -> &mut S { if on { self.want.push(format!("{}:{}:{}: {what}", self.file, self.line, self.col)); } self }
    /// the statement x(a + b); and its mutants in function `name`
    pub fn plus(&mut self, on: bool, name: &str) -> &mut S {
        self.p("x(a ").m(on, &format!("replace + with - in {name}")).m(on, &format!("replace + with * in {name}")).p("+ b);\n")
    }
    /// a function body whose first statement is this, for a function without a value
    pub fn body(&mut self, on: bool, name: &str) -> &mut S { self.m(on, &format!("replace {name} with ()")).plus(on, name) }
}
static mut WANT: Vec<String> = Vec::new();
static mut ERR: bool = false;
fn on_exit() {
    unsafe {
        nothing_written();
        if ERR { vp::check(exit_code() != 0, "a source that cannot be parsed is an error"); vp::check(stdout().is_empty(), "and lists nothing"); vp::cover("rejected"); return; }
        expect_exit(0);
        let out = stdout();
        let mut got: Vec<&str> = out.lines().collect();
        let mut want: Vec<&str> = WANT.iter().map(|s| s.as_str()).collect();
        got.sort();
        want.sort();
        if got != want {
            let extra: Vec<&&str> = got.iter().filter(|x| !want.contains(x)).collect();
            let missing: Vec<&&str> = want.iter().filter(|x| !got.contains(x)).collect();
            vp::fail(&format!("the mutants found differ: not expected {extra:?}, missing {missing:?}"));
        }
        vp::cover(if want.is_empty() { "none" } else { "some" });
    }
}
pub fn list_of(files: &[(&'static str, &str)], want: Vec<String>, err: bool, a: &[&str]) {
    lab_start(files, vec![]);
    hooks(list_spawn, on_exit);
    begin(&["--list"]);
    args(a);
    unsafe { WANT = want; ERR = err; }
    go()
}

// ---- operators ----
const BIN: [(&str, &[&str]); 28] = [
    ("+=", &["-=", "*="]), ("-=", &["+=", "/="]), ("*=", &["+=", "/="]), ("/=", &["%=", "*="]), ("%=", &["/=", "+="]), ("^=", &["|=", "&="]), ("&=", &["|=", "^="]), ("|=", &["&=", "^="]),
    ("<<=", &[">>="]), (">>=", &["<<="]), ("&&", &["||"]), ("||", &["&&"]), ("<<", &[">>"]), (">>", &["<<"]), ("==", &["!="]), ("<=", &[">"]), ("!=", &["=="]), (">=", &["<"]),
    ("+", &["-", "*"]), ("-", &["+", "/"]), ("*", &["+", "/"]), ("/", &["%", "*"]), ("%", &["/", "+"]), ("^", &["|", "&"]), ("&", &["|", "^"]), ("|", &["&", "^"]),
    ("<", &["==", ">", "<="]), (">", &["==", "<", ">="]),
];
fn ops(len: usize, three: bool) {
    base();
    let mut b: Vec<u8> = vec![];
    for _ in 0..len { b.push(vp::concretize(vp::byte_of("operator", b"=!&|<>+-*/%^") as u64) as u8); }
    if three { b.push(b'='); }
    let op = unsafe { String::from_utf8_unchecked(b) };
    let mut src = s("src/lib.rs");
    src.p("pub fn f() {\n    ").m(true, "replace f with ()").p("x(a ");
    // one binary operator, then prefix operators of the right operand
    let mut ok = true;
    let mut rest: &str = "";
    let mut repl: &[&str] = &[];
    let mut o = "";
    if op.contains("//") || op.contains("/*") { ok = false; }
    else if let Some((t, r)) = BIN.iter().find(|(t, _)| op.starts_with(t)) { o = t; repl = r; rest = &op[t.len()..]; }
    else if op.starts_with('=') && !op.starts_with("=>") { o = "="; rest = &op[1..]; }
    else { ok = false; }
    for r in repl { src.m(true, &format!("replace {o} with {r} in f")); }
    src.p(o);
    while ok && !rest.is_empty() {
        if rest == "||" { src.p("||"); break; } // a closure
        match rest.as_bytes()[0] {
            b'!' => { src.m(true, "delete ! in f"); }
            b'-' => { src.m(true, "delete - in f"); }
            b'*' | b'&' => (),
            _ => ok = false,
        }
        src.p(&rest[..1]);
        rest = &rest[1..];
    }
    let want = std::mem::take(&mut src.want);
    let t = format!("pub fn f() {{\n    x(a {op} b);\n}}\n");
    list_of(&[("src/lib.rs", &t)], want, !ok, &[])
}
#[inline(never)]
pub fn disc_op1() { ops(1, false) }
#[inline(never)]
pub fn disc_op2() { ops(2, false) }
#[inline(never)]
pub fn disc_op2eq() { ops(2, true) }
#[inline(never)]
pub fn disc_op3() { ops(3, false) }
/// where an operator may stand
#[inline(never)]
pub fn disc_places() {
    base();
    let k = vp::pick("place", 22);
    let op = BIN[10 + vp::pick("operator", 3) as usize * 5];
    let mut src = s("src/lib.rs");
    let inn = if k == 18 || k == 19 { "" } else if k == 17 { " in f::inner" } else { " in f" };
    let ops = |src: &mut S, on: bool| { src.p("a "); for r in op.1 { src.m(on, &format!("replace {} with {r}{inn}", op.0)); } src.p(op.0).p(" b"); };
    let (pre, post, on): (&str, &str, bool) = match k {
        0 => ("let v = ", ";", true), 1 => ("if ", " { x(); }", true), 2 => ("while ", " {}", true), 3 => ("return x(", ");", true), 4 => ("v[", "] = 1;", true), 5 => ("let c = |y: u8| ", ";", true),
        6 => ("x(y(z(", ")));", true), 7 => ("{ { ", "; } }", true), 8 => ("S { p: ", ", q: 1 };", true), 9 => ("[1, ", "];", true), 10 => ("(1, (", "));", true), 11 => ("let async_ = async { ", " };", true),
        12 => ("v.m(", ").n();", true), 13 => ("for i in z(", ") {}", true), 14 => ("match ", " { _ => {} }", true), 15 => ("loop { break ", "; }", true),
        // tokens of a macro are not expressions
        16 => ("println!(\"{}\", ", ");", false),
        17 => ("fn inner() { let q = ", "; }", true),
        18 => ("const C: bool = ", ";", true), 19 => ("static S: bool = ", ";", true), 20 => ("unsafe { x(", ") };", true), _ => ("let Some(z) = x(", ") else { return };", true),
    };
    if k == 18 || k == 19 {
        // outside any function
        src.p(pre);
        ops(&mut src, true);
        src.p(post).p("\npub fn f() {\n    ").m(true, "replace f with ()").p("y();\n}\n");
    } else {
        src.p("pub fn f() {\n    ").m(true, "replace f with ()");
        if k == 17 { src.p("fn inner() { ").m(true, "replace f::inner with ()").p("let q = "); } else { src.p(pre); }
        ops(&mut src, on);
        src.p(post).p("\n}\n");
    }
    let want = std::mem::take(&mut src.want);
    list_of(&[("src/lib.rs", &src.t)], want, false, &[])
}
#[inline(never)]
pub fn disc_unary() {
    base();
    let n = vp::pick("how many", 4);
    let mut src = s("src/lib.rs");
    src.p("pub fn f() {\n    ").m(true, "replace f with ()").p("x(");
    for _ in 0..n {
        let b = vp::concretize(vp::byte_of("prefix", b"!-*&") as u64) as u8 as char;
        let sp = if n < 3 && vp::any_bool("space") { " " } else { "" };
        if b == '!' || b == '-' { src.m(true, &format!("delete {b} in f")); }
        src.p(&b.to_string()).p(sp);
    }
    src.p("b);\n}\n");
    let want = std::mem::take(&mut src.want);
    list_of(&[("src/lib.rs", &src.t)], want, false, &[])
}

// ---- attributes ----
const ATTRS: [(&str, bool); 18] = [
    ("", false), ("[test]", true), ("[cfg(test)]", true), ("[mutants::skip]", true), ("[cfg_attr(test, mutants::skip)]", true), ("[cfg_attr(mutants, allow(unused))]", false),
    ("[cfg(not(test))]", false), ("[cfg(feature = \"test\")]", false), ("[cfg(unix)]", false), ("[allow(test)]", false), ("[mutants::skipped]", false), ("[mutants]", false), ("[skip]", false), ("[other::skip]", false),
    ("[inline]", false), ("[doc = \"mutants::skip\"]", false), ("[a::mutants::skip]", false), ("[cfg(tests)]", false),
];
fn attr_src(places: &[(usize, &str, bool)]) -> (S, S) {
    let at_ = |k: usize, inner: bool| -> (String, bool) {
        let mut t = String::new();
        let mut out = false;
        for (p, a, x) in places { if *p == k && !a.is_empty() { t += if inner { "#!" } else { "#" }; t += a; t += "\n"; if *x { out = true; } } }
        (t, !out)
    };
    let mut src = s("src/lib.rs");
    let mut b = s("src/b.rs");
    let (t, file) = at_(0, true);
    src.p(&t);
    let (t, on) = at_(1, false);
    src.p(&t).p("pub fn f() {\n    ").body(file && on, "f").p("}\n");
    let (t, on) = at_(2, false);
    let m = file && on;
    src.p(&t).p("mod m {\n    fn g() {\n        ").body(m, "m::g").p("    }\n}\n");
    let (t, on) = at_(3, false);
    let im = file && on;
    src.p(&t).p("impl S {\n");
    let (t, on) = at_(4, false);
    src.p(&t).p("    fn h(&self) {\n        ").body(im && on, "S::h").p("    }\n    fn i(&self) {\n        ").body(im, "S::i").p("    }\n}\n");
    let (t, on) = at_(5, false);
    let tr = file && on;
    src.p(&t).p("trait T {\n");
    let (t, on) = at_(6, false);
    src.p(&t).p("    fn j(&self) {\n        ").body(tr && on, "T::j").p("    }\n}\n");
    // a nested function, a call, a method call, a negation and a match
    src.p("fn k() {\n    ").m(file, "replace k with ()").plus(file, "k");
    let (t, on) = at_(7, false);
    src.p(&t).p("    fn l() {\n        ").body(file && on, "k::l").p("    }\n");
    let (t, on) = at_(8, false);
    src.p(&t).p("    ").plus(file && on, "k");
    let (t, on) = at_(9, false);
    src.p(&t).p("    v.").plus(file && on, "k");
    let (t, on) = at_(10, false);
    src.p(&t).p("    match x(a ").m(file && on, "replace == with != in k").p("== b) {\n        ").m(file && on, "delete match arm").p("1 => {}\n        _ => {}\n    }\n}\n");
    let (t, on) = at_(11, false);
    src.p(&t).p("mod b;\n");
    b.p("fn n() {\n    ").body(file && on, "n").p("}\n");
    (src, b)
}
#[inline(never)]
pub fn disc_attr_items() { attr1(0) }
#[inline(never)]
pub fn disc_attr_inner() { attr1(6) }
fn attr1(from: usize) {
    base();
    let p = from + vp::pick("place", 6) as usize;
    let k = vp::pick("attribute", 18) as usize;
    vp::assume(k > 0 || p == 0);
    // attributes that a file or an expression cannot have in this syntax
    let (src, b) = attr_src(&[(p, ATTRS[k].0, ATTRS[k].1)]);
    let mut want = src.want.clone();
    want.extend(b.want.clone());
    list_of(&[("src/lib.rs", &src.t), ("src/b.rs", &b.t)], want, false, &[])
}
/// two attributes on one item, in either order, or on two items
#[inline(never)]
pub fn disc_attr2() {
    base();
    let p = [1usize, 3, 4, 11][vp::pick("place", 4) as usize];
    let q = if vp::any_bool("elsewhere") { 2 } else { p };
    let k = vp::pick("first", 5) as usize;
    let j = [8usize, 3, 14][vp::pick("second", 3) as usize];
    let (src, b) = attr_src(&[(p, ATTRS[k].0, ATTRS[k].1), (q, ATTRS[j].0, ATTRS[j].1)]);
    let mut want = src.want.clone();
    want.extend(b.want.clone());
    list_of(&[("src/lib.rs", &src.t), ("src/b.rs", &b.t)], want, false, &[])
}
/// one byte of the attribute's name is any lower-case letter
#[inline(never)]
pub fn disc_attr_name() {
    base();
    const A: [&[u8]; 4] = [b"#[mutants::skip]\n", b"#[test]\n", b"#[cfg(test)]\n", b"#[cfg_attr(test, mutants::skip)]\n"];
    let k = vp::pick("attribute", 4) as usize;
    let i = vp::pick("position", 32) as usize;
    vp::assume(i < A[k].len() && A[k][i].is_ascii_lowercase());
    // what a condition of cfg_attr is does not matter
    vp::assume(k != 3 || i < 10 || i > 15);
    let c = vp::any_u8("letter");
    vp::assume(c >= b'a' && c <= b'z');
    let mut src = s("src/lib.rs");
    let on = c != A[k][i];
    src.p(unsafe { std::str::from_utf8_unchecked(A[k]) });
    src.p("fn f() {\n    ").body(on, "f").p("}\nfn g() {\n    ").body(true, "g").p("}\n");
    let mut t = src.t.clone().into_bytes();
    t[i] = c;
    let want = std::mem::take(&mut src.want);
    let t = unsafe { String::from_utf8_unchecked(t) };
    list_of(&[("src/lib.rs", &t)], want, false, &[])
}

// ---- functions ----
const QUAL: [(&str, bool); 9] = [("", true), ("const ", true), ("async ", true), ("unsafe ", false), ("extern \"C\" ", true), ("pub(crate) ", true), ("pub ", true), ("const unsafe ", false), ("unsafe extern \"C\" ", false)];
// text before and after, name prefix, is `new` left out, are mutants found
const CTX: [(&str, &str, &str, bool, bool); 15] = [
    ("", "", "", false, true), ("impl S {\n", "}\n", "S::", true, true), ("impl T for S {\n", "}\n", "<impl T for S>::", true, true), ("impl Default for S {\n", "}\n", "", true, false),
    ("impl std::default::Default for S {\n", "}\n", "", true, false), ("impl<X> S<X> {\n", "}\n", "S<X>::", true, true), ("trait T {\n", "}\n", "T::", true, true), ("mod m {\n", "}\n", "m::", false, true),
    ("mod m { mod n {\n", "}}\n", "m::n::", false, true), ("mod m { impl S {\n", "}}\n", "m::S::", true, true), ("impl Defaults for S {\n", "}\n", "<impl Defaults for S>::", true, true), ("impl<'a> T<'a> for &'a S {\n", "}\n", "<impl T<'a> for &'a S>::", true, true),
    ("impl a::Tr<u8> for b::S {\n", "}\n", "<impl a::Tr<u8> for b::S>::", true, true), ("impl Default {\n", "}\n", "Default::", true, true), ("mod r#try {\n", "}\n", "try::", false, true),
];
const NAMES: [&str; 6] = ["f", "new", "newer", "default", "New", "renew"];
fn one_fn(q: usize, c: usize, n: usize, body: usize) {
    let mut src = s("src/lib.rs");
    let (pre, post, ns, skip_new, inside) = CTX[c];
    // trait functions have no visibility
    let on = QUAL[q].1 && inside && !(skip_new && NAMES[n] == "new") && body == 0;
    let name = format!("{ns}{}", NAMES[n]);
    src.p(pre).p(QUAL[q].0).p("fn ").p(NAMES[n]).p("() {\n    ");
    match body {
        0 => { src.body(on, &name); }
        1 => { src.p("// a + b\n"); }
        _ => (),
    }
    src.p("}\n").p(post).p("fn last() {\n    ").body(true, "last").p("}\n");
    let want = std::mem::take(&mut src.want);
    list_of(&[("src/lib.rs", &src.t)], want, false, &[])
}
#[inline(never)]
pub fn disc_fn_ctx() { base(); let c = vp::pick("in", 15) as usize; let n = vp::pick("name", 6) as usize; one_fn(0, c, n, 0) }
#[inline(never)]
pub fn disc_fn_qual() {
    base();
    let q = vp::pick("qualifiers", 9) as usize;
    let c = [0usize, 1, 2, 6, 7][vp::pick("in", 5) as usize];
    vp::assume(c != 6 && c != 2 || !QUAL[q].0.starts_with("pub"));
    let b = vp::pick("body", 3) as usize;
    vp::assume(b == 0 || c < 6);
    one_fn(q, c, 0, b)
}
/// three symbolic letters of a method's name: only `new` is left out
#[inline(never)]
pub fn disc_fn_name() {
    base();
    let i = vp::pick("position", 4) as usize;
    let c = vp::any_u8("letter");
    vp::assume(c >= b'a' && c <= b'z');
    let mut src = s("src/lib.rs");
    let mut name = b"new".to_vec();
    if i < 3 { name[i] = c; } else { name.push(c); }
    let on = name != b"new";
    let name = unsafe { String::from_utf8_unchecked(name) };
    vp::assume(name != "dew" || true);
    src.p("impl S {\n    fn ").p(&name).p("() {\n    ").body(on, &format!("S::{name}")).p("}\n    fn g() {\n        ").body(true, "S::g").p("    }\n}\n");
    let want = std::mem::take(&mut src.want);
    list_of(&[("src/lib.rs", &src.t)], want, false, &[])
}
/// traits: functions without a body, and what follows them; nested functions and their names
#[inline(never)]
pub fn disc_nested() {
    base();
    let a = vp::any_bool("trait function without a body first");
    let d = vp::pick("depth", 3);
    let un = vp::any_bool("outer is unsafe");
    let mut src = s("src/lib.rs");
    src.p("trait T {\n");
    if a { src.p("    fn decl(&self) -> bool;\n"); }
    src.p("    fn dflt(&self) {\n        ").body(true, "T::dflt").p("    }\n}\n");
    src.p(if un { "unsafe fn o() {\n    " } else { "fn o() {\n    " });
    let on = !un;
    src.m(on, "replace o with ()").plus(on, "o");
    if d > 0 { src.p("    fn i() {\n        ").body(on, "o::i"); if d > 1 { src.p("        fn j() {\n            ").body(on, "o::i::j").p("        }\n        ").plus(on, "o::i"); } src.p("    }\n    ").plus(on, "o"); }
    src.p("    struct L;\n    impl L {\n        fn q() {\n            ").body(on, "o::L::q").p("        }\n    }\n    ").plus(on, "o");
    src.p("}\nmod m {\n    fn z() {\n        ").body(true, "m::z").p("    }\n}\nfn y() {\n    ").body(true, "y").p("}\n");
    let want = std::mem::take(&mut src.want);
    list_of(&[("src/lib.rs", &src.t)], want, false, &[])
}

// ---- match ----
#[inline(never)]
pub fn disc_match() {
    base();
    let n = vp::pick("arms", 4) as usize;
    let mut arms: Vec<(usize, bool)> = vec![];
    // 0: a literal, 1: _, 2: a name, 3: Some(_)
    for i in 0..n {
        let k = vp::pick("pattern", 4) as usize;
        let g = k != 1 && vp::any_bool("guard");
        // the last arm of three is not varied as much
        vp::assume(i < 2 || !g && k < 2);
        arms.push((k, g));
    }
    let wild = arms.iter().any(|a| a.0 == 1);
    let mut src = s("src/lib.rs");
    src.p("pub fn f() {\n    ").m(true, "replace f with ()").p("match z {\n");
    for (i, (k, g)) in arms.iter().enumerate() {
        src.p("        ");
        src.m(wild && *k != 1 && !*g, "delete match arm");
        src.p(["1", "_", "n", "Some(_)"][*k]);
        if *g { src.p(" if ").m(true, "replace match guard with true").m(true, "replace match guard with false").p("a ").m(true, "replace && with || in f").p("&& b"); }
        src.p(" => ");
        if i == 0 { src.p("{ ").plus(true, "f").p("        }\n"); } else { src.p("x(),\n"); }
    }
    src.p("    }\n}\n");
    let want = std::mem::take(&mut src.want);
    list_of(&[("src/lib.rs", &src.t)], want, false, &[])
}

// ---- calls that are skipped ----
#[inline(never)]
pub fn disc_skip_calls() {
    base();
    let o = vp::pick("options", 9) as usize;
    let opt: (&[&str], &str, bool, bool) = match o { // arguments, configuration, is `dont` skipped, is with_capacity
        0 => (&[], "", false, true), 1 => (&["--skip-calls", "dont"], "", true, true), 2 => (&["--skip-calls=other,dont"], "", true, true), 3 => (&["--skip-calls=other", "--skip-calls=dont", "--skip-calls-defaults=false"], "", true, false),
        4 => (&[], "skip_calls = ['dont', 'other']\n", true, true), 5 => (&[], "skip_calls_defaults = false\n", false, false), 6 => (&["--skip-calls=other"], "skip_calls = ['dont']\n", true, true),
        7 => (&["--skip-calls-defaults=true"], "skip_calls_defaults = false\n", false, true), _ => (&["--skip-calls", "dont", "--no-config"], "skip_calls_defaults = false\n", true, true),
    };
    let calls: [(&str, &str, bool, bool); 10] = [
        ("dont(", ")", true, false), ("m::dont(", ")", true, false), ("v.dont(", ")", true, false), ("dont::<T>(", ")", true, false), ("dont.y(", ")", false, false), ("dont::y(", ")", false, false), ("dontx(", ")", false, false),
        ("Vec::with_capacity(", ")", false, true), ("y(dont(1, z(", ")))", true, false), ("v.with_capacity(", ").q()", false, true),
    ];
    let mut src = s("src/lib.rs");
    src.p("pub fn f() {\n    ").m(true, "replace f with ()");
    for (a, z, d, w_) in calls {
        let on = !(d && opt.2) && !(w_ && opt.3);
        src.p(a).p("c ").m(on, "replace - with + in f").m(on, "replace - with / in f").p("- e").p(z).p(";\n    ");
    }
    src.p("other();\n}\n");
    if !opt.1.is_empty() { mkdir(&at(".cargo")); w(".cargo/mutants.toml", opt.1); }
    let want = std::mem::take(&mut src.want);
    list_of(&[("src/lib.rs", &src.t)], want, false, opt.0)
}
#[inline(never)]
pub fn disc_skip_name() {
    base();
    let (a, b) = (vp::any_u8("letter 1"), vp::any_u8("letter 2"));
    vp::assume(a >= b'a' && a <= b'z' && b >= b'a' && b <= b'z');
    let i = vp::pick("position", 4) as usize;
    let mut n = b"dont".to_vec();
    let mut o = b"dont".to_vec();
    n[i] = a;
    o[3 - i] = b;
    let on = n != o;
    let (n, o) = unsafe { (String::from_utf8_unchecked(n), String::from_utf8_unchecked(o)) };
    let mut src = s("src/lib.rs");
    src.p("pub fn f() {\n    ").m(true, "replace f with ()").p(&n).p("(c ").m(on, "replace - with + in f").m(on, "replace - with / in f").p("- e);\n}\n");
    let want = std::mem::take(&mut src.want);
    list_of(&[("src/lib.rs", &src.t)], want, false, &["--skip-calls", &o])
}

// ---- modules ----
fn body_of(f: &'static str) -> (&'static str, String) { (f, "fn q() {\n    x();\n}\n".to_string()) }
/// the file that `mod b;` in each parent means
#[inline(never)]
pub fn disc_mods() {
    base();
    // which file says mod b, and how
    let parent = vp::pick("parent", 4) as usize; // lib.rs, a.rs, a/mod.rs, a/sub.rs
    let how = vp::pick("how", 8) as usize; // mod b; inline c { mod b; }, path, path in inline, path on inline, missing, r#b, nested inline
    let (ptop, pfile, dir, pdir): (&[&str], &'static str, &str, &str) = match parent {
        0 => (&[], "src/lib.rs", "src", "src"), 1 => (&["mod a;\n"], "src/a.rs", "src/a", "src"), 2 => (&["mod a;\n"], "src/a/mod.rs", "src/a", "src/a"), _ => (&["mod a;\n"], "src/a/sub.rs", "src/a/sub", "src/a"),
    };
    let (txt, rel, rel_dir): (&str, &str, &str) = match how {
        0 => ("mod b;\n", "b", dir), 1 => ("mod c {\n    mod b;\n}\n", "c/b", dir), 2 => ("#[path = \"p.rs\"]\nmod b;\n", "p.rs", pdir), 3 => ("mod c {\n    #[path = \"p.rs\"]\n    mod b;\n}\n", "c/p.rs", dir),
        4 => ("#[path = \"d\"]\nmod c {\n    mod b;\n}\n", "d/b", dir), 5 => ("#[path = \"/b.rs\"]\nmod b;\n", "", dir), 6 => ("mod r#b;\n", "b", dir), _ => ("mod c {\n    mod d {\n        mod b;\n    }\n}\n", "c/d/b", dir),
    };
    let exact = how == 2 || how == 3;
    let form = if exact || how == 5 { 0 } else { vp::pick("found as", 3) }; // b.rs, b/mod.rs, neither
    let mut files: Vec<(String, String)> = vec![];
    let mut want = vec![];
    // decoys: files that a wrong search would take
    let mut decoys: Vec<String> = vec![];
    for d in ["src", "src/a", "src/a/sub", "src/c", "src/a/c", "src/d", "src/a/d", "src/b"] { decoys.push(format!("{d}/b.rs")); decoys.push(format!("{d}/p.rs")); decoys.push(format!("{d}/b/mod.rs")); }
    let hit = if how == 5 { String::new() } else if exact { format!("{rel_dir}/{rel}") } else { match form { 0 => format!("{rel_dir}/{rel}.rs"), 1 => format!("{rel_dir}/{rel}/mod.rs"), _ => String::new() } };
    for d in &decoys {
        // the other form must not be there; whichever is, is the module
        let other = d == &format!("{rel_dir}/{rel}.rs") || d == &format!("{rel_dir}/{rel}/mod.rs") || d == &format!("{rel_dir}/{rel}");
        if !other && d != pfile { files.push((d.clone(), "fn decoy() {\n    x();\n}\n".into())); }
    }
    if !hit.is_empty() { files.push((hit.clone(), "fn q() {\n    x();\n}\n".into())); want.push(format!("{hit}:2:5: replace q with ()")); }
    let mut lib = String::new();
    let tail = "fn z() {\n    x();\n}\n";
    match parent { 0 => lib += txt, _ => lib += "mod a;\n" }
    if parent == 3 { files.push(("src/a.rs".into(), "mod sub;\n".into())); }
    if parent > 0 { files.push((pfile.into(), format!("{txt}{tail}"))); let n = txt.lines().count() + 2; want.push(format!("{pfile}:{n}:5: replace z with ()")); }
    lib += tail;
    want.push(format!("src/lib.rs:{}:5: replace z with ()", lib.lines().count() - 1));
    for (f, t) in &files { let d = at(f); let mut i = W.len() + 1; while let Some(j) = d[i..].find('/') { let p = &d[..i + j]; if !exists(p) { mkdir(p); } i += j + 1; } w(f, t); }
    list_of(&[("src/lib.rs", &lib)], want, false, &[])
}
