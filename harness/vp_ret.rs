//! The values a function body is replaced with, by return type.
#![allow(dead_code, unused, static_mut_refs)]
use crate::vp;
use crate::vph::*;

type Ty = (String, Vec<String>);
fn v(x: &[&str]) -> Vec<String> { x.iter().map(|s| s.to_string()).collect() }
const UNS: [&str; 6] = ["u8", "u16", "u32", "u64", "u128", "usize"];
const SIG: [&str; 6] = ["i8", "i16", "i32", "i64", "i128", "isize"];
const NZ: [&str; 12] = ["NonZeroU8", "NonZeroU16", "NonZeroU32", "NonZeroU64", "NonZeroU128", "NonZeroUsize", "NonZeroI8", "NonZeroI16", "NonZeroI32", "NonZeroI64", "NonZeroI128", "NonZeroIsize"];
/// the replacements for a type that is one name
fn named(n: &str) -> Vec<String> {
    if n == "bool" { return v(&["true", "false"]); }
    if n == "String" { return v(&["String::new()", "\"xyzzy\".into()"]); }
    for u in UNS { if n == u { return v(&["0", "1"]); } }
    for u in SIG { if n == u { return v(&["0", "1", "-1"]); } }
    for u in &NZ[..6] { if n == *u { return v(&["1"]); } }
    for u in &NZ[6..] { if n == *u { return v(&["1", "-1"]); } }
    if n == "f32" || n == "f64" { return v(&["0.0", "1.0", "-1.0"]); }
    v(&["Default::default()"])
}
const LEAVES: usize = 44;
fn leaf(k: usize) -> Ty {
    let n: &str = match k {
        0..=5 => UNS[k], 6..=11 => SIG[k - 6], 12..=23 => NZ[k - 12], 24 => "f32", 25 => "f64", 26 => "bool", 27 => "String", 28 => "Foo",
        29 => return ("&str".into(), v(&["\"\"", "\"xyzzy\""])), 30 => return ("&'static str".into(), v(&["\"\"", "\"xyzzy\""])), 31 => return ("()".into(), v(&["()"])),
        32 => return ("!".into(), vec![]), 33 => "m::Foo", 34 => return ("std::num::NonZeroU8".into(), v(&["1"])), 35 => return ("impl Fn(u8)".into(), vec![]),
        36 => "Self", 37 => "m::bool", 38 => "Foo<'a>", 39 => "Foo<u8, bool>", 40 => return ("HttpResponse".into(), v(&["HttpResponse::Ok().finish()"])), 41 => "Option", 42 => "*const u8", _ => "fn(u8) -> bool",
    };
    (n.into(), named(n))
}
fn each(t: &Ty, pre: &str, post: &str) -> Vec<String> { t.1.iter().map(|r| format!("{pre}{r}{post}")).collect() }
const GENERICS: [&str; 15] = ["Box", "Cell", "RefCell", "Arc", "Rc", "Mutex", "BinaryHeap", "BTreeSet", "HashSet", "LinkedList", "VecDeque", "Option", "Vec", "Result", "Foo"];
/// the replacements for n<t>, where errors is what --error gives
fn generic(n: &str, t: &Ty, errors: &[&str]) -> Vec<String> {
    if n == "Result" { let mut r = each(t, "Ok(", ")"); for e in errors { r.push(format!("Err({e})")); } return r; }
    if n == "Option" { let mut r = v(&["None"]); r.extend(each(t, "Some(", ")")); return r; }
    if n == "Vec" { let mut r = v(&["vec![]"]); r.extend(each(t, "vec![", "]")); return r; }
    if n == "Cow" { let mut r = vec![]; for x in &t.1 { r.push(format!("Cow::Borrowed({x})")); r.push(format!("Cow::Owned({x}.to_owned())")); } return r; }
    for c in &GENERICS[..6] { if n == *c { return each(t, &format!("{c}::new("), ")"); } }
    for c in &GENERICS[6..11] { if n == *c { let mut r = vec![format!("{c}::new()")]; r.extend(each(t, &format!("{c}::from_iter(["), "])")); return r; } }
    let mut r = vec![format!("{n}::new()")];
    for x in &t.1 { r.push(format!("{n}::from_iter([{x}])")); r.push(format!("{n}::new({x})")); r.push(format!("{n}::from({x})")); }
    r
}
const CTORS: usize = 31;
fn ctor(k: usize, t: &Ty, errors: &[&str]) -> Ty {
    let x = &t.0;
    let slice = || { let mut r = v(&["Vec::leak(Vec::new())"]); r.extend(each(t, "Vec::leak(vec![", "])")); r };
    match k {
        0..=14 => (format!("{}<{x}>", GENERICS[k]), generic(GENERICS[k], t, errors)),
        15 => (format!("std::collections::HashSet<{x}>"), generic("HashSet", t, errors)),
        16 => (format!("Cow<'_, {x}>"), generic("Cow", t, errors)),
        17 => (format!("Result<{x}, E>"), generic("Result", t, errors)),
        18 => (format!("[{x}; 3]"), each(t, "[", "; 3]")),
        19 => (format!("&[{x}]"), slice()),
        20 => (format!("&mut [{x}]"), slice()),
        21 => (format!("&{x}"), if x == "str" { t.1.clone() } else { each(t, "&", "") }),
        22 => (format!("&mut {x}"), each(t, "Box::leak(Box::new(", "))")),
        23 => (format!("({x}, bool)"), { let mut r = each(t, "(", ", true)"); r.extend(each(t, "(", ", false)")); r }),
        24 => (format!("(u8, {x})"), { let mut r = each(t, "(0, ", ")"); r.extend(each(t, "(1, ", ")")); r }),
        25 => (format!("HashMap<bool, {x}>"), { let mut r = v(&["HashMap::new()"]); r.extend(each(t, "HashMap::from_iter([(true, ", ")])")); r.extend(each(t, "HashMap::from_iter([(false, ", ")])")); r }),
        26 => (format!("BTreeMap<{x}, u8>"), { let mut r = v(&["BTreeMap::new()"]); r.extend(each(t, "BTreeMap::from_iter([(", ", 0)])")); r.extend(each(t, "BTreeMap::from_iter([(", ", 1)])")); r }),
        27 => (format!("impl Iterator<Item = {x}>"), { let mut r = v(&["::std::iter::empty()"]); r.extend(each(t, "::std::iter::once(", ")")); r }),
        28 => (format!("io::Result<{x}>"), generic("Result", t, errors)),
        29 => (format!("Foo<'a, {x}>"), generic("Foo", t, errors)),
        30 => (format!("({x},)"), each(t, "(", ",)")),
        _ => (format!("std::option::Option<{x}>"), generic("Option", t, errors)),
    }
}
static mut WANT: Vec<String> = Vec::new();
static mut ERR: bool = false;
fn strip(s: &str) -> String { s.chars().filter(|c| *c != ' ').collect() }
fn on_exit() {
    unsafe {
        nothing_written();
        if ERR { vp::check(exit_code() != 0, "an error value that is not an expression is an error"); vp::check(stdout().is_empty(), "and lists nothing"); vp::cover("rejected"); return; }
        expect_exit(0);
        let out = stdout();
        let mut got: Vec<String> = out.lines().map(strip).collect();
        let mut want: Vec<String> = WANT.iter().map(|s| strip(s)).collect();
        got.sort();
        want.sort();
        if got != want {
            let extra: Vec<&String> = got.iter().filter(|x| !want.contains(x)).collect();
            let missing: Vec<&String> = want.iter().filter(|x| !got.contains(x)).collect();
            vp::fail(&format!("the mutants found differ: not expected {extra:?}, missing {missing:?}"));
        }
        vp::cover(if want.is_empty() { "none" } else { "some" });
    }
}
fn run(t: Ty, body: &str, same: &str, a: &[&str]) {
    let src = format!("fn f() -> {} {{\n    {body}\n}}\n", t.0);
    lab_start(&[("src/lib.rs", &src)], vec![]);
    hooks(list_spawn, on_exit);
    begin(&["--list"]);
    args(a);
    unsafe { WANT = t.1.iter().filter(|r| *r != same).map(|r| format!("src/lib.rs:2:5: replace f -> {} with {r}", t.0)).collect(); }
    go()
}
#[inline(never)]
pub fn ret_leaf() { base(); run(leaf(vp::pick("type", LEAVES as u32) as usize), "x()", "", &[]) }
#[inline(never)]
pub fn ret_ctor() {
    base();
    let k = vp::pick("constructor", CTORS as u32) as usize;
    let l = [0usize, 8, 26, 27, 28, 29, 31][vp::pick("argument", 7) as usize];
    run(ctor(k, &leaf(l), &[]), "x()", "", &[])
}
fn nest(from: usize, n: usize) {
    base();
    let k = from + vp::pick("outer", n as u32) as usize;
    let j = vp::pick("inner", CTORS as u32) as usize;
    vp::assume(j != 27); // impl Trait only at the top
    let t = ctor(j, &leaf(28), &[]);
    run(ctor(k, &t, &[]), "x()", "", &[])
}
#[inline(never)]
pub fn ret_nest1() { nest(0, 8) }
#[inline(never)]
pub fn ret_nest2() { nest(8, 8) }
#[inline(never)]
pub fn ret_nest3() { nest(16, 8) }
#[inline(never)]
pub fn ret_nest4() { nest(24, CTORS - 24) }
/// every type with three levels of the constructors in a subset
#[inline(never)]
pub fn ret_deep() {
    base();
    let c = [11usize, 12, 13, 21, 23, 14, 0];
    let mut t = leaf([6usize, 32][vp::pick("type", 2) as usize]);
    for _ in 0..3 { t = ctor(c[vp::pick("constructor", 7) as usize], &t, &[]); }
    run(t, "x()", "", &[])
}
/// one letter of a type's name is any letter or digit
#[inline(never)]
pub fn ret_name() {
    base();
    const N: [&str; 8] = ["bool", "u64", "String", "f32", "NonZeroI8", "Foo", "i16", "HttpResponse"];
    let k = vp::pick("name", 8) as usize;
    let i = vp::pick("position", 12) as usize;
    vp::assume(i < N[k].len());
    let c = vp::any_u8("letter");
    vp::assume(c >= b'a' && c <= b'z' || c >= b'A' && c <= b'Z' || i > 0 && c >= b'0' && c <= b'9');
    let mut n = N[k].as_bytes().to_vec();
    n[i] = c;
    let n = unsafe { String::from_utf8_unchecked(n) };
    let r = if n == "HttpResponse" { v(&["HttpResponse::Ok().finish()"]) } else { named(&n) };
    run((n, r), "x()", "", &[])
}
#[inline(never)]
pub fn ret_gname() {
    base();
    const N: [&str; 6] = ["Vec", "Box", "HashSet", "Result", "Option", "Cow"];
    let k = vp::pick("name", 6) as usize;
    let i = vp::pick("position", 7) as usize;
    vp::assume(i < N[k].len());
    let c = vp::any_u8("letter");
    vp::assume(c >= b'a' && c <= b'z' || c >= b'A' && c <= b'Z');
    let mut n = N[k].as_bytes().to_vec();
    n[i] = c;
    let n = unsafe { String::from_utf8_unchecked(n) };
    vp::assume(n != "box"); // a keyword
    let t = leaf(26);
    let r = generic(&n, &t, &[]);
    run((format!("{n}<bool>"), r), "x()", "", &[])
}
/// a body that is already one of the values is not replaced by it
#[inline(never)]
pub fn ret_same() {
    base();
    let k = vp::pick("case", 5);
    let d = vp::any_u8("digit");
    vp::assume(d >= b'0' && d <= b'9');
    let ds = unsafe { String::from_utf8_unchecked(vec![d]) };
    let (t, body, same): (Ty, String, String) = match k {
        0 => (leaf(0), ds.clone(), ds.clone()), 1 => (leaf(6), format!("-{ds}"), format!("-{ds}")), 2 => (ctor(11, &leaf(6), &[]), format!("Some ( {ds} )"), format!("Some({ds})")),
        3 => (ctor(12, &leaf(0), &[]), format!("vec![\n        {ds}\n    ] // same"), format!("vec![{ds}]")),
        _ => (leaf(0), format!("{ds};"), String::new()),
    };
    // minus is itself mutated, a statement is not a value
    let mut t = t;
    let extra = if k == 1 { vec!["src/lib.rs:2:5: delete - in f".to_string()] } else { vec![] };
    let src = format!("fn f() -> {} {{\n    {body}\n}}\n", t.0);
    lab_start(&[("src/lib.rs", &src)], vec![]);
    hooks(list_spawn, on_exit);
    begin(&["--list"]);
    unsafe { WANT = t.1.iter().filter(|r| **r != same).map(|r| format!("src/lib.rs:2:5: replace f -> {} with {r}", t.0)).collect(); WANT.extend(extra); }
    go()
}
/// error values from the command line and the configuration
#[inline(never)]
pub fn ret_errors() {
    base();
    let a = vp::pick("--error", 4) as usize;
    let c = vp::pick("error_values", 3) as usize;
    let l: &[usize] = &[17, 28, 13];
    let k = vp::pick("type", 5) as usize;
    let bad = vp::pick("broken", 3);
    vp::assume(bad == 0 || k == 0);
    let av: &[&str] = match a { 0 => &[], 1 => &["anyhow!(\"no\")"], 2 => &["E::A", "E::B(1)"], _ => &["::m::fail(1 + 2)"] };
    let cv: &[&str] = match c { 0 => &[], 1 => &["E::C"], _ => &["E::C", "Default::default()"] };
    let mut all: Vec<&str> = av.to_vec();
    all.extend(cv);
    let t = match k { 0 | 1 | 2 => ctor(l[k], &leaf(26), &all), 3 => { let mut r = v(&["Ok(Default::default())"]); for e in &all { r.push(format!("Err({e})")); } ("Result".into(), r) } _ => ctor(11, &ctor(13, &leaf(26), &all), &all) };
    let mut ar: Vec<String> = vec![];
    for x in av { ar.push("--error".into()); ar.push(x.to_string()); }
    if bad == 1 { ar.push("--error=this is not".into()); }
    let mut cfg = String::new();
    if c > 0 || bad == 2 { cfg = format!("error_values = [{}{}]\n", cv.iter().map(|x| format!("'{x}'")).collect::<Vec<_>>().join(", "), if bad == 2 { if c > 0 { ", 'a b'" } else { "'a b'" } } else { "" }); }
    if !cfg.is_empty() { mkdir(&at(".cargo")); w(".cargo/mutants.toml", &cfg); }
    unsafe { ERR = bad != 0; }
    let ar2: Vec<&str> = ar.iter().map(|s| s.as_str()).collect();
    run(t, "x()", "", &ar2)
}
