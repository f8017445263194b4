//! Requests that make no sense are refused before anything happens; those that make sense are not.
#![allow(dead_code, unused, static_mut_refs)]
use crate::vp;
use crate::vph::*;

const SRC: &str = "pub fn f() {\n    x();\n}\n";
const NAME: &str = "src/lib.rs:2:5: replace f with ()";
static mut OK: bool = false;
static mut BOTH: bool = false; // refused when listing, too
static mut ANY: bool = false; // accepted whatever is listed
fn on_spawn() { let a = child_argv(); if !answer(P1, &a) { vp::fail(&format!("cargo was run: {a:?}")); } }
fn on_exit() {
    unsafe {
        nothing_written();
        let g = exit_code();
        if OK {
            if g != 0 { vp::fail(&format!("a correct request was refused, with exit code {g}: {}", stderr())); }
            if !ANY { check_listed(&[NAME]); }
            vp::cover("accepted");
        } else {
            // 2, 3 and 4 mean that mutants were tested
            if g == 0 || g == 2 || g == 3 || g == 4 { vp::fail(&format!("a request that makes no sense ended with exit code {g}")); }
            vp::check(stdout().is_empty(), "a refused request lists nothing");
            vp::cover("refused");
        }
    }
}
fn setup() {
    base();
    mkdir(&at(".cargo"));
    // results of an earlier run
    mkdir(&at("mutants.out"));
    w("mutants.out/caught.txt", "old\n");
    w("mutants.out/outcomes.json", "{}");
}
/// refused both when listing and when testing
fn run(a: &[&str]) {
    lab_start(&[("src/lib.rs", SRC)], vec![]);
    hooks(on_spawn, on_exit);
    begin(&[]);
    unsafe { if OK || BOTH && vp::any_bool("--list") { args(&["--list"]); } }
    args(a);
    go()
}
#[derive(Clone, Copy, PartialEq)]
enum T { B, N, S, L, Tool }
const KEYS: [(&str, T); 19] = [
    ("cap_lints", T::B), ("copy_vcs", T::B), ("error_values", T::L), ("examine_globs", T::L), ("exclude_globs", T::L), ("exclude_re", T::L), ("examine_re", T::L), ("additional_cargo_args", T::L), ("additional_cargo_test_args", T::L), ("minimum_test_timeout", T::N),
    ("output", T::S), ("profile", T::S), ("skip_calls", T::L), ("skip_calls_defaults", T::B), ("test_package", T::L), ("test_tool", T::Tool), ("timeout_multiplier", T::N), ("build_timeout_multiplier", T::N), ("test_workspace", T::B),
];
fn good(t: T) -> &'static str { match t { T::B => "true", T::N => "2.5", T::S => "'src'", T::L => "[]", T::Tool => "'nextest'" } }
/// a key of the configuration file with any one letter in place of one of its own
#[inline(never)]
pub fn conf_key() {
    setup();
    let (k, t) = KEYS[vp::pick("key", 19) as usize];
    let mut n = k.as_bytes().to_vec();
    let place = vp::pick("position", 4); // first, middle, last, one more
    let c = vp::any_u8("letter");
    vp::assume(c >= b'a' && c <= b'z' || c == b'_' || c == b'-' || c == b's' || c >= b'A' && c <= b'Z');
    match place { 0 => n[0] = c, 1 => { let i = n.len() / 2; n[i] = c }, 2 => { let i = n.len() - 1; n[i] = c }, _ => n.push(c) }
    let key = unsafe { String::from_utf8_unchecked(n) };
    let off = place == 0 && vp::any_bool("--no-config");
    unsafe { OK = off | (place < 3 && key == k); ANY = true; }
    w(".cargo/mutants.toml", &format!("{key} = {}\n", good(t)));
    run(if off { &["--no-config"] } else { &[] })
}
/// every key with values of every type
#[inline(never)]
pub fn conf_types() {
    setup();
    let (k, t) = KEYS[vp::pick("key", 19) as usize];
    const V: [(&str, u32); 11] = [("true", 1), ("3", 2), ("2.5", 2), ("'cargo'", 4 + 16), ("'other'", 4), ("['a', 'b']", 8), ("[]", 8), ("[1]", 0), ("['a', 2]", 0), ("{}", 0), ("[[]]", 0)];
    let (v, m) = V[vp::pick("value", 11) as usize];
    let bit = match t { T::B => 1, T::N => 2, T::S => 4, T::L => 8, T::Tool => 16 };
    unsafe { OK = m & bit != 0; ANY = true; }
    w(".cargo/mutants.toml", &format!("{k} = {v}\n"));
    run(&[])
}
/// files that are no configuration
#[inline(never)]
pub fn conf_syntax() {
    setup();
    const V: [(&str, bool); 20] = [
        ("", true), ("# nothing\n", true), ("cap_lints\n", false), ("cap_lints =\n", false), ("cap_lints = true\ncap_lints = false\n", false), ("[cap_lints]\n", false), ("exclude_re = ['a'\n", false), ("= 1\n", false),
        ("exclude_re = ['(']\n", false), ("examine_re = ['a', '[']\n", false), ("examine_globs = ['[z-a]']\n", false), ("exclude_globs = ['x', '{a']\n", false), ("error_values = ['(']\n", false), ("error_values = ['1', '2 +']\n", false), ("[mutants]\nprofile = 'x'\n", false), ("profile = 'x'\r\n", true),
        ("minimum_test_timeout = -1\n", false), ("minimum_test_timeout = nan\n", false), ("minimum_test_timeout = 1e30\n", false), ("minimum_test_timeout = 0\n", true),
    ];
    let k = vp::pick("text", 22) as usize;
    let off = vp::any_bool("--no-config");
    unsafe {
        ANY = true;
        BOTH = true;
        if k < 20 { OK = V[k].1; w(".cargo/mutants.toml", V[k].0); }
        else if k == 20 { put(&at(".cargo/mutants.toml"), b"profile = '\xff'\n"); }
        else { mkdir(&at(".cargo/mutants.toml")); }
        if off { OK = true; ANY = false; }
    }
    run(if off { &["--no-config"] } else { &[] })
}
const BAD: [&[&str]; 50] = [
    &["--in-place", "-j2"], &["--in-place", "--jobs=1"], &["--in-place", "--gitignore=false"], &["--in-place", "--gitignore=true"], &["--in-place", "--no-copy-target"], &["--timeout=1", "--timeout-multiplier=2"], &["--build-timeout=1", "--build-timeout-multiplier=2"], &["-d", ".", "--manifest-path", "./Cargo.toml"],
    &["--shard=2/2"], &["--shard", "x"], &["--baseline=maybe"], &["--colors=blue"], &["--level=loud"], &["--test-tool=other"], &["--jobs=-1"], &["--jobs=x"], &["-t", "x"], &["--cap-lints=maybe"], &["--copy-vcs=2"], &["--test-workspace=x"],
    &["--unknown"], &["extra"], &["--re", "("], &["--exclude-re", "["], &["-f", "[z-a]"], &["-e", "{a"], &["--error", "("], &["--in-diff", "nowhere"], &["--in-diff", "src"], &["--in-diff", "latin1"],
    &["--manifest-path", "nowhere/Cargo.toml"], &["--manifest-path", "src"], &["-d", "nowhere"], &["--jobserver=x"], &["--jobserver-tasks=x"], &["--line-col=x"], &["--list=x"], &["--timeout=1", "--timeout=2"], &["--baseline=run", "--baseline=skip"], &["--minimum-test-timeout=x"],
    &["--profile"], &["--no-shuffle=x"], &["--test-package"], &["--re", "ok", "--re", "a)"], &["-f", "ok", "-f", "[!"], &["--error=1", "--error=fn"], &["--gitignore=maybe"], &["--skip-calls-defaults=no"], &["--timeout=nan"], &["--build-timeout=-1"],
];
#[inline(never)]
pub fn opts_bad() { setup(); unsafe { BOTH = true; } put(&at("latin1"), b"\xff\n"); run(BAD[vp::pick("options", 50) as usize]) }
const GOOD: [&[&str]; 27] = [
    &["--in-place"], &["-j2"], &["--jobs", "0"], &["--gitignore=false"], &["--timeout=1", "--build-timeout-multiplier=2"], &["--timeout-multiplier=2", "--build-timeout=1"], &["--minimum-test-timeout=0"], &["-t", "0"], &["-d", "."], &["--manifest-path", "./Cargo.toml"], &["--shard=0/1"], &["--baseline=skip"], &["--colors=never"], &["-L", "error"],
    &["--test-tool=nextest"], &["--cap-lints=true"], &["--copy-vcs=false"], &["--test-workspace=true", "--test-package=p"], &["--re", "f", "-F", "x"], &["-E", "x", "--exclude-re=y"], &["-f", "*", "-f", "x"], &["--error=1", "--error", "a!()"], &["--jobserver-tasks=3", "--jobserver=true"], &["-C", "-x", "-C=--y"], &["--", "--nocapture"], &["--no-shuffle", "--shuffle"], &["--features=a", "--features", "b", "--all-features"],
];
#[inline(never)]
pub fn opts_good() { setup(); unsafe { OK = true; } run(GOOD[vp::pick("options", 27) as usize]) }
/// environment variables stand for options
#[inline(never)]
pub fn opts_env() {
    setup();
    const V: [(&str, &str, bool); 10] = [("CARGO_MUTANTS_JOBS", "x", false), ("CARGO_MUTANTS_JOBS", "2", true), ("CARGO_MUTANTS_JOBS", "-1", false), ("CARGO_MUTANTS_MINIMUM_TEST_TIMEOUT", "x", false), ("CARGO_MUTANTS_MINIMUM_TEST_TIMEOUT", "0.5", true), ("CARGO_MUTANTS_TRACE_LEVEL", "loud", false), ("CARGO_MUTANTS_TRACE_LEVEL", "warn", true), ("CARGO_TERM_COLOR", "blue", false), ("CARGO_TERM_COLOR", "never", true), ("CARGO_MUTANTS_OUTPUT", "elsewhere", true)];
    let (k, v, ok) = V[vp::pick("variable", 10) as usize];
    env(k, v);
    unsafe { OK = ok; }
    run(&[])
}
/// every number text of up to three bytes
#[inline(never)]
pub fn opts_number() {
    setup();
    let n = 1 + vp::pick("length", 3) as usize;
    let mut v: Vec<u8> = vec![];
    for _ in 0..n { v.push(vp::concretize(vp::byte_of("byte", b"05.e-x") as u64) as u8); }
    let o = vp::pick("option", 5);
    let opt = ["--timeout=", "--build-timeout=", "--timeout-multiplier=", "--jobs=", "--minimum-test-timeout="][o as usize];
    let mut i = 0;
    let neg = v[0] == b'-';
    if neg { i = 1; }
    let mut digits = 0;
    let mut nonzero = false;
    let (mut dot, mut exp) = (false, false);
    let d = |c: u8| c == b'0' || c == b'5';
    while i < n && d(v[i]) { digits += 1; nonzero |= v[i] == b'5'; i += 1; }
    if o != 3 && i < n && v[i] == b'.' { i += 1; while i < n && d(v[i]) { digits += 1; nonzero |= v[i] == b'5'; i += 1; } }
    let mut num = digits > 0;
    if o != 3 && num && i < n && v[i] == b'e' { i += 1; if i < n && v[i] == b'-' { i += 1; } let s = i; while i < n && d(v[i]) { i += 1; } num = i > s; }
    num = num && i == n;
    // times and their multipliers cannot be negative; a number of jobs has no sign
    let ok = num && !(neg && (o == 3 || nonzero));
    unsafe { OK = ok; }
    let s = format!("{opt}{}", unsafe { String::from_utf8_unchecked(v) });
    run(&[&s])
}
