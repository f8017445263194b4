//! Timeouts: which one applies to each cargo command, and that it is enforced, for every duration of every command.
#![allow(dead_code, unused, static_mut_refs)]
use crate::vp;
use crate::vph::*;

const MS: u64 = 1_000_000;
const SLACK: u64 = 60 * MS; // one polling interval, and a little
const LIB: &str = "pub fn f() {\n    g()\n}\n";
fn muts() -> Vec<Mu> { vec![mu("src/lib.rs", "pub fn f() {\n    {{g()}}\n}\n", "()", "replace f with ()")] }
#[derive(Clone, Copy)]
struct Run { id: u64, who: i32, ph: Ph, at: u64, end: u64, dur: u64, sym: bool, over: bool }
static mut RUNS: Vec<Run> = Vec::new();
/// how long (ns) a command may take at most, 0: it is instant
static mut DUR: fn(i32, Ph) -> u64 = none;
fn none(_: i32, _: Ph) -> u64 { 0 }
const HANG: u64 = u64::MAX;
static mut FINE: u64 = 0;
fn now() -> u64 { vp::pxctl(13, 0, 0) }
/// the expected limit of a command given the measured baseline (build, test) times; None: no limit
static mut LIMIT: fn(i32, Ph, u64, u64) -> Option<(u64, u64)> = nolimit;
fn nolimit(_: i32, _: Ph, _: u64, _: u64) -> Option<(u64, u64)> { None }
fn close() {
    unsafe {
        let t = now();
        let n = RUNS.len();
        if n == 0 || RUNS[n - 1].over { return; }
        RUNS[n - 1].end = t;
        RUNS[n - 1].over = true;
        let r = RUNS[n - 1];
        let b = vp::pxctl(15, r.id, 0);
        vp::check(b & 1 == 1, "the command was waited for");
        let killed = b & 2 != 0;
        let took = r.end - r.at;
        let base = |ph: Ph| -> u64 { for x in RUNS.iter() { if x.who == -1 && x.ph == ph { return x.end - x.at; } } 0 };
        let lim = LIMIT(r.who, r.ph, base(Ph::Build), base(Ph::Test));
        if killed {
            vp::cover("killed");
            vp::check(b & 4 != 0, "the whole process group is signalled");
            match lim {
                None => vp::fail("a command without a time limit was killed"),
                Some((lo, hi)) => {
                    if took < lo { vp::fail(&format!("{:?} of scenario {} was killed after {took} ns, before its limit of {lo}", r.ph, r.who)); }
                    if took > hi + SLACK { vp::fail(&format!("{:?} of scenario {} was killed only after {took} ns, its limit is {hi}", r.ph, r.who)); }
                    if r.sym { vp::check(r.dur + SLACK > lo, "a command that ended in time was killed"); }
                }
            }
            lab().seen[n - 1].r = Res::Hang;
        } else {
            if r.sym { if let Some((lo, hi)) = lim { vp::check(r.dur <= hi, "a command that ran over its limit was not killed"); } vp::cover("ended by itself"); }
            if r.dur == HANG { vp::fail("a hanging command was neither killed nor waited for"); }
        }
    }
}
fn on_spawn() {
    let a = child_argv();
    if answer(P1, &a) { return; }
    close();
    let (k, ph) = observe();
    unsafe {
        let max = DUR(k, ph);
        let mut d = max;
        let mut sym = false;
        if max == HANG { result(Res::Hang); }
        else if max > 0 {
            d = vp::any_u64("duration in ns");
            sym = true;
            vp::assume(d <= max);
            vp::pxctl(37, d, 0);
        }
        RUNS.push(Run { id: children() - 1, who: k, ph, at: now(), end: 0, dur: d, sym, over: false });
    }
}
fn on_exit() {
    close();
    source_untouched();
    no_temp();
    protocol(false);
    let (v, code, n) = verdicts(false, true);
    check_lists(&v);
    check_counts(&v, n, 0);
    expect_exit(code);
    if code == 3 { vp::cover("timeout reported"); }
}
fn start(d: fn(i32, Ph) -> u64, l: fn(i32, Ph, u64, u64) -> Option<(u64, u64)>) {
    base();
    lab_start(&[("src/lib.rs", LIB)], muts());
    unsafe { DUR = d; LIMIT = l; }
    hooks(on_spawn, on_exit);
    begin(&["--no-shuffle"]);
}
// ---- explicit limits ----
static mut TT: u64 = 0;
static mut BT: u64 = 0;
fn lim_explicit(who: i32, ph: Ph, _: u64, _: u64) -> Option<(u64, u64)> {
    unsafe { match ph { Ph::Test => Some((TT, TT)), _ => if who == -1 { None } else { Some((BT, BT)) } } }
}
#[inline(never)]
pub fn time_explicit() {
    fn d(who: i32, ph: Ph) -> u64 { if who == -1 { if ph == Ph::Test { 300 * MS } else { 0 } } else { 450 * MS } }
    start(d, lim_explicit);
    let t = vp::pick("test limit", 3) as u64 + 1; // 0.1, 0.2, 0.3 s
    let b = vp::pick("build limit", 2) as u64 + 2;
    unsafe { TT = t * 100 * MS; BT = b * 100 * MS; }
    arg(&format!("--timeout=0.{t}"));
    arg(&format!("--build-timeout=0.{b}"));
    go()
}
// ---- derived from the baseline ----
fn ceil_s(ns: u64) -> u64 { (ns + 999 * MS + 999_999) / (1000 * MS) * (1000 * MS) }
/// the measured time excludes a little of what the harness sees, so the expected limit is an interval
fn auto(test: u64, mult10: u64, min: u64) -> (u64, u64) {
    let lo = ceil_s(test.saturating_sub(5 * MS) * mult10 / 10);
    let hi = ceil_s((test + 5 * MS) * mult10 / 10);
    (if lo > min { lo } else { min }, if hi > min { hi } else { min })
}
fn lim_default(who: i32, ph: Ph, b: u64, t: u64) -> Option<(u64, u64)> { if who == -1 || ph != Ph::Test { None } else { Some(auto(t, 50, 20_000 * MS)) } }
/// no options: five times the baseline, rounded up to a second, and at least 20 s
#[inline(never)]
pub fn time_default() {
    fn d(who: i32, ph: Ph) -> u64 { if who == -1 { if ph == Ph::Test { 5_500 * MS } else { 0 } } else if ph == Ph::Test { HANG } else { 0 } }
    start(d, lim_default);
    go()
}
static mut MULT: u64 = 0;
static mut BMULT: u64 = 0;
static mut MIN: u64 = 0;
fn lim_mult(who: i32, ph: Ph, b: u64, t: u64) -> Option<(u64, u64)> {
    unsafe {
        if who == -1 { return None; }
        if ph == Ph::Test { return Some(auto(t, MULT, MIN)); }
        if BMULT == 0 { return None; }
        Some((b.saturating_sub(5 * MS) * BMULT / 10, (b + 5 * MS) * BMULT / 10))
    }
}
fn d_mult(who: i32, ph: Ph) -> u64 {
    if who == -1 { return if ph == Ph::Test { 900 * MS } else { 200 * MS }; }
    if ph == Ph::Test || vp::any_bool("build hangs") { HANG } else { 0 }
}
#[inline(never)]
pub fn time_mult() {
    start(d_mult, lim_mult);
    unsafe { MULT = 25; BMULT = 15; MIN = 1200 * MS; }
    args(&["--timeout-multiplier=2.5", "--build-timeout-multiplier=1.5", "--minimum-test-timeout=1.2"]);
    go()
}
/// all combinations of multipliers and minimum, on the command line, in the configuration, or in both
#[inline(never)]
pub fn time_mults() {
    fn d(who: i32, ph: Ph) -> u64 { if who == -1 { return if ph == Ph::Test { 90 * MS } else if unsafe { BMULT > 0 } { 40 * MS } else { 0 }; } if ph == Ph::Test || unsafe { BMULT > 0 } && vp::any_bool("build hangs") { HANG } else { 0 } }
    start(d, lim_mult);
    let place = |name: &str, key: &str, vals: &[(&str, u64)], cfg: &mut String| -> Option<u64> {
        let k = vp::pick(name, vals.len() as u32 + 1) as usize;
        if k == vals.len() { return None; }
        match vp::pick("given in", 3) {
            0 => arg(&format!("--{}={}", key.replace('_', "-"), vals[k].0)),
            1 => *cfg += &format!("{key} = {}\n", vals[k].0),
            _ => { arg(&format!("--{}={}", key.replace('_', "-"), vals[k].0)); *cfg += &format!("{key} = 7.0\n"); }
        }
        Some(vals[k].1)
    };
    let mut cfg = String::new();
    let (mut m, mut b, mut min) = (50, 0, 20_000 * MS);
    match vp::pick("which", 3) {
        0 => { if let Some(x) = place("timeout multiplier", "timeout_multiplier", &[("0.5", 5), ("10.0", 100)], &mut cfg) { m = x; } if let Some(x) = place("minimum", "minimum_test_timeout", &[("1.5", 1500 * MS)], &mut cfg) { min = x; } }
        1 => { if let Some(x) = place("build multiplier", "build_timeout_multiplier", &[("0.5", 5), ("2.0", 20)], &mut cfg) { b = x; } }
        _ => { if let Some(x) = place("minimum", "minimum_test_timeout", &[("0.0", 0), ("40.0", 40_000 * MS)], &mut cfg) { min = x; } if let Some(x) = place("build multiplier", "build_timeout_multiplier", &[("1.0", 10)], &mut cfg) { b = x; } }
    }
    unsafe { MULT = m; BMULT = b; MIN = min; }
    if !cfg.is_empty() { mkdir(&at(".cargo")); w(".cargo/mutants.toml", &cfg); lab().snap = snap(W); }
    go()
}
/// from the configuration file
#[inline(never)]
pub fn time_config() {
    start(d_mult, lim_mult);
    unsafe { MULT = 15; BMULT = 30; MIN = 700 * MS; }
    mkdir(&at(".cargo"));
    w(".cargo/mutants.toml", "timeout_multiplier = 1.5\nbuild_timeout_multiplier = 3.0\nminimum_test_timeout = 0.7\n");
    lab().snap = snap(W);
    go()
}
/// no baseline: 300 s for tests, no limit for builds unless given
fn lim_skip(who: i32, ph: Ph, _: u64, _: u64) -> Option<(u64, u64)> { if ph == Ph::Test { Some((300_000 * MS, 300_000 * MS)) } else { None } }
#[inline(never)]
pub fn time_skip() {
    fn d(who: i32, ph: Ph) -> u64 { if ph == Ph::Test { HANG } else { 400 * MS } }
    start(d, lim_skip);
    arg("--baseline=skip");
    go()
}
#[inline(never)]
pub fn time_skip_explicit() {
    fn d(who: i32, ph: Ph) -> u64 { 400 * MS }
    start(d, lim_explicit);
    unsafe { TT = 200 * MS; BT = 300 * MS; }
    args(&["--baseline=skip", "--timeout=0.2", "--build-timeout=0.3"]);
    go()
}
