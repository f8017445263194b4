// Harness primitives. In the symbolic engine these are intercepted; in a native replay build they
// read the counterexample's values from the file named by VP_REPLAY.
#![allow(dead_code, unused)]
use std::collections::BTreeMap;
use std::sync::Mutex;

struct Replay { vals: BTreeMap<String, Vec<u64>>, next: BTreeMap<String, usize> }
static REPLAY: Mutex<Option<Replay>> = Mutex::new(None);

fn take(name: &str) -> u64 {
    let mut g = REPLAY.lock().unwrap();
    if g.is_none() {
        let mut vals: BTreeMap<String, Vec<u64>> = BTreeMap::new();
        if let Ok(p) = std::env::var("VP_REPLAY") {
            for l in std::fs::read_to_string(p).expect("replay file").lines() {
                if let Some((n, v)) = l.rsplit_once('\t') { vals.entry(n.to_string()).or_default().push(v.parse().unwrap()); }
            }
        }
        *g = Some(Replay { vals, next: BTreeMap::new() });
    }
    let r = g.as_mut().unwrap();
    let i = r.next.entry(name.to_string()).or_insert(0);
    let v = r.vals.get(name).and_then(|v| v.get(*i)).copied().unwrap_or(0);
    *i += 1;
    v
}
#[inline(never)] pub fn any_bool(name: &str) -> bool { take(name) != 0 }
#[inline(never)] pub fn any_u8(name: &str) -> u8 { take(name) as u8 }
#[inline(never)] pub fn any_u16(name: &str) -> u16 { take(name) as u16 }
#[inline(never)] pub fn any_u32(name: &str) -> u32 { take(name) as u32 }
#[inline(never)] pub fn any_u64(name: &str) -> u64 { take(name) }
#[inline(never)] pub fn assume(c: bool) { if !c { eprintln!("VP-PRUNED"); std::process::exit(77); } }
#[inline(never)] pub fn check(c: bool, msg: &str) { if !c { fail(msg) } }
#[inline(never)] pub fn fail(msg: &str) { eprintln!("VP-VIOLATION {msg}"); std::process::exit(70); }
#[inline(never)] pub fn cover(label: &str) { eprintln!("VP-COVER {label}"); }
#[inline(never)] pub fn note(msg: &str) { eprintln!("VP-NOTE {msg}"); }
/// Case-split: the engine forks on every feasible value.
#[inline(never)] pub fn concretize(x: u64) -> u64 { x }
#[inline(never)] pub fn is_symbolic(_x: u64) -> bool { false }
#[inline(never)] pub fn in_engine() -> bool { false }
/// Branch-free selection.
#[inline(never)] pub fn select_u64(c: bool, a: u64, b: u64) -> u64 { if c { a } else { b } }
#[inline(never)] pub fn pxctl(_op: u64, _a: u64, _b: u64) -> u64 { 0 }

/// Symbolic value below n.
pub fn below(name: &str, n: u32) -> u32 { let x = any_u32(name); assume(x < n); x }
/// Case-split over 0..n.
pub fn pick(name: &str, n: u32) -> u32 { concretize(below(name, n) as u64) as u32 }
/// A symbolic byte drawn from `alphabet`.
pub fn byte_of(name: &str, alphabet: &[u8]) -> u8 {
    let b = any_u8(name);
    let mut ok = false;
    for a in alphabet { ok = ok | (b == *a); }
    assume(ok);
    b
}
/// A string of exactly `n` symbolic ASCII bytes from `alphabet`.
pub fn ascii(name: &str, n: usize, alphabet: &[u8]) -> String {
    let mut v = Vec::with_capacity(n);
    for _ in 0..n { v.push(byte_of(name, alphabet)); }
    unsafe { String::from_utf8_unchecked(v) }
}
/// A string of 0..=n symbolic ASCII bytes (length case-split).
pub fn ascii_upto(name: &str, n: usize, alphabet: &[u8]) -> String {
    let k = pick(name, n as u32 + 1) as usize;
    ascii(name, k, alphabet)
}
/// One of several concrete strings.
pub fn one_of<'a>(name: &str, xs: &[&'a str]) -> &'a str { xs[pick(name, xs.len() as u32) as usize] }
