//! Path exploration and reporting.
use crate::exec::*;
use crate::expr::*;
use crate::mem::*;
use crate::z3::Z3;
use rustc_middle::ty::layout::LayoutCx;
use rustc_middle::ty::{Instance, TyCtxt, TypingEnv};
use rustc_span::def_id::DefId;
use std::collections::BTreeMap;
use std::rc::Rc;
use std::time::{Duration, Instant};

fn envn(k: &str, d: u64) -> u64 { std::env::var(k).ok().and_then(|s| s.parse().ok()).unwrap_or(d) }
pub fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"), '\t' => o.push_str("\\t"), '\r' => o.push_str("\\r"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)), c => o.push(c) }
    }
    o.push('"');
    o
}
struct Found { kind: String, msg: String, inputs: Vec<(String, u8, u128)>, notes: Vec<String>, scenario: String }
/// VP_PIN: lines "name<TAB>value" that fix symbolic inputs (replays)
fn pins() -> BTreeMap<String, Vec<u128>> {
    let mut m: BTreeMap<String, Vec<u128>> = BTreeMap::new();
    if let Ok(p) = std::env::var("VP_PIN") {
        for l in std::fs::read_to_string(p).expect("VP_PIN").lines() { if let Some((k, v)) = l.rsplit_once('\t') { m.entry(k.to_string()).or_default().push(v.parse().unwrap()); } }
    }
    m
}
fn hex(b: &[u8]) -> String { let mut s = String::from("\""); for x in b { s.push_str(&format!("{:02x}", x)); } s.push('"'); s }

pub fn main(tcx: TyCtxt<'_>) {
    let entry = std::env::var("VP_ENTRY").expect("VP_ENTRY");
    let mut did: Option<DefId> = None;
    for d in tcx.hir_body_owners() {
        let d = d.to_def_id();
        if tcx.def_kind(d) == rustc_hir::def::DefKind::Fn && tcx.def_path_str(d).ends_with(&entry) { did = Some(d); }
    }
    let did = did.unwrap_or_else(|| panic!("entry {} not found", entry));
    let env = TypingEnv::fully_monomorphized();
    let t0 = Instant::now();
    let budget = envn("VP_TIME", 600);
    let mut gl = SlotTable::new();
    gl.reserve(1);
    let mut en = Eng {
        tcx, env, lcx: LayoutCx::new(tcx, env), gl, galloc_map: Default::default(), statics: Default::default(), tls_inits: Default::default(),
        fid_map: Default::default(), fns: vec![], loc_map: Default::default(), foreign_statics: Default::default(), ex: Arena::new(),
        z3: Z3::new(envn("VP_Z3_MS", 60000) as u32), qcache: Default::default(), qhits: 0,
        cfg: Cfg { pin: pins(), max_steps: envn("VP_MAX_STEPS", 400_000_000), max_paths: envn("VP_MAX_PATHS", 10_000_000), deadline: t0 + Duration::from_secs(budget),
            trace: std::env::var("VP_TRACE").is_ok(), trace_calls: std::env::var("VP_CALLS").is_ok(), keep_going: std::env::var("VP_KEEP").is_ok(), echo: std::env::var("VP_ECHO").is_ok(), prof: std::env::var("VP_PROF").is_ok() },
        covers: Default::default(), var_cache: Default::default(), total_steps: 0, stub_log: Default::default(), fork_sites: Default::default(), instr_cache: Default::default(), checks: 0, prof: Default::default(),
    };
    let inst = Instance::mono(tcx, did);
    let f = en.fid(inst);
    let mut st = State::new();
    st.mem.reserve(1);
    let th = en.new_thread();
    st.threads.push(th);
    let FnKind::Mir(func) = en.kind_of(f) else { panic!("entry has no MIR") };
    en.push_frame(&mut st, &func, &[], 0, None, 0).map_err(|e| format!("{:?}", e)).unwrap();

    let max_found = envn("VP_MAX_FOUND", 4) as usize;
    let mut work = vec![st];
    let mut outcomes: BTreeMap<String, u64> = BTreeMap::new();
    let mut found: Vec<Found> = vec![];
    let mut unsups: BTreeMap<String, (u64, String)> = BTreeMap::new();
    let mut paths = 0u64;
    let mut forks = 0u64;
    let mut complete = true;
    let mut max_depth = 0u32;
    let mut last = Instant::now();
    // finished paths kept as concrete traces, at exponentially spread positions, for comparison with the real binary
    let mut samples: Vec<String> = vec![];
    let max_samples = envn("VP_SAMPLES", 0) as usize;
    let (mut ended, mut next_sample) = (0u64, 1u64);
    'outer: while let Some(mut st) = work.pop() {
        let s0 = st.steps;
        loop {
            let mut stop = if st.need_sched { match en.schedule(&mut st) { Ok(()) => { st.need_sched = false; continue; } Err(e) => e } } else { en.run(&mut st) };
            match &mut *stop {
                Stop::Fork(c, mv, m) => {
                    forks += 1;
                    if en.cfg.keep_going { let b = en.backtrace(&st); let l: String = b.lines().take(3).collect::<Vec<_>>().join(" < "); *en.fork_sites.entry(l).or_insert(0) += 1; }
                    let c = *c;
                    let nc = en.ex.bnot(c);
                    let mut o = st.clone();
                    apply_model(&mut o, m);
                    o.forks += 1;
                    st.forks += 1;
                    max_depth = max_depth.max(st.forks);
                    if *mv { st.add(c, &mut en.ex); o.add(nc, &mut en.ex); } else { st.add(nc, &mut en.ex); o.add(c, &mut en.ex); }
                    work.push(o);
                    if en.cfg.deadline < Instant::now() { complete = false; break 'outer; }
                }
                Stop::Block if st.forked.is_some() => { complete = false; rec(&mut outcomes, "unsup"); unsups.entry("blocking call in forked child".into()).or_insert((0, String::new())).0 += 1; break; }
                Stop::Block => { if let Some(t) = st.px.return_to.take() { st.cur = t; } else { st.need_sched = true; } }
                Stop::ThreadEnd => {
                    let c = st.cur;
                    st.threads[c].ts = TS::Done;
                    if c == 0 { rec(&mut outcomes, "ok"); break; }
                    st.need_sched = true;
                }
                Stop::End(o) => {
                    let o = o.clone();
                    let (k, msg) = match &o {
                        Outcome::Ok => ("ok", None),
                        Outcome::Pruned => ("pruned", None),
                        Outcome::Exit(_) => ("exit", None),
                        Outcome::Violation(m) => ("violation", Some(m.clone())),
                        Outcome::Panic(m) => ("panic", Some(m.clone())),
                        Outcome::Deadlock => ("deadlock", Some(format!("deadlock\n{}", en.all_backtraces(&st)))),
                        Outcome::Limit(m) => { complete = false; if m == "time" { rec(&mut outcomes, "time"); break 'outer; } if m == "steps" { ("endless", Some(format!("the run did not come to an end within {} steps\n{}", en.cfg.max_steps, en.all_backtraces(&st)))) } else { ("limit", Some(m.clone())) } }
                    };
                    rec(&mut outcomes, k);
                    if k == "ok" || k == "exit" {
                        ended += 1;
                        if ended >= next_sample && samples.len() < max_samples {
                            let inputs: Vec<String> = st.inputs.iter().map(|i| format!("[{}, {}, {}]", js(&i.name), i.bits, en.ev(&st, i.e))).collect();
                            samples.push(format!("{{\"inputs\": [{}], \"scenario\": {}}}", inputs.join(", "), en.scenario(&st)));
                            next_sample = ended * 3;
                        }
                    }
                    if let Some(m) = msg {
                        if std::env::var("VP_V").is_ok() { eprintln!("== {} {}\n{:?}", k, m, st.notes); }
                        if k != "limit" {
                            let inputs = st.inputs.iter().map(|i| (i.name.clone(), i.bits, en.ev(&st, i.e))).collect();
                            let scenario = en.scenario(&st); found.push(Found { kind: k.into(), msg: m, inputs, notes: st.notes.clone(), scenario });
                            if found.len() >= max_found { complete = false; break 'outer; }
                        }
                    }
                    break;
                }
                Stop::Unsup(s) => {
                    complete = false;
                    let bt = en.backtrace(&st);
                    if std::env::var("VP_V").is_ok() { eprintln!("UNSUP {}\n{}", s, bt); }
                    rec(&mut outcomes, "unsup");
                    let e = unsups.entry(s.clone()).or_insert((0, bt));
                    e.0 += 1;
                    if unsups.len() > 20 || std::env::var("VP_STOP_UNSUP").is_ok() { break 'outer; }
                    break;
                }
            }
        }
        en.total_steps += st.steps - s0;
        paths += 1;
        if paths >= en.cfg.max_paths { complete = false; break; }
        if last.elapsed().as_secs() >= 5 && std::env::var("VP_V").is_ok() {
            last = Instant::now();
            eprintln!("[{:.0}s] paths {} work {} forks {} steps {} queries {} ({:.1}s) hits {} nodes {} outcomes {:?}", t0.elapsed().as_secs_f64(), paths, work.len(), forks, en.total_steps, en.z3.queries, en.z3.time.as_secs_f64(), en.qhits, en.ex.len(), outcomes);
        }
    }
    if !work.is_empty() { complete = false; }
    let mut repo_fns: Vec<String> = vec![];
    let mut other = 0;
    for f in &en.fns { if let Some(FnKind::Mir(m)) = &f.kind { if m.in_repo { if !m.name.contains("vp") { repo_fns.push(m.name.clone()); } } else { other += 1; } } }
    repo_fns.sort();
    repo_fns.dedup();
    let mut o = String::from("{\n");
    o += &format!(" \"entry\": {}, \"complete\": {}, \"paths\": {}, \"forks\": {}, \"steps\": {}, \"pending\": {}, \"max_fork_depth\": {},\n", js(&entry), complete, paths, forks, en.total_steps, work.len(), max_depth);
    o += &format!(" \"queries\": {}, \"sat\": {}, \"unsat\": {}, \"cache_hits\": {}, \"solver_s\": {:.3}, \"slowest_s\": {:.3}, \"wall_s\": {:.3}, \"checks\": {},\n", en.z3.queries, en.z3.sat, en.z3.unsat, en.qhits, en.z3.time.as_secs_f64(), en.z3.slowest.as_secs_f64(), t0.elapsed().as_secs_f64(), en.checks);
    o += &format!(" \"outcomes\": {{{}}},\n", outcomes.iter().map(|(k, v)| format!("{}: {}", js(k), v)).collect::<Vec<_>>().join(", "));
    let mut cv: Vec<_> = en.covers.iter().collect();
    cv.sort();
    o += &format!(" \"covers\": {{{}}},\n", cv.iter().map(|(k, v)| format!("{}: {}", js(k), v)).collect::<Vec<_>>().join(", "));
    o += &format!(" \"repo_functions\": [{}], \"library_functions\": {},\n", repo_fns.iter().map(|s| js(s)).collect::<Vec<_>>().join(", "), other);
    o += &format!(" \"unsupported\": [{}],\n", unsups.iter().map(|(k, v)| format!("{{\"what\": {}, \"n\": {}, \"bt\": {}}}", js(k), v.0, js(&v.1))).collect::<Vec<_>>().join(", "));
    o += &format!(" \"samples\": [{}],\n", samples.join(",\n  "));
    o += &format!(" \"found\": [{}]\n}}\n", found.iter().map(|f| format!("{{\"kind\": {}, \"msg\": {}, \"notes\": [{}], \"inputs\": [{}], \"scenario\": {}}}", js(&f.kind), js(&f.msg),
        f.notes.iter().map(|s| js(s)).collect::<Vec<_>>().join(", "),
        f.inputs.iter().map(|(n, b, v)| format!("[{}, {}, {}]", js(n), b, v)).collect::<Vec<_>>().join(", "), f.scenario)).collect::<Vec<_>>().join(",\n  "));
    if en.cfg.keep_going {
        let mut v: Vec<_> = en.fork_sites.iter().collect();
        v.sort_by_key(|x| std::cmp::Reverse(*x.1));
        for (k, n) in v.iter().take(40) { eprintln!("{:8} {}", n, k); }
    }
    for k in ["L ", "R ", "I "] {
        let mut v: Vec<_> = en.prof.iter().filter(|x| x.0.starts_with(k)).collect();
        v.sort_by_key(|x| std::cmp::Reverse(*x.1));
        for (n, c) in v.iter().take(if k == "I " { 120 } else { 40 }) { eprintln!("{:8} {}", c, n); }
    }
    match std::env::var("VP_OUT") { Ok(p) => std::fs::write(p, o).unwrap(), Err(_) => println!("{}", o) }
    let _ = Rc::new(0);
}
fn rec(m: &mut BTreeMap<String, u64>, k: &str) { *m.entry(k.to_string()).or_insert(0) += 1; }

impl<'tcx> Eng<'tcx> {
    pub fn all_backtraces(&self, st: &State<'tcx>) -> String {
        let mut s = String::new();
        for (i, t) in st.threads.iter().enumerate() {
            s.push_str(&format!("thread {} {:?}:\n", i, t.ts));
            if t.frames.is_empty() { continue; }
            let mut st2 = st.clone();
            st2.cur = i;
            s.push_str(&self.backtrace(&st2));
        }
        s
    }
    /// the concrete start state, child script and end state of a path, for a native replay
    fn scenario(&self, st: &State<'tcx>) -> String {
        let Some(b) = &st.px.begin else { return "null".into() };
        let cv = |v: &V| match v { V::C(x) => *x as u8, V::S(e) => self.ev(st, *e) as u8 };
        let tree = |fs: &BTreeMap<u64, Rc<crate::posix::Ino>>| {
            let mut out = vec![];
            let mut todo = vec![(1u64, Vec::<u8>::new())];
            while let Some((i, p)) = todo.pop() {
                match &fs[&i].nd {
                    crate::posix::Nd::Dir(m, _) => { if !p.is_empty() { out.push(format!("[\"d\", {}, {}]", hex(&p), fs[&i].mode)); } for (k, j) in m { let mut q = p.clone(); q.push(b'/'); q.extend_from_slice(k); todo.push((*j, q)); } }
                    crate::posix::Nd::File(d, s) => { let mut d = (**d).clone(); for (o, e) in s.iter() { d[*o as usize] = self.ev(st, *e) as u8; } out.push(format!("[\"f\", {}, {}, {}]", hex(&p), fs[&i].mode, hex(&d))); }
                    crate::posix::Nd::Link(t) => out.push(format!("[\"l\", {}, {}]", hex(&p), hex(t))),
                    _ => {}
                }
            }
            out.join(", ")
        };
        let stdout = { let o = &st.px.out[0]; let mut d = o.0.clone(); for (i, e) in o.1.iter() { d[*i as usize] = self.ev(st, *e) as u8; } d };
        let ch: Vec<String> = st.px.script.iter().zip(st.px.children.iter()).map(|(s, c)| format!("{{\"argv\": [{}], \"cwd\": {}, \"out\": {}, \"status\": {}, \"polls\": {}, \"timed\": {}}}",
            s.argv.iter().map(|a| hex(a)).collect::<Vec<_>>().join(", "), hex(&s.cwd), hex(&s.out), match c.status { Some(V::C(x)) => x, Some(V::S(e)) => self.ev(st, e), None => 0 }, c.polls, c.dur.is_some())).collect();
        format!("{{\"begin\": [{}], \"args\": [{}], \"env\": [{}], \"cwd\": {}, \"children\": [{}], \"exit\": {}, \"end\": [{}], \"stdout\": {}, \"special\": {}}}",
            tree(&b.fs), b.args.iter().map(|a| hex(&a.iter().map(cv).collect::<Vec<u8>>())).collect::<Vec<_>>().join(", "),
            b.env.iter().map(|(k, v)| format!("[{}, {}]", hex(k), hex(v))).collect::<Vec<_>>().join(", "), hex(&b.cwd), ch.join(", "),
            if st.px.exiting { st.px.exit_code.to_string() } else { "null".into() }, tree(&st.px.fs),
            hex(&stdout), st.px.faulted.is_some() || st.px.intr_hit || st.px.sym_sched || st.px.preempt > 0 || st.px.runs > 0)
    }
    /// pick the next thread to run
    pub fn schedule(&mut self, st: &mut State<'tcx>) -> R<()> {
        st.px.chi = 0;
        let mut run: Vec<usize> = vec![];
        for i in 0..st.threads.len() {
            let ok = match &st.threads[i].ts { TS::Run => true, TS::Join(t) => st.threads[*t].ts == TS::Done, _ => false };
            if ok { run.push(i); }
        }
        if run.is_empty() {
            // let time pass: earliest deadline
            let mut best: Option<(u128, usize)> = None;
            for (i, t) in st.threads.iter().enumerate() {
                let d = match &t.ts { TS::Sleep(d) => Some(*d), TS::Futex { deadline: Some(d), .. } => Some(*d), _ => None };
                if let Some(d) = d { if best.map(|b| d < b.0).unwrap_or(true) { best = Some((d, i)); } }
            }
            let Some((d, i)) = best else { return end(Outcome::Deadlock) };
            st.px.now = st.px.now.max(d as u64);
            st.threads[i].woken = 2;
            st.threads[i].ts = TS::Run;
            run.push(i);
        }
        let mut pick = run[0];
        if run.len() > 1 && !st.px.sym_sched { pick = if run.contains(&st.cur) && !st.th().yielded { st.cur } else { *run.iter().find(|x| **x > st.cur).unwrap_or(&run[0]) }; }
        if run.len() > 1 && st.px.sym_sched {
            let e = self.choice(st, "sched", 8);
            let n = self.ex.c(run.len() as u128, 8);
            let c = self.ex.ult(e, n);
            self.assume(st, c)?;
            let mut k = run.len() - 1;
            for j in 0..run.len() - 1 {
                let x = self.ex.c(j as u128, 8);
                let q = self.ex.eq(e, x);
                if self.decide(st, q)? { k = j; break; }
            }
            pick = run[k];
        }
        st.px.ch.clear();
        st.cur = pick;
        st.threads[pick].ts = TS::Run;
        Ok(())
    }
}
