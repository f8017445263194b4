#!/usr/bin/env python3
"""check.py PROPERTY: decides one property of /repo by symbolic execution of the real program.
Exit 0: held on everything explored; 1: VIOLATION; 2: the check could not be run."""
import concurrent.futures as cf, json, os, shutil, subprocess, sys, threading, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'
B = V + '/.build'
sys.path.insert(0, V + '/bin')
import native
from suite import PROPERTIES
TIER = os.environ.get('VERIF_TIER', 'quick')
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
NIGHTLY = 'nightly'
MIRI = '/root/.cache/miri'

def sh(cmd, env=None, cwd=None, log=None):
    with open(log, 'w') as f: return subprocess.run(cmd, env=env, cwd=cwd, stdout=f, stderr=subprocess.STDOUT).returncode
def clean_env():
    e = {k: v for k, v in os.environ.items() if not k.startswith(('CARGO_', 'RUSTC', 'RUSTFLAGS', 'RUSTDOC', 'VP_', 'RUST_', 'NEXTEST'))}
    for k in ('CARGO', 'TERM', 'NO_COLOR', 'CLICOLOR'): e.pop(k, None)
    for k in ('CARGO_HOME', 'RUSTUP_HOME'):
        if k in os.environ: e[k] = os.environ[k]
    return e
def build_engine():
    return sh(['cargo', '+' + NIGHTLY, 'build', '--release', '--offline', '--locked'], env=clean_env(), cwd=V + '/engine', log=B + '/engine.log')
def build_deps():
    os.makedirs(B + '/cap', exist_ok=True)
    e = clean_env()
    e.update(RUSTC=V + '/bin/rustc-shim', RUSTC_WORKSPACE_WRAPPER=V + '/bin/capture-wrapper', VP_CAPTURE=B + '/cap',
             RUSTFLAGS=f'-Zalways-encode-mir --sysroot {MIRI} -Zmir-opt-level=0 -Cdebug-assertions=off -Coverflow-checks=off --cap-lints=allow --cfg=miri')
    if os.path.exists(B + '/cap/args'): os.remove(B + '/cap/args')
    # the crate itself is never compiled here, so cargo must be made to ask for it again
    import glob
    for d in glob.glob(B + '/deps/x86_64-unknown-linux-gnu/debug/.fingerprint/cargo-mutants-*'): shutil.rmtree(d, ignore_errors=True)
    return sh(['cargo', '+' + NIGHTLY, 'check', '--offline', '--locked', '--bin', 'cargo-mutants', '--target', 'x86_64-unknown-linux-gnu', '--target-dir', B + '/deps'], env=e, cwd=REPO, log=B + '/deps.log')
def build_native():
    e = clean_env()
    e.update(CARGO_PROFILE_DEV_DEBUG='0', CARGO_PROFILE_DEV_OVERFLOW_CHECKS='false', CARGO_PROFILE_DEV_DEBUG_ASSERTIONS='false', CARGO_INCREMENTAL='0')
    return sh(['cargo', 'build', '--offline', '--locked', '--bin', 'cargo-mutants', '--target-dir', B + '/native'], env=e, cwd=REPO, log=B + '/native.log')

def captured():
    a = [x.decode() for x in open(B + '/cap/args', 'rb').read().split(b'\0')[:-1]]
    e = {}
    for kv in open(B + '/cap/env', 'rb').read().split(b'\0'):
        if b'=' in kv:
            k, v = kv.split(b'=', 1)
            e[k.decode()] = v.decode(errors='replace')
    out, i = [], 0
    while i < len(a):
        x = a[i]
        if x in ('-C', '--codegen') and a[i + 1].startswith(('incremental=', 'embed-bitcode', 'debuginfo')): i += 2; continue
        if x == '--out-dir': i += 2; continue
        if x == '--cfg=miri' or x.startswith(('--error-format', '--json', '--diagnostic-width', '--emit')): i += 1; continue
        out.append(x)
        i += 1
    return out, e
def run_entry(mod, entry, secs, pin=None, found=4, samples=6, extra=None, verbose=False):
    args, cenv = captured()
    tag = f'{entry}.pin' if pin else entry
    os.makedirs(B + '/run', exist_ok=True)
    ov = f'{B}/run/{tag}.overlay'
    with open(ov, 'w') as f:
        for m in ['vp', 'vph', mod]: f.write(f'{REPO}/src/main.rs\t#[path="{V}/harness/{m}.rs"] mod {m};\n')
    out = f'{B}/run/{tag}.json'
    if os.path.exists(out): os.remove(out)
    e = clean_env()
    for k, v in cenv.items():
        if k.startswith('CARGO') or k == 'OUT_DIR': e[k] = v
    sysroot = subprocess.check_output(['rustc', '+' + NIGHTLY, '--print', 'sysroot'], text=True).strip()
    e.update(VP_OVERLAY=ov, VP_ENTRY=entry, VP_OUT=out, VP_TIME=str(secs), VP_SAMPLES=str(samples), VP_MAX_FOUND=str(found), LD_LIBRARY_PATH=sysroot + '/lib')
    if pin: e['VP_PIN'] = pin
    if extra: e.update(extra)
    if verbose: e['VP_V'] = '1'
    os.makedirs(B + '/run/o', exist_ok=True)
    with open(f'{B}/run/{tag}.log', 'w') as lf:
        try: rc = subprocess.run([V + '/engine/target/release/vpsym'] + args + ['--emit=metadata', '--out-dir', B + '/run/o', '-A', 'warnings'], cwd=REPO, env=e, stdout=lf, stderr=subprocess.STDOUT, timeout=secs + 120).returncode
        except subprocess.TimeoutExpired: rc = -1
    try: return json.load(open(out)), rc
    except Exception: return None, rc

def prepare():
    os.makedirs(B, exist_ok=True)
    with cf.ThreadPoolExecutor(2) as ex:
        a, b = ex.submit(build_engine), ex.submit(build_deps)
        ra, rb = a.result(), b.result()
    if ra: print(open(B + '/engine.log').read()[-3000:]); return 'the engine did not build'
    if rb or not os.path.exists(B + '/cap/args'): print(open(B + '/deps.log').read()[-3000:]); return 'the dependencies did not build'
    return None

def main():
    pid = sys.argv[1]
    t0 = time.time()
    if pid == 'setup':
        err = prepare()
        if err: print('ERROR', err)
        return 2 if err else 0
    prop = PROPERTIES[pid]
    err = prepare()
    if err: print('ERROR', err); return 2
    entries = [x for x in prop['entries'] if TIER == 'thorough' or x.get('tier', 'quick') == 'quick']
    budget = prop.get('thorough_s', 1500) if TIER == 'thorough' else prop.get('quick_s', 240)
    nat = {}
    nt = threading.Thread(target=lambda: nat.update(rc=build_native()))
    nt.start()
    res = {}
    with cf.ThreadPoolExecutor(8) as ex:
        # longest first
        fs = {ex.submit(run_entry, x['mod'], x['entry'], x.get('secs', budget)): x for x in sorted(entries, key=lambda x: -x.get('cost', 10))}
        for f in cf.as_completed(fs): res[fs[f]['entry']] = f.result()
    nt.join()
    binary = B + '/native/debug/cargo-mutants'
    have = nat.get('rc') == 0 and os.path.exists(binary)
    known = [json.loads(l) for l in open(V + '/known-findings.jsonl') if l.strip() and not l.startswith('fixed:')] if os.path.exists(V + '/known-findings.jsonl') else []
    viol, unconfirmed, knownhit, validated, disagree, sampled = [], [], {}, 0, [], []
    errors = []
    os.makedirs(V + '/evidence/replay', exist_ok=True)
    for x in entries:
        r, rc = res[x['entry']]
        if r is None: errors.append(f"{x['entry']}: engine ended with {rc}: " + open(f"{B}/run/{x['entry']}.log").read()[-600:]); continue
        for n, fd in enumerate(r['found']):
            k = next((k for k in known if k.get('status') != 'fixed' and k['property'] == pid and k['entry'] == x['entry'] and k['contains'] in fd['msg']), None)
            if k: knownhit.setdefault(k['what'], 0); knownhit[k['what']] += 1; continue
            name = f"{V}/evidence/replay/{pid}-{x['entry']}-{n}"
            with open(name + '.pin', 'w') as f:
                for nm, bits, val in fd['inputs']: f.write(f'{nm}\t{val}\n')
            # concrete re-execution with every symbolic input fixed to the solver's model
            pr, prc = run_entry(x['mod'], x['entry'], 120, pin=name + '.pin', samples=0)
            again = bool(pr and pr['found'])
            why = x['loose'] or native.eligible(fd['scenario'])
            how = {'pinned': again, 'native': None, 'native_not_run': why}
            if have and why is None:
                agrees, diffs = native.replay(fd['scenario'], binary)
                if fd['kind'] in ('endless', 'deadlock') and diffs == ['the real binary did not finish']: agrees = True
                how['native'] = agrees
                how['differences'] = diffs
            fd.update(entry=x['entry'], replayed=how)
            with open(name + '.json', 'w') as f: json.dump(fd, f, indent=1)
            if not again or how['native'] is False: unconfirmed.append((x['entry'], fd['msg'].split('\n')[0], how)); continue
            viol.append((name + '.json', x['entry'], fd, how))
            if len(viol) >= 3: break
        if not viol and have and not x['loose']:
            for s in r['samples'][:3 if TIER == 'quick' else 6]:
                if native.eligible(s['scenario']) is not None: continue
                ok, d = native.replay(s['scenario'], binary)
                if ok: validated += 1
                else: disagree.append({'entry': x['entry'], 'differences': d[:5]})
        for s in r['samples'][:1]: sampled.append({'entry': x['entry'], 'inputs': s['inputs'][:40], 'args': [native.unhex(a).decode(errors='replace') for a in (s['scenario'] or {}).get('args', [])], 'exit': (s['scenario'] or {}).get('exit')})
        if len(viol) >= 3: break
    good = [res[x['entry']][0] for x in entries if res[x['entry']][0]]
    fns = sorted({f for r in good for f in r['repo_functions']})
    tot = lambda k: sum(r[k] for r in good)
    cov = {
        'states': tot('paths') + tot('forks'), 'transitions': tot('steps'), 'traces_validated_against_impl': validated, 'samples': sampled[:12],
        'exhaustive': all(r['complete'] for r in good) and not errors,
        'solver_queries': tot('queries'), 'solver_sat': tot('sat'), 'solver_unsat': tot('unsat'), 'solver_s': round(tot('solver_s'), 2), 'slowest_query_s': max([r['slowest_s'] for r in good] or [0]), 'query_cache_hits': tot('cache_hits'),
        'paths': tot('paths'), 'assertions_evaluated': tot('checks'),
        'harnesses': [{'entry': x['entry'], 'bounds': x['bounds'], 'complete': res[x['entry']][0]['complete'], 'paths': res[x['entry']][0]['paths'], 'pending_paths': res[x['entry']][0]['pending'], 'max_branch_depth': res[x['entry']][0]['max_fork_depth'],
                       'outcomes': res[x['entry']][0]['outcomes'], 'reached': res[x['entry']][0]['covers'], 'missing_reachability': [c for c in x.get('covers', []) if c not in res[x['entry']][0]['covers']],
                       'unsupported': [{'what': u['what'], 'n': u['n']} for u in res[x['entry']][0]['unsupported']], 'wall_s': res[x['entry']][0]['wall_s']} for x in entries if res[x['entry']][0]],
        'repo_functions_encoded': len(fns), 'repo_functions': fns, 'library_functions_encoded': max([r['library_functions'] for r in good] or [0]),
        'unconfirmed_counterexamples': [f'{e}: {m} {h}' for e, m, h in unconfirmed], 'model_disagreements': disagree, 'engine_errors': errors,
    }
    ev = {'property': pid, 'tier': TIER, 'seed': SEED, 'level': 'model_checking', 'coverage': cov, 'assumptions': prop.get('assumptions', []), 'wall_s': round(time.time() - t0, 1), 'violations': len(viol)}
    with open(f'{V}/evidence/{pid}.json', 'w') as f: json.dump(ev, f, indent=1)
    for h in cov['harnesses']: print(f"{pid} {h['entry']}: paths={h['paths']} complete={h['complete']} wall={h['wall_s']:.1f}s outcomes={h['outcomes']} reached={h['reached']}" + (f" NOT REACHED {h['missing_reachability']}" if h['missing_reachability'] else '') + (f" unsupported={[u['what'][:100] for u in h['unsupported']]}" if h['unsupported'] else ''))
    for e, m, h in unconfirmed: print(f'UNCONFIRMED (not counted) {e}: {m} {h}')
    for d in disagree: print('MODEL-DISAGREEMENT', d)
    for e in errors: print('ENGINE-ERROR', e)
    for w, n in knownhit.items(): print(f'KNOWN-FINDING: property={pid} {w}')
    for path, e, fd, how in viol: print(f"{e}: {fd['msg']}\n  notes: {fd['notes'][:12]}\n  inputs: {[(i[0], i[2]) for i in fd['inputs']][:40]}\n  replayed: {how}"); print(f'VIOLATION property={pid} replay={path}')
    print(f"{pid} {TIER}: {cov['paths']} paths, {cov['solver_queries']} queries ({cov['solver_s']} s), {validated} traces agree with the real binary, {time.time()-t0:.0f} s")
    if viol: return 1
    if errors and not good: return 2
    return 0
if __name__ == '__main__': sys.exit(main())
