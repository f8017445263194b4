"""Replays a recorded path (start tree, arguments, environment, results of every cargo command) against the real
cargo-mutants binary, built from /repo, as an unprivileged user inside /tmp/vpw, and compares what can be observed."""
import json, os, re, shutil, stat, subprocess, sys, time
ROOT = '/tmp/vpw'
UID = 65534
FAKE = r'''#!/usr/bin/python3
import fcntl, json, os, signal, sys
R = '/tmp/vpw/ctl/'
with open(R + 'lock', 'w') as l:
    fcntl.flock(l, fcntl.LOCK_EX)
    s = json.load(open(R + 'script.json'))
    log = open(R + 'calls', 'a+'); log.seek(0)
    n = len(log.readlines())
    log.write(json.dumps([sys.argv[1:], os.getcwd()]) + '\n'); log.flush()
    last = n + 1 == len(s['children'])
    if last and s['stop']:
        sys.path.insert(0, s['bin'])
        import native
        json.dump(native.tree(), open(R + 'midtree', 'w'))
        os.kill(os.getppid(), signal.SIGKILL)
        sys.exit(0)
c = s['children'][n] if n < len(s['children']) else {'out': '', 'status': 0}
os.write(1, bytes.fromhex(c['out']))
st = c['status']
if st & 0x7f:
    import resource
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    if st & 0x7f not in (signal.SIGKILL, signal.SIGSTOP):
        try: signal.signal(st & 0x7f, signal.SIG_DFL)
        except Exception: pass
    os.kill(os.getpid(), st & 0x7f)
    import time; time.sleep(5)
os._exit(st >> 8 & 255)
'''
def unhex(h): return bytes.fromhex(h)
def eligible(sc):
    if sc is None: return 'no recorded start'
    if sc.get('special'): return 'uses a fault, an interrupt, a chosen schedule or more than one run'
    for c in sc['children']:
        if c['timed'] or c['polls'] > 1000: return 'uses a command with a chosen running time'
        if c['status'] & 0x7f in (19, 20, 21, 22): return 'uses a stop signal'
        if c['status'] & 0x7f and (c['status'] & 0x7f) > 31: return 'uses a real-time signal'
        if c['status'] & 0x7f in (17, 18, 23, 28): return 'uses a signal that does not end a process'
    return None
def norm(p): return re.sub(r'-[A-Za-z0-9]{6}\.tmp', '-XXXXXX.tmp', p)
SKIP = re.compile(r'mutants\.out(\.old)?/(log/|debug\.log|lock\.json|outcomes\.json)')
def tree():
    r = {}
    for top in ('w', 't', 'x'):
        for d, ds, fs in os.walk(os.path.join(ROOT, top)):
            for n in ds + fs:
                p = os.path.join(d, n)
                if os.path.islink(p): r[norm(p)] = 'l' + os.readlink(p)
                elif os.path.isdir(p): r[norm(p)] = 'd'
                else:
                    try: r[norm(p)] = 'f' + open(p, 'rb').read().hex()
                    except PermissionError: r[norm(p)] = 'f?'
    return r
def engine_tree(t):
    r = {}
    for e in t:
        p = unhex(e[1]).decode(errors='surrogateescape')
        if not p.startswith((ROOT + '/w/', ROOT + '/t/', ROOT + '/x/')): continue
        r[norm(p)] = 'd' if e[0] == 'd' else 'l' + unhex(e[2]).decode() if e[0] == 'l' else 'f' + e[3]
    return r
def differences(a, b):
    out = []
    for k in sorted(set(a) | set(b)):
        if k not in a: out.append(f'only in the real run: {k}')
        elif k not in b: out.append(f'only in the symbolic run: {k}')
        elif a[k] != b[k] and not SKIP.search(k) and b[k] != 'f?':
            out.append(f'differs: {k}')
    return out
def clean():
    for d, ds, fs in os.walk(ROOT):
        try: os.chmod(d, 0o755)
        except OSError: pass
    shutil.rmtree(ROOT, ignore_errors=True)
def replay(sc, binary, timeout=60):
    """returns (agrees, differences)"""
    clean()
    for d in ('', '/bin', '/ctl'): os.mkdir(ROOT + d, 0o755)
    dirs = []
    for e in sorted(sc['begin'], key=lambda e: unhex(e[1])):
        p = unhex(e[1]).decode(errors='surrogateescape')
        if not p.startswith(ROOT + '/'): continue
        if e[0] == 'd': os.makedirs(p, exist_ok=True); dirs.append((p, e[2] & 0o777))
        else:
            os.makedirs(os.path.dirname(p), exist_ok=True)
            if e[0] == 'l': os.symlink(unhex(e[2]), p)
            else:
                with open(p, 'wb') as f: f.write(unhex(e[3]))
                os.chmod(p, e[2] & 0o777)
    for p, m in dirs: os.chmod(p, m)
    shutil.copy(binary, ROOT + '/bin/cargo-mutants')
    with open(ROOT + '/bin/cargo', 'w') as f: f.write(FAKE)
    os.chmod(ROOT + '/bin/cargo', 0o755)
    me = os.path.dirname(os.path.abspath(__file__))
    shutil.copy(me + '/native.py', ROOT + '/ctl/native.py')
    stop = sc['exit'] is None
    with open(ROOT + '/ctl/script.json', 'w') as f: json.dump({'children': sc['children'], 'stop': stop, 'bin': ROOT + '/ctl'}, f)
    for d, ds, fs in os.walk(ROOT):
        for n in [''] + ds + fs: os.lchown(os.path.join(d, n), UID, UID)
    env = {unhex(k).decode(): unhex(v).decode(errors='surrogateescape') for k, v in sc['env']}
    env['PYTHONDONTWRITEBYTECODE'] = '1'
    args = [unhex(a) for a in sc['args']]
    try:
        p = subprocess.run([ROOT.encode() + b'/bin/cargo-mutants'] + args[1:], cwd=unhex(sc['cwd']), env=env, user=UID, group=UID, extra_groups=[],
                           stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, start_new_session=True)
    except subprocess.TimeoutExpired:
        return False, ['the real binary did not finish']
    diffs = []
    calls = []
    if os.path.exists(ROOT + '/ctl/calls'): calls = [json.loads(l) for l in open(ROOT + '/ctl/calls')]
    want = sc['children']
    if len(calls) != len(want): diffs.append(f'{len(calls)} cargo commands, the symbolic run had {len(want)}')
    for i, (c, w) in enumerate(zip(calls, want)):
        wa = [norm(unhex(a).decode(errors='surrogateescape')) for a in w['argv'][1:]]
        if [norm(a) for a in c[0]] != wa: diffs.append(f'cargo command {i}: {c[0]} against {wa}')
        wc = unhex(w['cwd']).decode()
        wc = os.path.normpath(os.path.join(unhex(sc['cwd']).decode(), wc)) if wc else unhex(sc['cwd']).decode()
        if norm(c[1]) != norm(wc): diffs.append(f'cargo command {i} in {c[1]} against {wc}')
    if stop:
        if os.path.exists(ROOT + '/ctl/midtree'): diffs += differences(engine_tree(sc['end']), json.load(open(ROOT + '/ctl/midtree')))
        elif want: diffs.append('the real run did not reach the last cargo command')
    else:
        code = p.returncode if p.returncode >= 0 else 128 - p.returncode
        if code != sc['exit']: diffs.append(f'exit code {code} against {sc["exit"]}: {p.stderr[-300:]!r}')
        diffs += differences(engine_tree(sc['end']), tree())
        if '--list' in [a.decode(errors='replace') for a in args] or '--list-files' in [a.decode(errors='replace') for a in args]:
            if p.stdout != unhex(sc['stdout']): diffs.append(f'standard output {p.stdout[:200]!r} against {unhex(sc["stdout"])[:200]!r}')
    clean()
    return not diffs, diffs
