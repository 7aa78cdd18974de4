#!/usr/bin/env python3
"""check.py ID [--tier quick|thorough]: decide one property of /repo by discharging every proof
obligation its contracts generate from the current source.  See DESIGN.md."""
import sys, os, json, subprocess, time, glob, hashlib, fcntl, re, shutil
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.abspath(__file__))
REPO = '/repo'
PY = '/opt/veriftools/pyvenv/bin/python3'
if not os.path.exists(PY):
    PY = 'python3-vt'
sys.path.insert(0, V)
import props

ENVB = dict(os.environ, CARGO_NET_OFFLINE='true', RUSTFLAGS='--emit=llvm-ir -Cno-vectorize-loops -Cno-vectorize-slp')

def die(msg, code=2):
    print('ERROR ' + msg)
    sys.stdout.flush()
    os._exit(code)

def source_hash():
    h = hashlib.sha256()
    fs = []
    for base in (REPO + '/mlx9064x/src', V + '/harness/src'):
        for d, _, f in os.walk(base):
            fs += [os.path.join(d, x) for x in f]
    fs += [REPO + '/mlx9064x/Cargo.toml', V + '/harness/Cargo.toml', V + '/harness/Cargo.lock']
    for f in sorted(fs):
        h.update(f.encode())
        h.update(open(f, 'rb').read())
    return h.hexdigest()

def build(feature):
    """harness crate (one feature per property) against /repo's working tree -> IR files, replay binary"""
    tgt = os.path.join(V, 'target', feature)
    os.makedirs(tgt, exist_ok=True)
    lock = open(os.path.join(tgt, '.vflock'), 'w')
    fcntl.flock(lock, fcntl.LOCK_EX)
    stamp = os.path.join(tgt, '.vfstamp')
    hsh = source_hash()
    env = dict(ENVB, CARGO_TARGET_DIR=tgt)
    h = os.path.join(V, 'harness')
    old = open(stamp).read() if os.path.exists(stamp) else ''
    dep = os.path.join(tgt, 'debug', 'deps')
    if old != hsh:
        if os.path.exists(stamp):
            os.remove(stamp)
        for p in ('mlx9064x', 'vfharness'):
            for f in glob.glob(os.path.join(tgt, 'debug', '.fingerprint', p + '-*')):
                shutil.rmtree(f)
            for f in glob.glob(os.path.join(dep, p + '-*')):
                os.remove(f)
        r = subprocess.run(['cargo', 'build', '--offline', '--features', feature], cwd=h, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            die('build failed\n' + r.stdout[-4000:])
        open(stamp, 'w').write(hsh)
    ir = []
    for p in ('vfharness', 'mlx9064x', 'arrayvec', 'bitvec', 'num_traits', 'funty', 'radium', 'wyz'):
        x = glob.glob(os.path.join(dep, p + '-*.ll'))
        if not x and p in ('vfharness', 'mlx9064x'):
            die('no IR for ' + p)
        if x:
            ir.append(max(x, key=os.path.getmtime))
    return ir, os.path.join(tgt, 'debug', 'replay'), lock

def vc(cfg):
    t0 = time.time()
    lost = lambda why: dict(harness=cfg['harness'], status='unsupported', error=why, groups=[], covers=[], wall=round(time.time() - t0, 2))
    if t0 > cfg['deadline'] - 5:
        return lost('out of time')
    try:
        r = subprocess.run([PY, os.path.join(V, 'vcgen', 'vc.py'), json.dumps(cfg)], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=cfg['deadline'] + 45 - t0)
    except subprocess.TimeoutExpired:
        return lost('out of time')
    for l in r.stdout.splitlines():
        if l.startswith('@@VC '):
            d = json.loads(l[5:])
            d['wall'] = round(time.time() - t0, 2)
            return d
    return dict(harness=cfg['harness'], status='error', error=(r.stdout + r.stderr)[-3000:], groups=[], covers=[], wall=round(time.time() - t0, 2))

def known():
    out = []
    p = os.path.join(V, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'finding: property=(\S+) harness=(\S+) obligation="([^"]*)" (.*)', l.strip())
            if m:
                out.append(m.groups())
    return out

def main():
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in sys.argv:
        tier = sys.argv[sys.argv.index('--tier') + 1]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    P = props.PROPS[pid]
    t0 = time.time()
    ir, replay, lock = build(pid.lower())
    tb = time.time() - t0
    hs = []
    for h in P['harness']:
        h = dict(h) if isinstance(h, dict) else dict(harness=h)
        if h.pop('thorough', False) and tier != 'thorough':
            continue
        hs.append(h)
    budget = 700 - tb if tier == 'quick' else 3000
    for h in hs:
        h.setdefault('ir', ir)
        h.setdefault('timeout', 60 if tier == 'quick' else 300)
        h.setdefault('gen_timeout', budget * 0.5)
        h.setdefault('solve_timeout', budget * 0.35)
        if not h['harness'].endswith('_contract'):
            h.setdefault('contracts', P.get('contracts', {}))
        h['deadline'] = t0 + (640 if tier == 'quick' else 3400)
    with ThreadPoolExecutor(P.get('jobs', 8)) as ex:
        res = list(ex.map(vc, hs))
    extra = []
    for fn in P.get('extra', []):
        extra.append(fn(tier, seed))
    # ---------------------------------------------------------------- verdict
    rdir = os.path.join(V, 'replays')
    os.makedirs(rdir, exist_ok=True)
    kn = known()
    violations, undecided, knownhits = [], [], []

    def native(args, timeout):
        try:
            r = subprocess.run([replay] + args, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout, errors='replace')
            return r.returncode, r.stdout
        except subprocess.TimeoutExpired as e:
            return 99, (e.stdout or b'').decode('utf8', 'replace') if isinstance(e.stdout, bytes) else ''

    searched = {}
    def search(h):
        if h not in searched:
            out = os.path.join(rdir, '%s.%s.search.inputs' % (pid, h))
            if os.path.exists(out):
                os.remove(out)
            secs = 12 if tier == 'quick' else 60
            left = t0 + (840 if tier == 'quick' else 3900) - time.time()
            if left < 3:
                return False, out, 'no time left to search'
            secs = min(secs, max(3, int(left / 3)))
            rc, o = native(['search', h, str(seed), str(secs), out], secs + 60)
            searched[h] = (rc == 1 and os.path.exists(out), out, o)
        return searched[h]

    # a harness that uses a contract for a callee and is not proved with it: prove it with the
    # callee's body (the code may no longer call it)
    again = []
    for i, r in enumerate(res):
        if hs[i].get('contracts') and (r['status'] != 'ok' or any(g['status'] != 'proved' for g in r['groups'])) and not search(r['harness'])[0]:
            again.append(i)
    if again:
        now = time.time()
        def body(i):
            left = hs[i]['deadline'] - now
            return vc(dict(hs[i], contracts={}, gen_timeout=left * 0.5, solve_timeout=left * 0.45))
        with ThreadPoolExecutor(8) as ex:
            for i, r in zip(again, ex.map(body, again)):
                if r['status'] == 'ok' and all(g['status'] == 'proved' for g in r['groups']):
                    r['notes'] = r.get('notes', []) + ['proved with the bodies of the callees under contract']
                    res[i] = r

    def failing(r):
        return r['status'] != 'ok' or any(g['status'] != 'proved' and not any(x[0] == pid and x[1] == r['harness'] and x[2] == g['name'] for x in kn) for g in r['groups'])

    def models(r):
        """the verifier's counterexamples that fail on the real code"""
        for g in r['groups']:
            if g['status'] == 'proved' or 'inputs' not in g:
                continue
            f = os.path.join(rdir, '%s.%s.%s.inputs' % (pid, r['harness'], re.sub(r'[^A-Za-z0-9_.]+', '_', g['name'])[:80]))
            with open(f, 'w') as fh:
                for n, v in g['inputs'].items():
                    fh.write('%s %s\n' % (n, v))
            rc, o = native(['run', r['harness'], f], 90)
            g['replay'] = o[-600:]
            g['replay_rc'] = rc
            if rc not in (0, 3, 4, 99):
                return r['harness'], g['name'], f, o, True, g
    confirmed = {}
    for r in res:
        if failing(r):
            confirmed[r['harness']] = models(r)
    if confirmed and not any(confirmed.values()):
        with ThreadPoolExecutor(8) as ex:
            list(ex.map(search, confirmed))
    for r in res:
        h = r['harness']
        if r['status'] != 'ok':
            ok, f, o = search(h)
            if ok:
                violations.append((h, 'native run (generator: %s)' % r['error'].strip().splitlines()[-1][:200], f, o, True, r))
            else:
                undecided.append((h, 'no obligations could be generated: %s: %s' % (r['status'], r['error']), r))
            continue
        bad = [g for g in r['groups'] if g['status'] != 'proved']
        for g in bad:
            k = [x for x in kn if x[0] == pid and x[1] == h and x[2] == g['name']]
            if k:
                knownhits.append((h, g['name'], k[0][3]))
        bad = [g for g in bad if not any(x[0] == pid and x[1] == h and x[2] == g['name'] for x in kn)]
        done = confirmed.get(h) if bad else None
        if bad and not done:
            ok, f, o = search(h) if not any(confirmed.values()) else (False, None, 'another harness fails natively')
            if ok:
                done = (h, ', '.join(g['name'] for g in bad[:4]), f, o, True, bad[0])
            elif any(g['status'] == 'failed' for g in bad):
                g = [g for g in bad if g['status'] == 'failed'][0]
                done = (h, g['name'], None, 'solver: obligation is not valid; native search: ' + o, False, g)
            else:
                undecided.append((h, 'not discharged: %s' % ', '.join(g['name'] for g in bad[:5]), bad[0]))
        if done:
            violations.append(done)
        if not bad:
            for c in r['covers']:
                if not c['sat']:
                    undecided.append((h, 'vacuous: "%s" is unreachable' % c['name'], r))
            if not any(g['kind'] == 'check' for g in r['groups']):
                undecided.append((h, 'no check obligations were generated', r))
    for e in extra:
        if e['status'] == 'failed':
            f = os.path.join(rdir, '%s.%s.txt' % (pid, e['name']))
            open(f, 'w').write(e['output'])
            violations.append((e['name'], e['obligation'], f, e['output'], e.get('confirmed', False), e))
        elif e['status'] != 'proved':
            undecided.append((e['name'], e['output'][-1500:], e))
    # an obligation the verifier does not accept is a failed obligation, whatever the reason
    if not violations:
        violations = [(h, why.splitlines()[0][:300], None, why, False, g) for h, why, g in undecided]
    # ---------------------------------------------------------------- evidence
    nobl = sum(g['count'] for r in res for g in r['groups'] if 1) + sum(e.get('obligations', 0) for e in extra)
    ndis = sum(g['count'] for r in res for g in r['groups'] if g['status'] == 'proved') + sum(e.get('discharged', 0) for e in extra)
    fns = sorted(set(x for r in res for x in r.get('functions', [])))
    ev = dict(property=pid, tier=tier, seed=seed, level='proof', wall_s=round(time.time() - t0, 2),
              violations=len(violations),
              coverage=dict(
                  obligations=nobl, discharged=ndis,
                  checker_cmd='python3 check.py %s' % pid,
                  trusted_base=props.TRUSTED + P.get('trusted', []),
                  functions_under_contract=P['functions'],
                  backends=['vcgen (LLVM IR) + z3 %s' % z3v()] + sorted(set(e['backend'] for e in extra)),
                  solver_time_s=round(sum(r.get('solver_s', 0) for r in res) + sum(e.get('solver_s', 0) for e in extra), 2),
                  solver_queries=sum(r.get('queries', 0) for r in res),
                  generation_time_s=round(sum(r.get('gen_s', 0) for r in res), 2),
                  symbolic_input_bytes=sum(r.get('input_bytes', 0) for r in res),
                  executed_ir_instructions=sum(r.get('steps', 0) for r in res),
                  decided_by_simplifier=sum(g.get('trivial', 0) for r in res for g in r['groups']),
                  harnesses=[dict(name=r['harness'], status=r['status'], wall_s=r.get('wall'), obligations=sum(g['count'] for g in r['groups']),
                                  checks={g['name']: g['count'] for g in r['groups'] if g['kind'] == 'check'},
                                  panic_obligations=sum(g['count'] for g in r['groups'] if g['kind'] != 'check'),
                                  loops_closed_by_induction=[n for n in r.get('notes', []) if n.startswith('loop in')],
                                  covers=[c['name'] for c in r['covers'] if c['sat']]) for r in res],
                  other_backends=[{k: v for k, v in e.items() if k not in ('output',)} for e in extra],
                  ir_functions_executed=[x for x in fns if 'vfharness' not in x][:200],
                  bounded=P.get('bounded', []),
                  not_covered=P.get('not_covered', []),
                  undecided=['%s: %s' % (h, w[:300]) for h, w, _ in undecided[:20]],
                  known_findings=[k[2] for k in knownhits],
              ),
              assumptions=props.ASSUMPTIONS + P.get('assumptions', []))
    os.makedirs(os.path.join(V, 'evidence'), exist_ok=True)
    with open(os.path.join(V, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    for r in res:
        print('%-34s %-11s obligations=%d discharged=%d gen=%ss solve=%ss wall=%ss' % (r['harness'], r['status'], sum(g['count'] for g in r['groups']), sum(g['count'] for g in r['groups'] if g['status'] == 'proved'), r.get('gen_s'), r.get('solve_s'), r.get('wall')))
    for e in extra:
        print('%-34s %-11s obligations=%d' % (e['name'], e['status'], e.get('obligations', 0)))
    for h, n, why in knownhits:
        print('KNOWN-FINDING: property=%s %s' % (pid, why))
    if violations:
        for i, (h, name, f, o, conf, g) in enumerate(violations):
            p = os.path.join(rdir, '%s.%d.txt' % (pid, i))
            with open(p, 'w') as fh:
                fh.write('property %s\nharness %s\nfailed obligation: %s\n' % (pid, h, name))
                if isinstance(g, dict):
                    fh.write('where: %s\nsolver status: %s\n' % (g.get('where'), g.get('status')))
                if f:
                    fh.write('inputs: %s\nreplay: %s run %s %s\n' % (f, replay, h, f))
                fh.write('\noutput:\n%s\n' % o)
                if isinstance(g, dict) and 'inputs' in g and not conf:
                    fh.write('\nverifier counterexample (float operations uninterpreted):\n' + '\n'.join('%s %s' % x for x in g['inputs'].items()) + '\n')
                if f and os.path.exists(f):
                    fh.write('\ninputs:\n' + open(f, errors='replace').read())
            print('failed obligation: [%s] %s' % (h, name))
            print('\n'.join('    ' + l for l in o.strip().splitlines()[-6:]))
            if i == 0:
                first = 'VIOLATION property=%s replay=%s%s' % (pid, p, '' if conf else ' no-failing-input-found')
                best = (conf, first)
            elif conf and not best[0]:
                best = (True, 'VIOLATION property=%s replay=%s' % (pid, p))
        print(best[1])
        sys.stdout.flush()
        os._exit(1)
    if not nobl:
        die('no obligations')
    print('OK property=%s obligations=%d discharged=%d wall=%.1fs' % (pid, nobl, ndis, time.time() - t0))

def z3v():
    try:
        return subprocess.run([PY, '-c', 'import z3;print(z3.get_version_string())'], stdout=subprocess.PIPE, text=True).stdout.strip()
    except Exception:
        return '?'

if __name__ == '__main__':
    main()
