#!/opt/veriftools/pyvenv/bin/python
"""Decide one property on /repo's current working tree.

  check.py C04            (VERIF_TIER=quick|thorough, VERIF_SEED=n, VERIF_REPO=/repo)

1. every lemma of the verification theory is proved;
2. the functions that carry the property are taken from the current source, their obligations generated against
   the contracts in pyvc/c*.py and discharged by z3;
3. the executable form of the property is run on the real code (failing input for a failed obligation; bounded
   stand-in for what lies outside the verifier's reach, reported as bounded).
Exit 0: held.  Exit 1 and a VIOLATION line: broken.
"""
import json
import os
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
PY = '/opt/venv/bin/python'
REPO = os.environ.get('VERIF_REPO', '/repo')


def conc(prop, seconds, seed, out, jobs=8):
    if os.path.exists(out):
        os.remove(out)
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED=str(seed % 1000))
    t = time.time()
    try:
        r = subprocess.run([PY, os.path.join(HERE, 'conc', 'engine.py'), 'search', prop, '--repo', REPO, '--seconds', str(seconds),
                            '--seed', str(seed), '--out', out, '--jobs', str(jobs)], capture_output=True, text=True, env=env, timeout=seconds + 150)
    except subprocess.TimeoutExpired:
        return {'error': 'time limit', 'fail': None, 'scenarios': 0, 'operations': 0, 'distinct': 0, 'seconds': time.time() - t, 'samples': []}
    try:
        d = json.loads(r.stdout.strip().splitlines()[-1])
    except Exception:
        d = {'error': (r.stderr or r.stdout)[-1500:], 'fail': None, 'scenarios': 0, 'operations': 0, 'distinct': 0, 'seconds': time.time() - t, 'samples': []}
    d['exit'] = r.returncode
    return d


def main():
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    from pyvc import props, run, hooks
    rdir = os.path.join(HERE, 'replays')
    os.makedirs(rdir, exist_ok=True)
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    out = os.path.join(rdir, '%s.json' % prop)
    cone = props.CONES.get(prop, [])

    th = run.prove_theory() if cone else {'lemmas': 0, 'proved': 0, 'failed': [], 's': 0}
    c = conc(prop, props.SECONDS.get(prop, 12) if tier == 'quick' else 240, seed, out)
    print('%s: bounded run of the executable oracle: %d histories, %d operations, %s' % (
        prop, c['scenarios'], c['operations'], 'FAILED: ' + c['fail'] if c.get('fail') else c.get('error') or 'no failure'), flush=True)
    res = []
    if cone:
        def show(d):
            print('  %-40s %4d obligations, %4d discharged, %.1f s%s' % (
                d['function'], d['obligations'], d['discharged'], d.get('wall_s', 0), '' if not d['unsupported'] else '  OUT OF REACH: ' + d['unsupported']), flush=True)
            for f in d['failed']:
                print('      not discharged: %s (line %s) [%s] %s' % (f['label'], f['line'], ','.join(f['tags']), f['status']), flush=True)
        # a concrete failure decides; the proof then only names the obligation
        res = run.verify_all(cone, REPO, retry=not c.get('fail'), timeout=(600 if tier == 'quick' else 3000), progress=show)
    failed, other = [], []
    for d in res:
        for f in d['failed']:
            f = dict(f, function=d['function'])
            tags = [t for t in f['tags'] if t.startswith('C')]
            ok = prop in tags or (not tags and d['function'] not in props.SUPPORT.get(prop, ()))
            (failed if ok else other).append(f)
    unsup = [(d['function'], d['unsupported']) for d in res if d['unsupported']]

    if not c.get('fail') and (failed or unsup or other):
        # look harder for a failing input
        c2 = conc(prop, 60 if tier == 'quick' else 300, seed + 77, out)
        c['scenarios'] += c2['scenarios']
        c['operations'] += c2['operations']
        c['distinct'] += c2['distinct']
        c['fail'] = c2.get('fail')
        c.setdefault('error', c2.get('error'))

    level = props.LEVEL.get(prop, 'proof' if cone else 'exploration')
    nob = sum(d['obligations'] for d in res) + th['lemmas']
    ndis = sum(d['discharged'] for d in res) + th['proved']
    viol = 0
    line = None
    if c.get('fail'):
        viol = 1
        rep = json.load(open(out))
        rep['failed_obligations'] = failed[:20]
        rep['replay'] = '%s %s/conc/engine.py replay %s --repo %s' % (PY, HERE, out, REPO)
        json.dump(rep, open(out, 'w'), indent=1)
        line = 'VIOLATION property=%s replay=%s' % (prop, out)
        print('  failing input: %s: %s' % (c['fail'], json.dumps(rep['scenario'].get('ops'))[:600]))
    elif failed or th['failed']:
        viol = 1
        json.dump({'property': prop, 'obligation': (failed or [None])[0], 'failed_obligations': failed, 'failed_lemmas': th['failed'],
                   'verifier_output': res, 'note': 'the verifier gives no model; no failing input found in %d histories' % c['scenarios']}, open(out, 'w'), indent=1)
        line = 'VIOLATION property=%s replay=%s no-failing-input-found' % (prop, out)
    if c.get('error') and not c.get('fail'):
        print('  the executable oracle could not run: %s' % c['error'])

    cov = {
        'obligations': nob, 'discharged': ndis,
        'checker_cmd': 'python3-vt check.py %s (VC generator pyvc/ex.py on the ASTs of %s, back end z3)' % (prop, REPO),
        'trusted_base': props.TRUST + props.EXTRA.get(prop, []) + ['%s: %s' % (q, hooks.CONTRACTS[q].trusted) for d in res for q in d['uses'] if q in hooks.CONTRACTS and hooks.CONTRACTS[q].trusted][:40],
        'functions_under_contract': [{'function': d['function'], 'obligations': d['obligations'], 'discharged': d['discharged'], 'solver_s': d['solver_s'], 'callee_contracts_used': d['uses'], 'callees_inlined': d['inlined']} for d in res if not d['unsupported']],
        'out_of_reach': [{'function': a, 'reason': b} for a, b in unsup],
        'theory_lemmas': th,
        'not_discharged': failed, 'not_discharged_of_other_properties': other,
        'solver_s': round(sum(d['solver_s'] for d in res), 1), 'back_end': 'z3 ' + _z3v(),
        'bounded': props.BOUNDED.get(prop, '') or 'executable oracle run beside the proof (not counted as proof)',
        'evaluations': c['scenarios'], 'distinct_nontrivial': c['distinct'],
        'operations': c['operations'],
        'rule': 'random histories of requests through the public interface (conc/gen.py), the property asserted after every operation; distinct = different op lists',
        'samples': c['samples'],
    }
    if unsup:
        cov['explanation'] = 'functions listed under out_of_reach were not proved in this run; for them only the bounded run stands'
    if level == 'proof' and (unsup or other) and not viol:
        level = 'other'
        cov.setdefault('explanation', 'proof incomplete in this run: obligations carrying other properties failed')
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': level, 'coverage': cov, 'assumptions': props.TRUST + props.EXTRA.get(prop, []),
          'wall_s': round(time.time() - t0, 1), 'violations': viol}
    json.dump(ev, open(os.path.join(HERE, 'evidence', prop + '.json'), 'w'), indent=1, default=str)
    for k in known(prop):
        print('KNOWN-FINDING: property=%s %s' % (prop, k))
    if line:
        print(line)
        sys.exit(1)
    if c.get('error') and (not cone or unsup):
        print('%s: no answer' % prop)
        sys.exit(2)
    print('%s: held (%d/%d obligations discharged, %d histories), %.0f s' % (prop, ndis, nob, c['scenarios'], time.time() - t0))
    sys.exit(0)


def known(prop):
    out = []
    p = os.path.join(HERE, 'known-findings.txt')
    if os.path.exists(p):
        for l in open(p):
            if l.startswith('finding: property=%s ' % prop):
                out.append(l.split(' ', 2)[2].strip())
    return out


def _z3v():
    import z3
    return z3.get_version_string()


if __name__ == '__main__':
    main()
