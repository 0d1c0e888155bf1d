"""Search for a failing input of one property on the real code, shrink it, write a replay file.

  engine.py search PROP --repo DIR --seconds S --seed N --out FILE [--jobs J]
  engine.py replay FILE [--repo DIR]

search prints one JSON line with counts; exit 1 when a failing input was found (FILE then holds it).
"""
import argparse
import io
import json
import multiprocessing
import os
import random
import sys
import time
import contextlib

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import world
import views
import gen
import drop


def runner(prop):
    if prop in world.TREE_ORACLES:
        return world.run_tree
    if prop == 'C15':
        return views.run_bank
    if prop == 'C16':
        return views.run_queue
    if prop == 'C19':
        return drop.run_drop
    return views.run_view


class Hang(Exception):
    pass


def attempt(prop, sc):
    """None, or the description of the failure"""
    import signal

    def alarm(*_):
        raise Hang()
    signal.signal(signal.SIGALRM, alarm)
    signal.setitimer(signal.ITIMER_REAL, 20)
    err, sys.stderr = sys.stderr, io.StringIO()
    rl = sys.getrecursionlimit()
    sys.setrecursionlimit(3000)
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            runner(prop)(prop, sc)
        return None
    except world.Failure as e:
        return str(e)
    except Hang:
        return 'does not terminate within 20 s'
    except Exception as e:
        import traceback
        tb = traceback.extract_tb(e.__traceback__)
        if any(world.REPO and f.filename.startswith(world.REPO) for f in tb):
            return 'unexpected %s: %s' % (type(e).__name__, e)
        raise
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        sys.stderr = err
        sys.setrecursionlimit(rl)


def shrink(prop, sc, deadline):
    """drop ops while the scenario still fails"""
    sc = json.loads(json.dumps(sc))
    n = max(1, len(sc['ops']) // 2)
    while n >= 1 and time.time() < deadline:
        i = 0
        changed = False
        while i < len(sc['ops']) and time.time() < deadline:
            t = dict(sc)
            t['ops'] = sc['ops'][:i] + sc['ops'][i + n:]
            if attempt(prop, t):
                sc = t
                changed = True
            else:
                i += n
        if n == 1 and not changed:
            break
        n = max(1, n // 2) if n > 1 else 1
    return sc


def work(a):
    prop, repo, seed, secs, maxn, q = a
    t0 = time.time()
    r = random.Random('%s/%s' % (prop, seed))
    n = ops = 0
    sizes = {}
    sample = None
    while time.time() - t0 < secs and n < maxn:
        sc = json.loads(json.dumps(gen.scenario(prop, r)))
        n += 1
        ops += len(sc['ops'])
        k = hash(json.dumps(sc, sort_keys=True))
        sizes[k] = 1
        if sample is None and len(sc['ops']) < 12:
            sample = sc
        f = attempt(prop, sc)
        if f:
            sc = shrink(prop, sc, time.time() + 20)
            return {'n': n, 'ops': ops, 'distinct': len(sizes), 'fail': (attempt(prop, sc) or f)[:600], 'sc': sc, 'sample': sample}
    return {'n': n, 'ops': ops, 'distinct': len(sizes), 'sample': sample}


def child(a, conn):
    conn.send(work(a))
    conn.close()


def tracing(a, name):
    """like work, but every history is written down before it runs"""
    prop, repo, seed, secs, maxn, q = a
    t0 = time.time()
    r = random.Random('%s/%s' % (prop, seed))
    n = 0
    while time.time() - t0 < secs and n < maxn:
        sc = json.loads(json.dumps(gen.scenario(prop, r)))
        n += 1
        with open(name, 'w') as f:
            json.dump(sc, f)
        if attempt(prop, sc):
            return


def crash(prop, repo, seconds, seed, jobs, maxn):
    """the history that kills the interpreter, if it does so every time"""
    import tempfile
    with tempfile.TemporaryDirectory() as d:
        ps = []
        for j in range(jobs):
            p = multiprocessing.Process(target=tracing, args=((prop, repo, seed * 1000 + j, 2 * seconds, maxn, None), os.path.join(d, str(j))))
            p.start()
            ps.append(p)
        dead = None
        end = time.time() + 2 * seconds + 30
        while dead is None and time.time() < end and any(p.is_alive() for p in ps):
            time.sleep(.05)
            dead = next((j for j, p in enumerate(ps) if not p.is_alive() and (p.exitcode or 0) < 0), None)
        for p in ps:
            if p.is_alive():
                p.terminate()
            p.join()
        if dead is None:
            return None
        sc = json.load(open(os.path.join(d, str(dead))))
    for _ in range(2):
        p = multiprocessing.Process(target=attempt, args=(prop, sc))
        p.start()
        p.join(60)
        if p.is_alive():
            p.terminate()
            return None
        if p.exitcode >= 0:
            return None
    return {'fail': 'the interpreter is killed by signal %d' % -p.exitcode, 'sc': sc}


def search(prop, repo, seconds, seed, out, jobs, maxn):
    world.setup(repo)
    t0 = time.time()
    procs = []
    for j in range(jobs):
        pc, cc = multiprocessing.Pipe()
        p = multiprocessing.Process(target=child, args=((prop, repo, seed * 1000 + j, seconds, maxn, None), cc))
        p.start()
        cc.close()
        procs.append((p, pc))
    res, fail, crashed = [], None, None
    pend = list(procs)
    while pend:
        for it in list(pend):
            p, pc = it
            if pc.poll(0.05):
                pend.remove(it)
                try:
                    x = pc.recv()
                    res.append(x)
                    if 'fail' in x and fail is None:
                        fail = x
                        for p2, _ in pend:
                            p2.terminate()
                        pend = []
                        break
                except EOFError:
                    p.join()
                    crashed = p.exitcode
        if time.time() - t0 > seconds + 90:
            break
    for p, _ in procs:
        if p.is_alive():
            p.terminate()
        p.join()
    d = {'scenarios': sum(x['n'] for x in res), 'operations': sum(x['ops'] for x in res), 'distinct': sum(x['distinct'] for x in res),
         'seconds': round(time.time() - t0, 1), 'samples': [x['sample'] for x in res if x.get('sample')][:1], 'crashed': crashed, 'fail': None}
    if fail is None and crashed not in (None, 0):
        fail = crash(prop, repo, seconds, seed, jobs, maxn)
    if fail:
        d['fail'] = fail['fail']
        with open(out, 'w') as f:
            json.dump({'property': prop, 'failure': fail['fail'], 'scenario': fail['sc'],
                       'replay': '/opt/venv/bin/python conc/engine.py replay <this file> --repo /repo'}, f, indent=1)
    print(json.dumps(d))
    return 1 if fail else (3 if crashed is not None and not res else 0)


def main():
    ap = argparse.ArgumentParser()
    sub = ap.add_subparsers(dest='cmd')
    s = sub.add_parser('search')
    s.add_argument('prop')
    s.add_argument('--repo', default='/repo')
    s.add_argument('--seconds', type=float, default=10)
    s.add_argument('--seed', type=int, default=1)
    s.add_argument('--out', default='/tmp/replay.json')
    s.add_argument('--jobs', type=int, default=8)
    s.add_argument('--max', type=int, default=10**9)
    s = sub.add_parser('replay')
    s.add_argument('file')
    s.add_argument('--repo', default='/repo')
    a = ap.parse_args()
    if a.cmd == 'search':
        sys.exit(search(a.prop, a.repo, a.seconds, a.seed, a.out, a.jobs, a.max))
    d = json.load(open(a.file))
    if 'scenario' not in d:
        print(d.get('obligation') or d)
        sys.exit(1)
    world.setup(a.repo)
    f = attempt(d['property'], d['scenario'])
    print('FAIL ' + f if f else 'OK')
    sys.exit(1 if f else 0)


if __name__ == '__main__':
    main()
