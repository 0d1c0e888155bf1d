"""Generate and discharge the obligations of a list of functions, from the current source of /repo."""
import multiprocessing as mp
import os
import signal
import time
import traceback

import z3

from .source import Source
from .ex import Exec, solve_one, Unsupported
from . import hooks
from . import theory as T

EX = None
BUDGET = 8000
TRIALS = 150       # seconds for trying every invariant on every loop


class Late(BaseException):
    pass


def _late(*a):
    raise Late()


def _solve(k):
    ob = EX.obs[k]
    if ob.status == 'proved':
        return k, ob.status, 0.0, ob.backend
    r = solve_one(EX, ob, budget_ms=BUDGET)
    return k, r, ob.secs, ob.backend


def _retry(a):
    k, budget, seed = a
    ob = EX.obs[k]
    t0 = time.time()
    sol = T.new_solver(budget, seed, simple=seed != 23)
    sol.add(*T.relevant(EX.axioms, list(ob.pc) + list(ob.hints) + [ob.goal]))
    sol.add(*ob.pc)
    sol.add(*ob.hints)
    sol.add(z3.Not(ob.goal))
    r = sol.check()
    return k, ('proved' if r == z3.unsat else 'sat' if r == z3.sat else 'unknown'), time.time() - t0, 'z3 seed %d' % seed


def verify_function(qual, src, pool_n=4, retry=True):
    """dict describing the outcome for one function"""
    global EX
    t0 = time.time()
    con = hooks.CONTRACTS[qual]
    d = {'function': qual, 'obligations': 0, 'discharged': 0, 'failed': [], 'unsupported': None, 'solver_s': 0.0, 'uses': [], 'inlined': []}

    def generate(trials, limit=0):
        ex = Exec(src, hooks.SCHEMA, hooks.CONTRACTS, exthooks=hooks.HOOKS, ghost=hooks.GHOST, loops=hooks.LOOPS)
        ex.guards = hooks.GUARDS
        ex.trials = trials
        d['unsupported'] = None
        if limit:
            signal.signal(signal.SIGALRM, _late)
            signal.setitimer(signal.ITIMER_REAL, limit)
        try:
            ex.verify(qual)
            signal.setitimer(signal.ITIMER_REAL, 0)
        except Late:
            d['unsupported'] = 'no invariant found in time'
        except Unsupported as e:
            d['unsupported'] = str(e)[:300]
        except RecursionError:
            d['unsupported'] = 'recursion limit of the generator'
        except Exception as e:       # a construct the generator does not handle: out of reach, never accepted
            d['unsupported'] = 'generator: %s: %s' % (type(e).__name__, str(e)[:200])
            d['trace'] = traceback.format_exc()[-1500:]
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
        return ex

    def discharge(ex, again):
        """solve the obligations; the indices of those that are not discharged"""
        global EX
        EX = ex
        n = len(ex.obs)
        with mp.get_context('fork').Pool(pool_n) as pool:
            for k, r, secs, be in pool.imap_unordered(_solve, range(n)):
                ex.obs[k].secs, ex.obs[k].backend, ex.obs[k].status = secs, be, r
                d['solver_s'] += secs
            bad = [k for k in range(n) if ex.obs[k].status != 'proved']
            if again and bad and len(bad) <= 12:
                # solver effort, not the code, may be the reason: try again with more time and other seeds
                for budget in (20000, 40000):
                    todo = [(k, budget, s) for k in bad if ex.obs[k].kind != 'vacuity' for s in (11, 23, 37)]
                    for k, r, secs, be in pool.imap_unordered(_retry, todo):
                        d['solver_s'] += secs
                        if r == 'proved':
                            ex.obs[k].status, ex.obs[k].backend = r, be
                    bad = [k for k in bad if ex.obs[k].status != 'proved']
                    if not bad:
                        break
        return bad

    ex = generate(False)
    u1 = d['unsupported']
    bad = discharge(ex, retry) if not u1 else None
    if ex.choices and (u1 or bad):
        # the invariant at the position of the loop was taken; where that did not work out, each loop gets what holds of it out of all of them
        ex2 = generate(True, TRIALS)
        u2, d['unsupported'] = d['unsupported'], u1
        if not u2:
            bad2 = discharge(ex2, retry)
            if u1 or len(bad2) < len(bad):
                ex, bad, d['unsupported'] = ex2, bad2, None
    d['gen_s'] = round(time.time() - t0, 2)
    d['uses'] = sorted(ex.used_contracts)
    d['inlined'] = sorted(ex.inlined)
    if d['unsupported']:
        d['wall_s'] = round(time.time() - t0, 2)
        return d
    d['obligations'] = sum(1 for o in ex.obs if o.kind != 'vacuity')
    d['discharged'] = sum(1 for o in ex.obs if o.kind != 'vacuity' and o.status == 'proved')
    d['trivial'] = sum(1 for o in ex.obs if o.backend == 'trivial')
    d['vacuity_checks'] = sum(1 for o in ex.obs if o.kind == 'vacuity')
    seen = {}
    for o in ex.obs:
        if o.status != 'proved':
            key = (o.label, o.line)
            seen.setdefault(key, {'label': o.label, 'tags': list(o.tags), 'line': o.line, 'status': o.status, 'kind': o.kind, 'count': 0, 'secs': round(o.secs, 1)})
            seen[key]['count'] += 1
    d['failed'] = list(seen.values())
    if d['failed'] and ex.restructured:
        # loops the contract does not know: it needs new invariants, so nothing is decided about this function
        d['unsupported'] = 'loops without a specification in %s; %d obligations not discharged' % (', '.join(sorted(ex.restructured)), len(d['failed']))
        d['undecided'], d['failed'] = d['failed'], []
    d['solver_s'] = round(d['solver_s'], 1)
    d['wall_s'] = round(time.time() - t0, 2)
    return d


def _child(qual, repo, pool_n, retry, conn):
    try:
        conn.send(verify_function(qual, Source(repo), pool_n, retry))
    except BaseException as e:
        conn.send({'function': qual, 'obligations': 0, 'discharged': 0, 'failed': [], 'unsupported': 'internal error: %s' % e, 'solver_s': 0, 'uses': [], 'inlined': [], 'trace': traceback.format_exc()[-1500:]})
    conn.close()


def verify_all(quals, repo, par=4, pool_n=3, retry=True, timeout=700, progress=None):
    ctx = mp.get_context('fork')
    todo = list(quals)
    run, res = [], {}
    t0 = time.time()
    while todo or run:
        while todo and len(run) < par:
            q = todo.pop(0)
            a, b = ctx.Pipe()
            pr = ctx.Process(target=_child, args=(q, repo, pool_n, retry, b))
            pr.start()
            b.close()
            run.append((q, pr, a))
        for it in list(run):
            q, pr, a = it
            if a.poll(0.05):
                try:
                    res[q] = a.recv()
                except EOFError:
                    res[q] = {'function': q, 'obligations': 0, 'discharged': 0, 'failed': [], 'unsupported': 'the verifier process died', 'solver_s': 0, 'uses': [], 'inlined': []}
                pr.join()
                run.remove(it)
                if progress:
                    progress(res[q])
        if time.time() - t0 > timeout:
            for q, pr, a in run:
                os.system('pkill -P %d' % pr.pid)
                pr.terminate()
                res[q] = {'function': q, 'obligations': 0, 'discharged': 0, 'failed': [], 'unsupported': 'time limit', 'solver_s': 0, 'uses': [], 'inlined': []}
            for q in todo:
                res[q] = {'function': q, 'obligations': 0, 'discharged': 0, 'failed': [], 'unsupported': 'time limit', 'solver_s': 0, 'uses': [], 'inlined': []}
            break
    return [res[q] for q in quals]


def prove_theory():
    """prove every lemma of the theory; (n, proved, failures)"""
    t0 = time.time()
    r = T.prove_lemmas()
    bad = [x[0] for x in r if x[1] != 'proved']
    return {'lemmas': len(r), 'proved': len(r) - len(bad), 'failed': bad, 's': round(time.time() - t0, 1)}
