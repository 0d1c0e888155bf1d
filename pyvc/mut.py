"""Measure the contracts: mutate the functions under contract, one change at a time, and see which changes the verifier accepts.

  python3-vt -m pyvc.mut FUNC...      (development tool; nothing in MANIFEST.json uses it)
"""
import ast
import copy
import multiprocessing as mp
import sys
import time

from .source import Source
from .ex import Exec, solve_one, Unsupported, norm_clause
from . import hooks


def sites(fn):
    """list of (description, function that applies the mutation to a fresh copy)"""
    out = []
    nodes = list(ast.walk(fn))

    def add(desc, k, f):
        out.append((desc, k, f))
    for k, n in enumerate(nodes):
        ln = getattr(n, 'lineno', 0)
        for field in ('body', 'orelse', 'finalbody'):
            b = getattr(n, field, None)
            if isinstance(b, list):
                for i, st in enumerate(b):
                    if isinstance(st, ast.Expr) and isinstance(st.value, ast.Constant):
                        continue
                    if isinstance(st, (ast.Raise, ast.Pass)):
                        continue
                    if isinstance(st, ast.Expr) and isinstance(st.value, ast.Call) and isinstance(st.value.func, ast.Name) and st.value.func.id == 'print':
                        continue

                    def dele(m, field=field, i=i):
                        getattr(m, field)[i] = ast.copy_location(ast.Pass(), getattr(m, field)[i])
                    add('line %d: drop %s' % (st.lineno, ast.unparse(st).split('\n')[0][:60]), k, dele)
                    if i + 1 < len(b) and isinstance(st, (ast.Expr, ast.Assign, ast.AugAssign)) and isinstance(b[i + 1], (ast.Expr, ast.Assign, ast.AugAssign)):
                        def sw(m, field=field, i=i):
                            x = getattr(m, field)
                            x[i], x[i + 1] = x[i + 1], x[i]
                        add('line %d: swap with next: %s' % (st.lineno, ast.unparse(st)[:50]), k, sw)
        if isinstance(n, (ast.If, ast.While, ast.IfExp)):
            def neg(m):
                m.test = ast.copy_location(ast.UnaryOp(ast.Not(), m.test), m.test)
            add('line %d: negate %s' % (ln, ast.unparse(n.test)[:60]), k, neg)
            if isinstance(n, ast.If):
                def tr(m, v=True):
                    m.test = ast.copy_location(ast.Constant(v), m.test)
                add('line %d: always %s' % (ln, ast.unparse(n.test)[:60]), k, tr)
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            sw = {ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.In: ast.NotIn, ast.NotIn: ast.In, ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Is: ast.IsNot, ast.IsNot: ast.Is}

            def cmp_(m, op=sw[type(n.ops[0])]):
                m.ops = [op()]
            add('line %d: flip %s' % (ln, ast.unparse(n)[:60]), k, cmp_)
        if isinstance(n, ast.BoolOp):
            def bo(m):
                m.op = ast.Or() if isinstance(m.op, ast.And) else ast.And()
            add('line %d: and/or %s' % (ln, ast.unparse(n)[:60]), k, bo)
            for i in range(len(n.values)):
                def drop(m, i=i):
                    del m.values[i]
                    if len(m.values) == 1:
                        m.values.append(m.values[0])
                add('line %d: drop operand %d of %s' % (ln, i, ast.unparse(n)[:60]), k, drop)
        if isinstance(n, ast.Constant) and not isinstance(n.value, str) and n.value is not None:
            def con(m):
                m.value = (not m.value) if isinstance(m.value, bool) else m.value + 1
            add('line %d: constant %r' % (ln, n.value), k, con)
        if isinstance(n, ast.Constant) and isinstance(n.value, str) and n.value.startswith('node-'):
            def con2(m):
                m.value = 'node-modified' if m.value != 'node-modified' else 'node-added'
            add('line %d: constant %r' % (ln, n.value), k, con2)
        if isinstance(n, ast.Call) and len(n.args) >= 2:
            def sa(m):
                m.args[0], m.args[1] = m.args[1], m.args[0]
            add('line %d: swap arguments of %s' % (ln, ast.unparse(n)[:60]), k, sa)
        if isinstance(n, ast.Return) and n.value is not None and not isinstance(n.value, ast.Constant):
            def rn(m):
                m.value = ast.copy_location(ast.Constant(None), m)
            add('line %d: return None for %s' % (ln, ast.unparse(n.value)[:50]), k, rn)
        if isinstance(n, ast.Break):
            pass
        if isinstance(n, ast.BinOp) and isinstance(n.op, (ast.Add, ast.Sub)):
            def ar(m):
                m.op = ast.Sub() if isinstance(m.op, ast.Add) else ast.Add()
            add('line %d: +/- %s' % (ln, ast.unparse(n)[:60]), k, ar)
    return out


def run(a):
    qual, idx, budget = a
    src = Source()
    con = hooks.CONTRACTS[qual]
    f = src.find(con.body or qual)
    desc, k, ap = sites(f.node)[idx]
    node = copy.deepcopy(f.node)
    ap(list(ast.walk(node))[k])
    ast.fix_missing_locations(node)
    f.node = node
    ex = Exec(src, hooks.SCHEMA, hooks.CONTRACTS, exthooks=hooks.HOOKS, ghost=hooks.GHOST, loops=hooks.LOOPS)
    ex.guards = hooks.GUARDS
    try:
        ex.verify(qual)
    except Unsupported as e:
        return qual, desc, 'unsupported: %s' % str(e)[:80]
    except Exception as e:
        return qual, desc, 'unsupported: generator %s' % str(e)[:80]
    for ob in ex.obs:
        if ob.kind == 'vacuity':
            continue
        if solve_one(ex, ob, budget_ms=budget, quick=True) != 'proved':
            return qual, desc, 'rejected: %s' % ob.label
    return qual, desc, 'ACCEPTED'


def main(names):
    budget = 2500
    jobs = []
    src = Source()
    for q in names:
        con = hooks.CONTRACTS[q]
        n = len(sites(src.find(con.body or q).node))
        jobs += [(q, i, budget) for i in range(n)]
    tot = {}
    with mp.get_context('fork').Pool(int(__import__('os').environ.get('MUTP', '8'))) as pool:
        for q, d, r in pool.imap_unordered(run, jobs):
            tot[r.split(':')[0]] = tot.get(r.split(':')[0], 0) + 1
            if not r.startswith('rejected'):
                print(q, '|', d, '|', r, flush=True)
    print(tot)


if __name__ == '__main__':
    main(sys.argv[1:])
