"""Contracts of what rebuilds a whole view: FilteredTree.refilter and the functions that change the applied filters."""
import z3
from z3 import And, Or, Not, Implies, If, Select, Store, BoolVal, IntVal
from . import theory as T
from .theory import V, S, none, nil, snoc, length, mem, at, cat, rem, nodup, lit, truthy, FA, seq, fil
from .ex import Contract, LoopSpec, VV
from .ctree import add, C, TV
from .crun import RI, CI, RO, G11
from .cfilter import flatp
from .cupd import U, TF, inv, step, fcache, uu, FLAT, MOD, UP, vanishes, runstep, samerun, samemir, mirror, links, s_, closed_c, send_req, reassigns, G9, G10, G17, both, true, x, y, p, c_, k_
from .creqv import view_state

n_ = z3.Const('n_', V)


def flat_one(u, n):
    return And(u.bank.has(n), flatp(u.H, u.bank.get(n)))


def flat_any(u, s):
    return z3.Exists([n_], And(mem(s, n_), flat_one(u, n_)))


def consistent(u):
    """the view is in order for itself, whatever it shows"""
    return closed_c(u) + u.asc() + [
        ('V1 every parent link has its child link', G10, FA([p, c_], Implies(And(u.has(c_), mem(u.P(c_), p)), And(u.has(p), mem(u.C(p), c_))), [mem(u.P(c_), p)])),
        ('V1 every displayed node but the root has a parent', G10, FA([x], Implies(And(u.has(x), x != u.root), u.P(x) != nil), [u.has(x)])),
        ('V1 no duplicate link', G10, FA([x], Implies(u.has(x), And(nodup(u.P(x)), nodup(u.C(x)))), [u.has(x)])),
        ('nothing waits for the view root', G17, Not(Select(u.rdom, u.root)))] + RI(u.H, u.f) + CI(u.H, u.f)


def ref_req(c):
    u = uu(c)
    f = c.self
    tf = [cl for cl in TF(u) if cl[0] != 'V0 the filter cache is empty']
    return tf + u.tv.W2() + consistent(u) + mirror(u) + [('the view is an object', V.is_ref(f))]


def ref_state(u):
    return fcache(u) + [('the view root has no parent', G10, u.P(u.root) == nil)] + view_state(u, u.acc, u.I, lambda k: BoolVal(False))


def ref_ens(c):
    o, n = uu(c), U(c.new, c.self)
    return ref_state(n) + [('the view is flat exactly when one of its filters is', G10, n.flat == flat_any(n, n.app))] + runstep(o, n)


def _flat_loop(L):
    u = U(L.cur, L.arg('self'))
    return [('no filter seen is flat', G10, FA([n_], Implies(mem(L.done, n_), Not(flat_one(u, n_))), [mem(L.done, n_)])), ('the view is not flat so far', G10, Not(u.flat))]


def _clean_loop(L):
    f = L.arg('self')
    u = U(L.cur, f)
    return samerun(U(L.pre, f), u) + [
        ('a consumer holds exactly the paths along the announced links', G11, u.mir == T.vpaths(u.ann, u.root)),
        ('the announced links are those of the view, but to the branches removed so far', G11, links(u, lambda a, b: And(u.has(a), mem(u.C(a), b), Not(And(a == u.root, mem(L.done, b)))))),
        ('announced links descend', G11, T.asc_links(u.ann, u.rank))]


def as_shown(L):
    u = U(L.cur, L.arg('self'))
    return {'$ann': (u.f, T.kids(u.dom, u.vc))}


def no_paths(L):
    return nopaths(U(L.cur, L.arg('self')).root)


def nopaths(r):
    return [FA([T.L_, s_], T.inst('cpa_none', s_, T.L_, r), [T.cpa(T.L_, r, s_)])]


def _bfs_inv(L, but=False):
    f = L.arg('self')
    o, u = U(L.old, f), U(L.cur, f)
    q = L.local('queue')
    ever = L.local('queue', '#ever')
    return fcache(u) + inv(u, true) + runstep(o, u) + [
        ('the view root is displayed, without a parent', G10, And(u.has(u.root), u.P(u.root) == nil)),
        ('the nodes have the parents they should have', G10, FA([x], Implies(And(u.has(x), x != u.root), u.P(x) == u.ideal(x)), [u.P(x)])),
        ('queued nodes are nodes of the tree', G9, FA([x], Implies(mem(q, x), And(Select(ever, x), u.tv.has(x))), [mem(q, x)])),
        ('the top level was queued', G9, FA([x], Implies(mem(u.tv.rootc, x), Select(ever, x)), [mem(u.tv.rootc, x)])),
        ('nodes taken from the queue are displayed if accepted', G9, FA([x], Implies(And(Select(ever, x), Not(mem(q, x)), u.acc(x)), u.has(x)), [Select(ever, x)])),
        ('their children were queued', G9, FA([x, y], Implies(And(Select(ever, x), Not(mem(q, x)), mem(u.tv.C(x), y)), Select(ever, y)), [(Select(ever, x), mem(u.tv.C(x), y))])),
    ]


def _ref_hints(c):
    """every node of the tree was reached: otherwise one with the least rank was not"""
    loc = getattr(c, 'locals', {})
    if 'queue' not in loc:
        return []
    ever = c.ex.spec_term(loc['queue'], c.path, '#ever')
    u = U(c.new, c.self)
    A = z3.Const('set_missed', T.VB)
    return [FA([x], Select(A, x) == And(u.tv.has(x), Not(Select(ever, x))), [Select(A, x), u.acc(x)]), T.rank_induct(u.rank, Select(u.rank, u.root), A, lambda k: S.last(u.tv.P(k)))]


add(Contract('FilteredTree.refilter', requires=ref_req, ensures=ref_ens, result='none', modifies=lambda c: MOD(c) + [(FLAT, c.self)], hints=_ref_hints, callhints=lambda c, E: nopaths(uu(c).root),
             callmap={UP: lambda c: [(Not(vanishes(uu(c), c.node_id)), UP + '#full_both')]},
             loops=[LoopSpec(_flat_loop, 'flat'), LoopSpec(_clean_loop, 'clean'), LoopSpec(_bfs_inv, 'queue', ghost=as_shown, entry=no_paths)]))


# --------------------------------------------------------------- the applied filters
APP = 'FilteredTree.applied_filters'


def quiet_view(o, n):
    return And(n.dom == o.dom, n.vp == o.vp, n.vc == o.vc, n.flat == o.flat, n.rdom == o.rdom, n.rval == o.rval, n.mir == o.mir, n.ann == o.ann)


def chg(c, applied, again, res):
    """again: the view is rebuilt; it is left alone otherwise"""
    o, n = uu(c), U(c.new, c.self)
    cl = [('the applied filters', ('C09', 'C15'), n.app == applied), ('it tells whether they changed', ('C15',), res)]
    for k in ref_ens(c):
        cl.append((k[0] + ' (rebuilt)',) + tuple(k[1:-1]) + (Implies(again, k[-1]),))
    return cl + [('the view stays (not rebuilt)', G9 + G10 + G17, Implies(Not(again), quiet_view(o, n)))]


def _given(c):
    par = c.parameters
    return And(par != none, c.old('PyDict.d.dom', par) != T.EMPTY)


def _apply_ens(c):
    o = uu(c)
    app0 = If(truthy(c.reset), nil, o.app)
    new = Not(mem(app0, c.filter_name))
    return chg(c, If(new, snoc(app0, c.filter_name), app0), And(truthy(c.refresh), Or(new, _given(c))), truthy(c.result) == new) + [
        ('given parameters replace those of the filter', ('C15',), Implies(_given(c), c.new('Filter.dic', o.bank.get(c.filter_name)) == c.parameters))]


def _apply_exc(c):
    return [('only for parameters of a filter that is not in the bank', ('C15',), And(_given(c), Not(uu(c).bank.has(c.filter_name)))), ('the view stays', G9, quiet_view(uu(c), U(c.new, c.self)))]


AMOD = lambda c: MOD(c) + [(FLAT, c.self), (APP, c.self)]
add(Contract('FilteredTree.apply_filter', params={'parameters': ('obj', 'PyDict')}, requires=lambda c: ref_req(c) + [
    ('parameters are a dictionary or None', Or(c.parameters == none, And(V.is_ref(c.parameters), Select(c.old.leaf('$alloc'), c.parameters))))],
    ensures=_apply_ens, raises={'ValueError': _apply_exc}, modifies=lambda c: AMOD(c) + [('Filter.dic', uu(c).bank.get(c.filter_name))]))
add(Contract('FilteredTree.unapply_filter', requires=ref_req, modifies=AMOD, ensures=lambda c: chg(
    c, If(mem(uu(c).app, c.filter_name), rem(uu(c).app, c.filter_name), uu(c).app), And(truthy(c.refresh), mem(uu(c).app, c.filter_name)), truthy(c.result) == mem(uu(c).app, c.filter_name))))
add(Contract('FilteredTree.reset_filters', requires=ref_req, modifies=AMOD, result='none', ensures=lambda c: chg(c, nil, truthy(c.refresh), BoolVal(True))))


# --------------------------------------------------------------- showing the whole view to a consumer that holds nothing yet
def below_root(L):
    """the links a consumer that holds no path may be said to know"""
    u = U(L.cur, L.arg('self'))
    return {'$ann': (u.f, Store(T.kids(u.dom, u.vc), u.root, T.EMPTY))}


def _gcs_loop(L):
    f = L.arg('self')
    o, u = U(L.old, f), U(L.cur, f)
    return samerun(o, u) + RI(L.cur, f) + [
        ('a consumer holds exactly the paths along the announced links', G11, u.mir == T.vpaths(u.ann, u.root)),
        ('the announced links are those of the view, but from the root only those announced so far', G11, links(u, lambda a, b: And(u.has(a), mem(u.C(a), b), Or(a != u.root, mem(L.done, b))))),
        ('announced links descend', G11, T.asc_links(u.ann, u.rank))]


def _gcs_req(c):
    u = uu(c)
    return u.base() + consistent(u) + [
        ('nothing waits for a displayed node', G17, FA([k_], Not(And(Select(u.rdom, k_), u.has(k_))), [Select(u.rdom, k_)])),
        ('the view root is on top', G11, FA([x], Implies(x != u.root, u.rk(u.root) < u.rk(x)), [u.rk(x)])),
        ('displayed nodes are nodes of the tree', ('C18',), FA([x], Implies(And(u.has(x), x != u.root), u.tv.has(x)), [u.has(x)])),
        ('the consumer holds nothing yet', G11, u.mir == T.EMPTY)]


add(Contract('FilteredTree.get_current_state', requires=_gcs_req, ensures=lambda c: samerun(uu(c), U(c.new, c.self)) + RI(c.new, c.self) + mirror(U(c.new, c.self)), result='none',
             modifies=lambda c: [('FilteredTree.cache_paths', c.self), (RO, c.self), '$calls', '$runs', ('$mir', c.self), ('$ann', c.self), ('$stale', c.self)],
             loops=[LoopSpec(_gcs_loop, 'children', ghost=below_root, entry=no_paths)]))
