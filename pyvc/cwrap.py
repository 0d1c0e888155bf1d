"""Contracts of the requests as a user makes them: Tree.* and MainTree.refresh_all, from the thread that created the tree."""
import z3
from z3 import And, Or, Not, Implies, If, Select, Store, BoolVal, IntVal
from . import theory as T
from .theory import V, S, none, nil, snoc, cat, length, mem, nodup, lit, truthy, FA, seq, tup
from .ex import Contract, LoopSpec, VV, norm_clause
from .ctree import add, SCHEMA, GHOST, TV, C, pair, MODIFIED, thread_ok, is_id, clean
from . import ctree as R
from . import cnode
from .cfilter import via
from . import creqv as Q
from .creqv import uv, view_ok, ours, CBV, vmod

x, k_, e_ = z3.Consts('x k_ e_', V)
t_ = z3.Const('t_', S)


def tree(c):
    return c.old('Tree.__tree', c.self)


def at_tree(c, **kw):
    return via(c, 'MainTree', self=tree(c), **kw)


def objs(c):
    return [('the tree is an object', And(tree(c) != none, V.is_ref(tree(c))))] + thread_ok(c.old, tree(c))


def wrap(name, inner, params=None, args=lambda c: {}, extra=lambda c: []):
    """a method of Tree that passes a request on"""
    con = C[inner]
    at_ = lambda c: at_tree(c, **args(c))
    mods = con.modifies
    add(Contract('Tree.' + name, params=params, requires=lambda c: objs(c) + con.requires(at_(c)) + extra(c), ensures=lambda c: con.ensures(at_(c)),
                 raises={e: (lambda c, e=e: con.raises[e](at_(c))) for e in con.raises}, modifies=lambda c: mods(at_(c)) if callable(mods) else list(mods), result='V'))


wrap('add_node', 'MainTree._add_node', params={'node': ('obj', '_Node')})
wrap('del_node', 'MainTree._remove_node')
wrap('refresh_node', 'MainTree._modify_node')


# --------------------------------------------------------------- refreshing everything
mods = z3.Function('mods', S, S)
_s = z3.Const('s', S)
_x = z3.Const('x', V)
T.DEFS += [mods(nil) == nil, FA([_s, _x], mods(snoc(_s, _x)) == snoc(mods(_s), pair(MODIFIED, _x)), [mods(snoc(_s, _x))])]


def _ra_loop(L):
    t = L.arg('self')
    n = TV(L.cur, t)
    return n.W6() + [('the nodes seen so far were announced, once each', ('C07',), L.cur.leaf('$log') == cat(L.old.leaf('$log'), mods(L.done))),
                     ('the nodes are what the loop is about', ('C07',), And(nodup(L.seq), FA([x], mem(L.seq, x) == n.has(x), [mem(L.seq, x)]))),
                     ('nobody owes an announcement', ('C07',), L.cur.leaf('$dirty') == L.old.leaf('$dirty'))]


def _ra_ens(c):
    o, n = TV(c.old, c.self), TV(c.new, c.self)
    return n.W6() + [('every node is announced once, nothing else', ('C07',), c.new.leaf('$log') == cat(c.old.leaf('$log'), mods(T.enum(o.dom))))]


add(Contract('MainTree.refresh_all', requires=lambda c: TV(c.old, c.self).W0() + TV(c.old, c.self).W6() + thread_ok(c.old, c.self) + [('nobody owes an announcement', c.old.leaf('$dirty') == T.EMPTY)],
             ensures=_ra_ens, modifies=('$log', '$dirty', '$known'), result='none', loops=[LoopSpec(_ra_loop, 'nodes')]))
wrap('refresh_all', 'MainTree.refresh_all')


def paths_lead(u):
    """a path held leads to a displayed node other than the view root"""
    return [FA([t_], T.inst('cpa_last', t_, u.ann, u.root), [T.cpa(u.ann, u.root, t_)]),
            FA([e_], Select(u.mir, e_) == And(V.is_tup(e_), T.cpa(u.ann, u.root, V.elems(e_))), [Select(u.mir, e_)])]


def _rv_loop(L):
    t = L.arg('self')
    u = uv(L.cur)
    return TV(L.cur, t).W6() + view_ok(u) + [('the paths of the nodes seen were announced again', ('C18',), FA([e_], Not(And(Select(u.stale, e_), Select(u.mir, e_), mem(L.done, S.last(V.elems(e_))))), [Select(u.stale, e_)])),
                                             ('the nodes are what the loop is about', FA([x], mem(L.seq, x) == u.tv.has(x), [mem(L.seq, x)])),
                                             ('the verdicts stay', uv(L.cur).D == L.old.leaf('$acc'))]


add(Contract('MainTree.refresh_all#view', body='MainTree.refresh_all', requires=lambda c: C['MainTree._modify_node'].requires(c) + thread_ok(c.old, c.self) + ours(c, c.old) + view_ok(uv(c.old)) + [
    ('no verdict changed unannounced', c.old.leaf('$acc') == uv(c.old).D)],
    ensures=lambda c: view_ok(uv(c.new)) + [('every path held was announced again', ('C18',), FA([e_], Not(And(Select(uv(c.new).stale, e_), Select(uv(c.new).mir, e_))), [Select(uv(c.new).stale, e_)]))],
    result='none', modifies=lambda c: ['$log', '$dirty', '$known'] + vmod(c.old), hints=lambda c: paths_lead(uv(c.new)), callmap={'MainTree._modify_node': lambda c: [(BoolVal(True), 'MainTree._modify_node#view')]},
    loops=[LoopSpec(_rv_loop, 'nodes')]))


# --------------------------------------------------------------- moving and linking by id
def by_id(name, method, arg):
    con = C[method]
    here = lambda c: TV(c.old, tree(c)).has(c.node_id)
    inner = lambda c: via(c, '_Node', self=TV(c.old, tree(c)).node(c.node_id), parent_id=c.arg(arg))

    def when(g, cl):
        return [(a, t, Implies(g, f)) for a, t, f in [norm_clause(k) for k in cl]]

    def ens(c):
        o, n = TV(c.old, tree(c)), TV(c.new, tree(c))
        absent = And(n.par == o.par, n.chl == o.chl, n.pend == o.pend, c.new.leaf('$log') == c.old.leaf('$log'))
        return when(here(c), con.ensures(inner(c))) + [('an absent node: nothing happens', ('C04', 'C06'), Implies(Not(here(c)), absent))]
    add(Contract('Tree.' + name, requires=lambda c: objs(c) + TV(c.old, tree(c)).WF() + when(here(c), con.requires(inner(c))), ensures=ens,
                 raises={e: (lambda c, e=e: con.raises[e](inner(c)) + [('the node exists', here(c))]) for e in con.raises}, result='V',
                 modifies=lambda c: con.modifies(inner(c)) if callable(con.modifies) else list(con.modifies)))


by_id('move_node', '_Node.set_parent', 'new_parent_id')
by_id('add_parent', '_Node.add_parent', 'new_parent_id')


# --------------------------------------------------------------- filters and state of a view
from .cvtree import W, WV, guard


def on_view(name, params=None, needs=None):
    con = C['FilteredTree.' + name]
    inner = lambda c: via(c, 'FilteredTree', self=W(c).ft)
    dyn = lambda c: Not(W(c).static)
    objects = lambda c: [('the filtered tree of the view', Implies(dyn(c), And(W(c).ft != none, V.is_ref(W(c).ft), W(c).f.t == W(c).mt)))]
    add(Contract('ViewTree.' + name, params=params, result='V', requires=lambda c: objects(c) + guard(dyn(c), con.requires(inner(c))),
                 ensures=lambda c: [('the view is filtered', ('C15',), dyn(c))] + [k for k in con.ensures(inner(c)) if k[0] != 'it tells whether they changed'],
                 raises=dict({e: (lambda c, e=e: con.raises[e](inner(c))) for e in con.raises}, Exception=lambda c: [('only for a static view', ('C15',), W(c).static)]),
                 modifies=lambda c: con.modifies(inner(c))))


on_view('apply_filter', params={'parameters': ('obj', 'PyDict')})
on_view('unapply_filter')
on_view('reset_filters')


def _gcs(c):
    return via(c, 'FilteredTree', self=W(c).ft)


def _vgcs_req(c):
    w = W(c)
    t = via(c, 'MainTree', self=w.mt)
    return [('the objects of the view', And(Implies(Not(w.static), And(w.ft != none, V.is_ref(w.ft))), Implies(w.static, And(w.mt != none, V.is_ref(w.mt)))))] + guard(w.static, C['MainTree.refresh_all'].requires(t)) + guard(
        Not(w.static), C['FilteredTree.get_current_state'].requires(_gcs(c)))


add(Contract('ViewTree.get_current_state', result='none', requires=_vgcs_req,
             ensures=lambda c: guard(W(c).static, C['MainTree.refresh_all'].ensures(via(c, 'MainTree', self=W(c).mt))) + guard(Not(W(c).static), C['FilteredTree.get_current_state'].ensures(_gcs(c))),
             modifies=lambda c: C['FilteredTree.get_current_state'].modifies(_gcs(c)) + ['$log', '$dirty', '$known']))
