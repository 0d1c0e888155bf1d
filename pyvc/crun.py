"""Contracts of the actions that run when a node appears (FilteredTree.set_callback / callback, ViewTree.queue_action)."""
import z3
from z3 import And, Or, Not, Implies, If, Select, Store, BoolVal, IntVal
from . import theory as T
from .theory import V, S, none, tup, nil, snoc, length, mem, at, cat, truthy, FA, lit, seq
from .ex import Contract, LoopSpec
from .ctree import add, C, GHOST
from .cview import FV
from .cqueue import bound
from .cvtree import W

x, e_, i_ = z3.Consts('x e_ i_', V)
TG = ('C17',)
RO = 'FilteredTree.runonce'
CB = 'FilteredTree.cllbcks'


def RI(H, f):
    """the waiting actions of a node are triples (function, the node, parameter)"""
    dom, val = H(RO + '.dom', f), H(RO + '.val', f)
    return [('a waiting action is (function, its node, parameter)', TG, FA([x, e_], Implies(And(Select(dom, x), mem(Select(val, x), e_)), And(
        truthy(x), V.is_tup(e_), length(V.elems(e_)) == 3, at(V.elems(e_), IntVal(1)) == x)), [(Select(dom, x), mem(Select(val, x), e_))])),
            ('a node with a list of waiting actions has one', TG, FA([x], Implies(Select(dom, x), And(Select(val, x) != nil, truthy(x))), [Select(val, x), Select(dom, x)]))]


def _set_ens(c):
    o, n, f = c.old, c.new, c.self
    od, ov, nd, nv = o(RO + '.dom', f), o(RO + '.val', f), n(RO + '.dom', f), n(RO + '.val', f)
    k = c.node_id
    once = c.event == lit('runonce')
    shown = FV(o, f).has(k)
    el = T.tuple_(c.func, k, c.param)
    src = tup(seq(bound('FilteredTree.__run_once', f), c.func, c.param))
    i = z3.Const('i', V)
    so, sn = o.leaf('$sources'), n.leaf('$sources')
    cd, cv, md, mv = o(CB + '.dom', f), o(CB + '.val', f), n(CB + '.dom', f), n(CB + '.val', f)
    return [
        ('an action for a shown node is scheduled once, at once', TG, Implies(And(once, shown), And(nd == od, nv == ov, z3.Exists([i], And(
            Select(so, i) == none, i != none, sn == Store(so, i, src)))))),
        ('an action for a hidden node waits after those that wait already', TG, Implies(And(once, Not(shown)), And(
            sn == so, nd == Store(od, k, BoolVal(True)), Select(nv, k) == snoc(If(Select(od, k), Select(ov, k), nil), el)))),
        ('the actions of other nodes wait as before', TG, FA([x], Implies(x != k, And(Select(nd, x) == Select(od, x), Select(nv, x) == Select(ov, x))), [Select(nv, x), Select(nd, x)])),
        ('queueing an action registers no listener', TG, Implies(once, And(md == cd, mv == cv))),
        ('a listener of an event replaces the previous one, of that event only', ('C11', 'C17'), Implies(Not(once), And(
            nd == od, nv == ov, sn == so, md == Store(cd, c.event, BoolVal(True)), mv == Store(cv, c.event, tup(seq(c.func, k, c.param)))))),
    ] + RI(n, f)


add(Contract('FilteredTree.set_callback', requires=lambda c: RI(c.old, c.self), ensures=_set_ens, result='none',
             raises={'Exception': lambda c: [('only without a node', TG, And(c.event == lit('runonce'), Not(truthy(c.node_id))))]},
             modifies=lambda c: [(RO, c.self), (CB, c.self), '$sources']))

add(Contract('FilteredTree.__run_once', modifies=['$calls'],
             ensures=lambda c: [('the action is called once with its parameter', TG, c.new.leaf('$calls') == snoc(c.old.leaf('$calls'), T.tuple_(c.func, c.param))),
                                ('and not again', TG, Not(truthy(c.result)))]))


def listener(H, f, ev, args):
    """the call of the listener of an event"""
    dom, val = H(CB + '.dom', f), H(CB + '.val', f)
    l = at(V.elems(Select(val, ev)), IntVal(0))
    return If(And(Select(dom, ev), truthy(l)), snoc(nil, tup(cat(snoc(nil, l), args))), nil)


def CI(H, f):
    dom, val = H(CB + '.dom', f), H(CB + '.val', f)
    return [('a listener is kept with its node and parameter', FA([x], Implies(Select(dom, x), And(V.is_tup(Select(val, x)), length(V.elems(Select(val, x))) == 3)), [Select(val, x)]))]


def _cb_loop(L):
    f = L.arg('self')
    k = L.arg('node_id')
    od, ov = L.old(RO + '.dom', f), L.old(RO + '.val', f)
    nd, nv = L.cur(RO + '.dom', f), L.cur(RO + '.val', f)
    return [('the actions seen so far ran once each, in order', TG, L.cur.leaf('$calls') == cat(L.old.leaf('$calls'), T.qcalls(L.done))),
            ('they wait no more', TG, nd == If(L.done == nil, od, Store(od, k, BoolVal(False)))),
            ('the actions of other nodes wait as before', TG, FA([x], Implies(x != k, Select(nv, x) == Select(ov, x)), [Select(nv, x)]))]


def _ran(c):
    o, k = c.old, c.node_id
    od, ov = o(RO + '.dom', c.self), o(RO + '.val', c.self)
    ru = o.leaf('$runs')
    return If(And(c.event == lit('added'), Select(od, k)), Store(ru, k, cat(Select(ru, k), Select(ov, k))), ru)


def _cb_ens(c):
    o, n, f = c.old, c.new, c.self
    k = c.node_id
    od, ov, nd, nv = o(RO + '.dom', f), o(RO + '.val', f), n(RO + '.dom', f), n(RO + '.val', f)
    added = c.event == lit('added')
    wait = And(added, Select(od, k))
    return [
        ('the waiting actions run once each, in order, with their parameter, then the listener is called', TG + ('C11', 'C18'), n.leaf('$calls') ==
         cat(cat(o.leaf('$calls'), If(wait, T.qcalls(Select(ov, k)), nil)), listener(o, f, c.event, seq(k, c.arg('path'))))),
        ('they wait no more', TG, Implies(wait, nd == Store(od, k, BoolVal(False)))),
        ('nothing is lost otherwise', TG, Implies(Not(wait), And(nd == od, nv == ov))),
        ('ghost: what ran for each node', TG, n.leaf('$runs') == _ran(c)),
        ('ghost: what a consumer holds', G11, n('$mir', f) == _mir(c)),
        ('ghost: the path was announced', ('C18',), n('$stale', f) == Store(o('$stale', f), c.arg('path'), BoolVal(False))),
        ('the actions of other nodes wait as before', TG, FA([x], Implies(x != k, And(Select(nd, x) == Select(od, x), Select(nv, x) == Select(ov, x))), [Select(nv, x), Select(nd, x)])),
    ]


GHOST['$mir'] = z3.ArraySort(V, T.VB)      # per view, the paths its consumer holds
GHOST['$stale'] = z3.ArraySort(V, T.VB)    # per view, paths that were not announced again since (any set at the start)
GHOST['$ann'] = z3.ArraySort(V, T.LK)      # per view, the links announced to it
G11 = ('C11', 'C18')


def addable(M, path):
    e = V.elems(path)
    return And(V.is_tup(path), e != nil, Not(Select(M, path)), Or(S.init(e) == nil, Select(M, tup(S.init(e)))))


def deletable(M, path):
    return And(V.is_tup(path), Select(M, path), FA([e_], Implies(And(V.is_tup(e_), Select(M, e_), V.elems(e_) != nil), S.init(V.elems(e_)) != V.elems(path)), [Select(M, e_)]))


def _mir(c):
    M = c.old('$mir', c.self)
    return If(c.event == lit('added'), Store(M, c.arg('path'), BoolVal(True)), If(c.event == lit('deleted'), Store(M, c.arg('path'), BoolVal(False)), M))


GHOST['$runs'] = T.LV                # per node, the queued actions that ran so far, in order
add(Contract('FilteredTree.callback', result='none', ensures=_cb_ens, ghost=lambda c: {'$runs': _ran(c), '$mir': Store(c.old.leaf('$mir'), c.self, _mir(c)),
             '$stale': Store(c.old.leaf('$stale'), c.self, Store(c.old('$stale', c.self), c.arg('path'), BoolVal(False)))},
             modifies=lambda c: [(RO, c.self), '$calls', '$runs', ('$mir', c.self), ('$stale', c.self)], loops=[LoopSpec(_cb_loop, 'actions')],
             requires=lambda c: RI(c.old, c.self) + CI(c.old, c.self) + [
                 ('an added node is shown', ('C11', 'C17'), Implies(c.event == lit('added'), FV(c.old, c.self).has(c.node_id))),
                 ('a path is added when it is absent and the path above it present', G11, Implies(c.event == lit('added'), addable(c.old('$mir', c.self), c.arg('path')))),
                 ('a path is deleted when it is present and no path below it', G11, Implies(c.event == lit('deleted'), deletable(c.old('$mir', c.self), c.arg('path')))),
                 ('the path leads to the node', ('C11', 'C18'), Implies(Or(*[c.event == lit(e) for e in ('added', 'deleted', 'modified')]), And(
                     V.is_tup(c.arg('path')), V.elems(c.arg('path')) != nil, S.last(V.elems(c.arg('path'))) == c.node_id))),
                 ('a modified path is held', ('C18',), Implies(c.event == lit('modified'), Select(c.old('$mir', c.self), c.arg('path')))),
                 ('an added or modified node is a shown node of the tree', ('C18',), Implies(Or(c.event == lit('added'), c.event == lit('modified')), And(
                     FV(c.old, c.self).has(c.node_id), Select(c.old('MainTree.nodes.dom', FV(c.old, c.self).t), c.node_id)))),
                 ('no reordering is announced', Not(truthy(c.arg('neworder'))))]))


def _qa(c):
    from .cfilter import via
    from .ex import VV
    return via(c, 'FilteredTree', self=W(c).ft, event=lit('runonce'))


add(Contract('ViewTree.queue_action', requires=lambda c: W(c).inv() + [('the view is filtered', Not(W(c).static))] + RI(c.old, W(c).ft), ensures=lambda c: _set_ens(_qa(c)), result='none',
             raises={'Exception': lambda c: [('only without a node', TG, Not(truthy(c.node_id)))]},
             modifies=lambda c: [(RO, W(c).ft), (CB, W(c).ft), '$sources']))
