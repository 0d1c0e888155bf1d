"""Contracts of ViewTree (liblarch/viewtree.py): a view answers as its filtered tree does, a static one as the main tree does."""
import z3
from z3 import And, Or, Not, Implies, If, Select, BoolVal, IntVal
from . import theory as T
from .theory import V, S, none, nil, length, mem, at, rem, truthy, FA, nodup, lit
from .ex import Contract, LoopSpec, norm_clause
from .ctree import TV, ROOT, SCHEMA, add, C
from .cview import FV
from .cfilter import via

x = z3.Const('x', V)
SCHEMA['ViewTree']['_tree'] = ('objs', lambda H, o: H('ViewTree.static', o), 'MainTree', 'FilteredTree')
BOTH = ('C08', 'C12')


class WV:
    def __init__(self, H, w):
        self.H, self.w = H, w
        self.static = H('ViewTree.static', w)
        self.mt = H('ViewTree.__maintree', w)
        self.ft = H('ViewTree.__ft', w)
        self.t = TV(H, self.mt)
        self.f = FV(H, self.ft)

    def inv(self):
        H = self.H
        r = [('the view stands on the main tree or on its filtered tree', And(
            self.mt != none, V.is_ref(self.mt),
            H('ViewTree._tree', self.w) == If(self.static, self.mt, self.ft),
            Implies(Not(self.static), And(self.ft != none, V.is_ref(self.ft), self.f.t == self.mt))))]
        r += guard(self.static, self.t.WF())
        r += guard(Not(self.static), self.f.SI())
        return r


def guard(g, cls_):
    return [(norm_clause(cl)[0], norm_clause(cl)[1], Implies(g, norm_clause(cl)[2])) for cl in cls_]


def W(c):
    return WV(c.old, c.self)


def st(c):
    return via(c, 'MainTree', self=W(c).mt)


def dy(c):
    return via(c, 'FilteredTree', self=W(c).ft)


def q(name, s=None, d=None, raises_s=None, raises_d=None, result='V', requires=None, more=None, **kw):
    """s, d: clauses for a static view and for a filtered one"""
    def ens(c):
        w = W(c)
        return (guard(w.static, s(c)) if s else []) + (guard(Not(w.static), d(c)) if d else []) + (more(c) if more else [])
    raises = {}
    for e in set(raises_s or ()) | set(raises_d or ()):
        def on(c, e=e):
            w = W(c)
            r = []
            for g, rs in ((w.static, raises_s or {}), (Not(w.static), raises_d or {})):
                r += guard(g, rs[e](c)) if e in rs else [('never there', BOTH, Not(g))]
            return r
        raises[e] = on
    add(Contract('ViewTree.' + name, requires=lambda c: W(c).inv() + (requires(c) if requires else []), ensures=ens, raises=raises, result=result, **kw))


add(Contract('MainTree.get_all_nodes', result='list', ensures=lambda c: [('exactly the nodes of the tree, once each', ('C04', 'C08'), And(nodup(c.result), FA([x], mem(c.result, x) == TV(c.old, c.self).has(x), [mem(c.result, x)])))]))


def dq(m):
    return lambda c: C['FilteredTree.' + m].ensures(dy(c))


def sq(m):
    return lambda c: C['MainTree.' + m].ensures(st(c))


def dr(m):
    return {e: (lambda c, e=e: C['FilteredTree.' + m].raises[e](dy(c))) for e in C['FilteredTree.' + m].raises}


def sr(m):
    return {e: (lambda c, e=e: C['MainTree.' + m].raises[e](st(c))) for e in C['MainTree.' + m].raises}


def same(m):
    return dict(s=sq(m), d=dq(m), raises_s=sr(m), raises_d=dr(m))


PATHS = dict(modifies=lambda c: [('FilteredTree.cache_paths', W(c).ft)])
q('get_all_nodes', result='list', **same('get_all_nodes'))
q('get_paths_for_node', result='list', **PATHS, **same('get_paths_for_node'))
q('get_node_for_path', requires=lambda c: [('a path is a tuple or None', Or(V.is_tup(c.arg('path')), c.arg('path') == none))], **PATHS, **same('get_node_for_path'))


def _pid(m, cls):
    """next_node takes pid where the tree takes parent_id"""
    def f(c):
        w = W(c)
        return via(c, cls, self=w.mt if cls == 'MainTree' else w.ft, parent_id=c.pid)
    return f


q('next_node', s=lambda c: C['MainTree.next_node'].ensures(_pid('next_node', 'MainTree')(c)), d=lambda c: C['FilteredTree.next_node'].ensures(_pid('next_node', 'FilteredTree')(c)),
  raises_s={e: (lambda c, e=e: C['MainTree.next_node'].raises[e](_pid('', 'MainTree')(c))) for e in C['MainTree.next_node'].raises},
  raises_d={e: (lambda c, e=e: C['FilteredTree.next_node'].raises[e](_pid('', 'FilteredTree')(c))) for e in C['FilteredTree.next_node'].raises})

S8 = ('C08',)


def shown(c, k=None):
    """the node meant is the root or in the tree"""
    t = W(c).t
    k = c.node_id if k is None else k
    return Or(t.has(k), k == none, k == ROOT)


def kids(c):
    t = W(c).t
    return If(t.has(c.node_id), t.C(c.node_id), t.rootc)


def absent(c):
    return [('only for a node that is not in the tree', S8, Not(shown(c)))]


q('node_has_child', s=lambda c: [('exactly when it has children', S8, c.result == (kids(c) != nil))], raises_s={'ValueError': absent}, d=dq('node_has_child'), raises_d=dr('node_has_child'), result='bool')
q('node_all_children', s=lambda c: [('the children, in order', S8, c.result == If(W(c).t.has(c.node_id), W(c).t.C(c.node_id), If(c.node_id == none, W(c).t.rootc, nil)))],
  raises_s={'ValueError': lambda c: [('only for a node that is not in the tree', S8, Not(shown(c)))]}, d=dq('node_all_children'), raises_d=dr('node_all_children'), result='list')
q('node_parents', s=lambda c: [('the parents', S8, c.result == If(W(c).t.has(c.node_id), W(c).t.P(c.node_id), nil))], raises_s={'ValueError': absent}, d=dq('node_parents'), raises_d=dr('node_parents'), result='list')
q('node_has_parent', s=lambda c: [('exactly when it has parents', S8, c.result == And(W(c).t.has(c.node_id), W(c).t.P(c.node_id) != nil))], raises_s={'ValueError': absent},
  d=lambda c: [('exactly when it has displayed parents', ('C12',), c.result == (rem(W(c).f.P(c.node_id), W(c).f.root) != nil))], raises_d=dr('node_parents'), result='bool')
q('is_displayed', s=lambda c: [('exactly the nodes of the tree', S8, c.result == W(c).t.has(c.node_id))], d=dq('is_displayed'), result='bool')


def vkids(c):
    v = W(c).f
    return v.C(If(c.node_id == none, v.root, c.node_id))


def _nth_bad_s(c):
    return [('only beyond the last child, or for a node that is not in the tree', S8, Or(And(Not(shown(c)), truthy(c.node_id)), c.n >= length(If(truthy(c.node_id), kids(c), W(c).t.rootc))))]


def _nth_bad_d(c):
    v = W(c).f
    k = If(c.node_id == none, v.root, c.node_id)
    return [('only beyond the last child, or for a node that is not displayed', ('C12',), Or(Not(v.has(k)), c.n >= length(v.C(k))))]


q('node_nth_child', s=lambda c: [('the n-th child', S8, c.result == at(If(truthy(c.node_id), kids(c), W(c).t.rootc), c.n))],
  d=lambda c: [('the n-th child', ('C12',), c.result == at(vkids(c), c.n))], requires=lambda c: [('n counts from 0', c.n >= 0)], params={'n': 'int'},
  raises_s={'ValueError': _nth_bad_s}, raises_d={'ValueError': _nth_bad_d})


# the following use a filtered tree even for a static view (created on first use: see FilteredTree.__init__)
def dynamic(c):
    return [('the view is filtered', Not(W(c).static))]


q('node_n_children', d=dq('node_n_children'), requires=dynamic, result='int')
q('get_nodes', d=dq('get_nodes'), requires=dynamic, params={'withfilters': 'list'}, result='list')
q('get_n_nodes', d=dq('get_n_nodes'), requires=dynamic, params={'withfilters': 'list'}, result='int')
q('list_applied_filters', d=dq('list_applied_filters'), requires=dynamic, result='list')
