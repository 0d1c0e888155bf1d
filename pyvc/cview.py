"""Contracts of filtered views (liblarch/filteredtree.py): invariant, queries, queued actions.

FV(H, f) is the abstract view of a FilteredTree object f: which nodes are displayed and the view links.
"""
import z3
from z3 import And, Or, Not, Implies, If, Select, Store, BoolVal, IntVal
from . import theory as T
from .theory import V, S, none, vbool, tup, nil, snoc, length, mem, at, tail, take, cat, rem, nodup, lit, truthy, FA, seq, cnt, idx
from .ex import Contract, LoopSpec, VV
from .ctree import add, SCHEMA, GHOST, TV, C, is_id
from .cfilter import Bank, papply
from .cqueue import record_call

x, y, p, c_, f_, v_ = z3.Consts('x y p c_ f_ v_', V)
s_ = z3.Const('s_', S)

GHOST['$rank'] = z3.ArraySort(V, T.I)      # a witness that the links of tree and view descend
SCHEMA['FilteredTree'] = {
    'cllbcks': ('dict', 'V'),
    'runonce': ('dict', 'list'),
    'nodes': ('dict', ('rec', {'parents': 'list', 'children': 'list'})),
    'root_id': 'V',
    'cache_paths': ('dict', 'V'),
    'filter_cache': ('dict', ('rec', {'nodes': 'list', 'count': 'int'})),
    'tree': ('obj', 'MainTree'),
    '__flat': 'bool',
    'applied_filters': 'list',
    'fbank': ('obj', 'FiltersBank'),
}


class FV:
    def __init__(self, H, f):
        self.H, self.f = H, f
        self.dom = H('FilteredTree.nodes.dom', f)
        self.vp = H('FilteredTree.nodes.val.parents', f)
        self.vc = H('FilteredTree.nodes.val.children', f)
        self.root = H('FilteredTree.root_id', f)
        self.t = H('FilteredTree.tree', f)
        self.app = H('FilteredTree.applied_filters', f)
        self.bank = Bank(H, H('FilteredTree.fbank', f), self.t)
        self.rank = H.leaf('$rank')

    def has(self, k):
        return Select(self.dom, k)

    def P(self, k):
        return Select(self.vp, k)

    def C(self, k):
        return Select(self.vc, k)

    def base(self):
        H = self.H
        return [
            ('V0 the view root is there and is nobody\'s child', And(self.has(self.root), self.P(self.root) == nil, V.is_atom(self.root), self.root != lit(''), self.f != none)),
            ('V0 displayed nodes are named', FA([x], Implies(self.has(x), And(V.is_atom(x), x != lit(''))), [self.has(x)])),
            ('V0 the filter cache is empty', H('FilteredTree.filter_cache.dom', self.f) == T.EMPTY),
        ] + self.bank.wf()

    def links(self, tg=('C12', 'C10')):
        return [
            ('V1 every parent link has its child link', tg, FA([p, c_], Implies(And(self.has(c_), mem(self.P(c_), p)), And(self.has(p), mem(self.C(p), c_))), [mem(self.P(c_), p)])),
            ('V1 every child link has its parent link', tg, FA([p, c_], Implies(And(self.has(p), mem(self.C(p), c_)), And(self.has(c_), mem(self.P(c_), p))), [mem(self.C(p), c_)])),
            ('V1 no duplicate link', tg, FA([x], Implies(self.has(x), And(nodup(self.P(x)), nodup(self.C(x)))), [self.has(x)])),
            ('V1 every displayed node but the root has a parent', tg, FA([x], Implies(And(self.has(x), x != self.root), self.P(x) != nil), [self.has(x)])),
        ]

    def rk(self, k):
        return Select(self.rank, k)

    def asc(self, tg=('C10',)):
        """links descend: the ghost $rank is a witness"""
        return [('V2 parent links ascend', tg, FA([p, c_], Implies(And(self.has(c_), mem(self.P(c_), p)), self.rk(p) < self.rk(c_)), [mem(self.P(c_), p)])),
                ('V2 child links descend', tg, FA([p, c_], Implies(And(self.has(p), mem(self.C(p), c_)), self.rk(p) < self.rk(c_)), [mem(self.C(p), c_)]))]

    def up_ok(self, k, tg=('C10',)):
        """every way up from k leads to the view root"""
        return [('V1 parent links above the node have their child link', tg, FA([p, c_], Implies(And(self.has(c_), mem(self.P(c_), p), self.rk(c_) <= self.rk(k)),
                                                                                  And(self.has(p), mem(self.C(p), c_), self.rk(p) < self.rk(c_))), [mem(self.P(c_), p)])),
                ('V1 no duplicate parent link above it', tg, FA([x], Implies(And(self.has(x), self.rk(x) <= self.rk(k)), nodup(self.P(x))), [self.has(x)])),
                ('V1 displayed nodes above it but the root have a parent', tg, FA([x], Implies(And(self.has(x), x != self.root, self.rk(x) <= self.rk(k)), self.P(x) != nil), [self.has(x)]))]

    def ranked(self):
        return self.asc() + [('V2 view links descend', ('C10',), T.vranked(self.vc))]

    def SI(self):
        return self.base() + self.links() + self.ranked()


TQ = ('C12',)
TN = ('C11', 'C12')


def q(name, ens, requires=None, result='V', **kw):
    add(Contract('FilteredTree.' + name, requires=requires or (lambda c: FV(c.old, c.self).SI()), ensures=ens, result=result, **kw))


def F(c):
    return FV(c.old, c.self)


def of(c, k='node_id'):
    """the node meant: None is the root"""
    v = c.arg(k)
    return If(v == none, F(c).root, v)


q('is_displayed', lambda c: [('exactly the nodes of the view', TQ, c.result == F(c).has(c.node_id))], result='bool', requires=lambda c: [])
q('get_all_nodes', lambda c: [('exactly the displayed nodes, once each', ('C12', 'C13'), And(nodup(c.result), FA([x], mem(c.result, x) == And(F(c).has(x), x != F(c).root), [mem(c.result, x)])))], result='list')
q('node_all_children', lambda c: [('the children, in order', TQ, c.result == F(c).C(of(c)))], result='list',
  raises={'KeyError': lambda c: [('only for a node that is not displayed', TQ, Not(F(c).has(of(c))))]})
q('node_has_child', lambda c: [('exactly when it has children', TQ, c.result == (F(c).C(of(c)) != nil))], result='bool',
  raises={'KeyError': lambda c: [('only for a node that is not displayed', TQ, Not(F(c).has(of(c))))]})
q('node_nth_child', params={'n': 'int'}, ens=lambda c: [('the n-th child', TQ, c.result == at(F(c).C(of(c)), c.n))],
  requires=lambda c: F(c).SI() + [('n counts from 0', c.n >= 0)],
  raises={'KeyError': lambda c: [('only for a node that is not displayed', TQ, Not(F(c).has(of(c))))],
          'IndexError': lambda c: [('only beyond the last child', TQ, c.n >= length(F(c).C(of(c))))]})
q('node_parents', lambda c: [('the parents, without the view root', TQ, c.result == rem(F(c).P(c.node_id), F(c).root))], result='list',
  raises={'IndexError': lambda c: [('only for a node that is not displayed', TQ, Not(F(c).has(c.node_id)))]})
q('next_node', lambda c: _next(c),
  raises={'Exception': lambda c: [('only for the root, for a node that is not displayed, or for a node that is not its parent', TQ, Or(
      c.node_id == F(c).root, Not(F(c).has(c.node_id)), And(truthy(c.parent_id), Not(mem(F(c).P(c.node_id), c.parent_id)))))]})


def _next(c):
    v = F(c)
    par = If(truthy(c.parent_id), c.parent_id, at(v.P(c.node_id), IntVal(0)))
    sib = v.C(par)
    i = idx(sib, c.node_id)
    return [('the next sibling below the given (or first) parent, None after the last', TQ, And(
        mem(v.P(c.node_id), par), mem(sib, c.node_id), c.result == If(i + 1 < length(sib), at(sib, i + 1), none)))]


def _nch_loop(L):
    v = FV(L.cur, L.arg('self'))
    return [('sum over the children seen so far', TQ, L.local('total') == T.csum(v.vc, L.done))]


q('node_n_children', lambda c: [('a node that is not displayed has none', TQ, Implies(Not(F(c).has(of(c))), c.result == 0)),
                                ('direct children', TQ, Implies(And(F(c).has(of(c)), Not(truthy(c.recursive))), c.result == length(F(c).C(of(c))))),
                                ('all links below, one by one', TQ, Implies(And(F(c).has(of(c)), truthy(c.recursive)), c.result == T.crec(F(c).vc, of(c))))],
  result='int', loops=[LoopSpec(_nch_loop, 'children')])


# --------------------------------------------------------------- paths
def paths_are(v, k, res):
    """res lists exactly the chains of view links from the root to k"""
    path = z3.Const('path', S)
    shown = And(v.has(k), k != v.root)
    return [
        ('paths are chains', TQ, FA([v_], Implies(mem(res, v_), And(V.is_tup(v_), T.cpath(v.vp, v.root, V.elems(v_)), If(shown, And(V.elems(v_) != nil, S.last(V.elems(v_)) == k), V.elems(v_) == nil))), [mem(res, v_)])),
        ('chains are paths', TQ, FA([path], Implies(And(T.cpath(v.vp, v.root, path), If(shown, And(path != nil, S.last(path) == k), path == nil)), mem(res, tup(path))), [mem(res, tup(path))])),
    ]


def _paths_loop(L):
    v = FV(L.cur, L.arg('self'))
    k = L.arg('node_id')
    r = L.local('toreturn')
    path = z3.Const('path', S)
    return [
        ('paths so far are chains through the parents seen', TQ, FA([v_], Implies(mem(r, v_), And(V.is_tup(v_), V.elems(v_) != nil, T.cpath(v.vp, v.root, V.elems(v_)), S.last(V.elems(v_)) == k)), [mem(r, v_)])),
        ('chains through the parents seen are paths so far', TQ, FA([path], Implies(And(T.cpath(v.vp, v.root, path), mem(L.done, T.prev(path, v.root))), mem(r, tup(snoc(path, k)))), [mem(r, tup(snoc(path, k)))])),
        ('paths so far go through the parents seen', TQ, FA([v_], Implies(mem(r, v_), mem(L.done, T.prev(S.init(V.elems(v_)), v.root))), [mem(r, v_)])),
        ('each path once', TN, nodup(r)),
        ('a parent seen gives a path', ('C12', 'C17'), Implies(L.done != nil, r != nil)),
    ]


def _inner_loop(L):
    return [('the paths of this parent seen so far are extended by the node', TQ, L.local('toreturn') == cat(L.prelocal('toreturn'), T.pw(L.done, L.arg('node_id')))),
            ('each path once', TN, nodup(L.local('toreturn')))]


q('get_paths_for_node', lambda c: paths_are(F(c), c.node_id, c.result) + [('there is a path', ('C12', 'C17'), c.result != nil), ('each path once', TN, nodup(c.result))], result='list',
  requires=lambda c: F(c).base() + F(c).up_ok(c.node_id), modifies=lambda c: [('FilteredTree.cache_paths', c.self)],
  loops=[LoopSpec(_paths_loop, 'parents'), LoopSpec(lambda L: [], 'error text'), LoopSpec(_inner_loop, 'paths of a parent')])


def chain_to(v, path):
    """the node a path leads to"""
    e = V.elems(path)
    return And(V.is_tup(path), e != nil, T.cpath(v.vp, v.root, e), v.has(S.last(e)), S.last(e) != v.root)


q('get_node_for_path', lambda c: [('the last node of a chain of view links from the root, None for any other path', TQ,
                                   c.result == If(chain_to(F(c), c.arg('path')), S.last(V.elems(c.arg('path'))), none))],
  requires=lambda c: F(c).SI() + [('a path is a tuple or None', Or(V.is_tup(c.arg('path')), c.arg('path') == none))], modifies=lambda c: [('FilteredTree.cache_paths', c.self)])


# --------------------------------------------------------------- nodes accepted by further filters
def _gn_filters(L):
    v = FV(L.cur, L.arg('self'))
    fs = L.local('filters')
    return [('the filters found so far accept what the existing named filters accept', ('C13',), FA([x], T.objsay(v.bank.tok, fs, x) == T.exsay(v.bank.tok, L.done, x), [T.objsay(v.bank.tok, fs, x), T.exsay(v.bank.tok, L.done, x)])),
            ('what was found are filters', FA([f_], Implies(mem(fs, f_), And(V.is_ref(f_), V.is_ref(L.cur('Filter.dic', f_)), L.cur('Filter.tree', f_) == v.t)), [mem(fs, f_)]))]


def _gn_nodes(L):
    v = FV(L.cur, L.arg('self'))
    r = L.local('nodes')
    return [('accepted nodes seen so far are listed', ('C13',), FA([x], mem(r, x) == And(mem(L.done, x), x != v.root, T.exsay(v.bank.tok, L.arg('withfilters'), x)), [mem(r, x)])),
            ('each once', ('C13',), nodup(r))]


def _gn_inner(L):
    v = FV(L.cur, L.arg('self'))
    return [('accepted by the filters seen so far', ('C13',), And(L.truth('displayed'), T.objsay(v.bank.tok, L.done, L.local('node_id'))))]


def _gn_ens(c, res):
    v = F(c)
    return [('exactly the displayed nodes that the existing filters accept, once each', ('C13',),
             And(nodup(res), FA([x], mem(res, x) == And(v.has(x), x != v.root, T.exsay(v.bank.tok, c.withfilters, x)), [mem(res, x)])))]


q('get_nodes', lambda c: _gn_ens(c, c.result), params={'withfilters': 'list'}, result='list', loops=[LoopSpec(_gn_filters, 'filters'), LoopSpec(_gn_nodes, 'nodes'), LoopSpec(_gn_inner, 'verdicts')])


def _count_of(c):
    """the number of those nodes: the length of any list of them without repetition"""
    v = F(c)
    l = z3.Const('l', S)
    return [('the number of those nodes', ('C13',), z3.Exists([l], And(c.result == length(l), nodup(l), FA([x], mem(l, x) == And(v.has(x), x != v.root, T.exsay(v.bank.tok, c.withfilters, x)), [mem(l, x)]))))]


q('get_n_nodes', _count_of, params={'withfilters': 'list'}, result='int')
q('list_applied_filters', lambda c: [('the applied filters', ('C10', 'C13'), c.result == F(c).app)], result='list')
