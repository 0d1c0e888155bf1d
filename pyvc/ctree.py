"""Contracts of MainTree and _Node (liblarch/tree.py, liblarch/treenode.py).

TV(H, t) is the abstract view of a MainTree object t in heap H.  The representation invariant is split
into named clauses so that an obligation that fails names the property it carries:
  W0 typing/identity, W1 link agreement (C02), W2 rootedness (C03), W3 acyclicity (C01), W4 pending shape.
"""
import z3
from z3 import And, Or, Not, Implies, If, Select, BoolVal, IntVal
from . import theory as T
from .theory import V, S, none, tup, nil, snoc, length, mem, at, take, rem, nodup, lit, truthy, FA, seq, cnt, fil
from .ex import Contract, LoopSpec, NeedSpec

x, y, p, c, e = z3.Consts('x y p c e', V)
x1, y1 = z3.Consts('x1 y1', V)

SCHEMA = {
    'MainTree': {
        'nodes': ('dict', ('obj', '_Node')),
        'pending_relationships': 'list',
        '__cllbcks': ('dict', ('dict', 'V')),
        'root_id': 'V',
        'root': ('obj', '_Node'),
        '_queue': ('obj', 'SyncQueue'),
    },
    '_Node': {
        'node_id': 'V',
        'parents_enabled': 'bool',
        'children_enabled': 'bool',
        'parents': 'list',
        'children': 'list',
        'tree': ('obj', 'MainTree'),
        'pending_relationships': 'list',
    },
    'SyncQueue': {
        '_low_queue': 'list',
        '_queue': 'list',
        '_vip_queue': 'list',
        '_handler': 'V',
        '_lock': ('obj', 'Lock'),
        '_origin_thread': 'V',
        'count': 'int',
    },
    'Tree': {
        '__tree': ('obj', 'MainTree'),
        '__fbank': ('obj', 'FiltersBank'),
        '__views': ('dict', ('obj', 'ViewTree')),
        '__viewscount': ('dict', ('obj', 'ViewCount')),
    },
}
GHOST = {
    '$alloc': T.VB,
    '$log': S,              # announcements made by MainTree._callback, in order
    '$dirty': T.VB,         # nodes whose relations changed and that were not announced since
    '$known': T.VB,         # nodes that the announcements made so far tell are present
    '$thread': V,           # the running thread
}

ROOT = lit('root')
ADDED, MODIFIED, DELETED = lit('node-added'), lit('node-modified'), lit('node-deleted')


def pair(a, b):
    return T.tuple_(a, b)


def fst(e):
    return at(V.elems(e), IntVal(0))


def snd(e):
    return at(V.elems(e), IntVal(1))


def is_pair(e):
    return And(V.is_tup(e), length(V.elems(e)) == 2)


def is_id(v):
    return And(V.is_atom(v), v != lit(''), v != ROOT)


class TV:
    def __init__(self, H, t):
        self.H, self.t = H, t
        self.dom = H('MainTree.nodes.dom', t)
        self.val = H('MainTree.nodes.val', t)
        self.par = H.leaf('_Node.parents')
        self.chl = H.leaf('_Node.children')
        self.root = H('MainTree.root', t)
        self.pend = H('MainTree.pending_relationships', t)
        self.rootc = Select(self.chl, self.root)
        self.g = T.gof(self.par, self.dom, self.val)

    def has(self, k):
        return Select(self.dom, k)

    def node(self, k):
        return Select(self.val, k)

    def P(self, k):
        return Select(self.par, self.node(k))

    def C(self, k):
        return Select(self.chl, self.node(k))

    def edge(self, a, b):
        return T.edge(self.g, a, b)

    def anc(self, a, b):
        return T.anc(self.g, a, b)

    # ---- invariant clauses
    def W0(self):
        H, t = self.H, self.t
        n = self.node(x)
        return [
            ('W0 nodes are stored under their own id', And(
                t != none, self.root != none, V.is_ref(self.root),
                H('MainTree.root_id', t) == ROOT,
                H('_Node.node_id', self.root) == ROOT,
                H('_Node.tree', self.root) == t,
                H('_Node.parents_enabled', self.root), H('_Node.children_enabled', self.root),
                Select(self.par, self.root) == nil,
                Select(H.leaf('$alloc'), self.root),
                FA([x], Implies(self.has(x), And(is_id(x), V.is_ref(n), n != self.root, Select(H.leaf('$alloc'), n),
                                                 H('_Node.node_id', n) == x, H('_Node.tree', n) == t,
                                                 H('_Node.parents_enabled', n), H('_Node.children_enabled', n))),
                   [self.has(x)]),
                # the same, seen from a link
            )),
        ]

    def W1(self, half=None):
        ex1 = BoolVal(False)
        if half:
            ex1 = And(p == half[0], c == half[1], p != c)
        tg = ('C02',)
        return [
            ('W1 every parent link has its child link', tg,
             FA([p, c], Implies(And(self.has(c), mem(self.P(c), p)), And(self.has(p), mem(self.C(p), c))), [mem(self.P(c), p)])),
            ('W1 every child link has its parent link', tg,
             FA([p, c], Implies(And(self.has(p), mem(self.C(p), c)), And(self.has(c), Or(mem(self.P(c), p), ex1))), [mem(self.C(p), c)])),
            ('W1 no duplicate link', tg,
             FA([x], Implies(self.has(x), And(nodup(self.P(x)), nodup(self.C(x)))), [self.has(x)])),
        ]

    def W2(self, half=None, complete=True, sound=True, tg=('C03',)):
        ex = BoolVal(False)
        if half:
            ex = And(x == half[1], self.half(*half))
        r = []
        if sound:
            r += [('W2 top-level nodes are present and parentless, listed once', tg,
                   And(nodup(self.rootc), FA([x], Implies(mem(self.rootc, x), And(self.has(x), self.P(x) == nil)), [mem(self.rootc, x)])))]
        if complete:
            r += [('W2 every parentless node is top-level', tg,
                   FA([x], Implies(And(self.has(x), self.P(x) == nil), Or(mem(self.rootc, x), ex)), [self.has(x)]))]
        return r

    def half(self, a, b):
        """a lists b among its children, b does not list a (yet, or any more)"""
        return And(self.has(a), self.has(b), a != b, mem(self.C(a), b), Not(mem(self.P(b), a)))

    def W3(self):
        return [('W3 the graph is acyclic', ('C01',), T.acyc(self.g))]

    def W4(self):
        return [('W4 pending relations are pairs of distinct ids', ('C04',),
                 FA([e], Implies(mem(self.pend, e), And(is_pair(e), fst(e) != snd(e))), [mem(self.pend, e)]))]

    def W5(self):
        return [('W5 a pending relation names an absent node', ('C04',),
                 FA([e], Implies(mem(self.pend, e), Or(Not(self.has(fst(e))), Not(self.has(snd(e))))), [mem(self.pend, e)]))]

    def W6(self, but=None):
        k = self.H.leaf('$known')
        f = Select(k, x) == self.has(x)
        if but is not None:
            f = Implies(x != but, f)
        return [('W6 what was announced tells which nodes are present', ('C07', 'C14'), FA([x], f, [Select(k, x), self.has(x)]))]

    def WF(self, half=None, complete=True, halfroot=None):
        return self.W0() + self.W1(half) + self.W2(halfroot, complete) + self.W3() + self.W4() + self.W5() + self.W6()


def thread_ok(H, t):
    return [('requests come from the creating thread',
             H('SyncQueue._origin_thread', H('MainTree._queue', t)) == H.leaf('$thread'))]


def fm(cl):
    """formula of a clause"""
    return cl[-1]


def graph_hints(c, t):
    o, n = TV(c.old, t), TV(c.new, t)
    return [T.subg_def(n.g, o.g)]


C = {}


def add(con):
    C[con.qual] = con
    return con


# --------------------------------------------------------------- elementary link operations
def _graph_post_add(o, n, a, b):
    return [
        ('the relation is the only new one', ('C04',), FA([p, c], T.edge(n.g, p, c) == Or(T.edge(o.g, p, c), And(p == a, c == b)),
                                                       [T.edge(n.g, p, c), T.edge(o.g, p, c)])),
        ('ancestors are kept', ('C04',), FA([x, y], Implies(o.anc(x, y), n.anc(x, y)), [o.anc(x, y)])),
        ('stays acyclic unless the child is an ancestor', ('C01',), Implies(And(T.acyc(o.g), Not(o.anc(b, a))), T.acyc(n.g))),
    ]


def _graph_post_del(o, n, a, b):
    return [
        ('the relation is the only one broken', ('C04',), FA([p, c], T.edge(n.g, p, c) == And(T.edge(o.g, p, c), Not(And(p == a, c == b))),
                                                          [T.edge(n.g, p, c), T.edge(o.g, p, c)])),
        ('no new ancestors', ('C04',), FA([x, y], Implies(n.anc(x, y), o.anc(x, y)), [n.anc(x, y)])),
        ('stays acyclic', ('C01',), Implies(T.acyc(o.g), T.acyc(n.g))),
    ]


def _dirty2(c):
    return {'$dirty': z3.Store(z3.Store(c.new.leaf('$dirty'), c.parent_id, BoolVal(True)), c.child_id, BoolVal(True))}


def _dirty_post(c):
    return [('ghost: both ends owe an announcement', c.new.leaf('$dirty') == z3.Store(z3.Store(c.old.leaf('$dirty'), c.parent_id, BoolVal(True)), c.child_id, BoolVal(True)))]


def _create_ens(c):
    t = c.self
    o, n = TV(c.old, t), TV(c.new, t)
    a, b = c.parent_id, c.child_id
    na, nb = o.node(a), o.node(b)
    return [
        ('child list of the parent extended', ('C04',), Select(n.chl, na) == If(mem(o.C(a), b), o.C(a), snoc(o.C(a), b))),
        ('parent list of the child extended', ('C04',), Select(n.par, nb) == If(mem(o.P(b), a), o.P(b), snoc(o.P(b), a))),
        ('child leaves the top level', ('C03',), n.rootc == If(mem(o.rootc, b), rem(o.rootc, b), o.rootc)),
        ('no other child list changes', ('C04',), FA([x], Implies(And(x != na, x != o.root), Select(n.chl, x) == Select(o.chl, x)), [Select(n.chl, x)])),
        ('no other parent list changes', ('C04',), FA([x], Implies(x != nb, Select(n.par, x) == Select(o.par, x)), [Select(n.par, x)])),
    ] + _graph_post_add(o, n, a, b) + _dirty_post(c)


def _rel_req(c):
    t = c.self
    o = TV(c.old, t)
    a, b = c.parent_id, c.child_id
    return o.W0() + [('both nodes are present', And(o.has(a), o.has(b)))]


add(Contract('MainTree._create_relationship', requires=_rel_req, ensures=_create_ens,
             modifies=('_Node.parents', '_Node.children', '$dirty'), result='none', ghost=_dirty2,
             hints=lambda c: [T.subg_def(TV(c.old, c.self).g, TV(c.new, c.self).g),
                              T.addg_def(TV(c.new, c.self).g, TV(c.old, c.self).g, c.parent_id, c.child_id)]))


def _destroy_ens(c):
    t = c.self
    o, n = TV(c.old, t), TV(c.new, t)
    a, b = c.parent_id, c.child_id
    na, nb = o.node(a), o.node(b)
    return [
        ('child removed from the parent', ('C04',), Select(n.chl, na) == rem(o.C(a), b)),
        ('parent removed from the child', ('C04',), Select(n.par, nb) == rem(o.P(b), a)),
        ('no other child list changes', ('C04',), FA([x], Implies(x != na, Select(n.chl, x) == Select(o.chl, x)), [Select(n.chl, x)])),
        ('no other parent list changes', ('C04',), FA([x], Implies(x != nb, Select(n.par, x) == Select(o.par, x)), [Select(n.par, x)])),
    ] + _graph_post_del(o, n, a, b) + _dirty_post(c)


def _destroy_req(c):
    o = TV(c.old, c.self)
    return _rel_req(c) + [('the parent list has no duplicate', nodup(o.P(c.child_id)))]


add(Contract('MainTree._destroy_relationship', requires=_destroy_req, ensures=_destroy_ens,
             modifies=('_Node.parents', '_Node.children', '$dirty'), result='none', ghost=_dirty2,
             hints=lambda c: [T.subg_def(TV(c.new, c.self).g, TV(c.old, c.self).g)]))


# --------------------------------------------------------------- announcements
def _cb_req(c):
    t = c.self
    n = TV(c.old, t)
    return [
        ('an announced addition is of a present node', ('C07',), Implies(c.event == ADDED, n.has(c.node_id))),
        ('an announced removal is of an absent node', ('C07',), Implies(c.event == DELETED, Not(n.has(c.node_id)))),
        ('an announced change is of a present node', ('C07',), Implies(c.event == MODIFIED, n.has(c.node_id))),
        ('the event is one of the three', ('C07',), Or(c.event == ADDED, c.event == DELETED, c.event == MODIFIED)),
        ('no other node appeared or vanished since the last announcement', ('C07', 'C14'), fm(n.W6(c.node_id)[0])),
    ]


add(Contract('MainTree._callback', requires=_cb_req,
             ensures=lambda c: [('the announcement is made', ('C07',), And(
                 c.new.leaf('$log') == snoc(c.old.leaf('$log'), pair(c.event, c.node_id)),
                 c.new.leaf('$dirty') == z3.Store(c.old.leaf('$dirty'), c.node_id, BoolVal(False)),
                 c.new.leaf('$known') == z3.Store(c.old.leaf('$known'), c.node_id, TV(c.old, c.self).has(c.node_id))))],
             modifies=('$log', '$dirty', '$known'), result='none',
             trusted='ghost: defines what an announcement is; the body is verified as MainTree._callback#body'))


def clean(c):
    return ('every node whose relations changed was announced afterwards', ('C07',),
            FA([x], Implies(Select(c.new.leaf('$dirty'), x), Select(c.old.leaf('$dirty'), x)), [Select(c.new.leaf('$dirty'), x)]))


# --------------------------------------------------------------- circularity
def _circ_loop(L):
    """outer loop: everything ever queued is an ancestor of parent_id, is either queued, or has been expanded"""
    t = L.arg('self')
    o = TV(L.cur, t)
    a, b = L.arg('parent_id'), L.arg('child_id')
    q = L.local('ancestors')
    ever = L.local('ancestors', '#ever')
    return [
        ('start queued', Select(ever, a)),
        ('queued are ever-queued', FA([x], Implies(mem(q, x), Select(ever, x)), [mem(q, x)])),
        ('only ancestors are queued', FA([x], Implies(Select(ever, x), o.anc(x, a)), [Select(ever, x)])),
        ('expanded nodes are not the child', FA([x], Implies(And(Select(ever, x), Not(mem(q, x))), x != b), [Select(ever, x)])),
        ('expanded nodes have their parents queued',
         FA([x, y], Implies(And(Select(ever, x), Not(mem(q, x)), o.has(x), mem(o.P(x), y)), Select(ever, y)), [(Select(ever, x), mem(o.P(x), y))])),
    ]


def _circ_inner(L):
    t = L.arg('self')
    o = TV(L.cur, t)
    a, b = L.arg('parent_id'), L.arg('child_id')
    q = L.local('ancestors')
    ever = L.local('ancestors', '#ever')
    nid = L.local('node_id')
    q0 = L.prelocal('ancestors')
    ever0 = L.prelocal('ancestors', '#ever')
    return [
        ('grows', FA([x], Implies(Select(ever0, x), Select(ever, x)), [Select(ever0, x)])),
        ('new ones are queued', FA([x], Implies(And(Select(ever, x), Not(mem(q, x))), And(Select(ever0, x), Not(mem(q0, x)))), [Select(ever, x)])),
        ('queued are ever-queued', FA([x], Implies(mem(q, x), Select(ever, x)), [mem(q, x)])),
        ('only ancestors are queued', FA([x], Implies(Select(ever, x), o.anc(x, a)), [Select(ever, x)])),
        ('parents seen so far are queued', FA([x], Implies(mem(L.done, x), Select(ever, x)), [mem(L.done, x)])),
    ]


def _circ_ens(c):
    o = TV(c.old, c.self)
    return [('answers whether child_id is parent_id or an ancestor of it', ('C01',), c.result == o.anc(c.child_id, c.parent_id))]


def _circ_hints(c):
    o = TV(c.old, c.self)
    ever = None
    loc = getattr(c, 'locals', {})
    if 'ancestors' in loc:
        ever = c.ex.spec_term(loc['ancestors'], c.path, '#ever')
    return [T.anc_induct(o.g, c.parent_id, ever)] if ever is not None else []


add(Contract('MainTree._is_circular_relation', requires=lambda c: TV(c.old, c.self).W0(), ensures=_circ_ens,
             result='bool', loops=[LoopSpec(_circ_loop, 'ancestors'), LoopSpec(_circ_inner, 'parents')], hints=_circ_hints))


# --------------------------------------------------------------- requests
def _modify_ens(c):
    o, n = TV(c.old, c.self), TV(c.new, c.self)
    return [('announced exactly when present', ('C07',),
             c.new.leaf('$log') == If(o.has(c.node_id), snoc(c.old.leaf('$log'), pair(MODIFIED, c.node_id)), c.old.leaf('$log'))), clean(c)] + n.W6()


add(Contract('MainTree._modify_node', requires=lambda c: TV(c.old, c.self).W0() + TV(c.old, c.self).W6(), ensures=_modify_ens, modifies=('$log', '$dirty', '$known'), result='none'))


def idarg(v):
    return Or(v == none, V.is_atom(v))


def _req_rel(c, hr=False):
    t = c.self
    a, b = c.parent_id, c.child_id
    hr = (a, b) if hr else None
    return thread_ok(c.old, t) + TV(c.old, t).WF(half=(a, b), halfroot=hr) + [('ids are strings or None', And(idarg(a), idarg(b)))]


def _both(o, a, b):
    return And(o.has(a), o.has(b), a != b)


def _links_same(o, n):
    return And(n.par == o.par, n.chl == o.chl)


def _new_ens(c):
    t = c.self
    o, n = TV(c.old, t), TV(c.new, t)
    a, b = c.parent_id, c.child_id
    na, nb = o.node(a), o.node(b)
    both = _both(o, a, b)
    pc = pair(a, b)
    lo, ln = c.old.leaf('$log'), c.new.leaf('$log')
    return n.WF() + [
        ('a circular relation is refused with an error', ('C01',), Implies(both, Not(o.anc(b, a)))),
        ('present ends: the relation exists on the parent side', ('C04',), Implies(both, Select(n.chl, na) == If(mem(o.C(a), b), o.C(a), snoc(o.C(a), b)))),
        ('present ends: the relation exists on the child side', ('C04',), Implies(both, Select(n.par, nb) == If(mem(o.P(b), a), o.P(b), snoc(o.P(b), a)))),
        ('no other child list changes', ('C04',), FA([x], Implies(And(x != na, x != o.root), Select(n.chl, x) == Select(o.chl, x)), [Select(n.chl, x)])),
        ('no other parent list changes', ('C04',), FA([x], Implies(x != nb, Select(n.par, x) == Select(o.par, x)), [Select(n.par, x)])),
        ('the order of the top level is kept', ('C04',), Implies(both, n.rootc == rem(o.rootc, b))),
        ('absent end: no link changes', ('C04',), Implies(Not(both), _links_same(o, n))),
        ('absent end: the relation is remembered', ('C04',), Implies(And(Not(both), truthy(a), truthy(b), a != b), mem(n.pend, pc))),
        ('no other remembered relation changes', ('C04',), FA([e], Implies(e != pc, mem(n.pend, e) == mem(o.pend, e)), [mem(n.pend, e), mem(o.pend, e)])),
        ('both ends are announced, nothing else', ('C07',), ln == If(both, snoc(snoc(lo, pair(MODIFIED, a)), pair(MODIFIED, b)), lo)),
        clean(c),
    ]


def _new_exc(c):
    t = c.self
    o, n = TV(c.old, t), TV(c.new, t)
    a, b = c.parent_id, c.child_id
    both = _both(o, a, b)
    return n.WF() + [
        ('only a circular relation is refused', ('C01',), And(both, o.anc(b, a))),
        ('the refused relation is not created', ('C01',), And(n.par == o.par, Select(n.chl, o.node(a)) == rem(o.C(a), b))),
        ('no other child list changes', ('C04',), FA([x], Implies(x != o.node(a), Select(n.chl, x) == Select(o.chl, x)), [Select(n.chl, x)])),
        ('no other remembered relation changes', ('C04',), FA([e], Implies(e != pair(a, b), mem(n.pend, e) == mem(o.pend, e)), [mem(n.pend, e), mem(o.pend, e)])),
        ('nothing is announced', ('C07',), c.new.leaf('$log') == c.old.leaf('$log')),
    ]


add(Contract('MainTree._new_relationship', requires=_req_rel, ensures=_new_ens, raises={'Exception': _new_exc},
             modifies=lambda c: ['_Node.parents', '_Node.children', ('MainTree.pending_relationships', c.self), '$log', '$dirty', '$known']))


def _break_ens(c):
    t = c.self
    o, n = TV(c.old, t), TV(c.new, t)
    a, b = c.parent_id, c.child_id
    na, nb = o.node(a), o.node(b)
    both = _both(o, a, b)
    lo, ln = c.old.leaf('$log'), c.new.leaf('$log')
    return n.WF() + [
        ('the relation is gone on the parent side', ('C04',), Implies(both, Select(n.chl, na) == rem(o.C(a), b))),
        ('the relation is gone on the child side', ('C04',), Implies(both, Select(n.par, nb) == rem(o.P(b), a))),
        ('no other child list changes', ('C04',), FA([x], Implies(And(x != na, x != o.root), Select(n.chl, x) == Select(o.chl, x)), [Select(n.chl, x)])),
        ('no other parent list changes', ('C04',), FA([x], Implies(x != nb, Select(n.par, x) == Select(o.par, x)), [Select(n.par, x)])),
        ('the order of the top level is kept', ('C04',), Or(n.rootc == o.rootc, And(both, n.rootc == snoc(o.rootc, b)))),
        ('absent end: no link changes', ('C04',), Implies(Not(both), _links_same(o, n))),
        ('the relation is no longer remembered', ('C04',), Implies(a != ROOT, Not(mem(n.pend, pair(a, b))))),
        ('no other remembered relation changes', ('C04',), FA([e], Implies(And(e != pair(a, b), e != pair(ROOT, b)), mem(n.pend, e) == mem(o.pend, e)), [mem(n.pend, e), mem(o.pend, e)])),
        ('both ends are announced, nothing else', ('C07',), ln == If(both, snoc(snoc(lo, pair(MODIFIED, a)), pair(MODIFIED, b)), lo)),
        clean(c),
    ]


def drop_loop(hit):
    """for e in list(pending): if hit(e): pending.remove(e)"""
    def inv(L):
        t = L.arg('self')
        n = TV(L.cur, t)
        return [('matching relations seen so far are dropped, one for one',
                 FA([e], cnt(n.pend, e) == cnt(L.seq, e) - If(hit(L, e), cnt(L.done, e), 0), [cnt(n.pend, e), mem(n.pend, e)]))]
    return LoopSpec(inv, 'drop')


add(Contract('MainTree._break_relationship', callhints=lambda c, E: [T.subg_def(TV(c.old, c.self).g, TV(E, c.self).g)], requires=lambda c: _req_rel(c, True), ensures=_break_ens,
             modifies=lambda c: ['_Node.parents', '_Node.children', ('MainTree.pending_relationships', c.self), '$log', '$dirty', '$known'],
             loops=[drop_loop(lambda L, e: e == pair(L.arg('parent_id'), L.arg('child_id')))]))


# --------------------------------------------------------------- _Node queries
def _links_query(field, flag):
    leaf = '_Node.' + field

    def inv(L):
        o = L.arg('self')
        t = L.cur('_Node.tree', o)
        return [('the present ones seen so far', L.local(field) == fil(L.done, L.cur('MainTree.nodes.dom', t)))]

    def ens(c):
        o = c.self
        t = c.old('_Node.tree', o)
        return [('the listed nodes that are present, in order', ('C02', 'C08'),
                 c.result == If(And(c.old('_Node.' + flag, o), t != none), fil(c.old(leaf, o), c.old('MainTree.nodes.dom', t)), nil))]
    return ens, [LoopSpec(inv, field)]


for _f, _fl in (('parents', 'parents_enabled'), ('children', 'children_enabled')):
    _e, _l = _links_query(_f, _fl)
    add(Contract('_Node.get_' + _f, ensures=_e, loops=_l, result='list'))


# --------------------------------------------------------------- adding a node
def pairs_ok(s):
    return FA([e], Implies(mem(s, e), And(is_pair(e), fst(e) != snd(e))), [mem(s, e)])


def own_pairs(s, k):
    return FA([e], Implies(mem(s, e), And(is_pair(e), fst(e) != snd(e), Or(fst(e) == k, snd(e) == k))), [mem(s, e)])


def node_ok(H, o):
    """a node handed to the tree: an object with a proper id, links enabled, pending relations well formed"""
    return [
        ('the node is an object with a proper id', And(V.is_ref(o), Select(H.leaf('$alloc'), o), is_id(H('_Node.node_id', o)))),
        ('the node accepts relations', And(H('_Node.parents_enabled', o), H('_Node.children_enabled', o))),
        ('declared relations are pairs of distinct ids naming the node', own_pairs(H('_Node.pending_relationships', o), H('_Node.node_id', o))),
    ]


def _resolvable(n, k, e):
    return Or(And(snd(e) == k, n.has(fst(e))), And(fst(e) == k, n.has(snd(e))))


def _add_req(c):
    t = c.self
    o = TV(c.old, t)
    return o.WF() + node_ok(c.old, c.node) + [('the node is not the root', c.node != o.root), ('parent id is a string or None', idarg(c.parent_id))]


def _grown(o, n, k, tag='C04'):
    """every list of every other node is kept, possibly with k appended"""
    return [
        ('child lists of other nodes are kept, the new node appended', (tag,),
         FA([x], Implies(And(o.has(x), x != k), n.C(x) == If(mem(n.C(x), k), snoc(o.C(x), k), o.C(x))), [n.C(x), o.has(x)])),
        ('parent lists of other nodes are kept, the new node appended', (tag,),
         FA([x], Implies(And(o.has(x), x != k), n.P(x) == If(mem(n.P(x), k), snoc(o.P(x), k), o.P(x))), [n.P(x), o.has(x)])),
    ]


def _add_common(c, exc):
    t = c.self
    o, n = TV(c.old, t), TV(c.new, t)
    k = c.old('_Node.node_id', c.node)
    par = c.parent_id
    npend = c.old('_Node.pending_relationships', c.node)
    allp = lambda e_: Or(mem(o.pend, e_), mem(npend, e_))
    new = Not(o.has(k))
    lo, ln = c.old.leaf('$log'), c.new.leaf('$log')
    cl = n.WF()
    cl += [(a, b, Implies(new, f)) for a, b, f in _grown(o, n, k)]
    cl += [
        ('exactly the new node enters', ('C04', 'C05'), Implies(new, And(n.dom == z3.Store(o.dom, k, BoolVal(True)), n.node(k) == c.node,
                                                          FA([x], Implies(x != k, n.node(x) == o.node(x)), [n.node(x)])))),
        ('relations of the new node were all requested', ('C04', 'C05'),
         Implies(new, FA([p], And(Implies(mem(n.P(k), p), Or(allp(pair(p, k)), p == par)), Implies(mem(n.C(k), p), allp(pair(k, p)))),
                         [mem(n.P(k), p), mem(n.C(k), p)]))),
        ('remembered relations of the new node are created unless circular', ('C04', 'C01'),
         Implies(new, FA([e], Implies(And(allp(e), n.has(fst(e)), n.has(snd(e))), Or(mem(n.P(snd(e)), fst(e)), n.anc(snd(e), fst(e)))),
                         [mem(o.pend, e), mem(npend, e)]))),
        ('other remembered relations stay remembered', ('C04',),
         Implies(new, FA([e], Implies(And(allp(e), Not(And(n.has(fst(e)), n.has(snd(e))))), mem(n.pend, e)), [mem(o.pend, e), mem(npend, e)]))),
        ('nothing else is remembered', ('C04',),
         Implies(new, FA([e], Implies(mem(n.pend, e), Or(allp(e), e == pair(par, k))), [mem(n.pend, e)]))),
        ('the addition is announced once, nothing else', ('C07',), Implies(new, ln == snoc(lo, pair(ADDED, k)))),
    ]
    return cl, o, n, k, par, new


def _add_ens(c):
    cl, o, n, k, par, new = _add_common(c, False)
    cl += [
        ('the given parent is present: relation created', ('C04', 'C01'), Implies(And(new, par != none, n.has(par)), mem(n.P(k), par))),
        ('the given parent is absent: relation remembered', ('C04',), Implies(And(new, par != none, Not(n.has(par))), mem(n.pend, pair(par, k)))),
        ('a node already present is refused without effect', ('C04', 'C05', 'C07'), Implies(Not(new), And(n.dom == o.dom, n.val == o.val, _links_same(o, n), n.pend == o.pend,
                                                                                           c.new.leaf('$log') == c.old.leaf('$log')))),
    ]
    return cl


def _add_exc(c):
    cl, o, n, k, par, new = _add_common(c, True)
    cl += [('only a circular parent is refused', ('C01',), And(new, par != none, n.anc(k, par)))]
    return cl


def _merge_loop(L):
    t = L.arg('self')
    n, o = TV(L.cur, t), TV(L.pre, t)
    return [('declared relations seen so far are remembered', FA([e], mem(n.pend, e) == Or(mem(o.pend, e), mem(L.done, e)), [mem(n.pend, e), mem(o.pend, e), mem(L.done, e)]))]


def _build_loop(L):
    t = L.arg('self')
    n, o = TV(L.cur, t), TV(L.pre, t)          # pre: the node is stored, no relation built yet
    k = L.cur('_Node.node_id', L.arg('node'))
    cl = n.W0() + n.W1() + n.W3()
    cl += [(a, b, f) for a, b, f in _grown(o, n, k)]
    cl += [
        ('top level is sound, without the new node', ('C03',), And(nodup(n.rootc), FA([x], Implies(mem(n.rootc, x), And(n.has(x), x != k, n.P(x) == nil)), [mem(n.rootc, x)]))),
        ('top level is complete but for the new node', ('C03',), FA([x], Implies(And(n.has(x), x != k, n.P(x) == nil), mem(n.rootc, x)), [n.has(x)])),
        ('the flag tells whether the node has no parent yet', ('C03',), L.local('add_to_root') == (n.P(k) == nil)),
        ('links of the new node were all requested', ('C04',),
         FA([p], And(Implies(mem(n.P(k), p), mem(L.seq, pair(p, k))), Implies(mem(n.C(k), p), mem(L.seq, pair(k, p)))), [mem(n.P(k), p), mem(n.C(k), p)])),
        ('relations seen so far are created unless circular', ('C04', 'C01'),
         FA([e], Implies(And(mem(L.done, e), _resolvable(n, k, e)), Or(mem(n.P(snd(e)), fst(e)), n.anc(snd(e), fst(e)))), [mem(L.done, e)])),
        ('resolved relations seen so far are dropped, one for one', ('C04',),
         FA([e], cnt(n.pend, e) == cnt(L.seq, e) - If(_resolvable(n, k, e), cnt(L.done, e), 0), [cnt(n.pend, e), mem(n.pend, e), mem(L.seq, e)])),
    ]
    return cl


add(Contract('MainTree._add_node', params={'node': ('obj', '_Node')}, requires=_add_req, ensures=_add_ens, raises={'Exception': _add_exc},
             modifies=lambda c: ['_Node.parents', '_Node.children', ('_Node.tree', c.node), ('_Node.pending_relationships', c.node),
                                 ('MainTree.nodes', c.self), ('MainTree.pending_relationships', c.self), '$log', '$dirty', '$known'],
             loops=[LoopSpec(_merge_loop, 'merge'), LoopSpec(_build_loop, 'build', entry=lambda L: [T.subg_def(TV(L.cur, L.arg('self')).g, TV(L.old, L.arg('self')).g)])],
             hints=lambda c: [T.subg_def(TV(c.new, c.self).g, TV(c.old, c.self).g)]))


# --------------------------------------------------------------- removing a node
def _remove_req(c):
    t = c.self
    o = TV(c.old, t)
    return o.W0() + o.W1() + o.W2(complete=False) + o.W3() + o.W4() + o.W5() + o.W6()


def names(e_, gone):
    return Or(gone(fst(e_)), gone(snd(e_)))


def _restricted(o, n, tags):
    return [
        ('every other child list is kept, without removed nodes', tags,
         FA([x], Implies(n.has(x), n.C(x) == fil(o.C(x), n.dom)), [n.C(x), n.has(x)])),
        ('every other parent list is kept, without removed nodes', tags,
         FA([x], Implies(n.has(x), n.P(x) == fil(o.P(x), n.dom)), [n.P(x), n.has(x)])),
        ('remaining nodes keep their node object', tags, FA([x], Implies(n.has(x), n.node(x) == o.node(x)), [n.has(x)])),
    ]


def _orphans(o, n):
    """no node loses its place: a parentless node is top-level, unless it already was neither"""
    return ('every parentless node is top-level (unless it was lost before)', ('C03', 'C05'),
            FA([x], Implies(And(n.has(x), n.P(x) == nil), Or(mem(n.rootc, x), And(o.P(x) == nil, Not(mem(o.rootc, x))))), [n.has(x)]))


def _log_rel(lo, ln, gone):
    return [
        ('each removed node is announced as removed once, no other', ('C07',),
         FA([x], cnt(ln, pair(DELETED, x)) == cnt(lo, pair(DELETED, x)) + If(gone(x), 1, 0), [cnt(ln, pair(DELETED, x))])),
        ('no addition is announced', ('C07',), FA([x], cnt(ln, pair(ADDED, x)) == cnt(lo, pair(ADDED, x)), [cnt(ln, pair(ADDED, x))])),
    ]


def _remove_ens(c):
    t = c.self
    o, n = TV(c.old, t), TV(c.new, t)
    k = c.node_id
    rec = truthy(c.recursive)
    pres = o.has(k)
    gone = lambda y: And(o.has(y), Not(n.has(y)))
    cl = n.W0() + n.W1() + n.W2(complete=False) + n.W3() + n.W4() + n.W5() + n.W6()
    cl += [
        ('an absent node: nothing happens', ('C05',), Implies(Not(pres), And(n.dom == o.dom, n.val == o.val, _links_same(o, n), n.pend == o.pend, c.new.leaf('$log') == c.old.leaf('$log')))),
        ('exactly the node is removed (non-recursive)', ('C05',), Implies(And(pres, Not(rec)), FA([x], n.has(x) == And(o.has(x), x != k), [n.has(x)]))),
        ('exactly the node and its descendants are removed (recursive)', ('C05',), Implies(And(pres, rec), FA([x], n.has(x) == And(o.has(x), Not(o.anc(k, x))), [n.has(x)]))),
        _orphans(o, n),
        ('no present node leaves the top level', ('C03', 'C05'), FA([x], Implies(And(mem(o.rootc, x), n.has(x)), mem(n.rootc, x)), [mem(o.rootc, x)])),
        ('remembered relations of removed nodes are forgotten, no other', ('C04',),
         FA([e], mem(n.pend, e) == And(mem(o.pend, e), Not(names(e, gone))), [mem(n.pend, e), mem(o.pend, e)])),
        clean(c),
    ] + _restricted(o, n, ('C05',)) + _log_rel(c.old.leaf('$log'), c.new.leaf('$log'), gone)
    return cl


def _rm_pending(L):
    k = L.arg('node_id')
    n = TV(L.cur, L.arg('self'))
    return [('relations naming the node seen so far are dropped, one for one', ('C04',),
             FA([e], cnt(n.pend, e) == cnt(L.seq, e) - If(And(mem(L.seq, e), Or(fst(e) == k, snd(e) == k)), cnt(L.done, e), 0), [cnt(n.pend, e), mem(n.pend, e)]))]


def _rm_parents(L):
    t, k = L.arg('self'), L.arg('node_id')
    n, m = TV(L.cur, t), TV(L.pre, t)
    return n.W0() + n.W1() + n.W3() + n.W6() + [
        ('links to the parents seen so far are gone', ('C05',), FA([x], Implies(m.has(x), n.C(x) == If(mem(L.done, x), rem(m.C(x), k), m.C(x))), [n.C(x), m.has(x)])),
        ('top level unchanged', ('C05',), n.rootc == m.rootc),
        ('no other parent list changed', ('C05',), FA([x], Implies(And(m.has(x), x != k), n.P(x) == m.P(x)), [n.P(x), m.has(x)])),
        ('remaining parents are the unseen ones', ('C05',), And(length(n.P(k)) == length(L.seq) - L.i,
                                                         FA([x], mem(n.P(k), x) == And(mem(L.seq, x), Not(mem(L.done, x))), [mem(n.P(k), x)]))),
        ('relations are only taken away', ('C05',), FA([p, c], T.edge(n.g, p, c) == And(T.edge(m.g, p, c), Not(And(c == k, mem(L.done, p)))), [T.edge(n.g, p, c), T.edge(m.g, p, c)])),
        ('only the node still owes an announcement', ('C07',), FA([x], Implies(Select(L.cur.leaf('$dirty'), x), Or(x == k, Select(L.pre.leaf('$dirty'), x))), [Select(L.cur.leaf('$dirty'), x)])),
    ] + _log_rel(L.pre.leaf('$log'), L.cur.leaf('$log'), lambda y: BoolVal(False))


NOLOSS = 'recursive: no remaining node loses a parent'
BELOW = 'recursive: what lies below a removed node is removed'
NOLOSSE = 'recursive: a link of a remaining node leads to a remaining node'
CUTS = (BELOW, NOLOSSE, NOLOSS)


def _rm_children(L):
    t, k = L.arg('self'), L.arg('node_id')
    n, m = TV(L.cur, t), TV(L.pre, t)
    rec = truthy(L.arg('recursive'))
    gone = lambda y: And(m.has(y), Not(n.has(y)))
    R = lambda f: Implies(rec, f)
    N = lambda f: Implies(Not(rec), f)
    return n.W0() + n.W1() + n.W3() + n.W2(complete=False) + n.W4() + n.W5() + n.W6() + [
        ('nodes only disappear, the node itself stays', ('C05',), And(n.has(k), FA([x], Implies(n.has(x), And(m.has(x), n.node(x) == m.node(x))), [n.has(x)]))),
        ('recursive: only descendants disappear', ('C05',), R(FA([x], Implies(gone(x), And(m.anc(k, x), x != k)), [n.has(x), m.has(x)]))),
        (BELOW, ('C05',), R(FA([x, y], Implies(And(m.edge(x, y), gone(x)), gone(y)), [m.edge(x, y)]))),
        ('recursive: children seen so far are removed', ('C05',), R(FA([x], Implies(mem(L.done, x), gone(x)), [mem(L.done, x)]))),
        (NOLOSSE, ('C05',), R(FA([x, p], Implies(And(n.has(x), T.edge(m.g, p, x)), And(m.has(p), m.has(x), n.has(p))), [T.edge(m.g, p, x)]))),
        (NOLOSS, ('C05',), R(FA([x, p], Implies(And(n.has(x), mem(m.P(x), p)), n.has(p)), [mem(m.P(x), p)]))),
        ('recursive: links of remaining nodes stay', ('C05',), R(FA([x, p], Implies(And(n.has(x), T.edge(m.g, p, x)), T.edge(n.g, p, x)), [T.edge(m.g, p, x)]))),
        ('recursive: remaining child lists', ('C05',), R(FA([x], Implies(n.has(x), n.C(x) == fil(m.C(x), n.dom)), [n.C(x), n.has(x)]))),
        ('recursive: remaining parent lists', ('C05',), R(FA([x], Implies(n.has(x), n.P(x) == m.P(x)), [n.P(x), n.has(x)]))),
        ('non-recursive: nothing disappears', ('C05',), N(n.dom == m.dom)),
        ('non-recursive: other child lists stay', ('C05',), N(FA([x], Implies(And(m.has(x), x != k), n.C(x) == m.C(x)), [n.C(x), m.has(x)]))),
        ('non-recursive: children seen so far lose the node', ('C05',), N(FA([x], Implies(m.has(x), n.P(x) == If(mem(L.done, x), rem(m.P(x), k), m.P(x))), [n.P(x), m.has(x)]))),
        ('non-recursive: remaining children are the unseen ones', ('C05',), N(FA([x], mem(n.C(k), x) == And(mem(L.seq, x), Not(mem(L.done, x))), [mem(n.C(k), x)]))),
        ('the node itself has no parent', ('C05',), n.P(k) == nil),
        ('former parents do not list the node', ('C05',), FA([x], Implies(m.has(x), m.C(x) == rem(TV(L.old, t).C(x), k)), [m.has(x)])),
        ('top level is complete as before', ('C03',), FA([x], Implies(And(n.has(x), n.P(x) == nil), Or(mem(n.rootc, x), And(m.P(x) == nil, Not(mem(m.rootc, x))))), [n.has(x)])),
        ('top level keeps its nodes', ('C03',), FA([x], Implies(And(mem(m.rootc, x), n.has(x)), mem(n.rootc, x)), [mem(m.rootc, x)])),
        ('remembered relations of removed nodes are forgotten, no other', ('C04',), FA([e], mem(n.pend, e) == And(mem(m.pend, e), Not(names(e, gone))), [mem(n.pend, e), mem(m.pend, e)])),
        ('only the node still owes an announcement', ('C07',), FA([x], Implies(Select(L.cur.leaf('$dirty'), x), Or(x == k, Select(L.pre.leaf('$dirty'), x))), [Select(L.cur.leaf('$dirty'), x)])),
    ] + _log_rel(L.pre.leaf('$log'), L.cur.leaf('$log'), gone)


def setof(name, body):
    """a set constant with its defining axiom"""
    A = z3.Const('set_' + name, T.VB)
    return A, FA([x], Select(A, x) == body(x), [Select(A, x)])


def _rm_children_step(L):
    """the definition of a link of the graph, at the loop entry"""
    m = TV(L.pre, L.arg('self'))
    return [FA([x, p], T.edge(m.g, p, x) == And(m.has(x), mem(m.P(x), p)), [mem(m.P(x), p)])]


def _rm_children_hints(L):
    """at the loop exit: the removed nodes plus the node itself are closed downwards"""
    t, k = L.arg('self'), L.arg('node_id')
    n, m, o = TV(L.cur, t), TV(L.pre, t), TV(L.old, t)
    A, d = setof('gone', lambda y: Or(y == k, And(m.has(y), Not(n.has(y)))))
    B, d2 = setof('below', lambda y: m.anc(k, y))
    return [d, T.anc_induct_down(m.g, k, A), d2, T.anc_induct_down(o.g, k, B), T.subg_def(m.g, o.g), T.subg_def(n.g, m.g)]


add(Contract('MainTree._remove_node', requires=_remove_req, ensures=_remove_ens,
             modifies=lambda c: ['_Node.parents', '_Node.children', ('MainTree.nodes', c.self), ('MainTree.pending_relationships', c.self), '$log', '$dirty', '$known'],
             loops=[LoopSpec(_rm_pending, 'pending'),
                    LoopSpec(_rm_parents, 'parents'),
                    LoopSpec(_rm_children, 'children', hints=_rm_children_hints, cuts=CUTS, step=_rm_children_step)],
             hints=lambda c: [T.subg_def(TV(c.new, c.self).g, TV(c.old, c.self).g)]))
