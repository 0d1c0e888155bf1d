"""Contracts of view counts (liblarch/viewcount.py).

A count agrees with the tree when it holds exactly the present nodes that every applied filter accepts (allsay of
the abstract bank).  While a request runs this may fail at the node announced next, and only there: the ghost
$known of ctree proves that presence changes at no other node between two announcements.
"""
import z3
from z3 import And, Or, Not, Implies, If, Select, Store, BoolVal, IntVal
from . import theory as T
from .theory import V, S, none, vbool, tup, nil, snoc, length, mem, at, tail, cat, rem, nodup, lit, truthy, FA, seq, cnt
from .ex import Contract, LoopSpec, VV
from .ctree import add, SCHEMA, GHOST, TV
from .cfilter import Bank, papply
from .cqueue import record_call, RG, bound

x, f_, g_ = z3.Consts('x f_ g_', V)
TG = ('C14',)

SCHEMA['ViewCount'] = {
    'initialized': 'bool', 'ncount': ('dict', 'V'), 'tree': ('obj', 'MainTree'), 'fbank': ('obj', 'FiltersBank'), 'name': 'V',
    'applied_filters': 'list', 'nodes': 'list', 'cllbcks': 'list',
}


class VC:
    def __init__(self, H, v):
        self.H, self.v = H, v
        self.nodes = H('ViewCount.nodes', v)
        self.app = H('ViewCount.applied_filters', v)
        self.cb = H('ViewCount.cllbcks', v)
        self.t = H('ViewCount.tree', v)
        self.bank = Bank(H, H('ViewCount.fbank', v), self.t)
        self.dom = H('MainTree.nodes.dom', self.t)
        self.calls = H.leaf('$calls')

    def acc(self, k):
        return self.bank.all(self.app, k)

    def wf(self):
        return self.bank.wf() + [('no node is counted twice', TG, nodup(self.nodes)), ('no listener is registered twice', TG, nodup(self.cb))]

    def right(self, k):
        return mem(self.nodes, k) == And(Select(self.dom, k), self.acc(k))

    def agrees(self, but=None, tags=TG):
        g = self.right(x)
        if but is not None:
            g = Implies(x != but, g)
        return [('the counted nodes are exactly the accepted nodes of the tree' if but is None else 'so far they are, but for the announced node', tags, FA([x], g, [mem(self.nodes, x)] if but is None else [mem(self.nodes, x), Select(self.dom, x)]))]


def calls_once(o, n, changed):
    return [('listeners are called once each when the counted set changed, else not at all', TG,
             n.calls == If(changed, cat(o.calls, T.fcalls(o.cb, nil)), o.calls))]


def step(o, n, k, keep):
    """the count after looking at one node again"""
    now = If(keep, If(mem(o.nodes, k), o.nodes, snoc(o.nodes, k)), rem(o.nodes, k))
    return [('the node is counted exactly when it is accepted, every other as before', TG, n.nodes == now)] + calls_once(o, n, mem(o.nodes, k) != keep)


def _cb_loop(L):
    return [('the listeners seen so far were called once each', TG, L.cur.leaf('$calls') == cat(L.pre.leaf('$calls'), T.fcalls(L.done, nil)))]


add(Contract('ViewCount.__callback', result='none', modifies=['$calls'], loops=[LoopSpec(_cb_loop, 'listeners')],
             ensures=lambda c: [('every listener is called once', TG, c.new.leaf('$calls') == cat(c.old.leaf('$calls'), T.fcalls(VC(c.old, c.self).cb, nil)))]))
CM = lambda c: [('ViewCount.nodes', c.self), '$calls']
add(Contract('ViewCount.__add', result='none', modifies=CM, ensures=lambda c: step(VC(c.old, c.self), VC(c.new, c.self), c.nid, BoolVal(True))))
add(Contract('ViewCount.__delete', result='none', modifies=CM, ensures=lambda c: step(VC(c.old, c.self), VC(c.new, c.self), c.nid, BoolVal(False))))


def _mod_loop(L):
    v = VC(L.cur, L.arg('self'))
    return [('accepted by the filters seen so far', TG, And(L.truth('displayed'), v.bank.all(L.done, L.arg('nid'))))]


def _mod_req(c):
    return VC(c.old, c.self).bank.wf()


def _mod_ens(c):
    o, n = VC(c.old, c.self), VC(c.new, c.self)
    return step(o, n, c.nid, o.acc(c.nid))


add(Contract('ViewCount.__modify', result='none', modifies=CM, requires=_mod_req, ensures=_mod_ens, loops=[LoopSpec(_mod_loop, 'filters')]))
add(Contract('ViewCount.modify', result='none', modifies=CM, requires=_mod_req, ensures=_mod_ens))


# as listeners of the tree: what holds but for the announced node holds for all nodes afterwards
def _heard(name, body, present, loops=()):
    def req(c):
        o = VC(c.old, c.self)
        return o.wf() + o.agrees(c.nid) + [('the announced node is %s' % ('present' if present else 'absent'), Select(o.dom, c.nid) == BoolVal(present))]

    def ens(c):
        o, n = VC(c.old, c.self), VC(c.new, c.self)
        return n.wf() + n.agrees() + calls_once(o, n, mem(o.nodes, c.nid) != mem(n.nodes, c.nid))
    add(Contract(name, body=body, result='none', modifies=CM, requires=req, ensures=ens, loops=list(loops)))


_heard('ViewCount.__modify#heard', 'ViewCount.__modify', True, [LoopSpec(_mod_loop, 'filters')])
_heard('ViewCount.__delete#heard', 'ViewCount.__delete', False)


# --------------------------------------------------------------- recounting
def moved(o, n, k):
    """k = number of changes of the counted set: every listener was called that often"""
    return [('every listener is called once per change of the counted set', TG,
             FA([f_], Implies(mem(o.cb, f_), cnt(n.calls, tup(seq(f_))) == cnt(o.calls, tup(seq(f_))) + k), [cnt(n.calls, tup(seq(f_)))])),
            ('no change, no call', TG, Implies(Or(k == 0, o.cb == nil), n.calls == o.calls))]


def _refresh_loop(L):
    v = L.arg('self')
    n, o = VC(L.cur, v), VC(L.pre, v)
    return n.wf() + [
        ('nodes seen so far are counted exactly when accepted', TG, FA([x], Implies(mem(L.done, x), mem(n.nodes, x) == n.acc(x)), [mem(L.done, x), mem(n.nodes, x)])),
        ('the others are counted as before', TG, FA([x], Implies(Not(mem(L.done, x)), mem(n.nodes, x) == mem(o.nodes, x)), [mem(n.nodes, x), mem(o.nodes, x)])),
    ]


def _up_loop(L):
    """from a count that only lacks nodes"""
    v = L.arg('self')
    n, o = VC(L.cur, v), VC(L.pre, v)
    return _refresh_loop(L) + moved(o, n, length(n.nodes) - length(o.nodes)) + [('the count only grows', TG, length(n.nodes) >= length(o.nodes)), ('same length, same nodes', TG, Implies(length(n.nodes) == length(o.nodes), n.nodes == o.nodes))]


def _down_loop(L):
    v = L.arg('self')
    n, o = VC(L.cur, v), VC(L.pre, v)
    return _refresh_loop(L) + moved(o, n, length(o.nodes) - length(n.nodes)) + [('the count only shrinks', TG, length(n.nodes) <= length(o.nodes)), ('same length, same nodes', TG, Implies(length(n.nodes) == length(o.nodes), n.nodes == o.nodes))]


def under(o, n):
    """nothing counted that is not accepted (now)"""
    return FA([x], Implies(mem(o.nodes, x), And(Select(n.dom, x), n.acc(x))), [mem(o.nodes, x)])


def _refresh_req(c):
    o = VC(c.old, c.self)
    return o.wf() + [('nothing is counted that is not accepted', under(o, o))]


def _refresh_ens(c):
    o, n = VC(c.old, c.self), VC(c.new, c.self)
    return n.wf() + n.agrees() + moved(o, n, length(n.nodes) - length(o.nodes)) + [('the count is complete from now on', TG, n.H('ViewCount.initialized', c.self))]


RM = lambda c: [('ViewCount.nodes', c.self), ('ViewCount.initialized', c.self), '$calls']
add(Contract('ViewCount.__refresh', result='none', modifies=RM, requires=_refresh_req, ensures=_refresh_ens, loops=[LoopSpec(_up_loop, 'nodes')]))


def inited(o):
    return o.H('ViewCount.initialized', o.v)


def _apply_req(c):
    o = VC(c.old, c.self)
    return o.wf() + [('a refreshed count is right', Implies(inited(o), fm(o.agrees()[0]))),
                     ('a count that was not refreshed yet is empty', Implies(Not(inited(o)), o.nodes == nil))]


def fm(cl):
    return cl[-1]


def _apply_ens(c):
    o, n = VC(c.old, c.self), VC(c.new, c.self)
    nm, known = c.filter_name, o.bank.has(c.filter_name)
    new = And(known, Not(mem(o.app, nm)))
    return n.wf() + [
        ('the filter is applied once, if it is in the bank', TG, n.app == If(new, snoc(o.app, nm), o.app)),
        ('a refreshed count stays right', TG, Implies(And(truthy(c.refresh), Or(inited(o), new)), fm(n.agrees()[0]))),
        ('an unknown or already applied filter changes nothing', TG, Implies(Not(new), And(n.nodes == o.nodes, n.calls == o.calls))),
    ] + [(a, b, Implies(And(new, truthy(c.refresh), inited(o)), g)) for a, b, g in moved(o, n, length(o.nodes) - length(n.nodes))]


add(Contract('ViewCount.apply_filter', result='none', requires=_apply_req, ensures=_apply_ens, loops=[LoopSpec(_down_loop, 'counted nodes')],
             modifies=lambda c: [('ViewCount.nodes', c.self), ('ViewCount.initialized', c.self), ('ViewCount.applied_filters', c.self), '$calls']))


def _unapply_ens(c):
    o, n = VC(c.old, c.self), VC(c.new, c.self)
    was = mem(o.app, c.filter_name)
    return n.wf() + n.agrees() + [('the filter is not applied any more', TG, n.app == rem(o.app, c.filter_name))] + moved(o, n, length(n.nodes) - length(o.nodes))


add(Contract('ViewCount.unapply_filter', result='none', requires=lambda c: VC(c.old, c.self).wf() + VC(c.old, c.self).agrees(), ensures=_unapply_ens,
             loops=[LoopSpec(_up_loop, 'nodes')],
             modifies=lambda c: [('ViewCount.nodes', c.self), ('ViewCount.applied_filters', c.self), '$calls']))

add(Contract('ViewCount.get_n_nodes', result='int', ensures=lambda c: [('the number of counted nodes', TG, c.result == length(VC(c.old, c.self).nodes))]))
add(Contract('ViewCount.register_cllbck', result='none', modifies=lambda c: [('ViewCount.cllbcks', c.self)],
             ensures=lambda c: [('the listener is registered once', TG, VC(c.new, c.self).cb == If(mem(VC(c.old, c.self).cb, c.func), VC(c.old, c.self).cb, snoc(VC(c.old, c.self).cb, c.func)))]))
add(Contract('ViewCount.unregister_cllbck', result='none', modifies=lambda c: [('ViewCount.cllbcks', c.self)],
             ensures=lambda c: [('exactly that listener is gone', TG, VC(c.new, c.self).cb == rem(VC(c.old, c.self).cb, c.func))]))


def listening(H, t, o):
    r = RG(H, 'MainTree', t)
    k = z3.Const('k', V)
    return [('it listens to %s' % ev, TG, z3.Exists([k], And(r.has(lit(ev), k), r.f(lit(ev), k) == bound('ViewCount.' + m, o)), patterns=[Select(Select(r.keys, lit(ev)), k)]))
            for ev, m in (('node-added', '__modify'), ('node-modified', '__modify'), ('node-deleted', '__delete'))]


def _init_req(c):
    return [('the count is new', And(c.self != none, c.self != c.tree, c.tree != none))] + Bank(c.old, c.fbank, c.tree).wf()


def _init_ens(c):
    n = VC(c.new, c.self)
    return n.wf() + [
        ('it counts the nodes of the given tree', TG, And(n.t == c.tree, n.H('ViewCount.fbank', c.self) == c.fbank)),
        ('no filter is applied, nobody listens', TG, And(n.app == nil, n.cb == nil)),
        ('a refreshed count is right from the start', TG, Implies(truthy(c.refresh), And(inited(n), fm(n.agrees()[0])))),
        ('a count that is not refreshed is empty', TG, Implies(Not(truthy(c.refresh)), And(Not(inited(n)), n.nodes == nil))),
        ('nobody is called', TG, c.new.leaf('$calls') == c.old.leaf('$calls')),
    ] + listening(c.new, c.tree, c.self)


add(Contract('ViewCount.__init__', params={'tree': ('obj', 'MainTree'), 'fbank': ('obj', 'FiltersBank')}, result='none', requires=_init_req, ensures=_init_ens,
             modifies=lambda c: [('ViewCount.' + f, c.self) for f in SCHEMA['ViewCount']] + [('MainTree.__cllbcks', c.tree), '$calls']))
