"""Contracts of the filter bank (liblarch/filters_bank.py) and of view counts (liblarch/viewcount.py).

A filter function is an uninterpreted function of its arguments (theory.papply): it answers the same as long as
nothing is announced, does not fail and issues no request.  Bank(H, b, t) is the abstract bank: which names
exist and what each filter says about each node of tree t.
"""
import z3
from z3 import And, Or, Not, Implies, If, Select, Store, BoolVal, IntVal
from . import theory as T
from .theory import V, S, none, vbool, tup, nil, snoc, length, mem, at, tail, cat, rem, nodup, lit, truthy, FA, seq
from .ex import Contract, LoopSpec, NeedSpec, VV, BV, FnV, TupV, Unsupported, fresh
from .ctree import add, SCHEMA, GHOST, TV
from . import ctree
from .ctree import C

x, y, n_, f_, d_ = z3.Consts('x y n_ f_ d_', V)

SCHEMA['PyDict'] = {'d': ('dict', 'V')}
SCHEMA['Filter'] = {'func': 'V', 'dic': ('obj', 'PyDict'), 'tree': ('obj', 'MainTree')}
SCHEMA['FiltersBank'] = {'tree': ('obj', 'MainTree'), 'available_filters': ('dict', ('obj', 'Filter')), 'custom_filters': ('dict', ('obj', 'Filter'))}

VERDICT = ['FiltersBank.available_filters', 'FiltersBank.custom_filters', 'Filter.func', 'Filter.dic', 'PyDict.d', 'MainTree.nodes']


def papply(ex, p, f, pos, kw, line):
    args = nil
    for a in pos:
        if isinstance(a, tuple):
            raise Unsupported('starred call of a filter function')
        args = snoc(args, ex.to_v(p, a))
    for k in sorted(kw):
        args = snoc(snoc(args, lit(k)), ex.to_v(p, kw[k]))
    return [('ok', VV(T.papply(ex.to_v(p, f), args)), p)]


def fleaves(H):
    return [H.leaf('Filter.func'), H.leaf('Filter.dic'), H.leaf('PyDict.d.dom'), H.leaf('PyDict.d.val')]


def answer(H, f, node):
    return T.fanswer(*fleaves(H), f, node)


class Bank:
    def __init__(self, H, b, t=None):
        self.H, self.b = H, b
        self.t = t if t is not None else H('FiltersBank.tree', b)
        self.adom, self.aval = H('FiltersBank.available_filters.dom', b), H('FiltersBank.available_filters.val', b)
        self.cdom, self.cval = H('FiltersBank.custom_filters.dom', b), H('FiltersBank.custom_filters.val', b)
        self.tok = T.bankof(self.adom, self.aval, self.cdom, self.cval, *fleaves(H), H('MainTree.nodes.dom', self.t), H('MainTree.nodes.val', self.t))

    def has(self, n):
        return Or(Select(self.adom, n), Select(self.cdom, n))

    def get(self, n):
        return If(Select(self.adom, n), Select(self.aval, n), If(Select(self.cdom, n), Select(self.cval, n), none))

    def says(self, n, k):
        return T.says(self.tok, n, k)

    def all(self, s, k):
        return T.allsay(self.tok, s, k)

    def wf(self):
        H = self.H
        obj = lambda f: And(V.is_ref(f), Select(H.leaf('$alloc'), f), V.is_ref(H('Filter.dic', f)), H('Filter.tree', f) == self.t)
        return [('the bank belongs to the tree', And(self.b != none, self.t != none, H('FiltersBank.tree', self.b) == self.t)),
                ('every filter of the bank is a filter object of its tree', FA([n_], Implies(Select(self.adom, n_), obj(Select(self.aval, n_))), [Select(self.adom, n_)])),
                ('every custom filter is a filter object of its tree', FA([n_], Implies(Select(self.cdom, n_), obj(Select(self.cval, n_))), [Select(self.cdom, n_)]))]


def names(ex, p, a):
    pass


# --------------------------------------------------------------- one filter
def _isd_ens(c):
    f = c.self
    t = c.old('Filter.tree', f)
    has = Select(c.old('MainTree.nodes.dom', t), c.node_id)
    node = Select(c.old('MainTree.nodes.val', t), c.node_id)
    return [('accepts exactly the nodes of the tree its function accepts (negated on request)', ('C15',), truthy(c.result) == And(has, answer(c.old, f, node)))]


add(Contract('Filter.is_displayed', requires=lambda c: [('its parameters are a dictionary', V.is_ref(c.old('Filter.dic', c.self)))], ensures=_isd_ens, result='V', ext=papply))

add(Contract('Filter.is_flat', requires=lambda c: [('its parameters are a dictionary', V.is_ref(c.old('Filter.dic', c.self)))], result='V',
             ensures=lambda c: [('flat exactly when its parameters say so', ('C15', 'C10'), truthy(c.result) == flatp(c.old, c.self))]))


def flatp(H, f):
    d = H('Filter.dic', f)
    return And(Select(H('PyDict.d.dom', d), lit('flat')), truthy(Select(H('PyDict.d.val', d), lit('flat'))))


def _setp(c):
    d = c.dic
    nz = And(d != none, c.old('PyDict.d.dom', d) != T.EMPTY)
    return [('parameters are replaced unless none are given', ('C15',), c.new('Filter.dic', c.self) == If(nz, d, c.old('Filter.dic', c.self)))]


add(Contract('Filter.set_parameters', params={'dic': ('obj', 'PyDict')}, ensures=_setp, modifies=lambda c: [('Filter.dic', c.self)], result='none'))


# --------------------------------------------------------------- the bank
def bank_req(c):
    return Bank(c.old, c.self).wf()


add(Contract('FiltersBank.get_filter', ensures=lambda c: [('the filter of that name', ('C15',), c.result == Bank(c.old, c.self).get(c.filter_name))], result=('obj', 'Filter')))
add(Contract('FiltersBank.has_filter', ensures=lambda c: [('exactly when available', ('C15',), c.result == Bank(c.old, c.self).has(c.filter_name))], result='bool'))
add(Contract('FiltersBank.list_filters', result='list', ensures=lambda c: [
    ('the available names', ('C15',), FA([x], mem(c.result, x) == Bank(c.old, c.self).has(x), [mem(c.result, x)]))]))


def kept(c, leaf):
    return ('objects that existed before are unchanged: ' + leaf, (), FA([f_], Implies(Select(c.old.leaf('$alloc'), f_), Select(c.new.leaf(leaf), f_) == Select(c.old.leaf(leaf), f_)), [Select(c.new.leaf(leaf), f_)]))


def grows(c):
    return ('objects stay allocated', (), FA([f_], Implies(Select(c.old.leaf('$alloc'), f_), Select(c.new.leaf('$alloc'), f_)), [Select(c.new.leaf('$alloc'), f_)]))


def _add_ens(c):
    o, n = Bank(c.old, c.self), Bank(c.new, c.self)
    nm = If(T.startswith(c.filter_name, lit('!')), T.substr1(c.filter_name), c.filter_name)
    f = Select(n.cval, nm)
    par = c.parameters
    given = And(par != none, c.old('PyDict.d.dom', par) != T.EMPTY)
    H = c.new
    return n.wf() + [
        ('reports whether the name was new', ('C15',), truthy(c.result) == Not(o.has(nm))),
        ('the name is available exactly once more', ('C15',), FA([x], n.has(x) == Or(o.has(x), x == nm), [n.has(x)] if False else [Select(n.cdom, x), Select(n.adom, x)])),
        ('every other filter is untouched', ('C15',), FA([x], Implies(o.has(x), n.get(x) == o.get(x)), [Select(n.cval, x), Select(n.aval, x)])),
        ('the new filter has the given function', ('C15',), Implies(Not(o.has(nm)), And(n.get(nm) == f, H('Filter.func', f) == c.filter_func, H('Filter.tree', f) == o.t))),
        ('the new filter has the given parameters', ('C15',), Implies(Not(o.has(nm)), If(given, H('Filter.dic', f) == par, H('PyDict.d.dom', H('Filter.dic', f)) == T.EMPTY))),
        kept(c, 'Filter.func'), kept(c, 'Filter.dic'), kept(c, 'Filter.tree'), kept(c, 'PyDict.d.dom'), kept(c, 'PyDict.d.val'), grows(c),
    ]


add(Contract('FiltersBank.add_filter', params={'parameters': ('obj', 'PyDict')},
             requires=lambda c: bank_req(c) + [('parameters are a dictionary or None', Or(c.parameters == none, And(V.is_ref(c.parameters), Select(c.old.leaf('$alloc'), c.parameters))))],
             ensures=_add_ens, result='V',
             modifies=lambda c: [('FiltersBank.custom_filters', c.self), 'Filter.func', 'Filter.dic', 'Filter.tree', 'PyDict.d', '$alloc']))


def _rm_ens(c):
    o, n = Bank(c.old, c.self), Bank(c.new, c.self)
    cust = And(Select(o.cdom, c.filter_name), Not(Select(o.adom, c.filter_name)))
    return n.wf() + [
        ('reports whether a filter was removed', ('C15',), truthy(c.result) == cust),
        ('the name is not available any more', ('C15',), Implies(cust, Not(n.has(c.filter_name)))),
        ('every other name is untouched', ('C15',), FA([x], Implies(x != c.filter_name, And(n.has(x) == o.has(x), n.get(x) == o.get(x))), [Select(n.cdom, x), Select(n.cval, x)])),
    ]


add(Contract('FiltersBank.remove_filter', requires=lambda c: bank_req(c), ensures=_rm_ens, result='V', modifies=lambda c: [('FiltersBank.custom_filters', c.self)]))
add(Contract('FiltersBank.__init__', params={'tree': ('obj', 'MainTree')}, requires=lambda c: [('the objects exist', And(c.self != none, c.tree != none))], result='none', modifies=lambda c: [('FiltersBank.tree', c.self), ('FiltersBank.available_filters', c.self), ('FiltersBank.custom_filters', c.self)],
             ensures=lambda c: Bank(c.new, c.self).wf() + [('no filter is available', ('C15',), FA([x], Not(Bank(c.new, c.self).has(x)), [Select(Bank(c.new, c.self).cdom, x), Select(Bank(c.new, c.self).adom, x)])),
                                ('the bank belongs to the given tree', ('C15',), c.new('FiltersBank.tree', c.self) == c.tree)]))


# --------------------------------------------------------------- the public wrappers
def via(c, field_cls, **over):
    """the same context with another receiver"""
    import copy
    d = copy.copy(c)
    d.__dict__['args'] = dict(c.args, **{k: VV(v, field_cls) for k, v in over.items()})
    return d


def _bank(c):
    return via(c, 'FiltersBank', self=c.old('Tree.__fbank', c.self))


add(Contract('Tree.add_filter', params={'parameters': ('obj', 'PyDict')}, requires=lambda c: C['FiltersBank.add_filter'].requires(_bank(c)), ensures=lambda c: _add_ens(_bank(c)), result='V',
             modifies=lambda c: [('FiltersBank.custom_filters', c.old('Tree.__fbank', c.self)), 'Filter.func', 'Filter.dic', 'Filter.tree', 'PyDict.d', '$alloc']))
add(Contract('Tree.remove_filter', requires=lambda c: bank_req(_bank(c)), ensures=lambda c: _rm_ens(_bank(c)), result='V',
             modifies=lambda c: [('FiltersBank.custom_filters', c.old('Tree.__fbank', c.self))]))
add(Contract('Tree.list_filters', result='list', ensures=lambda c: C['FiltersBank.list_filters'].ensures(_bank(c))))
