"""Contracts of the queries a user makes on a tree and on its nodes, of node updates and of the counts a tree hands out."""
import z3
from z3 import And, Or, Not, Implies, If, Select, Store, BoolVal, IntVal
from . import theory as T
from .theory import V, S, none, nil, length, mem, at, nodup, lit, truthy, FA, seq, tup
from .ex import Contract, LoopSpec, VV, norm_clause
from .ctree import add, SCHEMA, GHOST, TV, C, ROOT, thread_ok
from .cfilter import via
from .cwrap import tree, at_tree, objs
from .cvtree import W, WV, guard

x, y = z3.Consts('x y', V)
HOLD = ('C04', 'C05', 'C08')
LINK = ('C02', 'C08')


def same(c, what='a query changes nothing', tags=HOLD):
    return []


# --------------------------------------------------------------- which nodes there are
def _get(name, tv, extra=lambda c: []):
    def ens(c):
        t = tv(c)
        return [('the node of that id, or the root', HOLD, And(Or(t.has(c.node_id), c.node_id == ROOT, c.node_id == none), c.result == If(t.has(c.node_id), t.node(c.node_id), t.root)))]
    add(Contract(name + '.get_node#query', body=name + '.get_node', result='V', modifies=[], requires=lambda c: [('the root has its id', tv(c).H('MainTree.root_id', tv(c).t) == ROOT)] + extra(c), ensures=ens,
                 raises={'ValueError': lambda c: [('only for a node that is not in the tree', HOLD, Not(Or(tv(c).has(c.node_id), c.node_id == ROOT, c.node_id == none)))]}))


def _view_objs(c):
    return [('the view stands on a tree that is an object', And(W(c).mt != none, V.is_ref(W(c).mt)))]


_get('MainTree', lambda c: TV(c.old, c.self))
_get('Tree', lambda c: TV(c.old, tree(c)), objs)
_get('ViewTree', lambda c: TV(c.old, W(c).mt), _view_objs)

for cls, tv, extra in (('MainTree', lambda c: TV(c.old, c.self), lambda c: []), ('Tree', lambda c: TV(c.old, tree(c)), objs)):
    add(Contract(cls + '.has_node#query', body=cls + '.has_node', result='bool', modifies=[], requires=extra, ensures=lambda c, tv=tv: [('exactly the nodes of the tree', HOLD, c.result == tv(c).has(c.node_id))]))

add(Contract('MainTree.get_root#query', body='MainTree.get_root', result='V', modifies=[], ensures=lambda c: [('the root', HOLD, c.result == TV(c.old, c.self).root)]))


# --------------------------------------------------------------- links of a node
class N:
    def __init__(self, H, n):
        self.H, self.n = H, n
        self.t = H('_Node.tree', n)
        self.P, self.C = H('_Node.parents', n), H('_Node.children', n)
        self.pe, self.ce = H('_Node.parents_enabled', n), H('_Node.children_enabled', n)
        self.tv = TV(H, self.t)


def nq(name, ens, req=lambda c: [], **kw):
    add(Contract('_Node.%s#query' % name, body='_Node.' + name, modifies=[], requires=req, ensures=lambda c: [(a, LINK, f) for a, f in ens(c, N(c.old, c.self))], **kw))


def _in_tree(c):
    n = N(c.old, c.self)
    return [('the node is in a tree', And(n.t != none, V.is_ref(n.t)))]


nq('has_parent', lambda c, n: [('the given one, present, or any', c.result == And(n.pe, If(truthy(c.parent_id), And(n.tv.has(c.parent_id), mem(n.P, c.parent_id)), n.P != nil)))], req=_in_tree, result='bool')
nq('has_child', lambda c, n: [('the given one, or any', c.result == And(n.ce, If(truthy(c.child_id), mem(n.C, c.child_id), n.C != nil)))], result='bool')
nq('get_nth_child', lambda c, n: [('the child at that place', Implies(c.index >= 0, And(c.index < length(n.C), c.result == at(n.C, c.index)))),
                                  ('counted from the end if negative', Implies(c.index < 0, And(-c.index <= length(n.C), c.result == at(n.C, length(n.C) + c.index))))],
   params={'index': 'int'}, result='V', raises={'ValueError': lambda c: [('only if there is none', LINK, Or(c.index >= length(c.old('_Node.children', c.self)), -c.index > length(c.old('_Node.children', c.self))))]})
nq('get_child_index', lambda c, n: [('its place among the children', Implies(And(n.ce, mem(n.C, c.node_id)), And(V.is_vint(c.result), at(n.C, V.i(c.result)) == c.node_id, V.i(c.result) >= 0, V.i(c.result) < length(n.C)))),
                                    ('none if it is no child', Implies(Not(And(n.ce, mem(n.C, c.node_id))), c.result == none))], result='V')
nq('get_n_children', lambda c, n: [('the number of its present children', Implies(And(n.ce, FA([x], Implies(mem(n.C, x), n.tv.has(x)), [mem(n.C, x)])), c.result == length(n.C))),
                                   ('none if it takes none', Implies(Not(n.ce), c.result == 0))], req=_in_tree, result='int')


# --------------------------------------------------------------- a node announces that it changed
def _mod_at(c):
    return via(c, 'MainTree', self=c.old('_Node.tree', c.self), node_id=c.old('_Node.node_id', c.self))


def _in(c):
    return c.old('_Node.tree', c.self) != none


def _mod_mods(c):
    m = C['MainTree._modify_node'].modifies
    return m(_mod_at(c)) if callable(m) else list(m)


add(Contract('_Node.modified', result='none', modifies=_mod_mods, requires=lambda c: [('the tree of the node is an object', Implies(_in(c), V.is_ref(c.old('_Node.tree', c.self))))] + guard(_in(c), thread_ok(c.old, c.old('_Node.tree', c.self)) + C['MainTree._modify_node'].requires(_mod_at(c))),
             ensures=lambda c: guard(_in(c), C['MainTree._modify_node'].ensures(_mod_at(c))) + [('outside a tree: nothing is announced', ('C07',), Implies(Not(_in(c)), c.new.leaf('$log') == c.old.leaf('$log')))],
             raises={e: (lambda c, e=e: guard(_in(c), C['MainTree._modify_node'].raises[e](_mod_at(c)))) for e in C['MainTree._modify_node'].raises}))


# --------------------------------------------------------------- counts by name
TG = ('C14',)


def _count(c, o):
    return via(c, 'ViewCount', self=o, tree=c.old('Tree.__tree', c.self), fbank=c.old('Tree.__fbank', c.self))


def _gc_req(c):
    from .cfilter import Bank
    t, b = c.old('Tree.__tree', c.self), c.old('Tree.__fbank', c.self)
    return [('the tree and the bank are objects', And(c.self != none, t != none, V.is_ref(t), Select(c.old.leaf('$alloc'), t), b != none, Select(c.old.leaf('$alloc'), b))),
            ('counts are objects', FA([x], Implies(Select(c.old('Tree.__viewscount.dom', c.self), x), Select(c.old.leaf('$alloc'), Select(c.old('Tree.__viewscount.val', c.self), x))), [Select(c.old('Tree.__viewscount.dom', c.self), x)]))] + Bank(c.old, b, t).wf()


def _gc_ens(c):
    od, ov, nd, nv = c.old('Tree.__viewscount.dom', c.self), c.old('Tree.__viewscount.val', c.self), c.new('Tree.__viewscount.dom', c.self), c.new('Tree.__viewscount.val', c.self)
    old = And(c.name != none, Select(od, c.name))
    kept = [Select(c.new.leaf(n), x) == Select(c.old.leaf(n), x) for fld in SCHEMA['ViewCount'] for n in c.ex.leaf_names('ViewCount.' + fld)]
    return [('a count with that name is given back', TG, Implies(old, And(c.result == Select(ov, c.name), nd == od, nv == ov))),
            ('a named count is remembered', TG, Implies(And(Not(old), c.name != none), And(nd == Store(od, c.name, BoolVal(True)), nv == Store(ov, c.name, c.result)))),
            ('a count without a name is not', TG, Implies(c.name == none, And(nd == od, nv == ov))),
            ('the other counts are left alone', TG, FA([x], Implies(Select(c.old.leaf('$alloc'), x), And(*kept)), [Select(c.old.leaf('$alloc'), x)]))] + guard(Not(old), C['ViewCount.__init__'].ensures(_count(c, c.result)))


add(Contract('Tree.get_viewcount', result=('obj', 'ViewCount'), requires=_gc_req, ensures=_gc_ens,
             modifies=lambda c: ['ViewCount.' + f for f in SCHEMA['ViewCount']] + [('MainTree.__cllbcks', c.old('Tree.__tree', c.self)), ('Tree.__viewscount', c.self), '$calls', '$alloc']))
add(Contract('Tree.get_main_view', result='V', modifies=[], requires=lambda c: [('it was set up', Select(c.old('Tree.__views.dom', c.self), lit('main')))],
             ensures=lambda c: [('the view called main', ('C08',), c.result == Select(c.old('Tree.__views.val', c.self), lit('main')))]))


# --------------------------------------------------------------- passed on by a view
add(Contract('ViewTree.get_basetree', result='V', modifies=[], ensures=lambda c: [('the tree it was made for', ('C08',), c.result == c.old('ViewTree.maininterface', c.self))]))
add(Contract('ViewTree.get_root#query', body='ViewTree.get_root', result='V', modifies=[], requires=_view_objs, ensures=lambda c: [('the root of the tree', ('C08',), c.result == W(c).t.root)]))


def _ra(c):
    return via(c, 'MainTree', self=W(c).mt)


def _ra_mods(m):
    return lambda c: (m(_ra(c)) if callable(m) else list(m))


for suffix in ('', '#view'):
    con = C['MainTree.refresh_all' + suffix]
    add(Contract('ViewTree.refresh_all' + suffix, body='ViewTree.refresh_all', result='none', modifies=_ra_mods(con.modifies), requires=lambda c, con=con: _view_objs(c) + thread_ok(c.old, W(c).mt) + con.requires(_ra(c)),
                 ensures=lambda c, con=con: con.ensures(_ra(c)), callmap={} if not suffix else {'MainTree.refresh_all': lambda c: [(BoolVal(True), 'MainTree.refresh_all#view')]}))


# --------------------------------------------------------------- a node as a user makes it
for suffix in ('', '#parent'):
    con = C['_Node.__init__' + suffix]
    add(Contract('TreeNode.__init__' + suffix, body='TreeNode.__init__', result='none', modifies=con.modifies, requires=con.requires, ensures=con.ensures, raises=con.raises, params=con.params,
                 callmap={} if not suffix else {'_Node.__init__': lambda c: [(BoolVal(True), '_Node.__init__#parent')]}))


# --------------------------------------------------------------- a filter as the bank makes it
add(Contract('Filter.__init__#new', body='Filter.__init__', params={'req': ('obj', 'MainTree')}, result='none', requires=lambda c: [('the object exists', And(V.is_ref(c.self), Select(c.old.leaf('$alloc'), c.self)))],
             modifies=lambda c: [('Filter.' + f, c.self) for f in SCHEMA['Filter']] + ['PyDict.d', '$alloc'],
             ensures=lambda c: [('it is made of what was given', ('C15',), And(c.new('Filter.func', c.self) == c.func, c.new('Filter.tree', c.self) == c.req)),
                                ('it has no parameter, in a dictionary of its own', ('C15',), And(c.new('PyDict.d.dom', c.new('Filter.dic', c.self)) == T.EMPTY, Not(Select(c.old.leaf('$alloc'), c.new('Filter.dic', c.self))))),
                                ('other dictionaries stay', ('C15',), FA([x], Implies(Select(c.old.leaf('$alloc'), x), And(c.new('PyDict.d.dom', x) == c.old('PyDict.d.dom', x), c.new('PyDict.d.val', x) == c.old('PyDict.d.val', x))), [Select(c.old.leaf('$alloc'), x)]))]))
add(Contract('Filter.get_parameters', result='V', modifies=[], requires=lambda c: [('its parameters are a dictionary', V.is_ref(c.old('Filter.dic', c.self)))],
             ensures=lambda c: [('its parameter of that name', ('C15', 'C10'), c.result == If(Select(c.old('PyDict.d.dom', c.old('Filter.dic', c.self)), c.param), Select(c.old('PyDict.d.val', c.old('Filter.dic', c.self)), c.param), none))]))
