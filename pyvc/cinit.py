"""Contracts of the constructors: what a tree, a node and a view are when they are new (the base case of every history)."""
import z3
from z3 import And, Or, Not, Implies, If, Select, Store, BoolVal, IntVal
from . import theory as T
from .theory import V, S, none, nil, snoc, length, mem, nodup, lit, truthy, FA, seq, tup
from .ex import Contract, LoopSpec, VV
from .ctree import add, SCHEMA, GHOST, TV, C, ROOT, pair, is_id, node_ok, is_pair
from . import cnode
from .cqueue import RG, bound
from .crun import RO, CB, RI, CI, G11
from .cupd import U, TF, MOD, FLAT, mirror, G9, G10, G17, uu, inv, x, k_
from .cref import consistent, nopaths as no_paths
from .creqv import view_state

NF = '_Node.'
ALLN = ('C01', 'C02', 'C03', 'C04')


def grows(c):
    return [('objects stay', FA([x], Implies(Select(c.old.leaf('$alloc'), x), Select(c.new.leaf('$alloc'), x)), [Select(c.old.leaf('$alloc'), x), Select(c.new.leaf('$alloc'), x)]))]


# --------------------------------------------------------------- a node
def new_node(c, pend):
    n, o = c.new, c.self
    return [('it has its id, and no relation yet', ALLN, And(
        n(NF + 'node_id', o) == c.node_id, n(NF + 'parents', o) == nil, n(NF + 'children', o) == nil, n(NF + 'tree', o) == none,
        n(NF + 'parents_enabled', o), n(NF + 'children_enabled', o))),
        ('a given parent is declared', ('C04',), n(NF + 'pending_relationships', o) == pend)]


SELF = lambda c: [(NF + f, c.self) for f in SCHEMA['_Node']]
new_obj = lambda c: [('the object exists', And(V.is_ref(c.self), Select(c.old.leaf('$alloc'), c.self)))]
add(Contract('_Node.__init__', result='none', modifies=SELF, requires=lambda c: new_obj(c) + [('no parent is given', Not(truthy(c.parent)))], ensures=lambda c: new_node(c, nil)))
add(Contract('_Node.__init__#parent', body='_Node.__init__', result='none', modifies=lambda c: SELF(c) + list(cnode._mods(c) if callable(cnode._mods) else cnode._mods),
             requires=lambda c: new_obj(c) + [('a proper id, and one of a parent', And(is_id(c.node_id), is_id(c.parent))), ('nobody owes an announcement', c.old.leaf('$dirty') == T.EMPTY)],
             ensures=lambda c: new_node(c, If(c.parent == c.node_id, nil, seq(pair(c.parent, c.node_id)))) + [('nothing is announced', ('C07',), c.new.leaf('$log') == c.old.leaf('$log'))]))


# --------------------------------------------------------------- a tree
MF = 'MainTree.'


def _tree_ens(c):
    n, t = c.new, c.self
    tv = TV(n, t)
    return tv.WF() + grows(c) + [
        ('it has no node', ALLN, tv.dom == T.EMPTY), ('the top level is empty', ALLN, tv.rootc == nil), ('no relation is remembered', ('C04',), tv.pend == nil),
        ('nobody listens', ('C07',), FA([x, k_], Not(RG(n, 'MainTree', t).has(x, k_)), [Select(Select(RG(n, 'MainTree', t).keys, x), k_)])),
        ('nothing waits in its queue, requests of the creating thread run at once', ('C16',), And(
            n('SyncQueue._origin_thread', n(MF + '_queue', t)) == c.old.leaf('$thread'), *[n('SyncQueue.' + q, n(MF + '_queue', t)) == nil for q in ('_low_queue', '_queue', '_vip_queue')]))]


add(Contract('MainTree.__init__', result='none', requires=lambda c: new_obj(c) + [('nothing was announced yet', c.old.leaf('$known') == T.EMPTY)], ensures=_tree_ens,
             hints=lambda c: [T.acyc_intro(TV(c.new, c.self).g, z3.K(V, IntVal(0)))],
             modifies=lambda c: [(MF + f, c.self) for f in SCHEMA['MainTree']] + [NF + f for f in SCHEMA['_Node']] + ['SyncQueue.' + f for f in SCHEMA['SyncQueue']] + ['$alloc']))


# --------------------------------------------------------------- a filtered view
def root_name(name):
    return If(name == none, lit('anonymous_root'), T.fmt(lit('root_%s'), name))


def _ft_req(c):
    H, f, t = c.old, c.self, c.tree
    tv = TV(H, t)
    r = root_name(c.name)
    rank = H.leaf('$rank')
    from .cfilter import Bank
    tw = G9 + G10 + G17
    from .ctree import p, c as ch
    return new_obj(c) + [(a[0], tw, a[-1]) for a in tv.W0() + tv.W1() + tv.W2()] + Bank(H, c.filtersbank, t).wf() + [
        ('the tree and the bank are other objects', And(f != t, f != c.filtersbank, V.is_ref(t))),
        ('the view root is no node of the tree', tw, And(Not(tv.has(r)), r != lit(''))),
        ('ghost: tree links descend along the ranking', tw, FA([p, ch], Implies(And(tv.has(ch), mem(tv.P(ch), p)), Select(rank, p) < Select(rank, ch)), [mem(tv.P(ch), p)])),
        ('ghost: the view root is on top', tw, FA([x], Implies(x != r, Select(rank, r) < Select(rank, x)), [Select(rank, x)])),
        ('ghost: nothing was announced by a new view', G11, And(H('$mir', f) == T.EMPTY, H('$ann', f) == z3.K(V, T.EMPTY)))]


def _ft_ens(c):
    n, o = U(c.new, c.self), uu(c)
    again = truthy(c.refresh)
    cl = [('it is a view of the tree and the bank', G9, And(n.t == c.tree, c.new('FilteredTree.fbank', c.self) == c.filtersbank, n.root == root_name(c.name))),
          ('no filter is applied', ('C09', 'C15'), n.app == nil),
          ('nothing waits', G17, n.rdom == T.EMPTY),
          ('it has no listener yet', G11, c.new(CB + '.dom', c.self) == T.EMPTY)]
    for a in view_state(n, n.acc, n.I, lambda k: BoolVal(False)) + [('it is not flat', G10, Not(n.flat))]:
        cl.append((a[0] + ' (shown at once)',) + tuple(a[1:-1]) + (Implies(again, a[-1]),))
    for a in n.base() + consistent(n) + mirror(n) + [('it shows nothing', G9, n.dom == Store(T.EMPTY, n.root, BoolVal(True)))]:
        cl.append((a[0] + ' (shown later)',) + tuple(a[1:-1]) + (Implies(Not(again), a[-1]),))
    r = RG(c.new, 'MainTree', c.tree)
    k = z3.Const('k', V)
    cl += [('it follows %s' % ev, G9 + G10 + G11 + G17, z3.Exists([k], And(r.has(lit(ev), k), r.f(lit(ev), k) == bound('FilteredTree.__external_modify', c.self)), patterns=[Select(Select(r.keys, lit(ev)), k)]))
           for ev in ('node-added', 'node-modified', 'node-deleted')]
    q = RG(c.old, 'MainTree', c.tree)
    return cl + [('the other listeners stay', ('C07',), FA([x, k_], Implies(q.has(x, k_), And(r.has(x, k_), r.f(x, k_) == q.f(x, k_))), [Select(Select(q.keys, x), k_)]))]


add(Contract('FilteredTree.__init__', params={'tree': ('obj', 'MainTree'), 'filtersbank': ('obj', 'FiltersBank')}, requires=_ft_req, ensures=_ft_ens, result='none', hints=lambda c: no_paths(U(c.new, c.self).root),
             modifies=lambda c: [('FilteredTree.' + f, c.self) for f in SCHEMA['FilteredTree']] + [('MainTree.__cllbcks', c.tree), '$calls', '$runs', ('$mir', c.self), ('$ann', c.self), ('$stale', c.self)]))


# --------------------------------------------------------------- the view a user sees
EVENTS = [('added', 'node-added-inview'), ('deleted', 'node-deleted-inview'), ('modified', 'node-modified-inview'), ('reordered', 'node-children-reordered')]
VF = 'ViewTree.'


def emits(w, ev):
    return tup(seq(lit('partial'), bound('ViewTree.__emit', w), lit(ev)))


def ft_args(c, f):
    from .cfilter import via
    return via(c, 'FilteredTree', self=f, tree=c.maintree, filtersbank=c.filters_bank)


def _vt_req(c):
    from .cvtree import guard
    H = c.old
    f_ = z3.Const('f_', V)
    a = ft_args(c, c.self)
    cl = [k for k in _ft_req(a) if k[0] not in ('the object exists', 'ghost: nothing was announced by a new view', 'the tree and the bank are other objects')]
    return new_obj(c) + [('the tree and the bank are objects', And(V.is_ref(c.maintree), Select(H.leaf('$alloc'), c.maintree), Select(H.leaf('$alloc'), c.filters_bank))),
                         ('ghost: nothing was announced by a new view', G11, FA([f_], Implies(Not(Select(H.leaf('$alloc'), f_)), And(H('$mir', f_) == T.EMPTY, H('$ann', f_) == z3.K(V, T.EMPTY))), [Select(H.leaf('$alloc'), f_)]))] + guard(Not(truthy(c.static)), cl)


def _vt_ens(c):
    from .cvtree import guard, WV
    H, w = c.new, c.self
    st = truthy(c.static)
    f = H(VF + '__ft', w)
    cb, cv = H(CB + '.dom', f), H(CB + '.val', f)
    r = RG(H, 'MainTree', c.maintree)
    k = z3.Const('k', V)
    tg = ('C07', 'C11', 'C18')
    own = RG(H, 'ViewTree', w)
    cl = [('it stands on the tree and the bank', tg, And(H(VF + 'static', w) == st, H(VF + '__maintree', w) == c.maintree, H(VF + '__fbank', w) == c.filters_bank, H(VF + 'maininterface', w) == c.maininterface)),
          ('nobody listens to it yet', tg, FA([x, k_], Not(own.has(x, k_)), [Select(Select(own.keys, x), k_)])),
          ('a static view answers from the tree', tg, Implies(st, And(H(VF + '_tree', w) == c.maintree, f == none))),
          ('the filtered tree is another object', tg, Implies(Not(st), And(H(VF + '_tree', w) == f, V.is_ref(f), f != w)))]
    cl += guard(st, [('it passes on %s' % ev, tg, z3.Exists([k], And(r.has(lit(ev), k), r.f(lit(ev), k) == emits(w, ev)), patterns=[Select(Select(r.keys, lit(ev)), k)])) for ev in ('node-added', 'node-deleted', 'node-modified')])
    cl += guard(Not(st), [('it passes on %s as %s' % (a, b), tg, And(Select(cb, lit(a)), Select(cv, lit(a)) == tup(seq(emits(w, b), none, none)))) for a, b in EVENTS])
    cl += guard(Not(st), [k for k in _ft_ens(ft_args(c, f)) if k[0] != 'it has no listener yet'])
    q = RG(c.old, 'MainTree', c.maintree)
    f_ = z3.Const('f_', V)
    same = [Select(H.leaf(n), f_) == Select(c.old.leaf(n), f_) for fld in SCHEMA['FilteredTree'] for n in c.ex.leaf_names('FilteredTree.' + fld)] + [H(g, f_) == c.old(g, f_) for g in ('$mir', '$ann')]
    cl += grows(c) + [('other views are left alone', G9 + G10 + G11 + G17, FA([f_], Implies(And(Select(c.old.leaf('$alloc'), f_)), And(*same)), [Select(H.leaf('FilteredTree.root_id'), f_)]))]
    return cl + [('the other listeners stay', ('C07',), FA([x, k_], Implies(q.has(x, k_), And(r.has(x, k_), r.f(x, k_) == q.f(x, k_))), [Select(Select(q.keys, x), k_)]))]


add(Contract('ViewTree.__init__', params={'maininterface': ('obj', 'Tree'), 'maintree': ('obj', 'MainTree'), 'filters_bank': ('obj', 'FiltersBank')}, requires=_vt_req, ensures=_vt_ens, result='none',
             modifies=lambda c: [(VF + f, c.self) for f in SCHEMA['ViewTree']] + ['FilteredTree.' + f for f in SCHEMA['FilteredTree']] + [('MainTree.__cllbcks', c.maintree), '$calls', '$runs', '$mir', '$ann', '$stale', '$alloc', '$sources']))


# --------------------------------------------------------------- the tree a user sees, and its views
VMOD = lambda c, t: ['ViewTree.' + f for f in SCHEMA['ViewTree']] + ['FilteredTree.' + f for f in SCHEMA['FilteredTree']] + [('MainTree.__cllbcks', t), '$calls', '$runs', '$mir', '$ann', '$stale', '$alloc', '$sources']


def _main(c):
    """the arguments Tree passes to a new view"""
    from .cfilter import via
    t, b = c.old('Tree.__tree', c.self), c.old('Tree.__fbank', c.self)
    d = via(c, 'ViewTree', maininterface=c.self, maintree=t, filters_bank=b, static=T.vbool(BoolVal(False)))
    return d


def _gv_req(c):
    d = _main(c)
    from .cfilter import via
    return [('the tree and the bank are objects', And(V.is_ref(c.old('Tree.__tree', c.self)), c.self != none)),
            ('views are objects', FA([x], Implies(Select(c.old('Tree.__views.dom', c.self), x), Select(c.old.leaf('$alloc'), Select(c.old('Tree.__views.val', c.self), x))), [Select(c.old('Tree.__views.dom', c.self), x)]))] + [
                k for k in _vt_req(via(d, 'ViewTree', self=c.self)) if k[0] != 'the object exists']


def known_view(c):
    return And(c.name != none, Select(c.old('Tree.__views.dom', c.self), c.name))


def _gv_ens(c):
    from .cfilter import via
    from .cvtree import guard
    d = via(_main(c), 'ViewTree', self=c.result)
    tg = G9 + G10 + G11
    old = known_view(c)
    od, ov, nd, nv = c.old('Tree.__views.dom', c.self), c.old('Tree.__views.val', c.self), c.new('Tree.__views.dom', c.self), c.new('Tree.__views.val', c.self)
    return [('a view with that name is given back', tg, Implies(old, And(c.result == Select(ov, c.name), nd == od, nv == ov))),
            ('a named view is remembered', tg, Implies(And(Not(old), c.name != none), And(nd == Store(od, c.name, BoolVal(True)), nv == Store(ov, c.name, c.result)))),
            ('a view without a name is not', tg, Implies(c.name == none, And(nd == od, nv == ov)))] + guard(old, [
                ('nothing changes', tg, And(*[c.new.leaf(n) == c.old.leaf(n) for fld in SCHEMA['FilteredTree'] for n in c.ex.leaf_names('FilteredTree.' + fld)]))]) + guard(Not(old), _vt_ens(d))


add(Contract('Tree.get_viewtree', result=('obj', 'ViewTree'), requires=_gv_req, ensures=_gv_ens, modifies=lambda c: VMOD(c, c.old('Tree.__tree', c.self)) + [('Tree.__views', c.self)]))


def _t_ens(c):
    n, o = c.new, c.self
    t, b = n('Tree.__tree', o), n('Tree.__fbank', o)
    tv = TV(n, t)
    from .cfilter import Bank
    bk = Bank(n, b, t)
    mv = Select(n('Tree.__views.val', o), lit('main'))
    return tv.WF() + bk.wf() + [
        ('it has no node', ALLN, tv.dom == T.EMPTY), ('no relation is remembered', ('C04',), tv.pend == nil),
        ('no filter is available', ('C15',), FA([x], Not(bk.has(x)), [Select(bk.cdom, x), Select(bk.adom, x)])),
        ('only the main view is there', ('C08', 'C09'), And(n('Tree.__views.dom', o) == Store(T.EMPTY, lit('main'), BoolVal(True)), n('Tree.__viewscount.dom', o) == T.EMPTY)),
        ('the main view is the tree itself', ('C08',), And(n('ViewTree.static', mv), n('ViewTree.__maintree', mv) == t, n('ViewTree._tree', mv) == t))]


add(Contract('Tree.__init__', result='none', requires=lambda c: new_obj(c) + [
    ('nothing was announced yet', c.old.leaf('$known') == T.EMPTY),
    ('ghost: nothing was announced by a new view', G11, FA([x], Implies(Not(Select(c.old.leaf('$alloc'), x)), And(c.old('$mir', x) == T.EMPTY, c.old('$ann', x) == z3.K(V, T.EMPTY))), [Select(c.old.leaf('$alloc'), x)]))],
    ensures=_t_ens, modifies=lambda c: [('Tree.' + f, c.self) for f in SCHEMA['Tree']] + ['ViewTree.' + f for f in SCHEMA['ViewTree']] + ['FilteredTree.' + f for f in SCHEMA['FilteredTree']]
    + ['MainTree.' + f for f in SCHEMA['MainTree']] + [NF + f for f in SCHEMA['_Node']] + ['SyncQueue.' + f for f in SCHEMA['SyncQueue']] + ['FiltersBank.' + f for f in SCHEMA['FiltersBank']]
    + ['$calls', '$runs', '$mir', '$ann', '$stale', '$alloc', '$sources']))
