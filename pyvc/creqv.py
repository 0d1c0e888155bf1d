"""The requests of the tree seen from one of its views: each of them leaves the view exactly as it should be.

$view is any filtered view of the tree.  What it does at an announcement is FilteredTree.__external_modify, whose
contract is proved; the contract `#view` of MainTree._callback is that contract, for the announced node.
"""
import z3
from z3 import And, Or, Not, Implies, If, Select, Store, BoolVal, IntVal
from . import theory as T
from .theory import V, S, none, nil, snoc, length, mem, at, cat, rem, nodup, lit, truthy, FA, seq, fil
from .ex import Contract, LoopSpec, VV
from .ctree import add, C, GHOST, TV
from . import ctree as R
from .cfilter import via
from .crun import RI, CI, RO
from .cupd import U, TF, inv, step, fcache, em_req, em_ens, G9, G10, G17, G18, both, true, samerun, mirror, stale_step, none_stale, x, y, p, c_, k_
from .cfilter import fleaves

GHOST['$view'] = V
GHOST['$acc'] = T.VB            # the nodes the filters accepted when the view was last brought up to date


def uv(H):
    return U(H, H.leaf('$view'))


def ours(c, H):
    """the view belongs to the tree of the request"""
    return [('the view belongs to the tree', uv(H).t == c.self), ('it is an object', V.is_ref(H.leaf('$view')))]


def idl_of(u, D):
    return T.idl(u.tv.par, u.tv.val, D, u.flat, u.root)


def view_ok(u, D=None, but=None, half=None):
    """the view is what its filters make of the tree (D: the nodes they accepted; but: nodes that may still have other parents)"""
    I = u.I if D is None else idl_of(u, D)
    acc = u.acc if D is None else (lambda k: Select(D, k))
    bt = but or (lambda k: BoolVal(False))
    return TF(u, half) + view_state(u, acc, I, bt)


def view_state(u, acc, I, bt):
    return [
        ('exactly the accepted nodes are displayed', G9, both([x], u.has(x) == Or(x == u.root, acc(x)), u.has(x), acc(x))),
        ('the nodes have the parents they should have', G10, FA([x], Implies(And(u.has(x), x != u.root, Not(bt(x))), u.P(x) == Select(I, x)), [u.P(x)])),
        ('V1 no duplicate link', G10, FA([x], Implies(u.has(x), And(nodup(u.P(x)), nodup(u.C(x)))), [u.has(x)])),
        ('V1 every parent link has its child link', G10, FA([p, c_], Implies(And(u.has(c_), mem(u.P(c_), p)), And(u.has(p), mem(u.C(p), c_))), [mem(u.P(c_), p)])),
        ('V1 every child link has its parent link', G10, FA([p, c_], Implies(And(u.has(p), mem(u.C(p), c_)), And(u.has(c_), mem(u.P(c_), p))), [mem(u.C(p), c_)])),
        ('V1 every displayed node but the root has a parent', G10, FA([x], Implies(And(u.has(x), x != u.root), u.P(x) != nil), [u.has(x)])),
        ('nothing waits for a displayed node', G17, FA([k_], Not(And(Select(u.rdom, k_), u.has(k_))), [Select(u.rdom, k_)])),
    ] + u.asc() + RI(u.H, u.f) + CI(u.H, u.f) + mirror(u)


def frame_acc(o, n):
    """the filters say the same about a node that is the same"""
    lv = fleaves(o.H)
    b = o.bank
    return FA([x], And(T.inst('allsay_frame', o.app, x, b.adom, b.aval, b.cdom, b.cval, *lv, o.tv.dom, o.tv.val, n.tv.dom, n.tv.val),
                       o.acc(x) == And(o.tv.has(x), T.allsay(b.tok, o.app, x))), [T.allsay(n.bank.tok, n.app, x)])


# --------------------------------------------------------------- an announcement reaches the view
def at_view(c):
    return via(c, 'FilteredTree', self=c.old.leaf('$view'))


def vmod(H):
    f = H.leaf('$view')
    return [('FilteredTree.nodes', f), ('FilteredTree.cache_paths', f), ('FilteredTree.filter_cache', f), (RO, f), '$calls', '$runs', ('$mir', f), ('$ann', f), ('$stale', f)]


_base = C['MainTree._callback']
add(Contract('MainTree._callback#view', requires=lambda c: _base.requires(c) + ours(c, c.old) + em_req(at_view(c)), ensures=lambda c: _base.ensures(c) + em_ens(at_view(c)),
             modifies=lambda c: ['$log', '$dirty', '$known'] + vmod(c.old), result='none', callhints=lambda c, E: [frame_acc(uv(E), uv(c.old))],
             trusted='the announcement reaches the view once (MainTree._callback#body), and the view does FilteredTree.__external_modify (its contract is proved)'))
CBV = {'MainTree._callback': lambda c: [(BoolVal(True), 'MainTree._callback#view')]}


def told(c):
    return stale_step(uv(c.old), uv(c.new))


def vend(c):
    return view_ok(uv(c.new)) + told(c)


# --------------------------------------------------------------- modify
def _mod_req(c):
    u = uv(c.old)
    D0 = c.old.leaf('$acc')
    return C['MainTree._modify_node'].requires(c) + ours(c, c.old) + view_ok(u, D0) + [
        ('only the verdict on the node may have changed', D0 == Store(u.D, c.node_id, Select(D0, c.node_id))),
        ('nodes of the tree were accepted', FA([x], Implies(Select(D0, x), u.tv.has(x)), [Select(D0, x)]))]


add(Contract('MainTree._modify_node#view', body='MainTree._modify_node', requires=_mod_req, ensures=lambda c: vend(c) + none_stale(uv(c.new), c.node_id) + C['MainTree._modify_node'].ensures(c), callmap=CBV, result='none',
             modifies=lambda c: ['$log', '$dirty', '$known'] + vmod(c.old)))


# --------------------------------------------------------------- relations
def rankof(n, H):
    return If(T.acyc(n.g), T.vrk(n.g, H('FilteredTree.root_id', H.leaf('$view'))), H.leaf('$rank'))


_cr = C['MainTree._create_relationship']
add(Contract('MainTree._create_relationship#ranked', body='MainTree._create_relationship', requires=_cr.requires, result='none', modifies=('_Node.parents', '_Node.children', '$dirty', '$rank'),
             ghost=lambda c: dict(R._dirty2(c), **{'$rank': rankof(TV(c.new, c.self), c.old)}), hints=_cr.hints,
             ensures=lambda c: _cr.ensures(c) + [('ghost: a ranking of the tree, the view root on top', c.new.leaf('$rank') == rankof(TV(c.new, c.self), c.old))]))
RELV = dict(CBV, **{'MainTree._create_relationship': lambda c: [(BoolVal(True), 'MainTree._create_relationship#ranked')]})


def _rel_req(c, hr):
    a, b = c.parent_id, c.child_id
    return R._req_rel(c, hr) + ours(c, c.old) + view_ok(uv(c.old), half=(a, b))


_nr, _br = C['MainTree._new_relationship'], C['MainTree._break_relationship']
add(Contract('MainTree._new_relationship#view', body='MainTree._new_relationship', requires=lambda c: _rel_req(c, False), ensures=lambda c: vend(c), raises={'Exception': lambda c: vend(c)}, callmap=RELV,
             modifies=lambda c: _nr.modifies(c) + ['$rank'] + vmod(c.old)))
add(Contract('MainTree._break_relationship#view', body='MainTree._break_relationship', requires=lambda c: _rel_req(c, True), ensures=lambda c: vend(c), callmap=RELV, callhints=_br.callhints, loops=_br.loops,
             modifies=lambda c: _br.modifies(c) + vmod(c.old)))


# --------------------------------------------------------------- adding a node
def ranks(u):
    return [('tree links descend', G10, FA([p, c_], Implies(And(u.tv.has(c_), mem(u.tv.P(c_), p)), u.rk(p) < u.rk(c_)), [mem(u.tv.P(c_), p)])),
            ('the view root is on top', G10, FA([x], Implies(x != u.root, u.rk(u.root) < u.rk(x)), [u.rk(x)])),
            ('view links run along tree links', G10, FA([p, c_], Implies(And(u.has(c_), mem(u.P(c_), p), p != u.root), And(c_ != u.root, u.tv.has(c_), mem(u.tv.P(c_), p))), [mem(u.P(c_), p)]))]


def _addv_req(c):
    u = uv(c.old)
    return R._add_req(c) + ours(c, c.old) + view_ok(u) + [('the node is not named like the view root', c.old('_Node.node_id', c.node) != u.root)]


def _addv_loop(L):
    return R._build_loop(L) + ranks(uv(L.cur)) + stale_step(uv(L.old), uv(L.cur))


_an = C['MainTree._add_node']
add(Contract('MainTree._add_node#view', body='MainTree._add_node', params={'node': ('obj', '_Node')}, requires=_addv_req, ensures=lambda c: vend(c), raises={'Exception': lambda c: vend(c)}, callmap=RELV,
             modifies=lambda c: _an.modifies(c) + ['$rank'] + vmod(c.old), hints=lambda c: _an.hints(c) + [frame_acc(uv(c.old), uv(c.new))],
             loops=[_an.loops[0], LoopSpec(_addv_loop, 'build', entry=_an.loops[1].entry)]))


# --------------------------------------------------------------- removing a node
def still(u, but):
    """the view is what its filters make of the tree, but for the parents of some nodes"""
    return ranks(u)[:2] + [('the view root is no node of the tree', G9, Not(u.tv.has(u.root)))] + fcache(u) + [('the view root has no parent', G10, u.P(u.root) == nil)] + view_state(u, u.acc, u.I, but)


def unchanged(o, n):
    return And(n.dom == o.dom, n.vp == o.vp, n.vc == o.vc, n.rdom == o.rdom, n.rval == o.rval, n.D == o.D, n.I == o.I, n.mir == o.mir, n.ann == o.ann)


def _rmv_req(c):
    u = uv(c.old)
    k = c.node_id
    return R._remove_req(c) + ours(c, c.old) + view_ok(u, but=lambda y: Implies(u.tv.has(k), mem(u.tv.P(k), y))) + [('the node is not the view root', k != u.root)]


def _rmv_ens(c):
    u, n = uv(c.old), uv(c.new)
    k = c.node_id
    return R._remove_ens(c) + fcache(n) + told(c) + [('an absent node: the view stays', G9 + G10, Implies(Not(u.tv.has(k)), unchanged(u, n)))] + when_present(u, k, view_ok(n))


def when_present(u, k, cl):
    return [tuple(a[:-1]) + (Implies(u.tv.has(k), a[-1]),) for a in cl]


def _rmv_parents(L):
    k = L.arg('node_id')
    return R._rm_parents(L) + still(uv(L.cur), lambda y: Or(y == k, And(mem(L.seq, y), Not(mem(L.done, y))))) + stale_step(uv(L.old), uv(L.cur))


def _rmv_children(L):
    k = L.arg('node_id')
    return R._rm_children(L) + still(uv(L.cur), lambda y: y == k) + stale_step(uv(L.old), uv(L.cur))


_rn = C['MainTree._remove_node']
add(Contract('MainTree._remove_node#view', body='MainTree._remove_node', requires=_rmv_req, ensures=_rmv_ens, modifies=lambda c: _rn.modifies(c) + vmod(c.old),
             callmap=dict(CBV, **{'MainTree._remove_node': lambda c: [(BoolVal(True), 'MainTree._remove_node#view')]}), hints=_rn.hints,
             loops=[_rn.loops[0], LoopSpec(_rmv_parents, 'parents'),
                    LoopSpec(_rmv_children, 'children', hints=lambda L: R._rm_children_hints(L) + [frame_acc(uv(L.old), uv(L.cur))], cuts=R.CUTS, step=R._rm_children_step)]))
