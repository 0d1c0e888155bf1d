"""Contracts of the requests a user issues: _Node.add_parent/add_child/set_parent/remove_parent, Tree.*,
MainTree public queries."""
import z3
from z3 import And, Or, Not, Implies, If, Select, BoolVal, IntVal
from . import theory as T
from .theory import V, S, none, tup, nil, snoc, length, mem, at, take, rem, nodup, lit, truthy, FA, seq, cnt, fil
from .ex import Contract, LoopSpec, NeedSpec, Ctx, VV
from .ctree import (TV, C as TC, SCHEMA, GHOST, ROOT, ADDED, MODIFIED, DELETED, pair, fst, snd, is_pair, is_id, idarg, thread_ok,
                    clean, own_pairs, node_ok, _links_same, _log_rel, add, x, y, p, c, e)
from . import ctree


def frees(H, o):
    return H('_Node.tree', o) == none


def node_req(cx, half=False):
    """self is either a node of its tree, or not in a tree yet"""
    o = cx.self
    H = cx.old
    t = H('_Node.tree', o)
    k = H('_Node.node_id', o)
    tv = TV(H, t)
    r = [('the node is an object with a proper id', And(V.is_ref(o), is_id(k), H('_Node.parents_enabled', o), H('_Node.children_enabled', o))),
         ('not in a tree: only declared relations of its own', Implies(t == none, own_pairs(H('_Node.pending_relationships', o), k))),
         ('in a tree: it is the stored node', Implies(t != none, And(V.is_ref(t), tv.has(k), tv.node(k) == o)))]
    for cl in tv.WF() + thread_ok(H, t):
        r.append((cl[0], Implies(t != none, cl[-1])))
    return r


def in_tree(cls_, t):
    return [(cl[0], cl[1] if len(cl) == 3 else (), Implies(t != none, cl[-1])) for cl in cls_]


class R:
    """names shared by the clauses of one node request"""
    def __init__(self, cx):
        self.c = cx
        self.me = cx.self
        self.t = cx.old('_Node.tree', self.me)
        self.k = cx.old('_Node.node_id', self.me)
        self.o, self.n = TV(cx.old, self.t), TV(cx.new, self.t)
        self.free = self.t == none
        self.np0 = cx.old('_Node.pending_relationships', self.me)
        self.np1 = cx.new('_Node.pending_relationships', self.me)
        self.lo, self.ln = cx.old.leaf('$log'), cx.new.leaf('$log')


def stays(o, n):
    """the set of nodes and the objects behind them"""
    return And(n.dom == o.dom, n.val == o.val)


def rel_created(o, n, a, b):
    """exactly the relation a->b is there in addition"""
    na, nb = o.node(a), o.node(b)
    return [
        ('the relation exists on the parent side', ('C04',), n.C(a) == If(mem(o.C(a), b), o.C(a), snoc(o.C(a), b))),
        ('the relation exists on the child side', ('C04',), n.P(b) == If(mem(o.P(b), a), o.P(b), snoc(o.P(b), a))),
        ('no other child list changes', ('C04',), FA([x], Implies(And(o.has(x), x != a), n.C(x) == o.C(x)), [n.C(x), o.has(x)])),
        ('no other parent list changes', ('C04',), FA([x], Implies(And(o.has(x), x != b), n.P(x) == o.P(x)), [n.P(x), o.has(x)])),
        ('the order of the top level is kept', ('C04',), n.rootc == rem(o.rootc, b)),
    ]


def rel_broken(o, n, a, b):
    return [
        ('the relation is gone on the parent side', ('C04',), n.C(a) == rem(o.C(a), b)),
        ('the relation is gone on the child side', ('C04',), n.P(b) == rem(o.P(b), a)),
        ('no other child list changes', ('C04',), FA([x], Implies(And(o.has(x), x != a), n.C(x) == o.C(x)), [n.C(x), o.has(x)])),
        ('no other parent list changes', ('C04',), FA([x], Implies(And(o.has(x), x != b), n.P(x) == o.P(x)), [n.P(x), o.has(x)])),
        ('the order of the top level is kept', ('C04',), Or(n.rootc == o.rootc, n.rootc == snoc(o.rootc, b))),
    ]


def guard(g, cls_):
    return [(cl[0], cl[1] if len(cl) == 3 else (), Implies(g, cl[-1])) for cl in cls_]


def nothing(cx, r):
    return And(r.n.par == r.o.par, r.n.chl == r.o.chl, r.n.pend == r.o.pend, r.np1 == r.np0, r.ln == r.lo)


def add_rel(cx, child_side):
    """add_parent(parent) / add_child(child)"""
    r = R(cx)
    other = cx.parent_id if child_side else cx.child_id
    a, b = (other, r.k) if child_side else (r.k, other)
    o, n = r.o, r.n
    already = mem(o.P(r.k), other) if child_side else mem(o.C(r.k), other)
    ign = Or(other == r.k, And(Not(r.free), already), And(r.free, mem(cx.old('_Node.parents' if child_side else '_Node.children', r.me), other)))
    act = And(Not(r.free), Not(ign), o.has(other))
    late = And(Not(r.free), Not(ign), Not(o.has(other)))
    decl = And(r.free, Not(ign))
    return r, a, b, other, ign, act, late, decl


def add_rel_ens(child_side):
    def ens(cx):
        r, a, b, other, ign, act, late, decl = add_rel(cx, child_side)
        o, n = r.o, r.n
        cl = in_tree(n.WF(), r.t)
        cl += guard(act, rel_created(o, n, a, b))
        cl += [
            ('a circular relation is refused with an error', ('C01',), Implies(act, Not(o.anc(b, a)))),
            ('an existing relation or the node itself: nothing happens', ('C04',), Implies(ign, nothing(cx, r))),
            ('absent end: the relation is remembered, nothing else happens', ('C04',),
             Implies(late, And(_links_same(o, n), n.pend == snoc(o.pend, pair(a, b)), r.np1 == r.np0, r.ln == r.lo))),
            ('not in a tree: the relation is declared', ('C04',),
             Implies(decl, And(_links_same(o, n), r.np1 == snoc(r.np0, pair(a, b)), n.pend == o.pend, r.ln == r.lo))),
            ('no other remembered relation changes', ('C04',), Implies(act, FA([e], Implies(e != pair(a, b), mem(n.pend, e) == mem(o.pend, e)), [mem(n.pend, e), mem(o.pend, e)]))),
            ('both ends are announced, nothing else', ('C07',), Implies(act, r.ln == snoc(snoc(r.lo, pair(MODIFIED, a)), pair(MODIFIED, b)))),
            ('declared relations stay well formed', ('C04',), own_pairs(r.np1, r.k)),
            clean(cx),
        ]
        return cl

    def exc(cx):
        r, a, b, other, ign, act, late, decl = add_rel(cx, child_side)
        o, n = r.o, r.n
        return n.WF() + [
            ('only a circular relation is refused', ('C01',), And(act, o.anc(b, a))),
            ('the refused relation is not created', ('C01',), And(n.par == o.par, FA([x], Implies(o.has(x), n.C(x) == o.C(x)), [n.C(x), o.has(x)]), n.rootc == o.rootc)),
            ('no other remembered relation changes', ('C04',), FA([e], Implies(e != pair(a, b), mem(n.pend, e) == mem(o.pend, e)), [mem(n.pend, e), mem(o.pend, e)])),
            ('nothing is announced', ('C07',), r.ln == r.lo),
        ]
    return ens, exc


def _mods(cx):
    t = cx.old('_Node.tree', cx.self)
    return ['_Node.parents', '_Node.children', ('MainTree.pending_relationships', t), ('_Node.pending_relationships', cx.self), '$log', '$dirty', '$known']


def _add_req(cx, arg):
    return node_req(cx) + [('the other id is a string or None', idarg(cx.arg(arg)))] + \
        [('free node: declared relations', Implies(frees(cx.old, cx.self), own_pairs(cx.old('_Node.pending_relationships', cx.self), cx.old('_Node.node_id', cx.self)))),
         ('declared relations name the node', own_pairs(cx.old('_Node.pending_relationships', cx.self), cx.old('_Node.node_id', cx.self)))]


_e, _x = add_rel_ens(True)
add(Contract('_Node.add_parent', requires=lambda cx: _add_req(cx, 'parent_id'), ensures=_e, raises={'Exception': _x}, modifies=_mods, result='none'))
_e2, _x2 = add_rel_ens(False)
add(Contract('_Node.add_child', requires=lambda cx: _add_req(cx, 'child_id') + [('the root never takes part', Implies(cx.old('_Node.tree', cx.self) != none, cx.self != TV(cx.old, cx.old('_Node.tree', cx.self)).root))],
             ensures=_e2, raises={'Exception': _x2}, modifies=_mods, result='none', self_cls='TreeNode'))


def _remove_parent_ens(cx):
    r = R(cx)
    o, n = r.o, r.n
    a, b = cx.parent_id, r.k
    act = mem(o.P(b), a)
    return n.WF() + guard(act, rel_broken(o, n, a, b)) + [
        ('not a parent: nothing happens', ('C04',), Implies(Not(act), nothing(cx, r))),
        ('no other remembered relation changes', ('C04',), FA([e], Implies(And(e != pair(a, b), e != pair(ROOT, b)), mem(n.pend, e) == mem(o.pend, e)), [mem(n.pend, e), mem(o.pend, e)])),
        ('both ends are announced, nothing else', ('C07',), Implies(act, r.ln == snoc(snoc(r.lo, pair(MODIFIED, a)), pair(MODIFIED, b)))),
        ('relations are only taken away', ('C04',), FA([p, c], T.edge(n.g, p, c) == And(T.edge(o.g, p, c), Not(And(p == a, c == b))), [T.edge(n.g, p, c), T.edge(o.g, p, c)])),
        clean(cx)]


def _attached(cx):
    return node_req(cx) + [('the node is in a tree', cx.old('_Node.tree', cx.self) != none)]


def _mods_t(cx):
    t = cx.old('_Node.tree', cx.self)
    return ['_Node.parents', '_Node.children', ('MainTree.pending_relationships', t), '$log', '$dirty', '$known']


add(Contract('_Node.remove_parent', requires=_attached, ensures=_remove_parent_ens, modifies=_mods_t, result='none'))


# --------------------------------------------------------------- moving
def _move(o, n, k, par, lo, ln, exc=False):
    keep = o.has(par)
    act = par != k
    unchanged = And(FA([x], Implies(o.has(x), And(n.C(x) == o.C(x), n.P(x) == o.P(x))), [n.P(x), n.C(x)]))
    cl = n.WF() + [
        ('no other parent list changes', ('C06', 'C04'), FA([x], Implies(And(o.has(x), x != k), n.P(x) == o.P(x)), [n.P(x), o.has(x)])),
    ]
    if not exc:
        cl += [
            ('moved to itself: nothing happens', ('C06',), Implies(Not(act), unchanged)),
            ('the new parent is the only parent', ('C06',), Implies(And(act, keep), n.P(k) == seq(par))),
            ('moved to the root or an absent parent: no parent is left', ('C06',), Implies(And(act, Not(keep)), n.P(k) == nil)),
            ('moved to an absent parent: the relation is remembered', ('C06', 'C04'), Implies(And(act, Not(keep)), mem(n.pend, pair(par, k)))),
            ('former parents lose the node, the new one gets it, no other child list changes', ('C06', 'C04'),
             Implies(act, FA([x], Implies(o.has(x), n.C(x) == If(And(keep, x == par), If(mem(o.C(x), k), o.C(x), snoc(o.C(x), k)), rem(o.C(x), k))), [n.C(x), o.has(x)]))),
        ]
    else:
        cl += [('only a circular parent is refused', ('C01', 'C06'), And(act, keep, o.anc(k, par)))]
    cl += [
        ('no other remembered relation changes', ('C06', 'C04'),
         FA([e], Implies(And(is_pair(e), Or(snd(e) != k, And(fst(e) != par, fst(e) != ROOT, Not(mem(o.P(k), fst(e)))))), mem(n.pend, e) == mem(o.pend, e)), [mem(n.pend, e), mem(o.pend, e)])),
    ] + _log_rel(lo, ln, lambda z: BoolVal(False))
    return cl


def _set_parent_ens(cx):
    r = R(cx)
    act = And(cx.parent_id != r.k)
    return in_tree(_move(r.o, r.n, r.k, cx.parent_id, r.lo, r.ln), r.t) + [
        clean(cx),
        ('not in a tree: the relation is declared', ('C06', 'C04'), Implies(And(r.free, act), r.np1 == snoc(r.np0, pair(cx.parent_id, r.k)))),
        ('declared relations stay well formed', ('C04',), own_pairs(r.np1, r.k)),
    ]


def _set_parent_exc(cx):
    r = R(cx)
    return _move(r.o, r.n, r.k, cx.parent_id, r.lo, r.ln, exc=True)


def _move_loop(L):
    me, par = L.arg('self'), L.arg('parent_id')
    t = L.old('_Node.tree', me)
    k = L.old('_Node.node_id', me)
    n, o = TV(L.cur, t), TV(L.old, t)
    kept = lambda z: And(o.has(par), z == par)
    cl = n.WF() + [
        ('other parent lists are kept', ('C06',), FA([x], Implies(And(o.has(x), x != k), n.P(x) == o.P(x)), [n.P(x), o.has(x)])),
        ('parents seen so far are left', ('C06',), FA([x], mem(n.P(k), x) == And(mem(o.P(k), x), Or(kept(x), Not(mem(L.done, x)))), [mem(n.P(k), x), mem(o.P(k), x)])),
        ('child lists of the parents seen so far lose the node', ('C06',),
         FA([x], Implies(o.has(x), n.C(x) == If(And(mem(L.done, x), Not(kept(x))), rem(o.C(x), k), o.C(x))), [n.C(x), o.has(x)])),
        ('relations are only taken away', ('C06',), FA([p, c], Implies(T.edge(n.g, p, c), T.edge(o.g, p, c)), [T.edge(n.g, p, c)])),
        ('no other remembered relation changes', ('C06',),
         FA([e], Implies(And(is_pair(e), Or(snd(e) != k, And(fst(e) != ROOT, Not(mem(L.done, fst(e)))))), mem(n.pend, e) == mem(o.pend, e)), [mem(n.pend, e), mem(o.pend, e)])),
        ('nothing is left unannounced', ('C07',), FA([x], Implies(Select(L.cur.leaf('$dirty'), x), Select(L.old.leaf('$dirty'), x)), [Select(L.cur.leaf('$dirty'), x)])),
    ] + _log_rel(L.old.leaf('$log'), L.cur.leaf('$log'), lambda z: BoolVal(False))
    return cl


def _move_loop_kept(L):
    flag = L.local('is_already_parent_flag')
    return _move_loop(L) + [('the flag tells whether the new parent was among them', ('C06',), flag == mem(L.done, L.arg('parent_id')))]


def _move_hints(L):
    me = L.arg('self')
    t = L.old('_Node.tree', me)
    k = L.old('_Node.node_id', me)
    n, o = TV(L.cur, t), TV(L.old, t)
    return [T.inst('notnil_mem', n.P(k)), T.inst('nodup_single', n.P(k), L.arg('parent_id')), T.subg_def(n.g, o.g)]


add(Contract('_Node.set_parent', requires=lambda cx: _add_req(cx, 'parent_id'), ensures=_set_parent_ens, raises={'Exception': _set_parent_exc}, modifies=_mods, result='none',
             loops=[LoopSpec(_move_loop, 'break all', hints=_move_hints), LoopSpec(_move_loop_kept, 'break others', hints=_move_hints)]))
