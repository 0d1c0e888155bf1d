"""Contracts of the path queries of the main tree (liblarch/tree.py)."""
import z3
from z3 import And, Or, Not, Implies, If, Select, BoolVal, IntVal
from . import theory as T
from .theory import V, S, none, tup, nil, snoc, length, mem, at, cat, truthy, FA, idx
from .ex import Contract, LoopSpec
from .ctree import TV, ROOT, add, C

x, v_ = z3.Consts('x v_', V)
TG = ('C08',)


def links(tv):
    """parent links by id; a node without parents is below the root"""
    return T.toplinks(tv.par, tv.dom, tv.val, ROOT)


def chain(tv, s, k):
    return And(s != nil, T.cpath(links(tv), ROOT, s), S.last(s) == k)


def _paths_ens(c):
    tv = TV(c.old, c.self)
    k, res = c.node_id, c.result
    path = z3.Const('path', S)
    isroot = Or(Not(truthy(k)), k == ROOT)
    return [
        ('paths are chains', TG, FA([v_], Implies(mem(res, v_), And(V.is_tup(v_), If(isroot, V.elems(v_) == nil, chain(tv, V.elems(v_), k)))), [mem(res, v_)])),
        ('chains are paths', TG, FA([path], Implies(If(isroot, path == nil, chain(tv, path, k)), mem(res, tup(path))), [mem(res, tup(path))])),
    ]


def _paths_loop(L):
    tv = TV(L.cur, L.arg('self'))
    k = L.arg('node_id')
    r = L.local('paths')
    path = z3.Const('path', S)
    return [
        ('paths so far are chains through the parents seen', TG, FA([v_], Implies(mem(r, v_), And(V.is_tup(v_), chain(tv, V.elems(v_), k))), [mem(r, v_)])),
        ('chains through the parents seen are paths so far', TG, FA([path], Implies(And(T.cpath(links(tv), ROOT, path), mem(L.done, T.prev(path, ROOT))), mem(r, tup(snoc(path, k)))), [mem(r, tup(snoc(path, k)))])),
    ]


def _inner_loop(L):
    return [('the paths of this parent seen so far are extended by the node', TG, L.local('paths') == cat(L.prelocal('paths'), T.pw(L.done, L.arg('node_id'))))]


def wf(c):
    return TV(c.old, c.self).WF()


def absent(c):
    tv = TV(c.old, c.self)
    return [('only for a node that is not in the tree', TG, And(truthy(c.node_id), c.node_id != ROOT, Not(tv.has(c.node_id))))]


add(Contract('MainTree.get_paths_for_node', requires=wf, ensures=_paths_ens, raises={'ValueError': absent}, result='list',
             loops=[LoopSpec(_paths_loop, 'parents'), LoopSpec(_inner_loop, 'paths of a parent')]))


def last(c):
    return S.last(V.elems(c.arg('path')))


def _nfp_ens(c):
    tv = TV(c.old, c.self)
    e = V.elems(c.arg('path'))
    ok = And(V.is_tup(c.arg('path')), e != nil, truthy(last(c)), chain(tv, e, last(c)))
    return [('the last node of a chain from a top-level node, None for any other path', TG, c.result == If(ok, last(c), none))]


add(Contract('MainTree.get_node_for_path', requires=lambda c: wf(c) + [('a path is a tuple or None', Or(V.is_tup(c.arg('path')), c.arg('path') == none))],
             ensures=_nfp_ens, raises={'ValueError': lambda c: [('only for a path to a node that is not in the tree', TG, And(last(c) != ROOT, Not(TV(c.old, c.self).has(last(c)))))]}))


def _next_ens(c):
    tv = TV(c.old, c.self)
    k = c.node_id
    par = If(tv.P(k) == nil, ROOT, If(mem(tv.P(k), c.parent_id), c.parent_id, at(tv.P(k), IntVal(0))))
    sib = If(tv.P(k) == nil, tv.rootc, tv.C(par))
    i = idx(sib, k)
    return [('the next sibling below the given (or first) parent, None after the last', TG, Implies(tv.has(k), And(mem(sib, k), c.result == If(i + 1 < T.length(sib), at(sib, i + 1), none))))]


add(Contract('MainTree.next_node', requires=wf, ensures=_next_ens,
             raises={'ValueError': lambda c: [('only for a node that is not in the tree', TG, Not(TV(c.old, c.self).has(c.node_id)))],
                     'IndexError': lambda c: [('only for a node that is not in the tree', TG, Not(TV(c.old, c.self).has(c.node_id)))]}))
