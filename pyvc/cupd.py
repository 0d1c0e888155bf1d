"""Contracts of the update algorithm of a filtered view (FilteredTree.__update_node and its helpers).

U(H, f) adds to the view FV the nodes its filters accept (D) and the parents each of them should have there (I).
"""
import z3
from z3 import And, Or, Not, Implies, If, Select, Store, BoolVal, IntVal
from . import theory as T
from .theory import V, S, none, vbool, tup, nil, snoc, length, mem, at, cat, rem, nodup, lit, truthy, FA, seq, fil
from .ex import Contract, LoopSpec, VV
from .ctree import add, SCHEMA, GHOST, TV, C
from .cview import FV
from .crun import RI, CI, RO, G11

x, y, p, c_, k_, e_ = z3.Consts('x y p c_ k_ e_', V)
FLAT = 'FilteredTree.__flat'
G9, G10, G17, G18 = ('C09',), ('C10',), ('C17',), ('C18',)


class U(FV):
    def __init__(self, H, f):
        FV.__init__(self, H, f)
        self.tv = TV(H, self.t)
        self.D = T.accset(self.bank.tok, self.app, self.tv.dom)
        self.flat = H(FLAT, f)
        self.I = T.idl(self.tv.par, self.tv.val, self.D, self.flat, self.root)
        self.rdom, self.rval = H(RO + '.dom', f), H(RO + '.val', f)
        self.runs = H.leaf('$runs')
        self.mir, self.ann, self.stale = H('$mir', f), H('$ann', f), H('$stale', f)

    def acc(self, k):
        return Select(self.D, k)

    def ideal(self, k):
        return Select(self.I, k)

    def cbase(self, half=None):
        """the view on its tree"""
        tw = ('C09', 'C10', 'C17')
        return self.base() + [(a, tw, b) for a, b in [(cl[0], cl[-1]) for cl in self.tv.W0() + self.tv.W1(half)]]


def uu(c):
    return U(c.old, c.self)


# --------------------------------------------------------------- helpers
add(Contract('FilteredTree.__is_displayed', requires=lambda c: uu(c).base(), result='bool', loops=[
    LoopSpec(lambda L: [('accepted by the filters seen so far', G9, T.allsay(U(L.cur, L.arg('self')).bank.tok, L.done, L.arg('node_id')))], 'filters')],
    ensures=lambda c: [('exactly the nodes of the tree that every applied filter accepts', G9, c.result == And(truthy(c.node_id), uu(c).acc(c.node_id)))]))


def _nch_inv(L):
    u = U(L.cur, L.arg('self'))
    return [('the accepted children seen so far', G10, L.local('toreturn') == fil(L.done, u.D))]


add(Contract('FilteredTree.__node_children', requires=lambda c: uu(c).cbase(), result='list', loops=[LoopSpec(_nch_inv, 'children')],
    ensures=lambda c: [('the accepted children, in the order of the tree; none in a flat view', G10, c.result == If(Or(uu(c).flat, Not(uu(c).tv.has(c.node_id))), nil, fil(uu(c).tv.C(c.node_id), uu(c).D)))],
    raises={'Exception': lambda c: [('only for the view root', G10, c.node_id == uu(c).root)]}))


def _npa_inv(L):
    u = U(L.cur, L.arg('self'))
    return [('the accepted, displayed parents seen so far', G10, L.local('parents_nodes') == fil(L.done, T.inter(u.D, u.dom)))]


def nparents(u, k):
    sh = fil(u.tv.P(k), T.inter(u.D, u.dom))
    return If(Or(u.flat, Not(u.tv.has(k)), sh == nil), seq(u.root), sh)


add(Contract('FilteredTree.__node_parents', requires=lambda c: uu(c).cbase(), result='list', loops=[LoopSpec(_npa_inv, 'parents')],
    ensures=lambda c: [('the accepted, displayed parents, in the order of the tree; the view root when there is none', G10, c.result == nparents(uu(c), c.node_id)),
                       ('these are the parents it should have once its accepted parents are displayed', G10, Implies(And(uu(c).tv.has(c.node_id), Or(uu(c).flat, FA([p], Implies(And(
                           mem(uu(c).tv.P(c.node_id), p), uu(c).acc(p)), uu(c).has(p)), [mem(uu(c).tv.P(c.node_id), p)]))), c.result == uu(c).ideal(c.node_id)))],
    raises={'ValueError': lambda c: [('only for the view root', G10, c.node_id == uu(c).root)]}))


def both(vs, body, *pats):
    return And(*[FA(vs, body, [pt]) for pt in pats])


# --------------------------------------------------------------- announcing a branch
def runstep(o, n, who=None, tg=G17):
    """nothing waiting is lost: per node, either nothing happened or all its waiting actions ran, once each, in order, and wait no more"""
    ok = (lambda k: n.has(k)) if who is None else who
    same = And(Select(n.rdom, k_) == Select(o.rdom, k_), Select(n.rval, k_) == Select(o.rval, k_), Select(n.runs, k_) == Select(o.runs, k_))
    ran = And(ok(k_), Select(o.rdom, k_), Not(Select(n.rdom, k_)), Select(n.runs, k_) == cat(Select(o.runs, k_), Select(o.rval, k_)))
    return [('a waiting action runs once, when its node is shown, or waits on', tg, FA([k_], Or(same, ran), [Select(n.rdom, k_), Select(n.rval, k_), Select(n.runs, k_)]) if False else
             And(FA([k_], Or(same, ran), [Select(n.rdom, k_)]), FA([k_], Or(same, ran), [Select(n.rval, k_)]), FA([k_], Or(same, ran), [Select(n.runs, k_)])))] + stale_step(o, n)


def stale_step(o, n):
    """a path that is held now and was not announced again was held before"""
    return [('only paths held all along were not announced again', G18, FA([e_], Implies(And(Select(n.stale, e_), Select(n.mir, e_)), And(Select(o.stale, e_), Select(o.mir, e_))), [Select(n.stale, e_)]))]


def none_stale(u, k):
    """all paths of the node were announced"""
    return [('every path of the node was announced again', G18, FA([e_], Not(And(Select(u.stale, e_), Select(u.mir, e_), S.last(V.elems(e_)) == k)), [Select(u.stale, e_)]))]


def samerun(o, n):
    return [('no action runs or is lost', G17, And(n.rdom == o.rdom, n.rval == o.rval, n.runs == o.runs))] + stale_step(o, n)


def closed_c(u):
    return [('V1 a child link leads to a displayed node', G10, FA([p, c_], Implies(And(u.has(p), mem(u.C(p), c_)), u.has(c_)), [mem(u.C(p), c_)]))]


def links(u, f):
    """the announced links are those of f"""
    return both([x, y], T.lk(u.ann, x, y) == f(x, y), T.lk(u.ann, x, y), mem(u.C(x), y))


def mirror(u):
    """what a consumer holds is what the view shows"""
    return [('a consumer holds exactly the paths along the announced links', G11, u.mir == T.vpaths(u.ann, u.root)), ('the announced links are those of the view', G11, links(u, lambda a, b: And(u.has(a), mem(u.C(a), b))))]


def samemir(o, n):
    return [('no path is announced', G11, And(n.mir == o.mir, n.ann == o.ann))]


def send_req(c):
    u = uu(c)
    a, b = c.parent_id, c.node_id
    return u.base() + RI(c.old, c.self) + CI(c.old, c.self) + closed_c(u) + u.up_ok(c.parent_id) + [
        ('both nodes are displayed', G10, And(u.has(b), u.has(a))),
        ('a consumer holds exactly the paths along the announced links', G11, u.mir == T.vpaths(u.ann, u.root)),
        ('links are announced below the node as in the view', G11, both([x, y], Implies(And(u.has(x), u.rk(x) >= u.rk(b)), T.lk(u.ann, x, y) == mem(u.C(x), y)), T.lk(u.ann, x, y), mem(u.C(x), y))),
        ('and above the parent', G11, T.agree_up(u.ann, u.vp, u.rank, u.rk(a), u.dom)),
        ('announced links descend', G11, And(T.asc_links(u.ann, u.rank), u.rk(a) < u.rk(b))),
        ('the view root is on top', G11, FA([x], Implies(x != u.root, u.rk(u.root) < u.rk(x)), [u.rk(x)])),
        ('V1 no duplicate child link below the node', G11, FA([x], Implies(And(u.has(x), u.rk(x) >= u.rk(b)), nodup(u.C(x))), [u.has(x)]))]


def _entries(L, name, n):
    u = U(L.cur, L.arg('self'))
    q_ = L.local(name)
    el = V.elems(e_)
    return [('entries are tuples on displayed nodes', G10 + G17, FA([e_], Implies(mem(q_, e_), And(V.is_tup(e_), length(el) == n, u.has(at(el, IntVal(0))), V.is_tup(at(el, IntVal(1))))), [mem(q_, e_)]))]


t_ = z3.Const('t_', S)
s_ = z3.Const('s_', S)


class Branch:
    """what a consumer is told about the branch below a node n, as a child of a: A without, A1 with the link from a to n"""
    def __init__(self, L, adding):
        f = L.arg('self')
        self.L, self.o, self.u = L, U(L.old, f), U(L.cur, f)
        self.n, self.a, self.r = L.arg('node_id'), L.arg('parent_id'), self.o.root
        self.A = self.o.ann if adding else T.dell(self.o.ann, self.a, self.n)
        self.A1 = T.addl(self.A, self.a, self.n)
        self.adding = adding
        self.name = 'queue' if adding else 'stack'
        self.q, self.ever = L.local(self.name), L.local(self.name, '#ever')

    def thru(self, s):
        return T.thru(self.r, self.a, self.n, s)

    def before(self, s):
        return T.before(self.r, self.a, self.n, s)

    def after(self, s):
        return T.after(self.r, self.a, self.n, s)

    def ent(self, s, first=None):
        return tup(seq(S.last(s), tup(s), *([] if first is None else [vbool(BoolVal(first))])))

    def told(self, s):
        """the part of the branch up to the last node of s was announced"""
        e = self.ent(s, None if self.adding else False)
        return And(Select(self.ever, e), Not(mem(self.q, e)))

    def lemmas(self):
        """instances of the lemmas about paths that take the step from a to n"""
        r, a, n, A, A1, R = self.r, self.a, self.n, self.A, self.A1, self.o.rank
        return [FA([s_], T.inst('cpa_add', s_, A, r, a, n), [T.cpa(A1, r, s_), T.cpa(A, r, s_)]),
                FA([s_], T.inst('thru_split', s_, r, a, n), [self.thru(s_)]),
                FA([s_], T.inst('thru_parts', s_, A, r, a, n, R), [self.thru(s_)]),
                FA([t_, s_], T.inst('thru_glue', t_, s_, A, r, a, n), [(cat(s_, t_), T.branch(A, n, t_))]),
                FA([s_], T.inst('branch_rank', s_, A, n, R), [T.branch(A, n, s_)])]

    def paths(self):
        """the paths of the parent"""
        ps = self.L.local('paths')
        return [('the paths of the parent are those announced for it, once each', G11, And(
            nodup(ps), FA([s_], mem(ps, tup(s_)) == And(T.cpa(self.A, self.r, s_), T.prev(s_, self.r) == self.a), [mem(ps, tup(s_)), T.cpa(self.A, self.r, s_)]),
            FA([e_], Implies(mem(ps, e_), V.is_tup(e_)), [mem(ps, e_)])))]

    def entry(self):
        o = self.o
        return self.lemmas() + [FA([s_], T.inst('cpa_cpath', s_, o.ann, o.vp, o.root, o.rank, o.rk(self.a), o.dom), [T.cpath(o.vp, o.root, s_), T.cpa(o.ann, o.root, s_)])]


def _sa_form(L):
    b = Branch(L, True)
    el = V.elems(e_)
    rel = V.elems(at(el, IntVal(1)))
    return b.paths() + [
        ('entries are branches below the node', G11, FA([e_], Implies(Select(b.ever, e_), And(e_ == b.ent(rel), T.branch(b.A, b.n, rel), b.u.rk(S.last(rel)) >= b.u.rk(b.n))), [Select(b.ever, e_)])),
        ('each entry waits once', G11, And(nodup(b.q), FA([e_], Implies(mem(b.q, e_), Select(b.ever, e_)), [mem(b.q, e_)]))),
        ('the node itself is announced', G11, Select(b.ever, b.ent(seq(b.n)))),
        ('a branch is announced after the one above it', G11, FA([t_, x], Implies(Select(b.ever, b.ent(snoc(t_, x))), Or(t_ == nil, b.told(t_))), [Select(b.ever, b.ent(snoc(t_, x)))])),
    ]


def _sa_mirror(b, extra=lambda v: BoolVal(True)):
    return [('a consumer holds what it held and the branches announced so far', G11, FA([e_], Select(b.u.mir, e_) == Or(Select(T.vpaths(b.A, b.r), e_), And(
        Select(T.vpaths(b.A1, b.r), e_), b.thru(V.elems(e_)), b.told(b.after(V.elems(e_))), extra(V.elems(e_)))), [Select(b.u.mir, e_)])), ('the announced links stay for now', G11, b.u.ann == b.o.ann)]


def _sa_below(b, but=None):
    """branches below one announced are announced or wait"""
    ok = (lambda t: BoolVal(True)) if but is None else (lambda t: t != but)
    return [('branches below one announced were found', G11, FA([t_, x], Implies(And(b.told(t_), ok(t_), T.lk(b.A, S.last(t_), x)), Select(b.ever, b.ent(snoc(t_, x)))), [(Select(b.ever, b.ent(t_)), T.lk(b.A, S.last(t_), x))]))]


def _sa_loop(L):
    f, k = L.arg('self'), L.arg('node_id')
    o, u = U(L.old, f), U(L.cur, f)
    start = tup(seq(k, tup(seq(k))))
    b = Branch(L, True)
    return _entries(L, 'queue', 2) + RI(L.cur, f) + runstep(o, u) + [
        ('the first entry is announced first', G17, Or(Not(Select(u.rdom, k)), L.local('queue') == seq(start)))] + _sa_form(L) + _sa_below(b) + _sa_mirror(b)


def _sa_paths(L):
    f = L.arg('self')
    o, pr, u = U(L.old, f), U(L.pre, f), U(L.cur, f)
    b = Branch(L, True)
    rel = V.elems(L.local('relative_path'))
    return RI(L.cur, f) + runstep(o, u) + [
        ('the node is announced', G17, Implies(L.done != nil, Not(Select(u.rdom, L.local('node_id'))))),
        ('what ran before does not wait', G17, FA([k_], Implies(Select(u.rdom, k_), Select(pr.rdom, k_)), [Select(u.rdom, k_)])),
    ] + _sa_mirror(b, lambda v: Or(b.after(v) != rel, mem(L.done, tup(b.before(v)))))


def _sa_children(L):
    b = Branch(L, True)
    rel = V.elems(L.local('relative_path'))
    return _entries(L, 'queue', 2) + _sa_form(L) + _sa_below(b, rel) + _sa_mirror(b) + [
        ('the branch they belong to is announced', G11, b.told(rel)),
        ('the branches of the children seen wait', G11, FA([x], Select(b.ever, b.ent(snoc(rel, x))) == mem(L.done, x), [Select(b.ever, b.ent(snoc(rel, x))), mem(L.done, x)]))]


def told_all(c, name, adding):
    """every branch below the node was told: the induction principle of branches"""
    loc = getattr(c, 'locals', {})
    if name not in loc:
        return []
    ever = c.ex.spec_term(loc[name], c.path, '#ever')
    u = uu(c)
    W = z3.Const('set_told', T.VB)
    A = u.ann if adding else T.dell(u.ann, c.parent_id, c.node_id)
    ent = lambda t: tup(seq(S.last(t), tup(t), *([] if adding else [vbool(BoolVal(False))])))
    return [FA([t_], Select(W, tup(t_)) == Select(ever, ent(t_)), [Select(W, tup(t_)), Select(ever, ent(t_))]), FA([s_], T.inst('branch_all', s_, A, c.node_id, W), [T.branch(A, c.node_id, s_)])]


add(Contract('FilteredTree.send_add_tree', result='none', modifies=lambda c: [('FilteredTree.cache_paths', c.self), (RO, c.self), '$calls', '$runs', ('$mir', c.self), ('$ann', c.self), ('$stale', c.self)],
    requires=lambda c: send_req(c) + [
        ('from the node on displayed nodes are nodes of the tree', G18, FA([x], Implies(And(uu(c).has(x), uu(c).rk(x) >= uu(c).rk(c.node_id)), Select(c.old('MainTree.nodes.dom', uu(c).t), x)), [uu(c).has(x)])),
        ('the link is not announced yet', G11, Not(T.lk(uu(c).ann, c.parent_id, c.node_id)))],
    loops=[LoopSpec(_sa_loop, 'queue', entry=lambda L: Branch(L, True).entry(), hints=lambda L: Branch(L, True).lemmas()), LoopSpec(_sa_paths, 'paths'), LoopSpec(_sa_children, 'children')],
    ghost=lambda c: {'$ann': Store(c.old.leaf('$ann'), c.self, T.addl(uu(c).ann, c.parent_id, c.node_id))}, hints=lambda c: told_all(c, 'queue', True),
    ensures=lambda c: RI(c.new, c.self) + runstep(uu(c), U(c.new, c.self)) + [
        ('the actions of the node ran', G17, Not(Select(U(c.new, c.self).rdom, c.node_id))),
        ('the link is announced', G11, U(c.new, c.self).ann == T.addl(uu(c).ann, c.parent_id, c.node_id)),
        ('a consumer holds exactly the paths along the announced links', G11, U(c.new, c.self).mir == T.vpaths(U(c.new, c.self).ann, uu(c).root))]))


def _sr_form(L):
    b = Branch(L, False)
    el = V.elems(e_)
    rel = V.elems(at(el, IntVal(1)))
    ev = lambda t, first: Select(b.ever, b.ent(t, first))
    on = lambda t, first: mem(b.q, b.ent(t, first))
    pos = lambda t, first: T.idx(b.q, b.ent(t, first))
    above = lambda first: FA([t_, x], Implies(And(on(t_, False), on(snoc(t_, x), first)), pos(t_, False) < pos(snoc(t_, x), first)), [(on(t_, False), on(snoc(t_, x), first))])
    return b.paths() + [
        ('entries are branches below the node', G11, FA([e_], Implies(Select(b.ever, e_), And(Or(e_ == b.ent(rel, True), e_ == b.ent(rel, False)), T.branch(b.A, b.n, rel), b.u.rk(S.last(rel)) >= b.u.rk(b.n))), [Select(b.ever, e_)])),
        ('each entry waits once', G11, And(nodup(b.q), FA([e_], Implies(mem(b.q, e_), Select(b.ever, e_)), [mem(b.q, e_)]))),
        ('the node itself is announced', G11, ev(seq(b.n), True)),
        ('a branch is found with the one above it', G11, FA([t_, x], Implies(ev(snoc(t_, x), True), Or(t_ == nil, ev(t_, False))), [ev(snoc(t_, x), True)])),
        ('what is below a branch waits above it', G11, And(above(True), above(False))),
    ]


def _sr_first(b, but=None):
    """an entry is seen a second time after the first"""
    ok = (lambda t: BoolVal(True)) if but is None else (lambda t: t != but)
    return [('each branch is seen twice', G11, both([t_], Implies(ok(t_), Select(b.ever, b.ent(t_, False)) == And(Select(b.ever, b.ent(t_, True)), Not(mem(b.q, b.ent(t_, True))))), Select(b.ever, b.ent(t_, False)), Select(b.ever, b.ent(t_, True))))]


def _sr_below(b, but=None):
    ok = (lambda t: BoolVal(True)) if but is None else (lambda t: t != but)
    return [('branches below one seen were found', G11, FA([t_, x], Implies(And(Select(b.ever, b.ent(t_, False)), ok(t_), T.lk(b.A, S.last(t_), x)), Select(b.ever, b.ent(snoc(t_, x), True))),
                                                         [(Select(b.ever, b.ent(t_, False)), T.lk(b.A, S.last(t_), x))])),
            ('branches below one that is gone are gone', G11, FA([t_, x], Implies(And(b.told(t_), T.lk(b.A, S.last(t_), x)), b.told(snoc(t_, x))), [(Select(b.ever, b.ent(t_, False)), T.lk(b.A, S.last(t_), x))]))]


def _sr_mirror(b, extra=lambda v: BoolVal(False)):
    return [('a consumer holds what it held but for the branches announced so far', G11, FA([e_], Select(b.u.mir, e_) == And(Select(T.vpaths(b.A1, b.r), e_), Or(
        Not(b.thru(V.elems(e_))), Not(b.told(b.after(V.elems(e_)))), extra(V.elems(e_)))), [Select(b.u.mir, e_)])), ('the announced links stay for now', G11, And(b.u.ann == b.o.ann, b.o.ann == b.A1))]


def _sr_loop(L):
    f = L.arg('self')
    b = Branch(L, False)
    return _entries(L, 'stack', 3) + samerun(U(L.old, f), U(L.cur, f)) + _sr_form(L) + _sr_first(b) + _sr_below(b) + _sr_mirror(b)


def _sr_children(L):
    b = Branch(L, False)
    rel = V.elems(L.local('relative_path'))
    return _entries(L, 'stack', 3) + _sr_form(L) + _sr_first(b) + _sr_below(b, rel) + _sr_mirror(b) + [
        ('the branch they belong to is seen', G11, And(Select(b.ever, b.ent(rel, False)), mem(b.q, b.ent(rel, False)))),
        ('the branches of the children seen wait', G11, FA([x], Select(b.ever, b.ent(snoc(rel, x), True)) == mem(L.done, x), [Select(b.ever, b.ent(snoc(rel, x), True)), mem(L.done, x)]))]


def _sr_paths(L):
    f = L.arg('self')
    b = Branch(L, False)
    rel = V.elems(L.local('relative_path'))
    return samerun(U(L.old, f), U(L.cur, f)) + [
        ('what is below the branch is gone', G11, FA([x], Implies(T.lk(b.A, S.last(rel), x), b.told(snoc(rel, x))), [T.lk(b.A, S.last(rel), x)])),
    ] + _sr_mirror(b, lambda v: And(b.after(v) == rel, Not(mem(L.done, tup(b.before(v))))))


add(Contract('FilteredTree.send_remove_tree', result='none', modifies=lambda c: [('FilteredTree.cache_paths', c.self), (RO, c.self), '$calls', '$runs', ('$mir', c.self), ('$ann', c.self), ('$stale', c.self)],
    requires=lambda c: send_req(c) + [('the link is announced', G11, T.lk(uu(c).ann, c.parent_id, c.node_id))],
    loops=[LoopSpec(_sr_loop, 'stack', entry=lambda L: Branch(L, False).entry(), hints=lambda L: Branch(L, False).lemmas()), LoopSpec(_sr_children, 'children'), LoopSpec(_sr_paths, 'paths')],
    ghost=lambda c: {'$ann': Store(c.old.leaf('$ann'), c.self, T.dell(uu(c).ann, c.parent_id, c.node_id))}, hints=lambda c: told_all(c, 'stack', False),
    ensures=lambda c: samerun(uu(c), U(c.new, c.self)) + [
        ('the link is gone', G11, U(c.new, c.self).ann == T.dell(uu(c).ann, c.parent_id, c.node_id)),
        ('a consumer holds exactly the paths along the announced links', G11, U(c.new, c.self).mir == T.vpaths(U(c.new, c.self).ann, uu(c).root))]))


# --------------------------------------------------------------- the state of the view while it is being updated
def TF(u, half=None):
    """the view on its tree; tree and view links descend along one ranking, the view root on top"""
    tw = G9 + G10 + G17
    return u.cbase(half) + [
        ('the view root is no node of the tree', tw, Not(u.tv.has(u.root))),
        ('tree links descend', tw, FA([p, c_], Implies(And(u.tv.has(c_), mem(u.tv.P(c_), p)), u.rk(p) < u.rk(c_)), [mem(u.tv.P(c_), p)])),
        ('the view root is on top', tw, FA([x], Implies(x != u.root, u.rk(u.root) < u.rk(x)), [u.rk(x)])),
    ]


def inv(u, g, but=None, up=None, exc=None):
    """the view is in order for the nodes of g (all but one of them, if given; up: which of them are shown with all their parents, exc: but this one)"""
    b = (lambda k: k != but) if but is not None else (lambda k: BoolVal(True))
    up = up or (lambda k: b(k))
    H, f = u.H, u.f
    return [
        ('a displayed node is accepted', G9, FA([x], Implies(And(u.has(x), x != u.root), u.acc(x)), [u.has(x)])),
        ('V1 no duplicate link', G10, FA([x], Implies(u.has(x), And(nodup(u.P(x)), nodup(u.C(x)))), [u.has(x)])),
        ('V1 a parent link leads to a displayed node', G10, FA([p, c_], Implies(And(u.has(c_), mem(u.P(c_), p)), u.has(p)), [mem(u.P(c_), p)])),
    ] + closed_c(u) + u.asc() + [
        ('V1 every parent link has its child link', G10, FA([p, c_], Implies(And(u.has(c_), mem(u.P(c_), p), g(c_), b(c_)), mem(u.C(p), c_)), [mem(u.P(c_), p)])),
        ('V1 every child link has its parent link', G10, FA([p, c_], Implies(And(u.has(p), mem(u.C(p), c_), g(c_), b(c_)), mem(u.P(c_), p)), [mem(u.C(p), c_)])),
        ('V1 every displayed node but the root has a parent', G10, FA([x], Implies(And(u.has(x), x != u.root, g(x), b(x)), u.P(x) != nil), [u.has(x)])),
        ('V3 accepted parents of a displayed node are displayed', G9 + G10, FA([y, p], Implies(And(Not(u.flat), u.has(y), u.tv.has(y), mem(u.tv.P(y), p), u.acc(p), g(y), up(y), *([p != exc] if exc is not None else [])), u.has(p)), [mem(u.tv.P(y), p)])),
        ('nothing waits for a displayed node', G17, FA([k_], Implies(And(Select(u.rdom, k_), u.has(k_), g(k_)), Not(b(k_))), [Select(u.rdom, k_)])),
    ] + RI(H, f) + CI(H, f) + mirror(u)


def step(o, n, lt, skip=None):
    """what an update may change: nodes with lt appear or get the parents they should have"""
    sk = (lambda k: k == skip) if skip is not None else (lambda k: BoolVal(False))
    return [
        ('displayed nodes stay', G9, FA([x], Implies(o.has(x), n.has(x)), [o.has(x)])),
        ('new nodes get the parents they should have', G10, FA([x], Implies(And(n.has(x), Not(o.has(x)), Not(sk(x))), And(lt(x), x != n.root, n.P(x) == n.ideal(x))), [n.has(x)])),
        ('parents of a displayed node stay or become what they should be', G10, FA([y], Implies(And(o.has(y), Not(sk(y))), Or(n.P(y) == o.P(y), And(y != n.root, lt(y), n.P(y) == n.ideal(y)))), [n.P(y)])),
        ('the other nodes keep their place', G10, both([p, c_], Implies(And(Not(lt(c_)), Not(sk(c_)), n.has(p)), mem(n.C(p), c_) == And(o.has(p), mem(o.C(p), c_))), mem(n.C(p), c_), mem(o.C(p), c_))),
    ] + runstep(o, n)


MOD = lambda c: [('FilteredTree.nodes', c.self), ('FilteredTree.cache_paths', c.self), ('FilteredTree.filter_cache', c.self), (RO, c.self), '$calls', '$runs', ('$mir', c.self), ('$ann', c.self), ('$stale', c.self)]
UP = 'FilteredTree.__update_node'


def reassigns(keep_parents):
    def r(c, l):
        if l.root[2] != 'nodes' or not l.steps or l.steps[-1][0] != 'r':
            return BoolVal(False)
        if l.steps[-1][1] == 'children':
            return True
        return keep_parents(c, l.steps[0][1])
    return r


def fcache(u):
    return [('V0 the filter cache is empty', u.H('FilteredTree.filter_cache.dom', u.f) == T.EMPTY)]


# --------------------------------------------------------------- a node and what is above it
def below(u, q, strict=False):
    return (lambda k: u.rk(k) < u.rk(q)) if strict else (lambda k: u.rk(k) <= u.rk(q))


def up_req(c):
    u = uu(c)
    q = c.node_id
    return TF(u) + inv(u, below(u, q)) + [('a node of the tree or the view root', Or(q == u.root, u.tv.has(q)))]


def up_ens(c):
    o, n = uu(c), U(c.new, c.self)
    q = c.node_id
    return fcache(n) + inv(n, below(o, q)) + step(o, n, below(o, q)) + [
        ('the node is displayed if it is accepted', G9, Implies(And(q != o.root, o.acc(q)), n.has(q))),
        ('the node has the parents it should have', G10, Implies(And(q != o.root, n.has(q)), n.P(q) == n.ideal(q)))]


def ups(L):
    f = L.arg('self')
    return U(L.old, f), U(L.cur, f), L.arg('node_id')


def true(k):
    return BoolVal(True)


class Upd:
    """the loops of __update_node, for an update that keeps the nodes of g in order and changes those of lt"""
    def __init__(self, g, lt):
        self.g, self.lt = g, lt

    def kept(self, L, up=None, but=True):
        o, u, q = ups(L)
        return fcache(u) + inv(u, self.g(o, q), q if but else None, up=up) + step(o, u, self.lt(o, q), q if but else None)

    def hidden(self, L):
        return self.kept(L, but=False)

    def added(self, L):
        o, u, q = ups(L)
        return self.kept(L) + [
            ('the node is displayed, without links yet', G10, And(u.has(q), u.P(q) == nil, FA([p], Implies(u.has(p), Not(mem(u.C(p), q))), [mem(u.C(p), q)]))),
            ('accepted parents seen are displayed', G9, FA([p], Implies(And(mem(L.done, p), u.acc(p)), u.has(p)), [mem(L.done, p)]))]

    def parents_set(self, L):
        o, u, q = ups(L)
        return self.kept(L, up=true) + [('the node has the parents it should have', G10, And(u.has(q), u.P(q) == u.ideal(q)))]

    def seq_is(self, L, f):
        """what the loop runs over"""
        o, u, q = ups(L)
        had = lambda k: And(o.has(q), mem(o.P(q), k))
        want = lambda k: mem(u.ideal(q), k)
        return [('the parents the loop is about', G10, FA([p], mem(L.seq, p) == f(had(p), want(p)), [mem(L.seq, p)])),
                ('the parents the loop is about, read the other way', G10, both([p], Implies(f(had(p), want(p)), mem(L.seq, p)), mem(o.P(q), p), want(p))),
                ('parents it should have are displayed above it', G10, FA([p], Implies(want(p), And(u.has(p), u.rk(p) < u.rk(q), Or(p == u.root, u.tv.has(p)))), [want(p)])),
                ('parents it had were displayed above it', G10, FA([p], Implies(had(p), And(o.has(p), u.rk(p) < u.rk(q), mem(o.C(p), q), Or(p == u.root, u.tv.has(p)))), [mem(o.P(q), p)]))]

    def remove(self, L):
        o, u, q = ups(L)
        return self.parents_set(L) + self.seq_is(L, lambda h, w: And(h, Not(w))) + [
            ('links from parents removed so far are gone', G10, links_of(u, q, lambda k: And(o.has(k), mem(o.C(k), q), Not(mem(L.done, k)))))]

    def join(self, L):
        o, u, q = ups(L)
        return self.parents_set(L) + self.seq_is(L, lambda h, w: And(w, Not(h))) + [
            ('links from parents added so far are there', G10, links_of(u, q, lambda k: Or(And(o.has(k), mem(o.C(k), q), mem(u.ideal(q), k)), mem(L.done, k)))),
            ('what waited for the node ran', G17, Implies(Or(L.done != nil, o.has(q)), Not(Select(u.rdom, q))))]

    def stay(self, L):
        o, u, q = ups(L)
        return self.parents_set(L) + self.seq_is(L, And) + [
            ('links from all its parents are there', G10, links_of(u, q, lambda k: mem(u.ideal(q), k))),
            ('what waited for the node ran', G17, Not(Select(u.rdom, q)))]

    def paths(self, L):
        f = L.arg('self')
        u, q = U(L.cur, f), L.arg('node_id')
        return samerun(U(L.pre, f), u) + samemir(U(L.pre, f), u) + [
            ('the paths of the node are those announced for it', G18, FA([e_], mem(L.seq, e_) == And(Select(u.mir, e_), S.last(V.elems(e_)) == q), [mem(L.seq, e_), Select(u.mir, e_)])),
            ('the paths seen were announced', G18, FA([e_], Implies(mem(L.done, e_), Not(Select(u.stale, e_))), [mem(L.done, e_), Select(u.stale, e_)]))]

    def paths_entry(self, L):
        u, q = U(L.cur, L.arg('self')), L.arg('node_id')
        return [FA([s_], T.inst('cpa_cpath', s_, u.ann, u.vp, u.root, u.rank, u.rk(q), u.dom), [T.cpath(u.vp, u.root, s_), T.cpa(u.ann, u.root, s_)])]

    def children(self, L):
        o, u, q = ups(L)
        return self.kept(L, but=False) + none_stale(u, q) + [
            ('the node has the parents it should have', G10, And(u.has(q), u.P(q) == u.ideal(q))),
            ('the accepted children are what the loop is about', G10, FA([c_], Implies(And(Not(u.flat), u.tv.has(q), mem(u.tv.C(q), c_), u.acc(c_)), mem(L.seq, c_)), [mem(u.tv.C(q), c_)])),
            ('children seen are displayed below the node', G9 + G10, FA([c_], Implies(mem(L.done, c_), And(u.has(c_), mem(u.P(c_), q))), [mem(L.done, c_)]))]

    def loops(self, children=False):
        return [LoopSpec(lambda L: fcache(U(L.cur, L.arg('self'))), 'filter cache'), LoopSpec(self.hidden, 'parents of a hidden node'), LoopSpec(self.added, 'parents of an added node'),
                LoopSpec(self.remove, 'parents to leave'), LoopSpec(self.join, 'parents to join'), LoopSpec(self.stay, 'parents kept'), LoopSpec(self.paths, 'paths of a modified node', entry=self.paths_entry),
                LoopSpec(self.children, 'children') if children else None, None, None, None, None]


def links_of(u, q, f):
    return FA([p], Implies(u.has(p), mem(u.C(p), q) == f(p)), [mem(u.C(p), q)])


up_loops = Upd(lambda o, q: below(o, q), lambda o, q: below(o, q, True))
up_map = {UP: lambda c: [(c.direction == lit('up'), UP + '#up')]}
add(Contract(UP + '#up', body=UP, fixed={'direction': 'up'}, requires=up_req, ensures=up_ens, modifies=MOD, callmap=up_map, result='V', loops=up_loops.loops(),
             reassigns=reassigns(lambda c, k: uu(c).rk(k) > uu(c).rk(c.node_id))))


# --------------------------------------------------------------- a node, what is above it and what is below it (nothing is to disappear)
def full_req(c):
    u = uu(c)
    q = c.node_id
    return TF(u) + inv(u, true, exc=q) + [('not the view root', q != u.root), ('the node is not to disappear', G9, Implies(u.has(q), u.acc(q)))]


def down_req(c):
    return full_req(c) + [('the node is accepted', G9, uu(c).acc(c.node_id))]


def full_ens(c):
    o, n = uu(c), U(c.new, c.self)
    q = c.node_id
    return fcache(n) + inv(n, true) + step(o, n, true) + none_stale(n, q) + [
        ('the view root has no parent', G10, n.P(n.root) == nil),
        ('the node is displayed if it is accepted', G9, Implies(o.acc(q), n.has(q))),
        ('the node has the parents it should have', G10, Implies(n.has(q), n.P(q) == n.ideal(q))),
        ('its accepted children are displayed below it', G9 + G10, FA([c_], Implies(And(Not(n.flat), n.tv.has(q), n.has(q), mem(n.tv.C(q), c_), n.acc(c_)), And(n.has(c_), mem(n.P(c_), q))), [mem(n.tv.C(q), c_)]))]


full_loops = Upd(lambda o, q: true, lambda o, q: true)
full_map = {UP: lambda c: [(c.direction == lit('up'), UP + '#up'), (c.direction == lit('down'), UP + '#full_down')]}
for _d, _r in (('both', full_req), ('down', down_req)):
    add(Contract(UP + '#full_' + _d, body=UP, fixed={'direction': _d}, requires=_r, ensures=full_ens, modifies=MOD, callmap=full_map, result='V', loops=full_loops.loops(True),
                 reassigns=reassigns(lambda c, k: BoolVal(False))))


# --------------------------------------------------------------- nothing to do
def same(o, n):
    return fcache(n) + [('the view is as it was', G9 + G10, And(n.dom == o.dom, n.vp == o.vp, n.vc == o.vc))] + samerun(o, n) + samemir(o, n)


def same_entry(L):
    f = L.arg('self')
    return same(U(L.old, f), U(L.cur, f))


def same_here(L):
    f = L.arg('self')
    return same(U(L.pre, f), U(L.cur, f))


FC = lambda: LoopSpec(lambda L: fcache(U(L.cur, L.arg('self'))), 'filter cache')
SAME = lambda: LoopSpec(same_here, 'nothing changes')


def rank_facts(u, q):
    return [('parents above', G10, FA([p], Implies(mem(u.ideal(q), p), And(u.has(p), u.rk(p) < u.rk(q), Or(p == u.root, u.tv.has(p)))), [mem(u.ideal(q), p)]))]


def quiet_req(c):
    u = uu(c)
    q = c.node_id
    g = below(u, q)
    return TF(u) + [
        ('above the node exactly the accepted nodes are displayed', G9, both([x], Implies(g(x), u.has(x) == Or(x == u.root, u.acc(x))), u.has(x), u.acc(x))),
        ('nodes above it have the parents they should have', G10, FA([x], Implies(And(g(x), u.has(x), x != u.root), u.P(x) == u.ideal(x)), [u.P(x)])),
        ('a consumer holds exactly the paths along the announced links', G11, u.mir == T.vpaths(u.ann, u.root)),
        ('links are announced above the node as in the view', G18, T.agree_up(u.ann, u.vp, u.rank, u.rk(q), u.dom)),
    ] + u.up_ok(q) + RI(c.old, c.self) + CI(c.old, c.self) + [('a node of the tree or the view root', Or(q == u.root, u.tv.has(q)))]


def _quiet_stay(L):
    u = U(L.cur, L.arg('self'))
    q = L.arg('node_id')
    return same_here(L) + [('the parents the loop is about', G10, FA([p], Implies(mem(L.seq, p), mem(u.ideal(q), p)), [mem(L.seq, p)]))] + rank_facts(u, q)


add(Contract(UP + '#quiet', body=UP, fixed={'direction': 'up'}, requires=quiet_req, ensures=lambda c: same(uu(c), U(c.new, c.self)), modifies=MOD, result='V',
             callmap={UP: lambda c: [(c.direction == lit('up'), UP + '#quiet')]}, reassigns=reassigns(lambda c, k: BoolVal(False)),
             loops=[FC(), SAME(), None, SAME(), SAME(), LoopSpec(_quiet_stay, 'parents kept'), LoopSpec(up_loops.paths, 'paths of a modified node', entry=up_loops.paths_entry), None, None, None, None, None]))

add(Contract(UP + '#root', body=UP, requires=lambda c: [('the view root', c.node_id == uu(c).root)], ensures=lambda c: [], modifies=[], result='V', loops=[None] * 12, reassigns=reassigns(lambda c, k: BoolVal(True))))


# --------------------------------------------------------------- a child that lost its last parent, or one of several
def orphan_req(c):
    u = uu(c)
    q = c.node_id
    return TF(u) + [
        ('accepted nodes are displayed', G9, both([x], Implies(u.acc(x), u.has(x)), u.acc(x), u.has(x))),
        ('the node is accepted', G9, And(u.acc(q), q != u.root)),
        ('it has the parents it should have, or none where the view root should be it', G10, Or(u.P(q) == u.ideal(q), And(u.P(q) == nil, u.ideal(q) == seq(u.root), Not(mem(u.C(u.root), q))))),
        ('V1 a parent link leads to a displayed node', G10, FA([p, c_], Implies(And(u.has(c_), mem(u.P(c_), p)), u.has(p)), [mem(u.P(c_), p)])),
        ('V1 every parent link has its child link', G10, FA([p, c_], Implies(And(u.has(c_), mem(u.P(c_), p)), mem(u.C(p), c_)), [mem(u.P(c_), p)])),
        ('V1 every other displayed node but the root has a parent', G10, FA([x], Implies(And(u.has(x), x != u.root, x != q), u.P(x) != nil), [u.has(x)])),
        ('its accepted children are below it', G10, FA([x], Implies(And(Not(u.flat), mem(u.tv.C(q), x), u.acc(x)), mem(u.C(q), x)), [mem(u.tv.C(q), x)])),
        ('nothing waits for a displayed node', G17, FA([k_], Not(And(Select(u.rdom, k_), u.has(k_))), [Select(u.rdom, k_)])),
        ('a consumer holds exactly the paths along the announced links', G11, u.mir == T.vpaths(u.ann, u.root)),
        ('announced links descend', G11, T.asc_links(u.ann, u.rank)),
        ('links are announced from the node on as in the view', G11, both([x, y], Implies(And(u.has(x), u.rk(x) >= u.rk(q)), T.lk(u.ann, x, y) == mem(u.C(x), y)), T.lk(u.ann, x, y), mem(u.C(x), y))),
        ('V1 no duplicate child link from the node on', G11, FA([x], Implies(And(u.has(x), u.rk(x) >= u.rk(q)), nodup(u.C(x))), [u.has(x)])),
        ('V1 no duplicate parent link', G11, FA([x], Implies(u.has(x), nodup(u.P(x))), [u.has(x)])),
        ('links are announced above the node as in the view', G18, T.agree_up(u.ann, u.vp, u.rank, u.rk(q), u.dom)),
        ('from the node on displayed nodes are nodes of the tree', G18, FA([x], Implies(And(u.has(x), u.rk(x) >= u.rk(q)), u.tv.has(x)), [u.has(x)])),
        ('a node without a parent is not announced below the view root', G11, Implies(u.P(q) == nil, Not(T.lk(u.ann, u.root, q)))),
    ] + closed_c(u) + u.asc() + RI(c.old, c.self) + CI(c.old, c.self)


def joined(o, n, q, when):
    """the node was appended to the children of the view root"""
    return [('the node joined the view root where it had no parent left', G10, And(
        n.dom == o.dom, n.vp == Store(o.vp, q, o.ideal(q)), n.vc == If(when, Store(o.vc, o.root, snoc(o.C(o.root), q)), o.vc))),
        ('its link from the view root is announced then', G11, n.ann == If(when, T.addl(o.ann, o.root, q), o.ann)),
        ('a consumer holds exactly the paths along the announced links', G11, n.mir == T.vpaths(n.ann, n.root))]


def _orphan_join(L):
    o, u, q = ups(L)
    return fcache(u) + joined(o, u, q, L.done != nil) + samerun(o, u) + RI(L.cur, L.arg('self')) + [
        ('only the view root is joined', G10, FA([p], mem(L.seq, p) == And(p == o.root, o.P(q) == nil), [mem(L.seq, p)])),
        ('the view root is joined, once', G10, And(Implies(o.P(q) == nil, mem(L.seq, o.root)), Or(L.seq == nil, And(mem(L.seq, S.last(L.seq)), o.P(q) == nil)), Or(L.done == nil, mem(L.done, o.root))))]


def _orphan_rest(L):
    o, u, q = ups(L)
    return fcache(u) + joined(o, u, q, o.P(q) == nil) + samerun(o, u) + RI(L.cur, L.arg('self'))


def _orphan_remove(L):
    o, u, q = ups(L)
    return fcache(u) + joined(o, u, q, BoolVal(False)) + samerun(o, u) + RI(L.cur, L.arg('self'))


add(Contract(UP + '#orphan', body=UP, fixed={'direction': 'down'}, requires=orphan_req, modifies=MOD, result='V',
             ensures=lambda c: fcache(U(c.new, c.self)) + joined(uu(c), U(c.new, c.self), c.node_id, uu(c).P(c.node_id) == nil) + samerun(uu(c), U(c.new, c.self)),
             callmap={UP: lambda c: [(And(c.direction == lit('up'), c.node_id == uu(c).root), UP + '#root')]}, reassigns=reassigns(lambda c, k: BoolVal(False)),
             loops=[FC(), None, None, LoopSpec(_orphan_remove, 'parents to leave'), LoopSpec(_orphan_join, 'parents to join'), LoopSpec(_orphan_rest, 'parents kept'),
                    LoopSpec(up_loops.paths, 'paths of a modified node', entry=up_loops.paths_entry), LoopSpec(_orphan_rest, 'children'), None, None, None, None]))


# --------------------------------------------------------------- a node that is to disappear
def idl_with(u, q):
    """the parents each node should have if q were accepted"""
    return T.idl(u.tv.par, u.tv.val, Store(u.D, q, BoolVal(True)), u.flat, u.root)


def del_req(c):
    u = uu(c)
    q = c.node_id
    Iq = idl_with(u, q)
    return TF(u) + [
        ('the node is displayed, and is not accepted', G9, And(u.has(q), q != u.root, Not(u.acc(q)))),
        ('the other displayed nodes are those accepted', G9, both([x], Implies(x != q, u.has(x) == Or(x == u.root, u.acc(x))), u.has(x), u.acc(x))),
        ('the other nodes have the parents they should have beside the node', G10, FA([x], Implies(And(u.has(x), x != q, x != u.root), u.P(x) == Select(Iq, x)), [u.P(x)])),
        ('V1 no duplicate link', G10, FA([x], Implies(u.has(x), And(nodup(u.P(x)), nodup(u.C(x)))), [u.has(x)])),
        ('V1 a parent link leads to a displayed node', G10, FA([p, c_], Implies(And(u.has(c_), mem(u.P(c_), p)), u.has(p)), [mem(u.P(c_), p)])),
        ('V1 every parent link has its child link', G10, FA([p, c_], Implies(And(u.has(c_), mem(u.P(c_), p)), mem(u.C(p), c_)), [mem(u.P(c_), p)])),
        ('V1 every child link has its parent link', G10, FA([p, c_], Implies(And(u.has(p), mem(u.C(p), c_)), mem(u.P(c_), p)), [mem(u.C(p), c_)])),
        ('V1 every displayed node but the root has a parent', G10, FA([x], Implies(And(u.has(x), x != u.root), u.P(x) != nil), [u.has(x)])),
        ('nothing waits for a displayed node', G17, FA([k_], Not(And(Select(u.rdom, k_), u.has(k_))), [Select(u.rdom, k_)])),
    ] + closed_c(u) + u.asc() + RI(c.old, c.self) + CI(c.old, c.self) + mirror(u)


def del_ens(c):
    o, n = uu(c), U(c.new, c.self)
    q = c.node_id
    return fcache(n) + inv(n, true) + samerun(o, n) + none_stale(n, q) + [
        ('the view root has no parent', G10, n.P(n.root) == nil),
        ('exactly the accepted nodes are displayed', G9, both([x], n.has(x) == Or(x == n.root, n.acc(x)), n.has(x), n.acc(x))),
        ('the nodes have the parents they should have', G10, FA([x], Implies(And(n.has(x), x != n.root), n.P(x) == n.ideal(x)), [n.P(x)]))]


def _del_child(o, u, q, seen):
    """the view when the children seen have left the node"""
    r = o.root
    kid = lambda k: mem(o.C(q), k)
    less = lambda k: rem(o.P(k), q)
    return fcache(u) + samerun(o, u) + RI(u.H, u.f) + [
        ('the displayed nodes stay', G9, u.dom == o.dom),
        ('a child of the node is left with its other accepted parents', G10, FA([x], Implies(kid(x), And(
            o.acc(x), x != q, x != r, Not(mem(o.P(x), r)), mem(o.P(x), q), Not(u.flat), o.P(x) == Select(idl_with(u, q), x), u.ideal(x) == If(less(x) == nil, seq(r), less(x)))), [mem(o.C(q), x)])),
        ('the children seen have the parents they should have', G10, FA([x], u.P(x) == If(seen(x), u.ideal(x), o.P(x)), [u.P(x)])),
        ('links below others than the root stay', G10, FA([x], Implies(x != r, u.C(x) == o.C(x)), [u.C(x)])),
        ('children without another parent joined the view root', G10, both([x], mem(u.C(r), x) == Or(mem(o.C(r), x), And(kid(x), seen(x), mem(u.ideal(x), r))), mem(u.C(r), x), mem(u.ideal(x), r))),
        ('V1 no duplicate link below the root', G10, nodup(u.C(r))),
        ('a node that is no child of it has the parents it should have', G10, FA([x], Implies(And(o.has(x), x != q, x != r, Not(kid(x))), o.P(x) == u.ideal(x)), [o.P(x)])),
        ('a consumer holds exactly the paths along the announced links', G11, u.mir == T.vpaths(u.ann, u.root)),
        ('the announced links are those of the view, but to the children seen', G11, links(u, lambda a, b: And(u.has(a), mem(u.C(a), b), Not(And(a == q, seen(b)))))),
        ('announced links descend', G11, T.asc_links(u.ann, u.rank)),
    ]


def _del_children(L):
    o, u, q = ups(L)
    return _del_child(o, u, q, lambda k: mem(L.done, k)) + [('the children are what the loop is about', G10, And(nodup(L.seq), FA([x], mem(L.seq, x) == mem(o.C(q), x), [mem(L.seq, x)])))]


def _del_end(o, u, q, gone):
    """the node is gone, and so are its links from the parents in gone"""
    r = o.root
    return fcache(u) + samerun(o, u) + RI(u.H, u.f) + u.asc() + [
        ('exactly the accepted nodes are displayed', G9, both([x], u.has(x) == Or(x == u.root, u.acc(x)), u.has(x), u.acc(x))),
        ('the nodes have the parents they should have', G10, FA([x], Implies(And(u.has(x), x != u.root), u.P(x) == u.ideal(x)), [u.P(x)])),
        ('V1 every parent link has its child link', G10, FA([p, c_], Implies(And(u.has(c_), mem(u.P(c_), p)), mem(u.C(p), c_)), [mem(u.P(c_), p)])),
        ('V1 every child link has its parent link, but for the node', G10, FA([p, c_], Implies(And(u.has(p), mem(u.C(p), c_), c_ != q), And(u.has(c_), mem(u.P(c_), p))), [mem(u.C(p), c_)])),
        ('V1 no duplicate link', G10, FA([x], Implies(u.has(x), And(nodup(u.P(x)), nodup(u.C(x)))), [u.has(x)])),
        ('V1 a parent link leads to a displayed node', G10, FA([p, c_], Implies(And(u.has(c_), mem(u.P(c_), p)), u.has(p)), [mem(u.P(c_), p)])),
        ('the view root has no parent', G10, u.P(r) == nil),
        ('links to the node are gone from the parents seen', G10, FA([p], Implies(u.has(p), mem(u.C(p), q) == And(mem(o.P(q), p), Not(gone(p)))), [mem(u.C(p), q)]))]


def _del_paths(L):
    o, u, q = ups(L)
    r = o.root
    return _del_end(o, u, q, lambda k: BoolVal(False)) + [
        ('the announced links are those of the view', G11, links(u, lambda a, b: And(u.has(a), mem(u.C(a), b)))),
        ('the node is not displayed', G9, Not(u.has(q))),
        ('the paths of the node are those announced for it, once each', G11, And(
            nodup(L.seq), FA([s_], mem(L.seq, tup(s_)) == And(T.cpa(u.ann, r, s_), s_ != nil, S.last(s_) == q), [mem(L.seq, tup(s_)), T.cpa(u.ann, r, s_)]),
            FA([e_], Implies(mem(L.seq, e_), V.is_tup(e_)), [mem(L.seq, e_)]))),
        ('a consumer holds exactly the paths along the announced links, but those of the node told so far', G11, FA([e_], Select(u.mir, e_) == And(
            Select(T.vpaths(u.ann, r), e_), Not(mem(L.done, e_))), [Select(u.mir, e_), mem(L.done, e_)]))]


def _del_paths_entry(L):
    o, u, q = ups(L)
    r, R = o.root, o.rank
    return [FA([s_], T.inst('cpa_cpath', s_, o.ann, o.vp, r, R, o.rk(q), o.dom), [T.cpath(o.vp, r, s_), T.cpa(o.ann, r, s_)]),
            FA([s_], T.inst('cpa_agree', s_, o.ann, u.ann, r, R, o.rk(q)), [T.cpa(o.ann, r, s_), T.cpa(u.ann, r, s_)])]


def _del_drop(L):
    o, u, q = ups(L)
    return {'$ann': (u.f, T.dropto(u.ann, q))}


def _del_dropped(L):
    q, r = L.arg('node_id'), U(L.pre, L.arg('self')).root
    A = T.L_
    D = T.dropto(A, q)
    return [FA([A, s_], And(T.inst('cpa_drop', s_, A, r, q), T.inst('cpa_end', s_, A, r, q)), [T.cpa(D, r, s_), (D, T.cpa(A, r, s_))])]


def _del_told(u, q):
    return [('a consumer holds exactly the paths along the announced links', G11, u.mir == T.vpaths(u.ann, u.root)),
            ('the announced links are those of the view, but to the node', G11, links(u, lambda a, b: And(u.has(a), mem(u.C(a), b), b != q))),
            ('the node is not displayed', G9, Not(u.has(q)))]


def _del_parents(L):
    o, u, q = ups(L)
    return _del_end(o, u, q, lambda k: mem(L.done, k)) + _del_told(u, q) + [('the parents it had are what the loop is about', G10, L.seq == o.P(q))]


def _del_hidden(L):
    o, u, q = ups(L)
    return _del_end(o, u, q, lambda k: BoolVal(True)) + _del_told(u, q)


del_map = {UP: lambda c: [(c.direction == lit('up'), UP + '#quiet'), (c.direction == lit('down'), UP + '#orphan')]}
add(Contract(UP + '#del', body=UP, fixed={'direction': 'both'}, requires=del_req, ensures=del_ens, modifies=MOD, result='V', callmap=del_map, reassigns=reassigns(lambda c, k: BoolVal(False)),
             loops=[FC()] + [None] * 7 + [LoopSpec(_del_children, 'children to leave'), LoopSpec(_del_paths, 'paths of the deleted node', entry=_del_paths_entry), LoopSpec(_del_parents, 'parents to leave', ghost=_del_drop, entry=_del_dropped), LoopSpec(_del_hidden, 'hidden parents')]))


# --------------------------------------------------------------- what a view does when a node is announced
def vanishes(u, q):
    return And(u.has(q), Not(u.acc(q)))


def when(cond, cl):
    return [(k[0] + ' (%s)' % cond[0],) + tuple(k[1:-1]) + (Implies(cond[1], k[-1]),) for k in cl]


def em_cases(u, q):
    return ('a node to disappear', vanishes(u, q)), ('any other node', Not(vanishes(u, q)))


def em_req(c):
    d, k = em_cases(uu(c), c.node_id)
    tf = TF(uu(c))
    n = len(tf)
    return tf + [('not the view root', c.node_id != uu(c).root)] + when(d, del_req(c)[n:]) + when(k, full_req(c)[n:])


def em_ens(c):
    d, k = em_cases(uu(c), c.node_id)
    return when(d, del_ens(c)) + when(k, full_ens(c))


add(Contract('FilteredTree.__external_modify', requires=em_req, ensures=em_ens, modifies=MOD, result='V',
             callmap={UP: lambda c: [(Not(vanishes(uu(c), c.node_id)), UP + '#full_both'), (vanishes(uu(c), c.node_id), UP + '#del')]}))
