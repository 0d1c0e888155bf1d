"""Contracts of the GTK model of a view (liblarch_gtk/treemodel.py).

Gtk.TreeStore is outside the repository.  It is described here (TRUSTED) by its rows: which exist ($rows), the row
above each ($rpar), the rows below each in order ($rkids) and their values ($rval); an iterator is an object ($its)
that stands on a row ($it).  A removed row may come back as another one, and removing a row moves the iterator it was
given.  What the announcements made so far say is the ghost $rheld (the paths held); $rmap and $rpath are the two
directions of the claimed one-to-one correspondence of paths and rows, $rfresh the paths whose row was written since
the values of their node last changed.
"""
import z3
from z3 import And, Or, Not, Implies, If, Select, Store, BoolVal, IntVal
from . import theory as T
from .theory import V, S, none, vint, tup, nil, snoc, length, mem, at, rem, nodup, idx, lit, truthy, FA, seq
from .ex import Contract, LoopSpec, VV, BV, IV, LocV, Unsupported, fresh, Heap, norm_clause
from .ctree import add, SCHEMA, GHOST, TV, C
from .cvtree import WV
from .crun import addable
from .cqueue import RG, bound, HOOKS as HOOKS0
from .cinit import emits

TM = 'TreeModel.'
TG = ('C18',)
SCHEMA['TreeModel'] = {'count': 'int', 'count2': 'int', 'types': 'list', 'cache_paths': ('dict', 'V'), 'cache_position': ('dict', 'V'), 'tree': ('obj', 'ViewTree')}
VV_ = z3.ArraySort(V, V)
ofm = lambda so: z3.ArraySort(V, so)
GHOST.update({'$rows': ofm(T.VB), '$rpar': ofm(VV_), '$rkids': ofm(ofm(S)), '$rval': ofm(ofm(VV_)), '$rcols': ofm(z3.IntSort()),
              '$it': VV_, '$its': T.VB, '$rheld': ofm(T.VB), '$rmap': ofm(VV_), '$rpath': ofm(VV_), '$rfresh': ofm(T.VB), '$col': ofm(VV_), '$newrow': V})
p_, q_, r_, a_, o_, k_ = z3.Consts('p_ q_ r_ a_ o_ k_', V)
j = z3.Int('j')


# --------------------------------------------------------------- Gtk.TreeStore (trusted)
def lf(ex, p, n):
    return ex.leaf(p.heap, n)


def put(ex, p, n, m, t):
    p.heap[n] = Store(lf(ex, p, n), m, t)
    ex.log_write(('heap', n, m))


def row_of(ex, p, it):
    return Select(lf(ex, p, '$it'), it)


def valid(ex, p, m, it):
    return And(V.is_ref(it), Select(lf(ex, p, '$its'), it), Select(Select(lf(ex, p, '$rows'), m), row_of(ex, p, it)))


def need(ex, p, what, goal, line):
    ex.oblige(p, '%s (line %s)' % (what, line), goal, TG, line, kind='pre')
    p.pc.append(goal)


def new_iter(ex, p, row):
    o = fresh('iter', V)
    its = lf(ex, p, '$its')
    p.pc.append(And(V.is_ref(o), Not(Select(its, o))))
    p.heap['$its'] = Store(its, o, BoolVal(True))
    p.heap['$it'] = Store(lf(ex, p, '$it'), o, row)
    ex.log_write(('heap', '$its', o))
    ex.log_write(('heap', '$it', o))
    return VV(o)


def position(ex, p, cond, row):
    """an iterator on the row if there is one, None otherwise"""
    out = []
    for b, q in ex.fork(p, cond):
        out.append(('ok', new_iter(ex, q, row) if b else VV(none), q))
    return out


def above(ex, p, m, v, line):
    """the row an optional iterator stands on (None: above the top level)"""
    t = ex.to_v(p, v)
    need(ex, p, 'the iterator stands on a row', Or(t == none, valid(ex, p, m, t)), line)
    return If(t == none, none, row_of(ex, p, t))


def kids(ex, p, m, r):
    return Select(Select(lf(ex, p, '$rkids'), m), r)


def iter_is_valid(ex, p, pos, kw, line):
    m, it = pos[0].t, ex.to_v(p, pos[1])
    return [('ok', BV(valid(ex, p, m, it)), p)]


def get_value(ex, p, pos, kw, line):
    m, it = pos[0].t, ex.to_v(p, pos[1])
    col = ex.as_int(pos[2])
    need(ex, p, 'the iterator stands on a row', valid(ex, p, m, it), line)
    need(ex, p, 'the column exists', And(col >= 0, col < Select(lf(ex, p, '$rcols'), m)), line)
    return [('ok', VV(Select(Select(Select(lf(ex, p, '$rval'), m), row_of(ex, p, it)), vint(col))), p)]


def set_value(ex, p, pos, kw, line):
    m, it = pos[0].t, ex.to_v(p, pos[1])
    col = ex.as_int(pos[2])
    need(ex, p, 'the iterator stands on a row', valid(ex, p, m, it), line)
    need(ex, p, 'the column exists', And(col >= 0, col < Select(lf(ex, p, '$rcols'), m)), line)
    r, val = row_of(ex, p, it), Select(lf(ex, p, '$rval'), m)
    put(ex, p, '$rval', m, Store(val, r, Store(Select(val, r), vint(col), ex.to_v(p, pos[3]))))
    return [('ok', VV(none), p)]


def iter_children(ex, p, pos, kw, line):
    m = pos[0].t
    k = kids(ex, p, m, above(ex, p, m, pos[1] if len(pos) > 1 else VV(none), line))
    return position(ex, p, k != nil, at(k, IntVal(0)))


def get_iter_first(ex, p, pos, kw, line):
    return iter_children(ex, p, [pos[0]], kw, line)


def iter_nth_child(ex, p, pos, kw, line):
    m = pos[0].t
    k = kids(ex, p, m, above(ex, p, m, pos[1], line))
    if isinstance(pos[2], VV):
        need(ex, p, 'the position is a number', V.is_vint(pos[2].t), line)
        n = V.i(pos[2].t)
    else:
        n = ex.as_int(pos[2])
    return position(ex, p, And(n >= 0, n < length(k)), at(k, n))


def iter_next(ex, p, pos, kw, line):
    m, it = pos[0].t, ex.to_v(p, pos[1])
    need(ex, p, 'the iterator stands on a row', valid(ex, p, m, it), line)
    r = row_of(ex, p, it)
    k = kids(ex, p, m, Select(Select(lf(ex, p, '$rpar'), m), r))
    return position(ex, p, idx(k, r) + 1 < length(k), at(k, idx(k, r) + 1))


def iter_n_children(ex, p, pos, kw, line):
    m = pos[0].t
    return [('ok', IV(length(kids(ex, p, m, above(ex, p, m, pos[1] if len(pos) > 1 else VV(none), line)))), p)]


def iter_has_child(ex, p, pos, kw, line):
    m = pos[0].t
    return [('ok', BV(kids(ex, p, m, above(ex, p, m, pos[1], line)) != nil), p)]


def iter_parent(ex, p, pos, kw, line):
    m, it = pos[0].t, ex.to_v(p, pos[1])
    need(ex, p, 'the iterator stands on a row', valid(ex, p, m, it), line)
    a = Select(Select(lf(ex, p, '$rpar'), m), row_of(ex, p, it))
    return position(ex, p, a != none, a)


def _insert(ex, p, m, parent, where, row, line):
    a = above(ex, p, m, parent, line)
    vals = V.elems(row.t) if isinstance(row, VV) else seq(*[ex.to_v(p, v) for v in row.items]) if not isinstance(row, LocV) else ex.read(p, row.loc)
    need(ex, p, 'the new row has a value for each column', length(vals) == Select(lf(ex, p, '$rcols'), m), line)
    r = fresh('row', V)
    p.pc.append(And(V.is_ref(r), Not(Select(Select(lf(ex, p, '$rows'), m), r))))
    kd = Select(lf(ex, p, '$rkids'), m)
    if where == -1:
        k2 = snoc(Select(kd, a), r)
    else:
        k2 = fresh('kids', S)
        p.pc.append(And(nodup(k2), FA([q_], mem(k2, q_) == Or(mem(Select(kd, a), q_), q_ == r), [mem(k2, q_)])))
    rv = fresh('vals', VV_)
    p.pc.append(FA([j], Implies(And(j >= 0, j < length(vals)), Select(rv, vint(j)) == at(vals, j)), [Select(rv, vint(j))]))
    put(ex, p, '$rows', m, Store(Select(lf(ex, p, '$rows'), m), r, BoolVal(True)))
    put(ex, p, '$rpar', m, Store(Select(lf(ex, p, '$rpar'), m), r, a))
    put(ex, p, '$rkids', m, Store(Store(kd, a, k2), r, nil))
    put(ex, p, '$rval', m, Store(Select(lf(ex, p, '$rval'), m), r, rv))
    p.heap['$newrow'] = r
    ex.log_write(('heap', '$newrow', None))
    return [('ok', new_iter(ex, p, r), p)]


def insert(ex, p, pos, kw, line):
    if len(pos) != 4:
        raise Unsupported('insert without a row')
    n = z3.simplify(ex.as_int(pos[2]))
    return _insert(ex, p, pos[0].t, pos[1], n.as_long() if z3.is_int_value(n) else None, pos[3], line)


def append(ex, p, pos, kw, line):
    if len(pos) != 3:
        raise Unsupported('append without a row')
    return _insert(ex, p, pos[0].t, pos[1], -1, pos[2], line)


def prepend(ex, p, pos, kw, line):
    if len(pos) != 3:
        raise Unsupported('prepend without a row')
    return _insert(ex, p, pos[0].t, pos[1], 0, pos[2], line)


def remove(ex, p, pos, kw, line):
    m, it = pos[0].t, ex.to_v(p, pos[1])
    need(ex, p, 'the iterator stands on a row', valid(ex, p, m, it), line)
    r = row_of(ex, p, it)
    kd = Select(lf(ex, p, '$rkids'), m)
    p.pc.append(T.inst('notnil_mem', Select(kd, r)))
    need(ex, p, 'the removed row has no rows below it', Select(kd, r) == nil, line)
    a = Select(Select(lf(ex, p, '$rpar'), m), r)
    put(ex, p, '$rows', m, Store(Select(lf(ex, p, '$rows'), m), r, BoolVal(False)))
    put(ex, p, '$rkids', m, Store(kd, a, rem(Select(kd, a), r)))
    p.heap['$it'] = Store(lf(ex, p, '$it'), it, fresh('moved', V))      # to the next row, or to none
    ex.log_write(('heap', '$it', it))
    return [('ok', BV(fresh('more', z3.BoolSort())), p)]


HOOKS = {TM + f.__name__: f for f in (iter_is_valid, get_value, set_value, iter_children, get_iter_first, iter_nth_child, iter_next, iter_n_children, iter_has_child, iter_parent, insert, append, prepend, remove)}


def column(ex, p, f, pos, kw, line):
    """a column function: it computes a value from a node, and does nothing else"""
    if len(pos) != 1 or kw:
        raise Unsupported('call of a column function')
    return [('ok', VV(Select(Select(lf(ex, p, '$col'), ex.to_v(p, f)), ex.to_v(p, pos[0]))), p)]


# --------------------------------------------------------------- the model
class GM:
    def __init__(self, H, m):
        self.H, self.m = H, m
        g = lambda n: H('$' + n, m)
        self.rows, self.par, self.kids, self.val, self.cols = g('rows'), g('rpar'), g('rkids'), g('rval'), g('rcols')
        self.held, self.map, self.pathof, self.fresh = g('rheld'), g('rmap'), g('rpath'), g('rfresh')
        self.it, self.its, self.col = H.leaf('$it'), H.leaf('$its'), H.leaf('$col')
        self.types = H(TM + 'types', m)
        self.cdom, self.cval = H(TM + 'cache_paths.dom', m), H(TM + 'cache_paths.val', m)
        self.pdom, self.pval = H(TM + 'cache_position.dom', m), H(TM + 'cache_position.val', m)
        self.w = H(TM + 'tree', m)
        self.tv = TV(H, H('ViewTree.__maintree', self.w))

    def row(self, p):
        return Select(self.map, p)

    def at_row(self, it, r):
        return And(V.is_ref(it), Select(self.its, it), Select(self.it, it) == r)

    def colval(self, i, node):
        return Select(Select(self.col, at(V.elems(at(self.types, i)), IntVal(1))), node)

    def right(self, p):
        """the values of the row of a path are those computed from its node"""
        return FA([j], Implies(And(j >= 0, j < length(self.types)), Select(Select(self.val, self.row(p)), vint(j)) == self.colval(j, self.tv.node(S.last(V.elems(p))))),
                  [Select(Select(self.val, self.row(p)), vint(j)), at(self.types, j)])

    def rows_inv(self):
        e = V.elems(p_)
        return [
            ('G1 every held path has its row', TG, FA([p_], Implies(Select(self.held, p_), And(
                V.is_tup(p_), e != nil, Select(self.rows, self.row(p_)), Select(self.pathof, self.row(p_)) == p_)), [Select(self.held, p_)])),
            ('G1 the row is below the row of the path above', TG, FA([p_], Implies(Select(self.held, p_), And(
                Select(self.par, self.row(p_)) == If(S.init(e) == nil, none, self.row(tup(S.init(e)))),
                Or(S.init(e) == nil, Select(self.held, tup(S.init(e)))))), [Select(self.par, self.row(p_)), (Select(self.held, p_), S.init(e))])),
            ('G1 the first value of a row is the id of the node', TG, FA([p_], Implies(Select(self.held, p_), And(V.is_atom(S.last(e)), Select(Select(self.val, self.row(p_)), vint(IntVal(0))) == S.last(e))), [Select(self.held, p_)])),
            ('G2 every row is the row of a held path', TG, FA([r_], Implies(Select(self.rows, r_), And(V.is_ref(r_), Select(self.held, Select(self.pathof, r_)), self.row(Select(self.pathof, r_)) == r_)), [Select(self.rows, r_)])),
            ('G3 the rows below a row are those it is above of, once each', TG, And(FA([a_, r_], mem(Select(self.kids, a_), r_) == And(Select(self.rows, r_), Select(self.par, r_) == a_), [mem(Select(self.kids, a_), r_)]),
                                                                                 FA([a_], nodup(Select(self.kids, a_)), [Select(self.kids, a_)])))]

    def caches(self):
        v = Select(self.cval, p_)
        return [
            ('G4 a cached iterator stands on the row of its path', TG, FA([p_], Implies(Select(self.cdom, p_), And(Select(self.held, p_), Or(v == none, self.at_row(v, self.row(p_))))), [Select(self.cdom, p_)])),
            ('G5 every held path has a last known position', TG, And(FA([p_], Implies(Select(self.held, p_), Select(self.pdom, p_)), [Select(self.held, p_)]),
                                                                     FA([p_], Implies(Select(self.pdom, p_), V.is_vint(Select(self.pval, p_))), [Select(self.pdom, p_)])))]

    def columns(self):
        return [('G6 columns are pairs of a type and a function, the first one gives the id of the node', TG, And(
            length(self.types) >= 1, self.cols == length(self.types),
            FA([j], Implies(And(j >= 0, j < length(self.types)), And(V.is_tup(at(self.types, j)), length(V.elems(at(self.types, j))) == 2)), [at(self.types, j)]),
            FA([o_], self.colval(IntVal(0), o_) == self.H('_Node.node_id', o_), [self.H('_Node.node_id', o_)])))]

    def fresh_inv(self):
        return [('G7 the values of the rows written since their node last changed are those computed from the node', TG, FA([p_], Implies(And(Select(self.held, p_), Select(self.fresh, p_)), self.right(p_)), [Select(self.fresh, p_)]))]

    def inv(self):
        return [('the model is an object', And(V.is_ref(self.m), self.m != none))] + self.rows_inv() + self.caches() + self.columns() + self.fresh_inv()

    def wiring(self):
        w = WV(self.H, self.w)
        return w.inv()[:1]


def gm(c):
    return GM(c.old, c.self)


def keeps_iters(o, n):
    return [('iterators stay where they are', TG, FA([o_], Implies(Select(o.its, o_), And(Select(n.its, o_), Select(n.it, o_) == Select(o.it, o_))), [Select(o.its, o_), Select(n.it, o_)]))]


def same_rows(o, n):
    return And(n.rows == o.rows, n.par == o.par, n.kids == o.kids, n.val == o.val)


# --------------------------------------------------------------- finding the row of a path
def _search(L):
    g = GM(L.cur, L.arg('self'))
    o = GM(L.pre, L.arg('self'))
    it = L.local('iter')
    path = L.arg('path')
    e = V.elems(path)
    a = If(S.init(e) == nil, none, g.row(tup(S.init(e))))
    K = Select(g.kids, a)
    r = Select(g.it, it)
    return keeps_iters(o, g) + [
        ('it stands on a row on the level of the path', TG, Or(it == none, And(V.is_ref(it), Select(g.its, it), mem(K, r)))),
        ('the rows before it are other ones', TG, FA([r_], Implies(And(mem(K, r_), Or(it == none, idx(K, r_) < idx(K, r))), Select(Select(g.val, r_), vint(IntVal(0))) != L.local('nid')), [mem(K, r_)]))]


def _find_ens(c):
    n, o = GM(c.new, c.self), gm(c)
    path = c.arg('path')
    return [('the iterator stands on the row of the path', TG, If(path == tup(nil), c.result == none, n.at_row(c.result, n.row(path))))] + n.caches()[:1] + keeps_iters(o, n)


FMOD = lambda c: [(TM + 'cache_paths', c.self), (TM + 'count', c.self), (TM + 'count2', c.self), '$its', '$it']
add(Contract(TM + 'my_get_iter', requires=lambda c: gm(c).inv() + [('the path is held', TG, Or(c.arg('path') == tup(nil), Select(gm(c).held, c.arg('path'))))],
             ensures=_find_ens, modifies=FMOD, loops=[LoopSpec(_search, 'search')]))


# --------------------------------------------------------------- announcements
def _row_loop(L):
    g = GM(L.cur, L.arg('self'))
    row = L.local('row')
    return [('the values so far are those of the columns seen', TG, And(length(row) == L.i, FA([j], Implies(And(j >= 0, j < L.i), at(row, j) == g.colval(j, L.local('node'))), [at(row, j)])))]


def _add_ens(c):
    n, o = GM(c.new, c.self), gm(c)
    return n.inv() + [('the path is held, its row is right', TG, And(n.held == Store(o.held, c.arg('path'), BoolVal(True)), n.fresh == Store(o.fresh, c.arg('path'), BoolVal(True))))]


def _add_ghost(c):
    H = Heap(c.ex, c.path.heap) if False else c.new
    o = gm(c)
    r = c.new.leaf('$newrow')
    m, path = c.self, c.arg('path')
    return {'$rheld': Store(c.old.leaf('$rheld'), m, Store(o.held, path, BoolVal(True))), '$rmap': Store(c.old.leaf('$rmap'), m, Store(o.map, path, r)),
            '$rpath': Store(c.old.leaf('$rpath'), m, Store(o.pathof, r, path)), '$rfresh': Store(c.old.leaf('$rfresh'), m, Store(o.fresh, path, BoolVal(True)))}


def named(c):
    e = V.elems(c.arg('path'))
    return [('the path leads to the node', TG, And(e != nil, S.last(e) == c.node_id, V.is_atom(c.node_id)))]


def known(c):
    g = gm(c)
    return g.wiring() + [('the node is in the tree', TG, And(g.tv.has(c.node_id), c.node_id != none, c.old('_Node.node_id', g.tv.node(c.node_id)) == c.node_id))]


RMOD = lambda c: [(g, c.self) for g in ('$rows', '$rpar', '$rkids', '$rval', '$rheld', '$rmap', '$rpath', '$rfresh')] + [(TM + 'cache_position', c.self), '$newrow']
add(Contract(TM + 'add_task', requires=lambda c: gm(c).inv() + known(c) + named(c) + [('the path is new, the one above it is held', TG, addable(gm(c).held, c.arg('path')))],
             ensures=_add_ens, ghost=_add_ghost, modifies=lambda c: FMOD(c) + RMOD(c), result='none', ext=column, loops=[LoopSpec(_row_loop, 'columns')]))


def _rem_ens(c):
    n, o = GM(c.new, c.self), gm(c)
    return n.inv() + [('the path is not held any more', TG, And(n.held == Store(o.held, c.arg('path'), BoolVal(False)), n.fresh == o.fresh))]


def _rem_ghost(c):
    o = gm(c)
    return {'$rheld': Store(c.old.leaf('$rheld'), c.self, Store(o.held, c.arg('path'), BoolVal(False)))}


def deletable(g, path):
    return And(Select(g.held, path), FA([p_], Implies(Select(g.held, p_), S.init(V.elems(p_)) != V.elems(path)), [Select(g.held, p_)]))


add(Contract(TM + 'remove_task', requires=lambda c: gm(c).inv() + named(c) + [('the path is held, no path below it is', TG, deletable(gm(c), c.arg('path')))],
             ensures=_rem_ens, ghost=_rem_ghost, modifies=lambda c: FMOD(c) + [(g, c.self) for g in ('$rows', '$rkids', '$rheld')] + [(TM + 'cache_position', c.self)], result='none'))


def _upd_loop(L):
    g, o = GM(L.cur, L.arg('self')), GM(L.pre, L.arg('self'))
    r = g.row(L.arg('path'))
    node = L.local('node')
    return [('the values written so far are those of the columns seen', TG, FA([j], Implies(And(j >= 0, j < L.i), Select(Select(g.val, r), vint(j)) == g.colval(j, node)), [Select(Select(g.val, r), vint(j))])),
            ('the other rows stay', TG, FA([r_], Implies(r_ != r, Select(g.val, r_) == Select(o.val, r_)), [Select(g.val, r_)])),
            ('the id stays', TG, Select(Select(g.val, r), vint(IntVal(0))) == Select(Select(o.val, r), vint(IntVal(0))))]


def _upd_ghost(c):
    return {'$rfresh': Store(c.old.leaf('$rfresh'), c.self, Store(gm(c).fresh, c.arg('path'), BoolVal(True)))}


def shown(c):
    w = WV(c.old, gm(c).w)
    return If(w.static, w.t.has(c.node_id), w.f.has(c.node_id))


def always(g):
    return [('column functions yield a value', TG, FA([r_, o_], Select(Select(g.col, r_), o_) != none, [Select(Select(g.col, r_), o_)]))]


add(Contract(TM + 'update_task', requires=lambda c: gm(c).inv() + known(c) + named(c) + always(gm(c)) + [('the path is held', TG, Select(gm(c).held, c.arg('path'))), ('the node is shown', TG, shown(c))],
             ensures=lambda c: GM(c.new, c.self).inv() + [('the row is right', TG, GM(c.new, c.self).fresh == Store(gm(c).fresh, c.arg('path'), BoolVal(True))), ('the same paths are held', TG, GM(c.new, c.self).held == gm(c).held)],
             ghost=_upd_ghost, modifies=lambda c: FMOD(c) + [('$rval', c.self), ('$rfresh', c.self)], result='none', ext=column, loops=[LoopSpec(_upd_loop, 'columns')],
             callmap={'ViewTree.is_displayed': lambda c: [(BoolVal(True), 'ViewTree.is_displayed#mid')]}))


def _mid(c):
    w = WV(c.old, c.self)
    return [('it tells whether the node is shown', ('C12', 'C18'), truthy(c.result) == If(w.static, w.t.has(c.node_id), w.f.has(c.node_id)))]


add(Contract('ViewTree.is_displayed#mid', body='ViewTree.is_displayed', requires=lambda c: WV(c.old, c.self).inv()[:1], ensures=_mid, callmap={'FilteredTree.is_displayed': lambda c: [(BoolVal(True), 'FilteredTree.is_displayed#mid')]}))
add(Contract('FilteredTree.is_displayed#mid', body='FilteredTree.is_displayed', ensures=lambda c: [('it tells whether the node is shown', ('C12', 'C18'), truthy(c.result) == Select(c.old('FilteredTree.nodes.dom', c.self), c.node_id))]))


# --------------------------------------------------------------- setting up
def closure(ex, p, fv, t):
    """a column function given as a lambda computes what its body says"""
    a = [x.arg for x in fv.node.args.args]
    if len(a) != 1:
        return
    o = fresh('node', V)
    q = p.copy()
    n0 = len(q.pc)
    res = ex.call(q, fv, [VV(o, '_Node')], {}, fv.node.lineno)
    if len(res) != 1 or res[0][0] != 'ok':
        return
    body = And(Select(Select(lf(ex, p, '$col'), t), o) == ex.to_v(res[0][2], res[0][1]), *res[0][2].pc[n0:])
    p.pc.append(FA([o_], z3.substitute(body, (o, o_)), [Select(Select(lf(ex, p, '$col'), t), o_)]))


column.closure = closure


def new_store(ex, p, pos, kw, line):
    """Gtk.TreeStore(*types): a store without rows, with a column of each type"""
    fr = p.frame
    m = None
    while fr is not None and m is None:
        m = fr.args.get('self')
        fr = fr.parent
    if not (isinstance(m, VV) and m.cls == 'TreeModel') or kw:
        raise Unsupported('super().__init__')
    m = m.t
    n = IntVal(0)
    for a in pos:
        n = n + (length(ex.iter_seq(p, a[1])[0]) if isinstance(a, tuple) else 1)
    put(ex, p, '$rcols', m, n)
    put(ex, p, '$rows', m, T.EMPTY)
    put(ex, p, '$rkids', m, z3.K(V, nil))
    return [('ok', VV(none), p)]


HOOKS['super.__init__'] = new_store


def _init_req(c):
    t = c.arg('types')
    return [('the model is an object', And(V.is_ref(c.self), c.self != none)),
            ('columns are pairs of a type and a function', FA([j], Implies(And(j >= 0, j < length(t)), And(V.is_tup(at(t, j)), length(V.elems(at(t, j))) == 2)), [at(t, j)]))]


def _init_ens(c):
    n = GM(c.new, c.self)
    return n.inv() + [('it holds no path, and has no row', TG, And(n.held == T.EMPTY, n.rows == T.EMPTY)), ('it is a model of the view', TG, n.w == c.tree),
                      ('its columns are the id of the node and those given', TG, And(length(n.types) == length(c.arg('types')) + 1, FA([j], Implies(And(j >= 0, j < length(c.arg('types'))), at(n.types, j + 1) == at(c.arg('types'), j)), [at(c.arg('types'), j)])))]


add(Contract(TM + '__init__', params={'types': 'list', 'tree': ('obj', 'ViewTree')}, requires=_init_req, ensures=_init_ens, result='none', ext=column,
             ghost=lambda c: {g: Store(c.old.leaf(g), c.self, T.EMPTY) for g in ('$rheld', '$rfresh')},
             modifies=lambda c: [(TM + f, c.self) for f in SCHEMA['TreeModel']] + [(g, c.self) for g in ('$rows', '$rkids', '$rcols', '$rheld', '$rfresh')]))

add(Contract(TM + 'set_column_function', params={'column_num': 'int'}, requires=lambda c: gm(c).inv() + [('a column after the first', c.arg('column_num') >= 1)], result='bool',
             ensures=lambda c: GM(c.new, c.self).inv() + [('it tells whether there is such a column', TG, c.result == (c.arg('column_num') < length(gm(c).types))),
                                                          ('the function of the column is replaced', TG, Implies(c.result, And(at(V.elems(at(GM(c.new, c.self).types, c.arg('column_num'))), IntVal(1)) == c.column_func,
                                                              FA([j], Implies(j != c.arg('column_num'), at(GM(c.new, c.self).types, j) == at(gm(c).types, j)), [at(GM(c.new, c.self).types, j)]))))],
             ghost=lambda c: {'$rfresh': Store(c.old.leaf('$rfresh'), c.self, T.EMPTY)}, modifies=lambda c: [(TM + 'types', c.self), ('$rfresh', c.self)]))


HANDLERS = [('node-added-inview', 'add_task'), ('node-deleted-inview', 'remove_task'), ('node-modified-inview', 'update_task')]


def _conn_ens(c):
    g = gm(c)
    r = RG(c.new, 'ViewTree', g.w)
    o = RG(c.old, 'ViewTree', g.w)
    j_ = z3.Const('j_', V)
    only = lambda ev, h: FA([j_], And(*[Implies(And(r.has(lit(ev), j_), r.f(lit(ev), j_) == bound(TM + h2, c.self)), And(BoolVal(h2 == h), j_ == k_)) for _, h2 in HANDLERS]), [Select(Select(r.keys, lit(ev)), j_)])
    return [('%s is heard by %s, once' % (ev, h), TG, z3.Exists([k_], And(r.has(lit(ev), k_), Not(o.has(lit(ev), k_)), r.f(lit(ev), k_) == bound(TM + h, c.self), only(ev, h)), patterns=[Select(Select(r.keys, lit(ev)), k_)])) for ev, h in HANDLERS] + [
        ('the other listeners stay', ('C07', 'C18'), FA([a_, k_], Implies(o.has(a_, k_), And(r.has(a_, k_), r.f(a_, k_) == o.f(a_, k_))), [Select(Select(r.keys, a_), k_)]))] + C['ViewTree.get_current_state'].ensures(_conn(c))


def apart(c):
    o = RG(c.old, 'ViewTree', gm(c).w)
    return [('it is not connected yet', FA([a_, k_], Implies(o.has(a_, k_), And(*[o.f(a_, k_) != bound(TM + h, c.self) for _, h in HANDLERS])), [Select(Select(o.keys, a_), k_)]))]


def _conn(c):
    from .cfilter import via
    return via(c, 'ViewTree', self=gm(c).w)


add(Contract(TM + 'connect_model', result='none', requires=lambda c: C['ViewTree.get_current_state'].requires(_conn(c)) + apart(c), ensures=_conn_ens,
             modifies=lambda c: [('ViewTree.__cllbcks', gm(c).w)] + C['ViewTree.get_current_state'].modifies(_conn(c))))


# --------------------------------------------------------------- from an announcement of the view to the model
# $model: a connected model of the view; $hkey: the key under which each event of the view has its handler
GHOST.update({'$model': V, '$hkey': VV_})
INVIEW = {'added': 'node-added-inview', 'deleted': 'node-deleted-inview', 'modified': 'node-modified-inview'}
HMOD = lambda m: [(TM + f, m) for f in ('cache_paths', 'cache_position', 'count', 'count2')] + [(g, m) for g in ('$rows', '$rpar', '$rkids', '$rval', '$rheld', '$rmap', '$rpath', '$rfresh')] + ['$its', '$it', '$newrow', '$calls']


def to_handler(ex, p, f, pos, kw, line):
    """a registered listener: the handlers of the model do what their contracts say, other listeners leave the model alone"""
    if len(pos) != 2 or kw:
        return HOOKS0['call'](ex, p, f, pos, kw, line)
    m = lf(ex, p, '$model')
    out, rest = [], [p]
    for ev, h in HANDLERS:
        todo, rest = rest, []
        for q in todo:
            for b, r in ex.fork(q, f.t == bound(TM + h, m)):
                if b:
                    out += ex.apply_contract(r, ex.src.method('TreeModel', h), C[TM + h], {'self': VV(m, 'TreeModel'), 'node_id': pos[0], 'path': pos[1]}, line)
                else:
                    rest.append(r)
    for q in rest:
        out += HOOKS0['call'](ex, q, f, pos, kw, line)
    return out


def at_model(c, **kw):
    from .cfilter import via
    return via(c, 'TreeModel', self=c.old.leaf('$model'), **kw)


def connected(H, w):
    """each event of the view has exactly one listener that is a handler of the model: the handler of that event"""
    m, hk = H.leaf('$model'), H.leaf('$hkey')
    r = RG(H, 'ViewTree', w)
    return [('%s is heard by %s, once' % (ev, h), TG, And(
        r.has(lit(ev), Select(hk, lit(ev))),
        *[FA([k_], (And(r.has(lit(ev), k_), r.f(lit(ev), k_) == bound(TM + h2, m))) == (And(k_ == Select(hk, lit(ev)), BoolVal(h2 == h))), [Select(Select(r.keys, lit(ev)), k_), Select(Select(r.fn, lit(ev)), k_)]) for _, h2 in HANDLERS]))
        for ev, h in HANDLERS]


def _em_req(c):
    m = at_model(c)
    g = gm(m)
    ev = c.event
    return C['ViewTree.__emit'].requires(c) + [('an event of a node in the view', Or(*[ev == lit(e) for e, _ in HANDLERS])), ('a model of this view', g.w == c.self)] + connected(c.old, c.self) + [
        tuple(k[:-1]) + (Implies(ev == lit(e), k[-1]),) for e, h in HANDLERS for k in [norm_clause(q) for q in C[TM + h].requires(m)]]


def effect(c, o, n, path, ev, events, tag=TG):
    T_, F_ = BoolVal(True), BoolVal(False)
    return [('the model holds what was announced', tag, And(
        n.held == If(ev == lit(events[0]), Store(o.held, path, T_), If(ev == lit(events[1]), Store(o.held, path, F_), o.held)),
        n.fresh == If(Or(ev == lit(events[0]), ev == lit(events[2])), Store(o.fresh, path, T_), o.fresh)))]


def _em_loop(L):
    H = L.cur
    m = H.leaf('$model')
    o, n = GM(L.old, m), GM(L.cur, m)
    ev = L.arg('event')
    E = T.enum(Select(RG(L.old, 'ViewTree', L.arg('self')).keys, ev))
    ran = idx(E, Select(H.leaf('$hkey'), ev)) < L.i
    e = effect(None, o, n, L.arg('path'), ev, [a for a, _ in HANDLERS])[0]
    return n.inv() + [(e[0] + ', once its handler ran', TG, If(ran, e[2], And(n.held == o.held, n.fresh == o.fresh)))]


add(Contract('ViewTree.__emit#model', body='ViewTree.__emit', self_cls='ViewTree', result='none', requires=_em_req, ext=to_handler, loops=[LoopSpec(_em_loop, 'listeners')],
             modifies=lambda c: HMOD(c.old.leaf('$model')),
             ensures=lambda c: GM(c.new, c.old.leaf('$model')).inv() + effect(c, gm(at_model(c)), GM(c.new, c.old.leaf('$model')), c.arg('path'), c.event, [a for a, _ in HANDLERS])))


def to_view(ex, p, f, pos, kw, line):
    """the listener of a filtered tree is the emitter of its view"""
    if len(pos) != 2 or kw:
        return HOOKS0['call'](ex, p, f, pos, kw, line)
    m = lf(ex, p, '$model')
    w = Heap(ex, p.heap)(TM + 'tree', m)
    out, rest = [], [p]
    for ev, h in HANDLERS:
        todo, rest = rest, []
        for q in todo:
            for b, r in ex.fork(q, f.t == emits(w, ev)):
                if b:
                    out += ex.apply_contract(r, ex.src.method('ViewTree', '__emit'), C['ViewTree.__emit#model'], {'self': VV(w, 'ViewTree'), 'event': VV(lit(ev)), 'node_id': pos[0], 'path': pos[1], 'neworder': VV(none)}, line)
                else:
                    rest.append(r)
    for q in rest:
        out += HOOKS0['call'](ex, q, f, pos, kw, line)
    return out


def mirrored(H, f):
    """the model of the view holds the paths announced, and the rows announced since their node changed are right"""
    g = GM(H, H.leaf('$model'))
    w = WV(H, g.w)
    cb, cv = H('FilteredTree.cllbcks.dom', f), H('FilteredTree.cllbcks.val', f)
    mir, stale = H('$mir', f), H('$stale', f)
    return g.inv() + always(g) + w.inv()[:1] + [
        ('a model of this view', TG, And(Not(w.static), w.ft == f)),
        ('the filtered tree tells its view', TG, And(*[And(Select(cb, lit(a)), Select(cv, lit(a)) == tup(seq(emits(g.w, b), none, none))) for a, b in INVIEW.items()])),
        ('the model holds the paths announced', TG, g.held == mir),
        ('the rows announced since their node changed are right', TG, FA([p_], Implies(And(Select(mir, p_), Not(Select(stale, p_))), Select(g.fresh, p_)), [Select(stale, p_)]))] + connected(H, g.w)


def _cm_req(c):
    f = c.self
    t = TV(c.old, c.old('FilteredTree.tree', f))
    return C['FilteredTree.callback'].requires(c) + mirrored(c.old, f) + t.W0() + [('one of the three events', Or(*[c.event == lit(e) for e in INVIEW]))]


def _cm_ens(c):
    return mirrored(c.new, c.self)


_cb = C['FilteredTree.callback']
add(Contract('FilteredTree.callback#model', body='FilteredTree.callback', result='none', requires=_cm_req, ensures=_cm_ens, ghost=_cb.ghost, ext=to_view, loops=_cb.loops,
             modifies=lambda c: _cb.modifies(c) + [x for x in HMOD(c.old.leaf('$model')) if x != '$calls']))
