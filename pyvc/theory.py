"""Logical background theory.

Values, finite sequences and graphs as SMT sorts.  Everything about sequences
is *defined* by recursion over nil/snoc (DEFS) and every further fact (LEMMAS)
is a theorem discharged by induction on each run (see prove_lemmas).
The only definitional facts not derived are those of LFP_DEFS / ACYC_DEFS,
which define "ancestor" as a least fixed point and "acyclic" as the existence
of a rank function.
"""
import sys
import z3
from z3 import (And, Or, Not, Implies, If, ForAll, Exists, Select, Store, Function,
                IntSort, BoolSort, ArraySort, Const, Int, Bool, DeclareSort, K, BoolVal, IntVal)

z3.set_param('warning', False)
# S: finite sequences, generated by nil and snoc.  An uninterpreted sort (so that the solver never splits on
# its constructors); generatedness is used only as the induction principle in prove_lemmas.
S = z3.DeclareSort('S')
Vd = z3.Datatype('V')
Vd.declare('none')
Vd.declare('vbool', ('b', z3.BoolSort()))
Vd.declare('vint', ('i', z3.IntSort()))
Vd.declare('atom', ('a', z3.IntSort()))       # strings and other immutable atoms
Vd.declare('ref', ('r', z3.IntSort()))        # object identities
Vd.declare('tup', ('elems', S))               # tuples
V = Vd.create()
S.nil = z3.Const('nil', S)
S.snoc = z3.Function('snoc', S, V, S)
S.init = z3.Function('init', S, S)
S.last = z3.Function('last', S, V)
none, vbool, vint, atom, ref, tup = V.none, V.vbool, V.vint, V.atom, V.ref, V.tup
nil, snoc = S.nil, S.snoc
VB = ArraySort(V, BoolSort())
B, I = BoolSort(), IntSort()

length = Function('len', S, I)
mem = Function('mem', S, V, B)
nodup = Function('nodup', S, B)
rem = Function('rem', S, V, S)          # remove first occurrence
take = Function('take', S, I, S)
at = Function('at', S, I, V)
tail = Function('tail', S, S)
cat = Function('cat', S, S, S)
rev = Function('rev', S, S)
fil = Function('fil', S, VB, S)         # filter by a set
pw = Function('pw', S, V, S)            # path wrap: every (tuple) element extended by one value
idx = Function('idx', S, V, I)          # index of first occurrence
cnt = Function('cnt', S, V, I)          # number of occurrences
enum = Function('enum', VB, S)          # some enumeration of a finite set (facts added where used)
vmap = Function('vmap', S, ArraySort(V, V), S)   # a sequence mapped through an array
fcalls = Function('fcalls', S, S, S)    # calls of every function of a sequence with the same arguments
startswith = Function('startswith', V, V, B)
substr1 = Function('substr1', V, V)     # a string without its first character

s, t, u = z3.Consts('s t u', S)
x, y, z = z3.Consts('x y z', V)
i, j = z3.Ints('i j')
k_ = z3.Const('k_!', V)
w = Const('w', VB)
wv = Const('wv', ArraySort(V, V))

_atoms = {'': 0}


# --------------------------------------------------------------- drag and drop (cwidget.py)
found = Function('found', S, V, S)               # the iterators of those textual paths that lead to a row of the model
drops = Function('drops', S, V, V, S, S)         # the requests after moving each iterator still valid when its turn comes
gives = Function('gives', S, V, V, V, S, S)      # the calls after giving each row to a function
gvalue = Function('gvalue', V, V, V, V)
gparsed = Function('gparsed', V, V, V)           # the iterator of a textual path
gisrow = Function('gisrow', V, V, B)             # a textual path leads to a row
gvalid = Function('gvalid', V, V, S, B)          # the iterator stands on a row after these requests


def lit(st):
    """atom for a string literal"""
    if st not in _atoms:
        _atoms[st] = len(_atoms)
    return atom(IntVal(_atoms[st]))


def seq(*xs):
    r = nil
    for e in xs:
        r = snoc(r, e)
    return r


def tuple_(*xs):
    return tup(seq(*xs))


def tup_ext(el, src, i):
    """x when el is the tuple src extended by x (x free of i), else None"""
    w = z3.Const('tx!', V)
    e = z3.simplify(z3.substitute(el, (src, w)))
    for pat in (lambda b: tup(snoc(V.elems(w), b)),):
        if e.decl().eq(V.tup) and e.num_args() == 1:
            a = e.arg(0)
            if a.decl().eq(cat) and a.arg(0).eq(V.elems(w)) and a.arg(1).decl().eq(snoc) and a.arg(1).arg(0).eq(nil):
                b = a.arg(1).arg(1)
            elif a.decl().eq(snoc) and a.arg(0).eq(V.elems(w)):
                b = a.arg(1)
            else:
                return None
            free = str(b)
            if 'tx!' not in free and str(i) not in free:
                return b
    return None


def truthy(v):
    return Not(Or(v == none, v == vbool(BoolVal(False)), v == vint(IntVal(0)),
                  v == atom(IntVal(0)), v == tup(nil)))


def FA(vs, body, pats=None, qid=None):
    vs = list(vs)
    if qid is None:
        f = sys._getframe(1)
        qid = '%s_%d_%s' % (f.f_code.co_name, f.f_lineno, vs[0])
    if pats is None:
        return ForAll(vs, body, qid=qid)
    ps = []
    for p in pats:
        ps.append(z3.MultiPattern(*p) if isinstance(p, tuple) else p)
    try:
        return ForAll(vs, body, patterns=ps, qid=qid)
    except z3.Z3Exception:      # a conditional inside the pattern: leave the choice to the solver
        return ForAll(vs, body, qid=qid)


DEFS = [
    FA([s, x], And(S.init(snoc(s, x)) == s, S.last(snoc(s, x)) == x, snoc(s, x) != nil), [snoc(s, x)]),
    length(nil) == 0,
    FA([s, x], length(snoc(s, x)) == length(s) + 1, [snoc(s, x)]),
    FA([x], Not(mem(nil, x)), [mem(nil, x)]),
    FA([s, x, y], mem(snoc(s, y), x) == Or(mem(s, x), x == y), [mem(snoc(s, y), x)]),
    nodup(nil),
    FA([s, x], nodup(snoc(s, x)) == And(nodup(s), Not(mem(s, x))), [nodup(snoc(s, x))]),
    FA([x], rem(nil, x) == nil, [rem(nil, x)]),
    FA([s, x, y], rem(snoc(s, y), x) == If(mem(s, x), snoc(rem(s, x), y), If(x == y, s, snoc(s, y))), [rem(snoc(s, y), x)]),
    FA([i], take(nil, i) == nil, [take(nil, i)]),
    FA([s, y, i], take(snoc(s, y), i) == If(i > length(s), snoc(s, y), take(s, i)), [take(snoc(s, y), i)]),
    FA([s, y, i], at(snoc(s, y), i) == If(i == length(s), y, at(s, i)), [at(snoc(s, y), i)]),
    tail(nil) == nil,
    FA([s, y], tail(snoc(s, y)) == If(s == nil, nil, snoc(tail(s), y)), [tail(snoc(s, y))]),
    FA([s], cat(s, nil) == s, [cat(s, nil)]),
    FA([s, t, y], cat(s, snoc(t, y)) == snoc(cat(s, t), y), [cat(s, snoc(t, y))]),
    rev(nil) == nil,
    FA([s, y], rev(snoc(s, y)) == cat(snoc(nil, y), rev(s)), [rev(snoc(s, y))]),
    FA([w], fil(nil, w) == nil, [fil(nil, w)]),
    FA([s, y, w], fil(snoc(s, y), w) == If(Select(w, y), snoc(fil(s, w), y), fil(s, w)), [fil(snoc(s, y), w)]),
    FA([x], pw(nil, x) == nil, [pw(nil, x)]),
    FA([s, x, y], pw(snoc(s, y), x) == snoc(pw(s, x), tup(snoc(V.elems(y), x))), [pw(snoc(s, y), x)]),
    FA([s, x, y], idx(snoc(s, y), x) == If(mem(s, x), idx(s, x), length(s)), [idx(snoc(s, y), x)]),
    FA([wv], vmap(nil, wv) == nil, [vmap(nil, wv)]),
    FA([s, y, wv], vmap(snoc(s, y), wv) == snoc(vmap(s, wv), Select(wv, y)), [vmap(snoc(s, y), wv)]),
    FA([t], fcalls(nil, t) == nil, [fcalls(nil, t)]),
    FA([x], found(nil, x) == nil, [found(nil, x)]),
    FA([s, x, y], found(snoc(s, y), x) == If(gisrow(x, y), snoc(found(s, x), gparsed(x, y)), found(s, x)), [found(snoc(s, y), x)]),
    FA([x, z, t], drops(nil, x, z, t) == t, [drops(nil, x, z, t)]),
    FA([s, x, y, z, t], drops(snoc(s, y), x, z, t) == If(And(truthy(y), gvalid(x, y, drops(s, x, z, t))),
                                                         snoc(drops(s, x, z, t), tup(seq(lit('move_node'), gvalue(x, y, vint(IntVal(0))), z))), drops(s, x, z, t)), [drops(snoc(s, y), x, z, t)]),
    FA([x, k_, z, t], gives(nil, x, k_, z, t) == t, [gives(nil, x, k_, z, t)]),
    FA([s, x, y, k_, z, t], gives(snoc(s, y), x, k_, z, t) == snoc(gives(s, x, k_, z, t), tup(seq(k_, gvalue(x, y, vint(IntVal(0))), z))), [gives(snoc(s, y), x, k_, z, t)]),
    FA([s, y, t], fcalls(snoc(s, y), t) == snoc(fcalls(s, t), tup(cat(snoc(nil, y), t))), [fcalls(snoc(s, y), t)]),
    FA([x], cnt(nil, x) == 0, [cnt(nil, x)]),
    FA([s, x, y], cnt(snoc(s, y), x) == cnt(s, x) + If(x == y, 1, 0), [cnt(snoc(s, y), x)]),
]

# (name, variables, body, patterns, induction variable or None, names of lemmas used)
LEMMAS = [
    ('len_nonneg', [s], length(s) >= 0, [length(s)], s),
    ('len0_nil', [s], Implies(length(s) == 0, s == nil), [length(s)], s),
    ('rem_mem_other', [s, x, y], Implies(x != y, mem(rem(s, x), y) == mem(s, y)), [mem(rem(s, x), y)], s),
    ('rem_mem_sub', [s, x, y], Implies(mem(rem(s, x), y), mem(s, y)), [mem(rem(s, x), y)], s),
    ('rem_notin', [s, x], Implies(Not(mem(s, x)), rem(s, x) == s), [rem(s, x)], s),
    ('rem_nodup', [s, x], Implies(nodup(s), And(nodup(rem(s, x)), Not(mem(rem(s, x), x)))), [rem(s, x)], s),
    ('rem_len', [s, x], Implies(mem(s, x), length(rem(s, x)) == length(s) - 1), [rem(s, x)], s),
    ('at_mem', [s, i], Implies(And(0 <= i, i < length(s)), mem(s, at(s, i))), [at(s, i)], s),
    ('take_0', [s, i], Implies(i <= 0, take(s, i) == nil), [take(s, i)], s),
    ('take_all', [s, i], Implies(i >= length(s), take(s, i) == s), [take(s, i)], s),
    ('take_step', [s, i], Implies(And(0 <= i, i < length(s)), take(s, i + 1) == snoc(take(s, i), at(s, i))),
     [(take(s, i), at(s, i))], s),
    ('take_len', [s, i], Implies(And(0 <= i, i <= length(s)), length(take(s, i)) == i), [take(s, i)], s),
    ('take_mem', [s, i, x], Implies(mem(take(s, i), x), mem(s, x)), [mem(take(s, i), x)], s),
    ('take_nodup', [s, i], Implies(nodup(s), nodup(take(s, i))), [take(s, i)], s),
    ('at_fresh', [s, i], Implies(And(nodup(s), 0 <= i, i < length(s)), Not(mem(take(s, i), at(s, i)))),
     [(take(s, i), at(s, i))], s),
    ('nodup_at', [s, i, j], Implies(And(nodup(s), 0 <= i, i < j, j < length(s)), at(s, i) != at(s, j)),
     [(nodup(s), at(s, i), at(s, j))], s),
    ('tail_mem', [s, x], Implies(s != nil, mem(s, x) == Or(x == at(s, 0), mem(tail(s), x))), [mem(tail(s), x)], s),
    ('tail_len', [s], Implies(s != nil, length(tail(s)) == length(s) - 1), [tail(s)], s),
    ('tail_nodup', [s], Implies(nodup(s), nodup(tail(s))), [tail(s)], s),
    ('tail_head_notin', [s], Implies(And(nodup(s), s != nil), Not(mem(tail(s), at(s, 0)))), [tail(s)], s),
    ('tail_at', [s, i], Implies(And(0 <= i, i < length(s) - 1), at(tail(s), i) == at(s, i + 1)), [at(tail(s), i)], s),
    ('cat_nil_l', [t], cat(nil, t) == t, [cat(nil, t)], t),
    ('cat_mem', [s, t, x], mem(cat(s, t), x) == Or(mem(s, x), mem(t, x)), [mem(cat(s, t), x)], t),
    ('cat_len', [s, t], length(cat(s, t)) == length(s) + length(t), [cat(s, t)], t),
    ('cat_at', [s, t, i], Implies(And(i >= 0, i < length(s) + length(t)), at(cat(s, t), i) == If(i < length(s), at(s, i), at(t, i - length(s)))), [at(cat(s, t), i)], t),
    ('cat_assoc', [s, t, u], cat(cat(s, t), u) == cat(s, cat(t, u)), [cat(cat(s, t), u)], u),
    ('rev_mem', [s, x], mem(rev(s), x) == mem(s, x), [mem(rev(s), x)], s),
    ('rev_len', [s], length(rev(s)) == length(s), [rev(s)], s),
    ('cat_nodup1', [s, x], nodup(cat(seq(x), s)) == And(nodup(s), Not(mem(s, x))), [nodup(cat(seq(x), s))], s),
    ('rev_nodup', [s], nodup(rev(s)) == nodup(s), [rev(s)], s),
    ('fil_mem', [s, w, x], mem(fil(s, w), x) == And(mem(s, x), Select(w, x)), [mem(fil(s, w), x)], s),
    ('fil_nodup', [s, w], Implies(nodup(s), nodup(fil(s, w))), [fil(s, w)], s),
    ('fil_len', [s, w], length(fil(s, w)) <= length(s), [fil(s, w)], s),
    ('idx_bounds', [s, x], Implies(mem(s, x), And(0 <= idx(s, x), idx(s, x) < length(s), at(s, idx(s, x)) == x)), [idx(s, x)], s),
    ('idx_at', [s, i], Implies(And(nodup(s), 0 <= i, i < length(s)), idx(s, at(s, i)) == i), [idx(s, at(s, i))], s),
    ('cnt_pos', [s, x], And(cnt(s, x) >= 0, (cnt(s, x) > 0) == mem(s, x)), [cnt(s, x)], s),
    ('cnt_nodup', [s, x], Implies(nodup(s), cnt(s, x) <= 1), [cnt(s, x)], s),
    ('cnt_cat', [s, t, x], cnt(cat(s, t), x) == cnt(s, x) + cnt(t, x), [cnt(cat(s, t), x)], t),
    ('cnt_rem', [s, x, y], cnt(rem(s, y), x) == cnt(s, x) - If(And(x == y, mem(s, y)), 1, 0), [cnt(rem(s, y), x)], s),
    ('notnil_len', [s], Implies(s != nil, length(s) > 0), [length(s)], s),
    ('last_at', [s], Implies(s != nil, And(at(s, length(s) - 1) == S.last(s), mem(s, S.last(s)), take(s, length(s) - 1) == S.init(s),
                                           length(S.init(s)) == length(s) - 1)), [S.last(s)], s),
]

LEMMAS.append(('len2', [x], Implies(length(V.elems(x)) == 2, V.elems(x) == seq(at(V.elems(x), 0), at(V.elems(x), 1))), [length(V.elems(x))], 'len2'))
LEMMAS.append(('last_snoc', [s], Implies(s != nil, s == snoc(S.init(s), S.last(s))), [S.last(s)], s))
LEMMAS.append(('cnt_take_lt', [s, i], Implies(And(0 <= i, i < length(s)), cnt(take(s, i), at(s, i)) < cnt(s, at(s, i))), [(take(s, i), at(s, i))], s))
LEMMAS.append(('cons_tail', [s], Implies(s != nil, cat(snoc(nil, at(s, 0)), tail(s)) == s), [tail(s)], s))
LEMMAS.append(('vmap_len', [s, wv], length(vmap(s, wv)) == length(s), [vmap(s, wv)], s))
LEMMAS.append(('vmap_at', [s, wv, i], Implies(And(0 <= i, i < length(s)), at(vmap(s, wv), i) == Select(wv, at(s, i))), [at(vmap(s, wv), i)], s))
# sums over sets: filter that keeps everything
_all = Const('wall', VB)
LEMMAS.append(('fil_all', [s, w], Implies(FA([x], Implies(mem(s, x), Select(w, x)), [mem(s, x)]), fil(s, w) == s), [fil(s, w)], s))
LEMMAS.append(('fil_none', [s, w], Implies(FA([x], Implies(mem(s, x), Not(Select(w, x))), [mem(s, x)]), fil(s, w) == nil), [fil(s, w)], s))
LEMMAS.append(('fil_take', [s, w, i], Implies(And(0 <= i, i < length(s)),
               fil(take(s, i + 1), w) == If(Select(w, at(s, i)), snoc(fil(take(s, i), w), at(s, i)), fil(take(s, i), w))),
              [(fil(take(s, i), w), at(s, i))], None))
_sub = lambda body: FA([x], body, [mem(s, x)])
w2 = Const('w2', VB)
LEMMAS.append(('fil_fil', [s, w, w2], Implies(_sub(Implies(And(mem(s, x), Select(w2, x)), Select(w, x))), fil(fil(s, w), w2) == fil(s, w2)), [fil(fil(s, w), w2)], s))
LEMMAS.append(('fil_ext', [s, w, w2], Implies(_sub(Implies(mem(s, x), Select(w, x) == Select(w2, x))), fil(s, w) == fil(s, w2)), [(fil(s, w), fil(s, w2))], s))
LEMMAS.append(('fil_rem_out', [s, w, y], Implies(Not(Select(w, y)), fil(rem(s, y), w) == fil(s, w)), [fil(rem(s, y), w)], s))
LEMMAS.append(('rem_fil', [s, w, y], Implies(And(nodup(s), Not(Select(w, y)), _sub(Implies(And(mem(s, x), x != y), Select(w, x)))), rem(s, y) == fil(s, w)),
               [(rem(s, y), fil(s, w))], s))
LEMMAS.append(('fil_rem2', [s, w, w2, y], Implies(And(nodup(s), Not(Select(w2, y)), _sub(Implies(And(mem(s, x), x != y), Select(w, x) == Select(w2, x)))),
                                                   fil(rem(s, y), w) == fil(s, w2)), [(fil(rem(s, y), w), fil(s, w2))], s))
LEMMAS.append(('fil_del', [s, w, w2, y], Implies(And(nodup(s), Not(Select(w2, y)), _sub(Implies(And(mem(s, x), x != y), Select(w, x) == Select(w2, x)))),
                                                  rem(fil(s, w), y) == fil(s, w2)), [(rem(fil(s, w), y), fil(s, w2))], s))
LEMMAS.append(('notnil_mem', [s], Implies(s != nil, mem(s, S.last(s))), [S.last(s)], s))
LEMMAS.append(('nodup_single', [s, y], Implies(And(nodup(s), mem(s, y), _sub(Implies(mem(s, x), x == y))), s == seq(y)), None, 'single'))
LEMMAS.append(('seq_ext', [s, t], Implies(And(length(s) == length(t), FA([i], Implies(And(0 <= i, i < length(s)), at(s, i) == at(t, i)), [at(s, i)])), s == t),
               None, 'manual'))

# ---------------------------------------------------------------- graphs
Graph = DeclareSort('Graph')
edge = Function('edge', Graph, V, V, B)                 # edge(g, parent, child)
HS = ArraySort(V, S)
HV = ArraySort(V, V)
gof = Function('gof', HS, VB, HV, Graph)                # graph of (parents heap, dom nodes, nodes)
acyc = Function('acyc', Graph, B)
rk = Function('rk', Graph, ArraySort(V, I))
vrk = Function('vrk', Graph, V, ArraySort(V, I))        # the same with one more node on top
anc = Function('anc', Graph, V, V, B)                   # anc(g,x,y): x is y or an ancestor of y
g, h = z3.Consts('g h', Graph)
P_ = Const('P_', HS)
D_ = Const('D_', VB)
N_ = Const('N_', HV)
p, c, q = z3.Consts('p c q', V)
r_ = Const('r_', ArraySort(V, I))

GRAPH_DEFS = [
    FA([s, x], And(S.init(snoc(s, x)) == s, S.last(snoc(s, x)) == x, snoc(s, x) != nil), [snoc(s, x)]),
    FA([P_, D_, N_, p, c], edge(gof(P_, D_, N_), p, c) == And(Select(D_, c), mem(Select(P_, Select(N_, c)), p)),
       [edge(gof(P_, D_, N_), p, c), (gof(P_, D_, N_), mem(Select(P_, Select(N_, c)), p))]),
    # acyclic: elimination of the rank function chosen by rk
    FA([g, p, c], Implies(And(acyc(g), edge(g, p, c)), Select(rk(g), p) < Select(rk(g), c)), [(acyc(g), edge(g, p, c))]),
    FA([g, x], Implies(acyc(g), Select(rk(g), x) >= 0), [Select(rk(g), x)]),
    FA([g, y, x], Select(vrk(g, y), x) == If(x == y, IntVal(-1), Select(rk(g), x)), [Select(vrk(g, y), x)]),
    # anc is closed under edges (part of "least relation closed under ...")
    FA([g, x], anc(g, x, x), [anc(g, x, x)]),
    FA([g, x, p, c], Implies(And(anc(g, x, p), edge(g, p, c)), anc(g, x, c)), [(anc(g, x, p), edge(g, p, c))]),
    FA([g, x, p, c], Implies(And(edge(g, p, c), anc(g, c, x)), anc(g, p, x)), [(anc(g, c, x), edge(g, p, c))]),
]


def acyc_intro(gr, rank):
    """definition of acyclic, introduction by a rank function (an Array V Int) into the natural numbers"""
    return Implies(And(FA([p, c], Implies(edge(gr, p, c), Select(rank, p) < Select(rank, c)), [edge(gr, p, c)]), FA([x], Select(rank, x) >= 0, [Select(rank, x)])), acyc(gr))


def rank_induct(rank, low, A, wit):
    """the integers above a bound are well founded: a set in which every element x has one of lesser rank, wit(x), is empty"""
    return Implies(FA([x], Implies(Select(A, x), And(Select(rank, x) >= low, Select(A, wit(x)), Select(rank, wit(x)) < Select(rank, x))), [Select(A, x)]),
                   FA([x], Not(Select(A, x)), [Select(A, x)]))


def anc_induct(gr, base, A):
    """least-fixed-point principle: A (a set) contains base and is closed under parents => contains every
    ancestor-or-self of base"""
    return Implies(And(Select(A, base), FA([p, c], Implies(And(edge(gr, p, c), Select(A, c)), Select(A, p)), [edge(gr, p, c)])),
                   FA([x], Implies(anc(gr, x, base), Select(A, x)), [anc(gr, x, base)]))


def anc_induct_down(gr, base, A):
    """same principle read downwards: A contains base and is closed under children => contains every
    descendant-or-self of base"""
    return Implies(And(Select(A, base), FA([p, c], Implies(And(edge(gr, p, c), Select(A, p)), Select(A, c)), [edge(gr, p, c)])),
                   FA([x], Implies(anc(gr, base, x), Select(A, x)), [anc(gr, base, x)]))


subg = Function('subg', Graph, Graph, B)       # subg(h,g): every edge of h is one of g
addg = Function('addg', Graph, Graph, V, V, B)  # addg(h,g,p,c): every edge of h is one of g or (p,c)
GRAPH_DEFS += [
    FA([h, g, p, c], Implies(And(subg(h, g), edge(h, p, c)), edge(g, p, c)), [(subg(h, g), edge(h, p, c))]),
    FA([h, g, x, y, p, c], Implies(And(addg(h, g, x, y), edge(h, p, c)), Or(edge(g, p, c), And(p == x, c == y))),
       [(addg(h, g, x, y), edge(h, p, c))]),
]


def subg_def(hh, gg):
    return subg(hh, gg) == FA([p, c], Implies(edge(hh, p, c), edge(gg, p, c)), [edge(hh, p, c)])


def addg_def(hh, gg, a, b):
    return addg(hh, gg, a, b) == FA([p, c], Implies(edge(hh, p, c), Or(edge(gg, p, c), And(p == a, c == b))), [edge(hh, p, c)])


# lemmas over graphs, proved below from the definitions with explicit witnesses
GRAPH_LEMMAS = [
    ('anc_sub', FA([h, g, x, y], Implies(And(subg(h, g), anc(h, x, y)), anc(g, x, y)), [(subg(h, g), anc(h, x, y))])),
    ('anc_acyc', FA([g, x, y], Implies(And(acyc(g), anc(g, x, y)), Or(x == y, Select(rk(g), x) < Select(rk(g), y))), [(acyc(g), anc(g, x, y))])),
    ('acyc_sub', FA([h, g], Implies(And(acyc(g), subg(h, g)), acyc(h)), [(acyc(g), subg(h, g))])),
    ('acyc_add', FA([h, g, p, c], Implies(And(acyc(g), addg(h, g, p, c), Not(anc(g, c, p))), acyc(h)),
                    [(acyc(g), addg(h, g, p, c))])),
]


# ---------------------------------------------------------------- filters
# A filter function is a function of its arguments while a request runs: papply(function, arguments) is its answer.
# says(b, n, x): the filter of name n in bank b exists, node x is in the tree and the filter accepts it.
# allsay(b, s, x): every filter named in s says yes.
Bank = DeclareSort('Bank')
papply = Function('papply', V, S, V)
HB = ArraySort(V, VB)
HHV = ArraySort(V, HV)
bankof = Function('bankof', VB, HV, VB, HV, HV, HV, HB, HHV, VB, HV, Bank)
says = Function('says', Bank, V, V, B)
allsay = Function('allsay', Bank, S, V, B)
_ba = [Const('b_adom', VB), Const('b_aval', HV), Const('b_cdom', VB), Const('b_cval', HV), Const('b_func', HV), Const('b_dic', HV),
       Const('b_pdom', HB), Const('b_pval', HHV), Const('b_tdom', VB), Const('b_tval', HV)]
_ba2 = [Const('b_tdom2', VB), Const('b_tval2', HV)]
b_ = Const('b_', Bank)
EMPTY = K(V, BoolVal(False))


def fparams(dom, val, d):
    return And(Select(Select(dom, d), lit('negate')), truthy(Select(Select(val, d), lit('negate'))))


def fanswer(func, dic, pdom, pval, f, node):
    """does filter object f accept the node object"""
    d = Select(dic, f)
    v = papply(Select(func, f), If(Select(pdom, d) == EMPTY, seq(node), seq(node, lit('parameters'), d)))
    return If(fparams(pdom, pval, d), Not(truthy(v)), truthy(v))


def _says_def():
    ad, av, cd, cv, fu, di, pd, pv, td, tv = _ba
    n = Const('n', V)
    f = If(Select(ad, n), Select(av, n), Select(cv, n))
    return FA(_ba + [n, x], says(bankof(*_ba), n, x) == And(Or(Select(ad, n), Select(cd, n)), Select(td, x), fanswer(fu, di, pd, pv, f, Select(tv, x))),
              [says(bankof(*_ba), n, x)])


FILTER_DEFS = [
    _says_def(),
    FA([b_, x], allsay(b_, nil, x), [allsay(b_, nil, x)]),
    FA([b_, s, y, x], allsay(b_, snoc(s, y), x) == And(allsay(b_, s, x), says(b_, y, x)), [allsay(b_, snoc(s, y), x)]),
]
# ---- lists of filters given by name, existing ones only; lists of filter objects
exsay = Function('exsay', Bank, S, V, B)
objsay = Function('objsay', Bank, S, V, B)
DEFS += FILTER_DEFS


accepts = Function('accepts', Bank, V, V, B)      # a filter object accepts a node
hasf = Function('hasf', Bank, V, B)


def _obj_defs():
    ad, av, cd, cv, fu, di, pd, pv, td, tv = _ba
    n, f = Const('n', V), Const('f', V)
    tk = bankof(*_ba)
    return [FA(_ba + [f, x], accepts(tk, f, x) == And(Select(td, x), fanswer(fu, di, pd, pv, f, Select(tv, x))), [accepts(tk, f, x)]),
            FA(_ba + [n], hasf(tk, n) == Or(Select(ad, n), Select(cd, n)), [hasf(tk, n)])]


DEFS += _obj_defs() + [
    FA([b_, x], exsay(b_, nil, x), [exsay(b_, nil, x)]), FA([b_, x], objsay(b_, nil, x), [objsay(b_, nil, x)]),
    FA([b_, s, y, x], objsay(b_, snoc(s, y), x) == And(objsay(b_, s, x), accepts(b_, y, x)), [objsay(b_, snoc(s, y), x)]),
    FA([b_, s, y, x], exsay(b_, snoc(s, y), x) == And(exsay(b_, s, x), Implies(hasf(b_, y), says(b_, y, x))), [exsay(b_, snoc(s, y), x)])]
LEMMAS += [
    ('objsay_mem', [s, b_, x, y], Implies(And(objsay(b_, s, x), mem(s, y)), accepts(b_, y, x)), [(objsay(b_, s, x), mem(s, y))], s),
    ('objsay_at', [s, b_, x, i], Implies(And(objsay(b_, s, x), 0 <= i, i < length(s)), accepts(b_, at(s, i), x)), [(objsay(b_, s, x), at(s, i))], None),
]

qcalls = Function('qcalls', S, S)          # the calls of queued actions: (function, node, parameter) -> (function, parameter)
DEFS += [qcalls(nil) == nil, FA([s, y], qcalls(snoc(s, y)) == snoc(qcalls(s), tuple_(at(V.elems(y), IntVal(0)), at(V.elems(y), IntVal(2)))), [qcalls(snoc(s, y))])]
pwsrc = Function('pwsrc', S, V, V, V)     # the element that pw extended to this one
DEFS += [FA([s, y, x, z], pwsrc(snoc(s, y), x, z) == If(z == tup(snoc(V.elems(y), x)), y, pwsrc(s, x, z)), [pwsrc(snoc(s, y), x, z)])]
LEMMAS += [
    ('pw_src', [s, x, z], Implies(mem(pw(s, x), z), And(mem(s, pwsrc(s, x, z)), z == tup(snoc(V.elems(pwsrc(s, x, z)), x)))), [mem(pw(s, x), z)], s),
    ('pw_len', [s, x], length(pw(s, x)) == length(s), [pw(s, x)], s),
    ('pw_mem2', [s, x, t], Implies(mem(s, tup(t)), mem(pw(s, x), tup(snoc(t, x)))), [mem(pw(s, x), tup(snoc(t, x)))], s),
    ('pw_mem', [s, x, z], Implies(mem(s, z), mem(pw(s, x), tup(snoc(V.elems(z), x)))), [(pw(s, x), mem(s, z))], s),
]

# ---- chains of links from a root: cpath(A, r, s) = every element of s lists its predecessor (the first one r) in A
LV = ArraySort(V, S)
cpath = Function('cpath', LV, V, S, B)
A_ = Const('A_', LV)
r_ = Const('r_', V)


def prev(s, r):
    return If(s == nil, r, S.last(s))


DEFS += [
    FA([A_, r_], cpath(A_, r_, nil), [cpath(A_, r_, nil)]),
    FA([A_, r_, s, x], cpath(A_, r_, snoc(s, x)) == And(cpath(A_, r_, s), mem(Select(A_, x), prev(s, r_))), [cpath(A_, r_, snoc(s, x))]),
]
LEMMAS += [
    ('cpath_last', [s, A_, r_], Implies(And(cpath(A_, r_, s), s != nil), mem(Select(A_, S.last(s)), prev(S.init(s), r_))), [cpath(A_, r_, s)], s),
]
_tp = [Const('t_par', ArraySort(V, S)), Const('t_dom', VB), Const('t_val', HV)]
toplinks = Function('toplinks', LV, VB, HV, V, LV)
DEFS += [FA(_tp + [r_, x], Select(toplinks(*_tp, r_), x) == If(Select(_tp[1], x), If(Select(_tp[0], Select(_tp[2], x)) == nil, seq(r_), Select(_tp[0], Select(_tp[2], x))), nil),
            [Select(toplinks(*_tp, r_), x)])]
# ---- the accepted nodes of a view, and the parents they should have in it
accset = Function('accset', Bank, S, VB, VB)
inter = Function('inter', VB, VB, VB)
idl = Function('idl', HS, HV, VB, B, V, LV)
_fl = Const('fl', B)
_ip = Select(P_, Select(N_, y))
DEFS += [
    FA([b_, s, w, x], Select(accset(b_, s, w), x) == And(Select(w, x), allsay(b_, s, x)), [Select(accset(b_, s, w), x)]),
    FA([w, w2, x], Select(inter(w, w2), x) == And(Select(w, x), Select(w2, x)), [Select(inter(w, w2), x)]),
    FA([P_, N_, w, _fl, r_, y], Select(idl(P_, N_, w, _fl, r_), y) == If(Or(_fl, fil(_ip, w) == nil), seq(r_), fil(_ip, w)), [Select(idl(P_, N_, w, _fl, r_), y)]),
]
_iy = Select(idl(P_, N_, w, _fl, r_), y)
LEMMAS += [
    ('idl_nn', [P_, N_, w, _fl, r_, y], And(_iy != nil, mem(_iy, S.last(_iy))), [_iy], None),
    ('idl_mem', [P_, N_, w, _fl, r_, y, x], mem(_iy, x) == If(Or(_fl, fil(_ip, w) == nil), x == r_, And(mem(_ip, x), Select(w, x))), [mem(_iy, x)], None),
    ('idl_link', [P_, N_, w, _fl, r_, y, x], Implies(And(Not(_fl), mem(_ip, x), Select(w, x)), mem(_iy, x)), [(_iy, mem(_ip, x))], None),
    ('idl_nodup', [P_, N_, w, _fl, r_, y], Implies(nodup(_ip), nodup(_iy)), [_iy], None),
]
# ---- the paths a consumer of the signals of a view holds: links are sets of children, cpa(L, r, s) = s goes from r along L
fmt = Function('fmt', V, V, V)                 # text with one argument put in
LK = ArraySort(V, VB)
L_, M_ = Const('L_', LK), Const('M_', LK)
p_, n_, q_ = z3.Consts('p_ n_ q_', V)
R_ = Const('R_', ArraySort(V, I))
B_ = Int('B_')
cpa = Function('cpa', LK, V, S, B)
vpaths = Function('vpaths', LK, V, VB)          # the non-empty ones, as tuples
kids = Function('kids', VB, LV, LK)             # the links given by child lists
dropto = Function('dropto', LK, V, LK)          # without the links to a node
thru = Function('thru', V, V, V, S, B)          # thru(r, p, n, s): s takes the step from p to n
before = Function('before', V, V, V, S, S)      # what s does before that step
after = Function('after', V, V, V, S, S)        # and from n on
branch = Function('branch', LK, V, S, B)        # branch(L, n, s): s goes from n (its first element) along L


def lk(L, a, b):
    return Select(Select(L, a), b)


def addl(L, a, b):
    return Store(L, a, Store(Select(L, a), b, BoolVal(True)))


def dell(L, a, b):
    return Store(L, a, Store(Select(L, a), b, BoolVal(False)))


DEFS += [
    FA([L_, r_], cpa(L_, r_, nil), [cpa(L_, r_, nil)]),
    FA([L_, r_, s, x], cpa(L_, r_, snoc(s, x)) == And(cpa(L_, r_, s), lk(L_, prev(s, r_), x)), [cpa(L_, r_, snoc(s, x))]),
    FA([L_, r_, x], Select(vpaths(L_, r_), x) == And(V.is_tup(x), V.elems(x) != nil, cpa(L_, r_, V.elems(x))), [Select(vpaths(L_, r_), x)]),
    FA([w, A_, x, y], lk(kids(w, A_), x, y) == And(Select(w, x), mem(Select(A_, x), y)), [lk(kids(w, A_), x, y)]),
    FA([L_, q_, x, y], lk(dropto(L_, q_), x, y) == And(lk(L_, x, y), y != q_), [lk(dropto(L_, q_), x, y)]),
    FA([r_, p_, n_], Not(thru(r_, p_, n_, nil)), [thru(r_, p_, n_, nil)]),
    FA([r_, p_, n_, s, x], thru(r_, p_, n_, snoc(s, x)) == Or(thru(r_, p_, n_, s), And(prev(s, r_) == p_, x == n_)), [thru(r_, p_, n_, snoc(s, x))]),
    FA([r_, p_, n_, s, x], before(r_, p_, n_, snoc(s, x)) == If(thru(r_, p_, n_, s), before(r_, p_, n_, s), s), [before(r_, p_, n_, snoc(s, x))]),
    FA([r_, p_, n_, s, x], after(r_, p_, n_, snoc(s, x)) == If(thru(r_, p_, n_, s), snoc(after(r_, p_, n_, s), x), seq(x)), [after(r_, p_, n_, snoc(s, x))]),
    FA([L_, n_], Not(branch(L_, n_, nil)), [branch(L_, n_, nil)]),
    FA([L_, n_, s, x], branch(L_, n_, snoc(s, x)) == Or(And(s == nil, x == n_), And(branch(L_, n_, s), lk(L_, S.last(s), x))), [branch(L_, n_, snoc(s, x))]),
]


def asc_links(L, R):
    return FA([x, y], Implies(lk(L, x, y), Select(R, x) < Select(R, y)), [lk(L, x, y)])


_A1 = addl(L_, p_, n_)
_th, _be, _af = thru(r_, p_, n_, s), before(r_, p_, n_, s), after(r_, p_, n_, s)
_rk = And(asc_links(L_, R_), Select(R_, p_) < Select(R_, n_))
LEMMAS += [
    ('cpa_rank', [s, L_, r_, R_, x], Implies(And(asc_links(L_, R_), cpa(L_, r_, s), mem(s, x)), Select(R_, x) <= Select(R_, S.last(s))), None, s),
    ('branch_rank', [s, L_, n_, R_], Implies(And(asc_links(L_, R_), branch(L_, n_, s)), And(s != nil, Select(R_, n_) <= Select(R_, S.last(s)))), None, s),
    # a path over one more link either does without it or takes it
    ('cpa_add', [s, L_, r_, p_, n_], Implies(Not(lk(L_, p_, n_)), cpa(L_, r_, s) == And(cpa(_A1, r_, s), Not(_th))), None, s),
    ('thru_split', [s, r_, p_, n_], Implies(_th, And(s == cat(_be, _af), _af != nil)), None, s),
    ('thru_parts', [s, L_, r_, p_, n_, R_], Implies(And(_rk, Not(lk(L_, p_, n_)), cpa(_A1, r_, s), _th), And(cpa(L_, r_, _be), prev(_be, r_) == p_, branch(L_, n_, _af), S.last(_af) == S.last(s))), None, s),
    ('thru_glue', [t, s, L_, r_, p_, n_], Implies(And(Not(lk(L_, p_, n_)), cpa(L_, r_, s), prev(s, r_) == p_, branch(L_, n_, t)),
                                                  And(thru(r_, p_, n_, cat(s, t)), before(r_, p_, n_, cat(s, t)) == s, after(r_, p_, n_, cat(s, t)) == t,
                                                      cpa(_A1, r_, cat(s, t)), cat(s, t) != nil, S.last(cat(s, t)) == S.last(t))), None, t),
]
def agree_up(L, A, R, b, w):
    """below a rank, the links are what the lists of parents say"""
    return FA([x, y], Implies(And(Select(w, y), Select(R, y) <= b), And(mem(Select(A, y), x) == lk(L, x, y), Implies(mem(Select(A, y), x), And(Select(w, x), Select(R, x) < Select(R, y))))),
              [mem(Select(A, y), x), lk(L, x, y)])


def agree(L, M, R, b):
    return FA([x, y], Implies(Select(R, y) <= b, lk(L, x, y) == lk(M, x, y)), [lk(L, x, y), lk(M, x, y)])


LEMMAS += [
    ('cpa_cpath', [s, L_, A_, r_, R_, B_, w], Implies(And(agree_up(L_, A_, R_, B_, w), Select(w, r_), Or(s == nil, And(Select(w, S.last(s)), Select(R_, S.last(s)) <= B_))), cpath(A_, r_, s) == cpa(L_, r_, s)), None, s),
    ('cpa_last', [s, L_, r_], Implies(And(cpa(L_, r_, s), s != nil), lk(L_, prev(S.init(s), r_), S.last(s))), None, s),
    ('cpa_agree', [s, L_, M_, r_, R_, B_], Implies(And(agree(L_, M_, R_, B_), asc_links(L_, R_), asc_links(M_, R_), Or(s == nil, Select(R_, S.last(s)) <= B_)), cpa(L_, r_, s) == cpa(M_, r_, s)), None, s),
    ('cpa_drop', [s, L_, r_, q_], cpa(dropto(L_, q_), r_, s) == And(cpa(L_, r_, s), Not(mem(s, q_))), None, s),
    ('cpa_end', [s, L_, r_, q_], Implies(And(FA([y], Not(lk(L_, q_, y)), [lk(L_, q_, y)]), cpa(L_, r_, s), mem(s, q_)), S.last(s) == q_), None, s),
    ('cpa_none', [s, L_, r_], Implies(And(FA([y], Not(lk(L_, r_, y)), [lk(L_, r_, y)]), cpa(L_, r_, s)), s == nil), None, s),
    ('branch_all', [s, L_, n_, w], Implies(And(Select(w, tup(seq(n_))), FA([t, x], Implies(And(Select(w, tup(t)), lk(L_, S.last(t), x)), Select(w, tup(snoc(t, x)))), [(Select(w, tup(t)), lk(L_, S.last(t), x))]),
                                               branch(L_, n_, s)), Select(w, tup(s))), None, s),
]
# ---- recursive child counts: cr(A, x) = sum over the links below x; well defined where the links descend (vranked)
vranked = Function('vranked', LV, B)
crec = Function('crec', LV, V, I)
csum = Function('csum', LV, S, I)
DEFS += [
    FA([A_, x], Implies(vranked(A_), crec(A_, x) == csum(A_, Select(A_, x))), [crec(A_, x)]),
    FA([A_], csum(A_, nil) == 0, [csum(A_, nil)]),
    FA([A_, s, x], csum(A_, snoc(s, x)) == csum(A_, s) + crec(A_, x) + 1, [csum(A_, snoc(s, x))]),
]
DEFS += [FA([x, y], Implies(startswith(x, y), V.is_atom(x)), [startswith(x, y)])]    # only strings have prefixes
LEMMAS += [
    ('cnt_fcalls', [s, y], cnt(fcalls(s, nil), tup(snoc(nil, y))) == cnt(s, y), [cnt(fcalls(s, nil), tup(snoc(nil, y)))], s),
    ('allsay_mem', [s, b_, x, y], Implies(And(allsay(b_, s, x), mem(s, y)), says(b_, y, x)), [(allsay(b_, s, x), mem(s, y))], s),
    ('allsay_at', [s, b_, x, i], Implies(And(allsay(b_, s, x), 0 <= i, i < length(s)), says(b_, at(s, i), x)), [(allsay(b_, s, x), at(s, i))], None),
    ('allsay_frame', [s, x] + _ba + _ba2, Implies(And(Select(_ba[8], x) == Select(_ba2[0], x), Select(_ba[9], x) == Select(_ba2[1], x)),
                                                  allsay(bankof(*_ba), s, x) == allsay(bankof(*_ba[:8], *_ba2), s, x)), None, s),
    ('allsay_rem', [s, b_, x, y], allsay(b_, s, x) == And(allsay(b_, rem(s, y), x), Implies(mem(s, y), says(b_, y, x))), [(allsay(b_, rem(s, y), x))], s),
]


# instances of earlier lemmas used in the proof of a lemma, at each sequence the induction is about
LHINTS = {
    'thru_parts': lambda: [inst('branch_rank', _af, L_, n_, R_), inst('cpa_add', s, L_, r_, p_, n_)],
    'thru_glue': lambda: [inst('cpa_add', s, L_, r_, p_, n_)],
}


def lemma_formula(l):
    name, vs, body, pats, ind = l
    return FA(vs, body, pats, qid='lemma_' + name)


def inst(name, *terms):
    """explicit instance of a proved lemma"""
    for l in LEMMAS:
        if l[0] == name:
            return z3.substitute(l[2], *list(zip(l[1], terms)))
    raise KeyError(name)


def axioms():
    ax = list(DEFS)
    for l in LEMMAS:
        if l[3] is not None:
            ax.append(lemma_formula(l))
    ax += GRAPH_DEFS
    ax += [f for _, f in GRAPH_LEMMAS]
    return ax


def new_solver(timeout_ms=10000, seed=0, simple=False):
    # the simple solver skips the global rewriting of the assertions (which may solve a quantified definition away, with its triggers)
    sol = z3.SimpleSolver() if simple else z3.Solver()
    sol.set('auto_config', False)
    sol.set('smt.mbqi', False)
    sol.set('smt.ematching', True)
    sol.set('smt.random_seed', seed)
    sol.set('timeout', timeout_ms)
    return sol


_symc = {}
_keep = []


def symbols(t):
    """uninterpreted function symbols of a term"""
    k = t.get_id()
    r = _symc.get(k)
    if r is not None:
        return r
    if z3.is_quantifier(t):
        r = symbols(t.body())
    elif z3.is_app(t):
        ch = [symbols(c) for c in t.children()]
        d = t.decl()
        own = frozenset([d.name()]) if d.kind() == z3.Z3_OP_UNINTERPRETED and d.arity() > 0 else frozenset()
        r = frozenset().union(own, *ch)
    else:
        r = frozenset()
    _symc[k] = r
    _keep.append(t)
    return r


_axinfo = {}


def relevant(axs, forms):
    """the axioms that can fire, given the symbols of these formulas (dropping an axiom is always sound)"""
    have = set()
    for f in forms:
        have |= symbols(f)
    info = []
    for a in axs:
        k = a.get_id()
        if k not in _axinfo:
            if z3.is_quantifier(a) and a.num_patterns():
                pats = [frozenset().union(*[symbols(c) for c in a.pattern(i).children()]) for i in range(a.num_patterns())]
            else:
                pats = [frozenset()]
            _axinfo[k] = (pats, symbols(a), a)
        info.append(_axinfo[k])
    out = []
    todo = info
    grown = True
    while grown:
        grown = False
        rest = []
        for it in todo:
            if any(p <= have for p in it[0]):
                out.append(it[2])
                if not it[1] <= have:
                    have |= it[1]
                    grown = True
            else:
                rest.append(it)
        if len(rest) == len(todo):
            break
        todo = rest
        grown = True
    return out


def prove_lemmas(verbose=False):
    """Discharge every lemma. Returns list of (name, status, seconds)."""
    import time
    out = []
    proved = list(DEFS)
    for l in LEMMAS:
        name, vs, body, pats, ind = l
        t0 = time.time()
        goals = []
        if isinstance(ind, str) and ind == 'len2':
            sx = Const('sk_s', S)
            ctor = lambda a: Or(a == nil, a == snoc(S.init(a), S.last(a)))
            goals.append(([ctor(sx), ctor(S.init(sx)), ctor(S.init(S.init(sx)))], Implies(length(sx) == 2, sx == seq(at(sx, 0), at(sx, 1)))))
        elif isinstance(ind, str) and ind == 'single':
            sx, yy = Const('sk_s', S), Const('sk_y', V)
            si, sl = S.init(sx), S.last(sx)
            hyp = [Or(sx == nil, sx == snoc(si, sl)), Or(si == nil, si == snoc(S.init(si), S.last(si)))]
            for zz in (S.last(si), sl):      # instances of the definition of mem
                hyp.append(mem(snoc(si, sl), zz) == Or(mem(si, zz), zz == sl))
            hyp.append(mem(snoc(S.init(si), S.last(si)), S.last(si)) == Or(mem(S.init(si), S.last(si)), S.last(si) == S.last(si)))
            goals.append((hyp, z3.substitute(body, (s, sx), (y, yy))))
        elif isinstance(ind, str):
            # seq_ext by induction on s for all t
            s1 = Const('s1', S); e1 = Const('e1', V); t1 = Const('t1', S)
            ihbody = lambda a: FA([t], Implies(And(length(a) == length(t), FA([i], Implies(And(0 <= i, i < length(a)), at(a, i) == at(t, i)), [at(a, i)])), a == t))
            goal = lambda a: Implies(And(length(a) == length(t1), FA([i], Implies(And(0 <= i, i < length(a)), at(a, i) == at(t1, i)), [at(a, i)])), a == t1)
            hint = And(t1 == nil) == (t1 == nil)
            goals.append(([], goal(nil)))
            st = snoc(s1, e1)
            k = Int('k')
            # instantiate IH at init(t1)
            ih = Implies(And(length(s1) == length(S.init(t1)), FA([i], Implies(And(0 <= i, i < length(s1)), at(s1, i) == at(S.init(t1), i)), [at(s1, i)])), s1 == S.init(t1))
            tt = Implies(t1 != nil, t1 == snoc(S.init(t1), S.last(t1)))
            pre = And(length(st) == length(t1), FA([i], Implies(And(0 <= i, i < length(st)), at(st, i) == at(t1, i)), [at(s1, i)]),
                      at(st, length(s1)) == at(t1, length(s1)))
            goals.append(([ih, tt], Implies(pre, st == t1)))
        elif ind is None:
            goals.append(([], z3.substitute(body, [(v, Const('sk_' + str(v), v.sort())) for v in vs])))
        else:
            others = [v for v in vs if not v.eq(ind)]
            sk = [(v, Const('sk_' + str(v), v.sort())) for v in others]
            s1 = Const('ih_s', S); e1 = Const('ih_e', V)
            goals.append(([], z3.substitute(body, [(ind, nil)] + sk)))
            ih_body = z3.substitute(body, [(ind, s1)])
            # IH universally quantified over the other variables, plus its direct instance
            ih_inst = z3.substitute(body, [(ind, s1)] + sk)
            ih = [ih_inst]
            if others:
                pp = None
                if pats:
                    pp = []
                    for pt in pats:
                        pp.append(tuple(z3.substitute(a, (ind, s1)) for a in pt) if isinstance(pt, tuple) else z3.substitute(pt, (ind, s1)))
                try:
                    ih.append(FA(others, ih_body, pp))
                except z3.Z3Exception:
                    ih.append(ForAll(others, ih_body))
            for h in LHINTS.get(name, lambda: [])():
                ih += [z3.substitute(h, [(ind, tm)] + sk) for tm in (s1, snoc(s1, e1))]
            goals.append((ih, z3.substitute(body, [(ind, snoc(s1, e1))] + sk)))
        ok = True
        for hyps, goal in goals:
            sol = new_solver(20000)
            sol.add(*proved)
            sol.add(*hyps)
            sol.add(Not(goal))
            if sol.check() != z3.unsat:
                ok = False
        out.append(('lemma:' + name, 'proved' if ok else 'FAILED', round(time.time() - t0, 3)))
        if pats is not None:
            proved.append(FA(vs, body, pats))
    # graph lemmas
    G0, H0 = z3.Consts('G0 H0', Graph)
    pp, cc = z3.Consts('pp cc', V)
    base = proved + GRAPH_DEFS
    for name, f in GRAPH_LEMMAS:
        t0 = time.time()
        sol = new_solver(20000)
        sol.add(*base)
        if name == 'acyc_sub':
            sol.add(acyc(G0), subg(H0, G0), acyc_intro(H0, rk(G0)), Not(acyc(H0)))
        elif name in ('anc_sub', 'anc_acyc'):
            A = Const('A', VB)
            x0, y0 = z3.Consts('x0 y0', V)
            if name == 'anc_sub':
                sol.add(FA([x], Select(A, x) == anc(G0, x, y0), [Select(A, x)]), anc_induct(H0, y0, A), subg(H0, G0), anc(H0, x0, y0), Not(anc(G0, x0, y0)))
            else:
                sol.add(FA([x], Select(A, x) == Or(x == y0, Select(rk(G0), x) < Select(rk(G0), y0)), [Select(A, x)]), anc_induct(G0, y0, A),
                        acyc(G0), anc(G0, x0, y0), Not(Or(x0 == y0, Select(rk(G0), x0) < Select(rk(G0), y0))))
        else:
            r2 = Const('r2', ArraySort(V, I))
            kk = Select(rk(G0), pp) - Select(rk(G0), cc) + 1
            kk = If(kk < 0, 0, kk)
            sol.add(FA([x], Select(r2, x) == If(anc(G0, cc, x), Select(rk(G0), x) + kk, Select(rk(G0), x)), [Select(r2, x)]))
            sol.add(acyc(G0), addg(H0, G0, pp, cc), Not(anc(G0, cc, pp)), acyc_intro(H0, r2), Not(acyc(H0)))
        st = sol.check()
        out.append(('lemma:' + name, 'proved' if st == z3.unsat else 'FAILED', round(time.time() - t0, 3)))
        base = base + [f]
    # consistency guard: the axioms must not prove false
    sol = new_solver(3000)
    sol.add(*axioms())
    st = sol.check()
    out.append(('guard:axioms-not-contradictory', 'proved' if st != z3.unsat else 'FAILED', 0.0))
    return out


if __name__ == '__main__':
    for r in prove_lemmas():
        print(r)
