"""Contracts of drag and drop in the widget (liblarch_gtk/__init__.py).

The widget, its model and what is dropped are GTK's (outside the repository); they are described here (TRUSTED) by
functions of the objects: the model of a widget, the row under a position, the row of a path, the row above, the values
of a row, and whether an iterator still stands on a row after the requests made so far ($calls).  A request to move a
node is recorded in $calls; it may be refused with an exception.
"""
import z3
from z3 import And, Or, Not, Implies, If, Select, Store, BoolVal, IntVal, Function
from . import theory as T
from .theory import V, S, B, I, none, vint, tup, nil, snoc, length, mem, at, lit, truthy, FA, seq
from .ex import Contract, LoopSpec, VV, BV, Unsupported, fresh
from .ctree import add, SCHEMA, GHOST

W = 'TreeView.'
TG = ('C19',)
SCHEMA['TreeView'] = {'basetree': ('obj', 'XView'), 'dnd_internal_target': 'V', 'dnd_external_targets': ('dict', 'V'), 'defer_select': 'bool'}
GHOST.update({'$dndsrc': V, '$dnddst': V})

model_of, source_of, data_of, parts_of, tree_of = [Function(n, V, V) for n in ('gmodel', 'gsource', 'gdata', 'gparts_', 'gtree')]
parts = Function('gparts', V, S)
under = Function('gunder', V, V, V, V)              # what get_dest_row_at_pos answers
iter_of = Function('giter', V, V, V)                # the iterator of a path
above = Function('gabove', V, V, V)
value, parsed, is_row, valid = T.gvalue, T.gparsed, T.gisrow, T.gvalid
found, drops, gives = T.found, T.drops, T.gives
MOVE = lit('move_node')
log = lambda ex, p: ex.leaf(p.heap, '$calls')


def need(ex, p, what, goal, line):
    ex.oblige(p, '%s (line %s)' % (what, line), goal, TG, line, kind='pre')
    p.pc.append(goal)


def obj(f, cls):
    def hook(ex, p, pos, kw, line):
        t = f(*[ex.to_v(p, v) for v in pos])
        p.pc.append(And(V.is_ref(t), t != none))
        return [('ok', VV(t, cls), p)]
    return hook


def get_dest_row_at_pos(ex, p, pos, kw, line):
    t = under(*[ex.to_v(p, v) for v in pos])
    p.pc.append(Or(t == none, And(V.is_tup(t), length(V.elems(t)) == 2)))
    return [('ok', VV(t), p)]


def get_iter(ex, p, pos, kw, line):
    m, t = pos[0].t, ex.to_v(p, pos[1])
    p.pc.append(And(V.is_ref(iter_of(m, t)), valid(m, iter_of(m, t), log(ex, p))))
    return [('ok', VV(iter_of(m, t)), p)]


def iter_parent(ex, p, pos, kw, line):
    m, it = pos[0].t, ex.to_v(p, pos[1])
    need(ex, p, 'the iterator stands on a row', valid(m, it, log(ex, p)), line)
    a = above(m, it)
    p.pc.append(Or(a == none, And(V.is_ref(a), valid(m, a, log(ex, p)))))
    return [('ok', VV(a), p)]


def get_value(ex, p, pos, kw, line):
    m, it = pos[0].t, ex.to_v(p, pos[1])
    need(ex, p, 'the iterator stands on a row', valid(m, it, log(ex, p)), line)
    return [('ok', VV(value(m, it, ex.to_v(p, pos[2]))), p)]


def iter_is_valid(ex, p, pos, kw, line):
    return [('ok', BV(valid(pos[0].t, ex.to_v(p, pos[1]), log(ex, p))), p)]


def get_iter_from_string(ex, p, pos, kw, line):
    m, t = pos[0].t, ex.to_v(p, pos[1])
    out = []
    for ok, q in ex.fork(p, is_row(m, t)):
        if ok:
            q.pc.append(And(V.is_ref(parsed(m, t)), valid(m, parsed(m, t), log(ex, q))))
            out.append(('ok', VV(parsed(m, t)), q))
        else:
            out.append(ex.exc(q, 'ValueError', line))
    return out


def get_data(ex, p, pos, kw, line):
    d = data_of(pos[0].t)
    out = []
    for b, q in ex.fork(p, truthy(d)):
        if b:
            q.pc.append(V.is_ref(d))
        out.append(('ok', VV(d, 'GtkData') if b else VV(d), q))
    return out


def decode(ex, p, pos, kw, line):
    need(ex, p, 'there is something to decode', pos[0].t != none, line)
    return [('ok', VV(pos[0].t, 'GtkText'), p)]


def split(ex, p, pos, kw, line):
    if len(pos) != 2 or ex.const_str(pos[1]) != ',':
        raise Unsupported('split at something else than commas')
    return [('ok', ex.new_list(p, parts(pos[0].t)), p)]


def move_node(ex, p, pos, kw, line):
    a = [ex.to_v(p, v) for v in pos[1:]]
    dest = a[1] if len(a) > 1 else ex.to_v(p, kw['new_parent_id']) if 'new_parent_id' in kw else none
    p.heap['$calls'] = snoc(log(ex, p), tup(seq(MOVE, a[0], dest)))
    ex.log_write(('heap', '$calls', None))
    return [('exc', ('Exception', line), p.copy()), ('ok', VV(none), p)]


def offers(ghost):
    def hook(ex, p, pos, kw, line):
        v = [x for x in pos[1:] if not isinstance(x, VV) or True]
        lists = [x for x in v if type(x).__name__ == 'LocV']
        if len(lists) != 1:
            raise Unsupported('targets of drag and drop')
        ex.leaf(p.heap, ghost)
        p.heap[ghost] = tup(ex.read(p, lists[0].loc))
        ex.log_write(('heap', ghost, None))
        return [('ok', VV(none), p)]
    return hook


HOOKS = {
    'GtkView.get_model': obj(model_of, 'GtkModel'), 'GtkView.get_dest_row_at_pos': get_dest_row_at_pos, 'Gtk.drag_get_source_widget': obj(source_of, 'GtkView'),
    'GtkModel.get_iter': get_iter, 'GtkModel.iter_parent': iter_parent, 'GtkModel.get_value': get_value, 'GtkModel.iter_is_valid': iter_is_valid,
    'GtkModel.get_iter_from_string': get_iter_from_string, 'GtkSel.get_data': get_data, 'GtkData.decode': decode, 'GtkText.split': split,
    'XView.get_basetree': obj(tree_of, 'XTree'), 'XTree.move_node': move_node,
    'TreeView.enable_model_drag_source': offers('$dndsrc'), 'TreeView.enable_model_drag_dest': offers('$dnddst'),
}
POS = lambda n: lit('fn:Gtk.TreeViewDropPosition.' + n)
ZERO = vint(IntVal(0))


def target(a):
    """the node that gets the dropped ones (None: the top level): the node dropped on, the node above when dropped beside one"""
    m = model_of(a('treeview'))
    u = under(a('treeview'), a('x'), a('y'))
    it = iter_of(m, at(V.elems(u), IntVal(0)))
    how = at(V.elems(u), IntVal(1))
    r = If(Or(how == POS('BEFORE'), how == POS('AFTER')), above(m, it), it)
    return If(Or(u == none, r == none), none, value(m, r, ZERO))


def rows(a, m):
    d = data_of(a('selection'))
    return If(truthy(d), found(parts(d), m), nil)


def _collect(mod):
    def f(L):
        return [('the rows of the paths seen so far are kept, in order', TG, L.local('dragged_iters') == mod(L))]
    return f


def _in(L):
    return found(L.done, model_of(L.arg('treeview')))


def _moved(L):
    return [('each row seen so far is moved if it is still there, no other request is made', TG,
             L.cur.leaf('$calls') == drops(L.done, model_of(L.arg('treeview')), target(L.arg), L.old.leaf('$calls')))]


PARAMS = {'treeview': ('obj', 'GtkView'), 'selection': ('obj', 'GtkSel')}
start = lambda c: [('a position is under the pointer or none', Or(under(c.treeview, c.arg('x'), c.arg('y')) == none, V.is_tup(under(c.treeview, c.arg('x'), c.arg('y')))))]
add(Contract(W + 'on_drag_data_received#inner', body=W + 'on_drag_data_received', params=PARAMS, result='none', modifies=('$calls',),
             requires=lambda c: [('dropped from this widget', c.info == ZERO)],
             ensures=lambda c: [('each dropped row still there is moved under the target once, in order; nothing else is requested', TG,
                                 c.new.leaf('$calls') == drops(rows(c.arg, model_of(c.treeview)), model_of(c.treeview), target(c.arg), c.old.leaf('$calls')))],
             loops=[LoopSpec(_collect(_in), 'paths'), LoopSpec(_moved, 'rows')]))


# --------------------------------------------------------------- from another widget
def src(a):
    return model_of(source_of(a('context')))


def tgt(c):
    return c('TreeView.dnd_external_targets', None)


def dom(H, o):
    return Select(H.leaf(W + 'dnd_external_targets.dom'), o)


def val(H, o):
    return Select(H.leaf(W + 'dnd_external_targets.val'), o)


def func(H, o, info):
    return at(V.elems(Select(val(H, o), info)), IntVal(1))


def taken(H, o, a):
    return And(Select(dom(H, o), a('info')), truthy(target(a)))


def _out(L):
    return If(taken(L.old, L.arg('self'), L.arg), found(L.done, src(L.arg)), nil)


def _given(L):
    return [('the function registered for the source got each row seen so far, and nothing else was called', TG,
             L.cur.leaf('$calls') == If(taken(L.old, L.arg('self'), L.arg), gives(L.done, src(L.arg), func(L.old, L.arg('self'), L.arg('info')), target(L.arg), L.old.leaf('$calls')), L.old.leaf('$calls')))]


s_, l_ = z3.Const('s_', V), z3.Const('l_', S)
add(Contract(W + 'on_drag_data_received#outer', body=W + 'on_drag_data_received', params=PARAMS, result='none', modifies=('$calls',),
             requires=lambda c: [('dropped from another widget', c.info != ZERO),
                                 ('a source is a name and a function', FA([s_], Implies(Select(dom(c.old, c.self), s_), And(V.is_tup(Select(val(c.old, c.self), s_)), length(V.elems(Select(val(c.old, c.self), s_))) == 2)), [Select(dom(c.old, c.self), s_)])),
                                 ('the paths lead to rows of the other widget', FA([s_], Implies(mem(parts(data_of(c.selection)), s_), is_row(src(c.arg), s_)), [mem(parts(data_of(c.selection)), s_)])),
                                 ('the function called leaves the rows of the other widget', FA([s_, l_], valid(src(c.arg), s_, l_), [valid(src(c.arg), s_, l_)]))],
             ensures=lambda c: [('the function registered for the source gets each dropped row and the target once, in order; nothing is called for an unknown source or without a target', TG,
                                 c.new.leaf('$calls') == If(And(taken(c.old, c.self, c.arg), truthy(data_of(c.selection))),
                                                            gives(found(parts(data_of(c.selection)), src(c.arg)), src(c.arg), func(c.old, c.self, c.info), target(c.arg), c.old.leaf('$calls')), c.old.leaf('$calls')))],
             loops=[LoopSpec(_collect(_out), 'paths', binds=lambda L: {'src_model': (L.local('dragged_iters') != nil, VV(src(L.arg), 'GtkModel')), 'f': (L.local('dragged_iters') != nil, VV(func(L.old, L.arg('self'), L.arg('info'))))}), LoopSpec(_given, 'rows')]))


# --------------------------------------------------------------- sources
kk = z3.Int('kk')


def _fresh(L):
    return [('a number', TG, L.local('i') >= 1)]


def offered(H, o, ghost):
    l = V.elems(H.leaf(ghost))
    v = Select(val(H, o), s_)
    return And(V.is_tup(H.leaf(ghost)), l != nil, at(l, IntVal(0)) == T.tuple_(H(W + 'dnd_internal_target', o), lit('fn:Gtk.TargetFlags.SAME_WIDGET'), ZERO),
               FA([s_], Implies(Select(dom(H, o), s_), mem(l, T.tuple_(at(V.elems(v), IntVal(0)), lit('fn:Gtk.TargetFlags.SAME_APP'), s_))), [Select(dom(H, o), s_)]))


def _offer(L):
    H, o = L.cur, L.arg('self')
    l = L.local('dnd_targets')
    v = Select(val(H, o), s_)
    return [('this widget comes first', TG, And(l != nil, at(l, IntVal(0)) == T.tuple_(H(W + 'dnd_internal_target', o), lit('fn:Gtk.TargetFlags.SAME_WIDGET'), ZERO))),
            ('the sources seen so far are offered', TG, FA([s_], Implies(mem(L.done, s_), mem(l, T.tuple_(at(V.elems(v), IntVal(0)), lit('fn:Gtk.TargetFlags.SAME_APP'), s_))), [mem(L.done, s_), Select(dom(H, o), s_)]))]


DND = lambda c: [(W + 'defer_select', c.self), '$dndsrc', '$dnddst']
srcs = lambda c: [('a source is a name and a function', FA([s_], Implies(Select(dom(c.old, c.self), s_), And(V.is_tup(Select(val(c.old, c.self), s_)), length(V.elems(Select(val(c.old, c.self), s_))) == 2)), [Select(dom(c.old, c.self), s_)]))]
noname = lambda c: [('only without a name', TG, c.old(W + 'dnd_internal_target', c.self) == lit(''))]
add(Contract(W + '__init_dnd', requires=srcs, result='none', modifies=DND, raises={'Exception': noname},
             ensures=lambda c: [('this widget and every source are offered for dragging', TG, offered(c.new, c.self, '$dndsrc')), ('and for dropping', TG, offered(c.new, c.self, '$dnddst'))],
             loops=[LoopSpec(_offer, 'sources')]))


def registered(c):
    d0, v0, d1, v1 = dom(c.old, c.self), val(c.old, c.self), dom(c.new, c.self), val(c.new, c.self)
    new = And(kk >= 1, Not(Select(d0, vint(kk))), d1 == Store(d0, vint(kk), BoolVal(True)), Select(v1, vint(kk)) == T.tuple_(c.sourcename, c.func))
    return [('the source gets a number of its own, not that of this widget', TG, Not(FA([kk], Not(new), [Select(d0, vint(kk))]))),
            ('the other sources stay', TG, FA([s_], Implies(Select(d0, s_), And(Select(d1, s_), Select(v1, s_) == Select(v0, s_))), [Select(d1, s_), Select(v1, s_)]))]


add(Contract(W + 'set_dnd_external', requires=srcs, result='none', modifies=lambda c: [(W + 'dnd_external_targets', c.self)] + DND(c), raises={'Exception': noname},
             ensures=lambda c: registered(c) + [('every source is offered', TG, And(offered(c.new, c.self, '$dndsrc'), offered(c.new, c.self, '$dnddst')))],
             loops=[LoopSpec(_fresh, 'number')]))
