"""Contracts of the request queue (liblarch/processqueue.py), of the listener registries and of the
announcements (MainTree.register_callback/_callback, ViewTree.register_cllbck/__emit).

Calls of function values (listeners, queued requests) are recorded in the ghost sequence $calls, one tuple
(function, arguments...) per call.  The lock of the queue is modelled as a monitor: acquire() havocs the
queues under the lock invariant INV, release() must re-establish it; $acq_* / $rel_* are the queues as found
and as left by the critical section.
"""
import z3
from z3 import And, Or, Not, Implies, If, Select, Store, BoolVal, IntVal
from . import theory as T
from .theory import V, S, none, vbool, tup, nil, snoc, length, mem, at, tail, cat, nodup, lit, truthy, FA, seq
from .ex import Contract, LoopSpec, NeedSpec, VV, BV, FnV, TupV, Unsupported, fresh
from .ctree import add, SCHEMA, GHOST, x, y, p, c, e, TV, thread_ok, C as CT, pair, ROOT
from . import ctree

x0 = z3.Const('x0', V)
I_ = z3.IntSort()
GHOST.update({
    '$calls': S,
    '$held': z3.BoolSort(),
    '$nlock': I_,
    '$acq_low': S, '$acq_mid': S, '$acq_vip': S, '$acq_h': V,
    '$rel_low': S, '$rel_mid': S, '$rel_vip': S, '$rel_h': V,
    '$sources': z3.ArraySort(V, V),
})
QF = [('low', '_low_queue'), ('mid', '_queue'), ('vip', '_vip_queue')]
LOCKG = ['$held', '$nlock', '$sources'] + ['$%s_%s' % (a, b) for a in ('acq', 'rel') for b in ('low', 'mid', 'vip', 'h')]
QMOD = ['SyncQueue._low_queue', 'SyncQueue._queue', 'SyncQueue._vip_queue', 'SyncQueue._handler'] + LOCKG


def bound(name, o):
    return T.tuple_(lit('fn:' + name), o)


# --------------------------------------------------------------- hooks
def record_call(may_raise):
    def ext(ex, p, f, pos, kw, line):
        if kw:
            raise Unsupported('keyword call of a function value')
        args = nil
        for a in pos:
            if isinstance(a, tuple) and a[0] == 'star':
                args = cat(args, V.elems(ex.to_v(p, a[1])))
            else:
                args = snoc(args, ex.to_v(p, a))
        el = cat(snoc(nil, ex.to_v(p, f)), args)
        p.heap['$calls'] = snoc(ex.leaf(p.heap, '$calls'), tup(el))
        ex.log_write(('heap', '$calls', None))
        out = []
        if may_raise:
            out.append(('exc', ('Exception', line), p.copy()))
        out.append(('ok', VV(fresh('ret', V)), p))
        return out
    return ext


def queue_of(p):
    fr = p.frame
    while fr is not None:
        s = fr.args.get('self')
        if isinstance(s, VV) and s.cls == 'SyncQueue':
            return s.t
        fr = fr.parent
    raise Unsupported('lock operation outside the queue')


def INV(H, q):
    """what holds of the queues whenever nobody holds the lock"""
    r = []
    f = {k: H('SyncQueue.' + n, q) for k, n in QF}
    h = H('SyncQueue._handler', q)
    for k, n in QF:
        r.append(('%s: waiting requests are (function, arguments...), none twice' % n, And(nodup(f[k]), FA([x0], Implies(mem(f[k], x0), And(V.is_tup(x0), V.elems(x0) != nil)), [mem(f[k], x0)]))))
    r.append(('processing is scheduled while a request waits', Implies(Or(*[f[k] != nil for k, n in QF]), h != none)))
    r.append(('what is scheduled is the processing of this queue', Implies(h != none, Select(H.leaf('$sources'), h) == tup(seq(bound('SyncQueue.process_queue', q))))))
    return r


def lock_acquire(ex, p, pos, kw, line):
    q = queue_of(p)
    ex.oblige(p, 'the lock is not taken twice (line %s)' % line, Not(ex.leaf(p.heap, '$held')), ('C16',), line, kind='lock')
    for k, n in QF:
        nm = 'SyncQueue.' + n
        v = fresh('locked_' + k, S)
        p.heap[nm] = Store(ex.leaf(p.heap, nm), q, v)
        ex.log_write(('heap', nm, q))
        p.heap['$acq_' + k] = v
    nm = 'SyncQueue._handler'
    v = fresh('locked_h', V)
    p.heap[nm] = Store(ex.leaf(p.heap, nm), q, v)
    p.heap['$acq_h'] = v
    p.heap['$sources'] = fresh('sources', z3.ArraySort(V, V))
    p.heap['$held'] = BoolVal(True)
    ex.leaf(p.heap, '$nlock')
    for g in LOCKG + [nm]:
        ex.log_write(('heap', g, None))
    from .ex import Heap
    p.pc.extend(f for _, f in INV(Heap(ex, p.heap), q))
    return [('ok', BV(BoolVal(True)), p)]


def lock_release(ex, p, pos, kw, line):
    q = queue_of(p)
    from .ex import Heap
    H = Heap(ex, p.heap)
    ex.oblige(p, 'the lock is held when released (line %s)' % line, ex.leaf(p.heap, '$held'), ('C16',), line, kind='lock')
    for lab, f in INV(H, q):
        ex.oblige(p, 'on release: ' + lab, f, ('C16',), line, kind='lock')
    for k, n in QF:
        p.heap['$rel_' + k] = H('SyncQueue.' + n, q)
    p.heap['$rel_h'] = H('SyncQueue._handler', q)
    p.heap['$held'] = BoolVal(False)
    p.heap['$nlock'] = ex.leaf(p.heap, '$nlock') + 1
    for g in LOCKG:
        ex.log_write(('heap', g, None))
    return [('ok', VV(none), p)]


def idle_add(ex, p, pos, kw, line):
    i = fresh('source', V)
    so = ex.leaf(p.heap, '$sources')
    p.pc.append(And(V.is_vint(i), V.i(i) > 0, Select(so, i) == none))
    p.heap['$sources'] = Store(so, i, tup(seq(*[ex.to_v(p, a) for a in pos])))
    ex.log_write(('heap', '$sources', None))
    return [('ok', VV(i), p)]


def source_remove(ex, p, pos, kw, line):
    so = ex.leaf(p.heap, '$sources')
    i = ex.to_v(p, pos[0])
    p.heap['$sources'] = Store(so, i, none)
    ex.log_write(('heap', '$sources', None))
    return [('ok', BV(Select(so, i) != none), p)]


def nop(ex, p, pos, kw, line):
    return [('ok', VV(none), p)]


def new_lock(ex, p, pos, kw, line):
    o = fresh('lock', V)
    p.pc.append(V.is_ref(o))
    return [('ok', VV(o, 'Lock'), p)]


HOOKS = {
    'Lock.acquire': lock_acquire, 'Lock.release': lock_release, 'Lock.__enter__': lock_acquire, 'Lock.__exit__': lock_release,
    'GObject.idle_add': idle_add, 'GLib.idle_add': idle_add, 'GObject.source_remove': source_remove, 'GLib.source_remove': source_remove,
    'traceback.print_exc': nop, 'threading.Lock': new_lock,
    'call': record_call(False),
}
GUARDS = {('SyncQueue', f): ('touched only while the lock is held', lambda ex, p, o: ex.leaf(p.heap, '$held'),
                             ('SyncQueue.push', 'SyncQueue.process', 'SyncQueue.process_queue'), ('C16',)) for f in ('_low_queue', '_queue', '_vip_queue', '_handler')}


# --------------------------------------------------------------- the queue
def unlocked(c):
    return [('the lock is free', Not(c.old.leaf('$held')))]


def _sel(prio):
    return prio == lit('low'), prio == lit('high')


def queued(c, el, prio):
    """one request went into the queue of its priority, unless the same one already waits there"""
    n = c.new
    A = {k: n.leaf('$acq_' + k) for k, _ in QF}
    R = {k: n.leaf('$rel_' + k) for k, _ in QF}
    lo, hi = _sel(prio)
    w = {'low': lo, 'vip': hi, 'mid': And(Not(lo), Not(hi))}
    cl = [('one critical section', n.leaf('$nlock') == c.old.leaf('$nlock') + 1)]
    for k, nm in QF:
        cl.append(('%s: the request is appended once when it is of this priority' % nm, ('C16',),
                   R[k] == If(And(w[k], Not(mem(A[k], el))), snoc(A[k], el), A[k])))
    cl += [('nothing runs now', ('C16',), n.leaf('$calls') == c.old.leaf('$calls')),
           ('scheduled processing stays scheduled', ('C16',), Implies(n.leaf('$acq_h') != none, n.leaf('$rel_h') == n.leaf('$acq_h')))]
    return cl


def free(c):
    return [('the lock is free again', ('C16',), Not(c.new.leaf('$held')))]


def _push_ens(c):
    own = c.old('SyncQueue._origin_thread', c.self) == c.old.leaf('$thread')
    return free(c) + [(l[0], ('C16',), Implies(Not(own), l[-1])) for l in queued(c, c.element, c.kw_priority)] + [
        ('a request of the creating thread runs at once, and only it', ('C16',), Implies(own, c.new.leaf('$calls') == snoc(c.old.leaf('$calls'), c.element))),
        ('a request of the creating thread is not queued', ('C16',), Implies(own, And(*[c.new('SyncQueue.' + n, c.self) == c.old('SyncQueue.' + n, c.self) for k, n in QF]))),
    ]


def _push_exc(c):
    own = c.old('SyncQueue._origin_thread', c.self) == c.old.leaf('$thread')
    return free(c) + [('only a request of the creating thread may fail here, after it ran', ('C16',), And(own, c.new.leaf('$calls') == snoc(c.old.leaf('$calls'), c.element)))]


add(Contract('SyncQueue.push', varkw={'priority': 'V'}, requires=lambda c: unlocked(c) + [('there is a function to run', V.elems(c.element) != nil)],
             ensures=_push_ens, raises={'Exception': _push_exc}, modifies=QMOD + ['$calls'], result='none', ext=record_call(True), inline_calls=True))


def _next(n):
    A = {k: n.leaf('$acq_' + k) for k, _ in QF}
    z = IntVal(0)
    return A, If(A['vip'] != nil, snoc(nil, at(A['vip'], z)), If(A['mid'] != nil, snoc(nil, at(A['mid'], z)), If(A['low'] != nil, snoc(nil, at(A['low'], z)), nil)))


def _process_ens(c):
    n = c.new
    A, nx = _next(n)
    R = {k: n.leaf('$rel_' + k) for k, _ in QF}
    pick = {'vip': A['vip'] != nil, 'mid': And(A['vip'] == nil, A['mid'] != nil), 'low': And(A['vip'] == nil, A['mid'] == nil)}
    return free(c) + [
        ('the oldest request of the highest priority is taken', ('C16',), c.result == nx),
        ('what is taken is a request', FA([x0], Implies(mem(c.result, x0), And(V.is_tup(x0), V.elems(x0) != nil)), [mem(c.result, x0)])),
    ] + [('%s: it leaves its queue, no other request does' % nm, ('C16',), R[k] == If(pick[k], tail(A[k]), A[k])) for k, nm in QF] + [
        ('one critical section', ('C16',), n.leaf('$nlock') == c.old.leaf('$nlock') + 1)]


add(Contract('SyncQueue.process', requires=unlocked, ensures=_process_ens, modifies=QMOD, result='list'))


def _pq_loop(L):
    return [('the requests seen so far ran, once each', ('C16',), L.cur.leaf('$calls') == cat(L.pre.leaf('$calls'), L.done)),
            ('the lock stays free', ('C16',), Not(L.cur.leaf('$held')))]


add(Contract('SyncQueue.process_queue', requires=unlocked, modifies=QMOD + ['$calls'], result='V', ext=record_call(True),
             loops=[LoopSpec(_pq_loop, 'requests')],
             ensures=lambda c: free(c) + [
                 ('the taken request runs once, even if it fails', ('C16',), c.new.leaf('$calls') == cat(c.old.leaf('$calls'), _next(c.new)[1])),
                 ('it asks to be called again', ('C16',), truthy(c.result))]))


add(Contract('SyncQueue.__init__', requires=lambda c: [('the object is new', V.is_ref(c.self))], result='none',
             modifies=lambda c: [('SyncQueue.' + f, c.self) for f in SCHEMA['SyncQueue']],
             ensures=lambda c: [
                 ('nothing waits', ('C16',), And(*[c.new('SyncQueue.' + n, c.self) == nil for k, n in QF])),
                 ('nothing is scheduled', ('C16',), c.new('SyncQueue._handler', c.self) == none),
                 ('requests of the creating thread run at once', ('C16',), c.new('SyncQueue._origin_thread', c.self) == c.old.leaf('$thread'))]))


# requests issued by another thread
def _foreign(name, fn, params):
    def req(c):
        t = c.self
        return [('another thread', c.old('SyncQueue._origin_thread', c.old('MainTree._queue', t)) != c.old.leaf('$thread'))] + unlocked(c)

    def ens(c):
        el = tup(seq(bound('MainTree.' + fn, c.self), *[c.arg(a) for a in params]))
        prio = c.priority if name in ('add_node', 'modify_node') else none
        return free(c) + queued(c, el, prio)
    add(Contract('MainTree.%s#queued' % name, body='MainTree.' + name, requires=req, ensures=ens, modifies=QMOD, result='none'))


_foreign('add_node', '_add_node', ['node', 'parent_id'])
_foreign('remove_node', '_remove_node', ['node_id', 'recursive'])
_foreign('modify_node', '_modify_node', ['node_id'])
_foreign('new_relationship', '_new_relationship', ['parent_id', 'child_id'])
_foreign('break_relationship', '_break_relationship', ['parent_id', 'child_id'])


# --------------------------------------------------------------- listener registries
class RG:
    def __init__(self, H, cls, o):
        self.dom = H(cls + '.__cllbcks.dom', o)
        self.keys = H(cls + '.__cllbcks.val.dom', o)
        self.fn = H(cls + '.__cllbcks.val.val', o)

    def has(self, ev, k):
        return And(Select(self.dom, ev), Select(Select(self.keys, ev), k))

    def f(self, ev, k):
        return Select(Select(self.fn, ev), k)


ev_, k_ = z3.Consts('ev_ k_', V)


def _registry(cls, reg, dereg, tags=('C07',)):
    leaf = cls + '.__cllbcks'
    fresh_key = lambda L: []

    def reg_ens(c):
        o, n = RG(c.old, cls, c.self), RG(c.new, cls, c.self)
        return [
            ('the key is new', tags, Not(o.has(c.event, c.result))),
            ('the listener is registered', tags, And(n.has(c.event, c.result), n.f(c.event, c.result) == c.func)),
            ('no other listener is added or lost', tags, FA([ev_, k_], Implies(Or(ev_ != c.event, k_ != c.result), n.has(ev_, k_) == o.has(ev_, k_)),
                                                            [Select(Select(n.keys, ev_), k_), Select(Select(o.keys, ev_), k_)])),
            ('no other listener is replaced', tags, FA([ev_, k_], Implies(And(o.has(ev_, k_)), n.f(ev_, k_) == o.f(ev_, k_)),
                                                       [Select(Select(n.fn, ev_), k_), Select(Select(o.keys, ev_), k_)])),
        ]

    def dereg_ens(c):
        o, n = RG(c.old, cls, c.self), RG(c.new, cls, c.self)
        return [
            ('the listener is gone', tags, Not(n.has(c.event, c.key))),
            ('no other listener is added or lost', tags, FA([ev_, k_], Implies(Or(ev_ != c.event, k_ != c.key), n.has(ev_, k_) == o.has(ev_, k_)),
                                                            [Select(Select(n.keys, ev_), k_), Select(Select(o.keys, ev_), k_)])),
            ('no other listener is replaced', tags, FA([ev_, k_], Implies(n.has(ev_, k_), n.f(ev_, k_) == o.f(ev_, k_)),
                                                       [Select(Select(n.fn, ev_), k_), Select(Select(o.keys, ev_), k_)])),
        ]
    add(Contract('%s.%s' % (cls, reg), ensures=reg_ens, modifies=lambda c: [(leaf, c.self)], result='V'))
    add(Contract('%s.%s' % (cls, dereg), ensures=dereg_ens, modifies=lambda c: [(leaf, c.self)], result='none'))


_registry('MainTree', 'register_callback', 'deregister_callback')
SCHEMA['ViewTree'] = {
    'maininterface': ('obj', 'Tree'),
    '__maintree': ('obj', 'MainTree'),
    '__cllbcks': ('dict', ('dict', 'V')),
    '__fbank': ('obj', 'FiltersBank'),
    'static': 'bool',
    '__ft': ('obj', 'FilteredTree'),
}
_registry('ViewTree', 'register_cllbck', 'deregister_cllbck')


def called_once(c, cls, ev, args):
    r = RG(c.old, cls, c.self)
    ks = T.enum(Select(r.keys, ev))
    return c.new.leaf('$calls') == cat(c.old.leaf('$calls'), If(Select(r.dom, ev), T.fcalls(T.vmap(ks, Select(r.fn, ev)), args), nil))


def _calls_loop(args):
    def inv(L):
        return [('the listeners seen so far were called once each', ('C07',), L.cur.leaf('$calls') == cat(L.pre.leaf('$calls'), T.fcalls(L.done, args(L))))]
    return LoopSpec(inv, 'listeners')


add(Contract('MainTree._callback#body', body='MainTree._callback', modifies=['$calls'], result='none',
             ensures=lambda c: [('every registered listener of the event is called exactly once, no other', ('C07',), called_once(c, 'MainTree', c.event, seq(c.node_id)))],
             loops=[_calls_loop(lambda L: seq(L.arg('node_id')))]))

add(Contract('ViewTree.__emit', modifies=['$calls'], result='none', self_cls='ViewTree',
             ensures=lambda c: [('every registered listener of the event is called exactly once, no other', ('C07', 'C11', 'C18'),
                                 Implies(Not(truthy(c.arg('neworder'))), called_once(c, 'ViewTree', c.event, seq(c.node_id, c.arg('path')))))],
             loops=[_calls_loop(lambda L: seq(L.arg('node_id'), L.arg('path')))], requires=lambda c: [('no reordering is announced (the tree never reorders)', Not(truthy(c.arg('neworder'))))]))
