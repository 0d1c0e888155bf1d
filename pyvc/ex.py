"""Symbolic executor / VC generator for the Python subset used by liblarch.

Forward symbolic execution of the extracted AST, function by function.  Calls to functions with a
contract use the contract (requires checked, modifies havocked, ensures assumed); calls to functions
without one are inlined.  Loops use invariants (LoopSpec).  Every obligation is a formula
    background theory  /\\  path condition  ==>  goal
Mutable lists/dicts/sets are tracked as *locations* (object field, dict entry, local object), so that
aliasing through local variables is exact; anything the ownership discipline cannot express raises
Unsupported (the function is then out of the verifier's reach, never silently accepted).
"""
import ast
import itertools
import time
import z3
from z3 import And, Or, Not, Implies, If, Select, Store, BoolVal, IntVal
from . import theory as T
from .theory import V, S, none, vbool, vint, tup, nil, snoc, length, mem, at, take, lit, truthy, FA, seq


class Unsupported(Exception):
    pass


class NotInductive(Exception):
    pass


class NeedSpec(Unsupported):
    """a loop without an applicable invariant"""


# ------------------------------------------------------------------ types
def leaves(ty):
    """flattened leaves of a type: list of (suffix, sort)"""
    if ty in ('V', 'opaque', 'str', 'tuple') or (isinstance(ty, tuple) and ty[0] in ('obj', 'objs')):
        return [('', V)]
    if ty == 'bool':
        return [('', z3.BoolSort())]
    if ty == 'int':
        return [('', z3.IntSort())]
    if ty == 'list' or (isinstance(ty, tuple) and ty[0] == 'list'):
        return [('', S)]
    if ty == 'set':
        return [('', T.VB)]
    if isinstance(ty, tuple) and ty[0] == 'dict':
        r = [('.dom', T.VB)]
        if ty[1] is not None:
            for sfx, so in leaves(ty[1]):
                r.append(('.val' + sfx, z3.ArraySort(V, so)))
        return r
    if isinstance(ty, tuple) and ty[0] == 'rec':
        r = []
        for k in sorted(ty[1]):
            for sfx, so in leaves(ty[1][k]):
                r.append(('.' + k + sfx, so))
        return r
    raise Unsupported('type %r' % (ty,))


def is_composite(ty):
    return ty in ('list', 'set') or (isinstance(ty, tuple) and ty[0] in ('list', 'dict', 'rec'))


def elem_type(ty):
    return ty[1] if isinstance(ty, tuple) and ty[0] == 'list' else 'V'


# ------------------------------------------------------------------ symbolic values
class SV:
    pass


class VV(SV):
    def __init__(self, t, cls=None, arity=None):
        self.t, self.cls, self.arity = t, cls, arity

    def __repr__(self):
        return 'VV(%s)' % self.t


class BV(SV):
    def __init__(self, t):
        self.t = t


class IV(SV):
    def __init__(self, t):
        self.t = t


class LocV(SV):
    def __init__(self, loc):
        self.loc = loc

    def __repr__(self):
        return 'LocV(%s)' % (self.loc,)


class TupV(SV):
    def __init__(self, items):
        self.items = items


class FnV(SV):
    def __init__(_fv, kind, **kw):
        _fv.kind = kind
        _fv.__dict__.update(kw)


class Undef(SV):
    pass


class Bound(SV):
    """a local first bound inside a loop: bound to this value where the condition holds"""
    def __init__(self, cond, val):
        self.cond, self.val = cond, val


class Loc:
    """root: ('F', cls, field, objterm) | ('L', id);  steps: list of ('k', term) | ('r', name)"""
    def __init__(self, root, steps=()):
        self.root, self.steps = root, tuple(steps)

    def step(self, st):
        return Loc(self.root, self.steps + (st,))

    def __repr__(self):
        return 'Loc(%s,%s)' % (self.root, self.steps)


_fresh = itertools.count(1)
FRESH_PREFIX = '!'


def fresh(name, sort):
    return z3.Const('%s!%d' % (name, next(_fresh)), sort)


def serials(t):
    """largest fresh serial occurring in a term"""
    best = 0
    seen = set()
    todo = [t]
    while todo:
        e = todo.pop()
        if e.get_id() in seen:
            continue
        seen.add(e.get_id())
        if z3.is_const(e) and e.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            n = e.decl().name()
            if '!' in n:
                try:
                    best = max(best, int(n.rsplit('!', 1)[1]))
                except ValueError:
                    pass
        elif z3.is_quantifier(e):
            todo.append(e.body())
        todo.extend(e.children())
    return best


def sel(t, k):
    """Select, reading through a store at the same index"""
    while z3.is_app(t) and t.decl().kind() == z3.Z3_OP_STORE:
        if t.arg(1).eq(k):
            return t.arg(2)
        if z3.is_app(k) and z3.is_app(t.arg(1)) and k.decl().eq(V.atom) and t.arg(1).decl().eq(V.atom) and z3.is_int_value(k.arg(0)) and z3.is_int_value(t.arg(1).arg(0)):
            t = t.arg(0)        # two different literals
            continue
        break
    return Select(t, k)


class P:
    """path state"""
    __slots__ = ('pc', 'heap', 'objs', 'env', 'frame', 'trace')

    def __init__(self):
        self.pc, self.heap, self.objs, self.env, self.frame, self.trace = [], {}, {}, {}, None, ()

    def copy(self):
        q = P()
        q.pc, q.heap, q.objs, q.env = list(self.pc), dict(self.heap), dict(self.objs), dict(self.env)
        q.frame, q.trace = self.frame, self.trace
        return q


class Frame:
    def __init__(self, func, entry_heap, contract, args, parent=None, line=None, env=None):
        self.func, self.entry_heap, self.contract, self.args, self.parent = func, entry_heap, contract, args, parent
        self.line, self.env = line, env         # of the call, when the body is inlined into its caller


class Heap:
    """read access to a heap snapshot for specifications"""
    def __init__(self, ex, heap):
        self.ex, self.heap = ex, heap

    def leaf(self, name):
        return self.ex.leaf(self.heap, name)

    def __call__(self, name, *index):
        t = self.leaf(name)
        for k in index:
            t = sel(t, k)
        return t


class Ctx:
    """what a contract sees"""
    def __init__(self, ex, args, old, new, result=None, exc=None, path=None):
        self.ex, self.args = ex, args
        self.old = Heap(ex, old)
        self.new = Heap(ex, new)
        self.result, self.exc, self.path = result, exc, path

    def arg(self, name):
        return self.ex.spec_term(self.args[name])

    def __getattr__(self, name):
        args = self.__dict__.get('args') or {}
        if name in args:
            return self.ex.spec_term(args[name])
        raise AttributeError(name)


class LCtx:
    """what a loop invariant sees"""
    def __init__(self, ex, path, owner, loop_heap, i=None, sq=None, loop_env=None, loop_objs=None):
        self.ex, self.path, self.i, self.seq = ex, path, i, sq
        self.owner = owner                      # frame of the function whose specification this is
        self.cur = Heap(ex, path.heap)
        self.old = Heap(ex, owner.entry_heap)
        self.pre = Heap(ex, loop_heap)
        self.args = owner.args
        self.loop_env, self.loop_objs = loop_env, loop_objs
        self.done = take(sq, i) if sq is not None else None

    def arg(self, name):
        return self.ex.spec_term(self.args[name])

    def lookup(self, name, env):
        """a local of the function, or (in an inlined helper that is described by its caller's invariants) of the caller"""
        fr = self.path.frame
        while True:
            if name in env and not isinstance(env[name], Undef):
                return env[name]
            if fr is None or fr is self.owner or fr.env is None:
                return None
            env, fr = fr.env, fr.parent

    def has(self, name):
        return self.lookup(name, self.path.env) is not None

    def local(self, name, leaf=None):
        v = self.lookup(name, self.path.env)
        if v is None:
            raise NeedSpec('loop invariant mentions local %r which is not in scope' % name)
        return self.ex.spec_term(v, self.path, leaf)

    def truth(self, name):
        """truth value of a local flag, whatever kind of value it holds; the loop may do without the flag (it returns instead)"""
        if not self.has(name) and not any(isinstance(v, BV) for v in self.path.env.values()):
            return BoolVal(True)
        t = self.local(name)
        return t if z3.is_bool(t) else T.truthy(t)

    def prelocal(self, name, leaf=None):
        v = self.lookup(name, self.loop_env)
        if v is None:
            raise NeedSpec('loop invariant mentions local %r which is not in scope at loop entry' % name)
        q = self.path.copy()
        q.objs = self.loop_objs
        q.heap = self.pre.heap
        return self.ex.spec_term(v, q, leaf)


class LoopSpec:
    def __init__(self, inv, name='loop', hints=None, entry=None, step=None, cuts=(), ghost=None, binds=None):
        self.binds = binds      # locals first bound in the loop: L -> {name: (when it is bound, its value)}
        self.inv, self.name, self.hints, self.entry, self.step, self.cuts = inv, name, hints, entry, step, cuts
        self.ghost = ghost      # ghost assignments made when the loop is reached: L -> {leaf: (object it belongs to, term)}


class Merged:
    """several loop specifications at once, without the clauses dropped"""
    def __init__(self, specs, dropped):
        self.specs, self.dropped, self.name, self.cuts = specs, set(dropped), 'merged', ()

    def each(self, f):
        out = []
        for k, sp in enumerate(self.specs):
            try:
                out += f(k, sp)
            except (NeedSpec, AttributeError, KeyError, z3.Z3Exception, TypeError, Unsupported):
                continue
        return out

    def inv(self, L):
        return self.each(lambda k, sp: [c for c in ((lab, tags, f, (k, lab)) for lab, tags, f in [norm_clause(c) for c in sp.inv(L)]) if c[3] not in self.dropped])

    def hints(self, L):
        return self.each(lambda k, sp: list(sp.hints(L)) if sp.hints else [])

    def entry(self, L):
        return self.each(lambda k, sp: list(sp.entry(L)) if sp.entry else [])

    def step(self, L):
        return self.each(lambda k, sp: list(sp.step(L)) if sp.step else [])


class Contract:
    def __init__(self, qual, params=None, requires=None, ensures=None, modifies=(), raises=None,
                 result='V', loops=(), hints=None, trusted=None, self_cls=None, inline=False, ext=None,
                 assume_entry=None, props=(), witness=None, exhints=None, split=None, varkw=False,
                 inline_calls=False, ghost=None, body=None, callhints=None, callmap=None, fixed=None, reassigns=None, defaults=None, default_tags=()):
        self.defaults = defaults           # parameter -> what it is when the caller does not give it
        self.default_tags = default_tags
        self.callmap = callmap or {}       # callee -> (p, args, ex) -> [(formula, contract name)]: which contract of a callee with several
        self.fixed = fixed or {}           # parameter -> string constant this contract is for
        self.reassigns = reassigns         # (c, location) -> formula under which the callee keeps the container object at this location
        self.callhints = callhints         # definitional facts added at call sites: (c, entry heap) -> [formula]
        self.qual = qual
        self.params = params or {}
        self.requires = requires or (lambda c: [])
        self.ensures = ensures or (lambda c: [])
        self.modifies = modifies
        self.raises = raises or {}        # exception name -> lambda c: [(label, tags, formula)]
        self.result = result
        self.loops = list(loops)
        self.hints = hints or (lambda c: [])
        self.exhints = exhints
        self.trusted = trusted
        self.self_cls = self_cls
        self.ext = ext
        self.assume_entry = assume_entry
        self.props = props
        self.split = split
        self.inline_calls = inline_calls   # verified on its own, but callers see the body (private helpers)
        self.ghost = ghost                 # ghost assignments executed when the body returns: c -> {leaf: term}
        self.varkw = varkw                 # {'name': type} of the keyword arguments of a **kwargs function
        self.body = body                   # name of the real function, when several contracts describe one


class Ob:
    __slots__ = ('fn', 'label', 'tags', 'pc', 'goal', 'line', 'status', 'secs', 'backend', 'hints', 'kind', 'clause')

    def __init__(self, fn, label, tags, pc, goal, line=None, hints=(), kind='post'):
        self.fn, self.label, self.tags, self.pc, self.goal, self.line = fn, label, tuple(tags), list(pc), goal, line
        self.hints = list(hints)
        self.kind = kind
        self.status, self.secs, self.backend = None, 0.0, None


def norm_clause(cl):
    """(label, formula) or (label, tags, formula)"""
    if len(cl) == 2:
        return cl[0], (), cl[1]
    return cl


BUILTIN_EXC = {'Exception', 'UnboundLocalError', 'KeyError', 'ValueError', 'IndexError', 'AttributeError', 'TypeError', 'AssertionError'}


class Exec:
    def __init__(self, source, schema, contracts, loops=None, exthooks=None, prune_ms=250, ghost=None):
        self.src, self.schema, self.contracts = source, schema, contracts
        self.loops = loops or {}
        self.exthooks = exthooks or {}
        self.guards = {}                  # (class, field) -> (label, p -> formula): condition for touching the field
        self.nested = {('TreeModel', 'types')}     # lists of lists, the inner ones owned by the field
        self.ghost = ghost or {}          # ghost leaf name -> sort (whole leaf)
        self.dry = 0
        self.trials = False               # try every invariant of the function on every loop (second pass only)
        self.restructured = set()         # functions with loops their specification does not know
        self.choices = 0                  # loops for which more than one invariant could be tried
        self.writes = None
        self.ecls = {}
        self.obs = []
        self.cur = None
        self.prune_ms = prune_ms
        self.axioms = T.axioms()
        self.depth = 0
        self.inlined = set()
        self.used_contracts = set()
        self.unmatched_loops = []
        self.prune_solver = None
        self.prunes = 0
        self.npaths = 0
        self.init_heap = {}

    # ------------------------------------------------------------ schema
    def field_type(self, cls, field):
        c = cls
        seen = set()
        todo = [cls]
        while todo:
            c = todo.pop(0)
            if c in seen:
                continue
            seen.add(c)
            if c in self.schema and field in self.schema[c]:
                return c, self.schema[c][field]
            if c in self.src.classes:
                todo += self.src.classes[c]['bases']
        return None, None

    def leaf_sort(self, name):
        if name in self.ghost:
            return self.ghost[name]
        cls, rest = name.split('.', 1)
        for f, ty in self.schema[cls].items():
            if rest == f or rest.startswith(f + '.'):
                for sfx, so in leaves(ty):
                    if f + sfx == rest:
                        return z3.ArraySort(V, so)
        raise KeyError(name)

    def leaf(self, heap, name):
        if name not in heap:
            if name not in self.init_heap:
                self.init_heap[name] = z3.Const('H0.' + name, self.leaf_sort(name))
            heap[name] = self.init_heap[name]
        return heap[name]

    def leaf_names(self, prefix):
        """all leaf names matching 'Cls.field' (all leaves of the field)"""
        if prefix in self.ghost:
            return [prefix]
        cls, rest = prefix.split('.', 1)
        out = []
        for f, ty in self.schema[cls].items():
            for sfx, so in leaves(ty):
                n = f + sfx
                if n == rest or n.startswith(rest + '.'):
                    out.append(cls + '.' + n)
        if not out:
            raise KeyError(prefix)
        return out

    # ------------------------------------------------------------ locations
    def resolve(self, p, loc):
        """follow redirects of moved local objects"""
        while loc.root[0] == 'L' and loc.root[1] in p.objs and p.objs[loc.root[1]][0] == 'moved':
            tgt = p.objs[loc.root[1]][1]
            loc = Loc(tgt.root, tgt.steps + loc.steps)
        return loc

    def loc_type(self, p, loc):
        loc = self.resolve(p, loc)
        if loc.root[0] == 'F':
            _, ty = self.field_type(loc.root[1], loc.root[2])
        else:
            ty = p.objs[loc.root[1]][0]
        for k, v in loc.steps:
            if k == 'k':
                ty = ty[1]
            else:
                ty = ty[1][v]
        return ty

    def _leafpath(self, loc, sfx):
        name = ''
        idx = []
        for k, v in loc.steps:
            if k == 'k':
                name += '.val'
                idx.append(v)
            else:
                name += '.' + v
        return name + sfx, idx

    def read(self, p, loc, sfx=''):
        loc = self.resolve(p, loc)
        name, idx = self._leafpath(loc, sfx)
        if loc.root[0] == 'F':
            decl, _ = self.field_type(loc.root[1], loc.root[2])
            self.guard(p, decl, loc)
            t = sel(self.leaf(p.heap, decl + '.' + loc.root[2] + name), loc.root[3])
        else:
            o = p.objs[loc.root[1]]
            if name not in o[1]:
                raise Unsupported('no leaf %s of local object' % name)
            t = o[1][name]
        for k in idx:
            t = sel(t, k)
        return t

    def _nstore(self, arr, idx, val):
        if not idx:
            return val
        return Store(arr, idx[0], self._nstore(sel(arr, idx[0]), idx[1:], val))

    def write(self, p, loc, val, sfx='', ec='?'):
        loc = self.resolve(p, loc)
        name, idx = self._leafpath(loc, sfx)
        if loc.root[0] == 'F':
            decl, _ = self.field_type(loc.root[1], loc.root[2])
            full = decl + '.' + loc.root[2] + name
            self.guard(p, decl, loc)
            self.log_write(('heap', full, loc.root[3]))
            p.heap[full] = self._nstore(self.leaf(p.heap, full), [loc.root[3]] + idx, val)
        else:
            o = p.objs[loc.root[1]]
            if len(o) > 2 and o[2].get('frozen'):
                raise Unsupported('mutation of a list already stored inside another container')
            self.log_write(('obj', loc.root[1]))
            if ec is not None:
                self.ecls.setdefault(loc.root[1], {'?'}).add(ec)
            lv = dict(o[1])
            base = lv.get(name)
            if idx and base is None:
                raise Unsupported('untyped local dict')
            lv[name] = self._nstore(base, idx, val)
            p.objs[loc.root[1]] = (o[0], lv) + o[2:]

    def guard(self, p, decl, loc):
        g = self.guards.get((decl, loc.root[2]))
        if g and self.cur in g[2]:
            self.oblige(p, '%s.%s: %s' % (decl, loc.root[2], g[0]), g[1](self, p, loc.root[3]), g[3], kind='guard')

    def log_write(self, w):
        if self.writes is not None:
            self.writes.append(w)

    def new_obj(self, p, ty, lv, meta=None):
        oid = next(_fresh)
        p.objs[oid] = (ty, lv, meta or {})
        return LocV(Loc(('L', oid)))

    def new_list(self, p, content, ty='list'):
        ever = z3.K(V, BoolVal(False))
        c = content
        # ghost history set
        e = content
        items = []
        while z3.is_app(e) and e.decl().eq(S.snoc):
            items.append(e.arg(1))
            e = e.arg(0)
        if e.eq(nil):
            for it in items:
                ever = Store(ever, it, BoolVal(True))
        else:
            ever = fresh('ever', T.VB)
            xx = T.x
            p.pc.append(FA([xx], Select(ever, xx) == mem(content, xx), [Select(ever, xx)]))
        r = self.new_obj(p, ty, {'': c, '#ever': ever})
        if c.eq(nil):
            self.ecls[r.loc.root[1]] = set()        # classes of everything ever put into it
        return r

    def elem_ty(self, p, loc):
        ty = self.loc_type(p, loc)
        loc = self.resolve(p, loc)
        if ty == 'list' and loc.root[0] == 'L' and not loc.steps:
            cs = self.ecls.get(loc.root[1], {'?'})
            if len(cs) == 1 and '?' not in cs:
                return ('obj', list(cs)[0])
        return elem_type(ty)

    def copy_composite(self, p, loc):
        ty = self.loc_type(p, loc)
        lv = {}
        for sfx, so in leaves(ty):
            lv[sfx] = self.read(p, loc, sfx)
        if ty == 'list' or (isinstance(ty, tuple) and ty[0] == 'list'):
            return self.new_list(p, lv[''], ty)
        return self.new_obj(p, ty, lv)

    def store_composite(self, p, loc, sv):
        """assign composite value sv into location loc (ownership move for local objects)"""
        if not isinstance(sv, LocV):
            raise Unsupported('storing a scalar where a container is declared')
        src = self.resolve(p, sv.loc)
        ty = self.loc_type(p, loc)
        if src.root[0] == 'F':
            raise Unsupported('aliasing store of a container that already lives in a field')
        sty = self.loc_type(p, src)
        self.detach_aliases(p, loc)
        for sfx, so in leaves(ty):
            try:
                val = self.read(p, src, sfx)
                if not val.sort().eq(so):
                    raise Unsupported('container type mismatch')
            except Unsupported:
                if isinstance(sty, tuple) and sty[0] == 'dict' and sty[1] is None:
                    val = fresh('emptyval', so)
                else:
                    raise
            self.write(p, loc, val, sfx)
        if not src.steps:
            meta = p.objs[src.root[1]][2] if len(p.objs[src.root[1]]) > 2 else {}
            if meta.get('frozen'):
                raise Unsupported('moving a shared list')
            p.objs[src.root[1]] = ('moved', loc, {})
        else:
            raise Unsupported('moving part of a container')

    def detach_aliases(self, p, loc):
        """locals that alias loc (or something below it) keep the old object: give them a private copy"""
        loc = self.resolve(p, loc)
        for n, v in list(p.env.items()):
            if isinstance(v, LocV):
                l = self.resolve(p, v.loc)
                if l.root[0] != loc.root[0]:
                    continue
                if l.root[0] == 'F':
                    if l.root[2] != loc.root[2]:
                        continue
                    if not l.root[3].eq(loc.root[3]):
                        raise Unsupported('possible alias through a different object expression')
                elif l.root[1] != loc.root[1]:
                    continue
                if len(l.steps) < len(loc.steps):
                    continue
                same = True
                for a, b in zip(l.steps, loc.steps):
                    if a[0] == 'k':
                        if not a[1].eq(b[1]):
                            if self.quick_unsat(p, a[1] == b[1]):
                                same = False
                                break
                            if not self.quick_unsat(p, a[1] != b[1]):
                                raise Unsupported('possible alias through a different key')
                    elif a[1] != b[1]:
                        same = False
                        break
                if same:
                    p.env[n] = self.copy_composite(p, l)

    # ------------------------------------------------------------ values
    def to_v(self, p, sv):
        if isinstance(sv, VV):
            return sv.t
        if isinstance(sv, BV):
            return vbool(sv.t)
        if isinstance(sv, IV):
            return vint(sv.t)
        if isinstance(sv, TupV):
            return tup(seq(*[self.to_v(p, it) for it in sv.items]))
        if isinstance(sv, FnV):
            if sv.kind == 'bound':
                return T.tuple_(lit('fn:' + sv.name), self.to_v(p, sv.self))
            if sv.kind == 'partial':
                return tup(seq(lit('partial'), self.to_v(p, sv.func), *[self.to_v(p, a) for a in sv.args]))
            if sv.kind == 'lambda':
                return self.closure(p, sv)
            return lit('fn:' + str(sv.__dict__.get('name', sv.kind)))
        if isinstance(sv, LocV):
            ty = self.loc_type(p, sv.loc)
            loc = self.resolve(p, sv.loc)
            if ty == 'list' and loc.root[0] == 'L' and not loc.steps:
                o = p.objs[loc.root[1]]
                meta = dict(o[2]) if len(o) > 2 else {}
                meta['frozen'] = True
                p.objs[loc.root[1]] = (o[0], o[1], meta)
                return tup(self.read(p, loc))
            raise Unsupported('container used as a plain value')
        raise Unsupported('value of kind %s' % type(sv).__name__)

    def closure(self, p, fv):
        """a lambda kept as a value: the same value for the same text without free variables, an unknown one otherwise"""
        n = fv.node
        own = {a.arg for a in n.args.args}
        free = {m.id for m in ast.walk(n.body) if isinstance(m, ast.Name)} - own
        t = lit('fn:lambda ' + ast.dump(n)) if not free else fresh('lambda', V)
        fr = p.frame
        while fr is not None:
            e = fr.contract.ext if fr.contract else None
            if e is not None and hasattr(e, 'closure'):
                e.closure(self, p, fv, t)
                break
            fr = fr.parent
        return t

    def spec_term(self, sv, p=None, leaf=None):
        if isinstance(sv, (VV, BV, IV)):
            return sv.t
        if isinstance(sv, TupV):
            return self.to_v(p, sv)
        if isinstance(sv, LocV):
            if p is None:
                p = self.spec_path
            if leaf is None:
                leaf = ''
                ty = self.loc_type(p, sv.loc)
                if isinstance(ty, tuple) and ty[0] == 'dict':
                    leaf = '.dom'
            if leaf == '#ever':
                loc = self.resolve(p, sv.loc)
                return p.objs[loc.root[1]][1].get('#ever')
            return self.read(p, sv.loc, leaf)
        if isinstance(sv, FnV):
            return self.to_v(p, sv)
        if sv is None:
            return none
        return sv

    def of_type(self, p, t, ty):
        """wrap a term of a scalar type"""
        if ty == 'bool':
            return BV(t)
        if ty == 'int':
            return IV(t)
        if isinstance(ty, tuple) and ty[0] == 'obj':
            return VV(t, ty[1])
        return VV(t)

    def fresh_value(self, p, name, ty):
        if is_composite(ty):
            if ty == 'list' or (isinstance(ty, tuple) and ty[0] == 'list'):
                return self.new_list(p, fresh(name, S), ty)
            return self.new_obj(p, ty, {sfx: fresh(name + sfx, so) for sfx, so in leaves(ty)})
        if ty == 'none':
            return VV(none)
        (sfx, so), = leaves(ty)
        return self.of_type(p, fresh(name, so), ty)

    def undict(self, p, sv):
        """dictionaries handed around as objects are locations in the heap of the pseudo class PyDict"""
        if isinstance(sv, VV) and sv.cls == 'PyDict':
            return LocV(Loc(('F', 'PyDict', 'd', sv.t)))
        return sv

    def truth(self, p, sv):
        """python truthiness as a formula"""
        if isinstance(sv, VV) and sv.cls == 'PyDict':
            return And(sv.t != none, self.read(p, self.undict(p, sv).loc, '.dom') != z3.K(V, BoolVal(False)))
        if isinstance(sv, BV):
            return sv.t
        if isinstance(sv, IV):
            return sv.t != 0
        if isinstance(sv, VV):
            if sv.cls:
                return sv.t != none
            return truthy(sv.t)
        if isinstance(sv, TupV):
            return BoolVal(len(sv.items) > 0)
        if isinstance(sv, FnV):
            return BoolVal(True)
        if isinstance(sv, LocV):
            ty = self.loc_type(p, sv.loc)
            if ty == 'list' or ty[0] == 'list':
                return self.read(p, sv.loc) != nil
            if ty[0] == 'dict':
                return self.read(p, sv.loc, '.dom') != z3.K(V, BoolVal(False))
            if ty == 'set':
                return self.read(p, sv.loc) != z3.K(V, BoolVal(False))
            if ty[0] == 'rec':
                return BoolVal(bool(ty[1]))
        raise Unsupported('truth value')

    def eq(self, p, a, b):
        if isinstance(a, LocV) and isinstance(b, LocV):
            ta, tb = self.loc_type(p, a.loc), self.loc_type(p, b.loc)
            la = ta == 'list' or ta[0] == 'list'
            lb = tb == 'list' or tb[0] == 'list'
            if la and lb:
                return self.read(p, a.loc) == self.read(p, b.loc)
            if la != lb:
                return BoolVal(False)
            if ta[0] == 'dict' and tb[0] == 'dict' and (ta[1] is None or tb[1] is None):
                return self.read(p, a.loc, '.dom') == self.read(p, b.loc, '.dom')
            raise Unsupported('container equality')
        if isinstance(a, LocV) or isinstance(b, LocV):
            other = b if isinstance(a, LocV) else a
            if isinstance(other, (VV, TupV, BV, IV, FnV)):
                # a list/dict never equals None/str/tuple/object
                return BoolVal(False)
        if isinstance(a, IV) and isinstance(b, IV):
            return a.t == b.t
        if isinstance(a, BV) and isinstance(b, BV):
            return a.t == b.t
        return self.to_v(p, a) == self.to_v(p, b)

    # ------------------------------------------------------------ obligations and pruning
    def oblige(self, p, label, goal, tags=(), line=None, hints=(), kind='post', clause=None):
        if self.dry:
            return
        if z3.is_true(z3.simplify(goal)) or any(goal.eq(f) for f in p.pc):
            goal = BoolVal(True)
        self.obs.append(Ob(self.cur, label, tags, p.pc, goal, line, hints, kind))
        self.obs[-1].clause = clause

    def quick_unsat(self, p, cond):
        c = z3.simplify(cond)
        if z3.is_false(c):
            return True
        if z3.is_true(c) and not p.pc:
            return False
        if self.prune_ms <= 0:
            return False
        sol = T.new_solver(self.prune_ms, simple=True)
        sol.add(*self.axioms)
        sol.add(*p.pc)
        sol.add(cond)
        self.prunes += 1
        return sol.check() == z3.unsat

    def surely(self, p, cond, ms=4000):
        sol = T.new_solver(ms, simple=True)
        sol.add(*T.relevant(self.axioms, list(p.pc) + [cond]))
        sol.add(*p.pc)
        sol.add(Not(cond))
        return sol.check() == z3.unsat

    def fork(self, p, cond):
        """yield (bool, path) for feasible branches of a formula"""
        c = z3.simplify(cond)
        if z3.is_true(c):
            return [(True, p)]
        if z3.is_false(c):
            return [(False, p)]
        out = []
        a, b = p, p.copy()
        ua = self.quick_unsat(p, cond)
        ub = False if ua else self.quick_unsat(p, Not(cond))
        if not ua:
            a = p.copy()
            a.pc.append(cond)
            out.append((True, a))
        if not ub:
            b.pc.append(Not(cond))
            out.append((False, b))
        return out

    # ------------------------------------------------------------ expressions
    # every ev* returns a list of (tag, value, path), tag in ('ok', 'exc')
    def evs(self, exprs, p):
        """evaluate several expressions left to right"""
        res = [('ok', [], p)]
        for e in exprs:
            nxt = []
            for tag, vals, q in res:
                if tag == 'exc':
                    nxt.append((tag, vals, q))
                    continue
                if isinstance(e, SV):
                    nxt.append(('ok', vals + [e], q))
                    continue
                for t2, v2, q2 in self.ev(e, q):
                    nxt.append((t2, vals + [v2] if t2 == 'ok' else v2, q2))
            res = nxt
        return res

    def bind(self, res, f):
        out = []
        for tag, v, q in res:
            if tag == 'exc':
                out.append((tag, v, q))
            else:
                out.extend(f(v, q))
        return out

    def exc(self, p, name, line=None):
        return ('exc', (name, line), p)

    def ev(self, e, p):
        m = getattr(self, 'ev_' + type(e).__name__, None)
        if m is None:
            raise Unsupported('expression %s at line %s' % (type(e).__name__, getattr(e, 'lineno', '?')))
        return m(e, p)

    def ev_Constant(self, e, p):
        v = e.value
        if v is None:
            return [('ok', VV(none), p)]
        if isinstance(v, bool):
            return [('ok', BV(BoolVal(v)), p)]
        if isinstance(v, int):
            return [('ok', IV(IntVal(v)), p)]
        if isinstance(v, str):
            return [('ok', VV(lit(v)), p)]
        raise Unsupported('constant %r' % (v,))

    def ev_Name(self, e, p):
        n = e.id
        if n in p.env:
            v = p.env[n]
            if isinstance(v, Undef):
                raise Unsupported('possibly undefined local %s' % n)
            if isinstance(v, Bound):
                return [('ok', v.val, q) if b else self.exc(q, 'UnboundLocalError', e.lineno) for b, q in self.fork(p, v.cond)]
            return [('ok', v, p)]
        if p.frame is not None and n in self.assigned_names(p.frame.func.node.body):
            return [self.exc(p, "UnboundLocalError", e.lineno)]
        if n in self.src.classes:
            return [('ok', FnV('class', cls=n, name=n), p)]
        if n in self.src.funcs:
            return [('ok', FnV('func', func=self.src.funcs[n], name=n), p)]
        if self.src.consts.get(n) is not None:
            return self.ev(self.src.consts[n], p)
        return [('ok', FnV('builtin', name=n), p)]

    def ev_Attribute(self, e, p):
        def go(v, q):
            return self.getattr(q, v, e.attr, e.lineno)
        return self.bind(self.ev(e.value, p), go)

    def getattr(self, p, v, attr, line=None):
        if isinstance(v, VV) and v.cls == 'PyDict':
            return [('ok', FnV('meth', self=v, name=attr), p)]
        if isinstance(v, VV) and v.cls:
            decl, ty = self.field_type(v.cls, attr)
            if ty is not None:
                loc = Loc(('F', v.cls, attr, v.t))
                if is_composite(ty):
                    return [('ok', LocV(loc), p)]
                t = self.read(p, loc)
                if isinstance(ty, tuple) and ty[0] == 'objs':
                    # an object of one of several classes; the cases are exhaustive by construction (cond, class), (not cond, class)
                    return [('ok', VV(t, ty[2] if b else ty[3]), q) for b, q in self.fork(p, ty[1](Heap(self, p.heap), v.t))]
                return [('ok', self.of_type(p, t, ty), p)]
            f = self.src.method(v.cls, attr)
            if f is not None:
                return [('ok', FnV('bound', func=f, self=v, name='%s.%s' % (v.cls, attr)), p)]
            hk = '%s.%s' % (v.cls, attr)
            if hk in self.exthooks:
                return [('ok', FnV('hook', name=hk, self=v), p)]
            raise Unsupported('unknown attribute %s.%s (line %s)' % (v.cls, attr, line))
        if isinstance(v, FnV) and v.kind == 'class':
            f = self.src.method(v.cls, attr)
            if f is not None:
                return [('ok', FnV('func', func=f, name=f.qual), p)]
            raise Unsupported('class attribute %s.%s' % (v.cls, attr))
        if isinstance(v, FnV) and v.kind == 'builtin':
            if v.name in self.src.modules and attr in self.src.classes:
                return [('ok', FnV('class', cls=attr, name=attr), p)]
            return [('ok', FnV('builtin', name=v.name + '.' + attr), p)]
        if isinstance(v, FnV) and v.kind == 'super':
            return [('ok', FnV('builtin', name='super.' + attr), p)]
        return [('ok', FnV('meth', self=v, name=attr), p)]

    def ev_Tuple(self, e, p):
        if any(isinstance(x, ast.Starred) for x in e.elts):
            raise Unsupported('starred tuple')
        return self.bind(self.evs(e.elts, p), lambda vs, q: [('ok', TupV(vs), q)])

    def ev_List(self, e, p):
        def go(vs, q):
            return [('ok', self.new_list(q, seq(*[self.to_v(q, v) for v in vs])), q)]
        return self.bind(self.evs(e.elts, p), go)

    def ev_Set(self, e, p):
        def go(vs, q):
            t = z3.K(V, BoolVal(False))
            for v in vs:
                t = Store(t, self.to_v(q, v), BoolVal(True))
            return [('ok', self.new_obj(q, 'set', {'': t}), q)]
        return self.bind(self.evs(e.elts, p), go)

    def ev_Dict(self, e, p):
        if not e.keys:
            return [('ok', self.new_obj(p, ('dict', None), {'.dom': z3.K(V, BoolVal(False))}), p)]
        if all(isinstance(k, ast.Constant) and isinstance(k.value, str) for k in e.keys):
            def go(vs, q):
                tys, lv = {}, {}
                for k, v in zip(e.keys, vs):
                    if isinstance(v, LocV):
                        ty = self.loc_type(q, v.loc)
                        loc = self.resolve(q, v.loc)
                        if loc.root[0] != 'L':
                            raise Unsupported('dict literal aliasing a field')
                        tys[k.value] = ty
                        for sfx, so in leaves(ty):
                            lv['.' + k.value + sfx] = self.read(q, v.loc, sfx)
                    else:
                        tys[k.value] = 'V'
                        lv['.' + k.value] = self.to_v(q, v)
                return [('ok', self.new_obj(q, ('rec', tys), lv), q)]
            return self.bind(self.evs(e.values, p), go)

        def go2(vs, q):
            n = len(e.keys)
            if n == 1 and isinstance(vs[1], LocV):
                kt = self.to_v(q, vs[0])
                loc = self.resolve(q, vs[1].loc)
                ety = self.loc_type(q, loc)
                if loc.root[0] != 'L' or loc.steps:
                    raise Unsupported('dict literal aliasing a field')
                lv = {'.dom': Store(z3.K(V, BoolVal(False)), kt, BoolVal(True))}
                for sfx, so in leaves(ety):
                    lv['.val' + sfx] = Store(fresh('dval', z3.ArraySort(V, so)), kt, self.read(q, loc, sfx))
                return [('ok', self.new_obj(q, ('dict', ety), lv), q)]
            val = fresh('dval', z3.ArraySort(V, V))
            dom = z3.K(V, BoolVal(False))
            for k, v in zip(vs[:n], vs[n:]):
                kt = self.to_v(q, k)
                dom = Store(dom, kt, BoolVal(True))
                val = Store(val, kt, self.to_v(q, v))
            return [('ok', self.new_obj(q, ('dict', 'V'), {'.dom': dom, '.val': val}), q)]
        return self.bind(self.evs(list(e.keys) + list(e.values), p), go2)

    def ev_JoinedStr(self, e, p):
        t = self.template(e)
        if t:
            return self.bind(self.ev(t[1], p), lambda v, q: [('ok', self.text(q, t[0], v), q)])
        vals = [v.value for v in e.values if isinstance(v, ast.FormattedValue)]
        return self.bind(self.evs(vals, p), lambda vs, q: [('ok', self.opaque_str(q), q)])

    def opaque_str(self, p):
        a = fresh('str', z3.IntSort())
        return VV(T.atom(a))

    def text(self, p, template, arg):
        """a text with one argument put in at %s"""
        try:
            t = T.fmt(lit(template), self.to_v(p, arg))
        except Unsupported:
            return self.opaque_str(p)
        p.pc.append(V.is_atom(t))
        if template.replace('%s', ''):
            p.pc.append(t != lit(''))
        return VV(t)

    def template(self, e):
        """(template, argument) of an expression that puts one argument into a text, or None"""
        const = lambda n: isinstance(n, ast.Constant) and isinstance(n.value, str)
        if isinstance(e, ast.JoinedStr):
            fs = [v for v in e.values if isinstance(v, ast.FormattedValue)]
            if len(fs) == 1 and fs[0].format_spec is None and fs[0].conversion in (-1, 115):
                return ''.join(v.value.replace('%', '%%') if const(v) else '%s' for v in e.values), fs[0].value
        if isinstance(e, ast.BinOp) and isinstance(e.op, ast.Mod) and const(e.left) and e.left.value.count('%') == 1 and '%s' in e.left.value:
            if isinstance(e.right, ast.Tuple):
                return (e.left.value, e.right.elts[0]) if len(e.right.elts) == 1 else None
            return e.left.value, e.right
        if isinstance(e, ast.BinOp) and isinstance(e.op, ast.Add) and const(e.left) and '%' not in e.left.value:
            if isinstance(e.right, ast.Call) and isinstance(e.right.func, ast.Name) and e.right.func.id == 'str' and len(e.right.args) == 1:
                return e.left.value + '%s', e.right.args[0]
            if isinstance(e.right, (ast.Name, ast.Attribute)):
                return e.left.value + '%s', e.right
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr == 'format' and const(e.func.value) and len(e.args) == 1 and not e.keywords:
            if e.func.value.value.count('{}') == 1 and e.func.value.value.count('{') == 1 and '%' not in e.func.value.value:
                return e.func.value.value.replace('{}', '%s'), e.args[0]
        return None

    def ev_Lambda(self, e, p):
        return [('ok', FnV('lambda', node=e, env=dict(p.env), name='lambda'), p)]

    def ev_IfExp(self, e, p):
        def go(v, q):
            out = []
            for b, r in self.fork(q, self.truth(q, v)):
                out += self.ev(e.body if b else e.orelse, r)
            return out
        return self.bind(self.ev(e.test, p), go)

    def ev_BoolOp(self, e, p):
        isand = isinstance(e.op, ast.And)

        def rec(vals, q):
            def go(v, r):
                if len(vals) == 1:
                    return [('ok', v, r)]
                tr = self.truth(r, v)
                # pure remainder producing a formula: no fork needed
                rest = None
                if self.is_pure(vals[1:]):
                    mark = (len(r.pc), dict(r.heap), dict(r.objs))
                    try:
                        rest = rec(vals[1:], r)
                    except Unsupported:
                        rest = None
                    if rest is not None and not (len(rest) == 1 and rest[0][0] == 'ok' and rest[0][2] is r and isinstance(rest[0][1], (BV,))
                                                 and isinstance(v, BV)):
                        r.pc[:] = r.pc[:mark[0]]
                        r.heap, r.objs = mark[1], mark[2]
                        rest = None
                if rest is not None:
                    b = rest[0][1].t
                    return [('ok', BV(And(tr, b) if isand else Or(tr, b)), r)]
                out = []
                for b, r2 in self.fork(r, tr):
                    if b == isand:
                        out += rec(vals[1:], r2)
                    else:
                        out.append(('ok', v if not isinstance(v, BV) else BV(BoolVal(b)), r2))
                return out
            return self.bind(self.ev(vals[0], q), go)
        return rec(e.values, p)

    def is_pure(self, exprs):
        for e in exprs:
            for n in ast.walk(e):
                if isinstance(n, (ast.Call, ast.Subscript, ast.ListComp, ast.Lambda, ast.IfExp, ast.Dict, ast.NamedExpr)):
                    return False
        return True

    def ev_UnaryOp(self, e, p):
        def go(v, q):
            if isinstance(e.op, ast.Not):
                return [('ok', BV(Not(self.truth(q, v))), q)]
            if isinstance(e.op, ast.USub) and isinstance(v, IV):
                return [('ok', IV(-v.t), q)]
            raise Unsupported('unary operator')
        return self.bind(self.ev(e.operand, p), go)

    def ev_BinOp(self, e, p):
        t = self.template(e)
        if t:
            return self.bind(self.ev(t[1], p), lambda v, q: [('ok', self.text(q, t[0], v), q)])
        def go(vs, q):
            return self.binop(q, e.op, vs[0], vs[1], e.lineno)
        return self.bind(self.evs([e.left, e.right], p), go)

    def as_set(self, p, v):
        if isinstance(v, LocV) and self.loc_type(p, v.loc) == 'set':
            return self.read(p, v.loc)
        return None

    def binop(self, q, op, a, b, line):
        if isinstance(op, (ast.BitAnd, ast.BitOr)):
            if isinstance(a, BV) and isinstance(b, BV):
                return [('ok', BV(And(a.t, b.t) if isinstance(op, ast.BitAnd) else Or(a.t, b.t)), q)]
            if isinstance(a, BV) and isinstance(b, VV):
                # V operand: bool and int behave, anything else raises TypeError
                out = []
                for isb, r in self.fork(q, V.is_vbool(b.t)):
                    if isb:
                        out.append(('ok', BV(And(a.t, V.b(b.t)) if isinstance(op, ast.BitAnd) else Or(a.t, V.b(b.t))), r))
                    else:
                        r2 = r.copy()
                        r2.pc.append(V.is_vint(b.t))
                        out.append(('ok', IV(fresh('bitop', z3.IntSort())), r2))
                        r.pc.append(Not(V.is_vint(b.t)))
                        out.append(self.exc(r, 'TypeError', line))
                return out
            sa, sb = self.as_set(q, a), self.as_set(q, b)
            if sa is not None and sb is not None:
                t = fresh('setop', T.VB)
                xx = T.x
                f = And if isinstance(op, ast.BitAnd) else Or
                q.pc.append(FA([xx], Select(t, xx) == f(Select(sa, xx), Select(sb, xx)), [Select(t, xx)]))
                return [('ok', self.new_obj(q, 'set', {'': t}), q)]
        if isinstance(op, ast.Sub):
            sa, sb = self.as_set(q, a), self.as_set(q, b)
            if sa is not None and sb is not None:
                t = fresh('setdiff', T.VB)
                xx = T.x
                q.pc.append(FA([xx], Select(t, xx) == And(Select(sa, xx), Not(Select(sb, xx))), [Select(t, xx)]))
                return [('ok', self.new_obj(q, 'set', {'': t}), q)]
        if isinstance(a, IV) and isinstance(b, IV):
            if isinstance(op, ast.Add):
                return [('ok', IV(a.t + b.t), q)]
            if isinstance(op, ast.Sub):
                return [('ok', IV(a.t - b.t), q)]
            if isinstance(op, ast.Mult):
                return [('ok', IV(a.t * b.t), q)]
        if isinstance(op, ast.Add):
            if isinstance(a, LocV) and isinstance(b, LocV):
                return [('ok', self.new_list(q, T.cat(self.read(q, a.loc), self.read(q, b.loc))), q)]
            if isinstance(a, TupV) and isinstance(b, TupV):
                return [('ok', TupV(a.items + b.items), q)]
            if isinstance(a, VV) and isinstance(b, TupV):
                # tuple (path) + literal tuple
                el = V.elems(a.t)
                for it in b.items:
                    el = snoc(el, self.to_v(q, it))
                out = []
                for ok, r in self.fork(q, V.is_tup(a.t)):
                    out.append(('ok', VV(tup(el)), r) if ok else self.exc(r, 'TypeError', line))
                return out
            if isinstance(a, TupV) and isinstance(b, VV):
                a = VV(self.to_v(q, a))
            if isinstance(a, VV) and isinstance(b, VV):
                out = []
                for ok, r in self.fork(q, And(V.is_tup(a.t), V.is_tup(b.t))):
                    if ok:
                        out.append(('ok', VV(tup(T.cat(V.elems(a.t), V.elems(b.t)))), r))
                    else:
                        out.append(('ok', self.opaque_str(r), r))    # string concatenation
                return out
        if isinstance(op, ast.BitOr) and isinstance(a, FnV) and isinstance(b, FnV):
            return [('ok', VV(fresh('flags', V)), q)]    # flags of a library
        if isinstance(op, (ast.Mod, ast.Add, ast.Mult)):
            return [('ok', self.opaque_str(q), q)]      # string formatting / repetition
        raise Unsupported('binary operator %s line %s' % (type(op).__name__, line))

    def ev_Compare(self, e, p):
        def go(vs, q):
            res = [('ok', None, q)]
            acc = [(BoolVal(True), q)]
            outs = []
            conj = []
            cur = q
            for k, op in enumerate(e.ops):
                rs = self.compare(cur, op, vs[k], vs[k + 1], e.lineno)
                if len(rs) != 1:
                    if len(e.ops) == 1:
                        return rs
                    raise Unsupported('forking comparison in a chain')
                tag, v, cur = rs[0]
                if tag == 'exc':
                    return rs
                conj.append(v.t)
            return [('ok', BV(And(*conj) if len(conj) > 1 else conj[0]), cur)]
        return self.bind(self.evs([e.left] + e.comparators, p), go)

    def compare(self, p, op, a, b, line):
        if isinstance(op, (ast.Eq, ast.NotEq)):
            t = self.eq(p, a, b)
            return [('ok', BV(t if isinstance(op, ast.Eq) else Not(t)), p)]
        if isinstance(op, (ast.Is, ast.IsNot)):
            if isinstance(a, LocV) or isinstance(b, LocV):
                o = b if isinstance(a, LocV) else a
                if isinstance(o, LocV):
                    raise Unsupported('identity of containers')
                t = BoolVal(False)
            else:
                t = self.to_v(p, a) == self.to_v(p, b)
            return [('ok', BV(t if isinstance(op, ast.Is) else Not(t)), p)]
        if isinstance(op, (ast.In, ast.NotIn)):
            t = self.contains(p, a, b)
            return [('ok', BV(t if isinstance(op, ast.In) else Not(t)), p)]
        ops = {ast.Lt: lambda x, y: x < y, ast.LtE: lambda x, y: x <= y, ast.Gt: lambda x, y: x > y, ast.GtE: lambda x, y: x >= y}
        if type(op) in ops:
            a, b = self.as_int(a), self.as_int(b)
            if a is not None and b is not None:
                return [('ok', BV(ops[type(op)](a, b)), p)]
        raise Unsupported('comparison %s line %s' % (type(op).__name__, line))

    def as_int(self, v):
        if isinstance(v, IV):
            return v.t
        if isinstance(v, VV) and z3.is_app(v.t) and v.t.decl().eq(V.vint):
            return v.t.arg(0)
        return None

    def contains(self, p, a, b):
        b = self.undict(p, b)
        if isinstance(b, LocV):
            ty = self.loc_type(p, b.loc)
            at_ = self.to_v(p, a)
            if ty == 'list' or ty[0] == 'list':
                return mem(self.read(p, b.loc), at_)
            if ty == 'set':
                return Select(self.read(p, b.loc), at_)
            if ty[0] == 'dict':
                return Select(self.read(p, b.loc, '.dom'), at_)
            if ty[0] == 'rec':
                return Or(*[at_ == lit(k) for k in ty[1]]) if ty[1] else BoolVal(False)
        if isinstance(b, TupV):
            return Or(*[self.eq(p, a, it) for it in b.items]) if b.items else BoolVal(False)
        if isinstance(b, VV):
            return mem(V.elems(b.t), self.to_v(p, a))
        if isinstance(b, FnV) and b.kind == 'keysview':
            return self.contains(p, a, b.src)
        raise Unsupported('membership test')

    def ev_Subscript(self, e, p):
        if isinstance(e.slice, ast.Slice):
            def gs(v, q):
                return self.slice(q, v, e.slice, e.lineno)
            return self.bind(self.ev(e.value, p), gs)

        def go(vs, q):
            return self.getitem(q, vs[0], vs[1], e.lineno)
        return self.bind(self.evs([e.value, e.slice], p), go)

    def slice(self, p, v, sl, line):
        lo = sl.lower.value if isinstance(sl.lower, ast.Constant) else (None if sl.lower is None else 'x')
        hi = None
        if sl.upper is not None:
            u = sl.upper
            if isinstance(u, ast.UnaryOp) and isinstance(u.op, ast.USub) and isinstance(u.operand, ast.Constant):
                hi = -u.operand.value
            elif isinstance(u, ast.Constant):
                hi = u.value
            else:
                hi = 'x'
        if isinstance(v, TupV) and lo in (None, 0, 1, 2, 3) and hi is None:
            return [('ok', TupV(v.items[lo or 0:]), p)]
        if isinstance(v, TupV) and lo is None and isinstance(hi, int):
            return [('ok', TupV(v.items[:hi]), p)]
        if isinstance(v, VV):
            if lo is None and hi == -1:
                return [('ok', VV(If(V.is_tup(v.t), tup(If(V.elems(v.t) == nil, nil, S.init(V.elems(v.t)))), fresh('sl', V))), p)]
            if lo == 1 and hi is None:
                # tail of a tuple, or of a string (an unknown string)
                return [('ok', VV(If(V.is_tup(v.t), tup(T.tail(V.elems(v.t))), T.substr1(v.t))), p)]
        if isinstance(v, LocV) and self.loc_type(p, v.loc) == 'list' and lo is None and hi is None:
            return [('ok', self.copy_composite(p, v.loc), p)]
        if isinstance(v, LocV) and self.loc_type(p, v.loc) == 'list' and lo == 1 and hi is None:
            return [('ok', self.new_list(p, T.tail(self.read(p, v.loc))), p)]
        raise Unsupported('slice at line %s' % line)

    def getitem(self, p, v, k, line):
        v = self.undict(p, v)
        if isinstance(v, LocV):
            ty = self.loc_type(p, v.loc)
            if isinstance(ty, tuple) and ty[0] == 'rec':
                key = self.const_str(k)
                if key is None:
                    raise Unsupported('record key')
                if key not in ty[1]:
                    return [self.exc(p, 'KeyError', line)]
                loc = self.resolve(p, v.loc).step(('r', key))
                return [('ok', self.at_loc(p, loc), p)]
            if isinstance(ty, tuple) and ty[0] == 'dict':
                kt = self.to_v(p, k)
                out = []
                for ok, q in self.fork(p, Select(self.read(p, v.loc, '.dom'), kt)):
                    if not ok:
                        out.append(self.exc(q, 'KeyError', line))
                    else:
                        out.append(('ok', self.at_loc(q, self.resolve(q, v.loc).step(('k', kt))), q))
                return out
            if ty == 'list' or ty[0] == 'list':
                return self.seq_index(p, self.read(p, v.loc), k, line, self.elem_ty(p, v.loc))
        if isinstance(v, TupV) and isinstance(k, IV) and z3.is_int_value(z3.simplify(k.t)):
            n = z3.simplify(k.t).as_long()
            if -len(v.items) <= n < len(v.items):
                return [('ok', v.items[n], p)]
            return [self.exc(p, 'IndexError', line)]
        if isinstance(v, VV):
            return self.seq_index(p, V.elems(v.t), k, line, 'V')
        raise Unsupported('subscript at line %s' % line)

    def seq_index(self, p, s, k, line, ety):
        kt = self.as_int(k)
        if kt is None:
            raise Unsupported('non-integer index')
        ks = z3.simplify(kt)
        if z3.is_int_value(ks) and ks.as_long() == -1:
            out = []
            for ok, q in self.fork(p, s != nil):
                out.append(('ok', self.of_type(q, S.last(s), ety), q) if ok else self.exc(q, 'IndexError', line))
            return out
        out = []
        # negative indexes count from the end
        for ok, q in self.fork(p, And(kt >= -length(s), kt < length(s))):
            if ok:
                out.append(('ok', self.of_type(q, at(s, If(kt >= 0, kt, kt + length(s))), ety), q))
            else:
                out.append(self.exc(q, 'IndexError', line))
        return out

    def at_loc(self, p, loc):
        ty = self.loc_type(p, loc)
        if is_composite(ty):
            return LocV(loc)
        return self.of_type(p, self.read(p, loc), ty)

    def const_str(self, k):
        if isinstance(k, VV):
            for st, n in T._atoms.items():
                if k.t.eq(lit(st)):
                    return st
        return None

    # comprehension: [elt for x in it if cond...]
    def ev_ListComp(self, e, p):
        return self.comp(e, p)

    def ev_GeneratorExp(self, e, p):
        return self.comp(e, p)

    def comp(self, e, p):
        if len(e.generators) != 1:
            raise Unsupported('nested comprehension')
        g = e.generators[0]

        def go(itv, q):
            s, ety = self.iter_seq(q, itv)
            if isinstance(e.elt, ast.Name) and isinstance(g.target, ast.Name) and e.elt.id == g.target.id:
                if not g.ifs:
                    return [('ok', self.new_list(q, s), q)]
                # filter by a set defined pointwise
                xx = fresh('cx', V)
                saved = q.env.get(g.target.id)
                r = q.copy()
                r.env[g.target.id] = self.of_type(r, xx, ety)
                n0 = len(r.pc)
                conds = []
                for c in g.ifs:
                    res = self.ev(c, r)
                    if len(res) != 1 or res[0][0] != 'ok':
                        raise Unsupported('comprehension condition that may fail or fork')
                    r = res[0][2]
                    conds.append(self.truth(r, res[0][1]))
                w = fresh('cset', T.VB)
                body = Select(w, xx) == And(*conds)
                extra = r.pc[n0:]
                y = T.x
                if extra:
                    body = And(body, *extra)
                q.pc.append(z3.ForAll([y], z3.substitute(body, (xx, y)), patterns=[Select(w, y)]))
                return [('ok', self.new_list(q, T.fil(s, w)), q)]
            if g.ifs or isinstance(ety, tuple) and ety[0] == 'enum':
                raise Unsupported('comprehension with computed elements and conditions')
            # a list as long as the source, defined pointwise
            ii = fresh('ci', z3.IntSort())
            r = q.copy()
            r.pc.append(And(ii >= 0, ii < length(s)))
            n0 = len(r.pc)
            res = [x for x in self.assign(r, g.target, self.of_type(r, at(s, ii), ety), e.lineno) if x[0] == 'next' or not self.surely(x[2], BoolVal(False))]
            if len(res) != 1 or res[0][0] != 'next':
                raise Unsupported('comprehension whose element may not fit its target')
            h0 = dict(res[0][2].heap)
            res = self.ev(e.elt, res[0][2])
            if len(res) != 1 or res[0][0] != 'ok':
                raise Unsupported('comprehension element that may fail or fork')
            r = res[0][2]
            if any(not r.heap[n].eq(h0[n]) for n in h0):
                raise Unsupported('comprehension element with an effect')
            el = self.to_v(r, res[0][1])
            ext = T.tup_ext(el, at(s, ii), ii)
            if ext is not None:
                # every (tuple) element extended by one value
                if r.pc[n0:]:
                    q.pc.append(z3.ForAll([T.j], Implies(And(T.j >= 0, T.j < length(s)), z3.substitute(And(*r.pc[n0:]), (ii, T.j))), patterns=[at(s, T.j)]))
                return [('ok', self.new_list(q, T.pw(s, ext)), q)]
            new = fresh('comp', S)
            j = T.j
            body = And(at(new, ii) == self.to_v(r, res[0][1]), *r.pc[n0:])
            q.pc.append(length(new) == length(s))
            q.pc.append(z3.ForAll([j], Implies(And(j >= 0, j < length(s)), z3.substitute(body, (ii, j))), patterns=[at(new, j)]))
            return [('ok', self.new_list(q, new), q)]
        return self.bind(self.ev(g.iter, p), go)

    # ------------------------------------------------------------ iteration
    def iter_seq(self, p, v):
        """snapshot sequence of an iterable and its element type"""
        v = self.undict(p, v)
        if isinstance(v, LocV):
            ty = self.loc_type(p, v.loc)
            if ty == 'list' or ty[0] == 'list':
                return self.read(p, v.loc), self.elem_ty(p, v.loc)
            if ty == 'set':
                return self.enum_set(p, self.read(p, v.loc)), 'V'
            if ty[0] == 'dict':
                return self.enum_set(p, self.read(p, v.loc, '.dom')), 'V'
        if isinstance(v, TupV):
            return seq(*[self.to_v(p, it) for it in v.items]), 'V'
        if isinstance(v, FnV) and v.kind == 'keysview':
            return self.iter_seq(p, v.src)
        if isinstance(v, FnV) and v.kind == 'revview':
            s, ety = self.iter_seq(p, v.src)
            return T.rev(s), ety
        if isinstance(v, FnV) and v.kind == 'enumview':
            s, ety = self.iter_seq(p, v.src)
            if isinstance(v.src, TupV):
                raise Unsupported('enumeration of a literal')
            return s, ('enum', ety)
        if isinstance(v, FnV) and v.kind == 'valsview':
            # values of a dict: keys in some order, each mapped to its value
            ty = self.loc_type(p, v.src.loc)
            if ty[1] is None:
                return nil, 'V'
            if is_composite(ty[1]) or ty[1] in ('bool', 'int'):
                raise Unsupported('iteration over a dict of containers')
            ks = self.enum_set(p, self.read(p, v.src.loc, '.dom'))
            return T.vmap(ks, self.read(p, v.src.loc, '.val')), ty[1]
        if isinstance(v, VV):
            return V.elems(v.t), 'V'
        raise Unsupported('iteration over this value')

    def enum_set(self, p, st):
        """some duplicate-free sequence of the elements of a finite set (deterministic per set term)"""
        s = T.enum(st)
        xx = T.x
        p.pc.append(T.nodup(s))
        p.pc.append(FA([xx], mem(s, xx) == Select(st, xx), [mem(s, xx)]))
        return s

    # ------------------------------------------------------------ calls
    def ev_Call(self, e, p):
        t = self.template(e)
        if t:
            return self.bind(self.ev(t[1], p), lambda v, q: [('ok', self.text(q, t[0], v), q)])
        if isinstance(e.func, ast.Name) and e.func.id == 'print' and 'print' not in p.env:
            return self.bind(self.evs([a for a in e.args], p), lambda vs, q: [('ok', VV(none), q)])

        def gof_(f, q):
            # string formatting
            if isinstance(f, FnV) and f.kind == 'meth' and f.name in ('format', 'join', 'strip', 'decode', 'encode') and isinstance(f.self, (VV, FnV)):
                return self.bind(self.evs([a for a in e.args if not isinstance(a, ast.Starred)], q), lambda vs, r: [('ok', self.opaque_str(r), r)])
            args, stars = [], []
            for a in e.args:
                args.append(a.value if isinstance(a, ast.Starred) else a)
                stars.append(isinstance(a, ast.Starred))
            kws = [k.value for k in e.keywords]
            if any(k.arg is None for k in e.keywords):
                raise Unsupported('**kwargs call')

            def go(vs, r):
                pos = []
                for v, st in zip(vs[:len(args)], stars):
                    if st:
                        if isinstance(v, TupV):
                            pos += v.items
                        else:
                            pos.append(('star', v))
                    else:
                        pos.append(v)
                kw = {k.arg: v for k, v in zip(e.keywords, vs[len(args):])}
                return self.call(r, f, pos, kw, e.lineno)
            return self.bind(self.evs(args + kws, q), go)
        return self.bind(self.ev(e.func, p), gof_)

    def call(self, p, f, pos, kw, line):
        if isinstance(f, FnV):
            if f.kind == 'bound':
                return self.call_func(p, f.func, [f.self] + pos, kw, line, recv_cls=f.self.cls)
            if f.kind == 'func':
                return self.call_func(p, f.func, pos, kw, line)
            if f.kind == 'class':
                return self.construct(p, f.cls, pos, kw, line)
            if f.kind == 'builtin':
                return self.call_builtin(p, f.name, pos, kw, line)
            if f.kind == 'meth':
                return self.call_method(p, f.self, f.name, pos, kw, line)
            if f.kind == 'hook':
                return self.exthooks[f.name](self, p, [f.self] + pos, kw, line)
            if f.kind == 'partial':
                return self.call(p, f.func, list(f.args) + pos, kw, line)
            if f.kind == 'lambda':
                q = p
                saved = p.env
                q.env = dict(f.env)
                for a, v in zip(f.node.args.args, pos):
                    q.env[a.arg] = v
                out = []
                for tag, v, r in self.ev(f.node.body, q):
                    r.env = dict(saved)
                    out.append((tag, v, r))
                return out
        if isinstance(f, VV):
            ext = None
            if p.frame:
                fr = p.frame
                while fr and ext is None:
                    ext = fr.contract.ext if fr.contract else None
                    fr = fr.parent
            if ext is None:
                ext = self.exthooks.get('call')
            if ext is None:
                raise Unsupported('call of an unknown function value')
            return ext(self, p, f, pos, kw, line)
        raise Unsupported('call at line %s' % line)

    def construct(self, p, cls, pos, kw, line):
        hk = 'new:' + cls
        if hk in self.exthooks:
            return self.exthooks[hk](self, p, pos, kw, line)
        o = self.allocate(p, cls)
        init = self.src.method(cls, '__init__')
        if init is None:
            return [('ok', o, p)]
        return self.bind(self.call_func(p, init, [o] + pos, kw, line), lambda v, q: [('ok', o, q)])

    def bind_args(self, func, pos, kw):
        a = func.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        out = {}
        rest = []
        for k, v in enumerate(pos):
            if k < len(names):
                out[names[k]] = v
            else:
                rest.append(v)
        if rest and not a.vararg:
            raise Unsupported('too many arguments for %s' % func.qual)
        if a.vararg:
            out[a.vararg.arg] = TupV(rest)
        extra = {}
        for k, v in kw.items():
            if k in names or k in [x.arg for x in a.kwonlyargs]:
                out[k] = v
            elif a.kwarg:
                extra[k] = v
            else:
                raise Unsupported('unexpected keyword %s for %s' % (k, func.qual))
        if a.kwarg:
            out[a.kwarg.arg] = FnV('kwdict', items=extra)
        defs = dict(zip(names[len(names) - len(a.defaults):], a.defaults))
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            if d is not None:
                defs[x.arg] = d
        for n in names + [x.arg for x in a.kwonlyargs]:
            if n not in out:
                if n in defs:
                    out[n] = defs[n]     # ast, evaluated by the caller
                else:
                    raise Unsupported('missing argument %s of %s' % (n, func.qual))
        return out

    def call_func(self, p, func, pos, kw, line, recv_cls=None):
        if any(isinstance(x, tuple) for x in pos):
            raise Unsupported('starred call of unknown arity')
        args = self.bind_args(func, pos, kw)
        for n, v in list(args.items()):
            if isinstance(v, ast.AST):
                r = self.ev(v, p)
                args[n] = r[0][1]
        con = self.contracts.get(func.qual)
        fr = p.frame
        while fr is not None and fr.parent is not None:
            fr = fr.parent
        if fr is not None and fr.contract is not None and func.qual in fr.contract.callmap:
            out = []
            cases = list(fr.contract.callmap[func.qual](Ctx(self, args, p.heap, p.heap, path=p)))
            self.oblige(p, 'call %s (line %s): one of its contracts applies' % (func.qual, line), Or([cond for cond, _ in cases]), (), line, kind='pre')
            for cond, name in cases:
                for b, q in self.fork(p.copy(), cond):
                    if b:
                        out += self.apply_contract(q, func, self.contracts[name], args, line)
            return out
        if con is not None and con.self_cls and recv_cls and con.self_cls != recv_cls:
            con = None
        if con is not None and not con.inline_calls:
            return self.apply_contract(p, func, con, args, line)
        return self.inline(p, func, args, line)

    def plain(self, func):
        if func.node.decorator_list:
            raise Unsupported('decorated function %s' % func.qual)

    def inline(self, p, func, args, line):
        if self.depth > 12:
            raise Unsupported('recursion without a contract: %s' % func.qual)
        self.plain(func)
        self.inlined.add(func.qual)
        saved_env, saved_frame = p.env, p.frame
        ntrace = len(p.trace)
        a = func.node.args
        q = p
        q.env = dict(args)
        q.frame = Frame(func, dict(p.heap), self.loops_contract(func), args, saved_frame, line, saved_env)
        self.depth += 1
        out = []
        try:
            for tag, v, r in self.run_body(func, q):
                r.env = dict(saved_env)
                r.frame = saved_frame
                for con2, c2 in r.trace[ntrace:]:
                    self.drop_aliases(r, con2, c2)
                if tag in ('next', 'ret'):
                    out.append(('ok', v if tag == 'ret' else VV(none), r))
                elif tag == 'exc':
                    out.append(('exc', v, r))
                else:
                    raise Unsupported('stray break')
        finally:
            self.depth -= 1
        return out

    def loops_contract(self, func):
        if func.qual in self.contracts and self.contracts[func.qual].loops:
            return Contract(func.qual, loops=self.contracts[func.qual].loops, ext=self.contracts[func.qual].ext)
        if func.qual in self.loops:
            return Contract(func.qual, loops=self.loops[func.qual])
        return None

    def apply_contract(self, p, func, con, args, line):
        self.used_contracts.add(con.qual)
        args = dict(args)
        old = dict(p.heap)
        self.spec_path = p
        # coerce scalars
        for n, ty in con.params.items():
            if n in args and not is_composite(ty) and isinstance(args[n], (VV, BV, IV, TupV, FnV)):
                args[n] = self.coerce(p, args[n], ty)
        for n, v in list(args.items()):
            if n not in con.params and n != 'self' and isinstance(v, (BV, IV, TupV, FnV)):
                try:
                    args[n] = VV(self.to_v(p, v))
                except Unsupported:
                    pass
        c = Ctx(self, args, old, p.heap, path=p)
        if con.callhints:
            fr = p.frame
            while fr.parent is not None:
                fr = fr.parent
            p.pc.extend(con.callhints(c, Heap(self, fr.entry_heap)))
        for cl in [('the contract is for this %s' % n, self.to_v(p, args[n]) == lit(v)) for n, v in con.fixed.items()] + list(con.requires(c)):
            label, tags, f = norm_clause(cl)
            self.oblige(p, 'call %s (line %s): requires %s' % (con.qual, line, label), f, tags, line, kind='pre')
            p.pc.append(f)
        # havoc
        new = dict(p.heap)
        for mdf in (con.modifies(c) if callable(con.modifies) else con.modifies):
            if isinstance(mdf, tuple):
                names, obj = self.leaf_names(mdf[0]), mdf[1]
                if callable(obj):
                    obj = obj(c)
            else:
                names, obj = self.leaf_names(mdf), None
            for n in names:
                cur = self.leaf(new, n)
                self.log_write(('heap', n, obj))
                if obj is None:
                    new[n] = fresh(n, cur.sort())
                else:
                    new[n] = Store(cur, obj, fresh(n, cur.sort().range()))
        out = []
        # exceptional outcomes
        for ename, post in con.raises.items():
            q = p.copy()
            q.heap = dict(new)
            cc = Ctx(self, args, old, q.heap, exc=ename, path=q)
            self.spec_path = q
            for cl in post(cc):
                q.pc.append(norm_clause(cl)[2])
            # heap leaves touched lazily must be shared
            self.share(old, p, q, new)
            if not self.quick_unsat(q, BoolVal(True)):
                out.append(('exc', (ename, line), q))
        q = p.copy()
        q.heap = dict(new)
        res = self.fresh_value(q, 'res_' + func.name, con.result)
        cc = Ctx(self, args, old, q.heap, path=q)
        self.spec_path = q
        cc.result = self.spec_term(res, q) if con.result != 'none' else none
        for cl in con.ensures(cc):
            q.pc.append(norm_clause(cl)[2])
        # local aliases of locations that the callee may have re-assigned
        self.invalidate_aliases(q, con, c)
        out.insert(0, ('ok', res, q))
        return out

    def share(self, *a):
        pass

    def invalidate_aliases(self, q, con, c):
        if con.reassigns is None:
            return
        q.trace = q.trace + ((con, c),)
        self.drop_aliases(q, con, c)

    def drop_aliases(self, q, con, c):
        for n, v in list(q.env.items()):
            if isinstance(v, LocV):
                l = self.resolve(q, v.loc)
                if l.root[0] == 'F':
                    keep = con.reassigns(c, l)
                    if keep is not True and not self.surely(q, keep):
                        q.env[n] = Undef()      # the local may or may not be the container that lives there now

    def coerce(self, p, v, ty):
        if isinstance(ty, tuple) and ty[0] == 'obj':
            return VV(self.to_v(p, v), ty[1])
        if ty == 'bool':
            return v if isinstance(v, BV) else BV(self.truth(p, v))
        if ty == 'int':
            if isinstance(v, IV):
                return v
            i_ = self.as_int(v)
            if i_ is None:
                raise Unsupported('int argument')
            return IV(i_)
        return VV(self.to_v(p, v), v.cls if isinstance(v, VV) else None)

    # ---- builtins
    def call_builtin(self, p, name, pos, kw, line):
        if name in self.exthooks:
            return self.exthooks[name](self, p, pos, kw, line)
        if name == 'len':
            v = pos[0]
            if isinstance(v, TupV):
                return [('ok', IV(IntVal(len(v.items))), p)]
            if isinstance(v, VV):
                return [('ok', IV(length(V.elems(v.t))), p)]
            ty = self.loc_type(p, v.loc)
            if ty == 'list' or ty[0] == 'list':
                return [('ok', IV(length(self.read(p, v.loc))), p)]
            if ty == 'set' or ty[0] == 'dict':
                st = self.read(p, v.loc, '.dom' if ty != 'set' else '')
                return [('ok', IV(length(self.enum_set(p, st))), p)]
        if name == 'list':
            if not pos:
                return [('ok', self.new_list(p, nil), p)]
            s, ety = self.iter_seq(p, pos[0])
            return [('ok', self.new_list(p, s, 'list' if ety == 'V' else ('list', ety)), p)]
        if name == 'tuple' and len(pos) == 1:
            s, _ = self.iter_seq(p, pos[0])
            return [('ok', VV(tup(s)), p)]
        if name == 'reversed':
            return [('ok', FnV('revview', src=pos[0], name='reversed'), p)]
        if name == 'enumerate' and len(pos) == 1 and not kw:
            return [('ok', FnV('enumview', src=pos[0], name='enumerate'), p)]
        if name == 'set':
            if not pos:
                return [('ok', self.new_obj(p, 'set', {'': z3.K(V, BoolVal(False))}), p)]
            if isinstance(pos[0], LocV) and self.loc_type(p, pos[0].loc) == 'set':
                return [('ok', self.new_obj(p, 'set', {'': self.read(p, pos[0].loc)}), p)]
            s, _ = self.iter_seq(p, pos[0])
            t = fresh('set', T.VB)
            xx = T.x
            p.pc.append(FA([xx], Select(t, xx) == mem(s, xx), [Select(t, xx), mem(s, xx)]))
            return [('ok', self.new_obj(p, 'set', {'': t}), p)]
        if name == 'dict':
            if not pos:
                return [('ok', self.new_obj(p, ('dict', None), {'.dom': z3.K(V, BoolVal(False))}), p)]
            v = pos[0]
            if isinstance(v, VV) and v.cls == 'PyDict':
                out = []
                for ok, q in self.fork(p, v.t != none):
                    out += self.call_builtin(q, 'dict', [self.undict(q, v)] + pos[1:], kw, line) if ok else [self.exc(q, 'TypeError', line)]
                return out
            if isinstance(v, LocV) and len(pos) == 1 and not kw:
                ty = self.loc_type(p, v.loc)
                if isinstance(ty, tuple) and ty[0] == 'dict' and (ty[1] is None or not is_composite(ty[1])):
                    return [('ok', self.copy_composite(p, v.loc), p)]
        if name == 'bool':
            return [('ok', BV(self.truth(p, pos[0])), p)]
        if name == 'str':
            t = self.opaque_str(p)
            if len(pos) == 1 and isinstance(pos[0], VV):
                p.pc.append(Implies(V.is_atom(pos[0].t), t.t == pos[0].t))      # atoms are strings
            return [('ok', t, p)]
        if name == 'int' and isinstance(pos[0], (IV,)):
            return [('ok', pos[0], p)]
        if name == 'isinstance':
            return [('ok', BV(fresh('isinst', z3.BoolSort())), p)]
        if name == 'functools.partial':
            return [('ok', FnV('partial', func=pos[0], args=pos[1:], name='partial'), p)]
        if name in ('any', 'all') and len(pos) == 1:
            raise Unsupported(name)
        if name in BUILTIN_EXC:
            return [('ok', FnV('excobj', name=name), p)]
        if name == 'super':
            return [('ok', FnV('super', name='super'), p)]
        raise Unsupported('call of %s (line %s)' % (name, line))

    # ---- container methods
    def call_method(self, p, v, name, pos, kw, line):
        v = self.undict(p, v)
        if isinstance(v, FnV) and v.kind == 'kwdict' and name == 'get':
            k = self.const_str(pos[0])
            if k in v.items:
                return [('ok', v.items[k], p)]
            return [('ok', pos[1] if len(pos) > 1 else VV(none), p)]
        if isinstance(v, LocV):
            ty = self.loc_type(p, v.loc)
            islist = ty == 'list' or (isinstance(ty, tuple) and ty[0] == 'list')
            if islist:
                s = self.read(p, v.loc)
                if name == 'append':
                    el = self.to_v(p, pos[0])
                    self.write(p, v.loc, snoc(s, el), ec=(pos[0].cls or '?') if isinstance(pos[0], VV) else '?')
                    self.ever(p, v.loc, el)
                    return [('ok', VV(none), p)]
                if name == 'remove':
                    el = self.to_v(p, pos[0])
                    out = []
                    for ok, q in self.fork(p, mem(s, el)):
                        if ok:
                            self.write(q, v.loc, T.rem(s, el), ec=None)
                            out.append(('ok', VV(none), q))
                        else:
                            out.append(self.exc(q, 'ValueError', line))
                    return out
                if name == 'pop':
                    out = []
                    first = len(pos) == 1 and isinstance(pos[0], IV) and z3.simplify(pos[0].t).eq(IntVal(0))
                    if pos and not first:
                        raise Unsupported('pop at an arbitrary index')
                    for ok, q in self.fork(p, s != nil):
                        if not ok:
                            out.append(self.exc(q, 'IndexError', line))
                        elif first:
                            self.write(q, v.loc, T.tail(s), ec=None)
                            out.append(('ok', self.of_type(q, at(s, IntVal(0)), self.elem_ty(p, v.loc)), q))
                        else:
                            self.write(q, v.loc, S.init(s), ec=None)
                            q.pc.append(s == snoc(S.init(s), S.last(s)))
                            out.append(('ok', self.of_type(q, S.last(s), self.elem_ty(p, v.loc)), q))
                    return out
                if name == 'extend':
                    s2, _ = self.iter_seq(p, pos[0])
                    self.write(p, v.loc, T.cat(s, s2))
                    self.ever_many(p, v.loc, s2)
                    return [('ok', VV(none), p)]
                if name == 'index':
                    el = self.to_v(p, pos[0])
                    out = []
                    for ok, q in self.fork(p, mem(s, el)):
                        out.append(('ok', IV(T.idx(s, el)), q) if ok else self.exc(q, 'ValueError', line))
                    return out
                if name == 'copy':
                    return [('ok', self.copy_composite(p, v.loc), p)]
                if name == 'clear':
                    self.write(p, v.loc, nil, ec=None)
                    return [('ok', VV(none), p)]
                if name == 'count':
                    return [('ok', IV(T.cnt(s, self.to_v(p, pos[0]))), p)]
                if name == 'insert' and isinstance(pos[0], IV) and z3.simplify(pos[0].t).eq(IntVal(0)):
                    el = self.to_v(p, pos[1])
                    self.write(p, v.loc, T.cat(seq(el), s))
                    self.ever(p, v.loc, el)
                    return [('ok', VV(none), p)]
                if name == 'reverse':
                    self.write(p, v.loc, T.rev(s), ec=None)
                    return [('ok', VV(none), p)]
            if ty == 'set':
                st = self.read(p, v.loc)
                if name == 'add':
                    self.write(p, v.loc, Store(st, self.to_v(p, pos[0]), BoolVal(True)))
                    return [('ok', VV(none), p)]
                if name == 'remove':
                    kt = self.to_v(p, pos[0])
                    out = []
                    for ok, q in self.fork(p, Select(st, kt)):
                        if ok:
                            self.write(q, v.loc, Store(st, kt, BoolVal(False)))
                            out.append(('ok', VV(none), q))
                        else:
                            out.append(self.exc(q, 'KeyError', line))
                    return out
                if name == 'discard':
                    self.write(p, v.loc, Store(st, self.to_v(p, pos[0]), BoolVal(False)))
                    return [('ok', VV(none), p)]
            if isinstance(ty, tuple) and ty[0] == 'dict':
                dom = self.read(p, v.loc, '.dom')
                if name == 'keys':
                    return [('ok', FnV('keysview', src=v, name='keys'), p)]
                if name == 'values':
                    return [('ok', FnV('valsview', src=v, name='values'), p)]
                if name == 'get':
                    kt = self.to_v(p, pos[0])
                    out = []
                    for ok, q in self.fork(p, Select(dom, kt)):
                        if ok:
                            out.append(('ok', self.at_loc(q, self.resolve(q, v.loc).step(('k', kt))), q))
                        else:
                            out.append(('ok', pos[1] if len(pos) > 1 else VV(none), q))
                    return out
                if name == 'pop':
                    kt = self.to_v(p, pos[0])
                    out = []
                    for ok, q in self.fork(p, Select(dom, kt)):
                        if ok:
                            loc = self.resolve(q, v.loc).step(('k', kt))
                            val = self.at_loc(q, loc)
                            if isinstance(val, LocV):
                                self.detach_aliases(q, loc)
                                val = self.copy_composite(q, loc)
                            self.write(q, v.loc, Store(dom, kt, BoolVal(False)), '.dom')
                            out.append(('ok', val, q))
                        elif len(pos) > 1:
                            out.append(('ok', pos[1], q))
                        else:
                            out.append(self.exc(q, 'KeyError', line))
                    return out
                if name == 'copy':
                    return self.call_builtin(p, 'dict', [v], {}, line)
                if name == 'clear':
                    self.write(p, v.loc, z3.K(V, BoolVal(False)), '.dom')
                    return [('ok', VV(none), p)]
                if name == 'update' and len(pos) == 1 and not kw and ty[1] is not None and not is_composite(ty[1]):
                    src = pos[0]
                    out = []
                    for ok, q in (self.fork(p, src.t != none) if isinstance(src, VV) and src.cls == 'PyDict' else [(True, p)]):
                        if not ok:
                            out.append(self.exc(q, 'TypeError', line))
                            continue
                        sl = self.undict(q, src)
                        if not isinstance(sl, LocV) or self.loc_type(q, sl.loc) != ty:
                            raise Unsupported('method .update at line %s' % line)
                        d2, v2 = self.read(q, sl.loc, '.dom'), self.read(q, sl.loc, '.val')
                        v1 = self.read(q, v.loc, '.val')
                        dn, vn = fresh('upd', d2.sort()), fresh('updv', v2.sort())
                        xx = T.x
                        q.pc.append(FA([xx], And(Select(dn, xx) == Or(Select(dom, xx), Select(d2, xx)), Select(vn, xx) == If(Select(d2, xx), Select(v2, xx), Select(v1, xx))), [Select(dn, xx), Select(vn, xx)]))
                        self.write(q, v.loc, dn, '.dom')
                        self.write(q, v.loc, vn, '.val')
                        out.append(('ok', VV(none), q))
                    return out
                if name == 'setdefault' and len(pos) == 2:
                    kt = self.to_v(p, pos[0])
                    out = []
                    for ok, q in self.fork(p, Select(dom, kt)):
                        loc = self.resolve(q, v.loc).step(('k', kt))
                        if not ok:
                            self.setitem(q, v, pos[0], pos[1], line)
                        out.append(('ok', self.at_loc(q, loc), q))
                    return out
        if isinstance(v, VV) and name == 'startswith':
            return [('ok', BV(T.startswith(v.t, self.to_v(p, pos[0]))), p)]
        if isinstance(v, VV) and name in ('split',):
            raise Unsupported('string split')
        raise Unsupported('method .%s at line %s' % (name, line))

    def ever(self, p, loc, el):
        loc = self.resolve(p, loc)
        if loc.root[0] == 'L' and not loc.steps:
            o = p.objs[loc.root[1]]
            if '#ever' in o[1]:
                lv = dict(o[1])
                lv['#ever'] = Store(lv['#ever'], el, BoolVal(True))
                p.objs[loc.root[1]] = (o[0], lv) + o[2:]

    def ever_many(self, p, loc, s2):
        loc = self.resolve(p, loc)
        if loc.root[0] == 'L' and not loc.steps:
            o = p.objs[loc.root[1]]
            if '#ever' in o[1]:
                lv = dict(o[1])
                e2 = fresh('ever', T.VB)
                xx = T.x
                p.pc.append(FA([xx], Select(e2, xx) == Or(Select(lv['#ever'], xx), mem(s2, xx)), [Select(e2, xx)]))
                lv['#ever'] = e2
                p.objs[loc.root[1]] = (o[0], lv) + o[2:]

    # ------------------------------------------------------------ statements
    # results: (tag, val, path), tag in next, ret, exc, break, cont
    def run_body(self, func, p):
        return self.block(func.node.body, p)

    def block(self, stmts, p):
        res = [('next', None, p)]
        for st in stmts:
            nxt = []
            for tag, v, q in res:
                if tag != 'next':
                    nxt.append((tag, v, q))
                else:
                    nxt.extend(self.stmt(st, q))
            res = nxt
            if not res:
                break
        return res

    def stmt(self, st, p):
        m = getattr(self, 'st_' + type(st).__name__, None)
        if m is None:
            raise Unsupported('statement %s at line %s' % (type(st).__name__, st.lineno))
        return m(st, p)

    def sbind(self, res, f):
        out = []
        for tag, v, q in res:
            if tag == 'exc':
                out.append((tag, v, q))
            else:
                out.extend(f(v, q))
        return out

    def st_Pass(self, st, p):
        return [('next', None, p)]

    st_Import = st_ImportFrom = st_Global = st_Nonlocal = st_Pass

    def st_Expr(self, st, p):
        if isinstance(st.value, ast.Constant):
            return [('next', None, p)]
        return self.sbind(self.ev(st.value, p), lambda v, q: [('next', None, q)])

    def st_Return(self, st, p):
        if st.value is None:
            return [('ret', VV(none), p)]
        return self.sbind(self.ev(st.value, p), lambda v, q: [('ret', v, q)])

    def st_Raise(self, st, p):
        name = 'Exception'
        args = []
        if isinstance(st.exc, ast.Call):
            name = ast.unparse(st.exc.func)
            args = [a for a in st.exc.args]
        elif st.exc is not None:
            name = ast.unparse(st.exc)
        elif st.exc is None:
            name = p.env.get('$exc', FnV('x', name='Exception')).name
        return self.sbind(self.evs(args, p), lambda vs, q: [('exc', (name, st.lineno), q)])

    def st_Assert(self, st, p):
        def go(v, q):
            out = []
            for b, r in self.fork(q, self.truth(q, v)):
                out.append(('next', None, r) if b else ('exc', ('AssertionError', st.lineno), r))
            return out
        return self.sbind(self.ev(st.test, p), go)

    def st_If(self, st, p):
        def go(v, q):
            out = []
            for b, r in self.fork(q, self.truth(q, v)):
                out += self.block(st.body if b else st.orelse, r)
            return out
        return self.sbind(self.ev(st.test, p), go)

    def st_Assign(self, st, p):
        def go(v, q):
            res = [('next', None, q)]
            for tg in st.targets:
                nxt = []
                for tag, _, r in res:
                    if tag == 'next':
                        nxt += self.assign(r, tg, v, st.lineno)
                    else:
                        nxt.append((tag, _, r))
                res = nxt
            return res
        return self.sbind(self.ev(st.value, p), go)

    def st_AnnAssign(self, st, p):
        if st.value is None:
            return [('next', None, p)]
        return self.sbind(self.ev(st.value, p), lambda v, q: self.assign(q, st.target, v, st.lineno))

    def assign(self, p, tg, v, line):
        if isinstance(tg, ast.Name):
            p.env[tg.id] = v
            return [('next', None, p)]
        if isinstance(tg, (ast.Tuple, ast.List)):
            n = len(tg.elts)
            if isinstance(v, TupV):
                if len(v.items) != n:
                    return [('exc', ('ValueError', line), p)]
                res = [('next', None, p)]
                for t1, v1 in zip(tg.elts, v.items):
                    nxt = []
                    for tag, _, r in res:
                        nxt += self.assign(r, t1, v1, line) if tag == 'next' else [(tag, _, r)]
                    res = nxt
                return res
            if isinstance(v, VV) or (isinstance(v, LocV) and self.loc_type(p, v.loc) == 'list'):
                el = V.elems(v.t) if isinstance(v, VV) else self.read(p, v.loc)
                out = []
                okc = length(el) == n
                if isinstance(v, VV):
                    okc = And(V.is_tup(v.t), okc)
                for ok, q in self.fork(p, okc):
                    if not ok:
                        out.append(('exc', ('ValueError', line), q))
                        continue
                    comps = [at(el, IntVal(k)) for k in range(n)]
                    q.pc.append(el == seq(*comps))
                    out += self.assign(q, tg, TupV([VV(c) for c in comps]), line)
                return out
            raise Unsupported('unpacking')
        if isinstance(tg, ast.Attribute):
            def go(o, q):
                if not (isinstance(o, VV) and o.cls):
                    raise Unsupported('attribute assignment on untyped object (line %s)' % line)
                decl, ty = self.field_type(o.cls, tg.attr)
                if ty is None:
                    raise Unsupported('unknown attribute %s.%s (line %s)' % (o.cls, tg.attr, line))
                loc = Loc(('F', o.cls, tg.attr, o.t))
                self.store(q, loc, ty, v)
                return [('next', None, q)]
            return self.sbind(self.ev(tg.value, p), go)
        if isinstance(tg, ast.Subscript):
            def go2(vs, q):
                return self.setitem(q, vs[0], vs[1], v, line)
            if isinstance(tg.value, ast.Subscript) and not isinstance(tg.value.slice, ast.Slice) and isinstance(tg.value.value, ast.Attribute):
                def go3(vs, q):
                    l = vs[0].loc if isinstance(vs[0], LocV) else None
                    if l is not None and l.root[0] == 'F' and not l.steps and l.root[1:3] in self.nested and self.loc_type(q, l) == 'list':
                        return self.set_nested(q, l, vs[1], vs[2], v, line)
                    return self.sbind(self.evs([tg.value, tg.slice], q), go2)
                return self.sbind(self.evs([tg.value.value, tg.value.slice, tg.slice], p), go3)
            return self.sbind(self.evs([tg.value, tg.slice], p), go2)
        raise Unsupported('assignment target')

    def store(self, p, loc, ty, v):
        if is_composite(ty):
            self.store_composite(p, loc, v)
        elif ty == 'bool':
            self.write(p, loc, v.t if isinstance(v, BV) else self.truth(p, v))
        elif ty == 'int':
            i_ = self.as_int(v)
            if i_ is None:
                raise Unsupported('int field assigned a non-int')
            self.write(p, loc, i_)
        else:
            if isinstance(v, LocV) and ty == 'opaque':
                self.write(p, loc, fresh('opq', V))
            elif isinstance(v, LocV) and ty == ('obj', 'PyDict'):
                self.write(p, loc, self.box_dict(p, v).t)
            else:
                self.write(p, loc, self.to_v(p, v))

    def box_dict(self, p, v):
        """a local dict becomes an object"""
        l = self.resolve(p, v.loc)
        ty = self.loc_type(p, l)
        if l.root[0] == 'F' and l.root[1] == 'PyDict' and not l.steps:
            return VV(l.root[3], 'PyDict')
        if l.root[0] != 'L' or l.steps or not (isinstance(ty, tuple) and ty[0] == 'dict'):
            raise Unsupported('container used as a plain value')
        o = self.allocate(p, 'PyDict')
        self.store_composite(p, Loc(('F', 'PyDict', 'd', o.t)), v)
        return o

    def allocate(self, p, cls):
        o = VV(fresh('new_' + cls, V), cls)
        al = self.leaf(p.heap, '$alloc')
        p.pc.append(Not(Select(al, o.t)))
        p.pc.append(V.is_ref(o.t))
        p.heap['$alloc'] = Store(al, o.t, BoolVal(True))
        self.log_write(('heap', '$alloc', None))
        return o

    def set_nested(self, p, loc, i, k, v, line):
        """an entry of a list inside a list: the inner lists belong to the outer one (fields listed in self.nested)"""
        s, it, kt = self.read(p, loc), self.as_int(i), self.as_int(k)
        if it is None or kt is None:
            raise Unsupported('index')
        out = []
        ix = If(it >= 0, it, it + length(s))
        el = V.elems(at(s, ix))
        kx = If(kt >= 0, kt, kt + length(el))
        for ok, q in self.fork(p, And(ix >= 0, ix < length(s), V.is_tup(at(s, ix)), kx >= 0, kx < length(el))):
            if not ok:
                out.append(self.exc(q, 'IndexError', line))
                continue
            n, m, j = fresh('outer', S), fresh('inner', S), T.j
            vt = self.to_v(q, v)
            for a, b, x, t in ((m, el, kx, vt), (n, s, ix, tup(m))):
                q.pc.append(length(a) == length(b))
                q.pc.append(FA([j], at(a, j) == If(j == x, t, at(b, j)), [at(a, j)]))
            self.write(q, loc, n)
            out.append(('next', None, q))
        return out

    def setitem(self, p, cont, k, v, line):
        cont = self.undict(p, cont)
        if isinstance(cont, LocV):
            ty = self.loc_type(p, cont.loc)
            if isinstance(ty, tuple) and ty[0] == 'dict':
                kt = self.to_v(p, k)
                loc = self.resolve(p, cont.loc)
                if ty[1] is None:
                    if loc.root[0] != 'L' or loc.steps:
                        raise Unsupported('untyped dict')
                    if isinstance(v, LocV):
                        raise Unsupported('untyped local dict of containers')
                    o = p.objs[loc.root[1]]
                    lv = dict(o[1])
                    lv['.val'] = fresh('dval', z3.ArraySort(V, V))
                    p.objs[loc.root[1]] = (('dict', 'V'), lv) + o[2:]
                    ty = ('dict', 'V')
                self.store(p, loc.step(('k', kt)), ty[1], v)
                self.write(p, loc, Store(self.read(p, loc, '.dom'), kt, BoolVal(True)), '.dom')
                return [('next', None, p)]
            if isinstance(ty, tuple) and ty[0] == 'rec':
                key = self.const_str(k)
                if key is None or key not in ty[1]:
                    raise Unsupported('record key')
                self.store(p, self.resolve(p, cont.loc).step(('r', key)), ty[1][key], v)
                return [('next', None, p)]
        raise Unsupported('item assignment at line %s' % line)

    def st_AugAssign(self, st, p):
        def go(vs, q):
            a, b = vs
            if isinstance(st.op, ast.Add) and isinstance(a, LocV) and isinstance(b, LocV):
                # list += iterable mutates in place
                return self.sbind(self.call_method(q, a, 'extend', [b], {}, st.lineno), lambda v, r: [('next', None, r)])
            return self.sbind(self.binop(q, st.op, a, b, st.lineno), lambda v, r: self.assign(r, st.target, v, st.lineno))
        load = ast.copy_location(ast.parse(ast.unparse(st.target), mode='eval').body, st)
        return self.sbind(self.evs([load, st.value], p), go)

    def st_Delete(self, st, p):
        res = [('next', None, p)]
        for tg in st.targets:
            nxt = []
            for tag, _, q in res:
                if tag != 'next':
                    nxt.append((tag, _, q))
                    continue
                if isinstance(tg, ast.Name):
                    q.env[tg.id] = Undef()
                    nxt.append(('next', None, q))
                elif isinstance(tg, ast.Subscript):
                    def go(vs, r):
                        return self.sbind(self.call_method(r, vs[0], 'pop', [vs[1]], {}, st.lineno), lambda v, r2: [('next', None, r2)])
                    nxt += self.sbind(self.evs([tg.value, tg.slice], q), go)
                else:
                    raise Unsupported('del')
            res = nxt
        return res

    def st_Break(self, st, p):
        return [('break', None, p)]

    def st_Continue(self, st, p):
        return [('cont', None, p)]

    def exc_matches(self, name, handler):
        if handler.type is None:
            return True
        names = []
        t = handler.type
        if isinstance(t, ast.Tuple):
            names = [ast.unparse(x) for x in t.elts]
        else:
            names = [ast.unparse(t)]
        for n in names:
            if n in ('Exception', 'BaseException') or n == name:
                return True
            if n == 'LookupError' and name in ('KeyError', 'IndexError'):
                return True
            if name == 'Exception':
                # a generic Exception is only caught by Exception handlers
                continue
        return False

    def st_Try(self, st, p):
        out = []
        for tag, v, q in self.block(st.body, p):
            if tag == 'exc':
                for h in st.handlers:
                    if self.exc_matches(v[0], h):
                        saved = q.env.get('$exc')
                        q.env['$exc'] = FnV('excobj', name=v[0])
                        if h.name:
                            q.env[h.name] = FnV('excobj', name=v[0])
                        out += self.block(h.body, q)
                        break
                else:
                    out.append((tag, v, q))
            elif tag == 'next' and st.orelse:
                out += self.block(st.orelse, q)
            else:
                out.append((tag, v, q))
        if st.finalbody:
            res = []
            for tag, v, q in out:
                for t2, v2, r in self.block(st.finalbody, q):
                    res.append((tag, v, r) if t2 == 'next' else (t2, v2, r))
            out = res
        return out

    def st_With(self, st, p):
        # lock objects: with self._lock: body  ==  acquire; try: body finally: release
        if len(st.items) != 1 or st.items[0].optional_vars is not None:
            raise Unsupported('with statement')

        def go(v, q):
            if not isinstance(v, VV):
                raise Unsupported('with statement')
            hk = (v.cls or '') + '.__enter__'
            if hk not in self.exthooks:
                raise Unsupported('with statement on %s' % v.cls)
            out = []
            for tag, _, r in self.exthooks[hk](self, q, [v], {}, st.lineno):
                for t2, v2, r2 in self.block(st.body, r):
                    for t3, v3, r3 in self.exthooks[v.cls + '.__exit__'](self, r2, [v], {}, st.lineno):
                        out.append((t2, v2, r3))
            return out
        return self.sbind(self.ev(st.items[0].context_expr, p), go)

    # ------------------------------------------------------------ loops
    def assigned_names(self, stmts):
        out = set()
        for st in stmts:
            for n in ast.walk(st):
                if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                    out.add(n.id)
        return out

    def loops_of(self, func, root, chain=(), depth=0):
        """the loops of the function in source order, those of helpers that get inlined at the place of the call: [(calls that lead there, loop)]"""
        nodes = [n for n in ast.walk(func.node) if isinstance(n, (ast.For, ast.While, ast.Call)) and n is not func.node]
        nodes.sort(key=lambda n: (n.lineno, n.col_offset))
        out = []
        for n in nodes:
            if not isinstance(n, ast.Call):
                out.append((chain, n))
            elif depth < 6 and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.value.id == 'self':
                f = self.src.method(func.qual.split('.')[0], n.func.attr)
                if f is None or f is root.func or any(q == f.qual for _, q in chain) or f.qual in self.contracts or f.qual in self.loops or (root.contract is not None and f.qual in root.contract.callmap):
                    continue
                out += self.loops_of(f, root, chain + ((n.lineno, f.qual),), depth + 1)
        return out

    def loop_specs(self, st, p):
        """(frame that owns the specifications, its specifications with the likeliest first)"""
        fr = p.frame
        owner = fr
        chain = ()
        while True:
            own = list(owner.contract.loops) if owner.contract else []
            if not own:
                own = list(self.loops.get(owner.func.qual, ()))
            if own or owner.parent is None:
                break
            chain = ((owner.line, owner.func.qual),) + chain
            owner = owner.parent
        if not own:
            return fr, []
        flat = self.loops_of(owner.func, owner)
        k = next((i for i, (c, n) in enumerate(flat) if n is st and c == chain), None)
        specs = []
        if k is not None and k < len(own) and own[k] is not None:
            specs.append(own[k])
        if k is None or len(flat) > len(own):
            self.restructured.add(owner.func.qual)
        rest = sorted(range(len(own)), key=lambda i: abs(i - k) if k is not None else i)
        for i in rest:
            if own[i] is not None and own[i] not in specs:
                specs.append(own[i])
        return owner, specs

    def havoc_loop(self, p, body_fn, names, mark):
        """dry run to find what the body writes, then havoc it. returns havocked path"""
        seen = {}
        gen = set()         # names whose kind of value changes in the loop: any value
        for rnd in range(8):
            q = p.copy()
            self.havoc_names(q, names, gen)
            self.havoc_writes(q, seen, mark)
            saved, self.writes = self.writes, []
            self.dry += 1
            try:
                ends = body_fn(q.copy())
            finally:
                self.dry -= 1
                w, self.writes = self.writes, saved
            grown = rnd == 0
            events = ()
            for tag, _, r in ends or []:
                events += r.trace[len(p.trace):]

            def kind(v):
                return ('v', v.cls) if isinstance(v, VV) else ('v', None) if isinstance(v, TupV) else type(v).__name__
            for tag, _, r in ends or []:
                if tag in ('next', 'cont'):
                    for n in names:
                        if n in q.env and n in r.env and n not in gen and isinstance(q.env[n], (BV, IV, VV)) and kind(q.env[n]) != kind(r.env[n]):
                            gen.add(n)
                            grown = True
            for wr in w:
                if wr[0] == 'obj':
                    if ('obj', wr[1]) not in seen:
                        seen[('obj', wr[1])] = None
                        grown = True
                    continue
                kk = ('heap', wr[1])
                if seen.get(kk) == 'all':
                    continue
                if wr[2] is None or serials(wr[2]) > mark:
                    seen[kk] = 'all'
                    grown = True
                elif not any(o.eq(wr[2]) for o in seen.setdefault(kk, [])):
                    seen[kk].append(wr[2])
                    grown = True
            for tag, _, r in ends or []:
                if tag in ('next', 'cont'):
                    for n, v in r.env.items():
                        if isinstance(v, Undef) and n in q.env and not isinstance(q.env[n], Undef) and n not in names and ('undef', n) not in seen:
                            seen[('undef', n)] = None
                            grown = True
            if not grown:
                break
        else:
            raise Unsupported('effect analysis of a loop did not converge')
        q = p.copy()
        self.havoc_names(q, names, gen)
        self.havoc_writes(q, seen or {}, mark)
        q.trace = p.trace + events
        # propagate the writes to an enclosing dry run
        if self.writes is not None:
            for (kind, n), v in (seen or {}).items():
                if kind == 'undef':
                    continue
                if kind == 'obj':
                    self.writes.append(('obj', n))
                elif v == 'all':
                    self.writes.append(('heap', n, None))
                else:
                    for o in v:
                        self.writes.append(('heap', n, o))
        return q, seen or {}

    def havoc_names(self, q, names, gen=()):
        for n in names:
            if n in q.env:
                v = q.env[n]
                if n in gen:
                    q.env[n] = VV(fresh(n, V))
                elif isinstance(v, BV):
                    q.env[n] = BV(fresh(n, z3.BoolSort()))
                elif isinstance(v, IV):
                    q.env[n] = IV(fresh(n, z3.IntSort()))
                elif isinstance(v, VV):
                    q.env[n] = VV(fresh(n, V), v.cls)
                elif isinstance(v, LocV):
                    loc = self.resolve(q, v.loc)
                    ty = self.loc_type(q, loc)
                    q.env[n] = self.fresh_value(q, n, ty)
                elif isinstance(v, TupV):
                    q.env[n] = VV(fresh(n, V))
                elif isinstance(v, Undef):
                    pass
                else:
                    q.env[n] = Undef()

    def havoc_writes(self, q, seen, mark):
        for (kind, n), v in seen.items():
            if kind == 'undef':
                q.env[n] = Undef()
            elif kind == 'obj':
                if n in q.objs and q.objs[n][0] != 'moved':
                    ty, lv = q.objs[n][0], q.objs[n][1]
                    meta = q.objs[n][2] if len(q.objs[n]) > 2 else {}
                    nl = {}
                    if isinstance(ty, tuple) and ty[0] == 'dict' and ty[1] is None:
                        ty = ('dict', 'V')
                        lv = dict(lv)
                        lv['.val'] = fresh('dv', z3.ArraySort(V, V))
                    for sfx, t in lv.items():
                        nl[sfx] = fresh('loop' + sfx.replace('#', '_'), t.sort())
                    q.objs[n] = (ty, nl, meta)
            else:
                cur = self.leaf(q.heap, n)
                if v == 'all':
                    q.heap[n] = fresh(n, cur.sort())
                else:
                    for o in v:
                        q.heap[n] = Store(q.heap[n], o, fresh(n, cur.sort().range()))

    def st_While(self, st, p):
        return self.loop(st, p, None)

    def st_For(self, st, p):
        return self.sbind(self.ev(st.iter, p), lambda v, q: self.loop(st, q, v))

    def loop(self, st, p, itv):
        isfor = isinstance(st, ast.For)
        if isfor and isinstance(itv, TupV):
            return self.unroll(st, p, itv.items)
        names = self.assigned_names(st.body)
        if isfor:
            names |= self.assigned_names([ast.Assign(targets=[st.target], value=ast.Constant(value=None))])
        mark = next(_fresh)
        owner, specs = self.loop_specs(st, p)
        if specs and specs[0].ghost:
            for gn, (go, gt) in specs[0].ghost(LCtx(self, p, owner, dict(p.heap))).items():
                self.log_write(('heap', gn, go))
                p.heap[gn] = Store(self.leaf(p.heap, gn), go, gt)
        loop_heap, loop_env, loop_objs = dict(p.heap), dict(p.env), dict(p.objs)
        live = None
        sq = ety = None
        if isfor:
            v = itv
            if isinstance(v, LocV):
                l = self.resolve(p, v.loc)
                if l.root[0] == 'L' and not l.steps and not any(isinstance(x, LocV) and self.resolve(p, x.loc).root == l.root for x in p.env.values()):
                    live = None          # temporary: nobody else can mutate it
                else:
                    live = l
                    if self.loc_type(p, live) != 'list' and not (isinstance(self.loc_type(p, live), tuple) and self.loc_type(p, live)[0] == 'list'):
                        live = l
            elif isinstance(v, FnV) and v.kind in ('revview', 'keysview', 'valsview', 'enumview') and isinstance(v.src, LocV):
                live = self.resolve(p, v.src.loc)
            sq, ety = self.iter_seq(p, v)

        def element(q, ii, s_):
            el = at(s_, ii)
            if isinstance(ety, tuple) and ety[0] == 'enum':
                return self.assign(q, st.target, TupV([IV(ii), self.of_type(q, el, ety[1])]), st.lineno)
            return self.assign(q, st.target, self.of_type(q, el, ety), st.lineno)

        def body_dry(q):
            ends = []
            if isfor:
                ii = fresh('i', z3.IntSort())
                if live is None:
                    q.pc.append(And(ii >= 0, ii < length(sq)))
                r = element(q, ii, sq)
                for tag, _, q2 in r:
                    if tag == 'next':
                        ends += self.block(st.body, q2)
            else:
                for tag, v, q2 in self.ev(st.test, q):
                    if tag == 'ok':
                        ends += self.block(st.body, q2)
            return ends

        head, seen = self.havoc_loop(p, body_dry, names, mark)
        # is the iterated container modified by the body?
        mutated = False
        if live is not None:
            if live.root[0] == 'L':
                mutated = ('obj', live.root[1]) in seen
            else:
                decl, _ = self.field_type(live.root[1], live.root[2])
                name, _i = self._leafpath(live, '')
                for (kind, n), v in seen.items():
                    if kind == 'heap' and n.startswith(decl + '.' + live.root[2] + name):
                        if v == 'all' or any(not self.quick_unsat(p, o == live.root[3]) for o in v):
                            mutated = True
        if self.dry:
            # inside an outer dry run: continue after the loop with havocked state (also early exits)
            outs = [('next', None, head)]
            q = head.copy()
            body = []
            if isfor:
                ii = fresh('i', z3.IntSort())
                if live is None:
                    q.pc.append(And(ii >= 0, ii < length(sq)))
                for tag, _, q2 in element(q, ii, sq):
                    if tag == 'next':
                        body += self.block(st.body, q2)
            else:
                for tag, v, q2 in self.ev(st.test, q):
                    if tag == 'ok':
                        body += self.block(st.body, q2)
            for tag, v, q2 in body:
                if tag in ('ret', 'exc'):
                    outs.append((tag, v, q2))
            return outs
        if not specs:
            # a loop whose body has no effect on anything that survives needs no invariant beyond "true"
            specs = [LoopSpec(lambda L: [], name='trivial')]
            self.unmatched_loops.append((p.frame.func.qual, st.lineno))
        args = (owner, isfor, sq, ety, live if mutated else None, element, loop_heap, loop_env, loop_objs)
        last = None
        if len(specs) > 1:
            self.choices += 1
        if self.trials and len(specs) > 1:
            return self.merged(st, p, head, specs, args)
        for sp in specs:
            nobs, nun = len(self.obs), len(self.unmatched_loops)
            try:
                return self.loop_with(st, p, head, sp, *args)
            except NeedSpec as e:
                last = e
            del self.obs[nobs:]
            del self.unmatched_loops[nun:]
        raise last

    def merged(self, st, p, head, specs, args):
        """the clauses of all invariants of the function that hold of this loop: those that fail are dropped until the rest is inductive"""
        dropped = set()
        nobs, nun = len(self.obs), len(self.unmatched_loops)
        for attempt in range(8):
            del self.obs[nobs:]
            del self.unmatched_loops[nun:]
            sp = Merged(specs, dropped)
            outs = self.loop_with(st, p, head, sp, *args)
            lname = '%s loop@%d' % (p.frame.func.qual, st.lineno)
            bad = set()
            for ob in self.obs[nobs:]:
                key = getattr(ob, 'clause', None)
                if key is not None and key[0] is sp and key[1] not in bad and ob.status != 'proved':
                    if solve_one(self, ob, budget_ms=3000, quick=True) != 'proved':
                        bad.add(key[1])
            if not bad:
                break
            dropped |= bad
        return outs

    def loop_with(self, st, p, head, sp, owner, isfor, sq, ety, live, element, loop_heap, loop_env, loop_objs):
        fr = p.frame
        lname = '%s loop@%d' % (fr.func.qual, st.lineno)
        p = p.copy()
        head = head.copy()
        nobs = len(self.obs)

        def lctx(q, ii, s_):
            self.spec_path = q
            return LCtx(self, q, owner, loop_heap, ii, s_, loop_env, loop_objs)

        def clauses(q, ii, s_):
            try:
                return [norm_clause(c) + (None,) if len(c) < 4 else c for c in sp.inv(lctx(q, ii, s_))]
            except (NeedSpec,):
                raise
            except (AttributeError, KeyError, z3.Z3Exception, TypeError, Unsupported) as e:
                raise NeedSpec('invariant %s of %s not applicable: %s' % (sp.name, lname, e))

        z = IntVal(0)
        s0 = self.live_seq(p, live, sq, isfor)
        hs_ = sp.entry(lctx(p, z if isfor else None, s0)) if sp.entry else []
        for lab, tags, f, key in clauses(p, z if isfor else None, s0):
            self.oblige(p, '%s: invariant %s on entry' % (lname, lab), f, tags, st.lineno, hs_, kind='inv', clause=(sp, key))
        ii = fresh('i', z3.IntSort()) if isfor else None
        hs = self.live_seq(head, live, sq, isfor)
        if isfor:
            head.pc.append(ii >= 0)
            if live is None:
                head.pc.append(ii <= length(hs))
            # instance of lemma take_step (its trigger terms may only occur under quantifiers)
            head.pc.append(Implies(And(ii >= 0, ii < length(hs)), take(hs, ii + 1) == snoc(take(hs, ii), at(hs, ii))))
            head.pc.append(take(hs, length(hs)) == hs)
        for lab, tags, f, key in clauses(head, ii, hs):
            head.pc.append(f)
        if sp.hints:
            head.pc.extend(sp.hints(lctx(head, ii, hs)))
        binds = getattr(sp, 'binds', None)
        if binds:
            for n, (cond, val) in binds(lctx(p, z if isfor else None, s0)).items():
                if n not in p.env:
                    self.oblige(p, '%s: %s is not bound yet on entry' % (lname, n), Not(cond), (), st.lineno, [], kind='inv')
            mine = self.assigned_names(st.body)
            for n, (cond, val) in binds(lctx(head, ii, hs)).items():
                if n in mine and n not in p.env:
                    head.env[n] = Bound(cond, val)
        outs = []
        # exit path(s) and iteration path(s)
        iters = []
        if isfor:
            ex_ = head.copy()
            ex_.pc.append(ii >= length(hs))
            exits = [('next', None, ex_)]
            it = head.copy()
            it.pc.append(ii < length(hs))
            if self.quick_unsat(it, BoolVal(True)):
                iters = []
            else:
                for tag, v, q in element(it, ii, hs):
                    if tag == 'next':
                        iters.append(q)
                    else:
                        outs.append((tag, v, q))
        else:
            exits = []
            for tag, v, q in self.ev(st.test, head):
                if tag == 'exc':
                    outs.append((tag, v, q))
                    continue
                for b, r in self.fork(q, self.truth(q, v)):
                    if b:
                        iters.append(r)
                    else:
                        exits.append(('next', None, r))
        for q in iters:
            for tag, v, r in self.block(st.body, q):
                if tag in ('next', 'cont'):
                    i2 = ii + 1 if isfor else None
                    rs = self.live_seq(r, live, sq, isfor)
                    hs_ = list(sp.step(lctx(r, i2, rs))) if sp.step else []
                    for n, (cond, val) in (binds(lctx(r, i2, rs)).items() if binds else ()):
                        if n in mine and n not in p.env:
                            v1 = r.env.get(n)
                            ok = And(v1.cond, v1.val.t == val.t) if isinstance(v1, Bound) else v1.t == val.t if isinstance(v1, VV) and v1.cls == val.cls else BoolVal(False)
                            self.oblige(r, '%s: %s is bound as described' % (lname, n), Implies(cond, ok), (), st.lineno, list(hs_), kind='inv')
                    for lab, tags, f, key in clauses(r, i2, rs):
                        self.oblige(r, '%s: invariant %s preserved' % (lname, lab), f, tags, st.lineno, list(hs_), kind='inv', clause=(sp, key))
                        if lab in sp.cuts:          # a clause proved here may be used for the ones after it
                            hs_.append(f)
                elif tag == 'break':
                    outs.append(('next', None, r))
                else:
                    outs.append((tag, v, r))
        for tag, v, q in exits:
            if st.orelse:
                outs += self.block(st.orelse, q)
            else:
                outs.append((tag, v, q))
        return outs

    def live_seq(self, q, live, sq, isfor):
        if not isfor:
            return None
        if live is None:
            return sq
        return self.read(q, live)

    def unroll(self, st, p, items):
        res = [('next', None, p)]
        outs = []
        for it in items:
            nxt = []
            for tag, _, q in res:
                for t1, v1, r in self.assign(q, st.target, it, st.lineno):
                    if t1 != 'next':
                        outs.append((t1, v1, r))
                        continue
                    for t2, v2, r2 in self.block(st.body, r):
                        if t2 in ('next', 'cont'):
                            nxt.append(('next', None, r2))
                        elif t2 == 'break':
                            outs.append(('next', None, r2))
                        else:
                            outs.append((t2, v2, r2))
            res = nxt
        return res + outs

    # ------------------------------------------------------------ verifying a function
    def verify(self, qual, con=None):
        """generate all obligations of one function against its contract"""
        con = con or self.contracts[qual]
        func = self.src.find(con.body or qual)
        if func is None:
            raise Unsupported('function %s not found' % qual)
        self.plain(func)
        self.cur = qual
        p = P()
        a = func.node.args
        names = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]
        args = {}
        for n in names:
            if n == 'self':
                args[n] = VV(z3.Const('self', V), con.self_cls or func.cls)
            elif n in con.fixed:
                args[n] = VV(lit(con.fixed[n]))
            else:
                ty = con.params.get(n, 'V')
                if ty == 'const':
                    continue
                if is_composite(ty):
                    args[n] = self.fresh_value(p, n, ty)
                else:
                    (sfx, so), = leaves(ty)
                    args[n] = self.of_type(p, z3.Const('arg_' + n, so), ty)
        if a.vararg:
            args[a.vararg.arg] = VV(z3.Const('arg_' + a.vararg.arg, V))
            p.pc.append(V.is_tup(args[a.vararg.arg].t))
        if a.kwarg:
            if not isinstance(con.varkw, dict):
                raise Unsupported('variadic function under contract')
            args[a.kwarg.arg] = FnV('kwdict', items={k: VV(z3.Const('arg_' + k, V)) for k in con.varkw})
            for k, v in args[a.kwarg.arg].items.items():
                args['kw_' + k] = v
        for n in con.params:
            if n not in names:
                raise Unsupported('parameter %s of %s not found' % (n, qual))
        p.env = {n: v for n, v in args.items() if not n.startswith('kw_')}
        p.frame = Frame(func, p.heap, con, args)
        entry = p.heap
        self.spec_path = p
        c = Ctx(self, args, entry, entry, path=p)
        for cl in con.requires(c):
            p.pc.append(norm_clause(cl)[2])
        if con.assume_entry:
            p.pc.extend(con.assume_entry(c))
        p.frame.entry_heap = dict(p.heap)
        entry = p.frame.entry_heap
        # vacuity guard: the precondition must not be contradictory
        self.obs.append(Ob(qual, 'vacuity: precondition satisfiable (must NOT be refutable)', ('vacuity',), p.pc, BoolVal(False), kind='vacuity'))
        nret = 0
        given = [(n, args[n], sfx, self.read(p, args[n].loc, sfx)) for n in args if isinstance(args[n], LocV) for sfx, _ in leaves(self.loc_type(p, args[n].loc)) if sfx != '#ever']
        # a caller that gives nothing gets the default
        dflt = dict(zip([x.arg for x in a.posonlyargs + a.args][::-1], a.defaults[::-1]))
        dflt.update({x.arg: d for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None})
        for n, want in (con.defaults or {}).items():
            if n in dflt:
                got = ast.literal_eval(dflt[n]) if isinstance(dflt[n], (ast.Constant, ast.List, ast.Tuple, ast.Dict, ast.UnaryOp)) else dflt[n]
                self.oblige(p, '%s is %r when it is not given' % (n, want), BoolVal(type(got) is type(want) and got == want), con.default_tags, func.node.lineno)
        for tag, v, q in self.run_body(func, p):
            self.npaths += 1
            for n, av, sfx, t in given:
                if tag in ('next', 'ret', 'exc'):
                    self.oblige(q, 'frame: the container given as %s is left as it was' % n, self.read(q, av.loc, sfx) == t, ('frame',), func.node.lineno, kind='frame')
            if tag in ('next', 'ret'):
                nret += 1
                val = v if tag == 'ret' else VV(none)
                self.spec_path = q
                if is_composite(con.result) and isinstance(val, VV) and val.t.eq(none):
                    self.oblige(q, 'a container is returned', BoolVal(False), ('safety',), func.node.lineno, kind='safety')
                    continue
                res = self.result_term(q, val, con.result)
                if con.ghost:
                    for gn, gt in con.ghost(Ctx(self, args, entry, q.heap, res, path=q)).items():
                        q.heap[gn] = gt
                cc = Ctx(self, args, entry, q.heap, res, path=q)
                cc.locals = q.env
                hints = list(con.hints(cc))
                for cl in con.ensures(cc):
                    label, tags, f = norm_clause(cl)
                    self.oblige(q, 'ensures ' + label, f, tags, func.node.lineno, hints)
                self.check_frame(q, con, c, entry, hints)
            elif tag == 'exc':
                ename, line = v
                if ename in con.raises:
                    self.spec_path = q
                    cc = Ctx(self, args, entry, q.heap, exc=ename, path=q)
                    cc.locals = q.env
                    hints = list((con.exhints or con.hints)(cc))
                    for cl in con.raises[ename](cc):
                        label, tags, f = norm_clause(cl)
                        self.oblige(q, 'on %s: %s' % (ename, label), f, tags, line, hints)
                    self.check_frame(q, con, c, entry, hints)
                else:
                    self.oblige(q, 'no %s at line %s' % (ename, line), BoolVal(False), ('safety',), line, kind='safety')
            else:
                raise Unsupported('stray %s' % tag)
        return self.obs

    def result_term(self, q, val, ty):
        if ty == 'bool':
            return val.t if isinstance(val, BV) else self.truth(q, val)
        if ty == 'int':
            i_ = self.as_int(val)
            if i_ is None:
                if isinstance(val, VV):
                    return V.i(val.t)
                raise Unsupported('int result')
            return i_
        if is_composite(ty):
            if not isinstance(val, LocV):
                raise Unsupported('container result expected')
            return self.spec_term(val, q)
        if isinstance(val, LocV):
            return self.to_v(q, self.copy_composite(q, val.loc))
        return self.to_v(q, val)

    def check_frame(self, q, con, c, entry, hints):
        """everything outside modifies is unchanged"""
        allowed = {}
        for mdf in (con.modifies(c) if callable(con.modifies) else con.modifies):
            if isinstance(mdf, tuple):
                obj = mdf[1](c) if callable(mdf[1]) else mdf[1]
                for n in self.leaf_names(mdf[0]):
                    allowed.setdefault(n, []).append(obj)
            else:
                for n in self.leaf_names(mdf):
                    allowed[n] = None
        for n, t in q.heap.items():
            if n.startswith('$') and n not in self.ghost:
                continue
            t0 = self.leaf(entry, n)
            if t.eq(t0) or (n in allowed and allowed[n] is None):
                continue
            if n not in allowed:
                self.oblige(q, 'frame: %s unchanged' % n, t == t0, ('frame',), None, hints, kind='frame')
            else:
                xx = T.x
                self.oblige(q, 'frame: %s unchanged outside the named objects' % n,
                            FA([xx], Implies(And(*[xx != o for o in allowed[n]]), Select(t, xx) == Select(t0, xx)), [Select(t, xx)]),
                            ('frame',), None, hints, kind='frame')


# ------------------------------------------------------------------ solving
def solve_one(ex, ob, budget_ms=10000, quick=False):
    t0 = time.time()
    if z3.is_true(ob.goal):
        ob.status, ob.backend = 'proved', 'trivial'
        return ob.status
    if ob.kind == 'vacuity':
        sol = T.new_solver(1500)
        sol.add(*ex.axioms)
        sol.add(*ob.pc)
        r = sol.check()
        ob.status = 'VACUOUS' if r == z3.unsat else 'proved'
        ob.backend = 'z3'
        ob.secs = time.time() - t0
        return ob.status
    axs = T.relevant(ex.axioms, list(ob.pc) + list(ob.hints) + [ob.goal])
    seeds = [0, 2] if quick else [0, 2, 3, 1]
    for k, seed in enumerate(seeds):
        sol = T.new_solver(budget_ms if quick or k else max(budget_ms // 2, 1000), seed, simple=seed != 1)
        sol.add(*axs)
        sol.add(*ob.pc)
        sol.add(*ob.hints)
        sol.add(Not(ob.goal))
        r = sol.check()
        if r == z3.unsat:
            ob.status, ob.backend = 'proved', 'z3'
            break
        ob.status = 'sat' if r == z3.sat else 'unknown(%s)' % sol.reason_unknown()
        if r == z3.sat:
            break
        if 'incomplete' in sol.reason_unknown() and k >= 2:
            break
    ob.secs = time.time() - t0
    return ob.status
