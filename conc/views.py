"""Executable oracles for views, counts, the bank, the queue, queued actions and the GTK model."""
import collections
import contextlib
import io
import threading

from world import World, Snap, Failure, need, circ


LAB = ['', 'L1', 'L2']      # column values may be empty
YES = [True, 2, 'x', [0], 1]
NO = [False, None, '', [], 0]


def given(op):
    """the arguments of get_viewtree / get_viewcount; what equals the default is not given"""
    kw = {'name': op[1]} if len(op) < 4 else {}
    if not op[2]:
        kw['refresh'] = False
    return kw


class ViewWorld(World):
    """adds filters (each judging a node by itself), views and counts to the tree world"""
    def __init__(self, sc):
        World.__init__(self, sc)
        self.verdict = {f: dict(v['yes']) for f, v in sc['filters'].items()}
        self.params = {f: dict(v.get('params', {})) for f, v in sc['filters'].items()}
        self.style = {f: v.get('style', 0) for f, v in sc['filters'].items()}
        self.bank = set()
        self.label = {i: 0 for i in self.ids}
        self.views = {}
        self.applied = {}
        self.fresh = {}
        self.counts = {}
        for f, v in sc['filters'].items():
            if v.get('bank', True):
                self.addf(f)

    def func(self, f):
        def judge(node, parameters=None):
            r = self.verdict[f].get(node.get_id(), True)
            if parameters and parameters.get('inv'):
                r = not r
            # verdicts need not be booleans
            return YES[self.style.get(f, 0) % len(YES)] if r else NO[self.style.get(f, 0) % len(NO)]
        return judge

    def addf(self, f):
        if f in self.bank:
            return
        self.bank.add(f)
        self.tree.add_filter(f, self.func(f), dict(self.params[f]) if self.params[f] else None)

    def accepts(self, f, i):
        if f not in self.bank:
            return False
        r = self.verdict[f].get(i, True)
        p = self.params[f]
        if p.get('inv'):
            r = not r
        if p.get('negate'):
            r = not r
        return r

    def accepted(self, names, has):
        return {i for i in has if all(self.accepts(f, i) for f in names)}

    def flat(self, names):
        return any(f in self.bank and self.params[f].get('flat') for f in names)

    def inuse(self, f):
        return any(f in a for a in self.applied.values()) or any(f in a for a in self.capplied.values())

    capplied = {}
    loose = False

    def apply(self, op):
        k = op[0]
        if k == 'toggle':
            _, f, i = op
            if f not in self.verdict:
                return False
            self.verdict[f][i] = not self.verdict[f].get(i, True)
            self.label[i] += 1
            self.tree.refresh_node(i)
            return True
        if k == 'relabel':
            self.label[op[1]] += 1
            self.tree.refresh_node(op[1])
            return True
        if k == 'view':
            if op[1] in self.views:
                return False
            self.views[op[1]] = self.tree.get_viewtree(**given(op))
            self.applied[op[1]] = []
            self.fresh[op[1]] = bool(op[2])
            return True
        if k == 'filt':
            _, v, f, reset = op[:4]
            par = op[4] if len(op) > 4 else None
            if v not in self.views or f not in self.verdict:
                return False
            if par:
                others = [n for n, a in self.applied.items() if f in a and n != v] + [n for n, a in self.capplied.items() if f in a]
                if others or f not in self.bank:
                    return False
            old = list(self.applied[v])
            new = ([] if reset else list(old))
            if f not in new:
                new.append(f)
            if par:
                self.params[f] = dict(par)
            self.applied[v] = new
            kw = {'parameters': dict(par)} if par else {}
            if reset:
                kw['reset'] = True
            self.views[v].apply_filter(f, **kw)
            if not self.fresh[v]:
                self.fresh[v] = par or f not in old or bool(reset)
            return True
        if k == 'unfilt':
            _, v, f = op
            if v not in self.views:
                return False
            was = f in self.applied[v]
            if was:
                self.applied[v].remove(f)
            self.views[v].unapply_filter(f)
            self.fresh[v] = self.fresh[v] or was
            return True
        if k == 'nofilt':
            if op[1] not in self.views:
                return False
            self.applied[op[1]] = []
            self.views[op[1]].reset_filters()
            self.fresh[op[1]] = True
            return True
        if k == 'bankadd':
            used = self.inuse(op[1])
            if op[1] not in self.verdict or op[1] in self.bank or used and not self.loose:
                return False
            self.addf(op[1])
            if used:
                self.tree.refresh_all()
            return True
        if k == 'bankdel':
            used = self.inuse(op[1])
            if op[1] not in self.bank or used and not self.loose:
                return False
            self.bank.discard(op[1])
            self.tree.remove_filter(op[1])
            if used:
                # every verdict changed: announced for every node
                self.tree.refresh_all()
            return True
        return World.apply(self, op)


def reserved(w):
    return {'root', 'anonymous_root'} | {'root_%s' % n for n in w.views}


# ---------------------------------------------------------------- per view oracles
def want_parents(w, g, v):
    acc = w.accepted(w.applied[v], g.has)
    fl = w.flat(w.applied[v])
    return acc, {i: (set() if fl else {p for p in g.P[i] if p in acc}) for i in acc}


def o_C09(w, g):
    for n, v in w.views.items():
        if not w.fresh[n]:
            continue
        acc = w.accepted(w.applied[n], g.has)
        al = v.get_all_nodes()
        need(sorted(al) == sorted(acc), 'displayed nodes are not the accepted nodes', n, sorted(al), sorted(acc))
        for i in w.ids:
            need(bool(v.is_displayed(i)) == (i in acc), 'is_displayed differs', n, i)


def o_C10(w, g):
    for n, v in w.views.items():
        if not w.fresh[n]:
            continue
        acc, par = want_parents(w, g, n)
        shown = set(v.get_all_nodes())
        for i in shown:
            p = v.node_parents(i)
            need(len(set(p)) == len(p), 'a parent is listed twice', n, i, p)
            if i in acc:
                need(set(p) == {x for x in par[i] if x in shown}, 'parents in the view are not the displayed parents', n, i, p, par[i])
        for i in list(shown) + [None]:
            ch = list(v.node_all_children(i))
            need(len(set(ch)) == len(ch), 'a child is listed twice', n, i, ch)
            exp = {c for c in shown if (i in v.node_parents(c) if i is not None else not v.node_parents(c))}
            need(set(ch) == exp, 'children and parents disagree', n, i, ch, exp)
            if i is None:
                need(set(ch) & acc == {c for c in shown & acc if not {x for x in par[c] if x in shown}}, 'top level of the view is wrong', n, ch)


def o_C12(w, g):
    for n, v in w.views.items():
        if not w.fresh[n]:
            continue
        shown = set(v.get_all_nodes())
        kids = {i: list(v.node_all_children(i)) for i in shown}
        top = list(v.node_all_children())
        kids[None] = top
        par = {i: list(v.node_parents(i)) for i in shown}
        for i in shown:
            need(set(par[i]) == {x for x in shown if i in kids[x]}, 'parents and children disagree', n, i, par[i])
            need((i in top) == (not par[i]), 'top level and parents disagree', n, i)
            need(bool(v.node_has_parent(i)) == bool(par[i]), 'node_has_parent differs', n, i)
        paths = collections.defaultdict(list)
        todo = [(x,) for x in top]
        while todo:
            p = todo.pop()
            need(len(p) <= len(shown), 'a cycle in the view', n, p)
            paths[p[-1]].append(p)
            todo += [p + (c,) for c in kids[p[-1]]]
        allp = {p for ps in paths.values() for p in ps}

        def rec(i):
            return sum(1 + rec(c) for c in kids[i])
        for i in list(shown) + [None]:
            if i is not None:
                real = v.get_paths_for_node(i)
                need(sorted(real) == sorted(paths[i]), 'paths differ', n, i, real, paths[i])
                for p in real:
                    need(v.get_node_for_path(p) == i, 'a path does not resolve', n, p)
                    for y in list(w.ids) + ['zzz']:
                        for q in (p + (y,), (y,) + p, p[:-1] + (y, i)):
                            if q not in allp:
                                need(v.get_node_for_path(q) is None, 'a wrong path resolves', n, q)
                    if len(p) > 1 and p[1:] not in allp:
                        need(v.get_node_for_path(p[1:]) is None, 'a wrong path resolves', n, p[1:])
            need(v.node_n_children(i) == len(kids[i]), 'child count differs', n, i)
            need(v.node_n_children(i, True) == rec(i), 'recursive child count differs', n, i)
            need(bool(v.node_has_child(i)) == bool(kids[i]), 'node_has_child differs', n, i)
            for k, c in enumerate(kids[i]):
                need(v.node_nth_child(i, k) == c, 'n-th child differs', n, i, k)
                nx = kids[i][k + 1] if k + 1 < len(kids[i]) else None
                need(v.next_node(c, i) == nx, 'next sibling differs', n, c, i)
            for k in (len(kids[i]), len(kids[i]) + 1):
                try:
                    r = v.node_nth_child(i, k)
                except (ValueError, IndexError):
                    r = None
                need(r is None, 'a child beyond the last', n, i, r)
            for y in shown:
                if i is not None and y not in par[i]:
                    try:
                        r = v.next_node(i, y)
                    except Exception:
                        r = None
                    need(r is None, 'next sibling under a node that is not a parent', n, i, y, r)
        for i in w.ids:
            if i not in shown:
                for f in (lambda: v.node_n_children(i), lambda: v.node_n_children(i, True), lambda: list(v.node_all_children(i)),
                          lambda: list(v.node_parents(i)), lambda: v.next_node(i), lambda: v.node_nth_child(i, 0),
                          lambda: v.node_has_child(i), lambda: v.node_has_parent(i), lambda: v.get_node_for_path((i,)),
                          lambda: v.is_displayed(i), lambda: [p for p in v.get_paths_for_node(i) if p != ()]):
                    try:
                        r = f()
                    except Exception:
                        r = None
                    need(not r, 'an answer about a node that is not displayed', n, i, r)


def o_C13(w, g):
    names = sorted(w.verdict) + ['nosuch']
    combos = [[]] + [[a] for a in names] + [[a, b] for a in names for b in names]
    todo = list(w.views.items()) + [('main', w.tree.get_main_view())]
    for n, v in todo:
        if n != 'main' and not w.fresh[n]:
            continue
        shown = set(v.get_all_nodes())
        before = None if n == 'main' else v.list_applied_filters()
        for c in combos:
            ex = sorted(i for i in shown if all(w.accepts(f, i) for f in c if f in w.bank))
            c2 = list(c)
            r = v.get_nodes(withfilters=c2)
            need(sorted(r) == ex, 'listing with filters differs', n, c, sorted(r), ex)
            need(v.get_n_nodes(withfilters=c2) == len(ex), 'counting with filters differs', n, c)
            need(c2 == c, 'the given list of filters was changed', n, c, c2)
        need(sorted(v.get_nodes()) == sorted(shown), 'listing without filters differs', n)
        need(v.get_n_nodes() == len(shown), 'counting without filters differs', n)
        need(set(v.get_all_nodes()) == shown and (before is None or before == v.list_applied_filters()), 'the query changed the view', n)


class Mirror:
    def __init__(self):
        self.p = {}

    def add(self, nid, path):
        need(path is not None and len(path) > 0 and path[-1] == nid, 'an added path does not end at its node', nid, path)
        need(path not in self.p, 'a path was added twice', path)
        need(len(path) == 1 or path[:-1] in self.p, 'a path was added before its parent path', path)
        self.p[path] = 1

    def rem(self, nid, path):
        need(path in self.p, 'an absent path was deleted', path)
        need(path[-1] == nid, 'a deleted path does not end at its node', nid, path)
        need(not any(len(q) > len(path) and q[:len(path)] == path for q in self.p), 'a path was deleted while paths lie below it', path)
        del self.p[path]


def view_paths(v):
    return collections.Counter(p for i in v.get_all_nodes() for p in v.get_paths_for_node(i))


def spin():
    from gi.repository import GLib
    c = GLib.MainContext.default()
    n = 0
    while c.pending() and n < 1000:
        c.iteration(False)
        n += 1


def actpar(key):
    return None if key % 7 == 6 else [('P', key), 0, '', key, None, [], 'x', False, (), {}, True][key % 11]


def run_view(prop, sc):
    w = ViewWorld(sc)
    w.capplied = {}
    w.loose = prop == 'C14'
    shift = {}
    mirrors, models, errors = {}, {}, []
    acts = {}                    # C17: key -> [view, node, expected calls]
    calls = []
    fns = {}
    cnt = {}

    def guard(f):
        # an oracle that fails inside a callback must not be swallowed by the code under test
        def g(*a):
            try:
                f(*a)
            except Failure as e:
                errors.append(e)
                raise
        return g

    def queue(v, i, key):
        view = w.views[v]
        shown = view.is_displayed(i)
        prev = acts.setdefault((v, i), [])
        if prev and key % 4 == 3:
            # the very same action with the same parameter once more
            key = prev[-1][0]
            act = fns[key]
        else:
            def act(p, key=key, v=v, i=i):
                calls.append((key, p, view.is_displayed(i), bool(w.inop)))
                return [None, True, 0, 'again', i][key % 5]
        fns[key] = act
        prev.append([key, shown, False])
        if key % 7 == 6:
            view.queue_action(i, act)
        else:
            view.queue_action(i, act, param=actpar(key))
    nact = [0]
    with contextlib.redirect_stdout(w.out):
        for op in sc['ops']:
            k = op[0]
            w.inop = True
            if k == 'connect':
                # a consumer connects: from here on it follows the signals
                if op[1] not in w.views or op[1] in mirrors or prop not in ('C11', 'C18'):
                    continue
                v = w.views[op[1]]
                if prop == 'C11':
                    m = mirrors[op[1]] = Mirror()
                    v.register_cllbck('node-added-inview', guard(m.add))
                    v.register_cllbck('node-deleted-inview', guard(m.rem))
                    v.get_current_state()
                else:
                    mirrors[op[1]] = None
                    from liblarch_gtk.treemodel import TreeModel
                    m = models[op[1]] = TreeModel(v, [[str, lambda node: LAB[w.label[node.get_id()] % 3]], [int, lambda node: w.label[node.get_id()] % 3]])
                    shift[op[1]] = 0
                    m.connect_model()
            elif k == 'setcol':
                # another function for a column; every node is refreshed
                if op[1] not in models:
                    continue
                m = models[op[1]]
                need(m.set_column_function(2, lambda node, d=op[2]: (w.label[node.get_id()] + d) % 3) is True, 'a column function is not replaced')
                need(m.set_column_function(3 + op[2], lambda node: 0) is False, 'a column that does not exist gets a function')
                shift[op[1]] = op[2]
                (w.tree if op[2] % 2 else w.views[op[1]]).refresh_all()
            elif k == 'queue':
                if op[1] not in w.views or prop != 'C17':
                    continue
                if op[1] not in mirrors:
                    # a node may be shown and hidden again within one request
                    mirrors[op[1]] = None

                    def appeared(nid, path, v=op[1]):
                        for a in acts.get((v, nid), []):
                            a[1] = True
                    w.views[op[1]].register_cllbck('node-added-inview', appeared)
                key = nact[0]
                nact[0] += 1
                queue(op[1], op[2], key)
                spin()
            elif k == 'count':
                if op[1] in w.counts or prop != 'C14':
                    continue
                c = w.counts[op[1]] = w.tree.get_viewcount(**given(op))
                w.capplied[op[1]] = []
                cnt[op[1]] = {'on': bool(op[2]), 'calls': [], 'last': None}
            elif k == 'cmodify':
                # a change of verdict told to the count alone, then to everybody
                if op[1] not in w.counts or op[2] not in w.verdict or not w.tree.has_node(op[3]):
                    continue
                i = op[3]
                w.verdict[op[2]][i] = not w.verdict[op[2]].get(i, True)
                c = w.counts[op[1]]
                c.modify(i)
                if cnt[op[1]]['on']:
                    acc = w.accepted(w.capplied[op[1]], Snap(w).has)
                    need(c.get_n_nodes() == len(acc), 'a count told about a node differs from the number of accepted nodes', op[1], c.get_n_nodes(), sorted(acc))
                w.tree.refresh_node(i)
            elif k == 'clisten':
                # listeners of a count: op = [_, count, listener id, on]
                if op[1] not in w.counts:
                    continue
                c = w.counts[op[1]]
                st = cnt[op[1]].setdefault('ls', {})
                fs = cnt[op[1]].setdefault('fs', {})
                if op[2] not in fs:
                    def f(name=op[1], l=op[2]):
                        cnt[name]['calls'].append(l)
                    fs[op[2]] = f
                if op[3]:
                    c.register_cllbck(fs[op[2]])
                    st[op[2]] = True
                else:
                    c.unregister_cllbck(fs[op[2]])
                    st.pop(op[2], None)
                continue
            else:
                try:
                    if k in ('cfilt', 'cunfilt'):
                        if op[1] not in w.counts:
                            continue
                        c = w.counts[op[1]]
                        a = w.capplied[op[1]]
                        if k == 'cfilt':
                            ref = len(op) < 4 or bool(op[3])
                            kw = {'refresh': ref} if len(op) > 3 else {}
                            if op[2] in w.bank and op[2] not in a:
                                a.append(op[2])
                                cnt[op[1]]['on'] = ref
                            c.apply_filter(op[2], **kw)
                        else:
                            if op[2] in a:
                                a.remove(op[2])
                                cnt[op[1]]['on'] = True
                            c.unapply_filter(op[2])
                        applied = True
                    else:
                        applied = w.apply(op)
                except Failure:
                    raise
                except Exception as e:
                    if errors:
                        raise errors[0]
                    if not circ(e):
                        raise Failure('unexpected %s: %s' % (type(e).__name__, e))
                    applied = True
                if applied is False:
                    continue
            w.inop = False
            if errors:
                raise errors[0]
            g = Snap(w)
            if prop == 'C09':
                o_C09(w, g)
            elif prop == 'C10':
                o_C10(w, g)
            elif prop == 'C12':
                o_C12(w, g)
            elif prop == 'C13':
                o_C13(w, g)
            elif prop == 'C11':
                for n, m in mirrors.items():
                    vp = view_paths(w.views[n])
                    need(vp == collections.Counter(m.p), 'the signals do not reproduce the view', n, sorted((vp - collections.Counter(m.p))), sorted(collections.Counter(m.p) - vp))
            elif prop == 'C18':
                for n, m in models.items():
                    v = w.views[n]
                    vp = view_paths(v)
                    rows = collections.Counter()
                    todo = [(m.get_iter_first(), ())]
                    while todo:
                        it, pre = todo.pop()
                        if it is None:
                            continue
                        p = pre + (m.get_value(it, 0),)
                        rows[p] += 1
                        lab = w.label[p[-1]]
                        need(m.get_value(it, 1) == LAB[lab % 3] and m.get_value(it, 2) == (lab + shift[n]) % 3, 'a row does not show its node', n, p, m.get_value(it, 1), lab)
                        todo.append((m.iter_next(it), pre))
                        todo.append((m.iter_children(it), p))
                    need(rows == vp, 'rows are not the paths of the view', n, sorted(rows - vp), sorted(vp - rows))
            elif prop == 'C17':
                spin()
                for (v, i), lst in acts.items():
                    shown = w.views[v].is_displayed(i)
                    for a in lst:
                        a[1] = a[1] or shown
                exp = collections.Counter(a[0] for lst in acts.values() for a in lst if a[1])
                got = collections.Counter(c[0] for c in calls)
                need(exp == got, 'queued actions did not run exactly once when their node appeared', sorted((exp - got).elements()), sorted((got - exp).elements()))
                for key, p, dis, _ in calls:
                    need(type(p) is type(actpar(key)) and p == actpar(key), 'an action ran with a wrong parameter', key, p)
                    need(dis, 'an action ran while its node was not displayed', key)
                order = [c[0] for c in calls]
                for (v, i), lst in acts.items():
                    mine = [c for c in order if c in [a[0] for a in lst]]
                    need(mine == [a[0] for a in lst if a[1]], 'actions of one node ran out of order', v, i, mine)
            elif prop == 'C14':
                for n, c in w.counts.items():
                    st = cnt[n]
                    num, was = c.get_n_nodes(), st.get('n')
                    st['n'] = num
                    if was is not None and was != num:
                        for l in st.get('ls', {}):
                            need(l in st['calls'], 'a listener of a count was not called although the count changed', n, l)
                    if not st['on']:
                        st['calls'] = []
                        st['last'] = None
                        continue
                    acc = w.accepted(w.capplied[n], g.has)
                    need(c.get_n_nodes() == len(acc), 'a count differs from the number of accepted nodes', n, c.get_n_nodes(), sorted(acc))
                    need(sorted(c.nodes) == sorted(acc) if hasattr(c, 'nodes') else True, 'counted nodes differ', n)
                    if st['last'] is not None:
                        ch = acc != st['last']
                        for l in st.get('ls', {}):
                            if ch:
                                need(l in st['calls'], 'a listener of a count was not called although the counted nodes changed', n, l)
                            elif k in ('toggle', 'relabel', 'refresh', 'cfilt', 'cunfilt', 'refresh_all', 'ap', 'nap', 'ac', 'rp', 'mv', 'sp', 'bankadd', 'bankdel'):
                                need(l not in st['calls'], 'a listener of a count was called although the counted nodes did not change', n, l)
                        for l in st['calls']:
                            need(l in st.get('ls', {}), 'an unregistered listener of a count was called', n, l)
                    st['last'] = acc
                    st['calls'] = []


# ---------------------------------------------------------------- the bank
def run_bank(prop, sc):
    import liblarch
    t = liblarch.Tree()
    reg = {}
    sel = {}
    seen = []

    def mk(tag):
        def f(node, parameters=None):
            seen.append((tag, node.get_id(), parameters))
            r = sel.get((tag, node.get_id()), True)
            return YES[tag % len(YES)] if r else NO[tag % len(NO)]
        return f
    fns = {}
    out = io.StringIO()
    v = t.get_viewtree(refresh=False)
    fbank = v._ViewTree__fbank if hasattr(v, '_ViewTree__fbank') else None
    with contextlib.redirect_stdout(out):
        for op in sc['ops']:
            k = op[0]
            if k == 'add':
                name, tag, par = op[1], op[2], op[3]
                f = fns.setdefault(tag, mk(tag))
                key = name[1:] if name.startswith('!') else name
                r = t.add_filter(name, f, dict(par) if par else None)
                need(bool(r) == (key not in reg), 'adding a filter reports the wrong result', name, r)
                if key not in reg:
                    reg[key] = (tag, par or {})
            elif k == 'rem':
                r = t.remove_filter(op[1])
                need(bool(r) == (op[1] in reg), 'removing a filter reports the wrong result', op[1], r)
                reg.pop(op[1], None)
            elif k == 'par':
                # parameters given when the filter is applied replace its own
                if op[1] in reg:
                    v.apply_filter(op[1], parameters=dict(op[2]))
                    v.reset_filters()
                    if op[2]:
                        reg[op[1]] = (reg[op[1]][0], dict(op[2]))
            elif k == 'node':
                if not t.has_node(op[1]):
                    t.add_node(liblarch.TreeNode(op[1]))
            elif k == 'sel':
                sel[op[1], op[2]] = op[3]
                continue
            lf = t.list_filters()
            need(sorted(lf) == sorted(reg), 'the bank does not list the registered filters', sorted(lf), sorted(reg))
            for name in sc['names']:
                if fbank is not None:
                    need(bool(fbank.has_filter(name)) == (name in reg), 'has_filter differs', name)
                    fi = fbank.get_filter(name)
                    need((fi is not None) == (name in reg), 'get_filter differs', name)
                    if fi is None:
                        continue
                    tag, par = reg[name]
                    for q in ('negate', 'flat', 'x'):
                        need(fi.get_parameters(q) == par.get(q), 'parameters differ', name, q)
                    for i in sc['ids']:
                        del seen[:]
                        r = fi.is_displayed(i)
                        if not t.has_node(i):
                            need(not r, 'a filter accepts an absent node', name, i)
                            continue
                        base = bool(sel.get((tag, i), True))
                        need(bool(r) == (base != bool(par.get('negate'))), 'a filter gives the wrong verdict', name, i, r)
                        need([s[:2] for s in seen] == [(tag, i)], 'a filter does not ask the given function', name, i, seen)
                        need(not par or dict(seen[0][2]) == dict(par), 'the function did not get the parameters', name, seen)


# ---------------------------------------------------------------- the queue
class Boom(Exception):
    pass


def racing(k, other, run):
    """run() in this thread; at the k-th line it executes in processqueue.py another thread starts other() and goes on
    until it is done or has to wait"""
    import sys
    th = threading.Thread(target=other, daemon=True)
    st = {'left': k}

    def start():
        if th.ident is None:
            th.start()
            th.join(.02)

    def line(frame, event, arg):
        if event == 'line' and th.ident is None:
            if st['left'] <= 0:
                start()
            st['left'] -= 1
        return line

    def call(frame, event, arg):
        return line if frame.f_code.co_filename.endswith('processqueue.py') else None
    old = sys.gettrace()
    sys.settrace(call)
    try:
        run()
    finally:
        sys.settrace(old)
        start()
        th.join(10)
    return not th.is_alive()


def run_queue(prop, sc):
    from liblarch.processqueue import SyncQueue
    from gi.repository import GLib
    import sys
    ctx = GLib.MainContext.default()
    low = GLib.idle_add(lambda: False)
    GLib.source_remove(low)
    q = SyncQueue()
    me = threading.current_thread()
    done = []
    waiting = {'high': [], None: [], 'low': []}
    bad = []

    def make(tag, fail):
        def f(*args):
            done.append((tag, args, threading.current_thread() is me))
            if fail == 'again':
                q.push(fs['inner'], tag)
            if fail == 'boom':
                raise Boom(tag)
        return f
    fs = {}
    fs['inner'] = make('inner', None)
    amb, swap = [], []

    def head(e=None):
        """the request that is due; of two issued at the same time, either"""
        for p in ('high', None, 'low'):
            if waiting[p]:
                w0 = waiting[p][0]
                if len(waiting[p]) > 1 and (waiting[p][1][0], waiting[p][1][2], True) == e and (w0, waiting[p][1]) in swap:
                    waiting[p][0:2] = [waiting[p][1], w0]
                return p, waiting[p][0]
    exp = []
    err, sys.stderr = sys.stderr, io.StringIO()
    try:
        for op in sc['ops']:
            k = op[0]
            if k == 'push':
                _, tag, args, pri, fail = op
                f = fs.setdefault((tag, fail), make(tag, fail))
                el = (tag, fail, tuple(args))
                th = threading.Thread(target=lambda: q.push(f, *args, priority=pri) if pri != 'none' else q.push(f, *args))
                n = len(done)
                th.start()
                th.join()
                need(len(done) == n, 'a request of another thread ran at once', tag)
                p = pri if pri in ('high', 'low') else None
                if el not in waiting[p]:
                    waiting[p].append(el)
            elif k in ('race', 'race2'):
                # a request of another thread at the k-th line of processing, or of a push of a third thread
                mine = []
                for tag, pri in (op[2:4], op[4:6])[:1 if k == 'race' else 2]:
                    if k == 'race':
                        tag = 'race%d' % len(amb)
                    amb.append(0)
                    mine.append(((tag, None, ()), pri if pri in ('high', 'low') else None, fs.setdefault((tag, None), make(tag, None)), pri))
                push = lambda m: (q.push(m[2], priority=m[3]) if m[3] != 'none' else q.push(m[2]))
                n = len(done)
                if k == 'race':
                    need(racing(op[1], lambda: push(mine[0]), lambda: ctx.iteration(False)), 'a request of another thread waits forever')
                    el, p = mine[0][0], mine[0][1]
                    new = done[n:]
                    e0 = new[0] if new else None
                    heads = [head(e0)] if head() else []
                    waiting[p].append(el)
                    heads.append(head(e0))
                    need(new or len(heads) == 1, 'a waiting request is not being processed', {str(a): b for a, b in waiting.items()})
                    for e in new[:1]:
                        hit = [(p2, h) for p2, h in heads if (h[0], h[2], True) == e]
                        need(hit, 'requests ran in the wrong order, thread or with wrong arguments', e, heads)
                        waiting[hit[0][0]].remove(hit[0][1])
                        new = new[1:]
                        if hit[0][1][1] == 'again':
                            need(new and new[0] == ('inner', (hit[0][1][0],), True), 'a request issued while processing did not run at once')
                            new = new[1:]
                    need(not new, 'a request ran twice', new)
                else:
                    fine = []
                    t1 = threading.Thread(daemon=True, target=lambda: fine.append(racing(op[1], lambda: push(mine[1]), lambda: push(mine[0]))))
                    t1.start()
                    t1.join(20)
                    need(fine == [True], 'a request of another thread waits forever')
                    need(len(done) == n, 'a request of another thread ran at once')
                    was = [m for m in mine if m[0] not in waiting[m[1]]]
                    for m in mine:
                        if m[0] not in waiting[m[1]]:
                            waiting[m[1]].append(m[0])
                    if len(was) == 2 and was[0][1] == was[1][1] and was[0][0] != was[1][0]:
                        swap.append((was[0][0], was[1][0]))
            elif k == 'own':
                _, tag, args, pri, fail = op
                f = fs.setdefault((tag, fail), make(tag, fail))
                n = len(done)
                try:
                    q.push(f, *args, priority=pri)
                except Boom:
                    need(fail == 'boom', 'an error from nowhere')
                inner = [('inner', (tag,), True)] if fail == 'again' else []
                need(done[n:] == [(tag, tuple(args), True)] + inner, 'a request of the own thread did not run at once', tag, done[n:])
                del done[n:]
            elif k in ('step', 'drain'):
                for _ in range(1 if k == 'step' else 200):
                    n = len(done)
                    tot = sum(len(x) for x in waiting.values())
                    if k == 'drain' and not tot and not ctx.pending():
                        break
                    ctx.iteration(False)
                    new = done[n:]
                    if not tot:
                        need(not new, 'a request ran although none was waiting', new)
                        continue
                    need(new, 'a waiting request is not being processed', {str(a): b for a, b in waiting.items()})
                    while new:
                        hd = head(new[0])
                        need(hd, 'a request ran twice', new)
                        p = hd[0]
                        tag, fail, args = waiting[p].pop(0)
                        need(new[0] == (tag, args, True), 'requests ran in the wrong order, thread or with wrong arguments', new[0], (tag, args))
                        new = new[1:]
                        if fail == 'again':
                            need(new and new[0] == ('inner', (tag,), True), 'a request issued while processing did not run at once')
                            new = new[1:]
        for _ in range(400):
            if not sum(len(x) for x in waiting.values()):
                break
            n = len(done)
            ctx.iteration(False)
            need(len(done) > n, 'a waiting request is never processed', {str(a): b for a, b in waiting.items()})
            new = done[n:]
            while new:
                hd = head(new[0])
                need(hd, 'a request ran twice', new)
                p = hd[0]
                tag, fail, args = waiting[p].pop(0)
                need(new[0] == (tag, args, True), 'requests ran in the wrong order', new[0], (tag, args))
                new = new[1:]
                if fail == 'again':
                    new = new[1:]
        n = len(done)
        for _ in range(5):
            ctx.iteration(False)
        need(len(done) == n, 'a request ran twice', done[n:])
    finally:
        sys.stderr = err
        # do not leave sources behind for the next scenario
        top = GLib.idle_add(lambda: False)
        for n in range(low, top + 1):
            if ctx.find_source_by_id(n) is not None:
                GLib.source_remove(n)
