"""Executable oracles on the real code (run with the interpreter that has PyGObject).

A scenario is a JSON object {"kind": ..., "ops": [...], ...}.  run(prop, scenario) executes it on the real
library and raises Failure when the property's oracle is contradicted.  The oracles state the properties
over observations made through the public interface, clause by clause as the contracts do.
"""
import sys
import io
import contextlib
import collections

REPO = None


def setup(repo):
    global REPO
    REPO = repo
    sys.path.insert(0, repo)
    sys.dont_write_bytecode = True


class Failure(Exception):
    pass


def need(cond, what, *detail):
    if not cond:
        raise Failure(what + (': ' + ', '.join(repr(d) for d in detail) if detail else ''))


class Snap:
    """what the public interface shows of the tree"""
    def __init__(self, w):
        t = w.tree
        self.has = {i for i in w.ids if t.has_node(i)}
        self.P, self.C = {}, {}
        for i in self.has:
            n = t.get_node(i)
            self.P[i] = list(n.get_parents())
            self.C[i] = list(n.get_children())
        self.roots = list(t.get_main_view().node_all_children())

    def edges(self):
        return {(p, c) for c in self.has for p in self.P[c]}

    def anc(self, a, b):
        """a is b or an ancestor of b"""
        seen, todo = set(), [b]
        while todo:
            x = todo.pop()
            if x == a:
                return True
            if x in seen or x not in self.P:
                continue
            seen.add(x)
            todo += self.P[x]
        return False

    def below(self, a):
        return {x for x in self.has if self.anc(a, x)}


def order_kept(old, new):
    """elements common to both keep their relative order"""
    cm = [x for x in new if x in old]
    return [x for x in old if x in new] == cm


class World:
    def __init__(self, sc):
        import liblarch
        self.L = liblarch
        self.ids = list(sc['ids'])
        self.tree = liblarch.Tree()
        self.handles = {}          # id -> current node object
        self.decl = {}             # id of a node not in the tree -> declared relations
        self.pend = set()          # remembered relations
        self.show = dict(sc.get('show', {}))
        self.listeners = []
        self.out = io.StringIO()

    def node(self, i):
        if i not in self.handles:
            self.handles[i] = self.L.TreeNode(i)
            self.decl.setdefault(i, set())
        return self.handles[i]

    # every op returns None when it does not apply in this state, else a tuple describing it
    def apply(self, op):
        t = self.tree
        k = op[0]
        a = op[1] if len(op) > 1 else None
        b = op[2] if len(op) > 2 else None
        has = t.has_node
        if k == 'new':
            if has(a):
                return False
            self.handles[a] = self.L.TreeNode(a, b) if b else self.L.TreeNode(a)
            self.decl[a] = {(b, a)} if b and a != b else set()
            return True
        if k in ('dp', 'dc', 'dsp'):
            # declare relations on a node which is not in a tree
            if has(a) or (a in self.handles and self.handles[a].get_tree() is not None):
                return False
            n = self.node(a)
            if k == 'dp':
                n.add_parent(b)
                if a != b:
                    self.decl[a].add((b, a))
            elif k == 'dsp':
                n.set_parent(b)
                if a != b:
                    self.decl[a].add((b, a))
            else:
                n.add_child(b)
                if a != b:
                    self.decl[a].add((a, b))
            return True
        if k == 'add':
            if has(a):
                if b == '!dup':
                    t.add_node(self.L.TreeNode(a))
                    return True
                return False
            if b == '!dup' or a == b:
                return False
            t.add_node(self.node(a), b) if b is not None else t.add_node(self.node(a))
            return True
        if k == 'del':
            t.del_node(a, True) if b else t.del_node(a)
            return True
        if k == 'refresh':
            t.get_node(a).modified() if b and has(a) else t.refresh_node(a)
            return True
        if k == 'refresh_all':
            t.refresh_all()
            return True
        if k == 'toggle':
            if not has(a):
                return False
            self.show[a] = not self.show.get(a, True)
            t.refresh_node(a)
            return True
        if not has(a):
            if k == 'mv':
                t.move_node(a, b) if b is not None else t.move_node(a)
                return True
            if k == 'ap':
                t.add_parent(a, b)
                return True
            return False
        n = t.get_node(a)
        if k == 'ap':
            t.add_parent(a, b)
        elif k == 'nap':
            n.add_parent(b)
        elif k == 'ac':
            n.add_child(b)
        elif k == 'rp':
            n.remove_parent(b)
        elif k == 'mv':
            t.move_node(a, b) if b is not None else t.move_node(a)
        elif k == 'sp':
            n.set_parent(b)
        else:
            return False
        return True


class Step:
    """one executed op with everything an oracle may look at"""
    def __init__(self, op, pre, post, exc, log, pend0, pend1, decl0):
        self.op, self.pre, self.post, self.exc, self.log = op, pre, post, exc, log
        self.pend0, self.pend1, self.decl0 = pend0, pend1, decl0


def circ(exc):
    return exc is not None and 'ircular' in str(exc)


def effect(w, s):
    """update the set of remembered relations as C04 describes it"""
    op, pre, post = s.op, s.pre, s.post
    k = op[0]
    a = op[1] if len(op) > 1 else None
    b = op[2] if len(op) > 2 else None
    pend = set(s.pend0)
    if k == 'add' and a not in pre.has and a in post.has:
        pend |= s.decl0.get(a, set())
        w.decl[a] = set()
        if b is not None and b not in post.has:
            pend.add((b, a))
        pend = {e for e in pend if not (e[0] in post.has and e[1] in post.has)}
    elif k == 'del' and a in pre.has:
        gone = pre.has - post.has
        pend = {e for e in pend if e[0] not in gone and e[1] not in gone}
    elif k in ('ap', 'nap') and a in pre.has and a != b and b not in pre.has and b not in pre.P[a]:
        pend.add((b, a))
    elif k == 'ac' and a != b and b not in pre.has and b not in pre.C[a]:
        pend.add((a, b))
    elif k in ('mv', 'sp') and a in pre.has and a != b and b not in pre.has:
        pend.add((b, a))
    return pend


# ------------------------------------------------------------------ oracles on the tree
def o_C01(w, s):
    g = s.post
    for x in g.has:
        need(not any(g.anc(x, p) for p in g.P[x]), 'a node is its own ancestor', x, g.P)
    op = s.op
    k, a = op[0], op[1] if len(op) > 1 else None
    b = op[2] if len(op) > 2 else None
    rel = None
    if k in ('ap', 'nap') and a in s.pre.has and b in s.pre.has and a != b:
        rel = (b, a)
    if k == 'ac' and a in s.pre.has and b in s.pre.has and a != b:
        rel = (a, b)
    if k in ('mv', 'sp') and a in s.pre.has and b in s.pre.has and a != b:
        rel = (b, a)
    if k == 'add' and a not in s.pre.has and b is not None and b in s.pre.has:
        rel = (b, a)
    if rel and not circ(s.exc):
        need(rel in g.edges(), 'a relation that closes no cycle was refused', rel)
    if circ(s.exc):
        need(rel is not None, 'refused as circular although no relation was requested', op)
        if rel:
            # for a new node the check happens with its other relations in place
            need(g.anc(rel[1], rel[0]) or s.pre.anc(rel[1], rel[0]), 'a relation that closes no cycle was refused as circular', rel)
            if rel not in s.pre.edges():
                need(rel not in g.edges(), 'a relation refused as circular was created', rel)
    if k == 'add' and a not in s.pre.has and a in g.has:
        for e in s.pend0 | s.decl0.get(a, set()):
            if e[0] in g.has and e[1] in g.has and a in e:
                need(e in g.edges() or g.anc(e[1], e[0]), 'a remembered relation that closes no cycle was refused', e)


def o_C02(w, s):
    g = s.post
    for x in g.has:
        need(len(set(g.P[x])) == len(g.P[x]), 'duplicate parent', x, g.P[x])
        need(len(set(g.C[x])) == len(g.C[x]), 'duplicate child', x, g.C[x])
        n = w.tree.get_node(x)
        need(n.has_parent() == bool(g.P[x]), 'has_parent disagrees', x, g.P[x])
        need(n.has_child() == bool(g.C[x]), 'has_child disagrees', x, g.C[x])
        need(n.get_n_children() == len(g.C[x]), 'get_n_children disagrees', x)
        for i, c in enumerate(g.C[x]):
            need(c in g.has, 'an absent node is listed as a child', x, c)
            need(x in g.P[c], 'child link without parent link', x, c)
            need(n.has_child(c), 'has_child disagrees', x, c)
            need(n.get_nth_child(i) == c, 'get_nth_child disagrees', x, i)
        for p in g.P[x]:
            need(p in g.has, 'an absent node is listed as a parent', x, p)
            need(x in g.C[p], 'parent link without child link', p, x)
            need(n.has_parent(p), 'has_parent disagrees', x, p)
        for y in w.ids:
            need(bool(n.has_child(y)) == (y in g.C[x]), 'has_child disagrees', x, y)
            need(bool(n.has_parent(y)) == (y in g.P[x]), 'has_parent disagrees', x, y)


def o_C03(w, s):
    g = s.post
    need(len(set(g.roots)) == len(g.roots), 'a top-level node is listed twice', g.roots)
    need(set(g.roots) == {x for x in g.has if not g.P[x]}, 'top-level nodes are not the parentless nodes', g.roots, g.P)


def o_C04(w, s):
    op, pre, post = s.op, s.pre, s.post
    k = op[0]
    a = op[1] if len(op) > 1 else None
    b = op[2] if len(op) > 2 else None
    e0, e1 = pre.edges(), post.edges()
    if k in ('ap', 'nap', 'ac', 'rp', 'add', 'refresh', 'refresh_all', 'dp', 'dc', 'new', 'dsp'):
        for x in pre.has & post.has:
            need(order_kept(pre.P[x], post.P[x]), 'order of parents changed', x, pre.P[x], post.P[x])
            need(order_kept(pre.C[x], post.C[x]), 'order of siblings changed', x, pre.C[x], post.C[x])
        need(order_kept(pre.roots, post.roots), 'order of the top level changed', pre.roots, post.roots)
    if k in ('refresh', 'refresh_all', 'dp', 'dc', 'new', 'dsp'):
        need(e0 == e1, 'relations changed by an unrelated request', e0 ^ e1)
    if k in ('ap', 'nap', 'ac'):
        rel = (a, b) if k == 'ac' else (b, a)
        if a in pre.has and b in pre.has and a != b and not circ(s.exc):
            need(e1 == e0 | {rel}, 'adding a relation did not add exactly it', rel, e0 ^ e1)
        else:
            need(e1 == e0, 'relations changed although none could be created', e0 ^ e1)
        need(post.has == pre.has, 'the set of nodes changed')
    if k == 'rp':
        need(e1 == e0 - {(b, a)}, 'removing a parent did not break exactly it', e0 ^ e1)
        need(post.has == pre.has, 'the set of nodes changed')
    if k == 'add':
        if a in pre.has:
            need(e1 == e0 and post.has == pre.has, 'adding a present node again changed something', e0 ^ e1)
        elif not (s.exc and a not in post.has):
            need(post.has == pre.has | {a}, 'adding a node did not add exactly it')
            allp = s.pend0 | s.decl0.get(a, set())
            if b is not None:
                allp = allp | {(b, a)}
            may = {e for e in allp if a in e and e[0] in post.has and e[1] in post.has}
            need(e1 - e0 <= may, 'a relation that was never requested (or was forgotten) appeared', e1 - e0 - may)
            need(e0 <= e1, 'a relation disappeared', e0 - e1)
            for e in may:
                need(e in e1 or post.anc(e[1], e[0]), 'a remembered relation was not created', e)


def o_C05(w, s):
    op, pre, post = s.op, s.pre, s.post
    k = op[0]
    a = op[1] if len(op) > 1 else None
    b = op[2] if len(op) > 2 else None
    e0, e1 = pre.edges(), post.edges()
    if k == 'del':
        if a not in pre.has:
            need(pre.has == post.has and e0 == e1, 'removing an absent node changed something')
            return
        gone = pre.below(a) if b else {a}
        need(post.has == pre.has - gone, 'the wrong nodes were removed', pre.has - post.has, gone)
        need(e1 == {e for e in e0 if e[0] not in gone and e[1] not in gone}, 'relations between remaining nodes changed', e0 ^ e1)
        for x in post.has:
            need(set(post.C[x]) == {c for c in pre.C[x] if c not in gone}, 'child list changed', x)
            need(order_kept(pre.C[x], post.C[x]) and order_kept(pre.P[x], post.P[x]), 'order changed', x)
    elif k == 'add' and a not in pre.has:
        may = {e for e in s.pend0 | s.decl0.get(a, set()) | ({(b, a)} if b is not None else set())}
        need(e1 - e0 <= may, 'a node added again has relations nobody asked for', (e1 - e0) - may)
        need({(a, c) for c in post.C.get(a, [])} <= may, 'a node added again has children nobody asked for', post.C.get(a))
    else:
        need(post.has == pre.has, 'the set of nodes changed')


def o_C06(w, s):
    op, pre, post = s.op, s.pre, s.post
    if op[0] not in ('mv', 'sp'):
        return
    a, b = op[1], op[2]
    e0, e1 = pre.edges(), post.edges()
    need({e for e in e0 if e[1] != a} == {e for e in e1 if e[1] != a}, 'a relation not involving the moved node as a child changed', e0 ^ e1)
    need(pre.has == post.has, 'the set of nodes changed')
    if a not in pre.has:
        return
    if b == a:
        need(e0 == e1, 'moving a node to itself changed something')
    elif b in pre.has:
        if pre.anc(a, b):
            return
        need(s.exc is None, 'moving failed', s.exc)
        need(post.P[a] == [b], 'the new parent is not the only parent', a, post.P[a])
        for x in pre.has:
            if x != b:
                need([c for c in pre.C[x] if c != a] == post.C[x], 'a child list is wrong after moving', x, post.C[x])
            else:
                need([c for c in pre.C[x] if c != a] == [c for c in post.C[x] if c != a] and post.C[x].count(a) == 1, 'the new parent does not list the node once', x)
    else:
        need(s.exc is None, 'moving failed', s.exc)
        need(post.P[a] == [], 'a node moved to the root still has parents', a, post.P[a])
        need(a in post.roots, 'a node moved to the root is not top-level', a)


def o_C07(w, s):
    pre, post = s.pre, s.post
    gone, came = pre.has - post.has, post.has - pre.has
    nlist = w.nlisteners
    for lid in nlist:
        log = [(ev, n, st) for (l, ev, n, st) in s.log if l == lid]
        evs = w.lis_events[lid]
        cnt = collections.Counter((ev, n) for ev, n, st in log)
        if 'node-added' in evs:
            need({n: c for (ev, n), c in cnt.items() if ev == 'node-added'} == {n: 1 for n in came}, 'additions not announced exactly once', lid, cnt, came)
        if 'node-deleted' in evs:
            need({n: c for (ev, n), c in cnt.items() if ev == 'node-deleted'} == {n: 1 for n in gone}, 'removals not announced exactly once', lid, cnt, gone)
        for ev, n, st in log:
            if ev == 'node-deleted':
                need(not st[0], 'removal announced while the node is present', n)
            else:
                need(st[0], 'announced while the node is absent', ev, n)
        if 'node-modified' in evs:
            lastm = {}
            for i, (ev, n, st) in enumerate(log):
                lastm[n] = (ev, st)
            for e in pre.edges() ^ post.edges():
                for x in e:
                    if x in pre.has and x in post.has and not (e[0] in came or e[1] in came):
                        need(x in lastm, 'the end of a changed relation was not announced', e, x)
                        need(lastm[x][1][1] == frozenset(post.P[x]) and lastm[x][1][2] == frozenset(post.C[x]), 'announced before the change took effect', e, x, lastm[x], post.P[x], post.C[x])
            if s.op[0] == 'refresh' and s.op[1] in pre.has:
                need(('node-modified', s.op[1]) in cnt, 'refreshing a node did not announce it')
            if s.op[0] == 'refresh_all':
                for x in pre.has:
                    need(('node-modified', x) in cnt, 'refreshing all nodes did not announce one', x)


def o_C08(w, s):
    g = s.post
    v = w.tree.get_main_view()
    paths = {}

    def walk(x, pre_):
        paths.setdefault(x, []).append(pre_ + (x,))
        for c in g.C[x]:
            walk(c, pre_ + (x,))
    tot = 0
    for r in g.roots:
        if r in g.has:
            walk(r, ())
    need(sorted(v.get_all_nodes()) == sorted(g.has), 'the main view does not list the nodes')
    allp = {p for ps in paths.values() for p in ps}
    for x in g.has:
        real = v.get_paths_for_node(x)
        need(sorted(real) == sorted(paths.get(x, [])), 'paths differ', x, real, paths.get(x))
        for p in real:
            need(v.get_node_for_path(p) == x, 'a path does not resolve to its node', p)
            if len(p) > 1 and p[1:] not in allp:
                need(v.get_node_for_path(p[1:]) is None, 'something that is not a path resolves', p[1:])
            for y in g.has:
                q = (y,) + p
                if q not in allp:
                    need(v.get_node_for_path(q) is None, 'something that is not a path resolves', q)
                q = p + (y,)
                if q not in allp:
                    need(v.get_node_for_path(q) is None, 'something that is not a path resolves', q)
                if y not in p:
                    q = p[:-1] + (y, x)
                    if q not in allp:
                        need(v.get_node_for_path(q) is None, 'something that is not a path resolves', q)
        for par in (g.P[x] or [None]):
            sib = g.roots if par is None else g.C[par]
            i = sib.index(x)
            exp = sib[i + 1] if i + 1 < len(sib) else None
            need(v.next_node(x, par) == exp, 'next sibling differs', x, par)
        need(sorted(v.node_parents(x)) == sorted(g.P[x]), 'parents differ in the main view', x)
        need(list(v.node_all_children(x)) == g.C[x], 'children differ in the main view', x)
        need(bool(v.node_has_child(x)) == bool(g.C[x]), 'node_has_child differs', x)
        need(bool(v.node_has_parent(x)) == bool(g.P[x]), 'node_has_parent differs', x)
        for i, c in enumerate(g.C[x]):
            need(v.node_nth_child(x, i) == c, 'n-th child differs', x, i)
        try:
            r = v.node_nth_child(x, len(g.C[x]))
        except (ValueError, IndexError):
            r = None
        need(r is None, 'a child beyond the last', x, r)
    for i, c in enumerate(g.roots):
        need(v.node_nth_child(None, i) == c, 'n-th top-level node differs', i)
    for x in w.ids:
        need(bool(v.is_displayed(x)) == (x in g.has), 'is_displayed differs', x)


TREE_ORACLES = {'C01': o_C01, 'C02': o_C02, 'C03': o_C03, 'C04': o_C04, 'C05': o_C05, 'C06': o_C06, 'C07': o_C07, 'C08': o_C08}


def run_tree(prop, sc):
    w = World(sc)
    orc = TREE_ORACLES[prop]
    mv = w.tree.get_main_view()
    log = []
    w.nlisteners, w.lis_events = [], {}
    keys = {}

    core = mv.get_root().get_tree()
    vw = w.tree.get_viewtree('c07') if prop == 'C07' else None
    vlog, vls = {}, {}
    extra = []

    def listen(lid, evs, site='main'):
        if site == 'view':
            # all listeners of one view event hear the same announcements while they are registered
            vls[lid] = set(evs)
            for ev in evs:
                def g(n, path=None, lid=lid, ev=ev):
                    vlog.setdefault((lid, ev), []).append((n, path))
                keys[lid, ev] = (vw.deregister_cllbck, vw.register_cllbck(ev + '-inview', g), ev + '-inview')
            return
        w.nlisteners.append(lid)
        w.lis_events[lid] = set(evs)
        reg, dereg = (core.register_callback, core.deregister_callback) if site == 'tree' else (mv.register_cllbck, mv.deregister_cllbck)
        for ev in evs:
            def f(n, path=None, lid=lid, ev=ev):
                t = w.tree
                pres = t.has_node(n)
                nd = t.get_node(n) if pres else None
                log.append((lid, ev, n, (pres, frozenset(nd.get_parents()) if nd else None, frozenset(nd.get_children()) if nd else None)))
            keys[lid, ev] = (dereg, reg(ev, f), ev)

    EV = ['node-added', 'node-modified', 'node-deleted']
    if prop == 'C07':
        listen(0, EV)
        listen(100, EV, 'view')
    with contextlib.redirect_stdout(w.out):
        for op in sc['ops']:
            if op[0] == 'listen':
                if op[1] not in w.nlisteners and op[1] not in vls:
                    listen(op[1], op[2], op[3] if len(op) > 3 else 'main')
                continue
            if op[0] == 'mkview':
                # further views and counts listen to the tree as well
                extra.append(w.tree.get_viewtree() if op[1] == 0 else w.tree.get_viewcount() if op[1] == 1 else mv.get_n_nodes())
                continue
            if op[0] == 'unlisten':
                if op[1] in (0, 100):
                    continue
                if op[1] in w.nlisteners or op[1] in vls:
                    for ev in sorted(w.lis_events[op[1]] if op[1] in w.nlisteners else vls[op[1]]):
                        d, key, name = keys.pop((op[1], ev))
                        d(name, key)
                    if op[1] in vls:
                        del vls[op[1]]
                    else:
                        w.nlisteners.remove(op[1])
                else:
                    for d in (mv.deregister_cllbck, core.deregister_callback, vw.deregister_cllbck):
                        d('node-added', 99)
                        d('no-such-event', 0)
                continue
            pre = Snap(w)
            pend0 = set(w.pend)
            decl0 = {k: set(v) for k, v in w.decl.items()}
            del log[:]
            vlog.clear()
            exc = None
            try:
                applied = w.apply(op)
            except Failure:
                raise
            except Exception as e:
                exc = e
                applied = True
            if applied is False:
                continue
            post = Snap(w)
            if exc is not None and not circ(exc):
                raise Failure('unexpected %s: %s' % (type(exc).__name__, exc))
            s = Step(op, pre, post, exc, list(log), pend0, None, decl0)
            w.pend = effect(w, s)
            orc(w, s)
            if prop == 'C07':
                for lid, evs in vls.items():
                    for ev in evs:
                        need(vlog.get((lid, ev), []) == vlog.get((100, ev), []), 'listeners of the same view event heard different announcements', lid, ev, vlog)
                for x in s.post.has - s.pre.has:
                    need(x in [n for n, p in vlog.get((100, 'node-added'), [])], 'an added node was not announced by an unfiltered view', x)
                for x in s.pre.has - s.post.has:
                    need(x in [n for n, p in vlog.get((100, 'node-deleted'), [])], 'a removed node was not announced by an unfiltered view', x)
