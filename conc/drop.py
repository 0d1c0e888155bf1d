"""Drag and drop of the widget on real rows (Gtk.TreeStore); the widget itself needs a display, so its methods run on a stand-in."""
from world import need


class Sel:
    def __init__(self, data):
        self.data = data

    def get_data(self):
        return self.data


class Moves:
    """the tree: records the requests, refuses some, and a moved row may vanish from the model"""
    def __init__(self, log, refuse, vanish):
        self.log, self.refuse, self.vanish = log, refuse, vanish

    def move_node(self, node_id, new_parent_id=None):
        self.log.append((node_id, new_parent_id))
        for v in self.vanish.get(node_id, []):
            v()
        if node_id in self.refuse:
            raise Exception('refused')


class Base:
    def __init__(self, tree):
        self.tree = tree

    def get_basetree(self):
        return self.tree


def fake(cls, model, tree):
    class Widget:
        def __init__(self):
            self.basetree = Base(tree)
            self.dnd_internal_target = ''
            self.dnd_external_targets = {}
            self.defer_select = False
            self.model = model
            self.under = None
            self.src, self.dst, self.signals = None, None, {}

        def __getattr__(self, n):
            f = None
            for c in cls.__mro__:
                if c.__module__.startswith('liblarch') and n in c.__dict__:
                    f = c.__dict__[n]
                    break
            if f is None:
                raise AttributeError(n)
            return f.__get__(self, cls) if hasattr(f, '__get__') else f

        def get_model(self):
            return self.model

        def get_dest_row_at_pos(self, x, y):
            return self.under

        def enable_model_drag_source(self, mask, targets, action):
            self.src = list(targets)

        def enable_model_drag_dest(self, targets, action):
            self.dst = list(targets)

        def connect(self, name, f, *a):
            self.signals[name] = f
    return Widget()


STORE = []


def store(Gtk, rows, bad):
    """rows: [(path of the parent or None, id)]; reading a row that is gone is noted (GTK would crash)"""
    if not STORE:
        class Store(Gtk.TreeStore):
            def get_value(self, it, col):
                if it is None or not self.iter_is_valid(it):
                    self.bad.append('get_value')
                    return None
                return Gtk.TreeStore.get_value(self, it, col)

            def iter_parent(self, it):
                if it is None or not self.iter_is_valid(it):
                    self.bad.append('iter_parent')
                    return None
                return Gtk.TreeStore.iter_parent(self, it)
        STORE.append(Store)
    m = STORE[0](str)
    m.bad = bad
    its = []
    for par, i in rows:
        its.append(m.append(its[par] if par is not None and par < len(its) else None, [i]))
    return m, its


def run_drop(prop, sc):
    import liblarch_gtk as G
    Gtk = G.Gtk
    bad = []
    model, its = store(Gtk, sc['rows'], bad)
    paths = [model.get_string_from_iter(i) for i in its]
    ids = {p: sc['rows'][n][1] for n, p in enumerate(paths)}
    other, oits = store(Gtk, sc['other'], bad)
    oids = {other.get_string_from_iter(i): sc['other'][n][1] for n, i in enumerate(oits)}
    gone, moves = set(), []

    def remover(n):
        def f():
            if paths[n] in gone:
                return
            pre = paths[n]
            gone.update(p for p in paths if p == pre or p.startswith(pre + ':'))
            model.remove(its[n])
        return f
    w = fake(G.TreeView, model, None)
    w.dnd_internal_target = sc.get('name', 'rows')
    # texts of the rows now; the store only shrinks during a drop, and a drop ends the scenario
    source = type('Source', (), {'get_model': lambda self: other})()
    orig = Gtk.drag_get_source_widget
    try:
        Gtk.drag_get_source_widget = lambda context: source
        given, want, names = [], {}, {}
        for op in sc['ops']:
            k = op[0]
            if k == 'source':
                def f(src, dest, tag=op[1]):
                    given.append((tag, src, dest))
                old = {t: list(v) for t, v in w.dnd_external_targets.items()}
                w.set_dnd_external('s%s' % op[1], f)
                now = w.dnd_external_targets
                new = [t for t in now if t not in old]
                need(len(new) == 1 and new[0] != 0 and all(list(now[t]) == old[t] for t in old), 'a new source disturbs the others or gets no number of its own', sorted(old), sorted(now))
                need(list(now[new[0]]) == ['s%s' % op[1], f], 'a new source is not registered as given', new)
                names[new[0]] = op[1]
                for what, l in (('dragging', w.src), ('dropping', w.dst)):
                    got = [(n, s, t) for n, s, t in (l or [])]
                    exp = [(w.dnd_internal_target, Gtk.TargetFlags.SAME_WIDGET, 0)] + [('s%s' % g, Gtk.TargetFlags.SAME_APP, t) for t, g in names.items()]
                    need(all(e in got for e in exp), 'a source is not offered for ' + what, len(got), len(exp))
            elif k == 'forget':
                for t in [t for t in w.dnd_external_targets if names.get(t) == op[1]]:
                    del w.dnd_external_targets[t]
                    del names[t]
            elif k == 'drop':
                _, info, drag, under, how, refuse, vanish, empty = op
                alive = [p for p in paths if p not in gone]
                if gone:
                    break
                dest = None
                if under is not None and paths:
                    p = paths[under % len(paths)]
                    w.under = (Gtk.TreePath.new_from_string(p), getattr(Gtk.TreeViewDropPosition, how))
                    dest = ids[p] if how.startswith('INTO') else ids.get(p.rpartition(':')[0])
                else:
                    w.under = None
                if info == 0:
                    texts = [paths[d % len(paths)] if isinstance(d, int) and paths else '9' if isinstance(d, int) else d for d in drag]
                else:
                    o = sorted(oids)
                    texts = [o[d % len(o)] for d in drag if isinstance(d, int)] if o else []
                    if not texts:
                        continue
                data = ','.join(texts).encode('ascii')
                if empty is not None:
                    data, texts = [b'', None][empty], []
                del moves[:], given[:]
                van = {ids[paths[int(a)]]: [remover(b % len(paths)) for b in bs] for a, bs in vanish.items() if int(a) < len(paths)}
                # what is to happen
                exp, lost = [], set()
                for t in texts if info == 0 else []:
                    if t in ids and t not in lost:
                        exp.append((ids[t], dest))
                        for a, bs in vanish.items():
                            if int(a) < len(paths) and ids[paths[int(a)]] == ids[t]:
                                for b in bs:
                                    pre = paths[b % len(paths)]
                                    lost.update(p for p in paths if p == pre or p.startswith(pre + ':'))
                w.basetree.tree = Moves(moves, set(refuse), van)
                w.on_drag_data_received(w, object(), 1, 2, Sel(data), info, 0)
                need(not bad, 'a row that is gone is read', bad)
                need(moves == (exp if info == 0 else []), 'dropping asks for other moves', moves, exp)
                call = [(names[info], oids[t], dest) for t in texts] if info in names and dest else []
                need(given == (call if info else []), 'dropping from another widget calls other functions', given, call)
    finally:
        Gtk.drag_get_source_widget = orig


def drop_scenario(r):
    def rows(pre, n):
        return [[r.choice([None, r.randint(0, i - 1)]) if i else None, '%s%d' % (pre, i)] for i in range(n)]
    n, m = r.randint(1, 6), r.randint(1, 4)
    ops = []
    for _ in range(r.randint(1, 8)):
        x = r.random()
        if x < .3:
            ops.append(['source', r.randint(0, 3) * 10 + len(ops)])
        elif x < .36 and ops:
            ops.append(['forget', r.choice([o[1] for o in ops if o[0] == 'source'] or [0])])
        else:
            drag = [r.randint(0, n - 1) if r.random() < .85 else r.choice(['9:9', '0:0:7', '8']) for _ in range(r.randint(1, 5))]
            ops.append(['drop', r.choice([0, 0, 0, 1, 2, 3, 9]), drag, r.choice([None, r.randint(0, n - 1), r.randint(0, n - 1)]),
                        r.choice(['BEFORE', 'AFTER', 'INTO_OR_BEFORE', 'INTO_OR_AFTER']), ['r%d' % i for i in range(n) if r.random() < .2],
                        {str(i): [r.randint(0, n - 1) for _ in range(r.randint(1, 2))] for i in range(n) if r.random() < .1}, r.choice([None] * 7 + [0, 1])])
    return {'kind': 'drop', 'rows': rows('r', n), 'other': rows('o', m), 'ops': ops}
