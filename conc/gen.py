"""random scenarios"""

IDS = [['a', 'b', 'c', 'd', 'e', 'f', 'g'], ['1', '12', '2', '21', '112', '0', ''.join('9')],
       ['added', 'modified', 'deleted', 'runonce', 'reordered', 'children', 'parents']]


def ids(r, lo=2, hi=6):
    base = list(r.choice(IDS[:2] + [IDS[0]] + ([IDS[2]])))
    return base[:r.randint(lo, hi)]


TREE_W = [('new', 2), ('dp', 3), ('dc', 3), ('dsp', 1), ('add', 12), ('addp', 9), ('dup', 1), ('del', 5), ('delr', 3), ('refresh', 2),
          ('refresh_all', 1), ('ap', 7), ('nap', 4), ('ac', 7), ('rp', 5), ('mv', 4), ('mvr', 2), ('sp', 3)]


def pick(r, ws):
    t = r.random() * sum(w for _, w in ws)
    for k, w in ws:
        t -= w
        if t < 0:
            return k
    return ws[-1][0]


def tree_op(r, I, k=None):
    k = k or pick(r, TREE_W)
    a, b = r.choice(I), r.choice(I)
    if k == 'new':
        return ['new', a, r.choice([b, None])]
    if k == 'add':
        return ['add', a, None]
    if k == 'addp':
        return ['add', a, b]
    if k == 'dup':
        return ['add', a, '!dup']
    if k == 'del':
        return ['del', a, 0]
    if k == 'delr':
        return ['del', a, 1]
    if k == 'refresh':
        return ['refresh', a, 'node'] if r.random() < .3 else ['refresh', a]
    if k == 'refresh_all':
        return ['refresh_all']
    if k == 'mvr':
        return ['mv', a, None]
    return [k, a, b]


def tree_scenario(prop, r):
    I = ids(r, 2, 6)
    n = r.choice([6, 12, 20, 35])
    ws = list(TREE_W)
    if r.random() < .5:
        # concentrate on a few kinds of operation
        ks = r.sample([k for k, _ in TREE_W], r.randint(3, 7)) + ['add', 'addp']
        ws = [(k, w) for k, w in TREE_W if k in ks]
    ops = []
    if r.random() < .4:
        ops += [['add', i, None] for i in I[:r.randint(1, len(I))]]
    for _ in range(n):
        if prop == 'C07' and r.random() < .25:
            l = r.randint(1, 6)
            if r.random() < .12:
                ops.append(['mkview', r.randint(0, 2)])
            elif r.random() < .5:
                ops.append(['listen', l, r.sample(['node-added', 'node-modified', 'node-deleted'], r.randint(1, 3)), r.choice(['main', 'tree', 'view'])])
            else:
                ops.append(['unlisten', l])
            continue
        ops.append(tree_op(r, I, pick(r, ws)))
    return {'kind': 'tree', 'ids': I, 'ops': ops}


def params(r, flat=True):
    p = {}
    if r.random() < .3:
        p['negate'] = r.random() < .7
    if flat and r.random() < .25:
        p['flat'] = r.random() < .8
    if r.random() < .15:
        p['inv'] = True
    return p


def dense_scenario(prop, r):
    """few nodes, many changes of relations and verdicts"""
    I = ids(r, 4, 6)
    tops, rest = I[:2], I[2:]
    ops = [['add', i, None] for i in I]
    if prop == 'C14':
        ops += [['count', 'c', 1], ['clisten', 'c', 0, 1], ['cfilt', 'c', 'f']]
    else:
        ops += [['view', 'v', True], ['filt', 'v', 'f', 0], ['connect', 'v']]
    for _ in range(r.choice([10, 30, 60])):
        a, b = r.choice(rest), r.choice(I)
        if r.random() < .6:
            b = r.choice(tops)
        ops.append(r.choice([['ap', a, b], ['ap', a, b], ['rp', a, b], ['toggle', 'f', r.choice([a, b])], ['toggle', 'f', a], ['mv', a, b], ['del', b, 0], ['add', b, None]][:r.choice([6, 8])]))
        if prop == 'C17' and r.random() < .2:
            ops.append(['queue', 'v', r.choice(I)])
    return {'kind': 'view', 'ids': I, 'filters': {'f': {'yes': {}, 'params': {}, 'bank': True}}, 'ops': ops}


def view_scenario(prop, r):
    if r.random() < .25:
        return dense_scenario(prop, r)
    I = ids(r, 2, 6)
    F = ['f', 'g', 'fg'][:r.randint(1, 3)]
    py = r.choice([.3, .6, .8, 1])
    fl = {f: {'yes': {i: r.random() < py for i in I}, 'params': params(r), 'bank': r.random() < .85, 'style': r.choice([0, 0, 1, 2, 3])} for f in F}
    V = ['v', 'w'][:r.choice([1, 1, 1, 2])]
    ops = []
    if r.random() < .4:
        ops += [tree_op(r, I, pick(r, [('add', 3), ('addp', 3), ('ap', 2)])) for _ in range(r.randint(1, 6))]
    if prop == 'C14':
        V = []
        for c in ['c', 'd'][:r.randint(1, 2)]:
            ops.append(['count', c, r.random() < .6] + ([] if r.random() < .7 else [0]))
            ops.append(['clisten', c, 0, 1])
            if r.random() < .6:
                ops.append(['cfilt', c, r.choice(F)] + ([] if r.random() < .7 else [0]))
    for v in V:
        ops.append(['view', v, r.random() < .7] + ([] if r.random() < .7 else [0]))
        if r.random() < .3:
            ops.append(['connect', v])
        if r.random() < .7:
            ops.append(['filt', v, r.choice(F), 0])
        if r.random() < .8:
            ops.append(['connect', v])
    n = r.choice([5, 10, 18, 30])
    ws = [(k, w) for k, w in TREE_W if k not in ('dup',)]
    if r.random() < .6:
        ks = r.sample([k for k, _ in TREE_W], r.randint(2, 6)) + ['add', 'addp']
        ws = [(k, w) for k, w in TREE_W if k in ks]
    pf = r.choice([0, .1, .3])
    pt = r.choice([0, .1, .3])
    for _ in range(n):
        x = r.random()
        if prop == 'C17' and r.random() < .3:
            ops.append(['queue', r.choice(V), r.choice(I)])
        elif x < pf and V:
            v, f = r.choice(V), r.choice(F)
            ops.append(r.choice([['filt', v, f, 0], ['filt', v, f, 1], ['unfilt', v, f], ['nofilt', v],                                  ['filt', v, f, r.choice([0, 1]), params(r)], ['bankadd', f], ['bankdel', f], ['connect', v]]))
        elif x < pf and prop == 'C14':
            c, f = r.choice(['c', 'd']), r.choice(F + ['nosuch'])
            ops.append(r.choice([['cfilt', c, f], ['cfilt', c, f], ['cfilt', c, f, 0], ['cunfilt', c, f], ['clisten', c, r.randint(0, 2), 1], ['clisten', c, r.randint(0, 2), 0], ['cmodify', c, r.choice(F), r.choice(I)], ['bankadd', f], ['bankdel', f]]))
        elif x < pf + pt:
            ops.append(['toggle', r.choice(F), r.choice(I)])
        elif prop == 'C18' and x < pf + pt + .1:
            ops.append(['relabel', r.choice(I)] if r.random() < .8 else ['setcol', r.choice(V), r.randint(0, 5)])
        else:
            ops.append(tree_op(r, I, pick(r, ws)))
    return {'kind': 'view', 'ids': I, 'filters': fl, 'ops': ops}


def bank_scenario(prop, r):
    N = ['f', 'g', 'ff', '!f', '!g', '!', 'negate']
    I = ['a', 'b', 'c']
    ops = []
    for _ in range(r.choice([4, 8, 16])):
        k = r.choice(['add', 'add', 'add', 'rem', 'node', 'sel', 'par'])
        if k in ('add', 'par'):
            p = {}
            if r.random() < .4:
                p['negate'] = r.choice([True, False])
            if r.random() < .3:
                p['flat'] = r.choice([True, False])
            if r.random() < .3:
                p['x'] = r.choice([1, 'y', 0])
            ops.append(['add', r.choice(N), r.randint(0, 3), p or None] if k == 'add' else ['par', r.choice(N), p])
        elif k == 'rem':
            ops.append(['rem', r.choice(N)])
        elif k == 'node':
            ops.append(['node', r.choice(I)])
        else:
            ops.append(['sel', r.randint(0, 3), r.choice(I), r.random() < .4])
    return {'kind': 'bank', 'names': N, 'ids': I, 'ops': ops}


def queue_scenario(prop, r):
    ops = []
    p = r.choice([.2, .5, .8])
    races = r.choice([0, 0, .1, .3])
    pris = r.choice([['low'], ['low', 'high', None], ['low', 'high', None, 'none', 'other'], [None, 'low']])
    for _ in range(r.choice([4, 8, 16, 30])):
        x = r.random()
        if r.random() < races:
            ops.append(['race', r.randint(0, 24), 0, r.choice(pris)] if r.random() < .6 else ['race2', r.randint(0, 18), r.randint(4, 6), r.choice(pris), r.randint(4, 6), r.choice(pris)])
        elif x < p:
            ops.append(['push', r.randint(0, 3), [r.randint(0, 1)] if r.random() < .7 else [], r.choice(pris), pick(r, [(None, 6), ('boom', 2), ('again', 1)])])
        elif x < p + .05:
            ops.append(['own', r.randint(0, 3), [r.randint(0, 1)], r.choice(pris), pick(r, [(None, 6), ('boom', 2), ('again', 1)])])
        else:
            ops.append([pick(r, [('step', 5), ('drain', 1)])])
    return {'kind': 'queue', 'ops': ops}


def scenario(prop, r):
    if prop in ('C01', 'C02', 'C03', 'C04', 'C05', 'C06', 'C07', 'C08'):
        return tree_scenario(prop, r)
    if prop == 'C15':
        return bank_scenario(prop, r)
    if prop == 'C16':
        return queue_scenario(prop, r)
    if prop == 'C19':
        import drop
        return drop.drop_scenario(r)
    return view_scenario(prop, r)
