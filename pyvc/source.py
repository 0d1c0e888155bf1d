"""Mechanical extraction of the code under verification from /repo's working tree (on every run).

Nothing is rewritten: functions are taken as Python ASTs.  Dropped by the executor: docstrings,
comments, type annotations, text of messages (string formatting is an unknown string), print().
"""
import ast
import os

REPO = os.environ.get('VERIF_REPO', '/repo')
FILES = {
    'liblarch': 'liblarch/__init__.py',
    'liblarch.tree': 'liblarch/tree.py',
    'liblarch.treenode': 'liblarch/treenode.py',
    'liblarch.filteredtree': 'liblarch/filteredtree.py',
    'liblarch.viewtree': 'liblarch/viewtree.py',
    'liblarch.viewcount': 'liblarch/viewcount.py',
    'liblarch.filters_bank': 'liblarch/filters_bank.py',
    'liblarch.processqueue': 'liblarch/processqueue.py',
    'liblarch_gtk': 'liblarch_gtk/__init__.py',
    'liblarch_gtk.treemodel': 'liblarch_gtk/treemodel.py',
}


class Func:
    def __init__(self, module, cls, node):
        self.module, self.cls, self.node = module, cls, node
        self.name = node.name
        self.qual = (cls + '.' if cls else '') + node.name

    def __repr__(self):
        return '<Func %s>' % self.qual


class Source:
    def __init__(self, repo=None):
        self.repo = repo or REPO
        self.classes = {}      # name -> {'bases': [...], 'methods': {name: Func}, 'module': m}
        self.funcs = {}        # module level functions: name -> Func
        self.errors = []
        self.consts = {}       # module level constants: name -> expression (None if two modules disagree)
        self.modules = {m.split('.')[-1] for m in FILES}
        for mod, rel in FILES.items():
            path = os.path.join(self.repo, rel)
            try:
                with open(path, encoding='utf-8') as f:
                    tree = ast.parse(f.read(), rel)
            except (OSError, SyntaxError) as e:
                self.errors.append('%s: %s' % (rel, e))
                continue
            self._scan(mod, tree)

    def _scan(self, mod, tree):
        for n in tree.body:
            if isinstance(n, ast.ClassDef):
                bases = []
                for b in n.bases:
                    bases.append(b.id if isinstance(b, ast.Name) else ast.unparse(b))
                m = {}
                consts = {}
                for f in n.body:
                    if isinstance(f, ast.FunctionDef):
                        m[f.name] = Func(mod, n.name, f)
                    elif isinstance(f, ast.Assign) and len(f.targets) == 1 and isinstance(f.targets[0], ast.Name):
                        consts[f.targets[0].id] = f.value
                self.classes[n.name] = {'bases': bases, 'methods': m, 'module': mod, 'consts': consts}
            elif isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
                k = n.targets[0].id
                same = k not in self.consts or (self.consts[k] is not None and ast.dump(self.consts[k]) == ast.dump(n.value))
                self.consts[k] = n.value if same and isinstance(n.value, ast.Constant) else None
            elif isinstance(n, ast.FunctionDef):
                self.funcs[n.name] = Func(mod, None, n)

    def method(self, cls, name):
        seen = set()
        todo = [cls]
        while todo:
            c = todo.pop(0)
            if c in seen or c not in self.classes:
                continue
            seen.add(c)
            if name in self.classes[c]['methods']:
                return self.classes[c]['methods'][name]
            todo += self.classes[c]['bases']
        return None

    def find(self, qual):
        if '.' in qual:
            c, n = qual.split('.', 1)
            if c in self.classes:
                return self.classes[c]['methods'].get(n)
            return None
        return self.funcs.get(qual)
