"""C12: the same input gives the same output"""
import ast
from ..collect import gather
from ..drivers import REPO
from .. import lint

EXPLANATION = ('Every expression of the sources that makes a set, draws random numbers, allocates memory without setting it or lists a directory is found in the syntax trees. Where the order of a set '
               'becomes visible in an abstract run (loops, comprehensions, list, tuple, enumerate, zip, join, pop), the type of its elements is known: only numbers (and tuples of numbers) have hashes that do not '
               'change from one process to the next.')
ASSUMPTIONS = ('libraries are deterministic for given arguments', 'dictionaries keep the order of insertion')
LEVEL = 'other'
RULE = 'nothing depends on hashes of strings, unseeded random numbers, memory never set, or the order of a directory'
INSENSITIVE = {'sorted', 'set', 'frozenset', 'len', 'sum', 'min', 'max', 'any', 'all', 'Counter', 'issubset', 'issuperset', 'isdisjoint', 'union', 'intersection', 'difference', 'symmetric_difference',
               'unique', 'update', 'difference_update', 'discard'}
ORDERED = {'append', 'extend', 'insert', 'write', 'writelines', 'print', 'log_message', 'info', 'warning', 'debug'}
SETS = {'set', 'frozenset'}
LISTINGS = {'listdir', 'glob', 'iglob', 'scandir', 'iterdir', 'rglob', 'walk'}
RANDOM = {'random', 'rand', 'randn', 'randint', 'random_sample', 'normal', 'uniform', 'choice', 'shuffle', 'permutation', 'sample', 'standard_normal', 'uuid4', 'urandom', 'token_hex', 'SystemRandom'}
SEEDED = {'RandomState', 'default_rng', 'Random', 'Generator'}


class Tree:
    def __init__(self, mod):
        self.mod = mod
        self.parent = {}
        for n in ast.walk(mod.tree):
            for c in ast.iter_child_nodes(n):
                self.parent[c] = n

    def func(self, n):
        names = []
        while n in self.parent:
            n = self.parent[n]
            if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                names.append(n.name)
        return '.'.join(reversed(names)) or '<module>'

    def scope(self, n):
        while n in self.parent:
            n = self.parent[n]
            if isinstance(n, ast.FunctionDef):
                return n
        return self.mod.tree

    def sink(self, n):
        """'none': the order is not visible; 'order': it is; '?'"""
        x = n
        if isinstance(x, ast.For):
            for y in ast.walk(x):
                if y is not x.iter and isinstance(y, ast.Call) and callee(y) in ORDERED:
                    return 'order'
            return '?'
        if isinstance(x, ast.Call) and callee(x) in INSENSITIVE:
            return 'none'
        while x in self.parent and not isinstance(x, ast.stmt):
            p = self.parent[x]
            if isinstance(p, ast.Call) and x is not p.func and callee(p) in INSENSITIVE:
                return 'none'
            if isinstance(p, (ast.Compare, ast.SetComp, ast.BoolOp)) or isinstance(p, ast.If) and x is p.test:
                return 'none'
            if isinstance(p, ast.DictComp) or isinstance(p, ast.comprehension) and isinstance(self.parent.get(p), ast.DictComp):
                calls = [y for y in ast.walk(p if isinstance(p, ast.comprehension) else p.generators[0]) if isinstance(y, ast.Call) and callee(y) in ('enumerate', 'zip')]
                return 'order' if calls or (isinstance(n, ast.Call) and callee(n) in ('enumerate', 'zip')) else '?'
            x = p
        if isinstance(x, ast.Assign) and all(isinstance(t, ast.Name) for t in x.targets):
            names = {t.id for t in x.targets}
            for y in ast.walk(self.scope(n)):
                if isinstance(y, ast.Call) and y.lineno > x.end_lineno and (isinstance(y.func, ast.Attribute) and y.func.attr == 'sort' and isinstance(y.func.value, ast.Name) and y.func.value.id in names or
                                                callee(y) in ('sorted', 'set', 'frozenset', 'unique') and any(isinstance(a, ast.Name) and a.id in names for a in y.args)):
                    return '?'
        return 'order'


def callee(c):
    f = c.func
    return f.id if isinstance(f, ast.Name) else f.attr if isinstance(f, ast.Attribute) else ''


def dotted(x):
    out = []
    while isinstance(x, ast.Attribute):
        out.append(x.attr)
        x = x.value
    return '.'.join(reversed(out + [x.id])) if isinstance(x, ast.Name) else ''


def run(ctx):
    if getattr(ctx, 'quiet', False):
        return
    trees = {m.path: Tree(m) for m in lint.program(REPO).mods.values()}
    # ---- what the abstract runs saw
    orders, rnd, undef, seen = {}, {}, {}, set()
    nruns = 0
    for d in gather(('c14', 'c17', 'c12'), watch=True):
        for r in d['runs']:
            nruns += 1
            for f in r['funcs']:
                ctx.analysed.add(f)
            for kind, w, what, spec, elem, col, how in r.get('events2', ()):
                if kind == 'unordered':
                    orders.setdefault((w, col, how), set()).add(elem)
                elif kind == 'random':
                    rnd[w] = what
            for w, res in r.get('undef', ()):
                undef[w] = res if undef.get(w) is not True else True
        if d['failed'] or not d['runs']:
            if d['check'] != 'c12':
                ctx.ob('runs[%s]' % d['check'], 'undecided', d['failed'] or 'no runs', '', '')
    visible = {}
    for (w, col, how), elems in sorted(orders.items()):
        path, func, line = w.rsplit(':', 2)
        t = trees.get(path)
        n = None
        for x in ast.walk(t.mod.tree) if t else ():
            if getattr(x, 'lineno', None) == int(line) and x.col_offset == col and (isinstance(x, ast.For) if how == 'for' else isinstance(x, ast.expr) if how == 'comp' else isinstance(x, ast.Call)):
                n = x
                break
        s = t.sink(n) if n is not None else '?'
        visible.setdefault((path, func), []).append((s, elems))
        if s == 'none':
            st = 'ok'
        elif 'str' in elems:
            st = 'violated' if s == 'order' else 'undecided'
        else:
            st = 'undecided' if '?' in elems else 'ok'
        ctx.ob('order of a set[%s:%s %s]' % (path, func, how), st, 'elements: %s' % ', '.join(sorted(elems)), w, RULE)
    for w, what in sorted(rnd.items()):
        ctx.ob('random[%s]' % ':'.join(w.split(':')[:2]), 'violated', what, w, RULE)
    for w, res in sorted(undef.items()):
        ctx.ob('memory[%s]' % ':'.join(w.split(':')[:2]), 'violated' if res else 'undecided' if res is None else 'ok', 'value of memory that was never set', w, RULE)
    # ---- syntax trees
    for path, t in sorted(trees.items()):
        n = dict(sets=0, random=0, memory=0, directories=0)
        for x in ast.walk(t.mod.tree):
            if isinstance(x, (ast.Set, ast.SetComp)) or isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in SETS:
                n['sets'] += 1
                lits = x.elts if isinstance(x, ast.Set) else None
                q = t.func(x)
                p = t.parent.get(x)
                direct = isinstance(p, ast.For) and x is p.iter or isinstance(p, ast.comprehension) or isinstance(p, ast.Call) and callee(p) in ('list', 'tuple', 'enumerate', 'zip', 'join', 'iter', 'array')
                if lits and direct and all(isinstance(e, ast.Constant) and isinstance(e.value, str) for e in lits) and len(lits) > 1:
                    s = t.sink(p if not isinstance(p, ast.comprehension) else x)
                    ctx.ob('order of a set[%s:%s literal]' % (path, q), 'violated' if s == 'order' else 'undecided' if s == '?' else 'ok', ast.unparse(x), '%s:%s:%d' % (path, q, x.lineno), RULE)
                elif direct and '%s:%s' % (path, q) not in ctx.analysed and t.sink(p if not isinstance(p, ast.comprehension) else x) != 'none':
                    ctx.ob('order of a set[%s:%s]' % (path, q), 'undecided', 'function not analysed', '%s:%s:%d' % (path, q, x.lineno), RULE)
            if isinstance(x, ast.Call):
                d = dotted(x.func)
                c = callee(x)
                q = t.func(x)
                if c in SEEDED and ('random' in d or isinstance(x.func, ast.Name)):
                    n['random'] += 1
                    arg = x.args[0] if x.args else x.keywords[0].value if x.keywords else None
                    ok = arg is not None and not (isinstance(arg, ast.Constant) and arg.value is None)
                    clock = arg is not None and any(isinstance(y, ast.Call) and dotted(y.func).split('.')[0] in ('time', 'os', 'datetime', 'uuid') for y in ast.walk(arg))
                    ctx.ob('random[%s:%s %s]' % (path, q, ast.unparse(x)[:60]), 'ok' if ok and not clock else 'violated', 'seeded with %s' % (ast.unparse(arg) if arg is not None else 'nothing'),
                           '%s:%s:%d' % (path, q, x.lineno), RULE)
                elif c in RANDOM and (d.startswith(('np.random.', 'numpy.random.', 'random.', 'uuid.', 'secrets.')) or d == 'os.urandom'):
                    n['random'] += 1
                    seeds = [y for y in ast.walk(t.scope(x)) if isinstance(y, ast.Call) and callee(y) == 'seed' and y.args and y.lineno < x.lineno]
                    ctx.ob('random[%s:%s %s]' % (path, q, ast.unparse(x)[:60]), 'ok' if seeds else 'violated', 'seeded at line %d' % seeds[0].lineno if seeds else 'state of the global generator',
                           '%s:%s:%d' % (path, q, x.lineno), RULE)
                elif c in ('empty', 'empty_like', 'ndarray') and d.split('.')[0] in ('np', 'numpy'):
                    n['memory'] += 1
                    if '%s:%s' % (path, q) not in ctx.analysed:
                        ctx.ob('memory[%s:%s]' % (path, q), 'undecided', 'function not analysed', '%s:%s:%d' % (path, q, x.lineno), RULE)
                elif c in LISTINGS and d.split('.')[0] in ('os', 'glob', 'Path', 'pathlib') or c in ('listdir', 'iterdir', 'iglob'):
                    n['directories'] += 1
                    s = t.sink(x)
                    ctx.ob('directory[%s:%s]' % (path, q), 'ok' if s == 'none' else 'violated' if s == 'order' and not isinstance(t.parent.get(x), ast.For) else 'undecided', ast.unparse(x)[:80],
                           '%s:%s:%d' % (path, q, x.lineno), RULE)
        ctx.ob('sources[%s]' % path, 'ok', ', '.join('%d %s' % (v, k) for k, v in n.items()) + ', %d abstract runs' % nruns, path, RULE)
