"""Names, attributes, arguments, formats and unpackings that certainly do not exist or fit, anywhere in the sources (also in functions no analysis runs)."""
import ast, builtins, glob, importlib, os, re, string

BUILTIN = set(dir(builtins)) | {'__file__', '__name__', '__doc__', '__path__', '__package__', '__spec__', '__loader__', '__builtins__', '__dict__'}
COMMON = set()
for _t in (list, dict, str, set, tuple, int, float, complex, bytes, Exception, type, object):
    COMMON |= set(dir(_t))
FILES = {'read', 'write', 'close', 'seek', 'tell', 'flush', 'readline', 'readlines', 'writelines', 'name', 'mode', 'closed', 'fileno'}
STDLIB = {'os', 'sys', 'functools', 'copy', 'math', 'logging', 'warnings', 'json', 'itertools', 'collections', 're', 'string', 'datetime', 'time', 'operator', 'os.path', 'fractions', 'pathlib', 'types'}


def site(path):
    for base in glob.glob('/opt/venv/lib/python3*/site-packages'):
        p = os.path.join(base, path)
        if os.path.exists(p):
            return p


def stub_names(path):
    """public names of a module, from its stub (not imported)"""
    p = site(path)
    if not p:
        return None
    try:
        t = ast.parse(open(p, encoding='utf-8').read())
    except (SyntaxError, OSError):
        return None
    out = set()
    for n in ast.walk(t):
        if isinstance(n, (ast.Import, ast.ImportFrom)):
            for a in n.names:
                if a.name == '*':
                    return None
                out.add((a.asname or a.name).split('.')[0])
    for n in t.body:
        stack = [n]
        while stack:
            m = stack.pop()
            if isinstance(m, (ast.FunctionDef, ast.ClassDef)):
                out.add(m.name)
            elif isinstance(m, ast.Assign):
                out |= {x.id for x in ast.walk(m) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
            elif isinstance(m, ast.AnnAssign) and isinstance(m.target, ast.Name):
                out.add(m.target.id)
            elif isinstance(m, (ast.If, ast.Try)):
                stack += m.body + m.orelse
    return out | {'__version__'}


def stub_class(path, name):
    p = site(path)
    out = set()
    if p:
        for n in ast.walk(ast.parse(open(p, encoding='utf-8').read())):
            if isinstance(n, ast.ClassDef) and n.name in name:
                for m in ast.walk(n):
                    if isinstance(m, ast.FunctionDef):
                        out.add(m.name)
                    elif isinstance(m, ast.AnnAssign) and isinstance(m.target, ast.Name):
                        out.add(m.target.id)
    return out


_NP = {}


def external(mod):
    """names of an external module, or None if not known"""
    if mod not in _NP:
        r = None
        if mod in STDLIB:
            r = set(dir(importlib.import_module(mod)))
        elif mod.split('.')[0] == 'numpy':
            r = stub_names(mod.replace('.', '/') + '/__init__.pyi') or stub_names(mod.replace('.', '/') + '.pyi')
            if r is not None and mod == 'numpy':
                r |= {'float64', 'complex64', 'complex128', 'linalg', 'fft', 'random', 'nan', 'inf', 'pi', 'newaxis', 'NaN', 'Inf', 'testing', 'ma', 'char', 'lib', 'core', 'int_', 'float_', 'complex_'}
        _NP[mod] = r
    return _NP[mod]


class Func:
    def __init__(self, node, mod, cls=None):
        self.node, self.mod, self.cls = node, mod, cls
        a = node.args
        self.pos = [x.arg for x in a.posonlyargs + a.args]
        self.ndef = len(a.defaults)
        self.kwonly = {x.arg: d is not None for x, d in zip(a.kwonlyargs, a.kw_defaults)}
        self.var, self.kw = a.vararg is not None, a.kwarg is not None
        decs = [ast.unparse(d) for d in node.decorator_list]
        self.static = 'staticmethod' in decs
        self.prop = any('property' in d or d.endswith('.setter') for d in decs)
        self.plain = all(d in ('staticmethod', 'classmethod') or d.startswith(('lru_cache', 'functools.lru_cache', 'cache', 'functools.cache')) for d in decs)

    @property
    def qual(self):
        return (self.cls.name + '.' if self.cls else '') + self.node.name

    def misfit(self, call, bound):
        """why a call does not fit the signature, or None"""
        if any(isinstance(x, ast.Starred) for x in call.args) or any(k.arg is None for k in call.keywords):
            return None
        pos = self.pos[1:] if bound and not self.static else self.pos
        n = len(call.args)
        if n > len(pos) and not self.var:
            return 'takes %d positional arguments, %d given' % (len(pos), n)
        given = set(pos[:n])
        for k in call.keywords:
            if k.arg in given:
                return 'argument %s is given twice' % k.arg
            if k.arg not in pos and k.arg not in self.kwonly and not self.kw:
                return 'has no argument %s' % k.arg
            given.add(k.arg)
        need = pos[:len(pos) - self.ndef] if self.ndef else pos
        miss = [x for x in need if x not in given] + [x for x, d in self.kwonly.items() if not d and x not in given]
        if miss:
            return 'misses the argument %s' % ', '.join(miss)

    def returns(self):
        """number of values of all its return statements, or None"""
        ns = set()
        stack = list(self.node.body)
        while stack:
            s = stack.pop()
            if isinstance(s, (ast.FunctionDef, ast.ClassDef, ast.Lambda)):
                continue
            if isinstance(s, (ast.Yield, ast.YieldFrom)):
                return None
            if isinstance(s, ast.Return):
                if not isinstance(s.value, ast.Tuple) or any(isinstance(x, ast.Starred) for x in s.value.elts):
                    return None
                ns.add(len(s.value.elts))
            stack += list(ast.iter_child_nodes(s))
        return ns.pop() if len(ns) == 1 else None


class Cls:
    def __init__(self, node, mod):
        self.node, self.mod, self.name = node, mod, node.name
        self.methods = {}
        self.attrs = set()
        self.open = False
        self.bases = [ast.unparse(b) for b in node.bases if ast.unparse(b) != 'object']
        for s in node.body:
            if isinstance(s, ast.FunctionDef):
                self.methods[s.name] = Func(s, mod, self)
                self.attrs.add(s.name)
            else:
                for x in ast.walk(s):
                    if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                        self.attrs.add(x.id)
        for s in node.body:
            if isinstance(s, ast.FunctionDef) and s.args.args and not any('staticmethod' in ast.unparse(d) for d in s.decorator_list):
                me = s.args.args[0].arg
                for x in ast.walk(s):
                    if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store) and isinstance(x.value, ast.Name) and x.value.id == me:
                        self.attrs.add(x.attr)
                    if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in ('setattr', 'vars') or \
                            isinstance(x, ast.Attribute) and x.attr in ('__dict__', '__slots__') or isinstance(x, ast.Name) and x.id == '__slots__':
                        self.open = True
        if node.keywords or '__getattr__' in self.methods or '__getattribute__' in self.methods or '__setattr__' in self.methods:
            self.open = True


class Mod:
    def __init__(self, name, path, tree):
        self.name, self.path, self.tree = name, path, tree
        self.funcs, self.classes, self.names, self.imports = {}, {}, set(), {}
        self.star = False
        for n in ast.walk(tree):
            if isinstance(n, ast.Global):
                self.names |= set(n.names)
        self._body(tree.body)

    def _body(self, body):
        for s in body:
            if isinstance(s, ast.FunctionDef):
                self.funcs[s.name] = Func(s, self)
                self.names.add(s.name)
            elif isinstance(s, ast.ClassDef):
                self.classes[s.name] = Cls(s, self)
                self.names.add(s.name)
            elif isinstance(s, ast.Import):
                for a in s.names:
                    n = (a.asname or a.name.split('.')[0])
                    self.names.add(n)
                    self.imports[n] = ('module', a.name if a.asname else a.name.split('.')[0])
            elif isinstance(s, ast.ImportFrom):
                for a in s.names:
                    if a.name == '*':
                        self.star = True
                    else:
                        self.names.add(a.asname or a.name)
                        self.imports[a.asname or a.name] = ('from', ('.' * s.level) + (s.module or ''), a.name)
            else:
                for x in ast.walk(s):
                    if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del)):
                        self.names.add(x.id)
                    if isinstance(x, ast.ExceptHandler) and x.name:
                        self.names.add(x.name)
                for f in ('body', 'orelse', 'finalbody'):
                    if getattr(s, f, None):
                        self._body([y for y in getattr(s, f) if isinstance(y, ast.stmt)])
                for h in getattr(s, 'handlers', ()):
                    self._body(h.body)


class Program:
    def __init__(self, files):
        """files: module name -> (path shown, source)"""
        self.mods = {}
        for name, (path, src) in files.items():
            self.mods[name] = Mod(name, path, ast.parse(src))
        self.found = []
        self.count = {}
        self.ndarray = stub_class('numpy/__init__.pyi', ('ndarray', '_ArrayOrScalarCommon', 'generic', 'dtype', 'flatiter'))
        self.method_owner = {}
        self.foreign_attrs = set()
        for m in self.mods.values():
            for c in m.classes.values():
                for f in c.methods.values():
                    self.method_owner.setdefault(f.node.name, []).append(f)
            for x in ast.walk(m.tree):
                if isinstance(x, ast.Attribute) and isinstance(x.ctx, (ast.Store, ast.Del)) and not (isinstance(x.value, ast.Name) and x.value.id == 'self'):
                    self.foreign_attrs.add(x.attr)

    def tick(self, what):
        self.count[what] = self.count.get(what, 0) + 1

    def flag(self, kind, m, qual, node, msg):
        self.found.append((kind, m.path, qual, getattr(node, 'lineno', 0), msg))

    # ---- modules
    def resolve_module(self, m, spec):
        """'.utility' in irrep.kpoint -> Mod, a name, or None"""
        if spec.startswith('.'):
            k = len(spec) - len(spec.lstrip('.'))
            parts = m.name.split('.')
            pkg = parts if m.path.endswith('__init__.py') else parts[:-1]
            pkg = pkg[:len(pkg) - (k - 1)] if k > 1 else pkg
            full = '.'.join(pkg + ([spec.lstrip('.')] if spec.lstrip('.') else []))
        else:
            full = spec
        return self.mods.get(full, full)

    def entity(self, m, name, seen=()):
        """what a module-level name stands for: Func, Cls, ('module', x) or None"""
        if name in m.funcs and list(m.names).count(name) <= 1:
            return m.funcs[name]
        if name in m.classes:
            return m.classes[name]
        i = m.imports.get(name)
        if i is None:
            return None
        if i[0] == 'module':
            return ('module', self.mods.get(i[1], i[1]))
        r = self.resolve_module(m, i[1])
        if isinstance(r, Mod):
            sub = self.mods.get(r.name + '.' + i[2])
            if sub is not None and i[2] not in r.names:
                return ('module', sub)
            if (r, i[2]) in seen:
                return None
            return self.entity(r, i[2], seen + ((r, i[2]),))
        ext = external(r)
        if ext is not None and i[2] not in ext and external(r + '.' + i[2]) is not None:
            return ('module', r + '.' + i[2])
        return None

    def check_imports(self, m):
        for n in ast.walk(m.tree):
            if isinstance(n, ast.ImportFrom):
                r = self.resolve_module(m, '.' * n.level + (n.module or ''))
                for a in n.names:
                    if a.name == '*':
                        continue
                    self.tick('imported names')
                    if isinstance(r, Mod):
                        if a.name not in r.names and not r.star and r.name + '.' + a.name not in self.mods and a.name not in BUILTIN:
                            self.flag('import', m, '<module>', n, 'module %s has no name %s' % (r.name, a.name))
                    elif external(r) is not None and a.name not in external(r) and external(r + '.' + a.name) is None:
                        self.flag('import', m, '<module>', n, 'module %s has no name %s' % (r, a.name))

    # ---- class attributes
    def class_attrs(self, c):
        """(attributes, complete?)"""
        out, ok = set(c.attrs), not c.open
        for b in c.bases:
            e = self.entity(c.mod, b) if '.' not in b else None
            if isinstance(e, Cls):
                a, k = self.class_attrs(e)
                out |= a
                ok = ok and k
            else:
                ok = False
        return out, ok

    # ---- functions
    def run(self):
        for m in self.mods.values():
            self.check_imports(m)
            self.scope(m, m.tree.body, '<module>', [m.names], None, None, m.tree)
        return self.found

    def scope(self, m, body, qual, envs, cls, me, owner):
        """envs: visible sets of names, outermost first"""
        for s in body:
            self.visit(m, s, qual, envs, cls, me)

    def local_names(self, node):
        out, glob = set(), set()
        a = node.args
        out |= {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs}
        out |= {x.arg for x in (a.vararg, a.kwarg) if x}
        stack = list(node.body) if isinstance(node.body, list) else [node.body]
        while stack:
            s = stack.pop()
            if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
                out.add(s.name)
                continue
            if isinstance(s, ast.Lambda):
                continue
            if isinstance(s, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
                # walrus targets only
                out |= {x.target.id for x in ast.walk(s) if isinstance(x, ast.NamedExpr)}
                continue
            if isinstance(s, (ast.Global, ast.Nonlocal)):
                glob |= set(s.names)
            if isinstance(s, ast.Name) and isinstance(s.ctx, (ast.Store, ast.Del)):
                out.add(s.id)
            if isinstance(s, ast.ExceptHandler) and s.name:
                out.add(s.name)
            if isinstance(s, (ast.Import, ast.ImportFrom)):
                out |= {(x.asname or x.name).split('.')[0] for x in s.names}
            if isinstance(s, (ast.MatchAs, ast.MatchStar)) and s.name:
                out.add(s.name)
            stack += list(ast.iter_child_nodes(s))
        return out - glob

    def visit(self, m, n, qual, envs, cls, me):
        if isinstance(n, ast.ClassDef):
            c = m.classes.get(n.name)
            q = n.name
            inner = envs + [c.attrs if c else {x.id for x in ast.walk(n) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)} | {x.name for x in n.body if isinstance(x, ast.FunctionDef)}]
            for x in n.bases + n.decorator_list:
                self.visit(m, x, q, envs, None, None)
            for s in n.body:
                if isinstance(s, ast.FunctionDef):
                    self.function(m, s, q + '.' + s.name, envs, c)
                else:
                    self.visit(m, s, q, inner, None, None)
            return
        if isinstance(n, ast.FunctionDef):
            self.function(m, n, (qual + '.' if qual != '<module>' else '') + n.name, envs, cls if qual != '<module>' else None, me)
            return
        if isinstance(n, ast.Lambda):
            for d in n.args.defaults + [x for x in n.args.kw_defaults if x]:
                self.visit(m, d, qual, envs, cls, me)
            self.visit(m, n.body, qual, envs + [self.local_names(n)], cls, me)
            return
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            names = set()
            for g in n.generators:
                names |= {x.id for x in ast.walk(g.target) if isinstance(x, ast.Name)}
            inner = envs + [names]
            for x in ast.iter_child_nodes(n):
                self.visit(m, x, qual, inner, cls, me)
            return
        self.node(m, n, qual, envs, cls, me)
        for x in ast.iter_child_nodes(n):
            self.visit(m, x, qual, envs, cls, me)

    def function(self, m, n, qual, envs, cls, me=None):
        for x in n.decorator_list + n.args.defaults + [y for y in n.args.kw_defaults if y]:
            self.visit(m, x, qual, envs, None, None)
        self.tick('functions')
        loc = self.local_names(n)
        static = any('staticmethod' in ast.unparse(d) for d in n.decorator_list)
        if me is None and cls is not None and n.args.args and not static and n.name in cls.methods and cls.methods[n.name].node is n:
            me = n.args.args[0].arg
            if any('classmethod' in ast.unparse(d) for d in n.decorator_list) or n.name in ('__new__',):
                me = None
            # rebound?
            if me and any(isinstance(x, ast.Name) and x.id == me and isinstance(x.ctx, ast.Store) for x in ast.walk(n)):
                me = None
        self.unbound(m, n, qual, loc)
        for s in n.body:
            self.visit(m, s, qual, envs + [loc], cls, me)
        self.click(m, n, qual)

    def names_of(self, envs):
        return envs

    def node(self, m, n, qual, envs, cls, me):
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
            self.tick('names')
            if n.id not in BUILTIN and not m.star and not any(n.id in e for e in envs):
                self.flag('name', m, qual, n, 'name %s is not defined' % n.id)
        elif isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load):
            self.attribute(m, n, qual, envs, cls, me)
        elif isinstance(n, ast.Call):
            self.call(m, n, qual, envs, cls, me)
        elif isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], (ast.Tuple, ast.List)) and isinstance(n.value, ast.Call):
            t = n.targets[0].elts
            if not any(isinstance(x, ast.Starred) for x in t):
                f = self.callee(m, n.value, envs, cls, me)
                f = f[0] if f else None
                k = f.returns() if isinstance(f, Func) and f.plain else None
                if k is not None:
                    self.tick('unpacked results')
                    if k != len(t):
                        self.flag('unpack', m, qual, n, '%s returns %d values, unpacked into %d' % (f.qual, k, len(t)))
        elif isinstance(n, ast.BinOp) and isinstance(n.op, ast.Mod) and isinstance(n.left, ast.Constant) and isinstance(n.left.value, str):
            self.percent(m, n, qual)

    def attribute(self, m, n, qual, envs, cls, me):
        v = n.value
        if isinstance(v, ast.Name) and me and v.id == me and cls is not None:
            a, complete = self.class_attrs(cls)
            self.tick('attributes of self')
            if complete and n.attr not in a and n.attr not in self.foreign_attrs and not hasattr(object, n.attr) and n.attr not in ('__dict__', '__class__'):
                # subclasses may provide it
                subs = [c for mm in self.mods.values() for c in mm.classes.values() if cls.name in c.bases]
                if not any(n.attr in self.class_attrs(c)[0] for c in subs):
                    self.flag('attribute', m, qual, n, '%s has no attribute %s' % (cls.name, n.attr))
            return
        mod = self.module_of(m, v, envs)
        if mod is not None:
            self.tick('attributes of modules')
            if isinstance(mod, Mod):
                if n.attr not in mod.names and mod.name + '.' + n.attr not in self.mods and n.attr not in BUILTIN and not mod.star:
                    self.flag('attribute', m, qual, n, 'module %s has no name %s' % (mod.name, n.attr))
            else:
                ext = external(mod)
                if ext is not None and n.attr not in ext and external(mod + '.' + n.attr) is None and n.attr not in ('__version__', '__name__', '__file__'):
                    self.flag('attribute', m, qual, n, 'module %s has no name %s' % (mod, n.attr))

    def module_of(self, m, v, envs):
        """the module an expression stands for"""
        if isinstance(v, ast.Name):
            if any(v.id in e for e in envs[1:]):
                return None
            e = self.entity(m, v.id)
            return e[1] if isinstance(e, tuple) else None
        if isinstance(v, ast.Attribute):
            b = self.module_of(m, v.value, envs)
            if isinstance(b, Mod):
                return self.mods.get(b.name + '.' + v.attr)
            if isinstance(b, str) and external(b + '.' + v.attr) is not None:
                return b + '.' + v.attr
        return None

    def callee(self, m, n, envs, cls, me):
        """(Func, bound?) called for certain, or None"""
        f = n.func
        if isinstance(f, ast.Name):
            if any(f.id in e for e in envs[1:]):
                return None
            e = self.entity(m, f.id)
            if isinstance(e, Func):
                return (e, False) if e.plain else None
            if isinstance(e, Cls):
                i = e.methods.get('__init__')
                if i is not None and '__new__' not in e.methods and i.plain:
                    return i, True
            return None
        if isinstance(f, ast.Attribute):
            if isinstance(f.value, ast.Name) and me and f.value.id == me and cls is not None:
                c = cls
                for _ in range(5):
                    if f.attr in c.methods:
                        g = c.methods[f.attr]
                        if any(isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store) and x.attr == f.attr for x in ast.walk(c.node)):
                            return None
                        subs = [k for mm in self.mods.values() for k in mm.classes.values() if cls.name in k.bases and f.attr in k.methods]
                        return (g, True) if g.plain and not g.prop and not subs else None
                    b = [self.entity(c.mod, x) for x in c.bases if '.' not in x]
                    b = [x for x in b if isinstance(x, Cls)]
                    if not b:
                        return None
                    c = b[0]
                return None
            mod = self.module_of(m, f.value, envs)
            if isinstance(mod, Mod):
                e = self.entity(mod, f.attr)
                if isinstance(e, Func) and e.plain:
                    return e, False
                if isinstance(e, Cls) and '__init__' in e.methods:
                    return e.methods['__init__'], True
                return None
            if mod is None and f.attr not in COMMON and f.attr not in self.ndarray and f.attr not in FILES and not f.attr.startswith('__'):
                own = self.method_owner.get(f.attr, [])
                # a method name that only one class of the program has
                if len(own) == 1 and own[0].plain and not own[0].prop and not isinstance(f.value, (ast.Constant,)):
                    base = f.value
                    while isinstance(base, (ast.Attribute, ast.Call, ast.Subscript)):
                        base = base.func if isinstance(base, ast.Call) else base.value
                    if isinstance(base, ast.Name) and self.module_of(m, base, envs) is None and f.attr not in self.foreign_attrs \
                            and not (base.id in m.imports and not any(base.id in e for e in envs[1:])):
                        if own[0].cls.bases and any(not isinstance(self.entity(own[0].mod, b), Cls) for b in own[0].cls.bases):
                            return None
                        return own[0], True
        return None

    def call(self, m, n, qual, envs, cls, me):
        r = self.callee(m, n, envs, cls, me)
        if r is not None:
            self.tick('calls')
            w = r[0].misfit(n, r[1])
            if w:
                self.flag('call', m, qual, n, '%s %s' % (r[0].qual, w))
        if isinstance(n.func, ast.Attribute) and n.func.attr == 'format' and isinstance(n.func.value, ast.Constant) and isinstance(n.func.value.value, str):
            self.format(m, n, qual)

    def format(self, m, n, qual):
        if any(isinstance(x, ast.Starred) for x in n.args) or any(k.arg is None for k in n.keywords):
            return
        self.tick('formats')
        auto = 0
        kws = {k.arg for k in n.keywords}
        try:
            fields = []

            def collect(t):
                for _, f, spec, _ in string.Formatter().parse(t):
                    if f is not None:
                        fields.append(f)
                        if spec:
                            collect(spec)
            collect(n.func.value.value)
        except ValueError as e:
            return self.flag('format', m, qual, n, str(e))
        for f in fields:
            h = re.split(r'[.\[]', f)[0]
            if h == '':
                i = auto
                auto += 1
            elif h.isdigit():
                i = int(h)
            else:
                if h not in kws:
                    self.flag('format', m, qual, n, 'the format has a field %s that is not given' % h)
                continue
            if i >= len(n.args):
                self.flag('format', m, qual, n, 'the format has a field %d, %d are given' % (i, len(n.args)))

    def percent(self, m, n, qual):
        t = n.left.value
        specs = re.findall(r'%(?:\((\w+)\))?[-+ #0]*(\*|\d+)?(?:\.(\*|\d+))?[hlL]?([diouxXeEfFgGcrsa%])', t)
        specs = [s for s in specs if s[3] != '%']
        if any(s[0] or '*' in s[1:3] for s in specs):
            return
        if isinstance(n.right, ast.Tuple) and not any(isinstance(x, ast.Starred) for x in n.right.elts):
            self.tick('formats')
            if len(specs) != len(n.right.elts):
                self.flag('format', m, qual, n, 'the format has %d fields, %d are given' % (len(specs), len(n.right.elts)))

    def click(self, m, n, qual):
        """options of a command and parameters of its function"""
        names, known = set(), True
        isc = False
        for d in n.decorator_list:
            if not isinstance(d, ast.Call):
                continue
            f = ast.unparse(d.func)
            if f in ('click.option', 'click.argument'):
                isc = True
                ds = [x.value for x in d.args if isinstance(x, ast.Constant) and isinstance(x.value, str)]
                if len(ds) != len(d.args):
                    known = False
                    continue
                if any(k.arg == 'expose_value' for k in d.keywords) or any(k.arg is None for k in d.keywords):
                    known = False
                plain = [x for x in ds if x.isidentifier()]
                if plain:
                    names.add(plain[0])
                else:
                    ds2 = [x.split('/')[0].lstrip('-') for x in ds]
                    best = sorted(ds, key=lambda x: -len(re.match('-*', x).group(0)))
                    k = len(re.match('-*', best[0]).group(0))
                    first = [x for x in ds if len(re.match('-*', x).group(0)) == k][0]
                    names.add(first.split('/')[0].lstrip('-').replace('-', '_').lower())
            elif f in ('click.version_option', 'click.command', 'click.help_option', 'click.group') or f.endswith('.command'):
                continue
            else:
                known = False
        if not isc or not known:
            return
        F = Func(n, m)
        self.tick('commands')
        for x in sorted(names):
            if x not in F.pos and x not in F.kwonly and not F.kw:
                self.flag('option', m, qual, n, 'option %s is not a parameter of the command' % x)
        for x in F.pos[:len(F.pos) - F.ndef]:
            if x not in names:
                self.flag('option', m, qual, n, 'parameter %s of the command is no option' % x)

    # ---- names used where no assignment can have happened
    def unbound(self, m, n, qual, loc):
        params = {x.arg for x in n.args.posonlyargs + n.args.args + n.args.kwonlyargs} | {x.arg for x in (n.args.vararg, n.args.kwarg) if x}
        nonl = set()
        for x in ast.walk(n):
            if isinstance(x, (ast.Global, ast.Nonlocal)):
                nonl |= set(x.names)
        loc = loc - nonl
        inner = set()
        for x in ast.walk(n):       # names assigned in inner scopes by nonlocal
            if isinstance(x, ast.Nonlocal):
                inner |= set(x.names)

        def use(e, have):
            """loads of an expression, in this scope"""
            stack = [e]
            while stack:
                x = stack.pop()
                if x is None or isinstance(x, (ast.Lambda, ast.FunctionDef, ast.ClassDef)):
                    continue
                if isinstance(x, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
                    bound = set()
                    for g in x.generators:
                        bound |= {y.id for y in ast.walk(g.target) if isinstance(y, ast.Name)}
                    for y in ast.walk(x):
                        if isinstance(y, ast.Name) and isinstance(y.ctx, ast.Load) and y.id in loc and y.id not in have and y.id not in bound and y.id not in inner:
                            self.lost(m, qual, y)
                    continue
                if isinstance(x, ast.NamedExpr):
                    use(x.value, have)
                    have.add(x.target.id)
                    continue
                if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load) and x.id in loc and x.id not in have and x.id not in inner:
                    self.lost(m, qual, x)
                stack += list(ast.iter_child_nodes(x))

        def bind(t, have):
            for x in ast.walk(t):
                if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del)):
                    have.add(x.id)

        def assigned(ss):
            out = set()
            for s in ss:
                for x in ast.walk(s):
                    if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                        out.add(x.id)
                    elif isinstance(x, (ast.FunctionDef, ast.ClassDef)):
                        out.add(x.name)
                    elif isinstance(x, (ast.Import, ast.ImportFrom)):
                        out |= {(y.asname or y.name).split('.')[0] for y in x.names}
                    elif isinstance(x, ast.ExceptHandler) and x.name:
                        out.add(x.name)
            return out

        def block(ss, have):
            """have: names that may be bound; returns those after the block"""
            for s in ss:
                if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
                    have.add(s.name)
                elif isinstance(s, (ast.Import, ast.ImportFrom)):
                    have |= {(y.asname or y.name).split('.')[0] for y in s.names}
                elif isinstance(s, ast.Assign):
                    use(s.value, have)
                    for t in s.targets:
                        use_target(t, have)
                        bind(t, have)
                elif isinstance(s, ast.AugAssign):
                    use(s.value, have)
                    if isinstance(s.target, ast.Name):
                        if s.target.id in loc and s.target.id not in have and s.target.id not in inner:
                            self.lost(m, qual, s.target)
                    else:
                        use_target(s.target, have)
                    bind(s.target, have)
                elif isinstance(s, ast.AnnAssign):
                    if s.value is not None:
                        use(s.value, have)
                        bind(s.target, have)
                elif isinstance(s, (ast.For, ast.AsyncFor)):
                    use(s.iter, have)
                    bind(s.target, have)
                    a = block(s.body, have | assigned(s.body))
                    have |= a
                    have |= block(s.orelse, set(have))
                elif isinstance(s, ast.While):
                    use(s.test, have | assigned(s.body))
                    have |= block(s.body, have | assigned(s.body))
                    have |= block(s.orelse, set(have))
                elif isinstance(s, ast.If):
                    use(s.test, have)
                    a = block(s.body, set(have))
                    b = block(s.orelse, set(have))
                    have |= a | b
                elif isinstance(s, (ast.With, ast.AsyncWith)):
                    for i in s.items:
                        use(i.context_expr, have)
                        if i.optional_vars is not None:
                            bind(i.optional_vars, have)
                    have |= block(s.body, have)
                elif isinstance(s, ast.Try) or type(s).__name__ == 'TryStar':
                    a = block(s.body, set(have))
                    for h in s.handlers:
                        hv = have | a | ({h.name} if h.name else set())
                        use(h.type, hv)
                        a |= block(h.body, hv)
                    a |= block(s.orelse, have | a)
                    have |= a
                    have |= block(s.finalbody, set(have))
                elif isinstance(s, ast.Match):
                    use(s.subject, have)
                    for c in s.cases:
                        hv = have | {x.name for x in ast.walk(c.pattern) if isinstance(x, (ast.MatchAs, ast.MatchStar)) and x.name}
                        have = have | block(c.body, hv)
                else:
                    for x in ast.iter_child_nodes(s):
                        use(x, have)
            return have

        def use_target(t, have):
            for x in ast.walk(t):
                if isinstance(x, (ast.Attribute, ast.Subscript)):
                    use(x.value, have)
                    if isinstance(x, ast.Subscript):
                        use(x.slice, have)
        block(n.body, set(params))

    def lost(self, m, qual, x):
        self.flag('unbound', m, qual, x, 'local variable %s is used where nothing can have been assigned to it' % x.id)


def program(root):
    files = {}
    for pkg, base in (('irrep', 'irrep'), ('irreptables', 'irreptables/irreptables')):
        for p in sorted(glob.glob(os.path.join(root, base, '**', '*.py'), recursive=True)):
            rel = os.path.relpath(p, os.path.join(root, base))[:-3].replace(os.sep, '.')
            if 'tests' in rel.split('.'):
                continue
            name = pkg + ('' if rel == '__init__' else '.' + (rel[:-9] if rel.endswith('.__init__') else rel))
            files[name] = (os.path.relpath(p, root), open(p, encoding='utf-8').read())
    return Program(files)
