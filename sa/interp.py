"""Flow-sensitive abstract interpreter for the irrep sources (AST based)."""
import ast
import os
import warnings
import string as _string
from .forms import (Form, ZERO, ONE, const, lab, fn, sym, new_label, LABLEN, lift, sum_over, Top, atoms_of, symbols_of, binder,
                    is_int, declare, META)
from .arr import ShapeError
from .values import *
from . import values as V


class PyRaise(Exception):
    def __init__(self, exc, val=None, explicit=False, definite=None, where=''):
        self.exc = exc
        self.where = where
        self.val = val
        self.explicit = explicit
        self.definite = explicit if definite is None else definite      # certain to be raised on this path


class Abort(Exception):
    """analysis budget exceeded"""


class State:
    __slots__ = ('env', 'heap', 'pc')

    def __init__(self, env, heap, pc=()):
        self.env = env
        self.heap = heap
        self.pc = pc

    def copy(self):
        return State(dict(self.env), dict(self.heap), self.pc)


class Ctx:
    def __init__(self, func, module, qual, parent=None):
        self.func = func
        self.module = module
        self.qual = qual
        self.parent = parent
        self.ret = []
        self.exc = []
        self.loops = []
        self.globals = set()
        self.yields = []


class Event:
    __slots__ = ('kind', 'file', 'func', 'node', 'data', 'pc', 'spec', 'stack', 'loops')

    def __init__(self, kind, file, func, node, data, pc=(), spec=0, stack=()):
        self.kind, self.file, self.func, self.node, self.data, self.pc, self.spec = kind, file, func, node, data, pc, spec
        self.stack = stack
        self.loops = ()

    @property
    def line(self):
        return getattr(self.node, 'lineno', 0)

    def where(self):
        return '%s:%s:%d' % (self.file, self.func, self.line)

    def src(self):
        try:
            return ast.unparse(self.node)[:160]
        except Exception:
            return ''


EXC_TREE = {
    'KeyError': ('LookupError',), 'IndexError': ('LookupError',), 'LookupError': ('Exception',),
    'AttributeError': ('Exception',), 'TypeError': ('Exception',), 'ValueError': ('Exception',),
    'RuntimeError': ('Exception',), 'AssertionError': ('Exception',), 'NameError': ('Exception',),
    'UnboundLocalError': ('NameError',), 'FileNotFoundError': ('OSError',), 'OSError': ('Exception',),
    'IOError': ('OSError',), 'StopIteration': ('Exception',), 'ZeroDivisionError': ('ArithmeticError',),
    'ArithmeticError': ('Exception',), 'Exception': ('BaseException',), 'SystemExit': ('BaseException',),
    'NotImplementedError': ('RuntimeError',), 'ImportError': ('Exception',), 'BaseException': (),
    'LinAlgError': ('ValueError',), 'UnicodeDecodeError': ('ValueError',), 'KeyboardInterrupt': ('BaseException',),
    'UserWarning': ('Exception',),
}


def exc_isa(name, target, classes=None):
    seen = [name]
    while seen:
        n = seen.pop()
        if n == target:
            return True
        seen.extend(EXC_TREE.get(n, ()))
    return False


def threshold(test):
    """the condition compares the size of numbers: it says nothing about types and shapes"""
    import ast
    return (isinstance(test, ast.Compare) and all(isinstance(o, (ast.Lt, ast.Gt)) for o in test.ops) and
            not any(isinstance(x, ast.Name) and x.id in ('len', 'type', 'isinstance') or isinstance(x, ast.Attribute) and x.attr in ('shape', 'ndim', 'size', 'count')
                    for x in ast.walk(test)))


class Interp:
    MAXSTEPS = 3000000
    UNROLL = 40

    def __init__(self, repo, world=None, lib=None):
        self.repo = repo
        self.world = world
        self.modules = {}
        self.events = []
        self.evseen = {}
        self.silent = 0
        self.spec = 0
        self.ctx = None
        self.premise = None
        self.stack = []
        self.loopstack = []
        self.naddr = 0
        self.steps = 0
        self.fresh = 0
        self.analysed = set()
        self.callsites = set()
        self.hooks = {}          # (class name, attr) -> fn(interp, value, st, node) -> value
        self.call_hooks = {}     # repo qualname -> fn(interp, boundargs, result, st, node) -> result
        self.ret_hooks = {}      # repo qualname -> fn(value, st, node), for every return statement
        self.handlers_run = set()
        from . import lib as L
        self.lib = L.Lib(self)
        self.heap0 = {}

    # ------------------------------------------------------------ modules
    def modfile(self, name):
        cands = {
            'irrep': 'irrep/__init__.py',
            'irreptables': 'irreptables/irreptables/__init__.py',
        }
        if name in cands:
            p = cands[name]
        elif name.startswith('irrep.'):
            p = 'irrep/' + name[6:].replace('.', '/') + '.py'
        elif name.startswith('irreptables.'):
            p = 'irreptables/irreptables/' + name[12:].replace('.', '/') + '.py'
        else:
            return None
        full = os.path.join(self.repo, p)
        if os.path.exists(full):
            return full
        alt = full[:-3] + '/__init__.py'
        return alt if os.path.exists(alt) else None

    def load(self, name):
        if name in self.modules:
            return self.modules[name]
        path = self.modfile(name)
        if path is None:
            return None
        with open(path) as f:
            src = f.read()
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            tree = ast.parse(src)
        env = {'__name__': Const(name), '__file__': StrT(['<dir of ' + name + '>/', 'x.py'])}
        mod = {'name': name, 'env': env, 'tree': tree, 'path': os.path.relpath(path, self.repo), 'src': src}
        self.modules[name] = mod
        old = self.ctx
        self.ctx = Ctx(None, mod, '<module>')
        st = State(env, self.heap0)
        self.stack.append(mod['path'])
        try:
            states = self.exec_block(tree.body, [st])
            if states:
                mod['env'] = states[0].env
                self.heap0 = states[0].heap
        except PyRaise as e:
            self.event('error', tree, dict(exc=e.exc, msg='module %s raises on import' % name), st)
        finally:
            self.ctx = old
            self.stack.pop()
        return mod

    def get(self, qual):
        """resolve 'irrep.kpoint:Kpoint.write_trace'"""
        m, q = qual.split(':')
        mod = self.load(m)
        if mod is None:
            return None
        v = None
        env = mod['env']
        for i, part in enumerate(q.split('.')):
            if i == 0:
                v = env.get(part)
            else:
                v = v.lookup(part) if isinstance(v, Class) else None
            if v is None:
                return None
        return v

    # ------------------------------------------------------------ events
    def event(self, kind, node, data, st=None):
        if self.silent:
            return None
        c = self.ctx
        file = c.module['path'] if c and c.module else '?'
        func = c.qual if c else '?'
        e = Event(kind, file, func, node, data, st.pc if st else (), self.spec,
                  tuple(self.stack))
        e.loops = tuple(self.loopstack)
        self.events.append(e)
        if len(self.events) > 400000:
            raise Abort('events')
        return e

    def error(self, exc, msg, node, st):
        e = self.event('error', node, dict(exc=exc, msg=msg), st)
        raise PyRaise(exc, Const(msg), definite=True, where='%s:%s' % (e.file, e.line) if e else '')

    # ------------------------------------------------------------ heap
    def alloc(self, rec, st):
        self.naddr += 1
        st.heap[self.naddr] = rec
        return Ref(self.naddr)

    def rec(self, v, st):
        return st.heap.get(v.addr)

    def bindv(self, v, st):
        """value about to be bound to a name/attribute/container: give arrays identity"""
        if isinstance(v, Arr) and not v.py and v.cell is None:
            self.naddr += 1
            v = v.with_()
            v.cell = self.naddr
            st.heap[v.cell] = v
        return v

    def loadv(self, v, st):
        if isinstance(v, Arr) and v.cell is not None:
            cur = st.heap.get(v.cell)
            if cur is not None:
                return cur
        return v

    def bindv_view(self, base, v, st):
        if isinstance(v, Arr) and v.axes:
            r = base.roots
            if base.cell is not None:
                r = r | frozenset([('cell', base.cell)])
            return v.with_(roots=r)
        if isinstance(v, Arr):
            return v.with_(py=True, roots=frozenset())
        return v

    def newlist(self, vals, st):
        return self.alloc(ListRec([self.bindv(x, st) for x in vals]), st)

    # ------------------------------------------------------------ calls to the outside
    def call_by_name(self, qual, args, kw, st):
        f = self.get(qual)
        if f is None:
            return None
        return self.call(f, args, kw, ast.Pass(lineno=0, col_offset=0), st)

    # ------------------------------------------------------------ statements
    def exec_block(self, stmts, states):
        for s in stmts:
            new = []
            for st in states:
                self.steps += 1
                if self.steps > self.MAXSTEPS:
                    raise Abort('steps')
                try:
                    r = self.exec_stmt(s, st)
                except PyRaise as e:
                    self.ctx.exc.append((e, st))
                    continue
                except Top:
                    r = [st]
                except RecursionError:
                    r = [st]
                new.extend(r)
            states = self.partition(new)
            if not states:
                break
        return states

    def partition(self, states):
        if len(states) <= 1:
            return states
        groups = {}
        for st in states:
            k = []
            for n, v in st.env.items():
                if isinstance(v, Const) and (v.v is None or isinstance(v.v, str)):
                    k.append((n, repr(v.v)))
                elif isinstance(v, Arr) and v.dtype == 'b' and not v.axes and v.form is not None and \
                        v.form.const() is not None:
                    k.append((n, str(v.form.const())))
            groups.setdefault(tuple(sorted(k)), []).append(st)
        if len(groups) > 6:
            return [self.merge(states)]
        return [self.merge(g) for g in groups.values()]

    def merge(self, states):
        states = list(states)
        while len(states) > 1:
            if len(states) == 2:
                return self.join2(*states)
            # the two whose paths parted last
            best = None
            for i in range(len(states)):
                for j in range(i + 1, len(states)):
                    p, q = states[i].pc, states[j].pc
                    n = 0
                    while n < len(p) and n < len(q) and p[n] == q[n]:
                        n += 1
                    ok = n < len(p) and n < len(q) and p[n][0] == q[n][0]
                    k = (n, ok, -i, -j)
                    if best is None or k > best[0]:
                        best = (k, i, j)
            _, i, j = best
            s = self.join2(states[i], states[j])
            del states[j]
            states[i] = s
        return states[0]

    def join2(self, a, b):
        if a is b:
            return a
        # deciding condition
        n = 0
        while n < len(a.pc) and n < len(b.pc) and a.pc[n] == b.pc[n]:
            n += 1
        cond = None
        if n < len(a.pc) and n < len(b.pc) and a.pc[n][0] == b.pc[n][0] and a.pc[n][1] != b.pc[n][1]:
            cond = a.pc[n][0] if a.pc[n][1] else fn('not', a.pc[n][0])
        heap = {}
        pc = a.pc[:n]
        ra, rb = a.pc[n:], b.pc[n:]
        if ra and rb and (cond is None or len(ra) > 1 or len(rb) > 1) and len(ra) + len(rb) <= 16:
            if cond is not None or pc_exclusive(ra, rb):
                ca, cb = pc_form(ra), pc_form(rb)
                if cond is None:
                    cond = ca if len(ra) <= len(rb) else fn('not', cb)
                d = fn('or', ca, cb)
                if d.const() is None and len(d.key()) < 20000:
                    pc = pc + ((d, True),)
        st = State({}, heap, pc)
        for k in a.heap.keys() | b.heap.keys():
            x, y = a.heap.get(k), b.heap.get(k)
            if x is y or y is None:
                heap[k] = x
            elif x is None:
                heap[k] = y
            else:
                heap[k] = self.join_rec(x, y, cond, a, b, st)
                if isinstance(heap[k], Arr):
                    heap[k].cell = k
        for k in list(a.env.keys()) + [x for x in b.env if x not in a.env]:
            x, y = a.env.get(k), b.env.get(k)
            if x is None or y is None:
                st.env[k] = x if y is None else y
            elif x is y:
                st.env[k] = x
            else:
                st.env[k] = self.bindv(self.joinv(x, y, cond, a, b, st), st)
        return st

    def join_rec(self, x, y, cond, a, b, st):
        if isinstance(x, Arr) and isinstance(y, Arr):
            return self.joinv(x, y, cond, a, b, st)
        if type(x) is not type(y):
            return x
        if isinstance(x, ObjRec):
            at = {}
            for k in list(x.attrs) + [q for q in y.attrs if q not in x.attrs]:
                if k not in x.attrs or k not in y.attrs:
                    at[k] = x.attrs.get(k, y.attrs.get(k))
                else:
                    at[k] = self.joinv(x.attrs[k], y.attrs[k], cond, a, b, st)
            return ObjRec(x.cls, at, x.meta)
        if isinstance(x, ListRec):
            if x.segs == y.segs and x.unk == y.unk:
                return x
            if len(x.segs) == len(y.segs) and not x.unk and not y.unk:
                out = []
                for p, q in zip(x.segs, y.segs):
                    r = self.join_seg(p, q, cond, a, b, st)
                    if r is None:
                        break
                    out.append(r)
                else:
                    return ListRec(out, False, x.kind)
            # common prefix plus conditional suffix
            n = 0
            while n < len(x.segs) and n < len(y.segs) and (x.segs[n] is y.segs[n]):
                n += 1
            longer = x if len(x.segs) >= len(y.segs) else y
            shorter = y if longer is x else x
            if n == len(shorter.segs) and cond is not None and not x.unk and not y.unk:
                c = cond if longer is x else fn('not', cond)
                segs = list(longer.segs[:n])
                for s in longer.segs[n:]:
                    if isinstance(s, tuple) and s[0] == 'gen':
                        return ListRec(longer.segs, True, x.kind)
                    if isinstance(s, tuple) and s[0] == 'cond':
                        segs.append(('cond', fn('and', c, s[1]), s[2]))
                    else:
                        segs.append(('cond', c, s))
                return ListRec(segs, False, x.kind)
            return ListRec(longer.segs, True, x.kind)
        if isinstance(x, DictRec):
            items = []
            yk = {}
            for k, v in y.items:
                yk[self.keyrepr(k)] = (k, v)
            seen = set()
            for k, v in x.items:
                r = self.keyrepr(k)
                seen.add(r)
                if r in yk:
                    items.append((k, self.joinv(v, yk[r][1], cond, a, b, st)))
                else:
                    items.append((k, v))
            for r, (k, v) in yk.items():
                if r not in seen:
                    items.append((k, v))
            extra = [(0, k, v) for k, v in x.items if self.keyrepr(k) not in yk] + [(1, k, v) for r, (k, v) in yk.items() if r not in seen]
            maybe = list(x.maybe)
            ym = []
            for q in y.maybe:
                # the same entry, up to the names of the loops
                for p in x.maybe:
                    if p == q:
                        break
                    if len(p[0]) == len(q[0]) and all(u[1] == w[1] for u, w in zip(p[0], q[0])):
                        ren = {w[0]: lab(u[0]) for u, w in zip(p[0], q[0])}
                        if q[1].subst(ren) == p[1] and self.keyrepr(val_subst(q[2], ren)) == self.keyrepr(p[2]):
                            i = maybe.index(p)
                            maybe[i] = (p[0], p[1], p[2], self.joinv(p[3], val_subst(q[3], ren), cond, a, b, st))
                            ym.append(p)
                            break
                else:
                    maybe.append(q)
                    ym.append(q)
                    continue
                if p == q:
                    ym.append(p)
            same_maybe = [id(p) for p in x.maybe] == [id(p) for p in ym]
            unk = x.unk is True or y.unk is True
            if not same_maybe and (cond is None or x.maybe and y.maybe):
                unk = True
            elif not same_maybe:
                maybe = [(ls, fn('and', cond if x.maybe else fn('not', cond), c), k, v) for ls, c, k, v in maybe]
            gen = []
            rest = list(y.gen)
            only = []
            for g in x.gen:
                l, n, k, v = g
                h = next((q for q in rest if q == g or q[1] == n and self.keyrepr(val_subst(q[2], {q[0]: lab(l)})) == self.keyrepr(k)), None)
                if h is None:
                    only.append((0, g))
                    continue
                rest.remove(h)
                w = val_subst(h[3], {h[0]: lab(l)}) if h[0] != l else h[3]
                gen.append((l, n, k, v if w is v or h == g else self.joinv(v, w, cond, a, b, st)))
            only += [(1, g) for g in rest]
            if extra or only:
                if cond is None:
                    unk = True
                    gen += [g for _, g in only]
                else:
                    drop = {self.keyrepr(k) for _, k, _ in extra}
                    items = [(k, v) for k, v in items if self.keyrepr(k) not in drop]
                    for side, k, v in extra:
                        maybe.append(((), fn('not', cond) if side else cond, k, v))
                    for side, (l, n, k, v) in only:
                        maybe.append((((l, n),), fn('not', cond) if side else cond, k, v))
            return DictRec(items, gen, unk, maybe)
        if isinstance(x, IterRec):
            if len(x.segs) == len(y.segs) and x.pos == y.pos:
                return IterRec(x.segs, x.pos, x.unk or y.unk)
            return IterRec(x.segs if len(x.segs) >= len(y.segs) else y.segs, None, True)
        if isinstance(x, FileRec):
            s = dict(x.state)
            for k, v in y.state.items():
                if k not in s or not self.same_state(s[k], v):
                    if k == 'pos' and isinstance(v, Form) and isinstance(s.get(k), Form):
                        self.event('filepos', ast.Pass(), dict(path=x.path, a=s[k], b=v, kind=x.kind), st)
                        s[k] = None
                    else:
                        s[k] = None
            return FileRec(x.path, x.mode, x.kind, s, x.closed and y.closed)
        return x

    @staticmethod
    def same_state(a, b):
        return a is b or a == b

    def join_seg(self, p, q, cond, a, b, st):
        if p is q:
            return p
        pt, qt = isinstance(p, tuple), isinstance(q, tuple)
        if pt != qt:
            return None
        if pt:
            if p[0] == 'gen' and q[0] == 'gen' and p[2] == q[2]:
                qv = val_subst(q[3], {q[1]: lab(p[1])})
                return ('gen', p[1], p[2], self.joinv(p[3], qv, cond, a, b, st))
            if p[0] == 'cond' and q[0] == 'cond' and p[1] == q[1]:
                return ('cond', p[1], self.joinv(p[2], q[2], cond, a, b, st))
            return None
        return self.joinv(p, q, cond, a, b, st)

    def joinv(self, x, y, cond, a, b, st):
        """join of values x (from state a) and y (from state b)"""
        if x is y:
            if isinstance(x, Arr) and x.cell is not None:
                return st.heap.get(x.cell, x)
            return x
        if isinstance(x, Arr):
            x0, x = x, (a.heap.get(x.cell, x) if x.cell is not None else x)
        if isinstance(y, Arr):
            y0, y = y, (b.heap.get(y.cell, y) if y.cell is not None else y)
        if isinstance(x, Arr) and isinstance(y, Arr):
            same_cell = x.cell is not None and x.cell == y.cell
            r = self.join_arr(x, y, cond)
            if same_cell:
                r.cell = x.cell
            return r
        if isinstance(x, Const) and isinstance(y, Const) and x.v == y.v and type(x.v) is type(y.v):
            return x
        if isinstance(x, Tup) and isinstance(y, Tup) and len(x.items) == len(y.items):
            return Tup([self.joinv(p, q, cond, a, b, st) for p, q in zip(x.items, y.items)], x.taint | y.taint)
        if isinstance(x, Ref) and isinstance(y, Ref):
            if x.addr == y.addr:
                if [(l, f.key()) for l, f in x.sub] == [(l, f.key()) for l, f in y.sub]:
                    return x
                return x
            rx, ry = a.heap.get(x.addr), b.heap.get(y.addr)
            if type(rx) is type(ry) and rx is not None and not x.sub and not y.sub and \
                    isinstance(rx, (ListRec, DictRec, ObjRec)):
                if isinstance(rx, ObjRec) and rx.cls is not ry.cls:
                    return Unknown(x.taint | y.taint, 'join refs')
                r = self.join_rec(rx, ry, cond, a, b, st)
                return self.alloc(r, st)
        if isinstance(x, (StrT, Const)) and isinstance(y, (StrT, Const)):
            if isinstance(x, Const) and x.v is None or isinstance(y, Const) and y.v is None:
                return Unknown(taint_of(x) | taint_of(y), 'join None/str')
            px = x.parts if isinstance(x, StrT) else [x.v]
            py = y.parts if isinstance(y, StrT) else [y.v]
            if repr(px) == repr(py):
                return x
            return StrT([('phi', [px, py]) + (() if cond is None else (fn('ite', cond, ZERO, ONE),))], taint_of(x) | taint_of(y))
        if isinstance(x, (Func, Class, Builtin, Module)) and x is y:
            return x
        if isinstance(x, Builtin) and isinstance(y, Builtin) and x.name == y.name and x.recv is y.recv:
            return x
        return Unknown(taint_of(x) | taint_of(y), 'join')

    def join_arr(self, x, y, cond):
        t = x.taint | y.taint
        dt = x.dtype if x.dtype == y.dtype else ('c' if 'c' in (x.dtype, y.dtype) else 'f' if 'f' in (x.dtype, y.dtype) else 'i')
        roots = x.roots | y.roots
        if x.ndim != y.ndim:
            return Unknown(t, 'join ndim')
        m = {}
        okl = True
        for (l1, n1), (l2, n2) in zip(x.axes, y.axes):
            if l1 != l2:
                m[l2] = lab(l1)
            if not (n1 == n2):
                okl = False
        if not okl or x.form is None or y.form is None:
            return Arr(x.axes, None, dt, roots, t, py=x.py and y.py)
        yf = y.form.subst(m)
        if yf == x.form:
            return Arr(x.axes, x.form, dt, roots, t, py=x.py and y.py)
        if cond is not None:
            f = fn('ite', cond, x.form, yf)
        else:
            f = fn('phi', x.form, yf)
        return Arr(x.axes, f, dt, roots, t, py=x.py and y.py)

    # ---- statement dispatch
    def exec_stmt(self, s, st):
        m = getattr(self, 'st_' + type(s).__name__, None)
        if m is None:
            return [st]
        r = m(s, st)
        return [st] if r is None else r

    def st_Pass(self, s, st):
        return [st]

    def st_Expr(self, s, st):
        if isinstance(s.value, ast.Constant):
            return [st]
        if isinstance(s.value, (ast.Yield, ast.YieldFrom)):
            self.ev(s.value, st)
            return [st]
        self.ev(s.value, st)
        return [st]

    def st_Import(self, s, st):
        for a in s.names:
            top = a.name.split('.')[0]
            name = a.name if a.asname else top
            if top in ('irrep', 'irreptables'):
                self.load(a.name)
            st.env[a.asname or top] = Module(name)
        return [st]

    def st_ImportFrom(self, s, st):
        base = s.module or ''
        cur = self.ctx.module['name']
        if s.level:
            pk = cur if self.ctx.module['path'].endswith('__init__.py') else cur.rsplit('.', 1)[0]
            for _ in range(s.level - 1):
                pk = pk.rsplit('.', 1)[0]
            base = pk + ('.' + base if base else '')
        for a in s.names:
            nm = a.asname or a.name
            if base.split('.')[0] in ('irrep', 'irreptables'):
                mod = self.load(base)
                if mod is None:
                    sub = None
                else:
                    sub = mod['env'].get(a.name)
                if sub is None:
                    if self.modfile(base + '.' + a.name):
                        self.load(base + '.' + a.name)
                        sub = Module(base + '.' + a.name)
                    elif mod is not None and a.name != '*':
                        self.event('error', s, dict(exc='ImportError', msg='cannot import %s from %s' % (a.name, base)), st)
                        sub = Unknown(why='import')
                if a.name == '*' and mod is not None:
                    for k, v in mod['env'].items():
                        if not k.startswith('_'):
                            st.env[k] = v
                    continue
                st.env[nm] = sub if sub is not None else Unknown(why='import')
            else:
                st.env[nm] = self.lib.attr_of_module(base, a.name)
        return [st]

    def st_FunctionDef(self, s, st):
        f = Func(s, self.ctx.module, (self.ctx.qual + '.' if self.ctx.func is not None else '') + s.name,
                 closure=st.env if self.ctx.func is not None else None)
        f.defaults = [self.ev(d, st) for d in s.args.defaults]
        f.kwdefaults = [self.ev(d, st) if d is not None else None for d in s.args.kw_defaults]
        f.definer = self.ctx.func
        f.decorators = list(s.decorator_list)
        st.env[s.name] = f
        return [st]

    def st_ClassDef(self, s, st):
        bases = []
        for b in s.bases:
            v = self.ev(b, st)
            if isinstance(v, Class):
                bases.append(v)
            elif isinstance(v, Builtin) and v.name != 'object':
                bases.append(v.name)
            elif isinstance(v, Module):
                bases.append(v.name)
            elif isinstance(v, Builtin):
                pass
            else:
                bases.append('?')
        c = Class(s.name, self.ctx.module, s, bases)
        for b in bases:
            if isinstance(b, str):
                EXC_TREE.setdefault(s.name, (b.split('.')[-1],))
            else:
                EXC_TREE.setdefault(s.name, (b.name,))
        for m in s.body:
            if isinstance(m, (ast.FunctionDef,)):
                f = Func(m, self.ctx.module, s.name + '.' + m.name, cls=c)
                f.defaults = [self.ev(d, st) for d in m.args.defaults]
                f.kwdefaults = [self.ev(d, st) if d is not None else None for d in m.args.kw_defaults]
                f.definer = None
                f.decorators = list(m.decorator_list)
                kind = 'method'
                for d in m.decorator_list:
                    dn = ast.unparse(d)
                    if dn == 'property' or dn.endswith('cached_property'):
                        kind = 'property'
                    elif dn == 'staticmethod':
                        kind = 'static'
                    elif dn == 'classmethod':
                        kind = 'class'
                    elif dn.endswith('.setter'):
                        kind = 'setter'
                f.kind = kind
                if kind == 'setter':
                    c.members['%set:' + m.name] = f
                else:
                    c.members[m.name] = f
            elif isinstance(m, ast.Assign):
                try:
                    v = self.bindv(self.ev(m.value, st), st)
                except PyRaise:
                    v = Unknown(why='class attr')
                for t in m.targets:
                    if isinstance(t, ast.Name):
                        c.members[t.id] = v
            elif isinstance(m, ast.AnnAssign) and m.value is not None and isinstance(m.target, ast.Name):
                c.members[m.target.id] = self.bindv(self.ev(m.value, st), st)
        st.env[s.name] = c
        return [st]

    def st_Assign(self, s, st):
        v = self.ev(s.value, st)
        for t in s.targets:
            self.assign(t, v, st, s)
        return [st]

    def st_AnnAssign(self, s, st):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value, st), st, s)
        return [st]

    def st_AugAssign(self, s, st):
        t = s.target
        load = ast.copy_location(_as_load(t), t)
        cur = self.ev(load, st)
        rhs = self.ev(s.value, st)
        if isinstance(cur, Arr) and not cur.py:
            # ndarray in-place operation
            val = self.lib.binop(type(s.op).__name__, cur, rhs, s, st)
            if isinstance(t, ast.Subscript):
                base = self.ev(t.value, st)
                keep = st.heap.get(base.cell) if isinstance(base, Arr) and base.cell is not None else None
                self.inplace(cur, s, st)
                if keep is not None:
                    st.heap[base.cell] = keep       # the element is stored right below
                self.store_sub(base, t, val, st, s)
                return [st]
            self.inplace(cur, s, st)
            if isinstance(val, Arr):
                if val.ndim > cur.ndim:
                    self.error('ValueError', 'in-place operation changes the shape', s, st)
                nv = val.with_(roots=cur.roots)
                if isinstance(cur.dtype, str) and cur.dtype in ('i', 'f') and val.dtype == 'c':
                    self.event('cast', s, dict(frm=val.dtype, to=cur.dtype), st)
                if cur.cell is not None:
                    nv.cell = cur.cell
                    st.heap[cur.cell] = nv
                    self.touch_views(cur, st)
                    if isinstance(t, ast.Attribute):
                        o = self.ev(t.value, st)
                        self.attr_event(o, t.attr, nv, st, s)
                        h = self.run_hook(o, t.attr, nv, st, s)
                        if h is not nv:
                            h = h.with_()
                            h.cell = cur.cell
                            st.heap[cur.cell] = h
                    return [st]
                self.assign(t, nv, st, s)
                return [st]
            self.assign(t, val, st, s)
            return [st]
        if isinstance(cur, Ref) and isinstance(self.rec(cur, st), ListRec) and isinstance(s.op, ast.Add) and not cur.sub:
            self.lib.list_extend(cur, rhs, s, st)
            return [st]
        val = self.lib.binop(type(s.op).__name__, cur, rhs, s, st)
        self.assign(t, val, st, s)
        return [st]

    def touch_views(self, cur, st):
        pass

    def inplace(self, arr, node, st):
        """in-place modification of an array: record which outside arrays are affected"""
        for r in arr.roots:
            if isinstance(r, tuple) and r[0] == 'cell':
                # write through a view: the base array changes too
                base = st.heap.get(r[1])
                if isinstance(base, Arr) and r[1] != arr.cell:
                    nb = base.with_(form=None)
                    nb.cell = r[1]
                    st.heap[r[1]] = nb
                continue
        rs = [r for r in arr.roots if isinstance(r, str)]
        if rs:
            self.event('mutate', node, dict(roots=rs), st)

    def attr_event(self, o, attr, v, st, node):
        if isinstance(o, Ref):
            r = self.rec(o, st)
            if isinstance(r, ObjRec):
                cn = r.cls.name if isinstance(r.cls, Class) else str(r.cls)
                self.event('attrset', node, dict(cls=cn, attr=attr, value=v, addr=o.addr), st)

    def run_hook(self, o, attr, v, st, node):
        if isinstance(o, Ref):
            r = self.rec(o, st)
            if isinstance(r, ObjRec):
                cn = r.cls.name if isinstance(r.cls, Class) else str(r.cls)
                h = self.hooks.get((cn, attr))
                if h:
                    return h(self, v, st, node)
        return v

    def assign(self, t, v, st, node):
        if isinstance(t, ast.Name):
            if t.id in self.ctx.globals:
                self.ctx.module['env'][t.id] = self.bindv(v, st)
                self.event('globalset', node, dict(name=t.id), st)
                return
            st.env[t.id] = self.bindv(v, st)
        elif isinstance(t, (ast.Tuple, ast.List)):
            vals = self.unpack(v, t.elts, st, node)
            for e, x in zip(t.elts, vals):
                if isinstance(e, ast.Starred):
                    e = e.value
                self.assign(e, x, st, node)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, st)
            self.setattr(o, t.attr, v, st, node)
        elif isinstance(t, ast.Subscript):
            base = self.ev(t.value, st)
            if isinstance(base, Arr):
                self.inplace(base, node, st)
            self.store_sub(base, t, v, st, node)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, st, node)

    def unpack(self, v, elts, st, node):
        n = len(elts)
        star = [i for i, e in enumerate(elts) if isinstance(e, ast.Starred)]
        items = self.conc_items(v, st)
        if items is not None:
            if star:
                i = star[0]
                k = n - 1
                if len(items) < k:
                    self.error('ValueError', 'not enough values to unpack', node, st)
                mid = items[i:len(items) - (k - i)]
                return items[:i] + [self.newlist(mid, st)] + items[len(items) - (k - i):]
            if len(items) != n:
                self.error('ValueError', 'cannot unpack %d values into %d targets' % (len(items), n), node, st)
            return items
        seq = self.lib.to_seq(v, st, node)
        if seq is not None and not star:
            c = seq.length.int_const() if seq.length is not None else None
            if c is not None and c != n and seq.conc is None:
                self.error('ValueError', 'cannot unpack %d values into %d targets' % (c, n), node, st)
            return [self.seq_get(seq, const(i), st) for i in range(n)]
        if isinstance(v, Const) and v.v is None:
            self.error('TypeError', 'cannot unpack None', node, st)
        return [Unknown(taint_of(v), 'unpack') for _ in elts]

    def seq_get(self, seq, f, st):
        if seq.conc is not None:
            c = f.int_const()
            if c is not None and -len(seq.conc) <= c < len(seq.conc):
                return seq.conc[c]
            if len(seq.conc) == 1:
                return seq.conc[0]
            return Unknown(seq.taint, 'seq index')
        if seq.get is None:
            return Unknown(seq.taint, 'seq')
        return seq.get(f)

    def conc_items(self, v, st):
        """list of Val when v is a sequence of statically known length, else None"""
        if isinstance(v, Tup):
            return list(v.items)
        if isinstance(v, Ref):
            r = self.rec(v, st)
            if isinstance(r, ListRec) and not r.unk and not any(isinstance(s, tuple) for s in r.segs):
                m = dict(v.sub)
                return [val_subst(self.loadv(s, st), m) for s in r.segs]
            if isinstance(r, ListRec) and not r.unk and len(r.segs) == 1 and isinstance(r.segs[0], tuple) and r.segs[0][0] == 'gen':
                _, l, ln, e = r.segs[0]
                c = ln.int_const()
                if c is not None and c <= self.UNROLL:
                    m = dict(v.sub)
                    return [val_subst(val_subst(self.loadv(e, st), {l: const(i)}), m) for i in range(c)]
            if isinstance(r, DictRec) and not r.unk and not r.gen:
                return [k for k, _ in r.items]
        if isinstance(v, Arr) and v.axes:
            c = v.axes[0][1].int_const()
            if c is not None and c <= self.UNROLL:
                return [self.lib.index(v, [num(i)], None, st) for i in range(c)]
        if isinstance(v, Seq) and v.conc is not None:
            return list(v.conc)
        ok, p = pyconst(v)
        if ok and isinstance(p, str) and len(p) <= 64:
            return [Const(c) for c in p]
        return None

    def setattr(self, o, attr, v, st, node):
        if isinstance(o, Ref):
            r = self.rec(o, st)
            if isinstance(r, ObjRec):
                if isinstance(r.cls, Class):
                    setter = r.cls.lookup('%set:' + attr)
                    if setter is not None:
                        self.call(Bound(setter, o), [v], {}, node, st)
                        return
                    mem = r.cls.lookup(attr)
                    if isinstance(mem, Func) and getattr(mem, 'kind', '') == 'property':
                        self.error('AttributeError', "property '%s' of '%s' has no setter" % (attr, r.cls.name), node, st)
                if isinstance(r.meta.get('root'), str):
                    self.event('mutate', node, dict(roots=[r.meta['root']], attr=attr), st)
                self.attr_event(o, attr, v, st, node)
                v = self.run_hook(o, attr, v, st, node)
                if o.sub:
                    v = self.generic_store(o, r.attrs.get(attr), v, st)
                    r = self.rec(o, st)
                if isinstance(v, Arr) and v.roots:
                    pass
                at = dict(r.attrs)
                at[attr] = self.bindv(v, st)
                st.heap[o.addr] = ObjRec(r.cls, at, r.meta)
                return
        if isinstance(o, Class):
            self.event('classset', node, dict(cls=o.name, attr=attr), st)
            return
        if isinstance(o, Const) and o.v is None:
            self.error('AttributeError', "cannot set attribute '%s' of None" % attr, node, st)

    def generic_store(self, o, old, v, st):
        """attribute store on the generic element of an abstract list: the element is selected by o.sub"""
        m = {}
        for l, f in o.sub:
            k = f.label()
            if k is not None and k != l:
                m[k] = lab(l)
            elif k == l:
                pass
            else:
                m = None
                break
        if m is not None and isinstance(v, Val):
            return val_subst(v, m)
        # index given by an expression: element addressed indirectly
        if isinstance(v, Arr) and not v.axes and v.form is not None and len(o.sub) == 1:
            l, f = o.sub[0]
            oldf = old.form if isinstance(old, Arr) and not old.axes and old.form is not None else sym('undef')
            return v.with_(form=fn('upd', lab(l), f, v.form, oldf))
        return Unknown(taint_of(v), 'generic store')

    def store_sub(self, base, t, v, st, node):
        idx = self.ev_index(t.slice, st)
        self.lib.store(base, idx, v, t, st, node)

    def st_Delete(self, s, st):
        for t in s.targets:
            if isinstance(t, ast.Name):
                if t.id not in st.env:
                    self.error('NameError', "name '%s' is not defined" % t.id, s, st)
                st.env.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                base = self.ev(t.value, st)
                idx = self.ev_index(t.slice, st)
                self.lib.delitem(base, idx, st, s)
        return [st]

    def st_Global(self, s, st):
        self.ctx.globals |= set(s.names)
        return [st]

    def st_Nonlocal(self, s, st):
        return [st]

    def st_Return(self, s, st):
        v = NONE if s.value is None else self.ev(s.value, st)
        v = self.bindv(v, st)
        self.ctx.ret.append((v, st))
        h = self.ret_hooks.get(self.ctx.qual)
        if h is not None and not self.silent:
            h(v, st, s)
        return []

    def st_Raise(self, s, st):
        name = 'Exception'
        v = None
        if s.exc is not None:
            v = self.ev(s.exc, st)
            name = self.exc_name(v, st)
        elif self.ctx_handler_exc():
            name = self.ctx_handler_exc()
        e = self.event('raise', s, dict(exc=name, value=v), st)
        raise PyRaise(name, v, explicit=True, where='%s:%s' % (e.file, e.line) if e else '')

    def ctx_handler_exc(self):
        return getattr(self.ctx, 'cur_exc', None)

    def exc_name(self, v, st):
        if isinstance(v, Class):
            return v.name
        if isinstance(v, Builtin):
            return v.name.split('.')[-1]
        if isinstance(v, Ref):
            r = self.rec(v, st)
            if isinstance(r, ObjRec):
                return r.cls.name if isinstance(r.cls, Class) else str(r.cls)
        return 'Exception'

    def st_Assert(self, s, st):
        a, b = self.split(s.test, st)
        out = []
        if b is not None:
            e = self.event('raise', s, dict(exc='AssertionError', value=None), b)
            self.ctx.exc.append((PyRaise('AssertionError', None, True, where='%s:%s' % (e.file, e.line) if e else ''), b))
        if a is not None:
            out.append(a)
        return out

    # ---- branching
    def truth(self, v, st, node=None):
        """True / False / None ; and the condition form"""
        ok, p = pyconst(v)
        if ok:
            return bool(p), None
        if isinstance(v, Arr):
            if not v.axes:
                f = v.form
                if f is None:
                    return None, None
                if v.dtype == 'b':
                    return None, f
                return None, fn('ne', f, ZERO)
            n = ONE
            for l, ln in v.axes:
                n = n * ln
            c = n.int_const()
            if c == 1:
                return None, None
            self.event('truth_array', node, dict(len=n), st)
            if c is not None and c > 1:
                self.error('ValueError', 'truth value of an array with more than one element is ambiguous', node, st)
            return None, None
        if isinstance(v, StrT):
            if any(isinstance(p, str) for p in v.parts) or any(not isinstance(p, str) and p[0] != 'rep' for p in v.parts):
                return True, None
            return None, None
        if isinstance(v, Tup):
            return bool(v.items), None
        if isinstance(v, Ref):
            r = self.rec(v, st)
            if isinstance(r, ListRec):
                if any(not isinstance(x, tuple) for x in r.segs):
                    return True, None
                if not r.segs and not r.unk:
                    return False, None
                ln = self.lib.list_len(v, st)
                return None, (fn('ne', ln, ZERO) if ln is not None else None)
            if isinstance(r, DictRec):
                if r.items and not r.unk:
                    return True, None
                if not r.items and not r.gen and not r.unk:
                    return False, None
                return None, None
            if isinstance(r, (ObjRec, FileRec)):
                return True, None
            return None, None
        if isinstance(v, (Func, Class, Builtin, Module, Bound)):
            return True, None
        return None, None

    def split(self, test, st):
        """(state where test holds or None, state where it does not or None)"""
        if isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
            a, b = self.split(test.operand, st)
            return b, a
        if isinstance(test, ast.BoolOp):
            isand = isinstance(test.op, ast.And)
            pc0 = st.pc
            cur = [st]
            outs = []
            for e in test.values:
                nxt = []
                for c in cur:
                    a, b = self.split(e, c)
                    go, stop = (a, b) if isand else (b, a)
                    if stop is not None:
                        outs.append(stop)
                    if go is not None:
                        nxt.append(go)
                cur = nxt
            go = self.merge(cur) if cur else None
            stop = None
            if outs:
                stop = self.merge_pc(outs, pc0, go)
            return (go, stop) if isand else (stop, go)
        v = self.ev(test, st)
        t, f = self.truth(v, st, test)
        if t is not None:
            return (st, None) if t else (None, st)
        return self.fork(st, f, v, test)

    def merge_pc(self, outs, pc0, go):
        """states leaving a short-circuit early; keep a usable path condition"""
        m = self.merge(outs)
        if go is not None and len(go.pc) > len(pc0):
            conds = [(c if pol else fn('not', c)) for c, pol in go.pc[len(pc0):]]
            if len(conds) > 1:
                c = fn('and', *conds)
                go.pc = pc0 + ((c, True),)
                m.pc = pc0 + ((c, False),)
        return m

    def fork(self, st, f, v, test):
        if f is not None:
            c = f.const()
            if c is not None:
                return (st, None) if c else (None, st)
            if self.premise is not None:      # what the check assumes about the input decides the branch
                c = self.premise(f)
                if c is not None:
                    return (st, None) if c else (None, st)
            # normalise polarity
            pol = True
            at = f.atom()
            if at and at[0] == 'F' and at[1] == 'not':
                f, pol = at[2][0], False
            nf = fn('not', f)
            for g, p in st.pc:
                if g == f:
                    r = (p == pol)
                    return (st, None) if r else (None, st)
                if g == nf:
                    r = (p != pol)
                    return (st, None) if r else (None, st)
        else:
            self.fresh += 1
            f = sym('cond?%d' % self.fresh)
            META['cond?%d' % self.fresh] = dict(real=True, int=True, numeric=threshold(test))
            pol = True
        self.event('branch', test, dict(cond=f, value=v, taint=taint_of(v)), st)
        a, b = st.copy(), st
        a.pc = st.pc + ((f, pol),)
        b.pc = st.pc + ((f, not pol),)
        return a, b

    def st_If(self, s, st):
        n0 = len(self.events)
        pre_taint = None
        a, b = self.split(s.test, st)
        if a is None or b is None:
            if a is not None:
                return self.exec_block(s.body, [a])
            return self.exec_block(s.orelse, [b])
        heap_b, env_b = dict(b.heap), dict(b.env)
        oa = self.exec_block(s.body, [a])
        ob = self.exec_block(s.orelse, [b])
        self.check_branch_effects(s, a, b, oa, ob, heap_b, env_b)
        return self.partition(oa + ob) if oa and ob else oa + ob

    def check_branch_effects(self, s, a, b, oa, ob, heap_b, env_b):
        pass

    def st_With(self, s, st):
        opened = []
        for it in s.items:
            v = self.ev(it.context_expr, st)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v, st, s)
            opened.append(v)
        out = self.exec_block(s.body, [st])
        for o in out:
            for v in opened:
                self.lib.close_file(v, o)
        return out

    # ---- try
    def st_Try(self, s, st):
        ctx = self.ctx
        saved = ctx.exc
        ctx.exc = []
        pre = st.copy()
        n_ev = len(self.events)
        out = self.exec_block(s.body, [st])
        raised = ctx.exc
        ctx.exc = saved
        body_ev = self.events[n_ev:]
        if out and s.orelse:
            out = self.exec_block(s.orelse, out)
        handled = []
        rest = list(raised)
        used = set()
        for i, h in enumerate(s.handlers):
            names = self.handler_names(h, st)
            for ev in body_ev:
                if ev.kind == 'error' and not ev.data.get('handled') and (
                        names is None or any(exc_isa(ev.data['exc'], n) for n in names)):
                    ev.data['handled'] = 'broad' if names is None or set(names) & {'Exception', 'BaseException'} else 'named'
            mine, others = [], []
            for e, es in rest:
                if names is None or any(exc_isa(e.exc, n) for n in names):
                    mine.append((e, es))
                else:
                    others.append((e, es))
            rest = others
            if mine:
                used.add(i)
                hs = self.merge([es for _, es in mine])
                if h.name:
                    ev = mine[0][0].val
                    hs.env[h.name] = ev if isinstance(ev, (Ref,)) else self.alloc(
                        ObjRec(mine[0][0].exc, {}), hs)
                old = getattr(ctx, 'cur_exc', None)
                ctx.cur_exc = mine[0][0].exc
                self.event('handler', h, dict(excs=[e.exc for e, _ in mine], explicit=[e.explicit for e, _ in mine]), hs)
                handled += self.exec_block(h.body, [hs])
                ctx.cur_exc = old
        ctx.exc.extend(rest)
        # handlers whose exception cannot be shown to occur: examine them without
        # letting them influence the result (unless the body called something opaque)
        for i, h in enumerate(s.handlers):
            if i in used:
                continue
            hs = pre.copy()
            if h.name:
                hs.env[h.name] = self.alloc(ObjRec('Exception', {}), hs)
            self.spec += 1
            sv_exc, sv_ret, sv_loops = ctx.exc, ctx.ret, ctx.loops
            ctx.exc, ctx.ret = [], []
            ctx.loops = [dict(brk=[], cont=[]) for _ in sv_loops]
            old = getattr(ctx, 'cur_exc', None)
            ctx.cur_exc = 'Exception'
            try:
                hout = self.exec_block(h.body, [hs])
            except (Abort, PyRaise):
                hout = []
            ctx.cur_exc = old
            ctx.exc, ctx.ret, ctx.loops = sv_exc, sv_ret, sv_loops
            self.spec -= 1
        res = out + handled
        if s.finalbody:
            if res:
                res = self.exec_block(s.finalbody, res)
        return self.partition(res) if len(res) > 1 else res

    def handler_names(self, h, st):
        if h.type is None:
            return None
        ts = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
        out = []
        for t in ts:
            v = self.ev(t, st)
            if isinstance(v, Class):
                out.append(v.name)
            elif isinstance(v, Builtin):
                out.append(v.name.split('.')[-1])
            else:
                out.append(ast.unparse(t).split('.')[-1])
        return out

    # ---- loops
    def setorder(self, v, node, st, what):
        """the order of a set becomes visible"""
        if not isinstance(v, Ref):
            return
        r = self.rec(v, st)
        if not isinstance(r, ListRec) or r.kind != 'set':
            return
        kinds = {self.elemkind(x[-1] if isinstance(x, tuple) else x, st) for x in r.segs}
        if len(r.segs) == 1 and not isinstance(r.segs[0], tuple) and not r.unk:
            return
        k = 'str' if 'str' in kinds else '?' if '?' in kinds or not kinds and r.unk else 'num'
        self.event('unordered', node, dict(what=what, elem=k), st)

    def elemkind(self, x, st, depth=0):
        x = self.loadv(x, st)
        if isinstance(x, (StrT,)) or isinstance(x, Const) and isinstance(x.v, (str, bytes)):
            return 'str'
        if isinstance(x, Const) and x.v is None:
            return 'str'            # the hash of None depends on its address before Python 3.12
        if isinstance(x, Tup) and depth < 3:
            ks = {self.elemkind(y, st, depth + 1) for y in x.items}
            return 'str' if 'str' in ks else '?' if '?' in ks else 'num'
        if isinstance(x, Arr):
            return 'num' if x.dtype in ('i', 'f', 'c', 'b') else '?'
        if isinstance(x, Const):
            return 'num'
        if isinstance(x, Ref) and isinstance(self.rec(x, st), ObjRec):
            return 'str'            # hashed by address
        return 'num' if isinstance(x, Unknown) and x.why == 'set' else '?'

    def st_For(self, s, st):
        it = self.ev(s.iter, st)
        self.setorder(it, s, st, 'for')
        return self.loop_over(s, it, st, lambda v, q: self.assign(s.target, v, q, s), s.body, s.orelse)

    def loop_over(self, s, it, st, bind, body, orelse=()):
        items = self.conc_items(it, st)
        if items is None and isinstance(it, Seq) and it.conc is None and it.length is not None:
            c = it.length.int_const()
            if c is not None and c <= self.UNROLL and it.itref is None:
                items = [self.seq_get(it, const(i), st) for i in range(c)]
        if items is not None:
            return self.loop_conc(s, items, st, bind, body, orelse)
        if isinstance(it, Ref) and isinstance(self.rec(it, st), IterRec):
            return self.loop_iter(s, it, st, bind, body, orelse)
        if isinstance(it, Ref):
            r = self.rec(it, st)
            if isinstance(r, FileRec):
                lines = self.lib.file_lines(it, r, st)
                if lines is not None:
                    it, r = lines, self.rec(lines, st)
            if isinstance(r, ListRec) and not r.unk and 1 < len(r.segs) <= 64 and any(isinstance(x, tuple) for x in r.segs) \
                    and all(not isinstance(x, tuple) or x[0] == 'gen' for x in r.segs):
                return self.loop_iter(s, self.alloc(IterRec(r.segs), st), st, bind, body, orelse)
        seq = self.lib.to_seq(it, st, s)
        if seq is None:
            if isinstance(it, Const) and it.v is None:
                self.error('TypeError', "'NoneType' object is not iterable", s, st)
            if isinstance(it, Arr) and not it.axes:
                self.error('TypeError', 'scalar is not iterable', s, st)
            seq = Seq(length=sym('len?%d' % self.nfresh()), get=lambda f: Unknown(taint_of(it), 'iter'), taint=taint_of(it))
        if seq.conc is not None:
            return self.loop_conc(s, list(seq.conc), st, bind, body, orelse)
        return self.loop_gen(s, seq, st, bind, body, orelse)

    def nfresh(self):
        self.fresh += 1
        return self.fresh

    def loop_conc(self, s, items, st, bind, body, orelse):
        states = [st]
        brk = []
        for v in items:
            new = []
            lp = dict(brk=[], cont=[])
            for q in states:
                bind(v, q)
            self.ctx.loops.append(lp)
            try:
                out = self.exec_block(body, states)
            finally:
                self.ctx.loops.pop()
            brk += lp['brk']
            states = self.partition(out + lp['cont'])
            if not states:
                break
        if orelse and states:
            states = self.exec_block(orelse, states)
        return self.partition(states + brk)

    def st_Break(self, s, st):
        if self.ctx.loops:
            self.ctx.loops[-1]['brk'].append(st)
        return []

    def st_Continue(self, s, st):
        if self.ctx.loops:
            self.ctx.loops[-1]['cont'].append(st)
        return []

    def run_body(self, body, st):
        lp = dict(brk=[], cont=[])
        self.ctx.loops.append(lp)
        try:
            out = self.exec_block(body, [st])
        finally:
            self.ctx.loops.pop()
        return out + lp['cont'], lp['brk']

    def loop_gen(self, s, seq, st, bind, body, orelse, consume=None):
        """generic loop over seq.get(label), label in range(seq.length)"""
        m = new_label()
        LABLEN[m] = seq.length if seq.length is not None else sym('len?%d' % self.nfresh())
        length = LABLEN[m]
        self.loopstack.append(m)
        try:
            return self._loop_gen(s, seq, m, length, st, bind, body, orelse)
        finally:
            self.loopstack.pop()

    def _loop_gen(self, s, seq, m, length, st, bind, body, orelse):
        elem = self.seq_get(seq, lab(m), st)
        # pass A: which variables does the body change?
        a0 = st.copy()
        marks = (len(self.ctx.ret), len(self.ctx.exc), self.naddr)
        self.silent += 1
        try:
            bind(elem, a0)
            base = a0.copy()
            outs, brks = self.run_body(body, a0)
        finally:
            self.silent -= 1
        del self.ctx.ret[marks[0]:]
        del self.ctx.exc[marks[1]:]
        if brks and outs and seq.itref is None:
            r = self.search_loop(s, seq, m, length, st, base, outs, brks, bind, body, orelse)
            if r is not None:
                return r
        mods = self.find_mods(base, outs + brks, st)
        # pass B: with opaque loop-carried values, to summarise the updates
        repl = {}
        listent = {}
        if mods or self.list_changed(base, outs + brks):
            b0 = st.copy()
            phis = {}
            for k in mods:
                old = self.slot_get(b0, k)
                if isinstance(old, Arr) and old.form is not None:
                    name = 'phi#%d' % self.nfresh()
                    META[name] = dict(real=old.dtype != 'c', int=old.dtype in ('i', 'b'))
                    pv = old.with_(form=sym(name, *[lab(l) for l, _ in old.axes]), roots=old.roots, taint=old.taint | self.slot_taint(outs, k))
                    phis[k] = (name, old, pv)
                    self.slot_set(b0, k, pv)
            self.silent += 1
            try:
                bind(elem, b0)
                outs2, brks2 = self.run_body(body, b0)
            finally:
                self.silent -= 1
            del self.ctx.ret[marks[0]:]
            del self.ctx.exc[marks[1]:]
            fin = self.merge(outs2) if outs2 else None
            listent = self.list_entries(st, b0, fin, m)
            for k, (name, old, pv) in phis.items():
                post = self.slot_get(fin, k) if fin is not None else None
                ent = self.loop_entry(name, old, post, m, length)
                if ent is not None:
                    repl[k] = ent
                else:
                    repl[k] = pv
        # final pass
        c0 = st.copy()
        for ad, r in listent.items():
            c0.heap[ad] = r
        for k in mods:
            if k in repl:
                self.slot_set(c0, k, repl[k])
            else:
                self.widen_slot(c0, k, outs + brks, st)
        bind(elem, c0)
        entry = c0.copy()
        nret = len(self.ctx.ret)
        outs3, brks3 = self.run_body(body, c0)
        res = []
        if outs3:
            fin = self.merge(outs3)
            after = self.loop_exit(st, entry, fin, mods, repl, m, length, seq)
            if orelse:
                res += self.exec_block(orelse, [after])
            else:
                res.append(after)
        else:
            # body never completes normally: zero iterations or leaves inside
            z = st.copy()
            if orelse:
                res += self.exec_block(orelse, [z])
            else:
                res.append(z)
        if 1 <= len(brks3) <= 2 and len(res) == 1 and any(
                isinstance(r, ListRec) and ad in st.heap and isinstance(b.heap.get(ad), ListRec) and b.heap[ad] is not r
                for b in brks3 for ad, r in res[0].heap.items()):
            # lists that have grown to different lengths are kept apart
            for q, left in [(res[0], ZERO)] + [(b, ONE) for b in brks3]:
                q.env['%%left%d' % s.lineno] = num(left, 'b')
        for b in brks3:
            res.append(b)
        return self.partition(res)

    def search_loop(self, s, seq, m, length, st, base, outs, brks, bind, body, orelse):
        """for x in xs: if cond(x): ...; break   -- nothing changes until the first x for which cond holds"""
        fin = self.merge(outs)
        if self.find_mods(base, [fin], st) or self.list_changed(base, [fin]):
            return None
        if len(brks) != 1:
            return None
        n = len(base.pc)
        ext = brks[0].pc[n:]
        if brks[0].pc[:n] != base.pc or not ext:
            return None
        conds = [(f if pol else fn('not', f)) for f, pol in ext]
        if any(x.startswith('cond?') for f in conds for x in symbols_of(f)):
            return None
        cond = fn('and', *conds) if len(conds) > 1 else conds[0]
        if m not in cond.labels():
            return None
        found = binder('any', (m,), cond, ())
        first = binder('where', (m,), cond, (ZERO,))
        # none satisfies it
        z = st.copy()
        z.pc = st.pc + ((found, False),)
        bind(self.seq_get(seq, length - ONE, z), z)
        res = self.exec_block(orelse, [z]) if orelse else [z]
        # the first one that does
        b = st.copy()
        b.pc = st.pc + ((found, True),)
        k = len(b.pc)
        try:
            b.pc = b.pc + tuple((f.subst({m: first}), pol) for f, pol in ext)
        except Top:
            return None
        bind(self.seq_get(seq, first, b), b)
        outs2, brks2 = self.run_body(body, b)
        for q in brks2 or outs2:      # the condition holds here by definition: the body does not complete normally
            q.pc = q.pc[:k]
            res.append(q)
        return self.partition(res)

    def top(self, dtype, *slots):
        nm = 'top#%d' % self.nfresh()
        META[nm] = dict(real=dtype != 'c', int=dtype in ('i', 'b'))
        return sym(nm, *slots)

    def list_changed(self, base, outs):
        for o in outs:
            for ad, r in o.heap.items():
                if isinstance(r, ListRec) and base.heap.get(ad) is not r and ad in base.heap:
                    return True
        return False

    def list_entries(self, st, base, fin, m):
        """lists that grow in the loop: their content at the start of iteration m"""
        out = {}
        if fin is None:
            return out
        for ad, r in fin.heap.items():
            b = st.heap.get(ad)
            if not isinstance(r, ListRec) or not isinstance(b, ListRec) or r is b:
                continue
            g = self.gen_list(b, r, m, lab(m), b, entry=True)
            if g.unk or len(g.segs) == len(b.segs) + 1 and all(x is y for x, y in zip(b.segs, g.segs)):
                out[ad] = g
        return out

    def slot_taint(self, outs, k):
        t = NOTAINT
        for o in outs:
            v = self.slot_get(o, k)
            if v is not None:
                t = t | taint_of(v)
        return t

    # slots: ('e', name) or ('h', addr, attr|None)
    def slot_get(self, st, k):
        if k[0] == 'e':
            v = st.env.get(k[1])
            return self.loadv(v, st) if v is not None else None
        r = st.heap.get(k[1])
        if k[2] is None:
            return r if isinstance(r, Arr) else None
        if k[2] == '%file':
            return num(r.state['pos']) if isinstance(r, FileRec) and isinstance(r.state.get('pos'), Form) else None
        if isinstance(r, ObjRec):
            v = r.attrs.get(k[2])
            return self.loadv(v, st) if v is not None else None
        return None

    def slot_set(self, st, k, v):
        if k[0] == 'e':
            old = st.env.get(k[1])
            if isinstance(old, Arr) and old.cell is not None and isinstance(v, Arr):
                v = v.with_()
                v.cell = old.cell
                st.heap[old.cell] = v
            st.env[k[1]] = v if isinstance(v, Arr) and v.cell is not None else self.bindv(v, st)
            return
        r = st.heap.get(k[1])
        if k[2] is None:
            if isinstance(v, Arr):
                v = v.with_()
                v.cell = k[1]
                st.heap[k[1]] = v
            return
        if k[2] == '%file':
            s = dict(r.state)
            s['pos'] = scalar_form(v)
            st.heap[k[1]] = FileRec(r.path, r.mode, r.kind, s, r.closed)
            return
        if isinstance(r, ObjRec):
            at = dict(r.attrs)
            at[k[2]] = v if isinstance(v, Arr) and v.cell is not None else self.bindv(v, st)
            st.heap[k[1]] = ObjRec(r.cls, at, r.meta)

    def find_mods(self, base, outs, st):
        mods = []
        seen = set()

        def add(k):
            if k not in seen:
                seen.add(k)
                mods.append(k)
        for o in outs:
            for n, v in o.env.items():
                if n not in st.env:
                    continue
                b = base.env.get(n)
                if b is v:
                    continue
                if isinstance(b, Arr) and isinstance(v, Arr) and b.cell is not None and b.cell == v.cell:
                    continue   # in-place; found through the heap
                if n in base.env and base.env[n] is not st.env.get(n):
                    continue   # loop target itself
                add(('e', n))
            for ad, r in o.heap.items():
                b = base.heap.get(ad)
                if b is None or b is r or ad not in st.heap:
                    continue
                if isinstance(r, Arr):
                    add(('h', ad, None))
                elif isinstance(r, ObjRec) and isinstance(b, ObjRec):
                    for at, v in r.attrs.items():
                        bv = b.attrs.get(at)
                        if bv is not v and bv is not None:
                            if isinstance(bv, Arr) and isinstance(v, Arr) and bv.cell is not None and bv.cell == v.cell:
                                continue
                            add(('h', ad, at))
                elif isinstance(r, FileRec) and isinstance(b, FileRec):
                    if isinstance(r.state.get('pos'), Form) and r.state.get('pos') != b.state.get('pos'):
                        add(('h', ad, '%file'))
        return mods

    def widen_slot(self, st, k, outs, st0):
        """non-numeric loop-carried slot: value at entry of an arbitrary iteration"""
        old = self.slot_get(st, k)
        vals = [old]
        for o in outs:
            v = self.slot_get(o, k)
            if v is not None:
                vals.append(v)
        r = None
        for v in vals:
            if v is None:
                continue
            if r is None:
                r = v
            elif isinstance(r, (StrT, Const)) and isinstance(v, (StrT, Const)) and not (
                    isinstance(r, Const) and r.v is None) and not (isinstance(v, Const) and v.v is None):
                r = StrT([('prev', k[1])], taint_of(r) | taint_of(v))
            else:
                r = self.joinv(r, v, None, st, st, st) if not isinstance(r, Unknown) else Unknown(r.taint | taint_of(v), 'loop')
        if r is not None and r is not old:
            self.slot_set(st, k, r)

    def loop_entry(self, name, old, post, m, length):
        """value of a loop-carried variable at the start of iteration m, if it can be summarised"""
        if not isinstance(post, Arr) or post.form is None or post.ndim != old.ndim:
            return None
        mm = {l2: lab(l1) for (l1, _), (l2, _) in zip(old.axes, post.axes) if l1 != l2}
        pf = post.form.subst(mm)
        phi = sym(name, *[lab(l) for l, _ in old.axes])
        d = pf - phi
        if name in _symnames(d):
            return None
        c = d
        if m not in c.labels() and not old.axes:
            # induction variable
            return old.with_(form=old.form + c * lab(m), taint=old.taint | post.taint)
        if not c.terms:
            return old
        return None

    def loop_exit(self, st0, entry, fin, mods, repl, m, length, seq):
        """state after the loop from the state at the end of a generic iteration"""
        after = fin
        self.folds = {}
        for k in mods:
            post, old, ent = self.slot_get(fin, k), self.slot_get(st0, k), repl.get(k)
            if not isinstance(post, Arr) or not isinstance(old, Arr) or ent is None or ent.form is None or post.form is None or old.form is None or \
                    post.ndim != old.ndim:
                continue
            ea = ent.form.atom()
            if ea and ea[0] == 'S' and ea[1].startswith('phi#'):
                ls = [new_label() for _ in old.axes]
                for l, (lo, n) in zip(ls, old.axes):
                    LABLEN[l] = n
                self.folds[ea[1]] = (ls, post.form.subst({l1: lab(l) for l, (l1, _) in zip(ls, post.axes)}),
                                     old.form.subst({l1: lab(l) for l, (l1, _) in zip(ls, old.axes)}), post.dtype)
        for k in mods:
            post = self.slot_get(fin, k)
            old = self.slot_get(st0, k)
            if not isinstance(post, Arr) or not isinstance(old, Arr):
                continue
            v = self.summ(k, old, repl.get(k), post, m, length)
            self.slot_set(after, k, v)
        # generalise elements appended to lists / dicts / strings during the iteration
        for ad, r in list(after.heap.items()):
            b = entry.heap.get(ad)
            if b is r or b is None:
                continue
            if isinstance(r, ListRec) and isinstance(b, ListRec):
                after.heap[ad] = self.gen_list(b, r, m, length, st0.heap.get(ad))
            elif isinstance(r, DictRec) and isinstance(b, DictRec):
                after.heap[ad] = self.gen_dict(b, r, m, length)
            elif isinstance(r, IterRec) and isinstance(b, IterRec):
                after.heap[ad] = self.gen_iter(b, r, m, length)
        for n, v in list(after.env.items()):
            if isinstance(v, StrT) and n in entry.env:
                b = entry.env[n]
                if isinstance(b, (StrT, Const)) and b is not v:
                    b0 = st0.env.get(n)
                    after.env[n] = self.gen_str(b0, b, v, m, length)
        for n, v in list(after.env.items()):
            if n not in st0.env:
                # variables first assigned in the loop keep their last value
                if isinstance(v, Arr) and v.form is not None and m in v.form.labels():
                    after.env[n] = self.bindv(val_subst(self.loadv(v, after).with_(), {m: length - ONE}), after)
                elif isinstance(v, (Tup, Ref, StrT)):
                    after.env[n] = val_subst(v, {m: length - ONE})
        return after

    def gen_str(self, b0, b, v, m, length):
        pb = b.parts if isinstance(b, StrT) else ([b.v] if isinstance(b.v, str) and b.v else [])
        p0 = [] if b0 is None else (b0.parts if isinstance(b0, StrT) else ([b0.v] if isinstance(b0.v, str) and b0.v else []))
        pv = list(v.parts)
        if pb and len(pv) >= len(pb):
            head = pv[:len(pb)]
            if repr(head[:-1]) == repr(pb[:-1]):
                lastb, lastv = pb[-1], head[-1]
                if repr(lastb) == repr(lastv):
                    return StrT(p0 + [('rep', m, length, pv[len(pb):])], v.taint)
                if isinstance(lastb, str) and isinstance(lastv, str) and lastv.startswith(lastb):
                    return StrT(p0 + [('rep', m, length, [lastv[len(lastb):]] + pv[len(pb):])], v.taint)
        if not pb:
            return StrT(p0 + [('rep', m, length, pv)], v.taint)
        return StrT([('phi', [p0, pv])], v.taint)

    def gen_list(self, b, r, m, length, orig, entry=False):
        n = len(b.segs)
        if r.unk or b.unk or len(r.segs) < n:
            return ListRec(r.segs, True, r.kind)
        same = all(p is q for p, q in zip(b.segs, r.segs[:n]))
        segs = list(b.segs)
        if not same:
            # elements replaced in place (l[i] = x)
            segs = []
            for p, q in zip(b.segs, r.segs[:n]):
                if p is q:
                    segs.append(p)
                elif isinstance(q, tuple) and q[0] == 'gen':
                    segs.append(('gen', q[1], q[2], self.summ_val(q[3], m, length, q[1])))
                else:
                    segs.append(val_subst(q, {m: length - ONE}) if not isinstance(q, tuple) else q)
        elif isinstance(orig, ListRec) and not orig.unk and len(orig.segs) <= n and \
                all(p is q for p, q in zip(orig.segs, segs)):
            # drop the content contributed by the previous iterations
            segs = list(orig.segs)
        new = r.segs[n:]
        if not new:
            return ListRec(segs, r.unk, r.kind)
        k = new_label()
        if len(new) == 1:
            x = new[0]
            if isinstance(x, tuple) and x[0] == 'cond':
                cnt = V_filter(m, length, x[1])
                LABLEN[k] = cnt
                sel = filter_index(m, length, x[1], lab(k))
                segs.append(('gen', k, cnt, val_subst(x[2], {m: sel})))
                return ListRec(segs, False, r.kind)
            if isinstance(x, tuple) and x[0] == 'gen':
                tot, o, i = nest_index(m, length, x[2], k)
                LABLEN[k] = tot
                v = val_subst(x[3], {m: o, x[1]: i})
                segs.append(('gen', k, tot, v))
                return ListRec(segs, False, r.kind)
            LABLEN[k] = length
            segs.append(('gen', k, length, val_subst(x, {m: lab(k)})))
            return ListRec(segs, False, r.kind)
        if all(not isinstance(x, tuple) for x in new):
            # several elements per iteration
            tot, o, i = nest_index(m, length, const(len(new)), k)
            v = pick_val(i, new)
            if v is not None:
                LABLEN[k] = tot
                segs.append(('gen', k, tot, val_subst(v, {m: o})))
                return ListRec(segs, False, r.kind)
        return ListRec(segs + new, True, r.kind)

    def summ_val(self, v, m, length, l):
        if isinstance(v, Arr) and v.form is not None:
            return v.with_(form=resolve_upd(v.form, m, length))
        return v

    def gen_dict(self, b, r, m, length):
        bk = {self.keyrepr(k): v for k, v in b.items}
        items, gen = [], list(r.gen)
        for k, v in r.items:
            kr = self.keyrepr(k)
            if kr in bk:
                items.append((k, v))
            else:
                ok, p = pyconst(k)
                if ok:
                    items.append((k, val_subst(v, {m: length - ONE})))
                else:
                    gen.append((m, length, k, v))
        maybe = [q for q in r.maybe if q in b.maybe] + [(tuple(ls) + ((m, length),), c, k, v) for ls, c, k, v in r.maybe if (ls, c, k, v) not in b.maybe]
        return DictRec(items, gen, r.unk, maybe)

    def gen_iter(self, b, r, m, length):
        # the loop body advanced another iterator by a fixed amount per iteration
        if r.unk or b.unk:
            return IterRec(r.segs, None, True)
        if b.segs and isinstance(b.segs[0], tuple) and b.segs[0][0] == 'gen':
            if len(b.segs) == len(r.segs):
                p0 = b.pos if b.pos is not None else ZERO
                p1 = r.pos if r.pos is not None else ZERO
                step = p1 - p0
                adv = step * length
                end = p0 + adv
                if m in p0.labels():
                    end = p1.subst({m: length - ONE})
                if end == b.segs[0][2]:
                    return IterRec(b.segs[1:], None)
                return IterRec(b.segs, end)
        return IterRec(r.segs, None, True)

    def fold(self, ename, base, m, length):
        """value after the loop of a variable the iterations of which depend on each other: kept as the recursion itself"""
        need = [ename]
        for x in need:
            ls, body, old, dt = self.folds[x]
            need += [y for y in _symnames(body) if y in self.folds and y not in need]
        if m in length.labels() or any(m in self.folds[x][2].labels() for x in need):
            return None
        free = set(length.labels())
        for x in need:
            ls, body, old, dt = self.folds[x]
            free |= (set(body.labels()) | set(old.labels())) - set(ls) - {m}
        free = sorted(free)
        nm = 'fold#%d' % self.nfresh()
        META[nm] = dict(real=all(is_real(f) for x in need for f in self.folds[x][1:3]), int=all(is_int(f) for x in need for f in self.folds[x][1:3]),
                        fold=dict(vars=need, which=0, m=m, length=length, free=free, body=[self.folds[x][:3] for x in need]))
        return base.with_(form=sym(nm, *([lab(x) for x in free] + [lab(l) for l, _ in base.axes])))

    def summ(self, k, old, ent, post, m, length):
        """value after the loop of an array/number slot"""
        if post.form is None or old.form is None or ent is None or post.ndim != old.ndim:
            return post if post.form is None else self.post_or_top(old, post, m, length)
        mm = {l2: lab(l1) for (l1, _), (l2, _) in zip(old.axes, post.axes) if l1 != l2}
        pf = post.form.subst(mm)
        raw = pf
        pf = resolve_upd(pf, m, length)
        resolved = pf is not raw and pf != raw
        ename = None
        ea = ent.form.atom() if ent.form is not None else None
        if ea and ea[0] == 'S' and ea[1].startswith('phi#'):
            ename = ea[1]
        base = old.with_(dtype=post.dtype, taint=old.taint | post.taint, roots=old.roots, axes=old.axes)
        if ename is None:
            # induction: exit value is entry value at m = length
            d = ent.form.subst({m: length})
            return base.with_(form=d)
        phi = ent.form
        d = pf - phi
        if ename not in _symnames(d):
            if m in d.labels():
                return base.with_(form=old.form + sum_over(d, m, length))
            return base.with_(form=old.form + d * length)
        if ename not in _symnames(pf):
            if m in pf.labels():
                return base.with_(form=pf.subst({m: length - ONE}))
            return base.with_(form=pf)
        at = pf.atom()
        if resolved and old.axes and m not in pf.labels():
            # iteration m writes element m only
            g = replace_sym(pf, ename, old)
            if g is not None and ename not in _symnames(g):
                return base.with_(form=g)
        if at and at[0] == 'F' and at[1] in ('min', 'max'):
            rest = [x for x in at[2] if x != phi]
            if len(rest) == len(at[2]) - 1 and not any(ename in _symnames(x) for x in rest):
                nl = new_label()
                LABLEN[nl] = length
                body = rest[0] if len(rest) == 1 else fn(at[1], *rest)
                from .forms import binder
                red = binder(at[1], (nl,), body.subst({m: lab(nl)}), ())
                c = old.form.real_const()
                if c is not None and abs(c) == float('inf'):
                    return base.with_(form=red)
                return base.with_(form=fn(at[1], old.form, red))
        if at and at[0] == 'F' and at[1] == 'ite' and any(x == phi for x in at[2][1:]):
            c, p, q = at[2]
            other = q if p == phi else p
            if ename not in _symnames(other) and ename not in _symnames(c):
                r = self.fold(ename, base, m, length)
                return r if r is not None else base.with_(form=fn('phi', old.form, other.subst({m: sym('some#%d' % m)})))
            # conditional accumulation: ite(c, phi + d, phi)
            if q == phi:
                dd = p - phi
                if ename not in _symnames(dd) and ename not in _symnames(c):
                    body = fn('bool', c) * dd
                    return base.with_(form=old.form + sum_over(body, m, length) if m in body.labels() else None)
            if p == phi:
                dd = q - phi
                if ename not in _symnames(dd) and ename not in _symnames(c):
                    body = fn('bool', fn('not', c)) * dd
                    return base.with_(form=old.form + sum_over(body, m, length) if m in body.labels() else None)
        if at and at[0] == 'P' and at[1].label() in [l for l, _ in old.axes]:
            # component-wise: rows that the loop does not touch keep their value
            l0 = at[1].label()
            rest = [lab(l) for l, _ in old.axes if l != l0]
            comps = []
            for p, c in enumerate(at[2]):
                if c == phi.subst({l0: const(p)}):
                    comps.append(old.form.subst({l0: const(p)}))
                elif ename not in _symnames(c):
                    comps.append(c.subst({m: length - ONE}) if m in c.labels() else c)
                else:
                    r = self.fold(ename, base, m, length)
                    if r is not None:
                        return r
                    comps.append(self.top(old.dtype, *rest))
            from .forms import atom_form
            return base.with_(form=atom_form(('P', lab(l0), tuple(comps))))
        r = self.fold(ename, base, m, length) if ename in self.folds else None
        return r if r is not None else base.with_(form=None)

    def post_or_top(self, old, post, m, length):
        if post.form is None:
            return post
        f = post.form
        if m in f.labels():
            try:
                f = resolve_upd(f, m, length)
            except Top:
                return post.with_(form=None)
            if m in f.labels():
                return post.with_(form=f.subst({m: length - ONE}), axes=tuple((l, n.subst({m: length - ONE})) for l, n in post.axes))
        return post.with_(form=f)

    # -- stateful iterators
    def loop_iter(self, s, it, st, bind, body, orelse):
        states = [st]
        brk = []
        rounds = 0
        while True:
            rounds += 1
            if rounds > 60 or not states:
                break
            st = self.merge(states)
            r = self.rec(it, st)
            if r.unk:
                sq = Seq(length=sym('len?%d' % self.nfresh()), get=lambda f: Unknown(why='iter'))
                res = self.loop_gen(s, sq, st, bind, body, ())
                return self.partition(res + brk)
            if not r.segs:
                states = [st]
                break
            seg = r.segs[0]
            if isinstance(seg, tuple) and seg[0] == 'gen':
                p0 = r.pos if r.pos is not None else ZERO
                _, l, ln, e = seg
                st.heap[it.addr] = IterRec(r.segs[1:], None)
                sub = dict(it.sub)
                sq = Seq(length=ln - p0, get=lambda f, l=l, e=e: val_subst(val_subst(e, {l: f + p0}), sub))
                lp = dict(brk=[], cont=[])
                states = self.loop_gen_brk(s, sq, st, bind, body, brk)
                continue
            st.heap[it.addr] = IterRec(r.segs[1:], None)
            bind(val_subst(seg, dict(it.sub)), st)
            outs, b = self.run_body(body, st)
            brk += b
            states = self.partition(outs)
        if orelse and states:
            states = self.exec_block(orelse, states)
        return self.partition(states + brk)

    def loop_gen_brk(self, s, seq, st, bind, body, brk):
        # break states cannot be told apart from normal exits of loop_gen; they are merged
        return self.loop_gen(s, seq, st, bind, body, ())

    def next_iter(self, it, st, node, default=None):
        r = self.rec(it, st)
        if not isinstance(r, IterRec) or r.unk:
            return Unknown(why='next')
        if not r.segs:
            if default is not None:
                return default
            raise PyRaise('StopIteration')
        seg = r.segs[0]
        sub = dict(it.sub)
        if isinstance(seg, tuple) and seg[0] == 'gen':
            _, l, ln, e = seg
            p = r.pos if r.pos is not None else ZERO
            # inside a generic loop the position is that of the iteration
            if self.loopstack and self.silent == 0 and r.pos is None:
                pass
            idx = p
            if self.loopstack:
                m = self.loopstack[-1]
                if m not in p.labels() and LABLEN.get(m) == ln:
                    idx = p + lab(m)
            st.heap[it.addr] = IterRec(r.segs, p + ONE)
            return val_subst(val_subst(e, {l: idx}), sub)
        if isinstance(seg, tuple):
            st.heap[it.addr] = IterRec(r.segs, None, True)
            return Unknown(why='next')
        st.heap[it.addr] = IterRec(r.segs[1:], None)
        return val_subst(seg, sub)

    def st_While(self, s, st):
        states = [st]
        brk = []
        exits = []
        for rounds in range(40):
            if not states:
                break
            st = self.merge(states)
            a, b = self.split(s.test, st)
            if b is not None:
                exits.append(b)
            if a is None:
                states = []
                break
            unknown_test = b is not None
            if unknown_test:
                # number of iterations not known: one generic iteration over widened state
                res, bk = self.while_generic(s, a)
                brk += bk
                exits += res
                states = []
                break
            outs, bk = self.run_body(s.body, a)
            brk += bk
            states = self.partition(outs)
            if bk and states and rounds > 2:
                # leaves by break under an unknown condition
                res, bk2 = self.while_generic(s, self.merge(states))
                brk += bk2
                states = []
                break
        exits += states
        if s.orelse and exits:
            exits = self.exec_block(s.orelse, exits)
        return self.partition(exits + brk)

    def while_generic(self, s, st):
        seq = Seq(length=sym('len?%d' % self.nfresh()), get=lambda f: NONE)
        META['len?%d' % self.fresh] = dict(real=True, int=True)
        res = self.loop_gen(s, seq, st, lambda v, q: None, s.body, ())
        # facts of the loop condition do not survive the loop
        return res, []

    # ------------------------------------------------------------ expressions
    def ev(self, e, st):
        self.steps += 1
        if self.steps > self.MAXSTEPS:
            raise Abort('steps')
        m = getattr(self, 'ev_' + type(e).__name__, None)
        if m is None:
            return Unknown(why=type(e).__name__)
        try:
            return m(e, st)
        except ShapeError as x:
            self.error('ValueError', str(x), e, st)

    def ev_Constant(self, e, st):
        return from_py(e.value)

    def ev_Name(self, e, st):
        n = e.id
        if n in st.env:
            return self.loadv(st.env[n], st)
        c = self.ctx
        if c.func is not None and getattr(c, 'closure', None) is not None and n in c.closure:
            return self.loadv(c.closure[n], st)
        env = c.module['env']
        if n in env and env is not st.env:
            v = env[n]
            if isinstance(v, Arr) and v.cell is not None:
                return st.heap.get(v.cell) or self.heap0.get(v.cell) or v
            if isinstance(v, Ref) and v.addr not in st.heap and v.addr in self.heap0:
                st.heap[v.addr] = self.heap0[v.addr]
            return v
        b = self.lib.builtin(n)
        if b is not None:
            return b
        if self.is_local(n):
            self.error('UnboundLocalError', "local variable '%s' referenced before assignment" % n, e, st)
        self.error('NameError', "name '%s' is not defined" % n, e, st)

    def is_local(self, n):
        f = self.ctx.func
        return f is not None and any(isinstance(x, ast.Name) and x.id == n and isinstance(x.ctx, ast.Store)
                                     for x in ast.walk(f.node))

    def ev_NamedExpr(self, e, st):
        v = self.ev(e.value, st)
        self.assign(e.target, v, st, e)
        return v

    def ev_Tuple(self, e, st):
        return Tup(self.ev_elts(e.elts, st))

    def ev_elts(self, elts, st):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                v = self.ev(x.value, st)
                it = self.conc_items(v, st)
                if it is None:
                    seq = self.lib.to_seq(v, st, x)
                    if seq is not None and seq.length is not None and seq.length.int_const() is not None:
                        out += [self.seq_get(seq, const(i), st) for i in range(seq.length.int_const())]
                    else:
                        out.append(Unknown(taint_of(v), 'star'))
                else:
                    out += it
            else:
                out.append(self.bindv(self.ev(x, st), st))
        return out

    def ev_List(self, e, st):
        return self.newlist(self.ev_elts(e.elts, st), st)

    def ev_Set(self, e, st):
        vals = self.ev_elts(e.elts, st)
        return self.lib.make_set(vals, st)

    def ev_Dict(self, e, st):
        items = []
        unk = False
        for k, v in zip(e.keys, e.values):
            if k is None:
                src = self.ev(v, st)
                r = self.rec(src, st) if isinstance(src, Ref) else None
                if isinstance(r, DictRec):
                    items += r.items
                    unk = unk or r.unk or bool(r.gen)
                else:
                    unk = True
                continue
            items.append((self.ev(k, st), self.bindv(self.ev(v, st), st)))
        return self.alloc(DictRec(items, (), unk), st)

    @staticmethod
    def keyrepr(k):
        ok, p = pyconst(k)
        if ok:
            if isinstance(p, (int, float, bool)) and not isinstance(p, str):
                return 'n%r' % float(p)
            return 'c%r' % (p,)
        if isinstance(k, Arr) and k.form is not None:
            return 'f' + k.form.key()
        if isinstance(k, Tup):
            return 't(' + ','.join(Interp.keyrepr(x) for x in k.items) + ')'
        if isinstance(k, StrT):
            return 's' + repr(k.parts)
        if isinstance(k, Ref):
            return 'r%d' % k.addr
        return 'u%d' % id(k)

    def ev_JoinedStr(self, e, st):
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(v.value)
            else:
                x = self.ev(v.value, st)
                spec = ''
                if v.format_spec is not None:
                    sv = self.ev(v.format_spec, st)
                    ok, p = pyconst(sv)
                    spec = p if ok else '?'
                parts += self.lib.fmt_parts(x, spec, st, e, conv={114: 'r', 115: 's'}.get(v.conversion, ''))
        return self.lib.mkstr(parts)

    def ev_FormattedValue(self, e, st):
        return Unknown(why='fmt')

    def ev_BinOp(self, e, st):
        a = self.ev(e.left, st)
        b = self.ev(e.right, st)
        return self.lib.binop(type(e.op).__name__, a, b, e, st)

    def ev_UnaryOp(self, e, st):
        v = self.ev(e.operand, st)
        if isinstance(e.op, ast.Not):
            t, f = self.truth(v, st, e)
            if t is not None:
                r = boolv(not t)
                return r if not taint_of(v) else r.with_(taint=taint_of(v))
            if f is not None:
                return Arr((), fn('not', f), 'b', taint=taint_of(v), py=True)
            return Arr((), None, 'b', taint=taint_of(v), py=True)
        return self.lib.unop(type(e.op).__name__, v, e, st)

    def ev_BoolOp(self, e, st):
        isand = isinstance(e.op, ast.And)
        forms = []
        taint = NOTAINT
        last = None
        unknown = False
        for i, x in enumerate(e.values):
            v = self.ev(x, st)
            taint |= taint_of(v)
            t, f = self.truth(v, st, x) if i < len(e.values) - 1 or forms or unknown else (None, None)
            if i == len(e.values) - 1 and not forms and not unknown:
                return v
            if t is not None:
                if t != isand:
                    if not forms and not unknown:
                        return v
                    if isand:
                        return boolv(False) if not unknown else Arr((), ZERO, 'b', taint=taint, py=True)
                    return Arr((), ONE, 'b', taint=taint, py=True)
                continue
            if f is None:
                unknown = True
            else:
                forms.append(f)
            last = v
        if unknown:
            return Arr((), None, 'b', taint=taint, py=True)
        if not forms:
            return boolv(isand)
        return Arr((), fn('and' if isand else 'or', *forms) if len(forms) > 1 else forms[0], 'b', taint=taint, py=True)

    def ev_IfExp(self, e, st):
        a, b = self.split(e.test, st)
        if b is None:
            return self.ev(e.body, a)
        if a is None:
            return self.ev(e.orelse, b)
        va = self.ev(e.body, a)
        vb = self.ev(e.orelse, b)
        n = len(st.pc)
        j = self.join2(a, b)
        cond = None
        n = 0
        while n < len(a.pc) and n < len(b.pc) and a.pc[n] == b.pc[n]:
            n += 1
        if n < len(a.pc) and n < len(b.pc) and a.pc[n][0] == b.pc[n][0]:
            cond = a.pc[n][0] if a.pc[n][1] else fn('not', a.pc[n][0])
        r = self.joinv(va, vb, cond, a, b, j)
        st.env, st.heap, st.pc = j.env, j.heap, j.pc
        return r

    def ev_Compare(self, e, st):
        left = self.ev(e.left, st)
        res = None
        for op, c in zip(e.ops, e.comparators):
            right = self.ev(c, st)
            r = self.lib.compare(type(op).__name__, left, right, e, st)
            if res is None:
                res = r
            else:
                res = self.lib.bool_and(res, r)
            left = right
        return res

    def ev_Lambda(self, e, st):
        f = Func(e, self.ctx.module, self.ctx.qual + '.<lambda>', closure=st.env)
        f.defaults = [self.ev(d, st) for d in e.args.defaults]
        f.kwdefaults = []
        f.definer = self.ctx.func
        return f

    def ev_Attribute(self, e, st):
        v = self.ev(e.value, st)
        return self.getattr(v, e.attr, e, st)

    def getattr(self, v, name, node, st):
        if isinstance(v, Ref):
            r = self.rec(v, st)
            if isinstance(r, ObjRec):
                if name in r.attrs:
                    x = self.loadv(r.attrs[name], st)
                    if v.sub:
                        x = val_subst(x, dict(v.sub))
                    return x
                if isinstance(r.cls, Class):
                    mname = name
                    mem = r.cls.lookup(mname)
                    if mem is None and name.startswith('__') and not name.endswith('__'):
                        mem = r.cls.lookup(name)
                    if isinstance(mem, Func):
                        kind = getattr(mem, 'kind', 'method')
                        if kind == 'property':
                            return self.call(Bound(mem, v), [], {}, node, st)
                        if kind == 'static':
                            return mem
                        if kind == 'class':
                            return Bound(mem, mem.cls)
                        return Bound(mem, v)
                    if mem is not None:
                        return self.loadv(mem, st)
                    if '%open' in r.attrs:
                        return Unknown(why='attribute of a boundary object')
                    if name == '__class__':
                        return r.cls
                    if name == '__dict__':
                        return Unknown(why='dict')
                    if r.cls.closed() or (r.meta.get('strict')):
                        self.error('AttributeError', "'%s' object has no attribute '%s'" % (r.cls.name, name), node, st)
                    return self.lib.obj_attr(v, r, name, node, st)
                return self.lib.obj_attr(v, r, name, node, st)
            if isinstance(r, ListRec):
                return Builtin(('list.' if r.kind == 'list' else 'set.') + name, v)
            if isinstance(r, DictRec):
                return Builtin('dict.' + name, v)
            if isinstance(r, FileRec):
                return self.lib.file_attr(v, r, name, node, st)
            if isinstance(r, IterRec):
                return Builtin('iter.' + name, v)
            return Unknown(why='attr')
        if isinstance(v, Arr):
            return self.lib.arr_attr(v, name, node, st)
        if isinstance(v, Module):
            return self.lib.attr_of_module(v.name, name, node, st)
        if isinstance(v, Class):
            m = v.lookup(name)
            if m is None:
                if name == '__name__':
                    return Const(v.name)
                if v.closed():
                    self.error('AttributeError', "class '%s' has no attribute '%s'" % (v.name, name), node, st)
                return Unknown(why='class attr')
            return m
        if isinstance(v, Const):
            if v.v is None:
                self.error('AttributeError', "'NoneType' object has no attribute '%s'" % name, node, st)
            if isinstance(v.v, str):
                return self.lib.str_attr(v, name, node, st)
            return Unknown(why='const attr')
        if isinstance(v, StrT):
            return self.lib.str_attr(v, name, node, st)
        if isinstance(v, Tup):
            return Builtin('tuple.' + name, v)
        if isinstance(v, Builtin):
            return Builtin(v.name + '.' + name, v.recv)
        if isinstance(v, Bound):
            return Unknown(why='bound attr')
        if isinstance(v, Seq):
            return Unknown(v.taint, 'seq attr')
        if isinstance(v, Func):
            return Unknown(why='func attr')
        if isinstance(v, Unknown):
            return Unknown(v.taint, v.why)
        return Unknown(taint_of(v), 'attr')

    def ev_index(self, s, st):
        if isinstance(s, ast.Tuple):
            return TupIdx([self.ev_index1(x, st) for x in s.elts])
        v = self.ev_index1(s, st)
        if isinstance(v, Tup) :
            return TupIdx(v.items)
        return [v]

    def ev_index1(self, s, st):
        if isinstance(s, ast.Slice):
            return Slice(*[None if x is None else self.ev(x, st) for x in (s.lower, s.upper, s.step)])
        return self.ev(s, st)

    def ev_Subscript(self, e, st):
        v = self.ev(e.value, st)
        idx = self.ev_index(e.slice, st)
        return self.lib.getitem(v, idx, e, st)

    def ev_Slice(self, e, st):
        return self.ev_index1(e, st)

    def ev_Starred(self, e, st):
        return self.ev(e.value, st)

    def ev_Yield(self, e, st):
        v = self.ev(e.value, st) if e.value is not None else NONE
        self.ctx.yields.append(v)
        return NONE

    def ev_YieldFrom(self, e, st):
        self.ev(e.value, st)
        self.ctx.yields.append(Unknown(why='yield from'))
        return NONE

    # ---- comprehensions: translated into loops appending to a fresh list
    def comp(self, e, st, elt, kind):
        addr = self.alloc(ListRec([]) if kind != 'dict' else DictRec([]), st)
        saved = dict(st.env)
        if kind == 'dict':
            body = [('dictset', e.key, e.value)]
        else:
            body = [('append', elt)]
        self.comp_loop(e.generators, 0, st, addr, body)
        # restore comprehension-local names
        for k in list(st.env):
            if k not in saved:
                del st.env[k]
        for k, v in saved.items():
            st.env[k] = v if not (isinstance(v, Arr) and v.cell is not None) else v
        return addr

    def comp_loop(self, gens, i, st, addr, body):
        if i == len(gens):
            b = body[0]
            if b[0] == 'append':
                v = self.ev(b[1], st)
                r = st.heap[addr.addr]
                st.heap[addr.addr] = ListRec(r.segs + [self.bindv(v, st)], r.unk, r.kind)
            else:
                k = self.ev(b[1], st)
                v = self.ev(b[2], st)
                r = st.heap[addr.addr]
                st.heap[addr.addr] = DictRec(r.items + [(k, self.bindv(v, st))], r.gen, r.unk, r.maybe)
            return
        g = gens[i]
        it = self.ev(g.iter, st)
        self.setorder(it, g.iter, st, 'comp')
        interp = self

        class _Body:
            pass

        def run(q):
            if i == 0 and False:
                return
            cur = q
            skip = []
            for c in g.ifs:
                a, b = interp.split(c, cur)
                if b is not None:
                    skip.append(b)
                if a is None:
                    cur = None
                    break
                cur = a
            outs = []
            if cur is not None:
                interp.comp_loop(gens, i + 1, cur, addr, body)
                outs.append(cur)
            return outs + skip
        node = ast.copy_location(CompBody(run), g.iter)
        res = self.loop_over(g.iter, it, st, lambda v, q: self.assign(g.target, v, q, g.iter), [node])
        m = self.merge(res) if res else st
        st.env, st.heap, st.pc = m.env, m.heap, m.pc

    def st_CompBody(self, s, st):
        outs = s.run(st)
        if len(outs) > 1:
            return [self.merge(outs)]
        return outs

    def ev_ListComp(self, e, st):
        return self.comp(e, st, e.elt, 'list')

    def ev_GeneratorExp(self, e, st):
        r = self.comp(e, st, e.elt, 'list')
        rec = self.rec(r, st)
        # lazily consumed: a generator over a stateless list behaves like an iterator
        return self.alloc(IterRec(rec.segs, None, rec.unk), st)

    def ev_SetComp(self, e, st):
        r = self.comp(e, st, e.elt, 'list')
        items = self.conc_items(r, st)
        rec = self.rec(r, st)
        st.heap[r.addr] = ListRec(rec.segs, rec.unk, 'set')
        return r

    def ev_DictComp(self, e, st):
        return self.comp(e, st, None, 'dict')

    # ------------------------------------------------------------ calls
    def ev_Call(self, e, st):
        f = self.ev(e.func, st)
        args = self.ev_elts(e.args, st)
        kw = {}
        for k in e.keywords:
            v = self.ev(k.value, st)
            if k.arg is None:
                r = self.rec(v, st) if isinstance(v, Ref) else None
                if isinstance(r, DictRec) and not r.gen and not r.unk:
                    for kk, vv in r.items:
                        ok, p = pyconst(kk)
                        if ok:
                            kw[p] = vv
                else:
                    kw['**'] = v
            else:
                kw[k.arg] = self.bindv(v, st)
        return self.call(f, args, kw, e, st)

    def call(self, f, args, kw, node, st):
        if isinstance(f, Func):
            return self.call_func(f, args, kw, node, st)
        if isinstance(f, Bound):
            return self.call_func(f.func, [f.recv] + list(args), kw, node, st)
        if isinstance(f, Partial):
            k = dict(f.kw)
            k.update(kw)
            return self.call(f.func, list(f.args) + list(args), k, node, st)
        if isinstance(f, Class):
            return self.instantiate(f, args, kw, node, st)
        if isinstance(f, Builtin):
            return self.lib.call(f, args, kw, node, st)
        if isinstance(f, Module):
            self.error('TypeError', "module '%s' is not callable" % f.name, node, st)
        if isinstance(f, Const) or (isinstance(f, (Arr, Tup, StrT))):
            self.error('TypeError', "object %r is not callable" % (f,), node, st)
        if isinstance(f, Ref):
            r = self.rec(f, st)
            if isinstance(r, ObjRec) and isinstance(r.cls, Class):
                m = r.cls.lookup('__call__')
                if m is not None:
                    return self.call(Bound(m, f), args, kw, node, st)
                if r.cls.closed():
                    self.error('TypeError', "'%s' object is not callable" % r.cls.name, node, st)
        return Unknown(union_taint(f, *args) | union_taint(*kw.values()), 'call')

    def instantiate(self, c, args, kw, node, st):
        obj = self.alloc(ObjRec(c, {}), st)
        init = c.lookup('__init__')
        self.callsites.add((self.ctx.module['path'] if self.ctx and self.ctx.module else '', getattr(node, 'lineno', 0), c.name))
        if isinstance(init, Func):
            self.call_func(init, [obj] + list(args), kw, node, st)
        elif c.closed() and (args or kw) and not c.bases:
            self.error('TypeError', '%s() takes no arguments' % c.name, node, st)
        elif not c.closed():
            r = st.heap[obj.addr]
            at = dict(r.attrs)
            at['args'] = Tup(args)
            st.heap[obj.addr] = ObjRec(r.cls, at, r.meta)
            self.lib.ext_init(obj, c, args, kw, node, st)
        self.event('new', node, dict(cls=c.name, args=args, kw=kw, obj=obj), st)
        return obj

    def bind_args(self, f, args, kw, node, st):
        a = f.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        env = {}
        nm = f.qual
        if len(args) > len(names):
            if a.vararg is None:
                self.error('TypeError', '%s() takes %d positional arguments but %d were given' % (nm, len(names), len(args)), node, st)
            env[a.vararg.arg] = Tup(args[len(names):])
        elif a.vararg is not None:
            env[a.vararg.arg] = Tup([])
        for n, v in zip(names, args):
            env[n] = v
        extra = []
        kwnames = [x.arg for x in a.kwonlyargs]
        for k, v in kw.items():
            if k == '**':
                continue
            if k in env:
                self.error('TypeError', "%s() got multiple values for argument '%s'" % (nm, k), node, st)
            if k in names or k in kwnames:
                env[k] = v
            elif a.kwarg is not None:
                extra.append((Const(k), v))
            else:
                self.error('TypeError', "%s() got an unexpected keyword argument '%s'" % (nm, k), node, st)
        if a.kwarg is not None:
            env[a.kwarg.arg] = self.alloc(DictRec(extra), st)
        nd = len(f.defaults)
        missing = []
        for i, n in enumerate(names):
            if n not in env:
                j = i - (len(names) - nd)
                if j >= 0:
                    d = f.defaults[j]
                    if isinstance(d, Arr) and not d.py:
                        d = (self.loadv(d, st)).with_(roots=frozenset(['default:%s.%s' % (nm, n)]))
                        d = self.bindv(d, st)
                    env[n] = d
                elif '**' in kw:
                    env[n] = Unknown(why='kwargs')
                else:
                    missing.append(n)
        for n, d in zip(kwnames, f.kwdefaults):
            if n not in env:
                if d is None:
                    missing.append(n)
                else:
                    env[n] = d
        if missing:
            self.error('TypeError', '%s() missing required arguments: %s' % (nm, ', '.join(missing)), node, st)
        for k in env:
            env[k] = self.bindv(env[k], st)
        return env

    def call_func(self, f, args, kw, node, st):
        path = f.module['path']
        if self.ctx is not None and self.ctx.module is not None:
            self.callsites.add((self.ctx.module['path'], getattr(node, 'lineno', 0), f.qual))
        env = self.bind_args(f, args, kw, node, st)
        if f.node in [x[0] for x in self.calls_active()]:
            return Unknown(union_taint(*args), 'recursion')
        pre = self.call_hooks.get('pre:' + f.qual)
        if pre:
            r = pre(self, env, st, node)
            if r is not None:
                return r
        self.event('call', node, dict(func=f.qual, module=f.module['name'], args=dict(env)), st)
        self.analysed.add((path, f.qual))
        ctx = Ctx(f, f.module, f.qual, self.ctx)
        if f.closure is not None:
            ctx.closure = dict(f.closure)
            if self.ctx is not None and f.definer is self.ctx.func:
                ctx.closure.update(st.env)
            if self.ctx is not None and getattr(self.ctx, 'closure', None):
                for k, v in self.ctx.closure.items():
                    ctx.closure.setdefault(k, v)
        else:
            ctx.closure = None
        caller = self.ctx
        self.ctx = ctx
        self.stack.append((caller.qual if caller else '', getattr(node, 'lineno', 0), f.qual))
        sub = State(env, st.heap, st.pc)
        env0 = {n: x for n, x in env.items()}
        try:
            if isinstance(f.node, ast.Lambda):
                v = self.ev(f.node.body, sub)
                ctx.ret.append((v, sub))
            else:
                out = self.exec_block(f.node.body, [sub])
                for o in out:
                    ctx.ret.append((NONE, o))
        finally:
            self.ctx = caller
            self.stack.pop()
        # exceptions escaping
        for e, es in ctx.exc:
            es2 = State(dict(st.env), es.heap, es.pc)
            if caller is not None and ctx.ret:
                caller.exc.append((e, es2))
        if not ctx.ret:
            if ctx.exc:
                es = self.merge([State({}, s.heap, s.pc) for _, s in ctx.exc])
                st.heap, st.pc = es.heap, es.pc
                raise PyRaise(ctx.exc[0][0].exc, ctx.exc[0][0].val, all(e.explicit for e, _ in ctx.exc),
                              all(e.definite for e, _ in ctx.exc), ', '.join(dict.fromkeys(e.where for e, _ in ctx.exc if e.where)))
            raise PyRaise('Exception')
        isgen = ctx.yields and not isinstance(f.node, ast.Lambda)
        values = [(self.loadv(v2, s2), s2.pc) for v2, s2 in ctx.ret]
        v, s0 = ctx.ret[0]
        acc = State({'%ret': v}, s0.heap, s0.pc)
        for v2, s2 in ctx.ret[1:]:
            acc = self.join2(acc, State({'%ret': v2}, s2.heap, s2.pc))
        st.heap = acc.heap
        st.pc = acc.pc
        res = self.loadv(acc.env['%ret'], st)
        if isgen:
            res = self.alloc(IterRec([('gen', new_label(), sym('len?%d' % self.nfresh()), ctx.yields[0])], None, len(ctx.yields) > 1), st)
        post = self.call_hooks.get(f.qual)
        if post:
            r = post(self, env0, res, st, node)
            if r is not None:
                res = r
        self.event('return', node, dict(func=f.qual, module=f.module['name'], args=env0, value=res, values=values), st)
        return res

    def calls_active(self):
        out = []
        c = self.ctx
        while c is not None:
            if c.func is not None:
                out.append((c.func.node,))
            c = c.parent
        return out


class CompBody(ast.stmt):
    _fields = ()

    def __init__(self, run):
        super().__init__()
        self.run = run


def _as_load(t):
    if isinstance(t, ast.Name):
        return ast.Name(id=t.id, ctx=ast.Load())
    if isinstance(t, ast.Attribute):
        return ast.Attribute(value=t.value, attr=t.attr, ctx=ast.Load())
    if isinstance(t, ast.Subscript):
        return ast.Subscript(value=t.value, slice=t.slice, ctx=ast.Load())
    return t


_HIDDEN = {}


def _symnames(f):
    """names of all symbols, also those in the bodies of named expressions"""
    out = {a[1] for a in atoms_of(f) if a[0] == 'S'}
    for n in list(out):
        if '#' in n:
            out |= _hidden(n)
    return out


def _hidden(n):
    if n not in _HIDDEN:
        _HIDDEN[n] = set()
        m = META.get(n, {})
        fs = [m['body'][2]] if m.get('body') else []
        if 'fold' in m:
            fs = [f for b in m['fold']['body'] for f in b[1:]] + [m['fold']['length']]
        r = set()
        for f in fs:
            r |= _symnames(f)
        if 'fold' in m:
            r -= set(m['fold']['vars'])
        _HIDDEN[n] = r
    return _HIDDEN[n]


def V_filter(m, length, cond):
    from .forms import binder
    k = new_label()
    LABLEN[k] = length
    return binder('count', (k,), cond.subst({m: lab(k)}), ())


def nest_index(m, length, ln, k):
    """element k of the concatenation over m < length of blocks of ln(m) elements:
    (total, block, position in the block)"""
    from .forms import binder
    if m not in ln.labels():
        return length * ln, fn('floordiv', lab(k), ln), fn('mod', lab(k), ln)
    q = new_label()
    LABLEN[q] = length
    body = ln.subst({m: lab(q)})
    return (sum_over(ln, m, length), binder('nesto', (q,), body, (lab(k),)), binder('nesti', (q,), body, (lab(k),)))


def pick_val(idx, vals):
    v0 = vals[0]
    if all(isinstance(v, Arr) and v.form is not None and v.ndim == v0.ndim and
           [n for _, n in v.axes] == [n for _, n in v0.axes] for v in vals):
        fs = [v.form.subst({l2: lab(l1) for (l1, _), (l2, _) in zip(v0.axes, v.axes) if l1 != l2}) for v in vals]
        from .forms import atom_form
        dt = max((v.dtype for v in vals), key=lambda d: 'bifc'.find(d))
        return v0.with_(form=atom_form(('P', idx, tuple(fs))), dtype=dt, taint=union_taint(*vals))
    if all(isinstance(v, Tup) and len(v.items) == len(v0.items) for v in vals):
        its = [pick_val(idx, [v.items[i] for v in vals]) for i in range(len(v0.items))]
        if all(x is not None for x in its):
            return Tup(its, v0.taint)
    return None


def filter_index(m, length, cond, slot):
    from .forms import binder
    k = new_label()
    LABLEN[k] = length
    return binder('where', (k,), cond.subst({m: lab(k)}), (slot,))


def _map_atoms(form, f):
    """rebuild form applying f to every atom bottom-up (f returns Form or None)"""
    out = ZERO
    for c, dm, fa in form.items():
        g = const(c)
        for a, e in fa:
            r = f(a)
            if r is None:
                r = Form.build([(1, (), ((a, 1),))])
                from fractions import Fraction
                r = Form.build([(1, (), ((a, Fraction(1)),))])
            p = r if e == 1 else r.powr(e)
            if p is None:
                raise Top()
            g = g * p
        for d, ln in dm:
            g = sum_over(g, d, ln)
        out = out + g
    return out


def map_deep(form, f):
    """apply f to atoms (inner first)"""
    from .forms import atom_form

    def go(a):
        t = a[0]
        if t == 'S':
            b = ('S', a[1], tuple(_map_atoms(s, go) for s in a[2]))
        elif t == 'F':
            b = ('F', a[1], tuple(_map_atoms(s, go) if isinstance(s, Form) else s for s in a[2]))
        elif t == 'B':
            b = ('B', a[1], a[2], _map_atoms(a[3], go), tuple(_map_atoms(s, go) for s in a[4]))
        elif t == 'P':
            b = ('P', _map_atoms(a[1], go), tuple(_map_atoms(s, go) for s in a[2]))
        elif t == 'C':
            b = ('C', _map_atoms(a[1], go), tuple((_map_atoms(ln, go), l, _map_atoms(x, go)) for ln, l, x in a[2]))
        else:
            b = a
        r = f(b)
        return r if r is not None else atom_form(b)
    return _map_atoms(form, go)


def resolve_upd(form, m, length):
    """after a loop over m: upd(l, m+c, v, old) becomes v[m := l-c] (all iterations done)"""
    def f(a):
        if a[0] == 'F' and a[1] == 'upd':
            l, i, v, old = a[2]
            rest = i - lab(m)
            ll = l.label()
            full = ll is None or ll not in LABLEN or (LABLEN[ll] == length and rest.int_const() == 0)
            if m not in rest.labels() and m not in l.labels() and full:
                try:
                    return v.subst({m: l - rest})
                except Top:
                    return None
        return None
    if m not in form.labels() and not any(a[0] == 'F' and a[1] == 'upd' for a in atoms_of(form)):
        return form

    def upd_of(x):
        a = x.atom()
        return a if a and a[0] == 'F' and a[1] == 'upd' else None

    def lift_ite(a):
        # ite(c, upd(l,i,v,old), old) == upd(l, i, ite(c,v,old), old)
        if a[0] == 'F' and a[1] == 'ite':
            c, p, q = a[2]
            up, uq = upd_of(p), upd_of(q)
            if up and uq is None and up[2][3] == q:
                return fn('upd', up[2][0], up[2][1], fn('ite', c, up[2][2], q), q)
            if uq and up is None and uq[2][3] == p:
                return fn('upd', uq[2][0], uq[2][1], fn('ite', c, p, uq[2][2]), p)
        return None
    return map_deep(map_deep(form, lift_ite), f)


def replace_sym(form, name, old):
    """replace sym name[slots] by old.form with its axes substituted by the slots"""
    def f(a):
        if a[0] == 'S' and a[1] == name:
            return old.form.subst({l: s for (l, _), s in zip(old.axes, a[2])})
        return None
    try:
        return map_deep(form, f)
    except Top:
        return None


def pc_form(pc):
    cs = [f if pol else fn('not', f) for f, pol in pc]
    return cs[0] if len(cs) == 1 else fn('and', *cs)


def _prop(f, atoms):
    at = f.atom()
    if at and at[0] == 'F' and at[1] in ('and', 'or', 'not'):
        return (at[1],) + tuple(_prop(x, atoms) for x in at[2])
    c = f.const()
    if c is not None:
        return bool(c)
    k = f.key()
    nf = fn('not', f)
    na = nf.atom()
    if nf.key() < k and not (na and na[0] == 'F' and na[1] == 'not'):
        return ('not', ('v', atoms.setdefault(nf.key(), len(atoms))))
    return ('v', atoms.setdefault(k, len(atoms)))


def _ptrue(p, bits):
    if isinstance(p, bool):
        return p
    if p[0] == 'v':
        return bool(bits >> p[1] & 1)
    if p[0] == 'not':
        return not _ptrue(p[1], bits)
    if p[0] == 'and':
        return all(_ptrue(x, bits) for x in p[1:])
    return any(_ptrue(x, bits) for x in p[1:])


def pc_exclusive(ra, rb):
    """the two path conditions contradict each other, whatever their elementary conditions mean"""
    atoms = {}
    pa, pb = _prop(pc_form(ra), atoms), _prop(pc_form(rb), atoms)
    if len(atoms) > 12:
        return False
    return not any(_ptrue(pa, b) and _ptrue(pb, b) for b in range(1 << len(atoms)))
