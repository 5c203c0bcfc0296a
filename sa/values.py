"""Abstract values of the interpreter."""
from .forms import (Form, ZERO, ONE, const, lab, fn, new_label, LABLEN, lift, is_real, is_int, Top)

NOTAINT = frozenset()


class Val:
    taint = NOTAINT


class Unknown(Val):
    """top"""
    __slots__ = ('taint', 'why')

    def __init__(self, taint=NOTAINT, why=''):
        self.taint = frozenset(taint)
        self.why = why

    def __repr__(self):
        return '?(%s)' % self.why


class Const(Val):
    """None, str, bytes, Ellipsis, or another opaque python constant"""
    __slots__ = ('v', 'taint')

    def __init__(self, v, taint=NOTAINT):
        self.v = v
        self.taint = taint

    def __repr__(self):
        return 'C(%r)' % (self.v,)


NONE = Const(None)


class Arr(Val):
    """number or array.  axes: tuple of (label, length Form).  form: Form or None"""
    __slots__ = ('axes', 'form', 'dtype', 'roots', 'taint', 'cell', 'py')

    def __init__(self, axes, form, dtype='f', roots=NOTAINT, taint=NOTAINT, cell=None, py=False):
        self.axes = tuple(axes)
        self.form = form
        self.dtype = dtype
        self.roots = roots
        self.taint = taint
        self.cell = cell
        self.py = py      # python scalar (immutable), as opposed to ndarray

    @property
    def ndim(self):
        return len(self.axes)

    def __repr__(self):
        return 'Arr<%s|%s>%s' % (','.join('L%d:%s' % (l, n) for l, n in self.axes), self.form, self.dtype)

    def with_(self, **kw):
        d = dict(axes=self.axes, form=self.form, dtype=self.dtype, roots=self.roots, taint=self.taint,
                 cell=None, py=self.py)
        d.update(kw)
        return Arr(**d)


class StrT(Val):
    """string template: parts are str | (Val, spec) | ('rep', label, len, parts)"""
    __slots__ = ('parts', 'taint')

    def __init__(self, parts, taint=NOTAINT):
        out = []
        for p in parts:
            if isinstance(p, str):
                if p == '':
                    continue
                if out and isinstance(out[-1], str):
                    out[-1] += p
                    continue
            out.append(p)
        self.parts = out
        t = set(taint)
        for p in out:
            if isinstance(p, tuple) and isinstance(p[0], Val):
                t |= taint_of(p[0])
        self.taint = frozenset(t)

    def __repr__(self):
        return 'StrT%r' % (self.parts,)


class Tup(Val):
    __slots__ = ('items', 'taint')

    def __init__(self, items, taint=NOTAINT):
        self.items = list(items)
        self.taint = taint

    def __repr__(self):
        return 'Tup%r' % (self.items,)


class Ref(Val):
    """reference to heap record, with a label substitution"""
    __slots__ = ('addr', 'sub', 'taint')

    def __init__(self, addr, sub=(), taint=NOTAINT):
        self.addr = addr
        self.sub = tuple(sub)
        self.taint = taint

    def __repr__(self):
        return 'Ref(%d%s)' % (self.addr, ',' + repr(self.sub) if self.sub else '')


class Slice(Val):
    __slots__ = ('lo', 'hi', 'step')

    def __init__(self, lo, hi, step):
        self.lo, self.hi, self.step = lo, hi, step


class Module(Val):
    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return 'Module(%s)' % self.name


class Builtin(Val):
    """library function known by its dotted name, with an optional bound receiver"""
    def __init__(self, name, recv=None):
        self.name = name
        self.recv = recv

    def __repr__(self):
        return 'Builtin(%s)' % self.name


class Func(Val):
    def __init__(self, node, module, qual, closure=None, cls=None):
        self.node = node
        self.module = module
        self.qual = qual
        self.closure = closure
        self.cls = cls
        self.decorators = []

    def __repr__(self):
        return 'Func(%s)' % self.qual


class Bound(Val):
    def __init__(self, func, recv):
        self.func = func
        self.recv = recv


class Partial(Val):
    def __init__(self, func, args, kw):
        self.func, self.args, self.kw = func, args, kw


class Class(Val):
    def __init__(self, name, module, node, bases):
        self.name = name
        self.module = module
        self.node = node
        self.bases = bases     # list of Class | str
        self.members = {}

    def lookup(self, n):
        if n in self.members:
            return self.members[n]
        for b in self.bases:
            if isinstance(b, Class):
                r = b.lookup(n)
                if r is not None:
                    return r
        return None

    def closed(self):
        """no unknown (library) base classes"""
        return all(isinstance(b, Class) and b.closed() for b in self.bases)

    def mro_names(self):
        out = [self.name]
        for b in self.bases:
            if isinstance(b, Class):
                out += b.mro_names()
            else:
                out.append(b)
        return out

    def __repr__(self):
        return 'Class(%s)' % self.name


class Seq(Val):
    """abstract iterable: conc (list of Val) or generic (length, get)"""
    def __init__(self, length=None, get=None, conc=None, taint=NOTAINT, unordered=False, itref=None):
        self.conc = conc
        self.length = length if conc is None else const(len(conc))
        self.get = get
        self.taint = taint
        self.unordered = unordered
        self.itref = itref     # heap address of the underlying stateful iterator


# ----------------------------------------------------------- heap records (immutable)
class Rec:
    pass


class ObjRec(Rec):
    __slots__ = ('cls', 'attrs', 'meta')

    def __init__(self, cls, attrs, meta=None):
        self.cls = cls
        self.attrs = attrs
        self.meta = meta or {}


class ListRec(Rec):
    """segs: list of Val (concrete element) | ('gen', label, lenForm, Val)"""
    __slots__ = ('segs', 'unk', 'kind')

    def __init__(self, segs, unk=False, kind='list'):
        self.segs = list(segs)
        self.unk = unk
        self.kind = kind      # 'list' | 'set'


class DictRec(Rec):
    """items: list of (key Val, value Val) for known keys; gen: list of (label,len,key,value)
    maybe: list of (((label,len),...), condition, key, value): entries that exist if the condition holds; unk == 'maybe': these are the only
    uncertain entries"""
    __slots__ = ('items', 'gen', 'unk', 'maybe')

    def __init__(self, items, gen=(), unk=False, maybe=()):
        self.items = list(items)
        self.gen = list(gen)
        self.maybe = list(maybe)
        self.unk = True if unk is True or unk and not self.maybe else ('maybe' if self.maybe else False)


class IterRec(Rec):
    """stateful iterator over segs (as in ListRec); pos inside a gen seg is a Form"""
    __slots__ = ('segs', 'pos', 'unk')

    def __init__(self, segs, pos=None, unk=False):
        self.segs = list(segs)
        self.pos = pos
        self.unk = unk


class FileRec(Rec):
    __slots__ = ('path', 'mode', 'kind', 'state', 'closed')

    def __init__(self, path, mode, kind, state=None, closed=False):
        self.path, self.mode, self.kind, self.state, self.closed = path, mode, kind, dict(state or {}), closed


# ----------------------------------------------------------- helpers
def num(x, dtype=None, taint=NOTAINT):
    if isinstance(x, Form):
        f = x
        dt = dtype or ('i' if is_int(x) else 'f' if is_real(x) else 'c')
    else:
        f = const(x)
        if dtype is None:
            dtype = 'b' if isinstance(x, bool) else 'i' if isinstance(x, int) else 'f' if isinstance(x, float) else 'c'
        dt = dtype
    return Arr((), f, dt, taint=taint, py=True)


def boolv(b):
    return Arr((), ONE if b else ZERO, 'b', py=True)


TRUE = boolv(True)
FALSE = boolv(False)


def taint_of(v):
    if isinstance(v, Tup):
        t = set(v.taint)
        for x in v.items:
            t |= taint_of(x)
        return frozenset(t)
    if isinstance(v, Slice):
        t = set()
        for x in (v.lo, v.hi, v.step):
            if x is not None:
                t |= taint_of(x)
        return frozenset(t)
    return getattr(v, 'taint', NOTAINT)


def union_taint(*vs):
    t = frozenset()
    for v in vs:
        t = t | taint_of(v)
    return t


def pyconst(v):
    """(True, python value) when v is a known constant"""
    if isinstance(v, Const):
        return True, v.v
    if isinstance(v, Arr) and not v.axes and v.form is not None:
        c = v.form.const()
        if c is not None:
            if v.dtype == 'b':
                return True, bool(c.real)
            if v.dtype == 'i':
                return True, int(round(c.real))
            if abs(c.imag) < 1e-15:
                return True, c.real
            return True, c
    if isinstance(v, StrT):
        if all(isinstance(p, str) for p in v.parts):
            return True, ''.join(v.parts)
    if isinstance(v, Tup):
        out = []
        for x in v.items:
            ok, p = pyconst(x)
            if not ok:
                return False, None
            out.append(p)
        return True, tuple(out)
    return False, None


def from_py(x):
    if x is None or isinstance(x, (str, bytes)) or x is Ellipsis:
        return Const(x)
    if isinstance(x, bool):
        return boolv(x)
    if isinstance(x, (int, float, complex)):
        return num(x)
    if isinstance(x, tuple):
        return Tup([from_py(y) for y in x])
    return Unknown(why='py %r' % type(x))


def val_subst(v, m):
    if not m:
        return v
    if isinstance(v, Arr):
        if v.form is None:
            return v
        labs = set(v.form.labels())
        for l, n in v.axes:
            labs |= n.labels()
        if not (labs & set(m)):
            return v
        # rename own axes if they clash with the substituted forms
        axes = []
        m = dict(m)
        for l, n in v.axes:
            m.pop(l, None)
        try:
            f = v.form.subst(m)
        except Top:
            return v.with_(form=None)
        for l, n in v.axes:
            axes.append((l, n.subst(m)))
        return v.with_(axes=tuple(axes), form=f)
    if isinstance(v, Tup):
        return Tup([val_subst(x, m) for x in v.items], v.taint)
    if isinstance(v, Ref):
        sub = [(l, f.subst(m)) for l, f in v.sub]
        have = {l for l, _ in sub}
        sub += [(l, f) for l, f in m.items() if l not in have]
        return Ref(v.addr, sub, v.taint)
    if isinstance(v, StrT):
        return StrT([_part_subst(p, m) for p in v.parts], v.taint)
    if isinstance(v, Slice):
        return Slice(*[None if x is None else val_subst(x, m) for x in (v.lo, v.hi, v.step)])
    if isinstance(v, Bound):
        return Bound(v.func, val_subst(v.recv, m))
    return v


def _part_subst(p, m):
    if isinstance(p, str):
        return p
    if p[0] == 'rep':
        m2 = {k: f for k, f in m.items() if k != p[1]}
        return ('rep', p[1], p[2].subst(m2), [_part_subst(q, m2) for q in p[3]]) + tuple(p[4:])
    if p[0] == 'cond':
        return ('cond', p[1].subst(m) if hasattr(p[1], 'subst') else p[1], [_part_subst(q, m) for q in p[2]])
    if p[0] == 'phi':
        return ('phi', [[_part_subst(q, m) for q in alt] for alt in p[1]]) + tuple(x.subst(m) for x in p[2:])
    return (val_subst(p[0], m),) + tuple(p[1:])


def relabel(a):
    """copy of array with fresh axis labels"""
    m = {}
    axes = []
    for l, n in a.axes:
        k = new_label()
        LABLEN[k] = n
        m[l] = lab(k)
        axes.append((k, n))
    if a.form is None:
        return a.with_(axes=tuple(axes))
    return a.with_(axes=tuple(axes), form=a.form.subst(m))


def scalar_form(v):
    if isinstance(v, Arr) and not v.axes:
        return v.form
    return None


def unknown_like(*vs, why=''):
    return Unknown(union_taint(*vs), why)


class TupIdx(list):
    """subscript which is a tuple, also of one element"""
    __slots__ = ()


def key_of(idx):
    return idx[0] if len(idx) == 1 and not isinstance(idx, TupIdx) else Tup(list(idx))
