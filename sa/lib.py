"""Models of Python builtins and of the libraries used by irrep: core operations."""
import ast
import math
from fractions import Fraction
from .forms import (Form, ZERO, ONE, const, lab, fn, sym, new_label, LABLEN, lift, sum_over, Top, binder, delta,
                    conj, is_real, is_int, META, atoms_of)
from .values import *
from . import arr as A
from .evalform import closed
from .arr import Arr as _Arr, P, C, ShapeError, elementwise, updt, newax
from .lib_np import NumpyMixin
from .lib_py import PyMixin

OPNAME = {'Add': '+', 'Sub': '-', 'Mult': '*', 'Div': '/', 'Mod': '%', 'Pow': '**', 'FloorDiv': '//', 'MatMult': '@'}


def nonempty(v):
    """the string certainly has at least one character"""
    def part(x):
        if isinstance(x, str):
            return x != ''
        if x[0] == 'phi':
            return all(any(part(y) for y in alt) for alt in x[1])
        if x[0] in ('rep', 'cond'):
            return False
        return isinstance(x[0], Arr) or isinstance(x[0], StrT) and nonempty(x[0])
    return isinstance(v, StrT) and any(part(x) for x in v.parts)


def cannot_be(v, text):
    """a text with numbers in it that cannot be this text, whatever the numbers are"""
    import re
    if not isinstance(v, StrT):
        return False
    r = ''
    for p in v.parts:
        if isinstance(p, str):
            r += re.escape(p)
        elif isinstance(p[0], _Arr) and not p[0].axes and p[0].dtype in ('i', 'f'):
            r += r'[-+0-9.eEnaif ]+'
        else:
            return False
    return re.fullmatch(r, text) is None


class Lib(NumpyMixin, PyMixin):
    def __init__(self, interp):
        self.I = interp

    # ------------------------------------------------------------ conversion to arrays
    def as_arr(self, v, st, dtype=None, node=None):
        """Arr or None"""
        if isinstance(v, Arr):
            return v
        if isinstance(v, StrT):
            if dtype in ('i', 'f', 'c'):
                r = self.tonum(v, dtype)
                return r
            return None
        if isinstance(v, Const):
            if isinstance(v.v, str) and dtype in ('i', 'f'):
                return self.tonum(v, dtype)
            return None
        if isinstance(v, Seq):
            if v.conc is not None:
                return self.stack_items(list(v.conc), st, dtype)
            if v.get is None or v.length is None:
                return None
            l, n = newax(v.length)
            e = self.as_arr(v.get(lab(l)), st, dtype)
            if e is None:
                return None
            return e.with_(axes=((l, n),) + e.axes, py=False)
        if isinstance(v, Ref):
            r = self.I.rec(v, st)
            if isinstance(r, (ListRec, IterRec)):
                if r.unk:
                    return None
                segs = r.segs
                m = dict(v.sub)
                if all(not isinstance(s, tuple) for s in segs):
                    return self.stack_items([val_subst(self.I.loadv(s, st), m) for s in segs], st, dtype)
                parts = []
                for s in segs:
                    if isinstance(s, tuple) and s[0] == 'gen':
                        _, l, n, e = s
                        if m:
                            n = n.subst(m)
                        nl, nn = newax(n)
                        x = self.as_arr(val_subst(val_subst(self.I.loadv(e, st), {l: lab(nl)}), m), st, dtype)
                        if x is None:
                            return None
                        x = A.relabel(x)
                        parts.append(x.with_(axes=((nl, n),) + x.axes, py=False))
                    elif isinstance(s, tuple):
                        return None
                    else:
                        x = self.as_arr(val_subst(self.I.loadv(s, st), m), st, dtype)
                        if x is None:
                            return None
                        l, n = newax(1)
                        parts.append(x.with_(axes=((l, n),) + x.axes, py=False))
                if len(parts) == 1:
                    return parts[0]
                if len({p.ndim for p in parts}) != 1:
                    return None
                return A.concat_vals(parts, 0)
            return None
        if isinstance(v, Tup):
            return self.stack_items(v.items, st, dtype)
        return None

    def stack_items(self, items, st, dtype=None):
        if not items:
            l, n = newax(0)
            return Arr(((l, n),), ZERO, dtype or 'f')
        xs = [self.as_arr(x, st, dtype) for x in items]
        if any(x is None for x in xs):
            return None
        if len({x.ndim for x in xs}) != 1:
            return None
        r = A.stack_vals(xs)
        return None if r is None else r.with_(py=False)

    def tonum(self, v, dtype):
        """numeric value of a text token"""
        if isinstance(v, Const):
            try:
                x = v.v.strip()
                if dtype == 'i':
                    return num(int(x))
                return num(float(x.replace('d', 'e').replace('D', 'e')))
            except (ValueError, AttributeError):
                return None
        if isinstance(v, StrT):
            parts = [p for p in v.parts if not (isinstance(p, str) and p.strip() == '')]
            if len(parts) == 1 and not isinstance(parts[0], str) and isinstance(parts[0][0], Arr):
                x = parts[0][0]
                return x.with_(dtype=dtype if dtype == 'i' or x.dtype != 'c' else 'c', py=True)
            if parts and all(isinstance(p, str) for p in parts):
                return self.tonum(Const(''.join(parts)), dtype)
        return None

    def dtype_of(self, v):
        if v is None:
            return None
        if isinstance(v, Builtin):
            n = v.name.split('.')[-1]
            if n.startswith('complex'):
                return 'c'
            if n.startswith('float') or n in ('double',):
                return 'f'
            if n.startswith('int') or n.startswith('uint') or n == 'long':
                return 'i'
            if n.startswith('bool'):
                return 'b'
            if n in ('object', 'str'):
                return 'o'
        if isinstance(v, Const) and isinstance(v.v, str):
            s = v.v.lstrip('<>=|')
            if s[:1] == 'c':
                return 'c'
            if s[:1] in ('f', 'd'):
                return 'f'
            if s[:1] in ('i', 'u'):
                return 'i'
            if s[:1] == 'b':
                return 'b'
        return None

    def shape_err(self, e, node, st):
        self.I.error('ValueError', str(e), node, st)

    # ------------------------------------------------------------ operators
    def binop(self, op, a, b, node, st):
        I = self.I
        # strings
        if op == 'Mod' and (isinstance(a, StrT) or isinstance(a, Const) and isinstance(a.v, str)):
            return self.percent_format(a, b, st, node)
        if self.is_str(a) or self.is_str(b):
            if op == 'Add':
                if self.is_str(a) and self.is_str(b):
                    return self.mkstr(self.sparts(a) + self.sparts(b))
                o = b if self.is_str(a) else a
                if isinstance(o, Arr) and not o.axes or isinstance(o, Const) and o.v is None:
                    I.error('TypeError', 'can only concatenate str to str', node, st)
                if isinstance(o, Ref) and isinstance(I.rec(o, st), ListRec):
                    I.error('TypeError', 'can only concatenate str to str', node, st)
                return Unknown(taint_of(a) | taint_of(b), 'str+')
            if op == 'Mult':
                s, n = (a, b) if self.is_str(a) else (b, a)
                ok, p = pyconst(n)
                ok2, q = pyconst(s)
                if ok and ok2 and isinstance(p, int):
                    return Const(q * p)
                if ok and isinstance(p, int) and 0 <= p < 20:
                    return self.mkstr(self.sparts(s) * p)
                if isinstance(n, Arr) and not n.axes and n.form is not None:
                    l, nn = newax(n.form)
                    return StrT([('rep', l, n.form, self.sparts(s))], taint_of(n))
                return Unknown(taint_of(a) | taint_of(b), 'str*')
            return Unknown(taint_of(a) | taint_of(b), 'str op')
        # lists / tuples
        la, lb = self.is_listlike(a, st), self.is_listlike(b, st)
        if la or lb:
            if op == 'Add' and la and lb:
                if isinstance(a, Tup) and isinstance(b, Tup):
                    return Tup(a.items + b.items)
                if isinstance(a, Tup) != isinstance(b, Tup):
                    I.error('TypeError', 'can only concatenate list to list', node, st)
                ra, rb = I.rec(a, st), I.rec(b, st)
                sa = self.segs_of(a, st)
                sb = self.segs_of(b, st)
                return I.alloc(ListRec(sa + sb, ra.unk or rb.unk), st)
            if op == 'Mult':
                s, n = (a, b) if la else (b, a)
                if isinstance(n, Arr) and not n.axes:
                    ok, p = pyconst(n)
                    items = I.conc_items(s, st)
                    if ok and items is not None and isinstance(p, int) and p * len(items) <= 200:
                        if isinstance(s, Tup):
                            return Tup(items * p)
                        return I.newlist(items * p, st)
                    if items is not None and len(items) == 1 and n.form is not None:
                        l, nn = newax(n.form)
                        return I.alloc(ListRec([('gen', l, n.form, I.bindv(items[0], st))]), st)
                    return Unknown(taint_of(a) | taint_of(b), 'list*')
            if op == 'Add' and (isinstance(a, Arr) and not a.axes and a.py or isinstance(b, Arr) and not b.axes and b.py):
                I.error('TypeError', 'unsupported operand: list and number', node, st)
            if op == 'BitOr' or op == 'BitAnd' or op == 'Sub' and not (isinstance(a, Arr) or isinstance(b, Arr)):
                return Unknown(taint_of(a) | taint_of(b), 'set op')
            x, y = self.as_arr(a, st), self.as_arr(b, st)
            if (isinstance(a, Arr) or isinstance(b, Arr)) and x is not None and y is not None:
                return self.binop(op, x, y, node, st)
            return Unknown(taint_of(a) | taint_of(b), 'list op')
        if isinstance(a, Const) and a.v is None or isinstance(b, Const) and b.v is None:
            if isinstance(a, (Arr, Const)) and isinstance(b, (Arr, Const)):
                I.error('TypeError', 'unsupported operand type: NoneType', node, st)
            return Unknown(taint_of(a) | taint_of(b), 'None op')
        if not isinstance(a, Arr) or not isinstance(b, Arr):
            return Unknown(taint_of(a) | taint_of(b), 'binop')
        try:
            return self.arrop(op, a, b, node, st)
        except ShapeError as e:
            self.shape_err(e, node, st)

    def arrop(self, op, a, b, node, st):
        dt = updt(a.dtype, b.dtype)
        if op in ('Add', 'Sub', 'Mult') and dt == 'b':
            dt = 'i' if a.py or b.py else 'b'
        if op == 'Add':
            return elementwise(lambda x, y: x + y, dt, a, b)
        if op == 'Sub':
            return elementwise(lambda x, y: x - y, dt, a, b)
        if op == 'Mult':
            return elementwise(lambda x, y: x * y, dt, a, b)
        if op == 'Div':
            return elementwise(self.fdiv, 'c' if dt == 'c' else 'f', a, b)
        if op == 'MatMult':
            return A.matmul(a, b)
        if op == 'Mod':
            return elementwise(lambda x, y: fn('mod', x, y), dt, a, b)
        if op == 'FloorDiv':
            return elementwise(lambda x, y: fn('floordiv', x, y), dt, a, b)
        if op == 'Pow':
            return elementwise(self.fpow, dt if is_intdt(b) else ('c' if dt == 'c' else 'f'), a, b)
        if op in ('BitAnd', 'BitOr') and a.dtype == 'b' and b.dtype == 'b':
            return elementwise(lambda x, y: fn('and' if op == 'BitAnd' else 'or', x, y), 'b', a, b)
        if op == 'BitXor' and a.dtype == 'b' and b.dtype == 'b':
            return elementwise(lambda x, y: fn('ne', x, y), 'b', a, b)
        return elementwise(lambda x, y: fn(op, x, y), dt, a, b)

    @staticmethod
    def fdiv(x, y):
        r = y.powr(Fraction(-1)) if isinstance(y, Form) else None
        if r is None:
            raise Top()
        return x * r

    @staticmethod
    def fpow(x, y):
        c = y.real_const()
        if c is not None:
            e = Fraction(c).limit_denominator(12)
            if abs(float(e) - c) < 1e-9:
                r = x.powr(e)
                if r is None:
                    raise Top()
                return r
        if x.const() == 1:
            return ONE
        if x.const() == -1 and is_int(y):
            return fn('pow', x, y)
        return fn('pow', x, y)

    def unop(self, op, v, node, st):
        if isinstance(v, Arr):
            if op == 'USub':
                return v.with_(form=None if v.form is None else -v.form, dtype='i' if v.dtype == 'b' else v.dtype, roots=NOTAINT)
            if op == 'UAdd':
                return v
            if op == 'Invert' and v.dtype == 'b':
                return v.with_(form=None if v.form is None else fn('not', v.form), roots=NOTAINT)
            return v.with_(form=None)
        if isinstance(v, Const) and v.v is None and op == 'USub':
            self.I.error('TypeError', 'bad operand type for unary -: NoneType', node, st)
        if isinstance(v, Ref) and isinstance(self.I.rec(v, st), ListRec) and op == 'USub':
            self.I.error('TypeError', 'bad operand type for unary -: list', node, st)
        return Unknown(taint_of(v), 'unop')

    def is_str(self, v):
        return isinstance(v, StrT) or isinstance(v, Const) and isinstance(v.v, str)

    def sparts(self, v):
        if isinstance(v, StrT):
            return list(v.parts)
        return [v.v]

    def is_listlike(self, v, st):
        return isinstance(v, Tup) or isinstance(v, Ref) and isinstance(self.I.rec(v, st), ListRec)

    def segs_of(self, v, st):
        """segments with label substitution applied"""
        if isinstance(v, Tup):
            return list(v.items)
        r = self.I.rec(v, st)
        m = dict(v.sub)
        out = []
        for s in r.segs:
            if isinstance(s, tuple) and s[0] == 'gen':
                out.append(('gen', s[1], s[2].subst(m), val_subst(s[3], m)) if m else s)
            elif isinstance(s, tuple):
                out.append((s[0], s[1].subst(m), val_subst(s[2], m)) if m else s)
            else:
                out.append(val_subst(self.I.loadv(s, st), m) if m else s)
        return out

    # ------------------------------------------------------------ comparison
    def compare(self, op, l, r, node, st):
        I = self.I
        t = taint_of(l) | taint_of(r)

        def B(f, axes=()):
            return Arr(axes, f, 'b', taint=t, py=not axes)
        if op in ('Is', 'IsNot'):
            if isinstance(r, Const) and r.v is None or isinstance(l, Const) and l.v is None:
                o = l if (isinstance(r, Const) and r.v is None) else r
                if isinstance(o, Const):
                    return boolv((o.v is None) == (op == 'Is')).with_(taint=t)
                if isinstance(o, Unknown):
                    return B(None)
                return boolv(op == 'IsNot').with_(taint=t)
            okl, pl = pyconst(l)
            okr, pr = pyconst(r)
            if okl and okr:
                return boolv((pl == pr and type(pl) is type(pr)) == (op == 'Is')).with_(taint=t)
            return B(None)
        if op in ('In', 'NotIn'):
            return self.contains(l, r, op == 'NotIn', node, st)
        if isinstance(l, Arr) and isinstance(r, Arr):
            self.record_compare(op, l, r, node, st)
            f = {'Eq': lambda x, y: fn('eq', x, y), 'NotEq': lambda x, y: fn('ne', x, y),
                 'Lt': lambda x, y: fn('lt', x, y), 'Gt': lambda x, y: fn('lt', y, x),
                 'LtE': lambda x, y: fn('le', x, y), 'GtE': lambda x, y: fn('le', y, x)}[op]
            try:
                x = elementwise(f, 'b', l, r)
            except ShapeError as e:
                if op in ('Eq', 'NotEq'):
                    return B(None)
                self.shape_err(e, node, st)
            return x
        if op in ('Eq', 'NotEq') and isinstance(l, Ref):
            rec = I.rec(l, st)
            if isinstance(rec, ObjRec) and rec.cls == 'strarr':
                okr, pr = pyconst(r)
                out = []
                for x in rec.attrs['items'].items:
                    ok, px = pyconst(x)
                    if ok and okr:
                        out.append(ONE if (px == pr) == (op == 'Eq') else ZERO)
                    elif okr and isinstance(x, StrT) and isinstance(pr, str) and any(c.isalpha() for c in pr.replace('e', '')):
                        out.append(ZERO if op == 'Eq' else ONE)      # a number is not a keyword
                    else:
                        return B(None)
                ax = newax(len(out))
                return B(A.P(lab(ax[0]), out), (ax,))
        okl, pl = pyconst(l)
        okr, pr = pyconst(r)
        if okl and okr:
            try:
                v = {'Eq': lambda: pl == pr, 'NotEq': lambda: pl != pr, 'Lt': lambda: pl < pr, 'Gt': lambda: pl > pr,
                     'LtE': lambda: pl <= pr, 'GtE': lambda: pl >= pr}[op]()
                return boolv(bool(v)).with_(taint=t)
            except TypeError:
                I.error('TypeError', 'unorderable types', node, st)
        if isinstance(l, Arr) and self.is_listlike(r, st) or isinstance(r, Arr) and self.is_listlike(l, st):
            x, y = self.as_arr(l, st), self.as_arr(r, st)
            if x is not None and y is not None:
                return self.compare(op, x, y, node, st)
        if op in ('Eq', 'NotEq') and (self.is_str(l) and isinstance(r, (Arr,)) or self.is_str(r) and isinstance(l, Arr)
                                      or isinstance(l, Const) and l.v is None and isinstance(r, (Arr, StrT))
                                      or isinstance(r, Const) and r.v is None and isinstance(l, (Arr, StrT))):
            a = l if isinstance(l, Arr) else r if isinstance(r, Arr) else None
            if a is None or not a.axes:
                return boolv(op == 'NotEq').with_(taint=t)
        if op not in ('Eq', 'NotEq') and (isinstance(l, Const) and l.v is None or isinstance(r, Const) and r.v is None) \
                and isinstance(l, (Arr, Const, StrT)) and isinstance(r, (Arr, Const, StrT)):
            I.error('TypeError', "'%s' not supported with NoneType" % op, node, st)
        if isinstance(l, StrT) or isinstance(r, StrT):
            # symbolic strings with a declared set of alternatives keep a stable condition
            k = self.strkey(l), self.strkey(r)
            if op in ('Eq', 'NotEq') and (okl and pl == '' and nonempty(r) or okr and pr == '' and nonempty(l)):
                return boolv(op == 'NotEq').with_(taint=t)
            if op in ('Eq', 'NotEq') and (okr and isinstance(pr, str) and cannot_be(l, pr) or okl and isinstance(pl, str) and cannot_be(r, pl)):
                return boolv(op == 'NotEq').with_(taint=t)
            if k[0] and k[1] and op in ('Eq', 'NotEq'):
                f = sym('streq:%s=%s' % k)
                META['streq:%s=%s' % k] = dict(real=True, int=True, bool=True)
                return B(f if op == 'Eq' else fn('not', f))
        return B(None)

    def strkey(self, v):
        ok, p = pyconst(v)
        if ok:
            return repr(p)
        if isinstance(v, StrT):
            try:
                return repr([p if isinstance(p, str) else (p[0] if isinstance(p[0], str) else repr(p[0]), p[1:]) for p in v.parts])
            except Exception:
                return None
        return None

    def record_compare(self, op, l, r, node, st):
        self.I.event('compare', node, dict(op=op, left=l, right=r), st)

    def contains(self, l, r, neg, node, st):
        I = self.I
        t = taint_of(l) | taint_of(r)
        okl, pl = pyconst(l)
        if self.is_str(r):
            okr, pr = pyconst(r)
            if okl and okr and isinstance(pl, str):
                return boolv((pl in pr) != neg).with_(taint=t)
            if okl and isinstance(pl, str) and isinstance(r, StrT):
                if any(isinstance(p, str) and pl in p for p in r.parts):
                    return boolv(not neg).with_(taint=t)
                if pl and not (set(pl) & set('0123456789+-.eEjnaif ')) and all(
                        isinstance(p, str) or isinstance(p[0], Arr) for p in r.parts):
                    return boolv(neg).with_(taint=t)
            return Arr((), None, 'b', taint=t, py=True)
        if isinstance(r, Ref) and isinstance(I.rec(r, st), DictRec):
            d = I.rec(r, st)
            k = I.keyrepr(l)
            if any(I.keyrepr(x) == k for x, _ in d.items):
                return boolv(not neg).with_(taint=t)
            if okl and not d.unk and not d.gen and all(pyconst(x)[0] for x, _ in d.items):
                return boolv(neg).with_(taint=t)
            return Arr((), None, 'b', taint=t, py=True)
        items = I.conc_items(r, st)
        if items is not None:
            res = []
            for x in items:
                c = self.compare('Eq', l, x, node, st) if not (isinstance(l, Arr) and l.axes) else None
                if isinstance(c, Arr) and not c.axes and c.form is not None:
                    if c.form.const() == 1:
                        return boolv(not neg).with_(taint=t)
                    res.append(c.form)
                else:
                    return Arr((), None, 'b', taint=t, py=True)
            f = ZERO if not res else (fn('or', *res) if len(res) > 1 else res[0])
            return Arr((), fn('not', f) if neg else f, 'b', taint=t, py=True)
        seq = self.to_seq(r, st, node)
        if seq is not None and seq.get is not None and isinstance(l, Arr) and not l.axes and l.form is not None:
            nl, n = newax(seq.length)
            e = seq.get(lab(nl))
            if isinstance(e, Arr) and not e.axes and e.form is not None:
                f = binder('any', (nl,), fn('eq', l.form, e.form), ())
                return Arr((), fn('not', f) if neg else f, 'b', taint=t, py=True)
        return Arr((), None, 'b', taint=t, py=True)

    def bool_and(self, a, b):
        if isinstance(a, Arr) and isinstance(b, Arr) and a.form is not None and b.form is not None:
            if not a.axes and not b.axes:
                return Arr((), fn('and', a.form, b.form), 'b', taint=a.taint | b.taint, py=True)
        return Arr((), None, 'b', taint=taint_of(a) | taint_of(b), py=True)

    # ------------------------------------------------------------ sequences
    def to_seq(self, v, st, node=None):
        I = self.I
        if isinstance(v, Seq):
            return v
        if isinstance(v, Tup):
            return Seq(conc=list(v.items), taint=taint_of(v))
        if isinstance(v, Arr):
            if not v.axes:
                return None
            l, n = v.axes[0]
            return Seq(length=n, get=lambda f: I.bindv_view(v, A.take_axis(v, 0, f), st), taint=v.taint)
        if isinstance(v, Ref):
            r = I.rec(v, st)
            if isinstance(r, ListRec):
                if r.unk:
                    return None
                n = self.list_len(v, st)
                if n is None:
                    return None
                return Seq(length=n, get=lambda f: self.list_get(v, f, st), taint=v.taint, unordered=(r.kind == 'set'))
            if isinstance(r, DictRec):
                if not r.unk and not r.gen:
                    return Seq(conc=[k for k, _ in r.items])
                if not r.unk and len(r.gen) == 1 and not r.items:
                    l, n, k, x = r.gen[0]
                    return Seq(length=n, get=lambda f: val_subst(k, {l: f}))
                return None
            if isinstance(r, IterRec):
                if r.unk or r.pos is not None:
                    return None
                if all(not isinstance(s, tuple) for s in r.segs):
                    return Seq(conc=[val_subst(s, dict(v.sub)) for s in r.segs], itref=v.addr)
                if len(r.segs) == 1 and r.segs[0][0] == 'gen':
                    _, l, n, e = r.segs[0]
                    return Seq(length=n, get=lambda f: val_subst(val_subst(I.loadv(e, st), {l: f}), dict(v.sub)), itref=v.addr)
                return None
            if isinstance(r, FileRec):
                return self.file_seq(v, r, st)
        ok, p = pyconst(v)
        if ok and isinstance(p, str):
            return Seq(conc=[Const(c) for c in p])
        return None

    def list_len(self, v, st):
        r = self.I.rec(v, st)
        if r.unk:
            return None
        n = ZERO
        for s in r.segs:
            if isinstance(s, tuple) and s[0] == 'gen':
                n = n + s[2]
            elif isinstance(s, tuple) and s[0] == 'cond':
                n = n + fn('bool', s[1])
            else:
                n = n + ONE
        return n.subst(dict(v.sub)) if v.sub else n

    def list_get(self, v, f, st):
        """element of a list at index form f"""
        I = self.I
        r = I.rec(v, st)
        m = dict(v.sub)
        if r.unk:
            return Unknown(why='list')
        segs = r.segs
        c = f.int_const()
        if c is not None and c < 0:
            n = self.list_len(v, st)
            if n is None:
                return Unknown(why='neg index')
            cn = n.int_const()
            if cn is not None:
                c += cn
                f = const(c)
                if c < 0:
                    return None
            else:
                # from the end
                off = -c
                if segs and not isinstance(segs[-1], tuple):
                    k = 0
                    for s in reversed(segs):
                        if isinstance(s, tuple):
                            break
                        k += 1
                        if k == off:
                            return val_subst(I.loadv(s, st), m)
                f = n + f
        off = ZERO
        for s in segs:
            rest = f - off
            if isinstance(s, tuple) and s[0] == 'gen':
                if len(segs) == 1 or self.in_range(rest, s[2]):
                    return val_subst(val_subst(I.loadv(s[3], st), {s[1]: rest}), m)
                off = off + s[2]
            elif isinstance(s, tuple):
                return Unknown(why='cond element')
            else:
                k = rest.int_const()
                if k == 0:
                    return val_subst(I.loadv(s, st), m)
                off = off + ONE
        if c is not None and all(not isinstance(s, tuple) for s in segs):
            return None
        # symbolic index into a list of concrete numbers
        if all(not isinstance(s, tuple) for s in segs) and segs:
            vals = [val_subst(I.loadv(s, st), m) for s in segs]
            return self.pick(vals, f, st)
        vals = [I.loadv(s[3] if isinstance(s, tuple) else s, st) for s in segs]
        if segs and not m and all(isinstance(x, Arr) and not x.axes and x.form is not None for x in vals) and all(not isinstance(s, tuple) or s[0] == 'gen' for s in segs):
            x = self.as_arr(I.newlist(segs, st), st)
            if x is not None and x.form is not None and x.ndim == 1:
                return A.take_axis(x, 0, f).with_(py=True)
        return Unknown(why='list index')

    def pick(self, vals, f, st):
        if all(isinstance(x, Arr) for x in vals):
            r = A.stack_vals(vals) if len({x.ndim for x in vals}) == 1 else None
            if r is not None:
                return A.take_axis(r, 0, f).with_(py=not r.axes[1:])
        if all(isinstance(x, Tup) and len(x.items) == len(vals[0].items) for x in vals) and isinstance(vals[0], Tup):
            return Tup([self.pick([x.items[i] for x in vals], f, st) for i in range(len(vals[0].items))])
        if all(self.is_str(x) for x in vals):
            return StrT([('phi', [self.sparts(x) for x in vals], f)])
        if len(vals) == 1:
            return vals[0]
        return Unknown(union_taint(*vals), 'pick')

    @staticmethod
    def in_range(f, n):
        from .forms import _fits
        return _fits(f, n)

    # ------------------------------------------------------------ indexing
    def getitem(self, v, idx, node, st):
        I = self.I
        if isinstance(v, Arr):
            try:
                return self.index(v, idx, node, st)
            except ShapeError as e:
                I.error('IndexError', str(e), node, st)
        if isinstance(v, Ref):
            r = I.rec(v, st)
            if isinstance(r, ListRec):
                return self.list_index(v, r, idx, node, st)
            if isinstance(r, DictRec):
                key = key_of(idx)
                return self.dict_get(v, r, key, node, st)
            if isinstance(r, ObjRec):
                if isinstance(r.cls, Class):
                    m = r.cls.lookup('__getitem__')
                    if m is not None:
                        return I.call(Bound(m, v), [key_of(idx)], {}, node, st)
                    if r.cls.closed():
                        I.error('TypeError', "'%s' object is not subscriptable" % r.cls.name, node, st)
                return self.obj_getitem(v, r, idx, node, st)
            return Unknown(v.taint, 'getitem')
        if isinstance(v, Tup):
            i = idx[0]
            if isinstance(i, Slice):
                b = A.slice_bounds(i, const(len(v.items)))
                if b and b[0].int_const() is not None and b[1].int_const() is not None:
                    return Tup([v.items[b[0].int_const() + k * b[2]] for k in range(b[1].int_const())])
                return Unknown(taint_of(v), 'tuple slice')
            if isinstance(i, Arr) and not i.axes and i.form is not None:
                c = i.form.int_const()
                if c is not None:
                    if -len(v.items) <= c < len(v.items):
                        return v.items[c]
                    I.error('IndexError', 'tuple index out of range', node, st)
                return self.pick(v.items, i.form, st) if v.items else Unknown()
            return Unknown(taint_of(v), 'tuple index')
        if isinstance(v, Const) and isinstance(v.v, (str, bytes)) or isinstance(v, StrT):
            return self.str_index(v, idx[0], node, st)
        if isinstance(v, Const) and v.v is None:
            I.error('TypeError', "'NoneType' object is not subscriptable", node, st)
        if isinstance(v, Seq):
            i = idx[0]
            if isinstance(i, Arr) and not i.axes and i.form is not None:
                if v.conc is not None:
                    return I.seq_get(v, i.form, st)
                if v.get:
                    f = i.form
                    c = f.int_const()
                    if c is not None and c < 0:
                        f = v.length + f
                    return v.get(f)
        if isinstance(v, (Builtin, Func, Bound)):
            if isinstance(v, Builtin) and v.name.endswith('physical_constants'):
                ok, p = pyconst(idx[0])
                from .lib_np import PHYS
                if ok and p in PHYS:
                    return Tup([num(PHYS[p]), Const('unit'), num(0.0)])
                return Unknown(why='constant')
            if isinstance(v, (Func, Bound)):
                I.error('TypeError', "function is not subscriptable", node, st)
        return Unknown(union_taint(v, *idx), 'getitem')

    def list_index(self, v, r, idx, node, st):
        I = self.I
        i = idx[0]
        if len(idx) > 1:
            I.error('TypeError', 'list indices must be integers or slices, not tuple', node, st)
        if isinstance(i, Slice):
            return self.list_slice(v, r, i, node, st)
        if isinstance(i, Arr):
            if i.axes:
                if not r.unk:
                    I.error('TypeError', 'list indices must be integers, not an array', node, st)
                return Unknown(taint_of(v) | i.taint)
            if i.form is None:
                seq = self.to_seq(v, st)
                return Unknown(taint_of(v) | i.taint, 'list index ?')
            if i.dtype == 'f' and i.py and i.form.const() is not None:
                I.error('TypeError', 'list indices must be integers, not float', node, st)
            x = self.list_get(v, i.form, st)
            if x is None:
                I.error('IndexError', 'list index out of range', node, st)
            if i.taint and isinstance(x, (Arr,)):
                x2 = x.with_(taint=x.taint | i.taint)
                x2.cell = None
                return x2 if x.py else x
            return x
        if self.is_str(i):
            I.error('TypeError', 'list indices must be integers or slices, not str', node, st)
        return Unknown(union_taint(v, i), 'list index')

    def list_slice(self, v, r, s, node, st):
        I = self.I
        if r.unk:
            return I.alloc(ListRec([], True), st)
        n = self.list_len(v, st)
        b = A.slice_bounds(s, n)
        segs = self.segs_of(v, st)
        if b is None:
            return I.alloc(ListRec([], True), st)
        lo, ln, step = b
        if all(not isinstance(x, tuple) for x in segs):
            cl, cn = lo.int_const(), ln.int_const()
            if cl is not None and cn is not None:
                return I.alloc(ListRec([segs[cl + k * step] for k in range(cn)]), st)
            return I.alloc(ListRec(segs, True), st)
        # prefix of concrete items dropped?
        cl = lo.int_const()
        if step == 1 and cl is not None and lo + ln == n:
            out = []
            k = cl
            for q, x in enumerate(segs):
                if k > 0:
                    if not isinstance(x, tuple):
                        k -= 1
                        continue
                    if x[0] == 'gen':
                        nl, nn = newax(x[2] - const(k))
                        out.append(('gen', nl, nn, val_subst(x[3], {x[1]: lab(nl) + const(k)})))
                        k = 0
                        continue
                    return I.alloc(ListRec(segs, True), st)
                out.append(x)
            return I.alloc(ListRec(out), st)
        if len(segs) == 1 and segs[0][0] == 'gen':
            x = segs[0]
            nl, nn = newax(ln)
            e = val_subst(I.loadv(x[3], st), {x[1]: lo + lab(nl).scale(step)})
            return I.alloc(ListRec([('gen', nl, nn, e)]), st)
        # general: element via list_get on a generic index
        cn = ln.int_const()
        if cn is not None and cn <= 24:
            out = []
            for k in range(cn):
                e = self.list_get(v, lo + const(k * step), st)
                out.append(e if e is not None else Unknown(why='slice'))
            return I.alloc(ListRec(out), st)
        nl, nn = newax(ln)
        e = self.list_get(v, lo + lab(nl).scale(step), st)
        if e is None or isinstance(e, Unknown):
            return I.alloc(ListRec(segs, True), st)
        return I.alloc(ListRec([('gen', nl, nn, e)]), st)

    def dict_get(self, v, r, key, node, st, default=None, has_default=False):
        I = self.I
        k = I.keyrepr(key)
        m = dict(v.sub)
        for x, y in r.items:
            if I.keyrepr(x) == k:
                return val_subst(I.loadv(y, st), m)
        ok, p = pyconst(key)
        for l, n, gk, gv in r.gen:
            # unify generic key with the requested one
            if isinstance(gk, Arr) and gk.form is not None and isinstance(key, Arr) and key.form is not None:
                gl = gk.form - lab(l)
                if l not in gl.labels():
                    return val_subst(val_subst(I.loadv(gv, st), {l: key.form - gl}), m)
            if isinstance(gk, Tup) and isinstance(key, Tup):
                continue
        if ok and not r.unk and not r.gen and all(pyconst(x)[0] for x, _ in r.items):
            if has_default:
                return default
            I.error('KeyError', 'key %r not in dict' % (p,), node, st)
        if has_default and not r.items and not r.gen and not r.unk:
            return default
        if r.items and not r.gen and not r.unk:
            ts = union_taint(*[y for _, y in r.items])
            return Unknown(ts | taint_of(key), 'dict value')
        return Unknown(union_taint(v, key), 'dict value')

    def index(self, a, idx, node, st):
        """numpy indexing"""
        idx = list(idx)
        # expand lists to arrays
        out = []
        for i in idx:
            if isinstance(i, Ref) or isinstance(i, Tup):
                x = self.as_arr(i, st)
                if x is None:
                    return Unknown(a.taint | taint_of(i), 'fancy index')
                out.append(x)
            else:
                out.append(i)
        idx = out
        n_used = 0
        for i in idx:
            if isinstance(i, Const) and (i.v is None or i.v is Ellipsis):
                continue
            if isinstance(i, Arr) and i.dtype == 'b' and i.axes:
                n_used += i.ndim
            else:
                n_used += 1
        if n_used > a.ndim:
            self.I.error('IndexError', 'too many indices for array: %d-dimensional, %d indexed' % (a.ndim, n_used), node, st)
        if not any(isinstance(i, Const) and i.v is Ellipsis for i in idx):
            idx.append(Const(Ellipsis))
        a0 = a
        taint = a.taint
        axes = list(a.axes)
        f = a.form
        pos = 0
        newaxes = []
        sub = {}
        advanced = []     # (position in newaxes, axis, Arr)
        basic = True
        bad = False
        fancy_done = None
        for q, i in enumerate(idx):
            if isinstance(i, Const) and i.v is Ellipsis:
                rest = 0
                for j in idx[q + 1:]:
                    if isinstance(j, Const) and j.v is None:
                        continue
                    rest += j.ndim if isinstance(j, Arr) and j.dtype == 'b' and j.axes else 1
                while pos < len(axes) - rest:
                    newaxes.append(axes[pos])
                    pos += 1
                continue
            if isinstance(i, Const) and i.v is None:
                newaxes.append(newax(1))
                continue
            if isinstance(i, Slice):
                l, n = axes[pos]
                pos += 1
                for x in (i.lo, i.hi, i.step):
                    if x is not None:
                        taint = taint | taint_of(x)
                if i.lo is None and i.hi is None and i.step is None:
                    newaxes.append((l, n))
                    continue
                b = A.slice_bounds(i, n)
                if b is None:
                    nl, nn = newax(sym('len?%d' % self.I.nfresh()))
                    newaxes.append((nl, nn))
                    bad = True
                    continue
                lo, ln, step = b
                nl, nn = newax(ln)
                newaxes.append((nl, nn))
                sub[l] = lo + lab(nl).scale(step)
                continue
            if isinstance(i, Arr) and i.axes:
                basic = False
                taint = taint | i.taint
                if i.dtype == 'b':
                    if i.ndim > 1:
                        ls = axes[pos:pos + i.ndim]
                        pos += i.ndim
                        nl, nn = newax(sym('nmask?%d' % self.I.nfresh()))
                        newaxes.append((nl, nn))
                        bad = True
                        continue
                    l, n = axes[pos]
                    pos += 1
                    ix = self.mask_index(i, n)
                    if ix is None:
                        newaxes.append(newax(sym('nmask?%d' % self.I.nfresh())))
                        bad = True
                        continue
                    advanced.append((len(newaxes), l, ix))
                else:
                    l, n = axes[pos]
                    pos += 1
                    advanced.append((len(newaxes), l, i))
                newaxes.append(None)
                continue
            if isinstance(i, Arr):
                if i.dtype == 'b':
                    return Unknown(taint | i.taint, 'bool index')
                l, n = axes[pos]
                pos += 1
                taint = taint | i.taint
                if i.form is None:
                    bad = True
                    continue
                c = i.form.int_const()
                cn = n.int_const()
                ff = i.form
                if c is not None:
                    if cn is not None and not (-cn <= c < cn):
                        raise ShapeError('index %d is out of bounds for axis of size %d' % (c, cn))
                    if c < 0:
                        ff = n + i.form
                elif i.form.terms and neg_lead(i.form):
                    ff = n + i.form
                sub[l] = ff
                continue
            if self.is_str(i):
                return Unknown(taint, 'str index')
            # unknown index
            bad = True
            pos += 1
            taint = taint | taint_of(i)
            if isinstance(i, Unknown):
                return Unknown(taint, 'unknown index')
        if advanced:
            # all advanced indices broadcast together; result axes replace the first (if adjacent)
            if len(advanced) == 1:
                p0, l, ix = advanced[0]
                ix = A.relabel(ix)
                sub[l] = ix.form
                res = list(ix.axes)
                newaxes[p0:p0 + 1] = res
                if ix.form is None:
                    bad = True
            else:
                baxes, forms = A.broadcast([x for _, _, x in advanced])
                for (p0, l, _), g in zip(advanced, forms):
                    sub[l] = g
                    if g is None:
                        bad = True
                ps = [p for p, _, _ in advanced]
                adj = all(ps[k] + 1 == ps[k + 1] for k in range(len(ps) - 1))
                first = ps[0] if adj else 0
                keep = [x for x in newaxes if x is not None]
                before = [x for x in newaxes[:ps[0]] if x is not None] if adj else []
                after = [x for x in newaxes if x is not None][len(before):]
                newaxes = before + list(baxes) + after
        if f is not None and not bad:
            try:
                f = f.subst(sub) if sub else f
            except Top:
                f = None
        else:
            f = None
        roots = NOTAINT
        if basic and newaxes:
            roots = a.roots
            if a.cell is not None:
                roots = roots | frozenset([('cell', a.cell)])
        r = Arr(tuple(newaxes), f, a.dtype, roots, taint, py=not newaxes)
        return r

    def mask_index(self, m, n):
        """index array selected by a 1-D boolean array"""
        m = A.relabel(m)
        l, ln = m.axes[0]
        if m.form is None:
            return None
        c = ln.int_const()
        if c is not None and c <= 24 and all(closed(m.form.subst({l: const(k)})) is not None for k in range(c)):
            sel = [k for k in range(c) if closed(m.form.subst({l: const(k)})) != 0]
            nl, nn = newax(len(sel))
            return Arr(((nl, nn),), P(lab(nl), [const(k) for k in sel]) if sel else ZERO, 'i')
        k = new_label()
        LABLEN[k] = ln
        cnt = binder('count', (k,), m.form.subst({l: lab(k)}), ())
        nl, nn = newax(cnt)
        k2 = new_label()
        LABLEN[k2] = ln
        return Arr(((nl, nn),), binder('where', (k2,), m.form.subst({l: lab(k2)}), (lab(nl),)), 'i', taint=m.taint)

    # ------------------------------------------------------------ stores
    def store(self, base, idx, v, target, st, node):
        I = self.I
        if isinstance(base, Ref):
            r = I.rec(base, st)
            if isinstance(r, DictRec):
                key = key_of(idx)
                k = I.keyrepr(key)
                items = []
                hit = False
                for x, y in r.items:
                    if I.keyrepr(x) == k:
                        items.append((x, I.bindv(v, st)))
                        hit = True
                    else:
                        items.append((x, y))
                if not hit:
                    items.append((key, I.bindv(v, st)))
                st.heap[base.addr] = DictRec(items, r.gen, r.unk is True or isinstance(key, Unknown), r.maybe)
                if r.items is not None:
                    I.event('dictset', node, dict(key=key, value=v, addr=base.addr), st)
                return
            if isinstance(r, ListRec):
                if getattr(r, 'root', None):
                    pass
                i = idx[0]
                if isinstance(i, Arr) and not i.axes and i.form is not None and not r.unk:
                    segs = list(r.segs)
                    c = i.form.int_const()
                    if c is not None and all(not isinstance(s, tuple) for s in segs):
                        if not -len(segs) <= c < len(segs):
                            I.error('IndexError', 'list assignment index out of range', node, st)
                        segs[c] = I.bindv(v, st)
                        st.heap[base.addr] = ListRec(segs, False, r.kind)
                        return
                    if len(segs) == 1 and isinstance(segs[0], tuple) and segs[0][0] == 'gen':
                        _, l, n, e = segs[0]
                        old = I.loadv(e, st)
                        if isinstance(old, Arr) and isinstance(v, Arr) and old.ndim == v.ndim and old.form is not None and v.form is not None:
                            m = {l2: lab(l1) for (l1, _), (l2, _) in zip(old.axes, v.axes)}
                            f = fn('upd', lab(l), i.form, v.form.subst(m), old.form)
                            nv = Arr(old.axes, f, v.dtype, taint=old.taint | v.taint, py=old.py)
                            st.heap[base.addr] = ListRec([('gen', l, n, I.bindv(nv, st))], False, r.kind)
                            return
                st.heap[base.addr] = ListRec(r.segs, True, r.kind)
                return
            if isinstance(r, ObjRec) and isinstance(r.cls, Class):
                m = r.cls.lookup('__setitem__')
                if m is not None:
                    I.call(Bound(m, base), [key_of(idx), v], {}, node, st)
                return
            return
        if isinstance(base, Arr):
            cur = base
            try:
                nv = self.arr_store(cur, idx, v, st, node)
            except ShapeError as e:
                self.shape_err(e, node, st)
            self.write_back(target.value if isinstance(target, ast.Subscript) else None, base, nv, st, node)
            return
        if isinstance(base, Tup):
            I.error('TypeError', "'tuple' object does not support item assignment", node, st)
        if isinstance(base, Const) and base.v is None:
            I.error('TypeError', "'NoneType' object does not support item assignment", node, st)

    def write_back(self, tgt, base, nv, st, node):
        """make the modified array visible through the expression it was reached by"""
        I = self.I
        if base.cell is not None:
            nv = nv.with_(roots=base.roots)
            nv.cell = base.cell
            st.heap[base.cell] = nv
            if isinstance(tgt, ast.Attribute):
                o = I.ev(tgt.value, st)
                I.attr_event(o, tgt.attr, nv, st, node)
            return
        if isinstance(tgt, ast.Subscript):
            outer = I.ev(tgt.value, st)
            I.store_sub(outer, tgt, nv, st, node)
        elif isinstance(tgt, (ast.Name, ast.Attribute)):
            I.assign(tgt, nv, st, node)

    def arr_store(self, a, idx, v, st, node):
        r = self.arr_store1(a, idx, v, st, node)
        if r.form is None and a.form is not None:
            # only the addressed row (constant index on a short axis) becomes unknown
            for q, i in enumerate(idx):
                if isinstance(i, Const):
                    break
                if not isinstance(i, Arr) or i.axes or i.form is None or q >= a.ndim:
                    continue
                l, n = a.axes[q]
                c, nc = i.form.int_const(), n.int_const()
                if c is not None and nc is not None and nc <= 24 and -nc <= c < nc:
                    comps = [a.form.subst({l: const(p)}) for p in range(nc)]
                    comps[c] = self.I.top(a.dtype, *[lab(x) for x, _ in a.axes if x != l])
                    return r.with_(form=P(lab(l), comps))
        return r

    def arr_store1(self, a, idx, v, st, node):
        x = self.as_arr(v, st, a.dtype if a.dtype in 'fic' else None)
        if x is None:
            return a.with_(form=None, taint=a.taint | taint_of(v) | union_taint(*idx))
        dt = a.dtype
        taint = a.taint | x.taint | union_taint(*[i for i in idx])
        if RANKS.get(x.dtype, 0) > RANKS.get(a.dtype, 9) and a.dtype in ('f', 'i') and x.dtype == 'c':
            self.I.event('cast', node, dict(frm=x.dtype, to=a.dtype), st)
        idx = list(idx)
        for q, i in enumerate(idx):
            if isinstance(i, (Ref, Tup)):
                y = self.as_arr(i, st)
                if y is None:
                    return a.with_(form=None, taint=taint)
                idx[q] = y
        n_used = sum(1 for i in idx if not (isinstance(i, Const)))
        if n_used > a.ndim:
            self.I.error('IndexError', 'too many indices for array', node, st)
        # expand ellipsis
        if any(isinstance(i, Const) and i.v is Ellipsis for i in idx):
            q = [k for k, i in enumerate(idx) if isinstance(i, Const) and i.v is Ellipsis][0]
            idx[q:q + 1] = [Slice(None, None, None)] * (a.ndim - n_used)
        if any(isinstance(i, Const) and i.v is None for i in idx):
            return a.with_(form=None, taint=taint)
        if len(idx) == 1 and isinstance(idx[0], Arr) and idx[0].dtype == 'b' and idx[0].ndim == a.ndim and a.ndim >= 1:
            # a[mask] = scalar
            m = A.relabel(idx[0])
            if not x.axes and m.form is not None and a.form is not None and x.form is not None:
                sb = {l2: lab(l1) for (l1, _), (l2, _) in zip(a.axes, m.axes)}
                return a.with_(form=fn('ite', m.form.subst(sb), x.form, a.form), taint=taint, dtype=dt)
            return a.with_(form=None, taint=taint)
        while len(idx) < a.ndim:
            idx.append(Slice(None, None, None))
        x = A.relabel(x)
        if a.form is None or x.form is None:
            # still check that nothing is obviously wrong; the result is unknown
            return a.with_(form=None, taint=taint)
        # axes of the indexed region
        region = []
        for i, (l, n) in zip(idx, a.axes):
            if isinstance(i, Slice):
                b = A.slice_bounds(i, n)
                if b is None:
                    return a.with_(form=None, taint=taint)
                region.append((l, n, i, b))
            elif isinstance(i, Arr) and i.axes:
                return self.fancy_store(a, idx, x, st, node, taint)
        # broadcast x to the region
        nr = len(region)
        xf = x.form
        xa = list(x.axes)
        while len(xa) > nr and xa[0][1].int_const() == 1:
            xf = xf.subst({xa[0][0]: ZERO})
            xa = xa[1:]
        if len(xa) > nr:
            raise ShapeError('could not broadcast input array into the indexed shape')
        xs = [None] * (nr - len(xa)) + xa
        valuemap = {}
        for (l, n, i, b), ax in zip(region, xs):
            if ax is None:
                continue
            if ax[1].int_const() == 1 and b[1].int_const() != 1:
                xf = xf.subst({ax[0]: ZERO})
            else:
                if A.lens_conflict(ax[1], b[1]):
                    raise ShapeError('could not broadcast input array from length %s into %s' % (ax[1], b[1]))
                valuemap[l] = ax[0]
        # rename value axes to target positions: position p in axis l corresponds to index (p-lo)/step
        m = {}
        for (l, n, i, b) in region:
            if l in valuemap:
                lo, ln, step = b
                if step == 1:
                    m[valuemap[l]] = lab(l) - lo
                elif lo.int_const() is not None and ln.int_const() is not None and n.int_const() is not None:
                    m[valuemap[l]] = ('strided', lo.int_const(), step)
                else:
                    m[valuemap[l]] = ('gstrided', lo, step)

        def rec(k, old, val):
            """old, val: forms; axes k.. still to be processed"""
            if k == a.ndim:
                return val
            l, n = a.axes[k]
            i = idx[k]
            if isinstance(i, Slice):
                b = A.slice_bounds(i, n)
                lo, ln, step = b
                vl = valuemap.get(l)
                if step == 1 and lo.int_const() == 0 and ln == n:
                    return rec(k + 1, old, val.subst({vl: lab(l)}) if vl is not None else val)
                nc = n.int_const()
                cl, cn = lo.int_const(), ln.int_const()
                if nc is not None and nc <= 24 and cl is not None and cn is not None:
                    comps = []
                    pos = {cl + q * step: q for q in range(cn)}
                    for p in range(nc):
                        o = old.subst({l: const(p)})
                        if p in pos:
                            comps.append(rec(k + 1, o, val.subst({vl: const(pos[p])}) if vl is not None else val))
                        else:
                            comps.append(o)
                    return P(lab(l), comps)
                if step == 1:
                    segs = []
                    l1, n1 = newax(lo)
                    l2, n2 = newax(ln)
                    l3, n3 = newax(n - lo - ln)
                    segs.append((n1, l1, old.subst({l: lab(l1)})))
                    segs.append((n2, l2, rec(k + 1, old.subst({l: lo + lab(l2)}), val.subst({vl: lab(l2)}) if vl is not None else val)))
                    segs.append((n3, l3, old.subst({l: lo + ln + lab(l3)})))
                    return C(lab(l), segs)
                if lo.int_const() is not None and step > 1 and 0 <= lo.int_const() < step:
                    # strided store a[lo::step]
                    q = fn('floordiv', lab(l), const(step))
                    r = fn('mod', lab(l), const(step))
                    comps = []
                    for p in range(step):
                        if p == lo.int_const():
                            comps.append(rec(k + 1, old, val.subst({vl: q}) if vl is not None else val))
                        else:
                            comps.append(old)
                    return P(r, comps)
                raise Top()
            # integer
            if not isinstance(i, Arr) or i.form is None:
                raise Top()
            f = i.form
            c = f.int_const()
            nc = n.int_const()
            if c is not None and nc is not None and not -nc <= c < nc:
                raise ShapeError('index %d is out of bounds for axis of size %d' % (c, nc))
            if c is not None and c < 0:
                f = n + f
                c = f.int_const()
            if c is not None and nc is not None and nc <= 24:
                comps = [old.subst({l: const(p)}) for p in range(nc)]
                comps[c] = rec(k + 1, comps[c], val)
                return P(lab(l), comps)
            return fn('upd', lab(l), f, rec(k + 1, old.subst({l: f}), val), old)
        # value axes keep their own labels until substituted
        vm2 = {}
        for l, vl in valuemap.items():
            nl = new_label()
            LABLEN[nl] = LABLEN.get(vl, ONE)
        try:
            f = rec(0, a.form, xf)
        except Top:
            f = None
        return a.with_(form=f, taint=taint, dtype=dt)

    def fancy_store(self, a, idx, x, st, node, taint):
        # a[intarray] = value along one axis
        adv = [k for k, i in enumerate(idx) if isinstance(i, Arr) and i.axes]
        if len(adv) == 1 and adv[0] == 0 and idx[0].ndim == 1 and idx[0].dtype != 'b' and idx[0].form is not None and \
                all(isinstance(i, Slice) and i.lo is None and i.hi is None and i.step is None for i in idx[1:]):
            l, n = a.axes[0]
            ix = A.relabel(idx[0])
            k, kn = ix.axes[0]
            nc = kn.int_const()
            # scatter: for p in range(kn): a[ix[p]] = x[p]
            xf = x.form
            xa = list(x.axes)
            if len(xa) > a.ndim:
                return a.with_(form=None, taint=taint)
            m = {}
            for (la, na), (lx, nx) in zip(a.axes[::-1], xa[::-1]):
                if la == l:
                    m[lx] = lab(k) if nx.int_const() != 1 or nc == 1 else ZERO
                else:
                    m[lx] = lab(la) if nx.int_const() != 1 else ZERO
            xf = xf.subst(m)
            if nc is not None and nc <= 12:
                f = a.form
                for p in range(nc):
                    f = fn('upd', lab(l), ix.form.subst({k: const(p)}), xf.subst({k: const(p)}), f)
                return a.with_(form=f, taint=taint)
            nk = new_label()
            LABLEN[nk] = kn
            f = binder('scatter', (nk,), fn('pair', ix.form.subst({k: lab(nk)}), xf.subst({k: lab(nk)}), a.form), (lab(l),))
            return a.with_(form=f, taint=taint)
        return a.with_(form=None, taint=taint)

    def delitem(self, base, idx, st, node):
        I = self.I
        if isinstance(base, Ref):
            r = I.rec(base, st)
            if isinstance(r, DictRec):
                key = key_of(idx)
                k = I.keyrepr(key)
                st.heap[base.addr] = DictRec([(x, y) for x, y in r.items if I.keyrepr(x) != k], r.gen, r.unk)
                return
            if isinstance(r, ListRec):
                i = idx[0]
                c = scalar_form(i).int_const() if isinstance(i, Arr) and scalar_form(i) is not None else None
                if c is not None and not r.unk and all(not isinstance(s, tuple) for s in r.segs) and -len(r.segs) <= c < len(r.segs):
                    segs = list(r.segs)
                    del segs[c]
                    st.heap[base.addr] = ListRec(segs, False, r.kind)
                else:
                    st.heap[base.addr] = ListRec(r.segs, True, r.kind)

    def list_extend(self, ref, rhs, node, st):
        I = self.I
        r = I.rec(ref, st)
        items = I.conc_items(rhs, st)
        if items is not None:
            st.heap[ref.addr] = ListRec(r.segs + [I.bindv(x, st) for x in items], r.unk, r.kind)
            return
        if isinstance(rhs, Ref) and isinstance(I.rec(rhs, st), ListRec):
            q = I.rec(rhs, st)
            st.heap[ref.addr] = ListRec(r.segs + self.segs_of(rhs, st), r.unk or q.unk, r.kind)
            return
        if isinstance(rhs, Const) and rhs.v is None:
            I.error('TypeError', "'NoneType' object is not iterable", node, st)
        seq = self.to_seq(rhs, st, node)
        if seq is not None and seq.get is not None:
            l, n = newax(seq.length)
            st.heap[ref.addr] = ListRec(r.segs + [('gen', l, n, I.bindv(seq.get(lab(l)), st))], r.unk, r.kind)
            return
        st.heap[ref.addr] = ListRec(r.segs, True, r.kind)

    def make_set(self, vals, st):
        seen = set()
        out = []
        for v in vals:
            k = self.I.keyrepr(v)
            if k not in seen:
                seen.add(k)
                out.append(v)
        if not all(pyconst(v)[0] for v in vals):
            l = new_label()
            if all(isinstance(x, Arr) and not x.axes and x.form is not None for x in out):
                v = num(fn('setel', lab(l), *[x.form for x in out]), max((x.dtype for x in out), key=lambda d: RANKS.get(d, 3))) if len(out) > 1 else out[0]
                ln = ONE if len(out) == 1 else fn('setlen', *[x.form for x in out])
                LABLEN[l] = ln
                return self.I.alloc(ListRec([('gen', l, ln, v)], False, 'set'), st)
            return self.I.alloc(ListRec(out, True, 'set'), st)
        return self.I.alloc(ListRec(out, False, 'set'), st)


RANKS = {'b': 0, 'i': 1, 'f': 2, 'c': 3}


def is_intdt(a):
    return a.dtype in ('i', 'b')


def neg_lead(f):
    """a form such as -1-n that is certainly negative (labels and lengths are non-negative)"""
    its = f.items()
    if not its:
        return False
    for c, dm, fa in its:
        if abs(c.imag) > 1e-12 or c.real > 0:
            return False
        for a, e in fa:
            if a[0] != 'L':
                return False
    return any(not fa for c, dm, fa in its)
