"""Concrete Python value of an abstract value in a model."""
from .forms import *
from .values import *
from .interp import ObjRec, DictRec, ListRec
from .evalform import Undecided, Model


def envs(M, ls, env):
    if not ls:
        yield env
        return
    (l, n), rest = ls[-1], ls[:-1]
    for i in range(M.size(n, env)):
        yield from envs(M, rest, {**env, l: i})


def pyval(M, run, v, env=None, st=None):
    env = env or {}
    st = st or run.st
    I = run.I
    v = I.loadv(v, st)
    if isinstance(v, Const):
        return v.v
    if isinstance(v, Arr):
        if v.form is None:
            raise Undecided('unknown element')
        r = M.arr(v, env)

        def conv(x):
            if isinstance(x, list):
                return [conv(y) for y in x]
            x = complex(x)
            if v.dtype == 'b':
                return bool(x.real)
            if v.dtype == 'i' and abs(x.real - round(x.real)) < 1e-9:
                return int(round(x.real))
            return x if v.dtype == 'c' else x.real if abs(x.imag) < 1e-12 else x
        return conv(r)
    if isinstance(v, StrT):
        from .checks.out import render
        return render(M, v.parts, env)
    if isinstance(v, Tup):
        return tuple(pyval(M, run, x, env, st) for x in v.items)
    if isinstance(v, Seq):
        if v.length is None or v.get is None:
            raise Undecided('sequence')
        l = new_label()
        LABLEN[l] = v.length
        e = v.get(lab(l))
        return [pyval(M, run, e, {**env, l: i}, st) for i in range(M.size(v.length, env))]
    if isinstance(v, Ref):
        r = I.rec(v, st)
        if isinstance(r, ListRec):
            if r.unk:
                raise Undecided('list not resolved')
            out = []
            sub = dict(v.sub)
            for s in r.segs:
                if isinstance(s, tuple) and s[0] == 'gen':
                    _, l, n, e = s
                    n = n.subst(sub) if sub else n
                    e = val_subst(e, {k: x for k, x in sub.items() if k != l}) if sub else e
                    for i in range(M.size(n, env)):
                        out.append(pyval(M, run, e, {**env, l: i}, st))
                elif isinstance(s, tuple) and s[0] == 'cond':
                    ok = True
                    c = s[1].subst(sub) if sub else s[1]
                    if abs(M.ev(c, env)) > 1e-12:
                        out.append(pyval(M, run, val_subst(s[2], sub) if sub else s[2], env, st))
                else:
                    out.append(pyval(M, run, val_subst(s, sub) if sub else s, env, st))
            return out
        if isinstance(r, DictRec):
            if r.unk and r.unk != 'maybe':
                raise Undecided('dict not resolved')
            out = {}
            sub = dict(v.sub)
            for k, x in r.items:
                if sub:
                    k, x = val_subst(k, sub), val_subst(x, sub)
                k = pyval(M, run, k, env, st)
                out[tuple(k) if isinstance(k, list) else k] = pyval(M, run, x, env, st)
            for l, n, k, x in r.gen:
                if sub:
                    n, k, x = n.subst(sub), val_subst(k, sub), val_subst(x, sub)
                for i in range(M.size(n, env)):
                    out[pyval(M, run, k, {**env, l: i}, st)] = pyval(M, run, x, {**env, l: i}, st)
            for ls, c, k, x in r.maybe:
                if sub:
                    c, k, x = c.subst(sub), val_subst(k, sub), val_subst(x, sub)
                for e in envs(M, ls, env):
                    if abs(M.ev(c, e)) > 1e-12:
                        out[pyval(M, run, k, e, st)] = pyval(M, run, x, e, st)
            return out
        if isinstance(r, ObjRec):
            return r
    raise Undecided('value %s' % str(v)[:60])


def diff(a, b, tol=1e-6, path=''):
    """None if equal, else a description"""
    if isinstance(b, dict):
        if not isinstance(a, dict):
            return '%s: %s instead of a dict' % (path, type(a).__name__)
        for k in b:
            if k not in a:
                return '%s: key %r is missing' % (path, k)
            d = diff(a[k], b[k], tol, '%s[%r]' % (path, k))
            if d:
                return d
        for k in a:
            if k not in b:
                return '%s: unexpected key %r' % (path, k)
        return None
    if isinstance(b, (list, tuple)):
        if not isinstance(a, (list, tuple)):
            return '%s: %s instead of a list' % (path, a)
        if len(a) != len(b):
            return '%s: %d elements instead of %d' % (path, len(a), len(b))
        for i, (x, y) in enumerate(zip(a, b)):
            d = diff(x, y, tol, '%s[%d]' % (path, i))
            if d:
                return d
        return None
    if callable(b):
        return b(a)
    if isinstance(b, (int, float, complex)) and not isinstance(b, bool):
        if not isinstance(a, (int, float, complex)):
            return '%s: %r instead of %r' % (path, a, b)
        if a != a and b != b:
            return None
        if a == b or abs(a - b) <= tol * max(1, abs(a), abs(b)):
            return None
        return '%s: %s instead of %s' % (path, a, b)
    return None if a == b else '%s: %r instead of %r' % (path, a, b)
