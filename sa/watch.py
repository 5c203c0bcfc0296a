"""What a call changes in the objects and arrays it was given."""
from .values import *
from .forms import Form


def before(run, args, kw, st, me=None):
    """give every array that is reachable from the arguments an identity; remember everything"""
    I = run.I
    names = {}

    def mark(v, name, depth=0):
        if isinstance(v, Arr):
            if v.axes and not v.py:
                if v.cell is None:
                    v = v.with_(roots=v.roots | {'given:' + name})
                    v = I.bindv(v, st)
                else:
                    w = st.heap.get(v.cell)
                    if isinstance(w, Arr) and 'given:' + name not in w.roots and not any(isinstance(r, str) for r in w.roots):
                        w = w.with_(roots=w.roots | {'given:' + name})
                        w.cell = v.cell
                        st.heap[v.cell] = w
                names.setdefault(v.cell, name)
            return v
        if isinstance(v, Tup):
            t = [mark(x, '%s[%d]' % (name, i), depth + 1) for i, x in enumerate(v.items)]
            if any(x is not y for x, y in zip(t, v.items)):
                v = Tup(t)
            return v
        if isinstance(v, Ref) and not v.sub and v.addr not in names and depth < 8:
            r = st.heap.get(v.addr)
            names[v.addr] = name
            if isinstance(r, ObjRec):
                at = {k: mark(x, '%s.%s' % (name, k), depth + 1) for k, x in r.attrs.items()}
                if any(at[k] is not r.attrs[k] for k in at):
                    st.heap[v.addr] = ObjRec(r.cls, at, r.meta)
            elif isinstance(r, ListRec):
                segs = [('gen', s[1], s[2], mark(s[3], name + '[]', depth + 1)) if isinstance(s, tuple) and s[0] == 'gen' else
                        mark(s, '%s[%d]' % (name, i), depth + 1) if not isinstance(s, tuple) else s for i, s in enumerate(r.segs)]
                if any(x is not y for x, y in zip(segs, r.segs)):
                    st.heap[v.addr] = ListRec(segs, r.unk, r.kind)
            elif isinstance(r, DictRec):
                items = [(k, mark(x, name + '[key]', depth + 1)) for k, x in r.items]
                st.heap[v.addr] = DictRec(items, r.gen, r.unk, r.maybe)
        return v
    if me is not None:
        mark(me, 'self')
    args = [mark(a, 'argument %d' % (i + 1)) for i, a in enumerate(args)]
    kw = {k: mark(a, k) for k, a in kw.items()}
    return args, kw, (names, dict(st.heap), me)


def same(I, a, b, ha, hb, depth=0):
    """True, False or None (not resolved)"""
    if a is b and not isinstance(a, (Ref, Arr)):
        return True
    if isinstance(a, Arr) and isinstance(b, Arr):
        if a.cell is not None and a.cell == b.cell:
            return True                 # the cell is compared on its own
        x, y = ha.get(a.cell, a) if a.cell is not None else a, hb.get(b.cell, b) if b.cell is not None else b
        return same_arr(x, y)
    if isinstance(a, Const) and isinstance(b, Const):
        return a.v == b.v
    if isinstance(a, Const) or isinstance(b, Const):
        return False if not isinstance(a, Unknown) and not isinstance(b, Unknown) else None
    if isinstance(a, Ref) and isinstance(b, Ref):
        if a.addr == b.addr:
            return True
        if depth > 3:
            return None
        return same_rec(I, ha.get(a.addr), hb.get(b.addr), ha, hb, depth + 1)
    if isinstance(a, Tup) and isinstance(b, Tup):
        if len(a.items) != len(b.items):
            return False
        return every(same(I, x, y, ha, hb, depth) for x, y in zip(a.items, b.items))
    if type(a) is type(b):
        return True if str(a) == str(b) else None
    if isinstance(a, (Arr, Tup, StrT)) and isinstance(b, (Arr, Tup, StrT)):
        return False                    # number, tuple, text
    return None


def every(xs):
    r = True
    for x in xs:
        if x is False:
            return False
        if x is None:
            r = None
    return r


def same_arr(x, y):
    if x is y:
        return True
    if not isinstance(x, Arr) or not isinstance(y, Arr) or x.form is None or y.form is None:
        return None
    if x.ndim != y.ndim:
        return False
    from .forms import lab
    for (_, n1), (_, n2) in zip(x.axes, y.axes):
        if isinstance(n1, Form) and isinstance(n2, Form) and n1 != n2:
            c1, c2 = n1.int_const(), n2.int_const()
            if c1 is not None and c2 is not None or differ(n1, n2) is False:
                return False
    m = {l2: lab(l1) for (l1, _), (l2, _) in zip(x.axes, y.axes) if l1 != l2}
    f = y.form.subst(m) if m else y.form
    if f == x.form and all(n1 == n2.subst(m) if isinstance(n2, Form) else True for (_, n1), (_, n2) in zip(x.axes, y.axes)):
        return True
    return differ(x.form, f)


def differ(f, g):
    """False if the forms differ in a model"""
    from .evalform import compare
    try:
        from .evalform import Model, Undecided
        from .forms import LABLEN
        for s in range(1, 6):
            M = Model(s, {})
            env = {}
            for l in sorted(f.labels() | g.labels()):
                env[l] = 0 if s % 2 else min(1, max(0, M.size(LABLEN[l], env) - 1))
            a, b = complex(M.ev(f, env)), complex(M.ev(g, env))
            if abs(a - b) > 1e-9 * max(1, abs(a), abs(b)):
                return False
        return None
    except Exception:
        return None


def same_rec(I, r, q, ha, hb, depth=0):
    if r is q:
        return True
    if type(r) is not type(q):
        return False
    if isinstance(r, Arr):
        return same_arr(r, q)
    if isinstance(r, ObjRec):
        return every(same(I, v, q.attrs[k], ha, hb, depth) if k in q.attrs else False for k, v in r.attrs.items() if k[:1] != '%')
    if isinstance(r, ListRec):
        if r.unk or q.unk:
            return None
        if len(r.segs) != len(q.segs):
            return None if any(isinstance(s, tuple) for s in r.segs + q.segs) else False
        out = []
        for s, t in zip(r.segs, q.segs):
            if isinstance(s, tuple) != isinstance(t, tuple):
                out.append(None)
            elif isinstance(s, tuple):
                if s is t:
                    continue
                if s[:1] == ('gen',) and t[:1] == ('gen',) and s[1] == t[1]:
                    out.append(every([same(I, s[3], t[3], ha, hb, depth), True if s[2] == t[2] else None]))
                else:
                    out.append(None)
            else:
                out.append(same(I, s, t, ha, hb, depth))
        return every(out)
    if isinstance(r, DictRec):
        if r.unk or q.unk or len(r.gen) != len(q.gen):
            return None
        g = [same(I, x[3], y[3], ha, hb, depth) if x[0] == y[0] else None for x, y in zip(r.gen, q.gen)]
        if r.gen:
            return every(g) if len(r.items) == len(q.items) == 0 else None
        if len(r.items) != len(q.items):
            return False
        return every(every([same(I, k1, k2, ha, hb, depth), same(I, v1, v2, ha, hb, depth)]) for (k1, v1), (k2, v2) in zip(r.items, q.items))
    return True if isinstance(r, (IterRec, FileRec)) else None


def attributes(I, r, q, ha, hb):
    """the attributes of an object that were replaced"""
    return [(k, same(I, v, q.attrs[k], ha, hb) if k in q.attrs else False) for k, v in r.attrs.items() if k[:1] != '%']


def after(run, mem, st, mutated=()):
    """[(name, False (changed) | None (not resolved))] for everything that was given"""
    names, snap, me = mem
    out = []
    for ad, name in names.items():
        r, q = snap.get(ad), st.heap.get(ad)
        if (r is q and ad not in mutated) or r is None:
            continue
        if isinstance(r, ObjRec) and isinstance(q, ObjRec):
            cls = r.cls.name if isinstance(r.cls, Class) else str(r.cls)
            for k, s in attributes(run.I, r, q, snap, st.heap):
                if s is not True:
                    out.append((name + '.' + k, s, cls, k, ad))
            continue
        s = same_rec(run.I, r, q, snap, st.heap)
        if s is True and isinstance(r, ListRec) and ad in mutated:
            s = None
        if s is not True:
            out.append((name, s, '', '', ad))
    return out
