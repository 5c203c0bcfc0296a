"""Array algebra on canonical element forms (indexing, broadcasting, contraction, stores)."""
from fractions import Fraction
from .forms import (Form, ZERO, ONE, const, lab, fn, sym, new_label, LABLEN, lift, sum_over, Top, binder, delta,
                    conj, is_real, is_int, mat_inverse, mat_det, atom_form)
from .values import *

RANK = {'b': 0, 'i': 1, 'f': 2, 'c': 3, 'o': 4}


def updt(*ds):
    return max(ds, key=lambda d: RANK.get(d, 4))


def newax(n):
    l = new_label()
    n = lift(n)
    LABLEN[l] = n
    return l, n


def P(idx, comps):
    return atom_form(('P', idx, tuple(comps)))


def C(idx, segs):
    """segs: (len, label, form)"""
    segs = [s for s in segs if s[0].int_const() != 0]
    return atom_form(('C', idx, tuple(segs)))


class ShapeError(Exception):
    pass


def freshen(a):
    return relabel(a)


def lens_conflict(n1, n2):
    c1, c2 = n1.int_const(), n2.int_const()
    return c1 is not None and c2 is not None and c1 != c2


def broadcast(arrs):
    """arrays -> (axes, [forms aligned to the axes])"""
    nd = max(a.ndim for a in arrs)
    arrs = [relabel(a) if a.axes else a for a in arrs]
    axes = []
    subs = [dict() for _ in arrs]
    for p in range(nd):
        have = []
        for i, a in enumerate(arrs):
            q = p - (nd - a.ndim)
            if q >= 0:
                have.append((i, a.axes[q]))
        big = [(i, ax) for i, ax in have if ax[1].int_const() != 1]
        if not big:
            l, n = newax(1)
            for i, ax in have:
                subs[i][ax[0]] = lab(l)
            axes.append((l, n))
            continue
        L, N = big[0][1]
        for i, ax in big[1:]:
            if lens_conflict(N, ax[1]):
                raise ShapeError('operands could not be broadcast together (%s vs %s)' % (N, ax[1]))
            if N.int_const() is None and ax[1].int_const() is not None:
                N = ax[1]
        LABLEN[L] = N
        for i, ax in have:
            if ax[1].int_const() == 1:
                subs[i][ax[0]] = ZERO
            elif ax[0] != L:
                subs[i][ax[0]] = lab(L)
        axes.append((L, N))
    forms = []
    for a, m in zip(arrs, subs):
        if a.form is None:
            forms.append(None)
        else:
            forms.append(a.form.subst(m) if m else a.form)
    return tuple(axes), forms


def elementwise(f, dtype, *arrs):
    """apply f to the element forms with broadcasting"""
    t = frozenset().union(*[a.taint for a in arrs])
    axes, forms = broadcast(list(arrs))
    py = all(a.py for a in arrs) and not axes
    if any(x is None for x in forms):
        return Arr(axes, None, dtype, taint=t, py=py)
    try:
        r = f(*forms)
    except Top:
        r = None
    return Arr(axes, r, dtype, taint=t, py=py)


def contract(a, b, ia, ib, batch=0):
    """sum over axis ia of a and ib of b; remaining axes a then b"""
    a, b = relabel(a), relabel(b)
    la, na = a.axes[ia]
    lb, nb = b.axes[ib]
    if lens_conflict(na, nb):
        raise ShapeError('shapes not aligned (%s vs %s)' % (na, nb))
    axes = a.axes[:ia] + a.axes[ia + 1:] + b.axes[:ib] + b.axes[ib + 1:]
    t = a.taint | b.taint
    dt = updt(a.dtype, b.dtype)
    if a.form is None or b.form is None:
        return Arr(axes, None, dt, taint=t)
    n = na if na.int_const() is not None or nb.int_const() is None else nb
    try:
        f = sum_over(a.form * b.form.subst({lb: lab(la)}), la, n)
    except Top:
        f = None
    return Arr(axes, f, dt, taint=t)


def dot(a, b):
    if not a.axes or not b.axes:
        return elementwise(lambda x, y: x * y, updt(a.dtype, b.dtype), a, b)
    ib = 0 if b.ndim == 1 else b.ndim - 2
    return contract(a, b, a.ndim - 1, ib)


def matmul(a, b):
    if a.ndim <= 2 and b.ndim <= 2:
        return dot(a, b)
    if b.ndim == 1:
        return contract(a, b, a.ndim - 1, 0)
    if a.ndim == 1:
        return contract(a, b, 0, b.ndim - 2)
    # batched
    a, b = relabel(a), relabel(b)
    la, na = a.axes[-1]
    lb, nb = b.axes[-2]
    if lens_conflict(na, nb):
        raise ShapeError('matmul: shapes not aligned (%s vs %s)' % (na, nb))
    # align batch axes
    ba, bb = a.axes[:-2], b.axes[:-2]
    nd = max(len(ba), len(bb))
    axes = []
    ma, mb = {}, {lb: lab(la)}
    for p in range(nd):
        xa = ba[p - (nd - len(ba))] if p - (nd - len(ba)) >= 0 else None
        xb = bb[p - (nd - len(bb))] if p - (nd - len(bb)) >= 0 else None
        if xa is None or xb is None:
            axes.append(xa or xb)
        elif xb[1].int_const() == 1 and xa[1].int_const() != 1:
            mb[xb[0]] = ZERO
            axes.append(xa)
        elif xa[1].int_const() == 1 and xb[1].int_const() != 1:
            ma[xa[0]] = ZERO
            axes.append(xb)
        else:
            if lens_conflict(xa[1], xb[1]):
                raise ShapeError('matmul batch')
            mb[xb[0]] = lab(xa[0])
            axes.append(xa)
    axes += [a.axes[-2], b.axes[-1]]
    t = a.taint | b.taint
    dt = updt(a.dtype, b.dtype)
    if a.form is None or b.form is None:
        return Arr(axes, None, dt, taint=t)
    try:
        f = sum_over(a.form.subst(ma) * b.form.subst(mb), la, na)
    except Top:
        f = None
    return Arr(axes, f, dt, taint=t)


def einsum(spec, arrs):
    spec = spec.replace(' ', '')
    if '.' in spec:
        return None
    if '->' in spec:
        ins, out = spec.split('->')
    else:
        ins = spec
        cnt = {}
        for c in ins.replace(',', ''):
            cnt[c] = cnt.get(c, 0) + 1
        out = ''.join(sorted(c for c in cnt if cnt[c] == 1))
    ins = ins.split(',')
    if len(ins) != len(arrs):
        raise ShapeError('einsum: wrong number of operands')
    arrs = [relabel(a) for a in arrs]
    L = {}
    t = frozenset().union(*[a.taint for a in arrs])
    dt = updt(*[a.dtype for a in arrs])
    f = ONE
    bad = False
    for s, a in zip(ins, arrs):
        if len(s) != a.ndim:
            raise ShapeError('einsum: operand has %d axes, subscripts %s' % (a.ndim, s))
        m = {}
        for c, (l, n) in zip(s, a.axes):
            if c in L:
                if lens_conflict(L[c][1], n):
                    raise ShapeError('einsum: dimension mismatch for %s' % c)
                if L[c][1].int_const() is None and n.int_const() is not None:
                    L[c] = (L[c][0], n)
                    LABLEN[L[c][0]] = n
                m[l] = lab(L[c][0])
            else:
                L[c] = (l, n)
        if a.form is None:
            bad = True
        elif not bad:
            f = f * a.form.subst(m)
    for c in out:
        if c not in L:
            raise ShapeError('einsum: output subscript %s not in inputs' % c)
    axes = tuple(L[c] for c in out)
    if bad:
        return Arr(axes, None, dt, taint=t)
    try:
        for c in L:
            if c not in out:
                f = sum_over(f, L[c][0], L[c][1])
    except Top:
        f = None
    return Arr(axes, f, dt, taint=t)


def reduce_sum(a, axes_idx):
    a = relabel(a)
    f = a.form
    rest = []
    for i, (l, n) in enumerate(a.axes):
        if i in axes_idx:
            if f is not None:
                try:
                    f = sum_over(f, l, n)
                except Top:
                    f = None
        else:
            rest.append((l, n))
    dt = 'i' if a.dtype == 'b' else a.dtype
    return Arr(rest, f, dt, taint=a.taint, py=not rest)


def reduce_bind(name, a, axes_idx, dtype=None):
    """generic reduction with a binder atom"""
    a = relabel(a)
    rest = [ax for i, ax in enumerate(a.axes) if i not in axes_idx]
    dt = dtype or a.dtype
    if a.form is None:
        return Arr(rest, None, dt, taint=a.taint, py=not rest)
    f = a.form
    ls = []
    ns = ONE
    for i, (l, n) in enumerate(a.axes):
        if i in axes_idx:
            nl = new_label()
            LABLEN[nl] = n
            f = f.subst({l: lab(nl)})
            ls.append((nl, n))
            ns = ns * n
    dep = [(l, n) for l, n in ls if l in f.labels()]
    if not dep and name in ('max', 'min', 'any', 'all', 'mean'):
        return Arr(rest, fn('bool', f) if name in ('any', 'all') else f, dt, taint=a.taint, py=not rest)
    small = all(n.int_const() is not None and n.int_const() <= 4 for _, n in ls)
    if name in ('any', 'all', 'max', 'min') and small and len(ls) == 1:
        l, n = ls[0]
        comps = [f.subst({l: const(i)}) for i in range(n.int_const())]
        opn = {'any': 'or', 'all': 'and'}.get(name, name)
        if name in ('any', 'all'):
            comps = [fn('bool', c) for c in comps]
        r = fn(opn, *comps) if len(comps) > 1 else comps[0]
        return Arr(rest, r, dt, taint=a.taint, py=not rest)
    # canonical order of bound labels: the order of axes
    r = binder(name, tuple(l for l, _ in ls), f, ())
    return Arr(rest, r, dt, taint=a.taint, py=not rest)


def transpose(a, perm=None):
    if perm is None:
        perm = list(range(a.ndim))[::-1]
    return a.with_(axes=tuple(a.axes[p] for p in perm))


def stack_vals(vals, axis=0):
    """np.stack of arrays with the same number of axes"""
    nd = vals[0].ndim
    if any(v.ndim != nd for v in vals):
        return None
    ref = relabel(vals[0])
    t = frozenset().union(*[v.taint for v in vals])
    dt = updt(*[v.dtype for v in vals])
    l, n = newax(len(vals))
    axes = list(ref.axes)
    comps = []
    ok = True
    for v in vals:
        m = {}
        for j, ((l1, n1), (l2, n2)) in enumerate(zip(ref.axes, v.axes)):
            if lens_conflict(n1, n2):
                raise ShapeError('stack: shapes differ (%s vs %s)' % (n1, n2))
            m[l2] = lab(l1)
        if v.form is None:
            ok = False
            comps.append(None)
        else:
            comps.append(v.form.subst(m))
    axes.insert(axis, (l, n))
    return Arr(axes, P(lab(l), comps) if ok else None, dt, taint=t)


def concat_vals(vals, axis=0):
    nd = vals[0].ndim
    if any(v.ndim != nd for v in vals):
        raise ShapeError('concatenate: dimensions differ')
    vals = [relabel(v) for v in vals]
    ref = vals[0]
    t = frozenset().union(*[v.taint for v in vals])
    dt = updt(*[v.dtype for v in vals])
    if len(vals) == 1:
        return vals[0]
    total = ZERO
    segs = []
    ok = all(v.form is not None for v in vals)
    for v in vals:
        m = {}
        for j, ((l1, n1), (l2, n2)) in enumerate(zip(ref.axes, v.axes)):
            if j == axis:
                continue
            if lens_conflict(n1, n2):
                raise ShapeError('concatenate: shapes differ (%s vs %s)' % (n1, n2))
            if l1 != l2:
                m[l2] = lab(l1)
        l, n = v.axes[axis]
        if ok:
            segs.append((n, l, v.form.subst(m)))
        total = total + n
    nl, tn = newax(total)
    axes = list(ref.axes)
    axes[axis] = (nl, tn)
    if not ok:
        return Arr(axes, None, dt, taint=t)
    if all(s[0].int_const() is not None and s[0].int_const() <= 8 for s in segs) and total.int_const() <= 16:
        comps = []
        for n, l, f in segs:
            comps += [f.subst({l: const(i)}) for i in range(n.int_const())]
        f = P(lab(nl), comps)
    else:
        f = C(lab(nl), segs)
    return Arr(axes, f, dt, taint=t)


def take_axis(a, ax, idxform, newaxes=()):
    """replace axis ax by index form (with new axes in its place)"""
    l, n = a.axes[ax]
    axes = a.axes[:ax] + tuple(newaxes) + a.axes[ax + 1:]
    if a.form is None:
        return a.with_(axes=axes)
    try:
        f = a.form.subst({l: idxform})
    except Top:
        f = None
    return a.with_(axes=axes, form=f)


COUNTS = {'NB', 'NBUP', 'NBDW', 'NPW', 'NG', 'NK', 'NAT', 'NSYM', 'npwk', 'nbandk', 'NTAB', 'NIRR', 'NA'}


def neg_count(f):
    """a form that is certainly negative: minus a count"""
    ts = f.terms
    if not ts:
        return False
    for c, d, fa in ts.values():
        if d or not (c.imag == 0 and c.real < 0):
            return False
        if not fa:
            continue
        for a in (x[0] if isinstance(x[0], tuple) else x for x in fa):
            if a[0] != 'S' or a[1] not in COUNTS:
                return False
    return True


def slice_bounds(s, n):
    """(lo, length, step) forms for a Slice over length n; None if not understood"""
    step = 1
    if s.step is not None:
        f = scalar_form(s.step) if isinstance(s.step, Arr) else None
        if isinstance(s.step, Const) and s.step.v is None:
            f = ONE
        if f is None or f.int_const() is None:
            return None
        step = f.int_const()

    def get(x):
        if x is None or isinstance(x, Const) and x.v is None:
            return 'none'
        if isinstance(x, Arr) and not x.axes and x.form is not None:
            return x.form
        return None
    lo, hi = get(s.lo), get(s.hi)
    if lo is None or hi is None or step == 0:
        return None
    nc = n.int_const()
    if step < 0:
        if lo != 'none' or hi != 'none' or step != -1:
            if nc is None:
                return None
            a = None if lo == 'none' else lo.int_const()
            b = None if hi == 'none' else hi.int_const()
            if (lo != 'none' and a is None) or (hi != 'none' and b is None):
                return None
            r = range(*slice(a, b, step).indices(nc))
            return const(r.start), const(len(r)), step
        return n - ONE, n, -1
    lo = ZERO if lo == 'none' else lo
    hi = n if hi == 'none' else hi
    cl, ch = lo.int_const(), hi.int_const()
    if nc is not None and cl is not None and ch is not None:
        r = range(*slice(cl, ch, step).indices(nc))
        return const(r.start), const(len(r)), step
    if cl is not None and cl < 0 or cl is None and neg_count(lo):
        lo = n + lo
    if ch is not None and ch < 0 or ch is None and neg_count(hi):
        hi = n + hi
    ln = hi - lo
    c = ln.int_const()
    if c is not None and c < 0:
        ln = ZERO
    if step != 1:
        c = ln.int_const()
        if c is not None:
            ln = const(-(-c // step))
        else:
            q = ln.scale(1.0 / step)
            if is_int(q):
                ln = q
            else:
                ln = fn('floordiv', ln + const(step - 1), const(step))
    return lo, ln, step


def reshape(a, dims):
    """dims: list of Form (a dim may be const -1)"""
    a = relabel(a)
    src = [(l, n) for l, n in a.axes]
    dims = list(dims)
    total = ONE
    for _, n in src:
        total = total * n
    neg = [i for i, d in enumerate(dims) if d.int_const() == -1]
    if len(neg) > 1:
        raise ShapeError('can only specify one unknown dimension')
    if neg:
        rest = ONE
        for i, d in enumerate(dims):
            if i != neg[0]:
                rest = rest * d
        q = total * (rest.powr(Fraction(-1)) if rest.const() != 0 else ONE)
        if q is None:
            return a.with_(form=None)
        # a ratio that is not visibly an integer stays symbolic
        qc = q.real_const()
        if qc is not None and abs(qc - round(qc)) > 1e-9:
            raise ShapeError('cannot reshape array of size %s into shape %s' % (total, dims))
        dims[neg[0]] = q
    else:
        prod = ONE
        for d in dims:
            prod = prod * d
        if lens_conflict(prod, total):
            raise ShapeError('cannot reshape array of size %s into shape %s' % (total, dims))
    new = [newax(d) for d in dims]
    # linear index in terms of the new labels, decomposed into groups that match
    sub = {}
    i = j = 0
    S = [x for x in src]
    N = [x for x in new]

    def is1(x):
        return x[1].int_const() == 1
    for x in S:
        if is1(x):
            sub[x[0]] = ZERO
    S = [x for x in S if not is1(x)]
    N = [x for x in N if not is1(x)]
    # trailing groups first (C order)
    while S or N:
        gs, gn = [], []
        ps, pn = ONE, ONE
        done = False
        # grow groups from the right until products agree
        si, ni = len(S), len(N)
        if not S or not N:
            break
        si -= 1
        ni -= 1
        ps, pn = S[si][1], N[ni][1]
        for _ in range(12):
            if ps == pn:
                done = True
                break
            # extend the smaller one
            cs, cn = ps.int_const(), pn.int_const()
            if cs is not None and cn is not None:
                ext_s = cs < cn
            elif divides(ps, pn):
                ext_s = True
            elif divides(pn, ps):
                ext_s = False
            else:
                break
            if ext_s:
                if si == 0:
                    break
                si -= 1
                ps = ps * S[si][1]
            else:
                if ni == 0:
                    break
                ni -= 1
                pn = pn * N[ni][1]
        if not done:
            if si == 0 and ni == 0 or (len(S) >= 1 and len(N) >= 1):
                # treat everything left as one group
                si = ni = 0
            gs, gn = S[si:], N[ni:]
            if len(gs) == 1 and len(gn) == 1:
                sub[gs[0][0]] = lab(gn[0][0])
                S, N = S[:si], N[:ni]
                continue
        gs, gn = S[si:], N[ni:]
        lin = ZERO
        for l, n in gn:
            lin = lin * n + lab(l)
        if len(gs) == 1:
            sub[gs[0][0]] = lin
        else:
            rem = lin
            for q, (l, n) in enumerate(reversed(gs)):
                if q == len(gs) - 1:
                    sub[l] = rem
                else:
                    sub[l] = fn('mod', rem, n)
                    rem = fn('floordiv', rem, n)
        S, N = S[:si], N[:ni]
    for x in S:
        sub.setdefault(x[0], ZERO)
    if a.form is None:
        return a.with_(axes=tuple(new))
    try:
        f = a.form.subst(sub)
    except Top:
        f = None
    return a.with_(axes=tuple(new), form=f)


def divides(p, q):
    """does form p divide q (as monomials)?"""
    r = p.powr(Fraction(-1))
    if r is None:
        return False
    x = q * r
    return is_int(x)


def inverse(a):
    a = relabel(a)
    (i, n), (j, m) = a.axes[-2:]
    if lens_conflict(n, m):
        raise ShapeError('inverse of a non-square matrix')
    if a.form is None:
        return a
    f = a.form
    f2 = collapse_P(f, i, j, n)
    try:
        g = mat_inverse(f2, i, j, n)
    except Top:
        g = None
    return a.with_(form=g, dtype='c' if a.dtype == 'c' else 'f')


def collapse_P(f, i, j, n):
    """constant matrices given by components: leave as they are"""
    return f


def det(a):
    a = relabel(a)
    (i, n), (j, m) = a.axes[-2:]
    rest = a.axes[:-2]
    if a.form is None:
        return Arr(rest, None, a.dtype, taint=a.taint, py=not rest)
    return Arr(rest, mat_det(a.form, i, j, n), 'c' if a.dtype == 'c' else 'f', taint=a.taint, py=not rest)
