"""Models and specifications for one k-point."""
import cmath, math, random
from .common import *
from ..evalform import hashval, inv, matmul

# integer rotations (cubic and hexagonal lattices); 0 identity, 1 inversion
OPS = [[[1, 0, 0], [0, 1, 0], [0, 0, 1]], [[-1, 0, 0], [0, -1, 0], [0, 0, -1]], [[-1, 0, 0], [0, -1, 0], [0, 0, 1]],
       [[0, 1, 0], [0, 0, 1], [1, 0, 0]], [[0, -1, 0], [1, 0, 0], [0, 0, 1]], [[1, -1, 0], [1, 0, 0], [0, 0, 1]],
       [[0, 1, 0], [1, 0, 0], [0, 0, -1]], [[0, -1, 0], [1, -1, 0], [0, 0, 1]], [[1, 0, 0], [0, 1, 0], [1, 1, -1]]]
KS = [[0.5, 0.5, 0.0], [0.5, 0.5, 0.5], [0.0, 0.0, 0.3], [1 / 3., 1 / 3., 0.5], [0.0, 0.0, 0.0], [0.25, -0.25, 0.5], [0.5, 0.0, 0.0], [-0.5, 0.5, 0.5]]
NS = 7


def order(M):
    r = random.Random(M.seed * 77 + 5)
    p = list(range(len(OPS)))
    r.shuffle(p)
    p = p[:NS]
    if 0 not in p:
        p[2] = 0
    if 1 not in p:
        p[4 if p[4] != 0 else 3] = 1
    return p


def wm(f):
    f.withM = True
    return f


def _R(M, p, i, j):
    return OPS[order(M)[p]][i][j]


def _ind(M, p):
    q = list(range(1, NS + 1))
    random.Random(M.seed * 13 + 1).shuffle(q)
    return q[p]


def _t(M, p, i):
    if order(M)[p] in (0, 1):
        return 0.0
    return random.Random(M.seed * 1000 + p * 10 + i).choice((0.0, 0.5, 0.25, 1 / 3.))


def _k(M, i):
    return KS[M.seed % len(KS)][i]


def _E(M, b):
    e = -3.0
    r = random.Random(M.seed * 31)
    for _ in range(b + 1):
        e += r.choice((0.001, 0.004, 0.4, 0.7, 0.003))
    return e


def _sign(M, p):
    return random.Random(M.seed * 17 + p).choice((1, -1))


# values chosen for the physical symbols in the random models
KM = dict(symR=wm(_R), symind=wm(_ind), symt=wm(_t), kk=wm(_k), En=wm(_E), symsign=wm(_sign), degthr=lambda: 0.01)
KS_ = dict(NSYM=NS, NB=7, NG=3)


def Rm(M, p):
    return [[M.sym('symR', (p, i, j)) for j in range(3)] for i in range(3)]


def tv(M, p):
    return [M.sym('symt', (p, i)) for i in range(3)]


def kv(M):
    return [M.sym('kk', (i,)) for i in range(3)]


def little(M, only=None):
    """positions of the operations with R^-T k = k mod G, in ascending order of their index"""
    k = kv(M)
    out = []
    for p in range(M.sym('NSYM')):
        if only is not None and M.sym('symind', (p,)) not in only:
            continue
        B = T(real(inv([[complex(x) for x in r] for r in Rm(M, p)])))
        d = [x - y for x, y in zip(mmv(B, k), k)]
        if all(abs(x - round(x)) < 1e-6 for x in d):
            out.append(p)
    return sorted(out, key=lambda p: M.sym('symind', (p,)))


def sets(M, thr=None):
    thr = M.sym('degthr') if thr is None else thr
    nb = M.sym('NB')
    b = [0] + [i + 1 for i in range(nb - 1) if M.sym('En', (i + 1,)) - M.sym('En', (i,)) > thr] + [nb]
    return list(zip(b, b[1:]))


def chi(M, p, b1, b2):
    """trace of operation p over bands b1..b2-1 (generic function of band, rotation, translation)"""
    a = [x for r in Rm(M, p) for x in r] + tv(M, p)
    return sum(hashval(b, *a) for b in range(b1, b2))


def attr(run, name):
    """attribute of the object built by the run"""
    if not isinstance(run.result, Ref):
        return None
    r = run.I.rec(run.result, run.st)
    v = r.attrs.get(name) if isinstance(r, ObjRec) else None
    return None if v is None else run.I.loadv(v, run.st)


def sets_events(run, cls, name):
    """values assigned to attribute `name`, with the path condition"""
    return [e for e in run.I.events if e.kind == 'attrset' and e.data['cls'] == cls and e.data['attr'] == name]


def little_ob(ctx, name, run, only=None, value=None, rule='', **kw):
    """the list of little-group operations"""
    v = value if value is not None else attr(run, 'little_group')
    rec = run.I.rec(v, run.st) if isinstance(v, Ref) else None
    if not isinstance(rec, ListRec) or rec.unk or len(rec.segs) != 1 or not isinstance(rec.segs[0], tuple) or rec.segs[0][0] != 'gen':
        return ctx.ob(name, 'undecided', 'list not resolved', '', rule)
    _, l, n, e = rec.segs[0]
    x = run.I.getattr(val_subst(e, dict(v.sub)), 'ind', None, run.st)
    if not isinstance(x, Arr) or x.form is None:
        return ctx.ob(name, 'undecided', 'element not resolved', '', rule)
    a = Arr(((l, n),), x.form, 'i')
    o = only if callable(only) else (lambda M: only)
    return ctx.eq(name, a, lambda M: [M.sym('symind', (p,)) for p in little(M, o(M))], rule=rule, sizes=KS_, **{**KM, **kw})


def attr2(run, name):
    """attribute of run.obj"""
    r = run.I.rec(run.obj, run.st)
    v = r.attrs.get(name)
    return None if v is None else run.I.loadv(v, run.st)
