"""C22: Zak phases and Wannier charge centers along a closed path"""
import cmath, math
from .kp import *
from .out import *
from .cli import cli_run
from ..drivers import method as call_method
from ..pyval import pyval, diff
from ..linalg import eigvals, mul, svd
from ..evalform import det

EXPLANATION = ('zakphase and wcc are interpreted on k-points whose overlap matrices are symbols (a different one for each ordered pair of k-points), and the closed forms they return are compared '
               'with the definitions: phases of the determinants of the leading minors summed over all links including the one that closes the path, gaps and gap centers between consecutive bands, '
               'eigenvalue phases of the product of the unitary parts of the overlaps. What the command line prints is compared with what these methods return.')
ASSUMPTIONS = ('numpy.linalg.svd and eigvals return a singular value decomposition and the eigenvalues', 'overlap matrices are those of C04')

declare('ovl', real=False)

PATHS = [[2, 2, 2], [3, 3], [1, 1, 1], [3, 3, 3, 3], [2, 3, 2], [4, 3, 3], [3, 3, 2], [3, 2, 3], [2, 3, 3]]
MORE = [[4, 4, 4], [2] * 6, [5, 5], [3, 2, 4, 3], [1, 2], [3]]


def build(name, nb):
    run = bsobj(name)
    I, st = run.I, run.st
    kcls = I.modules['irrep.kpoint']['env']['Kpoint']
    ks = [I.alloc(ObjRec(kcls, {'num_bands': scal(const(n), 'i'), 'Energy_raw': mk('EnK', n, pre=(const(i),)), 'k': mk('kK', 3, pre=(const(i),)), 'INDEX': scal(const(i), 'i'),
                                '%open': boolv(True)}), st) for i, n in enumerate(nb)]
    I.rec(run.obj, st).attrs.update(kpoints=I.newlist(ks, st))

    def overlap(I, env, st, node):
        i, j = (I.rec(env[x], st).attrs['INDEX'].form.int_const() for x in ('self', 'other'))
        return mk('ovl', nb[i], nb[j], pre=(const(i), const(j)), dtype='c')
    record_call(run, 'Kpoint.overlap', overlap)
    return run


def model(seed):
    def en(M, k, n):
        r = M.rnd('EnK', k)
        e = r.uniform(-3, 3)
        for _ in range(int(n) + 1):
            e += r.choice((0.02, r.uniform(0.1, 2)))
        return e
    return Model(seed, None, EnK=wm(en))


def links(M, nb):
    n = len(nb)
    return [[[M.sym('ovl', (i, (i + 1) % n, a, b)) for b in range(nb[(i + 1) % n])] for a in range(nb[i])] for i in range(n)]


def zak(M, nb):
    nm = min(nb)
    E = [[M.sym('EnK', (k, n)) for n in range(nb[k])] for k in range(len(nb))]
    O = links(M, nb)
    z = [sum(cmath.phase(complex(det([[complex(x) for x in r[:n]] for r in o[:n]]))) for o in O) % (2 * PI) for n in range(1, nm + 1)]
    inf = float('inf')
    lo = [min(e[n] for e in E) for n in range(1, nm)] + [inf]
    hi = [max(e[n] for e in E) for n in range(nm)]
    return z, [a - b for a, b in zip(lo, hi)], [(a + b) / 2 for a, b in zip(lo, hi)], [min(e[n + 1] - e[n] for e in E) for n in range(nm - 1)] + [inf]


def unitary(o):
    U, S, V = svd([[complex(x) for x in r] for r in o])
    return mul(U, V)


def wilson(M, nb):
    W = None
    for o in links(M, nb):
        W = unitary(o) if W is None else mul(W, unitary(o))
    return sorted((cmath.phase(x) / (2 * PI)) % 1 for x in eigvals(W))


def circle(a, b, period, tol=1e-6):
    if not isinstance(a, (list, tuple)) or len(a) != len(b):
        return '%s instead of %s' % (a, b)
    for i, (x, y) in enumerate(zip(a, b)):
        x = complex(x)
        if abs(x.imag) > 1e-9 or not -1e-9 <= x.real < period + 1e-9:
            return '[%d]: %s is not in [0, %g)' % (i, x, period)
        if abs((x.real - y + period / 2) % period - period / 2) > tol:
            return '[%d]: %s instead of %s' % (i, x.real, y)


def cyclic(a, b):
    """sorted phases, up to a rotation caused by values at the cut"""
    if not isinstance(a, (list, tuple)) or len(a) != len(b):
        return '%s instead of %s' % (a, b)
    if any(x > y + 1e-9 for x, y in zip(a, a[1:])):
        return '%s is not sorted' % (a,)
    ds = [circle(a[i:] + a[:i], b, 1.) for i in range(len(a))]
    return None if None in ds else ds[0]


def compared(ctx, name, run, spec, where, rule):
    if run.exc or run.aborted or run.result is None:
        return ctx.ob(name, *stopped(run), where, rule)
    done, why = 0, ''
    for s in range(1, 11 if ctx.thorough else 5):
        M = model(s)
        try:
            d = spec(M)
        except (Undecided, ValueError, ZeroDivisionError, TypeError) as x:
            why = str(x)
            continue
        if d:
            return ctx.ob(name, 'violated', d, where, rule)
        done += 1
    ctx.ob(name, 'ok' if done else 'undecided', '%d models' % done if done else why, where, rule)


def run(ctx):
    ZW, WW = 'irrep/bandstructure.py:BandStructure.zakphase', 'irrep/bandstructure.py:BandStructure.wcc'
    for nb in PATHS + (MORE if ctx.thorough else []):
        tag = '[%s]' % ','.join(map(str, nb))
        r = ctx.run(call_method(build('zakphase' + tag, nb), 'zakphase'))
        items = list(r.result.items) if isinstance(r.result, Tup) else None
        for i, (what, rule) in enumerate((('phase', 'sum over all links of the closed path of the phases of the determinants of the lowest n states, modulo 2 pi'),
                                          ('gap', 'lowest energy of band n+1 minus highest energy of band n'), ('center', 'center of that gap'),
                                          ('local-gap', 'smallest distance between bands n and n+1 at one k-point'))):
            def spec(M, i=i, what=what):
                if items is None or len(items) != 4:
                    raise Undecided('result %s' % r.result)
                got = pyval(M, r, items[i])
                want = zak(M, nb)[i]
                return circle(got, want, 2 * PI) if i == 0 else diff(got, want, 1e-6, what)
            compared(ctx, what + tag, r, spec, ZW, rule)
        if len(set(nb)) == 1:
            r = ctx.run(call_method(build('wcc' + tag, nb), 'wcc'))
            compared(ctx, 'wcc' + tag, r, lambda M: cyclic(pyval(M, r, r.result), wilson(M, nb)), WW,
                     'sorted phases over 2 pi of the eigenvalues of the product of the unitary parts of the overlaps along the closed path, in [0,1)')
    # what the command line prints
    CL = 'irrep/cli.py:cli'
    for tag, kw in (('', {}), ('[separated]', dict(isymsep=Const('2')))):
        r = ctx.run(cli_run('zak' + tag, zak=boolv(True), **kw))
        for n in range(2):
            printed(ctx, 'zak-printed[%d]' % n + tag, r, lambda M: [n + 1, M.sym('zz', (n,)) / PI] + [M.sym(x, (n,)) for x in ('zg', 'zc', 'zl')], rule='number of bands, phase in units of pi, gap, its center, local gap')
        r = ctx.run(cli_run('wcc' + tag, wcc=boolv(True), **kw))

        for ev in ([], ) if not kw else ([-1], [1]):
            def wc(M, ev=ev):
                w = [M.sym('zw', (i,)) for i in range(2)]
                return ev + w + [sum(w) % 1]
            printed(ctx, 'wcc-printed%s' % (ev or '') + tag, r, wc, rule='centers and their sum modulo 1', zw=lambda i: 0.3 + 0.5 * i)
