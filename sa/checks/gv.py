"""The plane waves enumerated by calc_gvectors (VASP, Wannier90)."""
import math, random
from .common import *

TWOM = 0.262465831       # 2m/hbar^2 in 1/(eV Angstrom^2)
for _n in ('gEC', 'gEo', 'gK', 'gB'):
    declare(_n)
for _n in ('gNP', 'gMAX'):
    declare(_n, integer=True)
NMAX = 6


class Case:
    """a cell, k-point and cutoffs"""

    def __init__(self, seed, ns, vasp, small):
        r = random.Random(seed * 31 + ns)
        self.B = [[(1.0 + 0.2 * i if i == j else 0.0) + 0.3 * r.uniform(-1, 1) for j in range(3)] for i in range(3)]
        far = seed % 3 == 0          # a k-point far from the origin: no plane wave near G = 0
        if not small and not far:            # a skew cell: (1,2,0) is as short as (1,1,0)
            self.B[0][1] -= 1.6
        self.K = [(0.00003 if small else 0.12) * r.uniform(-1, 1) for _ in range(3)]
        if far:
            self.K[0] -= 3.1
        es = sorted(self.energy(g) for g in self.all())
        inner = min(self.energy(g) for g in self.all() if sum(map(abs, g)) == NMAX - 1)      # all within the search range are below it
        es = [e for e in es if e < inner * 0.999]
        gaps = [k for k in range(1, len(es)) if es[k] - es[k - 1] > 0.02]
        gaps = [k for k in gaps if k < 9]
        k = gaps[-1]
        self.EC = (es[k - 1] + es[k]) / 2
        k = gaps[-2]
        self.Eo = (es[k - 1] + es[k]) / 2
        self.full = sorted((g for g in self.all() if self.energy(g) < self.EC), key=lambda g: tuple((0, x) if x >= 0 else (1, x) for x in reversed(g)))
        self.NP = len(self.full) * ns

    @staticmethod
    def all():
        n = NMAX - 1
        return [(a, b, c) for a in range(-n, n + 1) for b in range(-n, n + 1) for c in range(-n, n + 1) if abs(a) + abs(b) + abs(c) <= n]

    def energy(self, g):
        return sum(sum((self.K[i] + g[i]) * self.B[i][j] for i in range(3)) ** 2 for j in range(3)) / TWOM

    def model(self, seed):
        M = Model(seed, dict(gMAX=NMAX + (seed // 2) % 2), gK=lambda i: self.K[int(i)], gB=lambda i, j: self.B[int(i)][int(j)], gEC=lambda: self.EC, gEo=lambda: self.Eo, gNP=lambda: self.NP)
        M.budget = 5 * 10 ** 7
        return M

    def result(self, cut):
        """columns (G, index in the file, first and last+1 of the same energy)"""
        gs = [(self.energy(g), g, i) for i, g in enumerate(self.full) if not cut or self.energy(g) <= self.Eo]
        gs.sort()
        out = []
        starts = [i for i in range(len(gs)) if i == 0 or gs[i][0] - gs[i - 1][0] > 1e-3] + [len(gs)]
        for i, (e, g, f) in enumerate(gs):
            a = max(s for s in starts if s <= i)
            b = min(s for s in starts if s > i)
            out.append(list(g) + [f, a, b])
        return out


def returned(ctx, name, ns, vasp, cut):
    r = new_run(name, World('vasp', ns == 2))
    got = []
    r.I.ret_hooks['calc_gvectors'] = lambda v, st, node: got.append((r.I.loadv(v, st), st.pc, node))
    kw = dict(spinor=boolv(ns == 2))
    if vasp:
        kw['nplane'] = scal(sym('gNP'), 'i')
        kw['nplanemax'] = scal(sym('gMAX'), 'i')
    else:
        kw['nplanemax'] = scal(sym('gMAX'), 'i')
    if cut:
        kw['Ecut1'] = scal(sym('gEo'))
    ctx.run(go(r, 'irrep.gvectors:calc_gvectors', [mk('gK', 3), mk('gB', 3, 3), scal(sym('gEC'))], kw))
    return r, got


def holds(M, pc, env):
    """whether the path condition holds, and whether that is certain"""
    sure = True
    for f, pol in pc:
        try:
            if bool(M.ev(f, env)) != pol:
                return False, True
        except Undecided as e:
            if 'phi#' not in str(e):
                raise
            sure = False
    return True, sure


def columns(M, v, env, rows):
    """evaluated result, transposed: one list per plane wave"""
    if not isinstance(v, Arr) or v.form is None or v.ndim != 2:
        raise Undecided('result not resolved')
    (l0, n0), (l1, n1) = v.axes
    n = M.size(n1, env)
    return [[M.ev(v.form, {**env, l0: i, l1: j}) for i in rows] for j in range(n)]


def gvectors(ctx, rows, rule, what):
    """obligations for the given rows of the result; one process per case"""
    if getattr(ctx, 'quiet', False):
        if ctx.prop == 'c02':
            for name, ns, vasp, cut in CASES[1:]:
                returned(ctx, 'calc_gvectors[%s]' % name, ns, vasp, cut)
        return
    import multiprocessing
    mp = multiprocessing.get_context('fork')
    procs = []
    for case in CASES:
        a, b = mp.Pipe(False)
        p = mp.Process(target=child, args=(b, case, rows, ctx.thorough))
        p.start()
        b.close()
        procs.append((case, p, a))
    for case, p, a in procs:
        try:
            res, analysed, sites = a.recv()
        except EOFError:
            res, analysed, sites = ('undecided', 'no result', ''), set(), set()
        p.join()
        ctx.analysed |= analysed
        ctx.callsites |= sites
        ctx.ob('%s[%s]' % (what, case[0]), *res, rule)


CASES = (('vasp', 1, True, True), ('vasp-soc', 2, True, True), ('wannier90', 1, False, False))


def child(pipe, case, rows, thorough):
    from ..framework import Ctx as Obs
    ctx = Obs('', 'thorough' if thorough else 'quick', 1)
    try:
        res = one(ctx, case, rows)
    except RecursionError:
        res = ('undecided', 'recursion', '')
    pipe.send((res, ctx.analysed, ctx.callsites))
    pipe.close()


def one(ctx, case, rows):
    name, ns, vasp, cut = case
    r, got = returned(ctx, 'calc_gvectors[%s]' % name, ns, vasp, cut)
    bad, done, why, wh = None, 0, str(r.aborted or r.exc and r.exc.exc or ''), ''
    if not got:
        return tuple(stopped(r)) + ('',)
    stops = [e for e in r.I.events if e.kind == 'raise' and e.func.endswith('calc_gvectors')]
    for s in range(1, 7) if ctx.thorough else (1, 2, 3):
        if s % 3 == 0 and 3 in rows:        # the order in the file is only defined for realistic cutoffs: the range of the plane waves includes 0
            continue
        C = Case(s, ns, vasp, s % 2 == 0)
        M = C.model(s)
        want = C.result(cut)
        hit = 0
        for v, pc, node in got:
            try:
                fs = [f for f, _ in pc] + ([v.form, v.axes[1][1]] if isinstance(v, Arr) and v.form is not None else [])
                ls = {l for l, _ in v.axes} if isinstance(v, Arr) else set()
                dep = set().union(*[f.labels() for f in fs[len(pc):]]) - ls
                es = models(M, fs, ls)
                held, sure = [], []
                for env in es:
                    h, d = holds(M, pc, env)
                    if h:
                        held.append(env)
                        sure.append(d)
                    elif not dep:       # the result does not depend on where the loop was: it ran to its end
                        held, sure = [], []
                        break
                for env, d in list(zip(held, sure))[:1]:        # the first time the loop can be left here
                    hit += 1
                    x = columns(M, v, env, rows)
                    wh = 'irrep/gvectors.py:%d' % node.lineno
                    x = [[int(round(complex(q).real)) for q in c] for c in x]
                    w = [[c[i] for i in rows] for c in want]
                    if x != w and not d:
                        why = why or 'a path whose condition is not resolved'
                    elif x != w:
                        k = [i for i in range(max(len(x), len(w))) if i >= len(x) or i >= len(w) or x[i] != w[i]][0]
                        bad = bad or 'model %d: %d plane waves, %d required; plane wave %d is %s, required %s' % (
                            s, len(x), len(w), k, x[k] if k < len(x) else None, w[k] if k < len(w) else None)
            except (Undecided, ValueError, TypeError, ZeroDivisionError, OverflowError, IndexError) as e:
                why = '%s %s' % (type(e).__name__, e)
        if not hit:
            for e in stops:
                try:
                    hs = [holds(M, e.pc, env) for env in models(M, [f for f, _ in e.pc], set())]
                except (Undecided, ValueError, TypeError, ZeroDivisionError, OverflowError, IndexError):
                    continue
                if (True, True) in hs and all(d for _, d in hs):
                    bad, wh = bad or 'model %d: stops although the file is consistent' % s, 'irrep/gvectors.py:%d' % e.line
        done += hit > 0
    return 'violated' if bad else 'undecided' if why or not done else 'ok', bad or why or '%d models' % done, wh


def models(M, fs, skip):
    fl = sorted(set().union(*[f.labels() for f in fs]) - skip) if fs else []
    out = []

    def rec(i, env):
        if i == len(fl):
            out.append(env)
            return
        for k in range(M.size(LABLEN[fl[i]], env)):
            rec(i + 1, {**env, fl[i]: k})
    rec(0, {})
    return out
