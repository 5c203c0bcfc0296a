"""C04: matrix elements of the symmetry operations and overlaps"""
from .gv import gvectors
from .kp import *

EXPLANATION = ('The diagonal elements (symm_eigenvalues, and the characters of Kpoint.__init__), the full matrix (symm_matrix, as called by Separate) and the overlap '
               'of two k-points are extracted as closed forms, including the search of the rotated plane wave, and compared in models '
               'whose set of plane waves is closed under the operation with <psi_m| {R|t} |psi_n> = sum_G conj(psi_m[R^-T(k+G)-k]) U psi_n[G] exp(-2 pi i t.R^-T(k+G)).')
ASSUMPTIONS = ('wave functions at k and its image share the same gauge (k + G set closed under the little group)',)


# an operation, a k-point it leaves invariant, and a set of plane waves closed under it


def invT(R):
    return T([[round(x.real) for x in r] for r in inv([[complex(x) for x in r] for r in R])])


def _shift(o, q):
    B, k = invT(OPS[o]), KS[q]
    return [x - y for x, y in zip(mmv(B, k), k)]


CASES = [(o, q) for o in range(1, len(OPS)) for q in range(len(KS)) if all(abs(x - round(x)) < 1e-6 for x in _shift(o, q))]
random.Random(4).shuffle(CASES)
# first those where the shift of k is not zero
CASES.sort(key=lambda c: not any(round(x) for x in _shift(*c)))


def case(M):
    c = getattr(M, '_c04', None)
    if c:
        return c
    o, q = CASES[M.seed % len(CASES)]
    R = OPS[o]
    B = invT(R)
    k = KS[q]
    d = [round(x - y) for x, y in zip(mmv(B, k), k)]
    rnd = random.Random(M.seed)
    shells = []
    seen = set()
    while len(seen) < 5:
        g = tuple(rnd.randint(-2, 2) for _ in range(3))
        s = []
        while g not in seen:
            seen.add(g)
            s.append(g)
            g = tuple(int(x + y) for x, y in zip(mmv(B, g), d))
        if s:
            rnd.shuffle(s)
            shells.append(s)
    G, a, b = [], [], []
    for s in shells:
        n = len(G)
        G += s
        a += [n] * len(s)
        b += [n + len(s)] * len(s)
    perm = [G.index(tuple(int(x + y) for x, y in zip(mmv(B, g), d))) for g in G]
    p = list(range(len(G)))
    rnd.shuffle(p)
    M._c04 = c = dict(R=R, B=B, k=k, G=G, ig=[[g[i] for g in G] for i in range(3)] + [p, a, b], perm=perm, t=[rnd.uniform(-1, 1) for _ in range(3)])
    return c


CM = dict(NG=wm(lambda M: len(case(M)['G'])), ig=wm(lambda M, i, g: case(M)['ig'][i][g]), kk=wm(lambda M, i: case(M)['k'][i]),
          symR=wm(lambda M, p, i, j: case(M)['R'][i][j]), symt=wm(lambda M, p, i: case(M)['t'][i]))


def element(M, m, n, spinor, p=0, norm=False, perm=None, name='psi'):
    c = case(M)
    ng = len(c['G'])
    ns = 2 if spinor else 1
    psi = lambda b, i: M.sym(name, (b, i))
    S = [[M.sym('symS', (p, s, t)) for t in range(2)] for s in range(2)] if spinor else [[1]]
    tot = 0
    for g in range(ng):
        q = mmv(c['B'], [x + y for x, y in zip(c['k'], c['G'][g])])
        ph = cmath.exp(-2j * PI * dot(tv(M, p), q))
        for s in range(ns):
            for t in range(ns):
                tot += psi(m, c['perm'][g] + s * ng).conjugate() * S[s][t] * psi(n, g + t * ng) * ph
    if norm:
        tot /= math.sqrt(abs(sum(abs(psi(m, i)) ** 2 for i in range(ns * ng)) * sum(abs(psi(n, i)) ** 2 for i in range(ns * ng))))
    return tot


def func(name, spinor):
    w = World('espresso', spinor)
    run = new_run(name, w)
    run.st = State({}, {})
    ns = 2 if spinor else 1
    a = dict(K=mk('kk', 3), RecLattice=mk('Rec', 3, 3), WF=mk('psi', NB, sym('NG') * const(ns), dtype='c'), igall=w.canon_ig(),
             A=mk('symR', 3, 3, pre=(ZERO,), dtype='i'), S=mk('symS', 2, 2, pre=(ZERO,), dtype='c'), T=mk('symt', 3, pre=(ZERO,)), spinor=boolv(spinor))
    return go(run, 'irrep.gvectors:' + name, [], a, run.st)


def run(ctx):
    gvectors(ctx, (0, 1, 2, 4, 5), 'range of plane waves among which the image of each is searched == those of the same energy', 'plane waves')
    kw = dict(sizes=dict(NB=3, NSYM=1), **CM)
    for sp in (False, True):
        tag = '[soc]' if sp else '[scalar]'
        r = ctx.run(func('symm_eigenvalues', sp))
        ctx.eq('diagonal' + tag, r.result, lambda M: [element(M, b, b, sp) for b in range(3)], rule='diagonal elements == <psi_n|{R|t}|psi_n>', **kw)
        r = ctx.run(func('symm_matrix', sp))
        ctx.eq('matrix' + tag, r.result, lambda M: [[element(M, m, n, sp) for n in range(3)] for m in range(3)],
               rule='matrix[m,n] == <psi_m|{R|t}|psi_n>', **kw)
        r = ctx.run(kpoint(sp, 'Kpoint[nothing cut]' + tag, cut=()))
        one = {**kw, 'symind': lambda p: 1, 'En': lambda b: [0., 1., 1.][b], 'degthr': lambda: 0.01}
        ctx.eq('characters' + tag, attr(r, 'char'), lambda M: [[element(M, 0, 0, sp, norm=True)], [sum(element(M, b, b, sp, norm=True) for b in (1, 2))]],
               rule='characters of a k-point: traces of the operation of the little group, normalised wave functions', **one)
        separate(ctx, sp, tag)
        overlap(ctx, sp, tag)


def separate(ctx, sp, tag):
    """Separate passes the same operation, k-point, plane waves and wave functions to symm_matrix"""
    rule = 'Separate diagonalises the matrix of the requested operation in the wave functions of this k-point'
    run = kobj(sp, 'Kpoint.Separate' + tag)
    record_call(run, 'symm_matrix', lambda I, env, st, node: mk('Smat', NB, NB, dtype='c'))
    op = one_symop2(run)
    method(run, 'Separate', op, scal(sym('degthr')))
    ctx.run(run)
    ns = 2 if sp else 1
    cs = calls(run, 'symm_matrix')
    if not cs:
        return ctx.ob('separate-args' + tag, 'undecided', 'no call of symm_matrix', '', rule)
    for c in cs:
        for a, spec in (('K', lambda M: kv(M)), ('WF', lambda M: [[M.sym('psi', (b, i)) for i in range(ns * M.sym('NG'))] for b in range(M.sym('NB'))]),
                        ('igall', lambda M: [[M.sym('ig', (i, g)) for g in range(M.sym('NG'))] for i in range(6)]), ('A', lambda M: Rm(M, 0)),
                        ('S', lambda M: [[M.sym('symS', (0, i, j)) for j in range(2)] for i in range(2)]), ('T', lambda M: tv(M, 0)),
                        ('spinor', lambda M: int(sp))):
            v = c['args'].get(a)
            if a == 'S' and not sp:
                continue
            if a == 'spinor' and isinstance(v, Const):
                ctx.true('separate-args[%s]%s' % (a, tag), v.v == sp, str(v), where(c), rule)
                continue
            ctx.eq('separate-args[%s]%s' % (a, tag), v, spec, where=where(c), rule=rule, sizes=dict(NB=3, NG=3))


def one_symop2(run):
    o = run.obj
    r = one_symop(run)
    run.obj = o
    return r


for _n in ('psi2', 'psiC2'):
    declare(_n, real=False)
declare('kk2')
declare('ig2', integer=True)
declare('NG2', integer=True)


def overlap(ctx, sp, tag):
    rule = 'overlap[m,n] == sum over the plane waves of both k-points with k1+G1 == k2+G2 and over spin of conj(psi1_m) psi2_n'
    run = kobj(sp, 'Kpoint.overlap' + tag)
    ns = 2 if sp else 1
    run2 = run.obj
    st = run.st
    rec = run.I.rec(run2, st)
    at = dict(rec.attrs)
    at.update(k=mk('kk2', 3), WF=mk('psi2', NB, sym('NG2') * const(ns), dtype='c'), ig=mk('ig2', 6, sym('NG2'), dtype='i'))
    other = run.I.alloc(ObjRec(rec.cls, at), st)
    method(run, 'overlap', other)
    ctx.run(run)

    def setup(M):
        c = getattr(M, '_ov', None)
        if c:
            return c
        rnd = random.Random(M.seed)
        g = [rnd.randint(-1, 1) for _ in range(3)]
        if not any(g):
            g[M.seed % 3] = 1
        k1 = [0.1, 0.25, -0.3]
        k2 = [x - y + rnd.choice((-1, 1)) * 1e-10 for x, y in zip(k1, g)]
        box = [(a, b, c) for a in (-1, 0, 1) for b in (2, 3) for c in (-5, -4)] if M.seed % 2 else [(a, b, c) for a in (1, 2) for b in (-1, 0, 1) for c in (0, 1)]
        G1 = rnd.sample(box, 6)
        G2 = [tuple(x + y for x, y in zip(q, g)) for q in rnd.sample(box, 7)]
        M._ov = c = dict(g=g, k1=k1, k2=k2, G1=G1, G2=G2)
        return c

    def spec(M):
        c = setup(M)
        n1, n2 = len(c['G1']), len(c['G2'])
        out = []
        for m in range(2):
            row = []
            for n in range(2):
                t = 0
                for i, a in enumerate(c['G1']):
                    for j, b in enumerate(c['G2']):
                        if all(abs(p + x - q - y) < 1e-6 for p, x, q, y in zip(c['k1'], a, c['k2'], b)):
                            for s in range(ns):
                                t += M.sym('psi', (m, i + s * n1)).conjugate() * M.sym('psi2', (n, j + s * n2))
                row.append(t)
            out.append(row)
        return out
    ctx.eq('overlap' + tag, run.result, spec, rule=rule, sizes=dict(NB=2), NG=wm(lambda M: 6), NG2=wm(lambda M: 7), kk=wm(lambda M, i: setup(M)['k1'][i]),
           kk2=wm(lambda M, i: setup(M)['k2'][i]), ig=wm(lambda M, i, g: setup(M)['G1'][g][i] if i < 3 else g), ig2=wm(lambda M, i, g: setup(M)['G2'][g][i] if i < 3 else g))
