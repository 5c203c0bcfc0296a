"""C24: spin expectation values and unfolding weights of degenerate sets"""
from .kp import *
from ..pyval import pyval, diff

EXPLANATION = ('Kpoint.get_rho_spin and Kpoint.unfold are interpreted on a symbolic k-point; overlap matrix, spin matrices and unfolded weights of each set of degenerate bands '
               'are compared with their definition in random models, including the selection of the plane waves of the primitive-cell k-point.')
ASSUMPTIONS = ('coefficients stored spin-up block first',)

SC = [[2, 1, 0], [0, 1, 0], [0, 0, 1]], [[1, 2, 0], [-1, 1, 0], [0, 0, 1]], [[1, 0, 1], [0, 2, 0], [0, 0, 3]]


def _ig(M, i, g):
    r = random.Random(M.seed * 91 + g * 7)
    n = [r.randint(-2, 2) for _ in range(3)]
    if g % 2:        # one that belongs to the k-point of the primitive cell
        n = [dot(sc(M)[j], n) - _shift(M, j) for j in range(3)]
    return n[i] if i < 3 else g


def _shift(M, i):
    return [1, -2, 0][(i + M.seed) % 3]


def _kp(M, i):
    return [0.5, 0.25, -0.3][i] + 0.1 * M.seed


def sc(M):
    return SC[M.seed % 3]


def _ksc(M, i):
    return dot(sc(M)[i], [_kp(M, j) for j in range(3)]) + _shift(M, i)


W24 = {**KM, 'ig': wm(_ig), 'kk': wm(_ksc), 'kpbz': wm(_kp), 'sc': wm(lambda M, i, j: sc(M)[i][j]), 'degthr': lambda: 0.01}
SZ = dict(NB=6, NG=6)


def psi(M, b, s, g):
    return M.sym('psi', (b, g + s * M.sym('NG')))


def mats(M, a, b, spinor, sel=None):
    G = sel if sel is not None else range(M.sym('NG'))

    def ov(s, t):
        return [[sum(complex(psi(M, i, s, g)).conjugate() * psi(M, j, t, g) for g in G) for j in range(a, b)] for i in range(a, b)]
    if not spinor:
        return [ov(0, 0)]
    uu, ud, du, dd = ov(0, 0), ov(0, 1), ov(1, 0), ov(1, 1)
    f = lambda g: [[g(i, j) for j in range(b - a)] for i in range(b - a)]
    return [f(lambda i, j: uu[i][j] + dd[i][j]), f(lambda i, j: ud[i][j] + du[i][j]), f(lambda i, j: 1j * (du[i][j] - ud[i][j])), f(lambda i, j: uu[i][j] - dd[i][j])]


def rho(sp, thr=None):
    def f(M):
        return [(a, b, sum(M.sym('En', (i,)) for i in range(a, b)) / (b - a), mats(M, a, b, sp)) for a, b in sets(M, thr)]
    return f


def selected(M):
    S = sc(M)
    Si = real(inv(S))
    out = []
    for g in range(M.sym('NG')):
        K = [M.sym('ig', (i, g)) + M.sym('kk', (i,)) for i in range(3)]
        p = mmv(Si, K)                 # k + G in the primitive cell
        d = [x - M.sym('kpbz', (i,)) for i, x in enumerate(p)]
        if all(abs(x - round(x)) < 1e-4 for x in d):
            out.append(g)
    return out


def weights(sp):
    def f(M):
        sel = selected(M)
        out = []
        for a, b in sets(M, 0.01):
            P = mats(M, a, b, sp, sel)[0]
            row = [sum(M.sym('En', (i,)) for i in range(a, b)) / (b - a)]
            for m in mats(M, a, b, sp):
                row.append(complex(sum(P[i][j] * m[j][i] for i in range(b - a) for j in range(b - a))).real)
            out.append(row)
        return out
    return f


def value(ctx, name, run, spec, rule, **kw):
    if run.exc or run.aborted:
        return ctx.ob(name, *stopped(run), '', rule)
    done, why = 0, ''
    for s in range(1, 9 if ctx.thorough else 4):
        M = Model(s, SZ, **kw)
        M.budget = 3000000
        try:
            a, b = pyval(M, run, run.result), spec(M)
        except Undecided as x:
            why = str(x)
            continue
        d = diff(a, b, 1e-6)
        if d:
            return ctx.ob(name, 'violated', 'model %d: %s' % (s, d), '', rule)
        done += 1
    return ctx.ob(name, 'ok' if done else 'undecided', '%d models' % done + (' ; not every model evaluated: ' + why if why else '') if done else why, '', rule)


def run(ctx):
    for sp in (False, True):
        t = '[soc]' if sp else '[scalar]'
        r = ctx.run(method(kobj(sp, 'get_rho_spin' + t), 'get_rho_spin', scal(sym('degthr'))))
        value(ctx, 'rho-spin' + t, r, rho(sp), 'per set: first band, last band + 1, mean energy, overlap and Pauli matrices', **W24)
        r = ctx.run(method(kobj(sp, 'unfold' + t), 'unfold', mk('sc', 3, 3), mk('kpbz', 3), scal(sym('degthr'))))
        value(ctx, 'unfold' + t, r, weights(sp), 'weights: plane waves with (k+G) S^-T = k_primitive mod 1 only; trace with overlap and spin matrices', **W24)
