"""C05: coefficients stay paired with their plane waves, bands and spin components"""
from .common import *
from .gv import gvectors
import cmath

EXPLANATION = ('The generic coefficient WF[b, s*NG+g] handed to every k-point is extracted as a closed form over the file content (through reading, '
               'cutoff, sorting and band selection) and compared with the coefficient of the plane wave ig[:,g], spin component s and band '
               'IBstart-1+b in the file.')
ASSUMPTIONS = ('record layout of the files as modelled in sa/world.py',)


def gauge(a):
    """each row divided by its first entry (normalisation of a band is irrelevant)"""
    def f(x):
        if x and isinstance(x[0], list):
            return [f(y) for y in x]
        return [y / x[0] for y in x] if x and x[0] != 0 else x
    return f(a)


def run(ctx):
    gvectors(ctx, (0, 1, 2, 3), 'each plane wave with its place in the file: G3 slowest, G1 fastest, 0..max then the negative ones', 'plane waves')
    npw = 8
    for n in MATRIX:
        code, sp, opt, _ = MATRIX[n]
        if code in ('vasp', 'wannier90'):
            r = get(n, ctx)
            ns = 2 if sp else 1
            if code == 'vasp':
                def spec(M, k):
                    igf = [M.sym('ig', (3, g)) for g in range(M.sym('NG'))]
                    return [[M.sym('psiF', (k, 2 + b, s * M.sym('NPW') + f)) for s in range(ns) for f in igf] for b in range(4)]
                kw = dict(sizes=dict(NB=9, NPW=9), ig=lambda i, g: (5 * g + 3 * i) % 7)
            else:
                def spec(M, k):
                    N = [M.sym(x) for x in ('ngx', 'ngy', 'ngz')]
                    out = []
                    for b in range(4):
                        row = []
                        for s in range(ns):
                            for g in range(M.sym('NG')):
                                t = 0
                                for x in range(N[0]):
                                    for y in range(N[1]):
                                        for z in range(N[2]):
                                            t += M.sym('uR', (k, 2 + b, s, x + N[0] * (y + N[1] * z))) * cmath.exp(-2j * PI * (
                                                M.sym('ig', (0, g)) * x / N[0] + M.sym('ig', (1, g)) * y / N[1] + M.sym('ig', (2, g)) * z / N[2]))
                                row.append(t)
                        out.append(row)
                    return out
                kw = dict(sizes=dict(NB=9, ngx=2, ngy=3, ngz=4, NG=3), post=gauge)
        else:
            if not ctx.thorough and n in ('espresso-k', 'espresso-up'):
                continue
            r = get(n, ctx, cut_sort=False)
            gs = {'espresso-dw': 'GFdw', 'espresso-up': 'GFup'}.get(n, 'GF')
            ps = {'espresso-dw': 'psiFdw', 'espresso-up': 'psiFup'}.get(n, 'psiF')
            ns = 2 if sp else 1

            def spec(M, k):
                ks = kept(M, k, npw, M.sym('Ecut'), gs)
                return [[M.sym(ps, (k, 2 + b, s * npw + g)) for s in range(ns) for g in ks] for b in range(4)]
            kw = dict(sizes=dict(NK=1, NPW=npw, NB=9, NBUP=8, NBDW=9), Ecut=med_ecut(npw, gs, 1 if code == 'abinit' else 0), Ecut0=lambda: 1e9,
                      npwk=lambda k: npw, nbandk=lambda k: 9)
        each(ctx, 'coefficients[%s]' % n, r, 'Kpoint.__init__', lambda o, c: eq_k(
            ctx, o, c, 'WF', spec, rule='WF[b, s*NG+g] is the coefficient of plane wave ig[:,g], component s, band IBstart-1+b', **kw), last=True)
