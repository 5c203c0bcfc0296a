"""C01: energies in eV, relative to the Fermi level, of the right band and k-point"""
from .common import *

EXPLANATION = ('Abstract interpretation of BandStructure.__init__ and the four readers on symbolic input files: the generic element of '
               'the energies handed to every k-point, and of the first level above the bands, is extracted as a closed form over the '
               'physical symbols (E[k,b] in eV, EF) and compared with E[k,IBstart-1+b]-EF by random interpretation.')
ASSUMPTIONS = ('file formats as modelled in sa/world.py', 'IBstart=3, IBend=6 as generic window')

# the models: NB etc. larger than the window
BIG = dict(NB=9, NBUP=8, NBDW=10)
SP = dict(nbandk=lambda k: 9)


def espec(code, opt, ef, hi=False, ibstart=3, ibend=6, chan=None):
    def spec(M, k):
        f = M.sym('EF') if ef is None else ef
        off = M.sym('NBUP') if chan == 'dw' else 0
        if hi:
            return M.sym('E', (k, off + ibend)) - f
        return [M.sym('E', (k, off + b)) - f for b in range(ibstart - 1, ibend)]
    return spec


def run(ctx):
    for n in MATRIX:
        r = get(n, ctx)
        chan = 'dw' if n == 'espresso-dw' else None
        ef = 0.0 if r.code == 'vasp' else None
        each(ctx, 'energies[%s]' % n, r, 'Kpoint.__init__', lambda o, c: eq_k(
            ctx, o, c, 'Energy', espec(r.code, r.opt, ef, chan=chan), sizes=BIG, **SP, tol=1e-5,
            rule='Energy[b] == E[k, IBstart-1+b] - EF (eV)'))
        each(ctx, 'upper[%s]' % n, r, 'Kpoint.__init__', lambda o, c: eq_k(
            ctx, o, c, 'upper', espec(r.code, r.opt, ef, hi=True, chan=chan), sizes=BIG, **SP, tol=1e-5,
            rule='upper == E[k, IBend] - EF (eV)'))
        # explicit Fermi level
        r2 = get(n, ctx, EF=Const('1.25'))
        each(ctx, 'energies-EF[%s]' % n, r2, 'Kpoint.__init__', lambda o, c: eq_k(
            ctx, o, c, 'Energy', espec(r.code, r.opt, 1.25, chan=chan), sizes=BIG, **SP, tol=1e-5,
            rule='Energy[b] == E[k, IBstart-1+b] - EF given by the user'))
        each(ctx, 'upper-EF[%s]' % n, r2, 'Kpoint.__init__', lambda o, c: eq_k(
            ctx, o, c, 'upper', espec(r.code, r.opt, 1.25, hi=True, chan=chan), sizes=BIG, **SP, tol=1e-5,
            rule='upper == E[k, IBend] - EF given by the user'))
