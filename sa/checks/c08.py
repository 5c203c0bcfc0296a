"""C08: sets of degenerate bands tile the window of bands"""
from .kp import *
from .common import MATRIX

EXPLANATION = ('borders, degeneracies and mean energies of Kpoint are extracted as closed forms over the band energies, and the threshold is traced from BandStructure and '
               'from the methods that group bands again.')
ASSUMPTIONS = ('energies in ascending order',)


def cutpoints(M):
    s = sets(M)
    return [a for a, b in s] + [s[-1][1]]


def _E(M, b, steps):
    r = random.Random(M.seed * 41)
    return sum(r.choice(steps) for _ in range(b + 1)) - 1e-9


def mean(M, b1, b2):
    return sum(M.sym('En', (b,)) for b in range(b1, b2)) / (b2 - b1)


def run(ctx):
    ones = {**KM, 'En': wm(lambda M, b: 0.001 * b)}                  # a single set
    apart = {**KM, 'En': wm(lambda M, b: 1.0 * b + 0.1 * M.seed)}    # no degeneracy
    small = {**KM, 'degthr': lambda: 1e-8, 'En': wm(lambda M, b: _E(M, b, (1e-9, 3e-8, 5e-7, 4e-6, 2e-4, 0.3)))}
    large = {**KM, 'degthr': lambda: 2.5, 'En': wm(lambda M, b: _E(M, b, (0.01, 0.5, 1.5, 2.7, 4.0)))}
    for sp in (False, True):
        for traces in (True, False):
            r = ctx.run(kpoint(sp, 'Kpoint[spinor=%s,traces=%s]' % (sp, traces), traces=traces))
            for tag, kw in (('', KM), (',one set', ones), (',no degeneracy', apart), (',small threshold', small), (',large threshold', large)):
                t = '[%s%s%s]' % ('soc' if sp else 'scalar', '' if traces else ',no traces', tag)
                ctx.eq('borders' + t, attr(r, 'borders'), cutpoints, sizes=KS_, rule='0, every gap above the threshold, number of bands', **kw)
                ctx.eq('degeneracies' + t, attr(r, 'degeneracies'), lambda M: [b - a for a, b in sets(M)], sizes=KS_, rule='sizes of the sets', **kw)
                if traces:
                    ctx.eq('mean-energy' + t, attr(r, 'Energy_mean'), lambda M: [mean(M, a, b) for a, b in sets(M)], sizes=KS_, rule='mean energy of each set', **kw)
                    ctx.eq('sets-of-characters' + t, attr(r, 'char'), lambda M: [[chi(M, p, *s) for p in little(M)] for s in sets(M)], sizes=KS_,
                           rule='one row of characters per set, over exactly its bands', **kw)
    # the threshold given by the caller reaches every k-point
    for n in ('vasp', 'abinit', 'espresso', 'w90', 'vasp-soc', 'w90-soc'):
        r = get(n, ctx, degen_thresh=scal(sym('userthr')))
        each(ctx, 'threshold[%s]' % n, r, 'Kpoint.__init__', lambda o, c: ctx.eq(
            o, c['args'].get('degen_thresh'), lambda M: M.sym('userthr'), where=where(c), rule='degen_thresh of BandStructure is that of every k-point'))
        each(ctx, 'bands[%s]' % n, r, 'Kpoint.__init__', lambda o, c: ctx.eq(
            o, c['args'].get('num_bands'), lambda M: 4, where=where(c), sizes=dict(NB=9, NBUP=8, NBDW=10), nbandk=lambda k: 9, rule='number of bands of a k-point is that of the window'))
