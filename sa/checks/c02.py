"""C02: lengths in Angstrom, cutoff by kinetic energy in eV, for every code"""
from .common import *
from .gv import gvectors

EXPLANATION = ('Forms of the lattice, the atomic positions, the reciprocal lattice and the set of plane waves that survive the cutoff are extracted '
               'by abstract interpretation of every reader, of BandStructure and of sortIG on symbolic files whose content is given in physical '
               'units; each is compared with its definition (Angstrom, direct coordinates, 2 pi inverse transpose, hbar^2|k+G|^2/2m < Ecut in eV) '
               'by random interpretation.')
ASSUMPTIONS = ('units and layout of the files as documented by the codes (sa/world.py)',)


def run(ctx):
    gvectors(ctx, (0, 1, 2), 'plane waves kept == those with hbar^2|k+G|^2/2m below the cutoff, ascending', 'plane waves')
    for n in MATRIX:
        r = get(n, ctx)
        cart = r.opt.get('cartesian')

        def cell(o, c):
            x = c['args'].get('cell')
            it = x.items if isinstance(x, Tup) else [None, None]
            ctx.eq('lattice[%s]' % n, it[0], lattice, where=where(c), rule='lattice vectors in Angstrom, one per row')
            ctx.eq('positions[%s]' % n, it[1], lambda M: mat(M, 'pos', natoms_of(M, r), 3), where=where(c), tol=1e-5,
                   rule='positions in direct coordinates')
            if r.code != 'espresso' or r.opt.get('atoms'):
                species(ctx, n, r, it)
        each(ctx, 'cell[%s]' % n, r, 'SpaceGroup.__init__', cell)
        each(ctx, 'reciprocal[%s]' % n, r, 'Kpoint.__init__', lambda o, c: ctx.eq(
            o, c['args'].get('RecLattice'), lambda M: recip(lattice(M)), where=where(c), rule='L_i . B_j = 2 pi delta_ij'))
    npw = 16
    for n in ('espresso', 'espresso-soc', 'espresso-dw', 'abinit', 'abinit-soc') if ctx.thorough else ('espresso-soc', 'abinit'):
        r = get(n, ctx, cut_sort=False)
        gs = 'GFdw' if n == 'espresso-dw' else 'GF'
        kw = dict(sizes=dict(NK=1, NPW=npw, NB=9, NBUP=8, NBDW=9), Ecut=med_ecut(npw, gs, 1 if r.code == 'abinit' else 0), Ecut0=lambda: 1e9, npwk=lambda k: npw, nbandk=lambda k: 9)

        def igspec(M, k):
            ks = kept(M, k, npw, M.sym('Ecut'), gs)
            return [[M.sym(gs, (k, g, i)) for g in ks] for i in range(3)]
        each(ctx, 'cutoff[%s]' % n, r, 'Kpoint.__init__', lambda o, c: eq_k(
            ctx, o, c, rows(c['args'].get('ig'), 3), igspec, rule='plane wave kept iff hbar^2|k+G|^2/2m < Ecut, ascending in energy', **kw), last=True)


def natoms_of(M, r):
    if r.code == 'vasp':
        return M.sym('NA', (0,)) + M.sym('NA', (1,))
    if r.code == 'wannier90':
        return 3
    if r.opt.get('atoms'):
        return len(r.opt['atoms'])
    return r.opt.get('nat') or M.sym('NAT')


def species(ctx, n, r, it):
    """two atoms get the same number iff they are of the same species"""
    v = it[2] if len(it) == 3 else None
    rule = 'same number iff same species, one number per atom'
    rec = r.I.rec(v, r.st) if isinstance(v, Ref) else None
    if isinstance(rec, ListRec) and not rec.unk:
        def value(M):
            out = []
            for s in rec.segs:
                if isinstance(s, tuple) and s[0] == 'gen' and isinstance(s[3], Arr) and s[3].form is not None:
                    out += [M.ev(s[3].form, {s[1]: i}) for i in range(M.size(s[2], {}))]
                elif isinstance(s, Arr) and s.form is not None and not s.axes:
                    out.append(M.ev(s.form, {}))
                else:
                    raise Undecided('species')
            return out
    elif isinstance(v, Arr) and v.form is not None and not v.axes:
        return ctx.ob('species[%s]' % n, 'violated', 'a number instead of one number per atom (spglib refuses it)', '', rule)
    elif isinstance(v, Arr) and v.form is not None:
        value = lambda M: M.arr(v)
    else:
        return ctx.ob('species[%s]' % n, 'undecided', 'not resolved: %s' % v, '', rule)

    def names(M):
        if r.code == 'vasp':
            return [0] * M.sym('NA', (0,)) + [1] * M.sym('NA', (1,))
        if r.code == 'wannier90':
            return [0, 1, 0]
        if r.opt.get('atoms'):
            return list(r.opt['atoms'])
        if r.code == 'abinit':
            return [M.sym('typ', (i,)) for i in range(natoms_of(M, r))]
        return [M.sym('SPNAME', (M.sym('styp', (i,)),)) for i in range(M.sym('NAT'))]

    def same(f):
        return lambda M: [[int(a == b) for b in x] for x in [f(M)] for a in x]
    ctx.eq('species[%s]' % n, same(value), same(names), rule=rule)
