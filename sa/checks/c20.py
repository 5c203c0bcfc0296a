"""C20: the symmetry-only mode needs no wave functions, gives the same space group and leaves no results of the analysis of bands"""
from .cli import *
from .c02 import lattice, natoms_of, species
from .out import render
from ..pyval import pyval

EXPLANATION = ('BandStructure is interpreted with onlysym for every reader: files opened, records of wave functions and calls of Kpoint are collected over all its paths, and the '
               'arguments of SpaceGroup are compared with the definition; cli() is interpreted with onlysym and every call, file and exit on its paths is checked.')
ASSUMPTIONS = ('layout of the files as documented by the codes (sa/world.py)',)
HEAD = {'vasp': ('FPOS',), 'abinit': ('FWFK',), 'espresso': ('PREFIX.save/data-file-schema.xml',), 'wannier90': ('PREFIX.win', 'PREFIX.eig')}


def pathname(M, run, p):
    try:
        s = pyval(M, run, p)
        return s if isinstance(s, str) else None
    except Undecided:
        pass
    if isinstance(p, StrT):
        return ''.join(x if isinstance(x, str) else '*' for x in p.parts)
    return None


def certain(exc):
    return bool(exc) and exc.exc in ('AttributeError', 'NameError', 'UnboundLocalError', 'TypeError', 'KeyError', 'IndexError', 'ValueError', 'RuntimeError')


def readers(ctx):
    T = boolv(True)
    for n in MATRIX:
        r = get(n, ctx, onlysym=T)
        if r.aborted:
            ctx.ob('run[%s]' % n, 'undecided', r.aborted, '', 'symmetry-only mode')
            continue
        if r.exc:
            ctx.true('run[%s]' % n, False if certain(r.exc) else None, str(r.exc.exc), '', 'symmetry-only mode ends normally')
        rule = 'only the files with the structure are read'
        bad = []
        unk = False
        for e in r.I.events:
            if e.kind in ('open', 'record', 'wfread'):
                p = pathname(Model(1), r, e.data.get('path'))
                if e.kind == 'wfread':
                    bad.append(('%s:%s' % (e.file, e.line), 'wave functions'))
                elif p is None:
                    unk = True
                elif p not in HEAD[r.code]:
                    bad.append(('%s:%s' % (e.file, e.line), p))
        ctx.true('files[%s]' % n, False if bad else None if unk or r.exc else True, 'read: %s' % bad[:2], bad[0][0] if bad else '', rule)
        ctx.true('no-k-points[%s]' % n, not calls(r, 'Kpoint.__init__') and not calls(r, 'calc_gvectors') if not r.exc else None,
                 '%d k-points created' % len(calls(r, 'Kpoint.__init__')), '', 'no k-point is analysed')

        def cell(o, c):
            x = c['args'].get('cell')
            it = x.items if isinstance(x, Tup) else [None, None]
            ctx.eq('lattice[%s]' % n, it[0], lattice, where=where(c), rule='lattice vectors in Angstrom, one per row')
            ctx.eq('positions[%s]' % n, it[1], lambda M: mat(M, 'pos', natoms_of(M, r), 3), where=where(c), tol=1e-5, rule='positions in direct coordinates')
            if r.code != 'espresso' or r.opt.get('atoms'):
                species(ctx, n, r, it)
            ctx.eq('spinor[%s]' % n, c['args'].get('spinor'), lambda M: int(r.spinor), where=where(c), rule='spinor of the calculation')
        each(ctx, 'cell[%s]' % n, r, 'SpaceGroup.__init__', cell)


OUT = ('BandStructure.identify_irreps', 'BandStructure.write_characters', 'BandStructure.write_irrepsfile', 'BandStructure.write_trace', 'BandStructure.write_plotfile',
       'BandStructure.json', 'BandStructure.Separate', 'BandStructure.zakphase', 'BandStructure.wcc')


def command(ctx):
    rule = 'the space group is shown, nothing of the bands is calculated or written, and the command ends normally'
    T = boolv(True)
    for tag, kw in (('', {}), ('writesym', dict(writesym=T)), ('names', dict(kpnames=Const('A,B,C'))), ('everything', dict(kpnames=Const('A,B,C'), isymsep=Const('2'), zak=T, wcc=T, plotbands=T,
                    symmetries=Const('1,2'), kpoints=Const('1-3'))), ('file', dict(from_sym_file=Const('SF'))), ('abinit', dict(code=Const('abinit'), spinor=T))):
        r = ctx.run(cli_run('onlysym' + tag, onlysym=T, **kw))
        if r.aborted or (r.exc and 'SystemExit' not in str(r.exc.exc)):
            ctx.true('command[%s]' % tag, False if certain(r.exc) else None, str(r.aborted or r.exc.exc), 'irrep/cli.py:cli', rule)
            continue
        q = [x[0] for x in r.order]
        bad = [x for x in q if x in OUT]
        files = [(e.kind, '%s:%s' % (e.file, e.line)) for e in r.I.events if e.kind == 'dumpfn' or (e.kind == 'open' and 'r' not in str(e.data.get('mode')))]
        ctx.true('no-analysis[%s]' % tag, not bad, str(bad), 'irrep/cli.py:cli', rule)
        ctx.true('no-files[%s]' % tag, not files, str(files), files[0][1] if files else 'irrep/cli.py:cli', rule)
        ctx.true('shown[%s]' % tag, q.count('SpaceGroup.show') == 1 and q.count('BandStructure.__init__') == 1, str(q), 'irrep/cli.py:cli', rule)
        ctx.true('sym-file[%s]' % tag, q.count('SpaceGroup.write_sym_file') == (tag == 'writesym'), str(q), 'irrep/cli.py:cli', 'file of symmetries exactly if requested')
        code = [e.data['args'] for e in r.I.events if e.kind == 'exit']
        vals = [a[0] for a in code if a]
        zero = all((isinstance(v, Const) and v.v in (None, 0)) or (isinstance(v, Arr) and v.form is not None and v.form.const() == 0) for v in vals)
        ctx.true('status[%s]' % tag, zero, str(vals), 'irrep/cli.py:cli', 'exit status 0')


def run(ctx):
    readers(ctx)
    command(ctx)
