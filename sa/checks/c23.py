"""C23: operations written to a .sym file and read back are the same operations"""
from .common import *
from .out import outputs, whole
from .kp import wm
from ..drivers import method as call_method

EXPLANATION = ('write_sym_file is interpreted to the text it writes, which is compared with the definition of the format (number of operations, Cartesian rotation, minus the '
               'translation in units of the lattice parameter); reading is interpreted on a symbolic file, and the rotations and translations given to the operations are '
               'compared with the inverse of that definition. Both use one lattice and one lattice parameter.')
ASSUMPTIONS = ('rows of numbers as Fortran codes write them; translations of operations are modulo lattice vectors',)
BOHR_ = 0.52917721067

declare('Rfile')
declare('tfile')
declare('alatF')


def cartesian(M, A, R):
    """A^T R A^-T"""
    At = [list(x) for x in zip(*A)]
    return mmul(mmul(At, R), inv([[complex(x) for x in r] for r in At]))


def mmul(a, b):
    return [[sum(x * y for x, y in zip(r, c)) for c in zip(*b)] for r in a]


def content(M, alat):
    A = mat(M, 'L', 3, 3)
    n = M.sym('NSYM')
    out = [n]
    for s in range(n):
        R = [[M.sym('symR', (s, i, j)) for j in range(3)] for i in range(3)]
        t = [M.sym('symt', (s, i)) for i in range(3)]
        out += [x for r in cartesian(M, A, R) for x in r]
        out += [-sum(t[i] * A[i][j] for i in range(3)) / (alat(M) * BOHR_) for j in range(3)]
    return [complex(x).real for x in out]


def written(ctx, name, run, alat, path):
    rule = 'number of operations, then Cartesian rotation (rows) and minus the Cartesian translation over alat (Bohr) of each, to at least 8 decimals'
    if run.exc or run.aborted:
        return ctx.ob(name, *stopped(run), '', rule)
    evs = outputs(run, ('write',))
    done, why = 0, ''
    for s in range(1, 9 if ctx.thorough else 5):
        M = Model(s)
        try:
            toks = whole(M, evs).split()
            want = content(M, alat)
        except Undecided as x:
            why = str(x)
            continue
        try:
            got = [float(x) for x in toks]
        except ValueError as x:
            return ctx.ob(name, 'violated', 'a word that is not a number: %s' % x, evs[0].where() if evs else '', rule)
        bad = [(i, g, w) for i, (g, w) in enumerate(zip(got, want)) if abs(g - w) > 2e-8 * max(1, abs(w))]
        if len(got) != len(want) or bad:
            return ctx.ob(name, 'violated', '%d numbers, required %d; first difference %s' % (len(got), len(want), bad[:1]), evs[0].where() if evs else '', rule)
        done += 1
    ctx.ob(name, 'ok' if done else 'undecided', '%d models' % done if done else why, evs[0].where() if evs else '', rule)
    files = {str(e.data.get('path')) for e in evs}
    ctx.true(name + '-name', files == {str(Const(path))} if evs else None, str(files), evs[0].where() if evs else '', 'the file named by the user')


def lines(ctx, run):
    """each operation takes its own four rows of three numbers"""
    rule = 'rows of three numbers, one operation after the other'
    evs = outputs(run, ('write',))
    M = Model(1)
    try:
        rows_ = [len(x.split()) for x in whole(M, evs).split('\n') if x.split()]
    except Undecided as x:
        return ctx.ob('rows', 'undecided', str(x), '', rule)
    ctx.true('rows', rows_ == [1] + [3] * (4 * M.sym('NSYM')), str(rows_), evs[0].where() if evs else '', rule)


def write(ctx):
    r = ctx.run(call_method(sgobj('write_sym_file[alat]'), 'write_sym_file', filename=Const('OUT.sym'), alat=scal(sym('alatF'))))
    written(ctx, 'written[alat given]', r, lambda M: M.sym('alatF'), 'OUT.sym')
    lines(ctx, r)
    r = ctx.run(call_method(sgobj('write_sym_file[own]'), 'write_sym_file', filename=Const('OUT.sym')))
    written(ctx, 'written[alat of the calculation]', r, lambda M: M.sym('alat'), 'OUT.sym')
    r = ctx.run(call_method(sgobj('write_sym_file[none]', alat=NONE), 'write_sym_file', filename=Const('OUT.sym')))
    written(ctx, 'written[no alat]', r, lambda M: 1., 'OUT.sym')


def mod1(f):
    import cmath

    def g(M):
        return [cmath.exp(2j * cmath.pi * complex(x)) for x in f(M)]
    return g


def read(ctx):
    sg = None
    for n in (1, 3):
        for spinor in (False, True):
            tag = '[%d%s]' % (n, ',soc' if spinor else '')
            run = sgobj('read symmetries' + tag, spinor=spinor)
            run.world.opt['nsymfile'] = n
            record_call(run, 'SymmetryOperation.__init__', lambda I, env, st, node: NONE)
            ctx.run(call_method(run, '_findsym', cell=Tup([mk('L', 3, 3), mk('pos', NAT, 3), mk('typ', NAT, dtype='i')]), from_sym_file=Const('FSYM'), alat=scal(sym('alatF'))))
            cs = [c for c in calls(run, 'SymmetryOperation.__init__') if not c['spec']]
            rule = 'one operation per entry of the file, in order'
            if run.exc or run.aborted:
                ctx.ob('read' + tag, *stopped(run), '', rule)
                continue
            ctx.true('read' + tag, len(cs) == n, '%d operations' % len(cs), where(cs[0]) if cs else '', rule)
            for k, c in enumerate(cs[:n]):
                def R(M):
                    return [[M.sym('symR', (k, i, j)) for j in range(3)] for i in range(3)]

                ctx.eq('read-rotation%s[%d]' % (tag, k), c['args'].get('rot'), R, where=where(c), rule='R = A^-T R_cart A^T', Rfile=wm(lambda M, k, i, j: cart_of(M, k)[i][j]), symR=lambda k, i, j: (k * 7 + i * 3 + j * 5) % 3 - 1)

                def t(M):
                    iA = inv([[complex(x) for x in r] for r in mat(M, 'L', 3, 3)])
                    return [-sum(M.sym('tfile', (k, i)) * iA[i][j] for i in range(3)) * M.sym('alatF') * BOHR_ for j in range(3)]
                got = c['args'].get('trans')
                ctx.eq('read-translation%s[%d]' % (tag, k), mod1(lambda M: M.arr(got)) if isinstance(got, Arr) and got.form is not None else None, mod1(t), where=where(c),
                       rule='t = -t_file A^-1 alat, modulo lattice vectors')
                ctx.eq('read-lattice%s[%d]' % (tag, k), c['args'].get('Lattice'), lambda M: mat(M, 'L', 3, 3), where=where(c), rule='the lattice of the calculation')
                ctx.eq('read-number%s[%d]' % (tag, k), c['args'].get('ind'), lambda M: k + 1, where=where(c), rule='numbered from 1')
                ctx.eq('read-spinor%s[%d]' % (tag, k), c['args'].get('spinor'), lambda M: int(spinor), where=where(c), rule='spinor of the calculation')


def cart_of(M, k):
    return cartesian(M, mat(M, 'L', 3, 3), [[M.sym('symR', (k, a, b)) for b in range(3)] for a in range(3)])


def run(ctx):
    write(ctx)
    read(ctx)
