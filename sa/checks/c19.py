"""C19: separation by a symmetry loses, duplicates and mixes no state"""
import cmath, random
from .common import *
from .kp import wm
from ..pyval import pyval, diff
from ..evalform import hashval
from ..drivers import method as call_method

EXPLANATION = ('Kpoint.Separate is interpreted with the diagonalisation as an opaque function of each diagonal block; the dictionary it returns is evaluated in random models '
               '(sets of degenerate bands, eigenvalues with and without conjugate pairs, eigenvalues across the cut of the angle) and compared with the partition of the eigenstates '
               'by eigenvalue. Kpoint.copy_sub is compared with the states sorted by energy, BandStructure.Separate with the collection of the k-points of each eigenvalue.')
ASSUMPTIONS = ('numpy.linalg.eig returns eigenvalues and eigenvectors of the block', 'eigenvalues are of modulus one')

for _n in ('bord',):
    declare(_n, integer=True)
declare('SMAT', real=False)
declare('DEGEN')
declare('Ein')
declare('WFin', real=False)
declare('indin', integer=True)
NIN = sym(declare('NIN', integer=True))
WHERE = 'irrep/kpoint.py:Kpoint.Separate'


def degs(M):
    return [(2, 1, 4, 1), (2, 2, 2), (1, 3, 2, 2), (4, 2, 1), (2,), (1, 1, 2, 1)][M.seed % 6]


def degs_even(M):
    return [(2, 4, 2), (2, 2, 2), (4, 2), (2, 6), (2,), (2, 2, 4)][M.seed % 6]


VALUES = [[1, -1], [-1, 1j, -1j, 1], [1j, -1j], [cmath.exp(2j * cmath.pi * k / 3) for k in range(3)], [cmath.exp(1j * cmath.pi * (2 * k + 1) / 4) for k in range(4)],
          [cmath.exp(1j * cmath.pi * (2 * k + 1) / 6) for k in range(6)], [cmath.exp(1j * cmath.pi * (2 * k + 1) / 3) for k in range(3)], [-1]]


def eig(paired):
    def f(M, m):
        n = len(m)
        r = random.Random('%d %s' % (M.seed, ' '.join('%.6g' % (complex(x).real + 2 * complex(x).imag) for row in m for x in row)))
        vals = VALUES[M.seed % len(VALUES)]
        if paired:
            w = []
            while len(w) < n:
                z = r.choice(vals)
                w += [z, complex(z).conjugate()]
            r.shuffle(w)
        else:
            w = [r.choice(vals) for _ in range(n)]
        # numerical noise, also across the cut of the angle at -1
        w = [complex(z) * cmath.exp(1e-9j * (-1) ** (i + M.seed) * (1 + r.random())) * (1 + 1e-6 * r.random()) for i, z in enumerate(w[:n])]
        return w, [[complex(r.gauss(0, 1), r.gauss(0, 1)) for _ in range(n)] for _ in range(n)]
    return f


def model(seed, paired):
    D = degs_even if paired else degs
    return Model(seed, dict(NB=0, NG=3), **{'NSET': wm(lambda M: len(D(M))), 'degk': wm(lambda M, i: D(M)[i]), 'bord': wm(lambda M, i: sum(D(M)[:i])),
                                            'NB': wm(lambda M: sum(D(M))), 'Em': wm(lambda M, i: -2. + 0.7 * i), '%eig': eig(paired)}), D


def states(M, D, paired):
    """(normalised eigenvalue, energy, wave function, index of the set) of every eigenstate"""
    out, b = [], 0
    for s, n in enumerate(D(M)):
        m = [[M.sym('SMAT', (b + i, b + j)) for j in range(n)] for i in range(n)]
        w, V = eig(paired)(M, m)
        for j in range(n):
            wf = [sum(V[i][j] * M.sym('psi', (b + i, g)) for i in range(n)) for g in range(M.sym('NG'))]
            out.append((w[j] / abs(w[j]), M.sym('Em', (s,)), wf, s))
        b += n
    return out


def groups(st, kramers):
    out = []
    for x in st:
        for g in out:
            a, b = g[0][0], x[0]
            if abs(a.real - b.real if kramers else a - b) < 1e-4:
                g.append(x)
                break
        else:
            out.append([x])
    return out


def same_states(got, want):
    """as sets of (energy, wave function, index)"""
    rest = list(want)
    for e, wf, i in got:
        for k, (_, e2, wf2, i2) in enumerate(rest):
            if abs(e - e2) < 1e-6 and abs(i - i2) < 1e-6 and len(wf) == len(wf2) and all(abs(complex(x) - y) < 1e-5 * max(1, abs(y)) for x, y in zip(wf, wf2)):
                del rest[k]
                break
        else:
            return False
    return not rest


def separation(ctx):
    rule = 'each eigenstate is in exactly one subspace, with its energy, wave function and set; states are together exactly if their eigenvalues (Kramers: the real parts) agree'
    for kramers in (True, False):
        for paired in (True, False):
            tag = '[%s,%s]' % ('Kramers' if kramers else 'single', 'pairs' if paired else 'any')
            run = kobj(False, 'Separate' + tag, borders=mk('bord', NSET + ONE, dtype='i'), irreps=Unknown(why='irreps'))
            record_call(run, 'symm_matrix', lambda I, env, st, node: mk('SMAT', NB, NB, dtype='c'))
            record_call(run, 'Kpoint.copy_sub', lambda I, env, st, node: Tup([env.get('E', NONE), env.get('WF', NONE), env.get('inds', NONE)]))
            k = run.obj
            o = one_symop(run)
            run.obj = k
            # eigenvalues are of modulus one: the refusal of other matrices is decided by the model
            M1, _ = model(1, paired)
            run.I.premise = lambda f: prem(f, paired)
            ctx.run(call_method(run, 'Separate', o, degen_thresh=scal(sym('DEGEN')), groupKramers=boolv(kramers)))
            if run.exc or run.aborted:
                ctx.ob('partition' + tag, *stopped(run), WHERE, rule)
                continue
            done, why = 0, ''
            for seed in range(1, 22 if ctx.thorough else 13):
                M, D = model(seed, paired)
                M.cut = True
                try:
                    got = pyval(M, run, run.result)
                except Undecided as x:
                    why = str(x)
                    continue
                want = groups(states(M, D, paired), kramers)
                d = None
                if len(got) != len(want):
                    d = '%d subspaces instead of %d' % (len(got), len(want))
                else:
                    for key, v in got.items():
                        g = next((g for g in want if abs(complex(key).real - g[0][0].real) < 1e-4 and
                                  (abs(complex(key) - sum(x[0] for x in g) / len(g)) < 1e-4)), None)
                        if g is None:
                            d = 'no subspace has the eigenvalue %s' % (key,)
                        elif not (isinstance(v, tuple) and len(v) == 3 and len(v[0]) == len(v[1]) == len(v[2])) or not same_states(list(zip(*v)), g):
                            d = 'the subspace of %s does not consist of the states with this eigenvalue' % (key,)
                if d:
                    ctx.ob('partition' + tag, 'violated', d + ' (model %d)' % seed, WHERE, rule)
                    break
                done += 1
            else:
                ctx.ob('partition' + tag, 'ok' if done > 5 else 'undecided', '%d models; %s' % (done, why), WHERE, rule)
            for c in calls(run, 'symm_matrix'):
                operands(ctx, tag, c)


def prem(f, paired):
    """value of a condition that is the same in all models"""
    vals = set()
    for seed in range(1, 8):
        M, _ = model(seed, paired)
        try:
            vals.add(abs(M.ev(f, {})) > 1e-12)
        except Exception:
            return None
    return vals.pop() if len(vals) == 1 else None


def operands(ctx, tag, c):
    for k, f in (('K', lambda M: [M.sym('kk', (i,)) for i in range(3)]), ('A', lambda M: [[M.sym('symR', (0, i, j)) for j in range(3)] for i in range(3)]),
                 ('S', lambda M: [[M.sym('symS', (0, i, j)) for j in range(2)] for i in range(2)]), ('T', lambda M: [M.sym('symt', (0, i)) for i in range(3)]),
                 ('WF', lambda M: [[M.sym('psi', (b, g)) for g in range(M.sym('NG'))] for b in range(M.sym('NB'))])):
        ctx.eq('operand-%s%s' % (k, tag), c['args'].get(k), f, where=where(c), rule='the matrix of the given operation between the bands of the k-point')


def subset(ctx):
    """copy_sub: the states given, by ascending energy"""
    rule = 'the states given, by ascending energy, each with its energy, wave function, and the irreps and characters of its set'
    for n in (1, 2, 4):
        run = kobj(False, 'copy_sub[%d]' % n, borders=mk('bord', NSET + ONE, dtype='i'), irreps=None)
        run.I.rec(run.obj, run.st).attrs['irreps'] = run_irreps(run)
        for k in ('degeneracies', 'num_bands'):
            run.I.rec(run.obj, run.st).attrs.setdefault(k, NONE)
        first = {k: str(v) for k, v in run.I.rec(run.obj, run.st).attrs.items()}
        ctx.run(call_method(run, 'copy_sub', mk('Ein', const(n)), mk('WFin', const(n), sym('NG'), dtype='c'), mk('indin', const(n), dtype='i')))
        tag = '[%d]' % n
        if run.exc or run.aborted or not isinstance(run.result, Ref):
            ctx.ob('subspace' + tag, *stopped(run), WHERE, rule)
            continue
        want = {
            'Energy_mean': lambda M, o: [M.sym('Ein', (i,)) for i in o], 'Energy_raw': lambda M, o: [M.sym('Ein', (i,)) for i in o],
            'WF': lambda M, o: [[M.sym('WFin', (i, g)) for g in range(M.sym('NG'))] for i in o], 'num_bands': lambda M, o: n, 'degeneracies': lambda M, o: [1] * n,
            'borders': lambda M, o: list(range(n + 1)), 'irreps': lambda M, o: [M.sym('IRR', (M.sym('indin', (i,)),)) for i in o],
            'char': lambda M, o: [[M.sym('char', (M.sym('indin', (i,)), s)) for s in range(M.sym('NLG'))] for i in o],
            'char_refUC': lambda M, o: [[M.sym('charR', (M.sym('indin', (i,)), s)) for s in range(M.sym('NLG'))] for i in o],
            'k': lambda M, o: [M.sym('kk', (i,)) for i in range(3)], 'upper': lambda M, o: M.sym('Eup'), 'ig': None, 'little_group': None, 'spinor': None}
        r = run.I.rec(run.result, run.st)
        src = run.I.rec(run.obj, run.st)
        ctx.true('another-object' + tag, run.result.addr != run.obj.addr, '', WHERE, 'the k-point itself is not changed')
        for k, f in want.items():
            v = r.attrs.get(k)
            if f is None:
                ctx.true('kept-%s%s' % (k, tag), str(v) == str(src.attrs.get(k)), '', WHERE, 'k-point, plane waves and operations are those of the k-point')
                continue
            if v is None:
                ctx.ob('states-%s%s' % (k, tag), 'undecided', 'no attribute', WHERE, rule)
                continue
            why, done = '', 0
            for seed in range(1, 7):
                M = Model(seed, dict(NB=5, NG=3, NLG=3, NSET=4), Ein=lambda i: [3.5, -1.25, 2., 0.5][(i + seed) % 4], indin=lambda i: [2, 0, 3, 1][(i * 3 + seed) % 4])
                o = sorted(range(n), key=lambda i: M.sym('Ein', (i,)))
                try:
                    d = diff(pyval(M, run, v), f(M, o))
                except Undecided as x:
                    why = str(x)
                    continue
                if d:
                    ctx.ob('states-%s%s' % (k, tag), 'violated', d, WHERE.replace('Separate', 'copy_sub'), rule)
                    break
                done += 1
            else:
                ctx.ob('states-%s%s' % (k, tag), 'ok' if done else 'undecided', why, WHERE, rule)
        for k, v in first.items():
            ctx.true('unchanged-%s%s' % (k, tag), str(src.attrs.get(k)) == v, str(src.attrs.get(k))[:100], WHERE, 'the k-point itself is not changed')
        v = r.attrs.get('num_bandinvs')
        v = run.I.loadv(v, run.st) if v is not None else None
        inh = isinstance(v, Arr) and v.form is not None and str(v.form) == str(sym('NINV'))
        ctx.true('odd-states', not inh, 'num_bandinvs is the one of all states of the k-point', WHERE.replace('Separate', 'copy_sub'), 'the number of inversion-odd states of a subspace counts its states')


def run_irreps(run):
    l = new_label()
    LABLEN[l] = NSET
    return run.I.alloc(ListRec([('gen', l, NSET, scal(sym('IRR', lab(l))))]), run.st)


# eigenvalues of the subspaces of three k-points
C3 = cmath.exp(2j * cmath.pi / 3)
C4 = cmath.exp(1j * cmath.pi / 4)
CASES = [
    (False, [[1, -1], [1, -1], [1, -1]]),
    (False, [[1j, -1j], [-1j, 1j], [1j]]),
    (False, [[1, C3, C3.conjugate()], [C3, 1], [C3.conjugate(), 1, C3]]),
    (False, [[-1 + 1e-9j, 1], [1, -1 - 1e-9j], [-1 + 1e-9j]]),
    (False, [[C4, C4.conjugate(), -C4, -C4.conjugate()], [-C4, C4], [C4.conjugate()]]),
    (False, [[1], [1 + 1e-8j], [1]]),
    (True, [[0.], [1e-8], [-1e-9]]),
    (True, [[-1, 0.5], [0.5, -1], [0.5]]),
    (True, [[1, -0.5], [1], [-0.5]]),
    (True, [[1, -1], [-1], [1, -1]]),
    (True, [[C4.real, -C4.real], [-C4.real + 1e-9, C4.real], [C4.real]]),
    (True, [[1, C3], [C3.conjugate(), 1], [-0.5, 1]]),        # partners at -k
]


def closed(f):
    """value of a condition without unknowns"""
    out = set()
    for seed in (1, 2, 3):
        try:
            out.add(abs(Model(seed).ev(f, {})) > 1e-12)
        except Exception:
            return None
    return out.pop() if len(out) == 1 else None


def cst(z):
    z = complex(z)
    return scal(const(z.real)) if z.imag == 0 else Arr((), const(z), 'c', py=True)


def bands(ctx):
    where_ = 'irrep/bandstructure.py:BandStructure.Separate'
    rule = 'one band structure per eigenvalue (Kramers: per real part), with the part of every k-point that has it, in the order of the k-points'
    for n, (kramers, keys) in enumerate(CASES):
        tag = '[%d,%s]' % (n, 'Kramers' if kramers else 'single')
        run = bsobj('Separate' + tag)
        I, st = run.I, run.st
        kcls = I.modules['irrep.kpoint']['env']['Kpoint']
        ks = [I.alloc(ObjRec(kcls, {'NUM': Const(i), '%open': boolv(True)}), st) for i in range(len(keys))]
        bs = I.rec(run.obj, st)
        bs.attrs['kpoints'] = I.newlist(ks, st)
        sg = I.rec(bs.attrs['spacegroup'], st)
        sc = I.modules['irrep.spacegroup']['env']['SymmetryOperation']
        sg.attrs['symmetries'] = I.newlist([I.alloc(ObjRec(sc, {'NUM': Const(i), '%open': boolv(True)}), st) for i in range(3)], st)

        def sep(I, env, st, node):
            i = I.rec(env['self'], st).attrs['NUM'].v
            return I.alloc(DictRec([(cst(z), Const('%d:%d' % (i, j))) for j, z in enumerate(keys[i])]), st)
        record_call(run, 'Kpoint.Separate', sep)
        record_call(run, 'SymmetryOperation.show')
        I.premise = closed
        ctx.run(call_method(run, 'Separate', scal(const(2), 'i'), degen_thresh=scal(sym('DEGEN')), groupKramers=boolv(kramers)))
        if run.exc or run.aborted:
            ctx.ob('bands' + tag, *stopped(run), where_, rule)
            continue
        want = []
        for i, kk in enumerate(keys):
            for j, z in enumerate(kk):
                z = complex(z)
                g = next((g for g in want if abs(g[0].real - z.real if kramers else g[0] - z) < 1e-4), None)
                if g is None:
                    want.append((z, ['%d:%d' % (i, j)]))
                else:
                    g[1].append('%d:%d' % (i, j))
        try:
            got = {}
            r = I.rec(run.result, run.st)
            if not isinstance(r, DictRec) or r.unk or r.gen or r.maybe:
                raise Undecided('dictionary not resolved')
            M = Model(1)
            for k, v in r.items:
                k = complex(pyval(M, run, k))
                o = I.rec(v, run.st)
                got[k] = ['%d:%d' % (i, 0) for i in range(len(keys))] if v.addr == run.obj.addr else [x if isinstance(x, str) else '?' for x in pyval(M, run, o.attrs['kpoints'])]
        except Undecided as x:
            ctx.ob('bands' + tag, 'undecided', str(x), where_, rule)
            continue
        d = None
        if len(got) != len(want):
            d = '%d subspaces instead of %d' % (len(got), len(want))
        for k, v in got.items():
            g = next((g for g in want if abs(g[0].real - k.real if kramers else g[0] - k) < 1e-4), None)
            if g is None or sorted(g[1]) != sorted(v) or [x[0] for x in v] != sorted(x[0] for x in v):
                d = d or 'the subspace of %s consists of %s instead of %s' % (k, v, g and g[1])
        ctx.true('bands' + tag, d is None, d or '', where_, rule)
        for c in calls(run, 'Kpoint.Separate')[:1]:
            s = c['args'].get('symop')
            ok = isinstance(s, Ref) and I.rec(s, run.st).attrs.get('NUM') == Const(1) if s is not None else None
            ctx.true('operation' + tag, I.rec(s, run.st).attrs['NUM'].v == 1 if isinstance(s, Ref) else None, '', where(c), 'the operation with the number given, counted from 1')
            gk = c['args'].get('groupKramers')
            ctx.eq('Kramers' + tag, gk, lambda M: int(kramers), where=where(c), rule='as requested')


def run(ctx):
    separation(ctx)
    subset(ctx)
    bands(ctx)
