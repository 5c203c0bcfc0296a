"""C25: operations are matched one to one with those of the tables, and the cell transformation is one for which they match"""
from .kp import *
from ..drivers import method as call_method, _NODE
from ..pyval import pyval
from ..forms import META
from ..arr import P as pick

EXPLANATION = ('match_symmetries is interpreted on lists of operations whose matrices and translations are symbols, under premises about which operation of the tables each of '
               'them is; branches are decided by evaluating their conditions in random models of the premise, and the result is compared with the premise.')
ASSUMPTIONS = ('premises cover permutations, lattice translations, mismatches of rotations and of translations and repeated operations',)

for _n in ('tabRm', 'tabtt', 'opR', 'opt_', 'refM', 'shM', 'thrM'):
    declare(_n)


def oplist(run, n):
    I, st = run.I, run.st
    cls = I.modules['irrep.spacegroup']['env'].get('SymmetryOperation')
    out = []
    for p in range(n):
        q = const(p)
        at = dict(rotation=mk('opR', 3, 3, pre=(q,)), translation=mk('opt_', 3, pre=(q,)), spinor_rotation=mk('opS', 2, 2, pre=(q,), dtype='c'), ind=scal(const(p + 1), 'i'),
                  sign=scal(ONE), Lattice=mk('L', 3, 3), spinor=boolv(run.world.spinor))
        at['%open'] = boolv(True)
        out.append(I.alloc(ObjRec(cls, at), st))
    return I.newlist(out, st)


def tablist(run, n):
    I, st = run.I, run.st
    cls = I.modules.get('irreptables', {}).get('env', {}).get('SymopTable')
    return I.newlist([I.alloc(ObjRec(cls, {'t': mk('tabtt', 3, pre=(const(i),)), 'R': mk('tabRm', 3, 3, pre=(const(i),)), 'S': mk('tabSm', 2, 2, pre=(const(i),), dtype='c'),
                                           '%open': boolv(True)}), st) for i in range(n)], st)


class Premise:
    """operation p is operation perm[p] of the tables (None: none of them), translated by the lattice vector n plus off[p]"""

    def __init__(self, perm, off=None, seeds=(1, 2, 3)):
        self.perm, self.off, self.seeds = perm, off or {}, seeds

    def model(self, seed):
        return Model(seed, None, opR=wm(lambda *a: self.R(*a)), opt_=wm(lambda *a: self.t(*a)), trthr=lambda: 1e-4, tabRm=wm(lambda *a: self.tR(*a)))

    def tR(self, M, i, a, b):
        return OPS[i][a][b]

    def ref(self, M):
        P = [[M.sym('refM', (i, j)) for j in range(3)] for i in range(3)]
        return P, inv([[complex(x) for x in r] for r in P])

    def R(self, M, p, a, b):
        P, Q = self.ref(M)
        q = self.perm[p]
        T = [[M.sym('tabRm', (q if q is not None else len(OPS) - 1, i, j)) for j in range(3)] for i in range(3)]
        return complex(matmul(matmul(P, T), Q)[a][b]).real

    def lattice(self, M, p):
        r = random.Random(M.seed * 91 + p)
        return [r.randint(-2, 2) + self.off.get(p, (0, 0, 0))[i] for i in range(3)]

    def t(self, M, p, i):
        """t + R s - s = refUC t_table - n"""
        P, Q = self.ref(M)
        q = self.perm[p]
        tt = [M.sym('tabtt', (q or 0, a)) for a in range(3)]
        s = [M.sym('shM', (a,)) for a in range(3)]
        R = [[self.R(M, p, a, b) for b in range(3)] for a in range(3)]
        n = self.lattice(M, p)
        return sum(P[i][a] * tt[a] for a in range(3)) - n[i] - sum(R[i][a] * s[a] for a in range(3)) + s[i]

    def dt(self, M, p):
        Q = self.ref(M)[1]
        n = self.lattice(M, p)
        return [complex(sum(Q[i][a] * n[a] for a in range(3))).real for i in range(3)]

    def __call__(self, form):
        out = set()
        for s in self.seeds:
            try:
                out.add(bool(abs(complex(self.model(s).ev(form, {}))) > 0.5))
            except (Undecided, ZeroDivisionError, OverflowError):
                return None
        return out.pop() if len(out) == 1 else None


def match_run(name, perm, nt=None, off=None, signs=False, spinor=False, explicit=False):
    run = sgobj('match_symmetries[%s]' % name, spinor=spinor, refUC=mk('refM', 3, 3), shiftUC=mk('shM', 3))
    r = run.I.rec(run.obj, run.st)
    r.attrs['symmetries'] = oplist(run, len(perm))
    r.attrs['symmetries_tables'] = tablist(run, nt or len(perm))
    run.prem = Premise(perm, off)
    run.I.premise = run.prem
    kw = dict(refUC=mk('refM', 3, 3), shiftUC=mk('shM', 3)) if explicit else {}
    return call_method(run, 'match_symmetries', signs=boolv(signs), trans_thresh=scal(sym('trthr')), **kw)


W = 'irrep/spacegroup.py:match_symmetries'


def failed(ctx, name, run, what):
    rule = 'operations that do not match are refused (%s)' % what
    if run.aborted:
        return ctx.ob(name, 'undecided', run.aborted, W, rule)
    if run.exc:
        return ctx.true(name, run.exc.exc == 'RuntimeError', str(run.exc.exc), W, 'RuntimeError, which the callers handle')
    br = [e for e in run.I.events if e.kind == 'branch']
    ctx.true(name, None if br else False, 'accepted: %s' % run.result, W, rule)


def accepted(ctx, name, run, signs=None):
    rule = 'position in the tables of the operation with the same rotation and a translation that differs by a lattice vector'
    if run.aborted or not run.exc and any(e.kind == 'branch' for e in run.I.events):
        return ctx.ob(name, 'undecided', run.aborted or 'branch not resolved', W, rule)
    if run.exc:
        n = run.exc.exc
        return ctx.true(name, False if n in ('RuntimeError', 'TypeError', 'AttributeError', 'IndexError', 'NameError') else None, 'refused: %s' % n, W, rule)
    P = run.prem
    v = run.result
    if not isinstance(v, Tup) or len(v.items) != 3:
        return ctx.ob(name, 'undecided', 'result %s' % v, W, rule)
    for what, x, spec in (('index', v.items[0], lambda M: list(P.perm)), ('translation', v.items[1], lambda M: [P.dt(M, p) for p in range(len(P.perm))]),
                          ('sign', v.items[2], signs or (lambda M: [1] * len(P.perm)))):
        st, det = 'ok', ''
        for s in P.seeds:
            M = P.model(s)
            try:
                got = pyval(M, run, x)
                want = spec(M)
            except Undecided as e:
                st, det = 'undecided', str(e)
                break
            if not near(got, want):
                st, det = 'violated', '%s, required %s' % (got, want)
                break
        ctx.ob('%s-%s' % (name, what), st, det, W, rule if what == 'index' else 't(table) - t(operation) in the reference cell' if what == 'translation' else 'sign of the spinor matrix')


def near(a, b, tol=1e-6):
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(near(x, y, tol) for x, y in zip(a, b))
    if isinstance(a, (list, tuple)) or isinstance(b, (list, tuple)):
        return False
    return abs(complex(a) - complex(b)) < tol


def matching(ctx):
    perms = [[0], [0, 1], [1, 0], [2, 0, 1], [0, 2, 1], [3, 1, 0, 2]] + ([[1, 2, 3, 0], [4, 3, 2, 1, 0]] if ctx.thorough else [])
    for p in perms:
        for explicit in (False, True):
            tag = '%s%s' % (','.join(map(str, p)), ';given' if explicit else '')
            accepted(ctx, 'match[%s]' % tag, ctx.run(match_run(tag, p, explicit=explicit)))
    for off in ((5e-5, 0, 0), (0, -5e-5, 3e-5), (0, 0, -9e-5)):
        accepted(ctx, 'match-within-threshold[%s]' % (off,), ctx.run(match_run('within', [1, 0, 2], off={1: off})))
    for who in (0, 2):
        for off in ((0.5, 0, 0), (0, 1 / 3., 0), (0, 0, 3e-4), (0, -3e-4, 0), (0.25, 0.75, 0.5)):
            failed(ctx, 'no-match-translation[%d,%s]' % (who, off), ctx.run(match_run('off', [1, 0, 2], off={who: off})), 'translation differs by a fraction of a lattice vector')
    for p, nt in (([None, 0], 2), ([0, None], 2), ([1, 0, None], 3)):
        failed(ctx, 'no-match-rotation[%s]' % p, ctx.run(match_run('rot', p, nt=nt)), 'rotation not in the tables')
    for p in ([0, 0], [1, 0, 1]):
        failed(ctx, 'repeated[%s]' % p, ctx.run(match_run('rep', p, nt=3)), 'two operations are the same one of the tables')



# ---- transformation of the cell
CENT = {'P': [], 'C': [(.5, .5, 0)], 'I': [(.5, .5, .5)], 'F': [(0, .5, .5), (.5, 0, .5), (.5, .5, 0)], 'A': [(0, .5, .5)], 'R': [(2 / 3., 1 / 3., 1 / 3.), (1 / 3., 2 / 3., 2 / 3.)]}


def lib(M):
    return real(inv([[complex(x) for x in r] for r in mat(M, 'Plib')]))


def basis_run(name, ops, fails):
    """search for the transformation; the first `fails` candidates do not match"""
    run = sgobj('determine_basis_transf[%s]' % name)
    run.tried = []

    def hook(I, env, st, node):
        run.tried.append({k: I.loadv(v, st) for k, v in env.items()})
        if len(run.tried) <= fails:
            raise PyRaise('RuntimeError', None, True)
        return Tup([Unknown(why='ind'), Unknown(why='dt'), Unknown(why='signs')])
    record_call(run, 'SpaceGroup.match_symmetries', hook)
    run.I.rec(run.obj, run.st).attrs.update(symmetries=oplist(run, len(ops)), name=Const(name))
    run.model = lambda s: Model(s, None, opR=lambda p, i, j: OPS[ops[p]][i][j], trthr=lambda: 1e-4)
    P = Premise(ops)
    P.model = run.model
    run.I.premise = P
    return call_method(run, 'determine_basis_transf', refUC_cli=NONE, shiftUC_cli=NONE, refUC_lib=mk('Plib', 3, 3), shiftUC_lib=mk('plib', 3), search_cell=boolv(True), trans_thresh=scal(sym('trthr')))


def values(run, v, s):
    return pyval(run.model(s), run, v)


def basis(ctx):
    W = 'irrep/spacegroup.py:determine_basis_transf'
    every = 'the transformation that is returned is one that was checked, with the threshold of the user, and the last one'
    for name in CENT:
        for ops in ([0, 1, 2], [0, 2, 1], [0, 2, 3]):
            inversion = 1 in ops
            ncand = 1 + (8 if inversion else 1) * (1 + len(CENT[name]))
            for fails in sorted({0, 1, 2, ncand - 1} & set(range(ncand))) + [999]:
                tag = '[%s,%s,%s]' % (name, ''.join(map(str, ops)), 'none' if fails == 999 else fails)
                run = ctx.run(basis_run(name, ops, fails))
                if run.aborted or any(e.kind == 'branch' for e in run.I.events):
                    ctx.ob('cell' + tag, 'undecided', run.aborted or 'branch not resolved', W, every)
                    continue
                if fails == 999:
                    ctx.true('cell-refused' + tag, bool(run.exc) and run.exc.exc == 'RuntimeError', str(run.exc and run.exc.exc or run.result), W, 'no transformation is made up if none matches')
                    if inversion:
                        centres(ctx, tag, run, name, ops, W)
                    continue
                if run.exc:
                    if len(run.tried) > fails:
                        ctx.true('cell' + tag, False, 'refused: %s' % run.exc.exc, W, every)
                    elif inversion and resolved(run):
                        ctx.true('cell' + tag, False, 'only %d candidates' % len(run.tried), W, 'all inversion centers of the conventional cell are candidates')
                    else:
                        ctx.ob('cell' + tag, 'undecided', 'fewer candidates', W, every)
                    continue
                t = run.tried[-1] if run.tried else {}
                v = run.result
                try:
                    ok = []
                    for s in (1, 2, 3):
                        ok.append(near(values(run, v.items[0], s), lib(run.model(s))) and near(values(run, t['refUC'], s), values(run, v.items[0], s))
                                  and near(values(run, t['shiftUC'], s), values(run, v.items[1], s)) and near(values(run, t['trans_thresh'], s), 1e-4))
                    ctx.true('cell' + tag, all(ok) and len(run.tried) == fails + 1, '%d candidates; %s' % (len(run.tried), v), W, every)
                except (Undecided, KeyError, AttributeError, TypeError) as x:
                    ctx.ob('cell' + tag, 'undecided', str(x), W, every)


def resolved(run):
    try:
        return all(values(run, c['shiftUC'], 1) for c in run.tried)
    except (Undecided, KeyError, TypeError):
        return False


def centres(ctx, tag, run, name, ops, W):
    """the inversion centers t/2 + refUC (c + l)/2 of the conventional cell are among the candidates"""
    rule = 'all inversion centers of the conventional cell are candidates'
    M = run.model(1)
    P = lib(M)
    t = [M.sym('opt_', (ops.index(1), i)) for i in range(3)]
    try:
        got = [[complex(x).real for x in values(run, c['shiftUC'], 1)] for c in run.tried]
    except (Undecided, KeyError, TypeError) as x:
        return ctx.ob('centers' + tag, 'undecided', str(x), W, rule)
    Q = inv([[complex(x) for x in r] for r in P])

    def frac(x):
        d = [complex(sum(Q[i][j] * (x[j] - t[j] / 2) for j in range(3))).real for i in range(3)]
        return d
    missing = []
    for c in [(0, 0, 0)] + CENT[name]:
        for n in range(8):
            w = [(n >> i & 1) / 2. + c[i] / 2 for i in range(3)]
            if not any(all(abs((a - b + .5) % 1 - .5) < 1e-6 for a, b in zip(frac(g), w)) for g in got):
                missing.append(w)
    ctx.true('centers' + tag, not missing, '%d candidates; missing t/2 + refUC.%s' % (len(got), missing[:1]), W, rule)


# ---- order of the operations of the space group
def group_run(perm, fail=False, search=False, spinor=True, cli=False, signs=(1, -1, 1)):
    n = len(perm)
    run = new_run('SpaceGroup[%s]' % (perm,), World('espresso', spinor, nsymfile=n))
    run.st = State({}, {})

    def symop(I, env, st, node):
        r = st.heap[env['self'].addr]
        at = dict(r.attrs)
        at.update(ind=I.loadv(env['ind'], st) if 'ind' in env else UNDEF, rotation=I.loadv(env['rot'], st), translation=I.loadv(env['trans'], st), sign=scal(ONE), **{'%open': boolv(True)})
        st.heap[env['self'].addr] = ObjRec(r.cls, at)
        return NONE

    def match(I, env, st, node):
        if fail:
            raise PyRaise('RuntimeError', None, True)
        return Tup([I.newlist([scal(const(p), 'i') for p in perm], st), Unknown(why='dt'), signs_])
    l = new_label()
    LABLEN[l] = const(n)
    signs_ = Arr(((l, const(n)),), Form_pick(l, [const(x) for x in signs[:n]]), 'i')
    record_call(run, 'SymmetryOperation.__init__', symop)
    record_call(run, 'IrrepTable.__init__', lambda I, env, st, node: st.heap.__setitem__(env['self'].addr, ObjRec(st.heap[env['self'].addr].cls, {'symmetries': Unknown(why='tables'), 'name': Const('TAB')})) or NONE)
    record_call(run, 'SpaceGroup.determine_basis_transf', lambda I, env, st, node: Tup([mk('refD', 3, 3), mk('shD', 3)]))
    record_call(run, 'SpaceGroup.match_symmetries', match)
    P = Premise(perm)
    P.model = file_model
    run.I.premise = P
    cls = run.I.modules['irrep.spacegroup']['env'].get('SpaceGroup')
    run.obj = run.I.alloc(ObjRec(cls, {}), run.st)
    return call_method(run, '__init__', cell=Tup([mk('L', 3, 3), mk('pos', NAT, 3), mk('typ', NAT, dtype='i')]), spinor=boolv(spinor), refUC=mk('oref', 3, 3) if cli else NONE,
                       shiftUC=NONE, search_cell=boolv(search), trans_thresh=scal(sym('trthr')), alat=scal(sym('alatF')), from_sym_file=Const('FSYM'))


def file_model(seed):
    """the file of symmetries is one of this crystal"""
    def R(M, k, i, j):
        A = [[complex(x) for x in r] for r in mat(M, 'L', 3, 3)]
        At = [list(x) for x in zip(*A)]
        return matmul(matmul(At, OPS[k % len(OPS)]), inv(At))[i][j].real
    return Model(seed, None, Rfile=wm(R))


def Form_pick(l, items):
    return pick(lab(l), items)


declare('refD')
declare('shD')
declare('oref')
declare('Rfile')
declare('tfile')
declare('alatF')


def group(ctx):
    W = 'irrep/spacegroup.py:SpaceGroup.__init__'
    signs = (1, -1, -1, 1)
    for perm in ([0, 1, 2], [1, 0], [2, 0, 1], [1, 2, 0], [3, 0, 2, 1], [0]):
        for spinor in (False, True):
            run = ctx.run(group_run(perm, signs=signs, spinor=spinor))
            tag = '[%s%s]' % (','.join(map(str, perm)), ',soc' if spinor else '')
            order_(ctx, tag, run, [perm.index(i) for i in range(len(perm))], [signs[perm.index(i)] for i in range(len(perm))], list(range(1, len(perm) + 1)), W)
            for c in calls(run, 'SpaceGroup.match_symmetries')[:1]:
                ctx.eq('signs-asked' + tag, c['args'].get('signs'), lambda M: int(spinor), where=where(c), rule='spinor matrices are matched with SOC')
                ctx.eq('threshold-match' + tag, c['args'].get('trans_thresh'), lambda M: M.sym('trthr'), where=where(c), rule='threshold of the user')
            for c in calls(run, 'IrrepTable.__init__')[:1]:
                ctx.eq('table-number' + tag, c['args'].get('SGnumber'), lambda M: M.sym('SGnum'), where=where(c), rule='tables of the space group that was found')
                ctx.eq('table-spinor' + tag, c['args'].get('spinor'), lambda M: int(spinor), where=where(c), rule='single or double group')
    for cli in (False, True):
        run = ctx.run(group_run([1, 2, 0], fail=True, cli=cli))
        order_(ctx, '[no match%s]' % (',given' if cli else ''), run, [0, 1, 2], [1, 1, 1], [1, 2, 3], W)
        run = ctx.run(group_run([1, 2, 0], fail=True, search=True, cli=cli))
        ctx.true('refused[no match%s]' % (',given' if cli else ''), None if run.aborted else bool(run.exc) and run.exc.exc == 'RuntimeError', str(run.exc and run.exc.exc), W,
                 'no irreps with operations that do not match the tables')


def order_(ctx, tag, run, order, signs, inds, W):
    rule = 'operations in the order of the tables, each with its own sign and number'
    if run.aborted or run.exc:
        return ctx.ob('order' + tag, *stopped(run), W, rule)
    M = Model(1)
    r = run.I.rec(run.obj, run.st)
    try:
        ops = run.I.conc_items(r.attrs['symmetries'], run.st)
        recs = [run.I.rec(o, run.st) for o in ops]
        t = [pyval(M, run, o.attrs['translation']) for o in recs]
        n = len(order)
        iA = inv([[complex(x) for x in q] for q in mat(M, 'L', 3, 3)])
        ref = [[-sum(M.sym('tfile', (k, i)) * iA[i][j] for i in range(3)) * M.sym('alatF') * 0.52917721067 for j in range(3)] for k in range(n)]
        got = [next((k for k in range(n) if near(x, ref[k])), None) for x in t]
        s = [pyval(M, run, o.attrs['sign']) for o in recs]
        i = [pyval(M, run, o.attrs['ind']) for o in recs]
    except (Undecided, KeyError, TypeError, AttributeError) as x:
        return ctx.ob('order' + tag, 'undecided', str(x), W, rule)
    ctx.true('order' + tag, got == order, '%s, required %s' % (got, order), W, rule)
    ctx.true('sign' + tag, near(s, signs), '%s, required %s' % (s, signs), W, rule)
    ctx.true('number' + tag, near(i, inds), '%s, required %s' % (i, inds), W, rule)


# ---- signs of the spinor matrices
def unitary(r):
    a, b, c, d = (r.gauss(0, 1) for _ in range(4))
    n = math.sqrt(a * a + b * b + c * c + d * d)
    return [[complex(a, b) / n, complex(c, d) / n], [complex(-c, d) / n, complex(a, -b) / n]]


def dag(a):
    return [[complex(a[j][i]).conjugate() for j in range(2)] for i in range(2)]


def spin_model(s, perm, matched=True):
    def S1(M, p, i, j):
        return unitary(random.Random(M.seed * 50 + p))[i][j]

    def S2(M, q, i, j):
        r = random.Random(M.seed * 50 + 33)
        U = unitary(r)
        if not matched:
            return unitary(random.Random(M.seed * 70 + q + 9))[i][j]
        p = perm.index(q) if q in perm else 0
        g = random.Random(M.seed * 7 + p).choice((1, -1))
        return g * matmul(matmul(dag(U), unitary(random.Random(M.seed * 50 + p))), U)[i][j]

    def x(M, k):
        U = unitary(random.Random(M.seed * 50 + 33))
        z = complex([U[0][0], U[0][1], U[1][0], U[1][1]][k % 4])
        return z.real if k < 4 else z.imag
    base = Premise(perm).model(s)
    return Model(s, None, **base.special, opS=wm(S1), tabSm=wm(S2), xmin=wm(x))


declare('opS', real=False)
META['opS']['dim'] = 2
declare('tabSm', real=False)
declare('xmin')


def spin_run(perm, fun):
    run = sgobj('match_symmetries[spinor,%s]' % perm, spinor=True, refUC=mk('refM', 3, 3), shiftUC=mk('shM', 3))
    r = run.I.rec(run.obj, run.st)
    r.attrs['symmetries'] = oplist(run, len(perm))
    r.attrs['symmetries_tables'] = tablist(run, len(perm))
    run.prem = Premise(perm)
    run.I.premise = run.prem
    run.objective = []

    def minimize(I, args, kw, st, node):
        if args and len(run.objective) < 1 and isinstance(args[0], Func):
            run.objective.append(I.call(args[0], [mk('xmin', 8)], {}, _NODE, st))
        return I.alloc(ObjRec('result', {'x': mk('xmin', 8), 'fun': scal(const(fun)), 'success': boolv(True)}), st)
    run.I.call_hooks['ext:scipy.optimize.minimize'] = minimize
    return call_method(run, 'match_symmetries', signs=boolv(True), trans_thresh=scal(sym('trthr')))


def spin(ctx):
    W = 'irrep/spacegroup.py:__match_spinor_rotations'
    for perm in ([0, 1], [2, 0, 1], [1, 0, 2]):
        run = ctx.run(spin_run(perm, 1e-7))
        run.prem.model = lambda s: spin_model(s, perm)
        accepted(ctx, 'match-spin%s' % perm, run, signs=lambda M: [random.Random(M.seed * 7 + p).choice((1, -1)) for p in range(len(perm))])
        rule = 'the residue vanishes exactly when one unitary transformation takes all spinor matrices to those of the tables up to signs'
        try:
            a = [abs(complex(spin_model(s, perm).ev(run.objective[0].form, {}))) for s in (1, 2, 3)]
            b = [abs(complex(spin_model(s, perm, False).ev(run.objective[0].form, {}))) for s in (1, 2, 3)]
            ctx.true('residue%s' % perm, max(a) < 1e-6 and min(b) > 1e-2, '%s when matched, %s otherwise' % (max(a), min(b)), W, rule)
        except (Undecided, IndexError, AttributeError, TypeError) as x:
            ctx.ob('residue%s' % perm, 'undecided', '%s' % x, W, rule)
        run = ctx.run(spin_run(perm, 0.1))
        failed(ctx, 'no-match-spin%s' % perm, run, 'spinor matrices')


def run(ctx):
    matching(ctx)
    basis(ctx)
    group(ctx)
    spin(ctx)
