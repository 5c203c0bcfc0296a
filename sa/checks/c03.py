"""C03: rotations, translations, vectors and positions are converted consistently between the DFT cell and the reference cell"""
import re
from .kp import *
from .out import *
from .. import drivers as D

EXPLANATION = ('Rotation, translation, cell vectors, positions and k-points in the reference cell are extracted as closed forms (return values, printed '
               'and JSON output) and compared with A_ref = refUC^T A, x_ref = refUC^-1 (x - s), R_ref = refUC^-1 R refUC, '
               't_ref = refUC^-1 (t + R s - s).')
ASSUMPTIONS = ('numpy linear algebra as modelled',)

REFS = [[[1, 1, 0], [0, 1, 0], [0, 0, 1]], [[0, 1, 1], [1, 0, 1], [1, 1, 1]], [[1, 0, 2], [0, 1, 0], [1, 0, 1]], [[0, 0, 1], [1, 0, 0], [1, -1, 1]]]
SM = {**KM, 'ref': wm(lambda M, i, j: float(REFS[M.seed % 4][i][j])), 'symt': wm(lambda M, p, i: random.Random(M.seed * 99 + p * 7 + i).uniform(0.02, 0.97))}


def ref(M):
    return [[M.sym('ref', (i, j)) for j in range(3)] for i in range(3)]


def Rref(M, p=0):
    return [[round(x.real) for x in r] for r in matmul(matmul(inv([[complex(x) for x in r] for r in ref(M)]), Rm(M, p)), ref(M))]


def tref(M, p=0):
    ri = real(inv([[complex(x) for x in r] for r in ref(M)]))
    s = vec(M, 'sh')
    Rs = mmv(Rm(M, p), s)
    return mmv(ri, [tv(M, p)[i] + Rs[i] - s[i] for i in range(3)])


def intref(M):
    """is the rotation an integer matrix in the reference cell of this model?"""
    x = matmul(matmul(inv([[complex(x) for x in r] for r in ref(M)]), Rm(M, 0)), ref(M))
    return all(abs(v.real - round(v.real)) < 1e-9 for r in x for v in r)


def f1(v):
    return [float(x) % 1 for x in v]


def dictval(run, v, key):
    r = run.I.rec(v, run.st) if isinstance(v, Ref) else None
    if isinstance(r, DictRec):
        for k, x in r.items:
            if isinstance(k, Const) and k.v == key:
                return run.I.loadv(x, run.st)
    return None


def run(ctx):
    kw = dict(sizes=KS_, **SM)
    r = ctx.run(method(symop_run('rotation_refUC'), 'rotation_refUC', mk('ref', 3, 3)))
    ctx.eq('rotation-refUC', r.result, Rref, rule='R_ref == refUC^-1 R refUC', **kw)
    r = ctx.run(method(symop_run('translation_refUC'), 'translation_refUC', mk('ref', 3, 3), mk('sh', 3)))
    ctx.eq('translation-refUC', r.result, tref, rule='t_ref == refUC^-1 (t + R s - s)', **kw)
    # printed description of an operation
    for sp in (False, True):
        tag = '[soc]' if sp else '[scalar]'
        r = ctx.run(method(symop_run('SymmetryOperation.show' + tag, sp), 'show', mk('ref', 3, 3), mk('sh', 3)))

        def rows2(M):
            a, b = Rm(M, 0), Rref(M)
            return [x for i in range(3) for x in a[i] + b[i]]
        printed(ctx, 'show-rotations' + tag, r, rows2, rule='rotation printed in both cells', **kw)
        printed(ctx, 'show-translation' + tag, r, lambda M: f1(tv(M, 0)), rule='translation printed, in the DFT cell', **kw)
        printed(ctx, 'show-translation-refUC' + tag, r, lambda M: f1(tref(M)), rule='translation printed, in the reference cell', **kw)
        if sp:
            S = lambda M: [[M.sym('symS', (0, i, j)) for j in range(2)] for i in range(2)]
            printed(ctx, 'show-spinor' + tag, r, lambda M: [y for q in S(M) for x in q for y in (x.real, x.imag)], rule='spinor matrix printed', **kw)
            printed(ctx, 'show-spinor-refUC' + tag, r, lambda M: [y * M.sym('symsign', (0,)) for q in S(M) for x in q for y in (x.real, x.imag)],
                    rule='spinor matrix of the tables == sign * spinor matrix', **{**kw, 'symsign': lambda p: -1})
    # action on k: R^-T k, in both cells
    r = ctx.run(method(symop_run('SymmetryOperation.show[action on k]'), 'show', mk('ref', 3, 3), mk('sh', 3)))
    for q, R in enumerate(OPS):
        km = {**kw, 'symR': lambda p, i, j, R=R: R[i][j]}
        says(ctx, 'show-gk[%d]' % q, r, lambda M: gk(Rm(M, 0), 0), rule='gk == R^-T k', **km)
        says(ctx, 'show-gk-refUC[%d]' % q, r, lambda M: gk(Rref(M), 1) if intref(M) else None, rule='reference cell: gk == R_ref^-T k', **km)
    # JSON
    r = ctx.run(method(symop_run('json_dict'), 'json_dict', mk('ref', 3, 3), mk('sh', 3)))
    for key, spec in (('rotation matrix', lambda M: Rm(M, 0)), ('translation', lambda M: tv(M, 0)), ('rotation matrix refUC', Rref), ('translation refUC', tref),
                      ('sign', lambda M: M.sym('symsign', (0,))), ('angle pi', lambda M: M.sym('symangle', (0,)) / PI),
                      ('axis', lambda M: [M.sym('symaxis', (0, i)) for i in range(3)])):
        ctx.eq('json[%s]' % key, dictval(r, r.result, key), spec, rule='JSON entry of an operation', **kw)
    # trace file: one line per operation in the DFT cell
    r = ctx.run(method(symop_run('str2', True), 'str2', mk('ref', 3, 3), mk('sh', 3)))
    if isinstance(r.result, StrT):
        def nums(M):
            return numbers(M, r.result.parts, {})

        def want(M):
            S = [M.sym('symS', (0, i, j)) for i in range(2) for j in range(2)]
            return [x for q in Rm(M, 0) for x in q] + tv(M, 0) + [y for x in S for y in (x.real, x.imag)]
        ctx.eq('trace-line', nums, want, rule='trace.txt: rotation, translation, spinor matrix of the DFT cell', **kw)
    else:
        ctx.ob('trace-line', 'undecided', str(r.result)[:100])
    # the space group
    r = sgobj('SpaceGroup.show')
    record_call(r, 'SymmetryOperation.show')
    r = ctx.run(method(r, 'show'))
    for i in range(3):
        def vecs(M, i=i):
            a = lattice(M)
            return [i] + a[i] + [i] + [sum(M.sym('ref', (j, i)) * a[j][c] for j in range(3)) for c in range(3)]
        printed(ctx, 'show-vectors', r, vecs, rule='reference vectors: A_ref_i == sum_j refUC[j,i] A_j', **kw)

    def poss(M):
        ri = real(inv([[complex(x) for x in q] for q in ref(M)]))
        out = []
        for a in range(M.sym('NAT')):
            x = vec(M, 'pos', pre=(a,))
            out.append([M.sym('typ', (a,))] + x + mmv(ri, [p - q for p, q in zip(x, vec(M, 'sh'))]))
        return out
    printed(ctx, 'show-positions', r, poss, rule='x_ref == refUC^-1 (x - shiftUC)', per_label=True, **kw)
    printed(ctx, 'show-transformation', r, lambda M: [M.sym('ref', (j, 0)) for j in range(3)] + [M.sym('ref', (j, 1)) for j in range(3)] +
            vec(M, 'sh') + [M.sym('ref', (j, 2)) for j in range(3)], rule='refUC printed by reference vectors, with shiftUC', **{**kw, 'sh': lambda i: [0.25, 0.5, 0.125][i]})
    basis(ctx)


def gk(R, n=None):
    """test of the text: the n-th gk=[...] shows R^-T k"""
    B = T([[round(x.real) for x in r] for r in inv([[complex(x) for x in r] for r in R])])

    def test(text):
        for g in re.findall(r'gk=\[([^]]*)\]', text)[slice(None) if n is None else slice(n, n + 1)]:
            try:
                if [linear(c) for c in g.split(',')] == B:
                    return True
            except ValueError:
                pass
        return False
    test.__doc__ = 'gk with coefficients %s' % B
    return test


def linear(s):
    c = [0, 0, 0]
    for sign, num, x in re.findall(r'([+-]?)([0-9.]*)k([xyz])', s):
        c['xyz'.index(x)] += (-1 if sign == '-' else 1) * (float(num) if num else 1)
    return c


def basis(ctx):
    """the transformation chosen for every way of asking for it"""
    eye = lambda M: [[float(i == j) for j in range(3)] for i in range(3)]
    zero = lambda M: [0., 0., 0.]
    A, S = mk('refcli', 3, 3), mk('shcli', 3)
    cli = lambda M: [[M.sym('refcli', (j, i)) for j in range(3)] for i in range(3)]
    scli = lambda M: vec(M, 'shcli')
    lib = lambda M: real(inv([[complex(x) for x in r] for r in mat(M, 'Plib')]))
    slib = lambda M: [-x for x in mmv(lib(M), vec(M, 'plib'))]
    for tag, a, s, search, w1, w2 in (('both', A, S, False, cli, scli), ('both-search', A, S, True, cli, scli), ('refUC', A, NONE, False, cli, zero),
                                      ('refUC-search', A, NONE, True, cli, zero), ('shiftUC', NONE, S, False, eye, scli), ('none', NONE, NONE, False, eye, zero),
                                      ('search', NONE, NONE, True, lib, slib)):
        run = sgobj('determine_basis_transf[%s]' % tag)
        record_call(run, 'SpaceGroup.match_symmetries', lambda I, env, st, node: Tup([Unknown(why='ind'), Unknown(why='dt'), Unknown(why='signs')]))
        method(run, 'determine_basis_transf', refUC_cli=a, shiftUC_cli=s, refUC_lib=mk('Plib', 3, 3), shiftUC_lib=mk('plib', 3), search_cell=boolv(search),
               trans_thresh=scal(sym('trthr')))
        ctx.run(run)
        v = run.result
        items = v.items if isinstance(v, Tup) and len(v.items) == 2 else (None, None)
        ctx.eq('basis-refUC[%s]' % tag, items[0], w1, rule='transformation of the cell as requested (columns: reference vectors)')
        ctx.eq('basis-shiftUC[%s]' % tag, items[1], w2, rule='shift of the origin as requested')
