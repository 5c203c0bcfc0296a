"""C21: inversion-odd states, Kramers pairs and Z4"""
from .kp import *
from .out import *
from .c16 import value_is, tokens
import re

EXPLANATION = ('Every assignment of Kpoint.num_bandinvs is extracted with its path condition, including the search of inversion in the little group; totals per band structure '
               'and the printed and JSON numbers are extracted from a BandStructure of k-points with and without inversion.')
ASSUMPTIONS = ('characters are an arbitrary function here (C06)', 'inversion through a centre away from the origin is not counted, as documented in the code')


def _noinv(M, p, i, j):
    q = order(M)[p]
    return OPS[0 if q == 1 else q][i][j]


def _tinv(M, p, i):
    return 0.5 * (i == M.seed % 3) if order(M)[p] == 1 else _t0(M, p, i)


_t0 = KM['symt']
CENTRE = {**KM, 'symt': wm(_tinv)}
ABSENT = {**KM, 'symR': wm(_noinv)}
HALF = {**KM, 'symt': wm(lambda M, p, i: ((0.5, 0.5, 0.5), (0.25, 0.75, 0.0), (1e-4, 0.0, 0.0))[M.seed % 3][i] if order(M)[p] == 1 else _t0(M, p, i))}
SMALL = {**KM, 'symt': wm(lambda M, p, i: 1e-9 * (i + 1) if order(M)[p] == 1 else _t0(M, p, i))}


def inversion(M, only=None):
    for p in little(M, only):
        if all(abs(Rm(M, p)[i][j] + (i == j)) < 1e-6 for i in range(3) for j in range(3)) and sum(abs(x) for x in tv(M, p)) < 1e-6:
            return p
    return None


def assigned(M, evs):
    """the value that a run with the values of M leaves in the attribute"""
    v = 'unset'
    for e in evs:
        if all(bool(M.ev(f, {})) == pol for f, pol in e.pc):
            x = e.data['value']
            v = x.v if isinstance(x, Const) else M.arr(x, {}) if isinstance(x, Arr) and x.form is not None else 'unresolved'
    if isinstance(v, str) and v == 'unresolved':
        raise Undecided('value')
    return v


def count(ctx, name, r, only=None, need=0, **kw):
    evs = [e for e in sets_events(r, 'Kpoint', 'num_bandinvs') if not e.spec]
    rule = 'number of odd states == round(sum(degeneracy - Re character of inversion)/2); none without inversion in the little group'
    num, done, why = 0, 0, str(r.aborted or r.exc or '')
    for s in range(1, 25 if ctx.thorough else 13):
        M = Model(s, KS_, **kw)
        try:
            p = inversion(M, only)
            want = None if p is None else round(sum((b2 - b1) - chi(M, p, b1, b2).real for b1, b2 in sets(M)) / 2)
            got = assigned(M, evs)
            if got is not None and not isinstance(got, str):
                got = round(complex(got).real, 9)
        except Undecided as x:
            why = str(x)
            continue
        if got != want:
            return ctx.ob(name, 'violated', 'model %d: num_bandinvs %s, required %s' % (s, got, want), evs[0].where() if evs else '', rule)
        done += 1
        num += want is not None
    ctx.ob(name, 'ok' if done >= 3 and num >= need else 'undecided', '%d models, %d assignments; %s' % (done, len(evs), 'not every model evaluated: ' + why if why else ''), evs[0].where() if evs else '', rule)


def bands3(run):
    """three k-points, the second without inversion"""
    I, st = run.I, run.st
    kcls = I.modules['irrep.kpoint']['env']['Kpoint']
    out = []
    for q in range(3):
        at = dict(spinor=boolv(run.world.spinor), ik0=scal(const(q + 1)), num_bands=scal(NB), upper=scal(sym('upK', const(q))), k=mk('kK', 3, pre=(const(q),)),
                  k_refUC=mk('krefK', 3, pre=(const(q),)), Energy_mean=mk('EmK', 2, pre=(const(q),)), Energy_raw=mk('EnK', NB, pre=(const(q),)),
                  degeneracies=mk('degK', 2, pre=(const(q),), dtype='i'), char=mk('charK', 2, 1, pre=(const(q),), dtype='c'),
                  char_refUC=mk('charRK', 2, 1, pre=(const(q),), dtype='c'), onlytraces=boolv(True), irreps=w_list_(I, [Const('None')] * 2, st),
                  num_bandinvs=NONE if q == 1 else scal(sym('nbiK', const(q)), 'i'), RecLattice=mk('Rec', 3, 3),
                  little_group=symop_list(run, ONE, st))
        at['%open'] = boolv(True)
        out.append(I.alloc(ObjRec(kcls, at), st))
    return w_list_(I, out, st)


def w_list_(I, xs, st):
    return I.newlist(list(xs), st)


BM = dict(degK=lambda k, s: s + 1, nbiK=wm(lambda M, k: 2 * ((k + M.seed) % 7) + (0 if M.special.get('soc') else M.seed % 2)), upK=lambda k: 1.0 + k,
          kK=lambda k, i: 0.1 * k + i)


def run(ctx):
    for sp in (False, True):
        tag = '[soc]' if sp else '[scalar]'
        r = ctx.run(kpoint(sp, 'Kpoint[spinor=%s]' % sp))
        count(ctx, 'odd-states' + tag, r, need=3, **KM)
        count(ctx, 'odd-states-absent' + tag, r, **ABSENT)
        count(ctx, 'odd-states-off-centre' + tag, r, **CENTRE)
        count(ctx, 'odd-states-noise' + tag, r, need=3, **SMALL)
        count(ctx, 'odd-states-off-centre,general' + tag, r, **HALF)

        kw = {**BM, 'soc': lambda: 1} if sp else BM
        sz = dict(NB=3, NSYM=2)

        def bs(nm):
            b = bsobj(nm, sp)
            b.I.rec(b.obj, b.st).attrs['kpoints'] = bands3(b)
            return b
        tot = lambda M: M.sym('nbiK', (0,)) + M.sym('nbiK', (2,))
        r = ctx.run(prop(bs('num_bandinvs' + tag), 'num_bandinvs'))
        ctx.eq('total' + tag, r.result, tot, sizes=sz, rule='sum over the k-points with inversion', **kw)
        r = ctx.run(method(bs('write_characters' + tag), 'write_characters'))

        def lines(M, sp=sp):
            n = [M.sym('nbiK', (0,)), None, M.sym('nbiK', (2,))]
            h = 2 if sp else 1
            out = []
            for x in n:
                out += ['No'] if x is None else ['Yes', '%d' % (x // h)]
            t = int(tot(M))
            out.append('%d' % (t // h))
            if sp:
                out += ['%d' % (t // 2 % 2), '%d' % (t // 2 % 4)]
            return ' '.join(out)

        def test(a, b, sp=sp):
            got = []
            for l in a.split('\n'):
                m = re.search(r'nvariant under inversion\s*:\s*(\w+)', l)
                if m:
                    got.append(m.group(1))
                m = re.search(r'inversions?-odd.*:\s*(-?\d+)', l)
                if m:
                    got.append(m.group(1))
                m = re.search(r'Z[24] invariant\s*:\s*(\S+)', l)
                if m and sp:
                    got.append(m.group(1))
            return same_tokens(' '.join(got), b)
        file_is(ctx, 'printed' + tag, r, lines, kinds=('print',), sizes=sz, test=test, rule='per k-point, total, Z2 and Z4 from the total number of odd Kramers pairs', **kw)
        r = ctx.run(method(bs('json' + tag), 'json'))

        def js(M, sp=sp):
            t = int(tot(M))
            if not sp:
                return {'number of inversion-odd states': t}
            z = t // 2 % 4
            return {'number of inversion-odd Kramers pairs': t // 2,
                    'Z4': lambda v: None if (v[0] if isinstance(v, (list, tuple)) and len(v) == 1 else v) == z else 'Z4: %s instead of %d' % (v, z)}
        value_is(ctx, 'json' + tag, r, js, 'JSON numbers follow from the total', sizes=sz, **kw)
