"""C16: every output is a faithful account of the same analysis"""
from .kp import *
from .out import *
from ..pyval import pyval, diff
import re

EXPLANATION = ('Console table, JSON data, trace.txt, irreps.dat and the plot file of a BandStructure with a generic list of k-points are extracted as complete texts '
               '(or data); in random models the numbers and irrep labels they contain are compared, in order, with those of one and the same analysis.')
ASSUMPTIONS = ('the results of the analysis itself are arbitrary here; they are the subject of C01-C06 and C21',)

NIRR2 = 2
TOKEN = re.compile(r'[A-Za-z_]\w*|[-+]?(?:\d+\.?\d*|\.\d+)(?:[eE][-+]?\d+)?')


def tokens(text):
    """numbers and irrep labels of a text, in order"""
    return ' '.join(x for x in TOKEN.findall(text) if not x[0].isalpha() and x[0] != '_' or re.match(r'GM\d$|None$|nan$|inf$|Yes$|No$', x))


def same(tol):
    def f(a, b):
        return same_tokens(tokens(a), tokens(b), tol)
    return f


def irr(run, k, n):
    l = new_label()
    LABLEN[l] = n
    d = run.I.alloc(DictRec([(Const('GM%d' % (q + 1)), scal(sym('mul%d' % q, k, lab(l)), 'c')) for q in range(NIRR2)]), run.st)
    return run.I.alloc(ListRec([('gen', l, n, d)]), run.st)


for _q in range(NIRR2):
    declare('mul%d' % _q, real=False)


class Doc:
    """the analysis of a model, as plain data"""

    def __init__(s, M):
        s.nk = int(M.sym('NK'))
        s.k = []
        for k in range(s.nk):
            ns, nl = int(M.sym('NSETk', (k,))), int(M.sym('NLGk', (k,)))
            s.k.append(dict(
                k=vec(M, 'kK', pre=(k,)), kref=vec(M, 'krefK', pre=(k,)), E=[M.sym('EmK', (k, i)) for i in range(ns)],
                Er=[M.sym('EnK', (k, i)) for i in range(int(M.sym('NB')))], deg=[int(M.sym('degK', (k, i))) for i in range(ns)],
                up=M.sym('upK', (k,)), ind=[int(M.sym('indK', (k, j))) for j in range(nl)],
                ch=[[complex(M.sym('charK', (k, i, j))) for j in range(nl)] for i in range(ns)],
                chr=[[complex(M.sym('charRK', (k, i, j))) for j in range(nl)] for i in range(ns)],
                nbi=int(M.sym('nbiK', (k,))), irr=[{'GM%d' % (q + 1): M.sym('mul%d' % q, (k, i)) for q in range(NIRR2)} for i in range(ns)]))
        s.nb = int(M.sym('NB'))
        B = mat(M, 'Rec')
        s.line = []
        x = 0
        for i, p in enumerate(s.k):
            if i:
                d = mv([a - b for a, b in zip(p['k'], s.k[i - 1]['k'])], B)
                d = math.sqrt(dot(d, d))
                x += d if d <= 0.1 else 0
            s.line.append(x)
        ok = [p for p in s.k if p['up'] == p['up']]
        s.direct = min([p['up'] - p['E'][-1] for p in ok], default=math.inf)
        s.indirect = min([p['up'] for p in ok], default=math.inf) - max([p['E'][-1] for p in s.k], default=-math.inf)
        s.inv = sum(p['nbi'] for p in s.k)


# degeneracies that add up to the number of bands
DEG = {0: [1, 2, 2], 1: [2, 3], 2: [4, 1], 3: [5]}
SZ = dict(NK=4, NB=5, NSYM=4)


def _up(M, k):
    return float('nan') if M.seed % 2 == 0 and k == M.seed % 4 else 0.3 + 0.2 * k + 0.1 * M.seed if k % 2 else 0.8


MM = dict(NSETk=lambda k: len(DEG[k % 4]), NLGk=lambda k: k % 3 + 1, NGk=lambda k: 3, degK=lambda k, s: DEG[k % 4][s], indK=lambda k, j: 10 * k + 3 * j + 1,
          upK=wm(_up), nbiK=wm(lambda M, k: 2 * ((3 * k + M.seed) % 5)),
          kK=wm(lambda M, k, i: [0.01, -0.02, 0.015][i] * k * (1 + 0.1 * M.seed) + (0.7 if k > 2 and i == 0 else 0)))
REAL = dict(charK=wm(lambda M, k, s, g: round(M._sym0('chreal', (k, s, g)), 3)), charRK=wm(lambda M, k, s, g: round(M._sym0('chrreal', (k, s, g)), 3)),
            mul0=wm(lambda M, k, s: float((k + s + M.seed) % 2 + 1)), mul1=wm(lambda M, k, s: 2.0 + (s % 2)))
MIXED = dict(charK=REAL['charK'])
for _n in ('chreal', 'chrreal'):
    declare(_n)


def f5(x):
    return '%s' % round(x, 5)


def cplx(c, fr, fi, im):
    return (fr % c.real) + (' ' + fi % c.imag if im else '')


def table(irreps, soc, inv):
    def f(M):
        d = Doc(M)
        out = []
        for i, p in enumerate(d.k):
            out.append('%d' % (i + 1))
            out += [f5(x) for x in p['k']] + [f5(x) for x in p['kref']] + ['%d' % d.nb]
            im = max(abs(c.imag) for r in p['ch'] + p['chr'] for c in r) > 1e-4
            out += ['%d' % x for x in p['ind']]
            for j, e in enumerate(p['E']):
                out += ['%.4f' % e, '%d' % p['deg'][j]]
                if irreps:
                    for n, m in p['irr'][j].items():
                        m = complex(m)
                        out += [n, '%.5g' % m.real] + (['%+.5f' % m.imag] if abs(m.imag) > 1e-4 else [])
                else:
                    out.append('None')
                out += [cplx(c, '%.4f', '%.4f', im) for c in p['ch'][j]] + [cplx(c, '%.4f', '%.4f', im) for c in p['chr'][j]]
            if inv:
                out += ['Yes', '%d' % (p['nbi'] // 2 if soc else p['nbi'])]
            else:
                out.append('No')
            if p['up'] == p['up']:
                out.append('%.10f' % (p['up'] - p['E'][-1]))
        n = d.inv if inv else 0
        out.append('%d' % (n // 2 if soc else n))
        return ' '.join(out)
    return f


def upto(what):
    def f(t):
        return t[:t.index(what)] if what in t else t
    return f


def rows_json(irreps, soc, inv, names):
    def f(M):
        d = Doc(M)
        r = {'kpoints line': d.line, 'indirect gap (eV)': d.indirect, 'Minimal direct gap (eV)': d.direct, 'k points': []}
        n = d.inv if inv else 0
        if soc:
            r['number of inversion-odd Kramers pairs'] = n // 2
            r['Z4'] = lambda v: None if (v[0] if isinstance(v, (list, tuple)) and len(v) == 1 else v) == n // 2 % 4 else 'Z4: %s instead of %d' % (v, n // 2 % 4)
        else:
            r['number of inversion-odd states'] = n
        for i, p in enumerate(d.k):
            r['k points'].append({
                'symmetries': p['ind'], 'energies_mean': p['E'], 'energies_raw': p['Er'], 'dimensions': p['deg'],
                'irreps': [{n: (complex(m).real, complex(m).imag) for n, m in x.items()} for x in p['irr']] if irreps else None,
                'characters': p['ch'], 'characters refUC': p['chr'], 'kp in line': d.line[i], 'kpname': 'P%d' % i if names else None,
                'characters refUC is the same': all(abs(a - b) <= 1e-4 for x, y in zip(p['ch'], p['chr']) for a, b in zip(x, y))})
        return r
    return f


def value_is(ctx, name, run, spec, rule, **kw):
    sizes = kw.pop('sizes', None)
    if run.exc or run.aborted:
        return ctx.ob(name, *stopped(run), '', rule)
    done, why = 0, ''
    for s in range(1, 9 if ctx.thorough else 5):
        M = Model(s, sizes, **kw)
        try:
            a, b = pyval(M, run, run.result), spec(M)
        except Undecided as x:
            why = str(x)
            continue
        # keys beyond those of the specification are no contradiction
        d = diff(only(a, b), b, 1e-6)
        if d:
            return ctx.ob(name, 'violated', d, '', rule)
        done += 1
    return ctx.ob(name, 'ok' if done else 'undecided', '%d models' % done + (' ; not every model evaluated: ' + why if why else '') if done else why, '', rule)


def only(a, b):
    if isinstance(a, dict) and isinstance(b, dict):
        return {k: only(x, b[k]) for k, x in a.items() if k in b}
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)) and len(a) == len(b):
        return [only(x, y) for x, y in zip(a, b)]
    return a


def trace(soc):
    def f(M):
        d = Doc(M)
        out = ['%d' % d.nb, '1' if soc else '0', '%d' % M.sym('NSYM')]
        for p in range(int(M.sym('NSYM'))):
            out += ['%d' % x for r in mat(M, 'symR', pre=(p,)) for x in r] + ['%.6f' % x for x in vec(M, 'symt', pre=(p,))]
            S = mat(M, 'symS', 2, 2, pre=(p,))
            out += ['%.6f' % y for r in S for x in r for y in (complex(x).real, complex(x).imag)]
        out.append('%d' % d.nk)
        for p in d.k:
            out += ['%.6f' % x for x in p['k']]
        for p in d.k:
            out += ['%d' % len(p['ind'])] + ['%d' % x for x in p['ind']]
            ib = 1
            for j, e in enumerate(p['E']):
                out += ['%d' % ib, '%d' % p['deg'][j], '%.4f' % e]
                for c in p['ch'][j]:
                    out += ['%.6f' % c.real, '%.6f' % c.imag]
                ib += p['deg'][j]
        return ' '.join(out)
    return f


def irrepsdat(M):
    d = Doc(M)
    return ' '.join('%.7f %s' % (e, ' '.join(p['irr'][j])) for p in d.k for j, e in enumerate(p['E']))


def split_labels(text):
    return re.sub(r'GM(\d)', r' GM\1 ', text)


def plot(M):
    d = Doc(M)
    out = []
    for b in range(d.nb):
        for i, p in enumerate(d.k):
            e = [x for j, x in enumerate(p['E']) for _ in range(p['deg'][j])][b]
            out += ['%.4f' % d.line[i], '%.4f' % e]
    return ' '.join(out)


CUT = re.compile(r'TOTAL number of inversions-odd[^\n]*\n')


def head(text):
    """up to the line with the total number"""
    m = CUT.search(text)
    return text[:m.end()] if m else text


def run(ctx):
    T = MM
    for soc in (False, True):
        tag = '[soc]' if soc else '[scalar]'
        for irreps, inv_, chars, sp in ((True, True, 'complex', {}), (False, True, 'real', REAL), (True, False, 'real', REAL), (True, True, 'mixed', MIXED)):
            nm = '%s[%s%s,%s]' % (tag, 'irreps' if irreps else 'traces', '' if inv_ else ',no inversion', chars)
            kw = {**T, **sp}
            r = ctx.run(method(bsobj('write_characters' + nm, soc, irreps=irr if irreps else None, inv=inv_), 'write_characters'))
            file_is(ctx, 'console' + nm, r, table(irreps, soc, inv_), kinds=('print',), sizes=SZ, **kw,
                    test=lambda a, b: same_tokens(tokens(head(a)), b, 6e-5),
                    rule='the table of each k-point lists number, coordinates, operations, and per set: energy, degeneracy, irreps and characters in both cells')
            gaps(ctx, 'console-gaps' + nm, r, kw)
            r = ctx.run(method(bsobj('json' + nm, soc, irreps=irr if irreps else None, inv=inv_), 'json', *(
                [w_list(['P%d' % i for i in range(4)])] if irreps and False else [])))
            value_is(ctx, 'json' + nm, r, rows_json(irreps, soc, inv_, False), sizes=SZ, **kw,
                     rule='JSON data are those of the analysis')
        r = ctx.run(method(bsobj('write_trace' + tag, soc), 'write_trace'))
        file_is(ctx, 'trace' + tag, r, trace(soc), kinds=('write',), sizes=SZ, **T, test=lambda a, b: same_tokens(a, b, 6e-5),
                rule='trace.txt: bands, SOC, operations in the reference cell, k-points, little groups, first band, degeneracy, energy, characters')
        files(ctx, 'trace-file' + tag, r, 'trace.txt')
        r = ctx.run(method(bsobj('write_irrepsfile' + tag, soc, irreps=irr), 'write_irrepsfile'))
        file_is(ctx, 'irreps.dat' + tag, r, irrepsdat, kinds=('write',), sizes=SZ, **T, test=lambda a, b: same_tokens(split_labels(a), b, 1e-6),
                rule='irreps.dat: energy and labels of every set of every k-point')
        files(ctx, 'irreps-file' + tag, r, 'irreps.dat')
        r = ctx.run(method(bsobj('write_plotfile' + tag, soc), 'write_plotfile'))
        file_is(ctx, 'plotfile' + tag, r, plot, kinds=('write',), sizes=SZ, **T, test=lambda a, b: same_tokens(tokens(a.split('\n', 1)[1] if '\n' in a else a), b, 6e-5),
                rule='plot file: for each band, the position along the path and the energy of that band, for every k-point')
    r = ctx.run(method(bsobj('KPOINTSline', False), 'KPOINTSline'))
    ctx.eq('path', r.result, lambda M: Doc(M).line, sizes=SZ, **T, rule='position along the path: cumulated cartesian distances, jumps count zero')
    for m, f in (('gap_direct', lambda M: Doc(M).direct), ('gap_indirect', lambda M: Doc(M).indirect)):
        r = ctx.run(prop(bsobj(m, False), m))
        ctx.eq(m.replace('_', '-'), r.result, f, sizes=SZ, **T, rule='gap over all k-points that have upper bands')


def files(ctx, name, run, fn):
    es = [e for e in run.events if e.kind == 'open' and not e.spec]
    if not es:
        return ctx.ob(name, 'undecided', 'no file opened')
    p = [str(getattr(e.data.get('path'), 'v', e.data.get('path'))) for e in es]
    ctx.true(name, p == [fn], 'opened %s' % p, es[0].where(), rule='written to ' + fn)


def gaps(ctx, name, run, kw):
    def spec(M):
        d = Doc(M)
        return '%.10f %.10f' % (d.indirect, d.direct)

    def test(a, b):
        t = tokens(CUT.split(a)[-1]).split()
        return same_tokens(' '.join(t[-2:]), b, 1e-8)
    file_is(ctx, name, run, spec, kinds=('print',), sizes=SZ, **kw, test=test, rule='indirect gap and smallest direct gap')
