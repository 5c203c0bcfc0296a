"""C07: k-points, bands and symmetries are selected by their numbers counted from 1"""
from .kp import *
from .common import MATRIX
from .out import *
from ..pyval import pyval, diff, envs

EXPLANATION = ('For every reader the list of k-points analysed, their coordinates and the window of bands are extracted from BandStructure.__init__ for different selections '
               '(none, part, beyond the end, not sorted); the selections of symmetries are traced to the loops that print, store and use them.')
ASSUMPTIONS = ('file formats as modelled in sa/world.py',)
BIG = dict(NB=9, NBUP=8, NBDW=10, NK=3)
SP = dict(nbandk=lambda k: 9)


def w_list(I, xs, st):
    return I.newlist(list(xs), st)


def chosen(ctx, name, r, want, rule):
    """the k-points handed to Kpoint, in order"""
    cs = calls(r, 'Kpoint.__init__')
    if r.exc or r.aborted or not cs:
        return ctx.ob(name, *stopped(r), '', rule)
    fl = {l for c in cs for l in (form_of(c['args'].get('ik')) or sym('?')).labels()}
    if fl:                      # generic loop: the last record is the complete one
        c = cs[-1]
        f = form_of(c['args'].get('ik'))
        l = sorted(fl)[0]
        return ctx.eq(name, Arr(((l, LABLEN[l]),), f, 'i'), want, where=where(c), rule=rule, sizes=BIG, **SP)
    # a concrete list, in the order of the calls (only the analysed ones)
    v = [form_of(c['args'].get('ik')) for c in cs]
    if any(x is None for x in v):
        return ctx.ob(name, 'undecided', 'index not resolved', '', rule)
    v = [x.int_const() for x in v]
    w = want(Model(1, BIG, **SP))
    ctx.true(name, None if None in v else v == w, 'analysed %s, required %s' % (v, w), where(cs[-1]), rule)


def run(ctx):
    chan = lambda n: 'dw' if n == 'espresso-dw' else None
    for n in MATRIX:
        r = get(n, ctx)
        kl = MATRIX[n][3].get('kplist')
        sel = None
        if kl is not None:
            sel = {'vasp-k': [2, 4], 'abinit': [2, 4], 'abinit-soc': [1, 2, 5], 'abinit-paw': [2, 4], 'espresso-k': [2, 3], 'w90-k': [2, 3]}[n]
        chosen(ctx, 'k-points[%s]' % n, r, lambda M: [k - 1 for k in sel] if sel else list(range(r.opt.get('nk') or M.sym('NK'))), 'the k-points asked for, in order; all of them otherwise')
        each(ctx, 'k-vector[%s]' % n, r, 'Kpoint.__init__', lambda o, c: eq_k(
            ctx, o, c, 'kpt', lambda M, k: [M.sym('kp', (k, i)) for i in range(3)], sizes=BIG, **SP, rule='coordinates of that same k-point'))
    # numbers beyond the end or below 1 are ignored, the order is that of the user
    for n, base in (('vasp-k', 5), ('abinit', 5), ('espresso-k', 5), ('w90', 3)):
        for tag, ks in (('beyond', [0, 2, base, base + 1, 7]), ('order', [3, 1])):
            if (n, tag) == ('abinit', 'order'):
                continue        # refused by the reader (C10)
            r = get(n, ctx, kplist=w_arr(ks))
            chosen(ctx, 'k-points-%s[%s]' % (tag, n), r, lambda M: [k - 1 for k in ks if 1 <= k <= base], 'numbers from 1; others are ignored')
            each(ctx, 'k-vector-%s[%s]' % (tag, n), r, 'Kpoint.__init__', lambda o, c: eq_k(
                ctx, o, c, 'kpt', lambda M, k: [M.sym('kp', (k, i)) for i in range(3)], sizes=BIG, **SP, rule='coordinates of that same k-point'))
            ef = lambda M: 0.0 if r.code == 'vasp' else M.sym('EF')
            each(ctx, 'energies-%s[%s]' % (tag, n), r, 'Kpoint.__init__', lambda o, c: eq_k(
                ctx, o, c, 'Energy', lambda M, k: [M.sym('E', (k, b)) - ef(M) for b in range(2, 6)], sizes=BIG, **SP, tol=1e-5, rule='energies of that same k-point'))
    bands(ctx)
    symmetries(ctx)
    names(ctx)
    parser(ctx)


def bands(ctx):
    NBF = {'vasp': lambda M: M.sym('NB'), 'abinit': lambda M: 9, 'espresso': lambda M: M.sym('NB'), 'espresso-dw': lambda M: M.sym('NBDW'),
           'espresso-up': lambda M: M.sym('NBUP'), 'w90': lambda M: M.sym('NB'), 'vasp-soc': lambda M: M.sym('NB'), 'w90-soc': lambda M: M.sym('NB'),
           'espresso-soc': lambda M: M.sym('NB'), 'abinit-soc': lambda M: 9}
    for n, nb in NBF.items():
        off = (lambda M: M.sym('NBUP')) if n == 'espresso-dw' else (lambda M: 0)
        for tag, b, e in (('all', None, None), ('start', 4, None), ('end', None, 5), ('one', 1, 1), ('beyond', 2, 40), ('zero', 0, 0)):
            r = get(n, ctx, IBstart=NONE if b is None else scal(const(b), 'i'), IBend=NONE if e is None else scal(const(e), 'i'))
            lo = 0 if not b else b - 1
            hi = lambda M: nb(M) if not e or e > nb(M) else e
            ef = lambda M: 0.0 if r.code == 'vasp' else M.sym('EF')
            each(ctx, 'bands-%s[%s]' % (tag, n), r, 'Kpoint.__init__', lambda o, c: eq_k(
                ctx, o, c, 'Energy', lambda M, k: [M.sym('E', (k, off(M) + i)) - ef(M) for i in range(lo, hi(M))], sizes=BIG, **SP, tol=1e-5,
                rule='bands IBstart..IBend, both included, counted from 1; the last band of the file by default'))
            each(ctx, 'number-%s[%s]' % (tag, n), r, 'Kpoint.__init__', lambda o, c: ctx.eq(
                o, c['args'].get('num_bands'), lambda M: hi(M) - lo, sizes=BIG, **SP, where=where(c), rule='number of bands of the window'))

            def rows_(o, c):
                v = c['args'].get('WF')
                ctx.eq(o, scal(v.axes[0][1]) if isinstance(v, Arr) and v.axes else None, lambda M: hi(M) - lo, sizes=BIG, **SP, where=where(c), rule='one row of coefficients per band')
            each(ctx, 'rows-%s[%s]' % (tag, n), r, 'Kpoint.__init__', rows_)


def symmetries(ctx):
    only = [2, 5, 6, 99]
    for sp in (False, True):
        r = ctx.run(kpoint(sp, 'Kpoint[symmetries]', symmetries=w_arr(only)))
        little_ob(ctx, 'little-group-selection[%s]' % ('soc' if sp else 'scalar'), r, only=only, rule='only the operations with the given numbers')
    kw = dict(sizes=dict(NSYM=NS, NAT=2), symind=KM['symind'])
    for tag, arg, lst in (('', w_arr(only), only), ('-all', NONE, None)):
        run = sgobj('SpaceGroup.json' + tag)
        r = ctx.run(method(run, 'json', arg))
        rule = 'operations with the given numbers, keyed by their number'

        def spec(M):
            return sorted(M.sym('symind', (p,)) for p in range(NS) if lst is None or M.sym('symind', (p,)) in lst)
        done, why, bad = 0, '', None
        for s in range(1, 5):
            M = Model(s, kw['sizes'], symind=KM['symind'])
            try:
                v = keys_of(M, r, 'symmetries')
            except Undecided as x:
                why = str(x)
                continue
            if sorted(v) != spec(M):
                bad = 'model %d: operations %s, required %s' % (s, sorted(v), spec(M))
            done += 1
        ctx.ob('json-symmetries' + tag, 'violated' if bad else 'ok' if done else 'undecided', bad or why and 'not every model evaluated: ' + why, '', rule)
        r = sgobj('SpaceGroup.show' + tag)
        record_call(r, 'SymmetryOperation.show', lambda I, env, st, node: NONE)
        r = ctx.run(method(r, 'show', arg))
        cs = [e.data['call'] for e in final_calls(r, 'SymmetryOperation.show')]
        bad, done, why = None, 0, str(r.aborted or r.exc or '')
        for s in range(1, 5):
            M = Model(s, kw['sizes'], symind=KM['symind'])
            try:
                v = shown(M, r, cs)
            except Undecided as x:
                why = str(x)
                continue
            if v != [M.sym('symind', (p,)) for p in range(NS) if lst is None or M.sym('symind', (p,)) in lst]:
                bad = 'model %d: operations %s shown' % (s, v)
            done += 1
        ctx.ob('show-symmetries' + tag, 'violated' if bad else 'ok' if done and cs else 'undecided', bad or why and 'not every model evaluated: ' + why, where(cs[0]) if cs else '', rule)
    # separation: operation number isymop
    for q in (2, 5):
        r = bsobj('Separate[%d]' % q)
        record_call(r, 'Kpoint.Separate', lambda I, env, st, node: Unknown(why='cut'))
        record_call(r, 'SymmetryOperation.show', lambda I, env, st, node: NONE)
        r = ctx.run(method(r, 'Separate', scal(const(q), 'i')))

        def ind(o, c):
            v = c['args'].get('symop')
            x = r.I.getattr(v, 'ind', None, r.st) if isinstance(v, Ref) else None
            ctx.eq(o, x, lambda M: M.sym('symind', (q - 1,)), where=where(c), rule='symmetry number isymop is the isymop-th of the list')
        each(ctx, 'separating-symmetry[%d]' % q, r, 'Kpoint.Separate', ind)


def shown(M, r, cs):
    out = []
    for c in cs:
        if c['spec']:
            continue
        x = r.I.getattr(c['args']['self'], 'ind', None, c['st']) if isinstance(c['args'].get('self'), Ref) else None
        if not isinstance(x, Arr) or x.form is None:
            raise Undecided('operation not resolved')
        fl = sorted(x.form.labels())
        for i in range(M.size(LABLEN[fl[0]], {}) if fl else 1):
            env = {fl[0]: i} if fl else {}
            if all(bool(M.ev(f, env)) == pol for f, pol in c['st'].pc if f.labels() <= set(env)):
                out.append(int(round(complex(M.ev(x.form, env)).real)))
    return out


def keys_of(M, r, key):
    v = r.I.loadv(r.result, r.st)
    rec = r.I.rec(v, r.st) if isinstance(v, Ref) else None
    if not isinstance(rec, DictRec):
        raise Undecided('dict not resolved')
    for k, x in rec.items:
        if isinstance(k, Const) and k.v == key:
            d = r.I.rec(r.I.loadv(x, r.st), r.st)
            if not isinstance(d, DictRec) or d.unk is True:
                raise Undecided('dict not resolved')
            out = [pyval(M, r, k2) for k2, _ in d.items]
            for l, n, k2, _ in d.gen:
                for i in range(M.size(n, {})):
                    out.append(pyval(M, r, k2, {l: i}))
            for ls, c, k2, _ in d.maybe:
                out += [pyval(M, r, k2, e) for e in envs(M, ls, {}) if abs(M.ev(c, e)) > 1e-12]
            return out
    raise Undecided('key')


def names(ctx):
    """the i-th name belongs to the i-th k-point analysed"""
    ks = []
    run = bsobj('identify_irreps', False)
    I, st = run.I, run.st
    kcls = I.modules['irrep.kpoint']['env']['Kpoint']
    kps = []
    for q in range(3):
        at = dict(k=mk('kK', 3, pre=(const(q),)), ik0=scal(const(q + 5)))
        at['%open'] = boolv(True)
        kps.append(I.alloc(ObjRec(kcls, at), st))
    I.rec(run.obj, st).attrs['kpoints'] = w_list(I, kps, st)
    got = []
    record_call(run, 'SpaceGroup.get_irreps_from_table', lambda I, env, st, node: scal(sym('tabof', env.get('K').form.subst({env.get('K').axes[0][0]: ZERO}))) if isinstance(env.get('K'), Arr) and env.get('K').form is not None and env.get('K').axes else Unknown(why='K'))
    record_call(run, 'Kpoint.identify_irreps', lambda I, env, st, node: NONE)
    r = ctx.run(method(run, 'identify_irreps', w_list(I, [Const('P%d' % q) for q in range(3)], st)))
    cs = calls(r, 'SpaceGroup.get_irreps_from_table')
    rule = 'the irreps of a k-point are those of its own name and coordinates'
    nm = [c['args'].get('kpname') for c in cs]
    nm = [x.v if isinstance(x, Const) else None for x in nm]
    ctx.true('names', None if len(cs) != 3 or None in nm else nm == ['P0', 'P1', 'P2'], 'names %s' % nm, where(cs[0]) if cs else '', rule)
    for q, c in enumerate(cs[:3]):
        ctx.eq('name-k[%d]' % q, c['args'].get('K'), lambda M: [M.sym('kK', (q, i)) for i in range(3)], where=where(c), rule=rule)
    cs = calls(r, 'Kpoint.identify_irreps')
    for q, c in enumerate(cs[:3]):
        ctx.eq('table-k[%d]' % q, c['args'].get('irreptable'), lambda M: M.sym('tabof', (M.sym('kK', (q, 0)),)), where=where(c), rule=rule, tabof=lambda x: 3.0 * x)


declare('tabof')


def parser(ctx):
    """lists of numbers given on the command line"""
    w = World('espresso', False)
    for s, v in (('3', [3]), ('1,4,2', [1, 4, 2]), ('2-5', [2, 3, 4, 5]), ('1,3-5,7', [1, 3, 4, 5, 7]), ('7-7,2', [7, 2]), ('10-12', [10, 11, 12])):
        run = new_run('str2list', w)
        run.st = State({}, {})
        r = ctx.run(go(run, 'irrep.utility:str2list', [Const(s)], {}, run.st))
        ctx.eq('list[%s]' % s, r.result, lambda M: v, rule='numbers and ranges, both ends included')
