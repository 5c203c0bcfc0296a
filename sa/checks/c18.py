"""C18: a table is loaded with exactly its contents, and only if it is the table asked for"""
from .common import *
from .kp import wm
from ..pyval import pyval, diff
from ..drivers import go, new_run

EXPLANATION = ('IrrepTable is interpreted on symbolic files in the format of the tables (symbolic rotations, translations, spinor matrices and characters; several k-points with different '
               'sets of operations, real and complex irreps, ranges of operations, blank and foreign lines); the objects built are compared with the contents of the file. '
               'The name of the default file and the refusal of a file with another number or kind are read off the events of the runs.')
ASSUMPTIONS = ('files follow the layout of the tables of the package',)

declare('TR')
declare('Tt')
declare('TSm')
declare('TSp')
declare('XA')
declare('XP')
declare('XK')

# k-points: (label, operations as written, operations, [(label, dimension, complex?)])
FILES_ = {
    'plain': (3, [('GM', '1 2 3', [1, 2, 3], [('GM1', 1, False), ('GM2', 1, True), ('GM3', 2, False)]), ('X', '1 3', [1, 3], [('X1', 2, True)])]),
    'range': (4, [('GM', '1-4', [1, 2, 3, 4], [('-GM5', 2, False)]), ('T', '1 3-4', [1, 3, 4], [('-T3', 1, True), ('-T4', 1, False)]), ('LD', '1', [1], [('-LD2', 1, False)])]),
}
LAYOUT = {
    'tables': ['SG=%(sg)s', ' name=P-1 ', ' nsym= %(n)d', ' spinor=%(spinor)s', 'symmetries=', '%ops', '', '', '%kps'],
    'other': ['SG= %(sg)s', 'name=P-1', 'spinor=%(spinor)s', 'nsym=%(n)d', 'symmetries=', '', '%ops', '%kps'],
}


def text(spinor, which, layout, sg=7, says=None):
    n, kps = FILES_[which]

    def f(w):
        T = lambda s: StrT([s + '\n'])
        ls = []
        for l in LAYOUT[layout]:
            if l == '%ops':
                for s in range(n):
                    c = const(s)
                    ls.append(w.line([sym('TR', c, const(i), const(j)) for i in range(3) for j in range(3)] + [sym('Tt', c, const(i)) for i in range(3)]
                                     + ([sym(q, c, const(i)) for q in ('TSm', 'TSp') for i in range(4)] if spinor else [])))
            elif l == '%kps':
                for k, (nm, txt, isy, irs) in enumerate(kps):
                    ls.append(StrT([' kpoint  %s : ' % nm] + [x for i in range(3) for x in ((scal(sym('XK', const(k), const(i))), ''), ' ')] + [' : %s\n' % txt]))
                    for a, (nm, d, cx) in enumerate(irs):
                        A = [const(k), const(a)]
                        ls.append(w.line([nm, str(d)] + [sym('XA', *A, const(i)) for i in range(len(isy))] + ([sym('XP', *A, const(i)) for i in range(len(isy))] if cx else [])))
                    ls.append(T(''))
            else:
                ls.append(T(l % dict(sg=sg, n=n, spinor=spinor if says is None else says)))
        return ls
    return f


def load(ctx, name, spinor, which='plain', layout='tables', **kw):
    run = new_run(name, World('vasp', spinor, text={'TAB.dat': text(spinor, which, layout, **kw)}))
    go(run, 'irreptables:IrrepTable', [], dict(SGnumber=Const(7), spinor=boolv(spinor), name=Const('TAB.dat')), State({}, {}))
    return ctx.run(run)


def attr(run, M, ref, name):
    r = run.I.rec(ref, run.st)
    if name not in r.attrs:
        return 'no attribute %s' % name
    return pyval(M, run, r.attrs[name])


def items(run, ref, name):
    r = run.I.rec(ref, run.st)
    if name not in r.attrs:
        return None
    v = run.I.loadv(r.attrs[name], run.st)
    q = run.I.rec(v, run.st) if isinstance(v, Ref) else None
    if not isinstance(q, ListRec) or q.unk or any(isinstance(s, tuple) for s in q.segs):
        raise Undecided('list %s not resolved' % name)
    return list(q.segs)


def contents(ctx, tag, run, spinor, which):
    import cmath
    where = 'irreptables/irreptables/__init__.py:IrrepTable.__init__'
    n, kps = FILES_[which]
    rule = 'exactly the operations, k-points and irreps of the file, in order, with their numbers'
    if run.exc:
        return ctx.ob('contents' + tag, 'violated', 'raises %s' % run.exc.exc, where, rule)
    if run.aborted or run.result is None:
        return ctx.ob('contents' + tag, 'undecided', str(run.aborted), where, rule)

    def sub(name, fn):
        why, done = None, 0
        for s in range(1, 9 if ctx.thorough else 4):
            M = Model(s, TR=lambda a, i, j: (a * 7 + i * 3 + j * 5 + s) % 3 - 1)
            try:
                d = fn(M)
            except Undecided as x:
                why = str(x)
                continue
            if d:
                return ctx.ob(name + tag, 'violated', d, where, rule)
            done += 1
        ctx.ob(name + tag, 'ok' if done else 'undecided', why or '', where, rule)

    T = run.result

    def header(M):
        return diff([attr(run, M, T, x) for x in ('number', 'nsym')], [7, n]) or diff(attr(run, M, T, 'name'), 'P-1') or \
            (None if bool(attr(run, M, T, 'spinor')) == spinor else 'spinor')

    def ops(M):
        L = items(run, T, 'symmetries')
        if L is None:
            return 'no list of symmetries'
        if len(L) != n:
            return '%d operations of %d' % (len(L), n)
        for s, o in enumerate(L):
            S = [[M.sym('TSm', (s, 2 * i + j)) * cmath.exp(1j * cmath.pi * M.sym('TSp', (s, 2 * i + j))) for j in range(2)] for i in range(2)] if spinor else [[1, 0], [0, 1]]
            d = diff(attr(run, M, o, 'R'), [[M.sym('TR', (s, i, j)) for j in range(3)] for i in range(3)], path='R') or \
                diff(attr(run, M, o, 't'), [M.sym('Tt', (s, i)) for i in range(3)], path='t') or diff(attr(run, M, o, 'S'), S, path='S')
            if d:
                return 'operation %d: %s' % (s + 1, d)

    def irreps(M):
        L = items(run, T, 'irreps')
        if L is None:
            return 'no list of irreps'
        want = [(k, a) for k, q in enumerate(kps) for a in range(len(q[3]))]
        if len(L) != len(want):
            return '%d irreps of %d' % (len(L), len(want))
        for (k, a), o in zip(want, L):
            nm, _, isy, irs = kps[k]
            lab_, dim, cx = irs[a]
            ch = {s: M.sym('XA', (k, a, i)) * (cmath.exp(1j * cmath.pi * M.sym('XP', (k, a, i))) if cx else 1) for i, s in enumerate(isy)}
            d = diff(attr(run, M, o, 'name'), lab_, path='name') or diff(attr(run, M, o, 'kpname'), nm, path='kpname') or diff(attr(run, M, o, 'dim'), dim, path='dim') or \
                diff(attr(run, M, o, 'k'), [M.sym('XK', (k, i)) for i in range(3)], path='k') or diff(attr(run, M, o, 'characters'), ch, path='characters') or \
                (None if bool(attr(run, M, o, 'reality')) == (not cx) else 'reality')
            if d:
                return '%s at %s: %s' % (lab_, nm, d)
    sub('header', header)
    sub('operations', ops)
    sub('irreps', irreps)


def run(ctx):
    for spinor in (False, True):
        for which in FILES_:
            for layout in LAYOUT:
                tag = '[%s,%s%s]' % (which, layout, ',soc' if spinor else '')
                contents(ctx, tag, load(ctx, 'table' + tag, spinor, which, layout), spinor, which)
    for spinor in (False, True):
        for tag, kw in (('other number', dict(sg=8)), ('other kind', dict(says=not spinor))):
            r = load(ctx, tag, spinor, **kw)
            ctx.true('refused[%s%s]' % (tag, ',soc' if spinor else ''), True if r.exc else None if r.aborted else False, str(r.exc and r.exc.exc), 'irreptables/irreptables/__init__.py:IrrepTable.__init__',
                     'a table for another space group or for another kind of wave functions is refused')
    for n in (2, 227):
        for spinor in (False, True):
            r = new_run('default file', World('vasp', spinor))
            go(r, 'irreptables:IrrepTable', [], dict(SGnumber=Const(n), spinor=boolv(spinor)), State({}, {}))
            ctx.run(r)
            e = [x for x in r.events if x.kind == 'open']
            want = '/tables/irreps-SG=%d-%s.dat' % (n, 'spin' if spinor else 'scal')
            got = tail(e[0].data.get('path')) if e else None
            ctx.true('default-file[%d%s]' % (n, ',soc' if spinor else ''), None if got is None else got.endswith(want), str(got), e[0].where() if e else '', 'the table of the package for the number and kind asked for')


def tail(p):
    if isinstance(p, Const) and isinstance(p.v, str):
        return p.v
    if isinstance(p, StrT) and p.parts and isinstance(p.parts[-1], str):
        return p.parts[-1]
    return None
