"""C06: little group and characters"""
from .kp import *

EXPLANATION = ('Kpoint.__init__ is interpreted on a symbolic k-point with a symbolic list of symmetry operations; little group, characters '
               '(DFT and reference cell) are extracted as closed forms and compared with their definition in random models.')
ASSUMPTIONS = ('the per-band traces themselves are the subject of C04; here they are an arbitrary function of band and operation',)


def run(ctx):
    for sp in (False, True):
        r = ctx.run(kpoint(sp, 'Kpoint[spinor=%s]' % sp))
        tag = '[soc]' if sp else '[scalar]'
        little_ob(ctx, 'little-group' + tag, r, rule='operations with inv(R)^T k == k mod G, ascending index')
        ctx.eq('characters' + tag, attr(r, 'char'), lambda M: [[chi(M, p, *s) for p in little(M)] for s in sets(M)], sizes=KS_, **KM,
               rule='char[set,op] == sum of the traces of op over the bands of the set')

        def refuc(M):
            ref = [[M.sym('ref', (i, j)) for j in range(3)] for i in range(3)]
            kr = mv(kv(M), ref)
            ri = real(inv(ref))
            sh = vec(M, 'sh')
            out = []
            for s in sets(M):
                row = []
                for p in little(M):
                    Rs = mmv(Rm(M, p), sh)
                    t = mmv(ri, [tv(M, p)[i] + Rs[i] - sh[i] for i in range(3)])
                    tt = [M.sym('tabt', (M.sym('symind', (p,)) - 1, i)) for i in range(3)]
                    dt = [x - y for x, y in zip(tt, t)]
                    row.append(chi(M, p, *s) * M.sym('symsign', (p,)) * cmath.exp(-2j * PI * dot(dt, kr)))
                out.append(row)
            return out
        ctx.eq('characters-refUC' + tag, attr(r, 'char_refUC'), refuc, sizes=KS_, **KM,
               rule='char_refUC == char * sign * exp(-2 pi i (t_table - t_refUC).k_refUC)')
        ctx.eq('k-refUC' + tag, attr(r, 'k_refUC'), lambda M: mv(kv(M), [[M.sym('ref', (i, j)) for j in range(3)] for i in range(3)]), sizes=KS_, **KM,
               rule='k_refUC == refUC^T k')
        # the same cell: nothing is changed
        eye = w_arr2([[1, 0, 0], [0, 1, 0], [0, 0, 1]])
        r2 = ctx.run(kpoint(sp, 'Kpoint[same cell,spinor=%s]' % sp, refUC=eye, shiftUC=w_arr([0, 0, 0])))
        ctx.eq('characters-refUC-same-cell' + tag, attr(r2, 'char_refUC'), lambda M: [[chi(M, p, *s) for p in little(M)] for s in sets(M)], sizes=KS_, **KM,
               rule='identical cells: char_refUC == char')
        r3 = ctx.run(kpoint(sp, 'Kpoint[shift only,spinor=%s]' % sp, refUC=eye))
        ctx.eq('characters-refUC-shift-only' + tag, attr(r3, 'char_refUC'), refuc, sizes=KS_, **{**KM, 'ref': lambda i, j: float(i == j)},
               rule='shifted origin: char_refUC == char * sign * exp(-2 pi i (t_table - t_refUC).k_refUC)')
        r4 = ctx.run(kpoint(sp, 'Kpoint[axes only,spinor=%s]' % sp, shiftUC=w_arr([0, 0, 0])))
        ctx.eq('characters-refUC-axes-only' + tag, attr(r4, 'char_refUC'), refuc, sizes=KS_, **{**KM, 'sh': lambda i: 0.0},
               rule='same origin: char_refUC == char * sign * exp(-2 pi i (t_table - t_refUC).k_refUC)')
    irreps(ctx)
    tables(ctx)


def irreps(ctx):
    rule = 'multiplicity of an irrep == 1/|G| sum over the little group of conj(character) * table character'
    run = kobj(False, 'Kpoint.identify_irreps')
    names = ['GM1', 'GM2', 'GM3']
    NDIM = sym('NIRRCH')
    l = new_label()
    LABLEN[l] = NDIM
    items = []
    for q, nm in enumerate(names):
        items.append((Const(nm), run.I.alloc(ListRec([('gen', l, NDIM, scal(sym('chirr', const(q), lab(l)), 'c'))]), run.st)))
    tab = run.I.alloc(DictRec(items), run.st)
    method(run, 'identify_irreps', irreptable=tab)
    ctx.run(run)
    evs = [e for e in run.events if e.kind == 'dictset' and isinstance(e.data['key'], Const) and e.data['key'].v in names and not e.spec]
    if not evs:
        ctx.ob('multiplicity', 'undecided', 'no multiplicity recorded (%s)' % (run.aborted or run.exc), '', rule)
    for e in evs:
        v = e.data['value']
        q = names.index(e.data['key'].v)
        free = sorted(v.form.labels() - {x for x, _ in v.axes}) if isinstance(v, Arr) and v.form is not None else []
        if len(free) != 1 or v.axes:
            ctx.ob('multiplicity', 'undecided', 'form %s' % v, e.where(), rule)
            continue
        a = Arr(((free[0], LABLEN[free[0]]),), v.form, 'c')

        def spec(M):
            n = M.sym('NLG')
            return [sum(M.sym('char', (s, p)).conjugate() * M.sym('chirr', (q, M.sym('symind', (p,)))) for p in range(n)) / n for s in range(M.sym('NSET'))]
        ctx.eq('multiplicity', a, spec, where=e.where(), rule=rule, sizes=dict(NLG=4, NSET=3, NIRRCH=40), symind=lambda p: (3, 7, 1, 5)[p])
        # reported whenever it is not negligible
        c = [(f, pol) for f, pol in e.pc if free[0] in f.labels()]

        def reported(M):
            out = []
            for s in range(M.sym('NSET')):
                out.append(int(all((abs(M.ev(f, {free[0]: s})) > 1e-9) == pol for f, pol in c)))
            return out
        ctx.eq('multiplicity-reported', reported, lambda M: [int(abs(x) > 0.3) for x in spec(M)], where=e.where(), sizes=dict(NLG=4, NSET=3, NIRRCH=40),
               symind=lambda p: (3, 7, 1, 5)[p], char=lambda s, p: [2, 1j, -1][s] if s < 2 else 0.0, chirr=lambda q, i: 2.0 if q == 0 else 1j,
               rule='an irrep is reported exactly when its multiplicity is not zero')
    # without table: one placeholder per set of states
    run = kobj(False, 'Kpoint.identify_irreps[no table]')
    method(run, 'identify_irreps', irreptable=NONE)
    ctx.run(run)
    v = attr2(run, 'irreps')
    n = run.I.lib.list_len(v, run.st) if isinstance(v, Ref) else None
    ctx.eq('irreps-without-table', None if n is None else scal(n), lambda M: M.sym('NSET'), rule='one entry per set of states', sizes=dict(NSET=3))


def tables(ctx):
    """characters of the tables, for the actual operations"""
    run = sgobj('SpaceGroup.get_irreps_from_table')
    I = run.I
    ni, nc = sym('NIRR2'), sym('NCH')

    def cut(I_, env, st, node):
        li, lc = new_label(), new_label()
        LABLEN[li], LABLEN[lc] = ni, nc
        chars = I.alloc(DictRec([], [(lc, nc, scal(lab(lc) + ONE, 'i'), scal(sym('chirr', lab(li), lab(lc) + ONE), 'c'))]), st)
        irr = I.alloc(ObjRec(I.modules['irreptables']['env'].get('Irrep'), {
            'name': StrT([(scal(sym('irname', lab(li))), 'name')]), 'kpname': StrT([(scal(sym('irkp', lab(li))), 'name')]),
            'k': mk('kirr', 3, pre=(lab(li),)), 'characters': chars, '%open': boolv(True)}), st)
        st.heap[env['self'].addr].attrs.update(irreps=I.alloc(ListRec([('gen', li, ni, irr)]), st), symmetries=tables_list(run),
                                               number=env.get('SGnumber', NONE), spinor=env.get('spinor', NONE))
        return NONE
    record_call(run, 'IrrepTable.__init__', cut)
    ctx.run(method(run, 'get_irreps_from_table', StrT(['GM']), mk('kk', 3)))
    kw = dict(sizes=dict(KS_, NIRR2=3, NCH=NS), **{k: v for k, v in KM.items() if k != 'kk'})
    for c in run.calls.get('IrrepTable.__init__', ()):
        ctx.eq('table-number', c['args'].get('SGnumber'), lambda M: M.sym('SGnum'), rule='table of the space group of the crystal')
        sp = c['args'].get('spinor')
        ctx.true('table-spinor', None if not isinstance(sp, Arr) or sp.form is None or sp.form.const() is None else sp.form.const() == 0, 'spinor=%s' % sp, '', 'table of the same kind (single or double valued)')
    rule = 'table character * sign * exp(2 pi i (t_table - t_ref).k), under the number of the operation'
    evs = [e for e in run.events if e.kind == 'dictset' and not e.spec and isinstance(e.data['value'], Arr)]
    if not evs:
        ctx.ob('table-character', 'undecided', 'no character recorded (%s)' % (run.aborted or run.exc), '', rule)
    for e in evs:
        v, key = e.data['value'], e.data['key']
        kl = sorted(key.form.labels()) if isinstance(key, Arr) and key.form is not None else []
        fl = sorted(v.form.labels() - set(kl)) if v.form is not None and not v.axes else []
        if len(kl) != 1 or len(fl) != 1:
            ctx.ob('table-character', 'undecided', '%s %s' % (key, v), e.where(), rule)
            continue
        ax = ((fl[0], ni), (kl[0], NSYM))
        ctx.eq('table-operation', Arr(ax[1:], key.form, 'i'), lambda M: [p + 1 for p in range(NS)], where=e.where(), rule=rule, **kw)

        def spec(M):
            out = []
            ri = real(inv([[complex(M.sym('ref', (i, j))) for j in range(3)] for i in range(3)]))
            sh = vec(M, 'sh')
            for q in range(3):
                row = []
                for p in range(NS):
                    Rs = mmv(Rm(M, p), sh)
                    t = mmv(ri, [tv(M, p)[i] + Rs[i] - sh[i] for i in range(3)])
                    dt = [M.sym('tabt', (p, i)) - t[i] for i in range(3)]
                    row.append(M.sym('chirr', (q, p + 1)) * M.sym('symsign', (p,)) * cmath.exp(2j * PI * dot(dt, vec(M, 'kirr', pre=(q,)))))
                out.append(row)
            return out
        ctx.eq('table-character', Arr(ax, v.form, 'c'), spec, where=e.where(), rule=rule, **kw)
        refuse(ctx, run, 'table-kpoint', kw, e)


def refuse(ctx, run, name, kw, e0):
    """a name whose coordinates in the table are not the ones of the k-point is refused, and no other"""
    rule = 'refused iff k is not refUC^-T k_table modulo G'
    evs = [e for e in run.events if e.kind == 'raise' and not e.spec and any('kirr' in str(f) for f, _ in e.pc) and set().union(*[f.labels() for f, _ in e.pc]) == {min(e0.data['value'].form.labels())}]
    if not evs:
        return ctx.ob(name, 'undecided', 'no condition found', '', rule)
    e = evs[0]
    l = min(e0.data['value'].form.labels())

    def value(kind):
        def f(M):
            r = []
            for q in range(3):
                c = True
                for g, pol in e.pc:
                    if 'streq' in str(g):
                        continue
                    c = c and bool(M.ev(g, {l: q})) == pol
                r.append(int(c))
            return r
        return f

    def kgood(sh):
        def f(M, i):
            # every irrep of this model has the same k
            ri = real(inv([[complex(M.sym('ref', (a, b))) for b in range(3)] for a in range(3)]))
            return mmv(T(ri), vec(M, 'kirr', pre=(0,)))[i] + (M.seed + i) % 3 - 1 + (sh if i == M.seed % 3 else 0)
        f.withM = True
        return f
    k0 = lambda q, i: (0.5, 0.25, 1 / 3.)[i]
    refI = wm(lambda M, i, j: [[[1, 1, 0], [0, 1, 0], [0, 0, 1]], [[0, 1, 1], [1, 0, 1], [1, 1, 0]], [[1, 0, 2], [0, 1, 0], [1, 0, 1]]][M.seed % 3][i][j])
    k2 = {k: v for k, v in kw.items() if k not in ('kk', 'ref')}
    ctx.eq(name + '-accepted', value(0), lambda M: [0, 0, 0], where=e.where(), rule=rule, kk=kgood(0), kirr=k0, ref=refI, **k2)
    ctx.eq(name + '-refused', value(0), lambda M: [1, 1, 1], where=e.where(), rule=rule, kk=kgood(0.23), kirr=k0, ref=refI, **k2)
