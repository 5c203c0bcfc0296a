"""Entry points of the analysis: abstract runs of the public constructors, methods and command line."""
import os, sys, traceback
from .forms import *
from .values import *
from .interp import *
from .world import *

sys.setrecursionlimit(20000)
REPO = os.environ.get('IRREP_REPO', '/repo')        # another tree only for tests of the analysis itself
LOG = None              # all runs made, if wanted
WATCH = False           # whether to look for changes of what is given to a call
MODS = ('irrep.utility', 'irrep.gvectors', 'irrep.readfiles', 'irrep.spacegroup', 'irrep.kpoint', 'irrep.bandstructure')


class Run:
    """one abstract run"""

    def __init__(self, name, I, world):
        self.name = name
        self.I = I
        self.world = world
        self.calls = {}        # hooked function -> list of dict(args, st, pc)
        self.result = None
        self.exc = None
        self.st = None
        self.aborted = None
        self.changes = []      # what calls changed in what they were given (WATCH)
        self.entries = []

    @property
    def events(self):
        return self.I.events

    def ev(self, *kinds):
        return [e for e in self.I.events if e.kind in kinds]


def new_run(name, world, mods=MODS):
    I = Interp(REPO, world)
    for m in mods:
        I.load(m)
    I.events = []
    r = Run(name, I, world)
    if LOG is not None:
        LOG.append(r)
    return r


def record_call(run, qual, ret=None, cut=True):
    def hook(I, env, st, node):
        run.calls.setdefault(qual, []).append(
            dict(args={k: I.loadv(v, st) for k, v in env.items()}, st=st.copy(), node=node, spec=I.spec, ctx=I.ctx,
                 file=(I.ctx.module['path'] if I.ctx and I.ctx.module else '')))
        I.event('callrec', node, dict(qual=qual, call=run.calls[qual][-1]), st)
        if not cut:
            return None
        r = ret(I, env, st, node) if ret else NONE
        return r
    run.I.call_hooks['pre:' + qual] = hook


def go(run, fn, args, kw, st=None):
    st = st or State({}, {})
    run.st = st
    I = run.I
    mem = None
    if WATCH:
        from . import watch
        args, kw, mem = watch.before(run, args, kw, st)
    n0 = len(I.events)
    try:
        run.result = I.call_by_name(fn, args, kw, st)
    except PyRaise as e:
        run.exc = e
    except Abort as e:
        run.aborted = str(e)
    except RecursionError:
        run.aborted = 'recursion'
    except Exception as e:        # limitation of the analysis: what was recorded so far is kept
        run.aborted = 'internal: %s %s' % (type(e).__name__, e)
        if os.environ.get('VERIF_DEBUG'):
            traceback.print_exc()
    if mem:
        watched(run, fn.split(':')[-1], mem, n0)
    return run


def watched(run, entry, mem, n0):
    from . import watch
    run.entries.append(entry)
    evs = run.I.events[n0:]
    for name, s, cls, at, ad in watch.after(run, mem, run.st, {e.data['addr'] for e in evs if e.kind == 'listmut'}):
        w = [e for e in evs if e.kind == 'attrset' and e.data.get('addr') == ad and e.data.get('attr') == at]
        w += [e for e in evs if e.kind == 'mutate' and 'given:' + name in e.data['roots']]
        m = [e for e in evs if e.kind == 'listmut' and e.data['addr'] == ad]
        if s is None and m and len({e.data['how'] in ('append', 'add', 'extend', 'insert', 'update') for e in m}) == 1:
            from .collect import possible
            m = [e for e in m if not e.spec and possible(run, e)]
            s = False if m else None
        if not w:
            w = m
        run.changes.append((entry, name, s, cls, at, w[-1].where() if w else ''))


def sg_attrs(world):
    """canonical attributes of a SpaceGroup"""
    def ret(I, env, st, node):
        me = env.get('self')
        if isinstance(me, Ref):
            r = st.heap[me.addr]
            at = dict(r.attrs)
            l = new_label()
            LABLEN[l] = NSYM
            sy = I.alloc(ListRec([('gen', l, NSYM, I.alloc(ObjRec('symop', {'i': scal(lab(l))}), st))]), st)
            at.update(symmetries=sy, order=scal(NSYM), refUC=mk('ref', 3, 3), shiftUC=mk('sh', 3), number=scal(sym('SGnum')),
                      name=Unknown(why='name'), spinor=boolv(world.spinor), Lattice=mk('L', 3, 3), positions=mk('pos', NAT, 3),
                      typat=Unknown(why='typat'), alat=scal(sym('alat')), symmetries_tables=Unknown(why='symtables'))
            at['%open'] = boolv(True)
            st.heap[me.addr] = ObjRec(r.cls, at, r.meta)
        return NONE
    return ret


def kp_attrs(world):
    def ret(I, env, st, node):
        me = env.get('self')
        if isinstance(me, Ref):
            r = st.heap[me.addr]
            at = dict(r.attrs)
            at['%open'] = boolv(True)
            st.heap[me.addr] = ObjRec(r.cls, at, r.meta)
        return NONE
    return ret


def sort_cut(world):
    def ret(I, env, st, node):
        return Tup([mk('psiS', NB, sym('NG') * const(world.nspinor)), world.canon_ig()])
    return ret


declare('psiS', real=False)


def band(code, spinor, opt=None, cut_sort=True, **kw):
    """BandStructure(...) reading symbolic files, with SpaceGroup, Kpoint and the plane-wave routines as boundaries"""
    w = World(code, spinor, **(opt or {}))
    run = new_run('BandStructure[%s,spinor=%s%s]' % (code, spinor, ''.join(',%s=%s' % x for x in (opt or {}).items())), w)
    record_call(run, 'SpaceGroup.__init__', sg_attrs(w))
    record_call(run, 'Kpoint.__init__', kp_attrs(w))
    record_call(run, 'calc_gvectors', lambda I, env, st, node: w.canon_ig())
    if cut_sort:
        record_call(run, 'sortIG', sort_cut(w))
    a = dict(code=Const(code))
    if code == 'vasp':
        a.update(fWAV=Const('FWAV'), fPOS=Const('FPOS'), spinor=boolv(spinor))
    elif code == 'abinit':
        a.update(fWFK=Const('FWFK'))
    else:
        a.update(prefix=Const('PREFIX'))
    a.update(IBstart=scal(const(3)), IBend=scal(const(6)), Ecut=scal(sym('Ecut')), EF=Const('auto'),
             degen_thresh=scal(sym('degthr')), trans_thresh=scal(sym('trthr')))
    a.update(kw)
    return go(run, 'irrep.bandstructure:BandStructure', [], a)


declare('psi', real=False)
declare('symS', real=False)


def symop_list(run, n=None, st=None, extra=None):
    """abstract list of SymmetryOperation objects, every attribute a symbol of the position in the list"""
    I = run.I
    st = st if st is not None else run.st
    cls = I.modules['irrep.spacegroup']['env'].get('SymmetryOperation')
    l = new_label()
    n = NSYM if n is None else n
    LABLEN[l] = n

    def one(p):
        at = dict(rotation=mk('symR', 3, 3, pre=(p,), dtype='i'), translation=mk('symt', 3, pre=(p,)),
                  spinor_rotation=mk('symS', 2, 2, pre=(p,), dtype='c'), ind=scal(sym('symind', p)), sign=scal(sym('symsign', p)),
                  angle=scal(sym('symangle', p)), axis=mk('symaxis', 3, pre=(p,)), inversion=Unknown(why='inversion'),
                  Lattice=mk('L', 3, 3), spinor=boolv(run.world.spinor))
        at['%open'] = boolv(True)
        at.update(extra or {})
        return I.alloc(ObjRec(cls, at), st)
    return I.alloc(ListRec([('gen', l, n, one(lab(l)))]), st)


def kpoint(spinor=False, name='Kpoint', traces=True, cut=('symm_eigenvalues', 'symm_matrix'), **kw):
    """Kpoint(...) on a symbolic k-point"""
    w = World('espresso', spinor)
    run = new_run(name, w)
    run.st = State({}, {})
    if 'symm_eigenvalues' in cut:
        l = new_label()
        record_call(run, 'symm_eigenvalues', lambda I, env, st, node: ev_cut(I, env, st))
    if 'symm_matrix' in cut:
        record_call(run, 'symm_matrix', lambda I, env, st, node: mk('Smat', NB, NB, dtype='c'))
    ns = 2 if spinor else 1
    a = dict(ik=scal(sym('IK')), num_bands=scal(NB), RecLattice=mk('Rec', 3, 3), symmetries_SG=symop_list(run), calculate_traces=boolv(traces),
             spinor=boolv(spinor), kpt=mk('kk', 3), WF=mk('psi', NB, sym('NG') * const(ns), dtype='c'), Energy=mk('En', NB), ig=w.canon_ig(),
             upper=scal(sym('Eup')), degen_thresh=scal(sym('degthr')), refUC=mk('ref', 3, 3), shiftUC=mk('sh', 3),
             symmetries_tables=tables_list(run))
    a.update(kw)
    return go(run, 'irrep.kpoint:Kpoint', [], a, run.st)


def hfun(labels, *vals):
    """H(labels, all elements of the small arrays)"""
    args = list(labels)
    for v in vals:
        if not isinstance(v, Arr) or v.form is None:
            return None
        idx = [()]
        for l, n in v.axes:
            c = n.int_const()
            if c is None:
                return None
            idx = [i + ((l, k),) for i in idx for k in range(c)]
        args += [v.form.subst({l: const(k) for l, k in i}) if i else v.form for i in idx]
    return fn('H', *args)


def ev_cut(I, env, st):
    """symm_eigenvalues: an arbitrary function of band and of the operation it was given"""
    l = newax(NB)
    f = hfun([lab(l[0])], *[env.get(x) for x in ('A', 'T')])
    return Arr((l,), f, 'c')


def tables_list(run):
    """list of SymopTable: the table's translation of every operation"""
    I = run.I
    cls = I.modules.get('irreptables', {}).get('env', {}).get('SymopTable')
    l = new_label()
    LABLEN[l] = NSYM
    o = I.alloc(ObjRec(cls, {'t': mk('tabt', 3, pre=(lab(l),)), 'R': mk('tabR', 3, 3, pre=(lab(l),), dtype='i'), '%open': boolv(True)}), run.st)
    return I.alloc(ListRec([('gen', l, NSYM, o)]), run.st)


for _n in ('En', 'kk', 'Rec', 'Eup', 'tabt', 'symsign', 'symangle', 'symaxis', 'symt'):
    declare(_n)
for _n in ('IK', 'symind', 'tabR', 'rotind'):
    declare(_n, integer=True)


NLG, NSET = sym('NLG'), sym('NSET')
for _n in ('NLG', 'NSET', 'NIRRCH', 'degk'):
    declare(_n, integer=True)
declare('char', real=False)
declare('charR', real=False)
declare('Em')
declare('IRR')
declare('kref')


def kobj(spinor=False, name='Kpoint', irreps=None, **over):
    """an analysed k-point: generic characters, energies and little group"""
    w = World('espresso', spinor)
    run = new_run(name, w)
    st = run.st = State({}, {})
    ns = 2 if spinor else 1
    cls = run.I.modules['irrep.kpoint']['env']['Kpoint']
    at = dict(spinor=boolv(spinor), ik0=scal(sym('IK') + ONE), num_bands=scal(NB), RecLattice=mk('Rec', 3, 3), upper=scal(sym('Eup')), k=mk('kk', 3),
              WF=mk('psi', NB, sym('NG') * const(ns), dtype='c'), Energy_raw=mk('En', NB), ig=w.canon_ig(), k_refUC=mk('kref', 3),
              little_group=symop_list(run, NLG, st), char=mk('char', NSET, NLG), char_refUC=mk('charR', NSET, NLG), Energy_mean=mk('Em', NSET),
              degeneracies=mk('degk', NSET), borders=Unknown(why='borders'), num_bandinvs=scal(sym('NINV')), onlytraces=boolv(True))
    at['%open'] = boolv(True)
    at.update(over)
    run.obj = run.I.alloc(ObjRec(cls, at), st)
    return run


def method(run, name, *args, **kw):
    """call a method of run.obj"""
    I = run.I
    mem = None
    n0 = len(I.events)
    if WATCH:
        from . import watch
        args, kw, mem = watch.before(run, args, kw, run.st, run.obj)
    f = I.getattr(run.obj, name, None, run.st)
    try:
        run.result = I.call(f, list(args), kw, _NODE, run.st)
    except PyRaise as e:
        run.exc = e
    except Abort as e:
        run.aborted = str(e)
    except RecursionError:
        run.aborted = 'recursion'
    except Exception as e:
        run.aborted = 'internal: %s %s' % (type(e).__name__, e)
        if os.environ.get('VERIF_DEBUG'):
            traceback.print_exc()
    if mem:
        cls = run.I.rec(run.obj, run.st).cls
        watched(run, '%s.%s' % (cls.name, name), mem, n0)
    return run


import ast as _ast
_NODE = _ast.Pass(lineno=0, col_offset=0)


for _n in ('tabt2', 'kirr', 'typn'):
    declare(_n)
declare('tabS', real=False)


def one_symop(run, p=None, **over):
    st = run.st
    cls = run.I.modules['irrep.spacegroup']['env'].get('SymmetryOperation')
    p = ZERO if p is None else p
    at = dict(rotation=mk('symR', 3, 3, pre=(p,), dtype='i'), translation=mk('symt', 3, pre=(p,)),
              spinor_rotation=mk('symS', 2, 2, pre=(p,), dtype='c'), ind=scal(sym('symind', p)), sign=scal(sym('symsign', p)),
              angle=scal(sym('symangle', p)), axis=mk('symaxis', 3, pre=(p,)), inversion=boolv(False), angle_str=StrT(['ANGLE']),
              Lattice=mk('L', 3, 3), spinor=boolv(run.world.spinor))
    at.update(over)
    run.obj = run.I.alloc(ObjRec(cls, at), st)
    return run.obj


def symop_run(name, spinor=False, **over):
    run = new_run(name, World('espresso', spinor))
    run.st = State({}, {})
    one_symop(run, **over)
    return run


def sgobj(name, spinor=False, tables=True, **over):
    """a SpaceGroup object with symbolic content"""
    run = new_run(name, World('espresso', spinor))
    st = run.st = State({}, {})
    cls = run.I.modules['irrep.spacegroup']['env'].get('SpaceGroup')
    at = dict(spinor=boolv(spinor), Lattice=mk('L', 3, 3), positions=mk('pos', NAT, 3), typat=mk('typ', NAT, dtype='i'),
              symmetries=symop_list(run, NSYM, st), name=StrT(['SGNAME']), number=scal(sym('SGnum')), order=scal(NSYM), alat=scal(sym('alat')),
              symmetries_tables=tables_list(run), refUC=mk('ref', 3, 3), shiftUC=mk('sh', 3))
    at.update(over)
    run.obj = run.I.alloc(ObjRec(cls, at), st)
    return run


for _n in ('kK', 'EmK', 'EnK', 'upK', 'krefK'):
    declare(_n)
for _n in ('charK', 'charRK', 'psiK'):
    declare(_n, real=False)
for _n in ('degK', 'NSETk', 'NLGk', 'indK', 'nbiK', 'igK', 'NGk', 'NK'):
    declare(_n, integer=True)


def bsobj(name, spinor=False, nk=None, irreps=None, inv=True, kattrs=None, **over):
    """a BandStructure with a generic list of analysed k-points"""
    run = new_run(name, World('espresso', spinor))
    st = run.st = State({}, {})
    I = run.I
    kcls = I.modules['irrep.kpoint']['env']['Kpoint']
    bcls = I.modules['irrep.bandstructure']['env']['BandStructure']
    scls = I.modules['irrep.spacegroup']['env']['SymmetryOperation']
    gcls = I.modules['irrep.spacegroup']['env']['SpaceGroup']
    ns = 2 if spinor else 1
    l = new_label()
    NK = sym('NK') if nk is None else const(nk)
    LABLEN[l] = NK
    k = lab(l)
    ns_, nl_ = sym('NSETk', k), sym('NLGk', k)
    l2 = new_label()
    LABLEN[l2] = nl_
    op = I.alloc(ObjRec(scls, {'ind': scal(sym('indK', k, lab(l2))), '%open': boolv(True)}), st)
    at = dict(spinor=boolv(spinor), ik0=scal(k + ONE), num_bands=scal(NB), RecLattice=mk('Rec', 3, 3), upper=scal(sym('upK', k)), k=mk('kK', 3, pre=(k,)),
              WF=mk('psiK', NB, sym('NGk', k) * const(ns), pre=(k,), dtype='c'), Energy_raw=mk('EnK', NB, pre=(k,)), ig=mk('igK', 6, sym('NGk', k), pre=(k,), dtype='i'),
              k_refUC=mk('krefK', 3, pre=(k,)), little_group=I.alloc(ListRec([('gen', l2, nl_, op)]), st), char=mk('charK', ns_, nl_, pre=(k,), dtype='c'),
              char_refUC=mk('charRK', ns_, nl_, pre=(k,), dtype='c'), Energy_mean=mk('EmK', ns_, pre=(k,)), degeneracies=mk('degK', ns_, pre=(k,), dtype='i'),
              num_bandinvs=scal(sym('nbiK', k)) if inv else NONE, onlytraces=boolv(irreps is None))
    if irreps is not None:
        at['irreps'] = irreps(run, k, ns_)
    else:
        l3 = new_label()
        LABLEN[l3] = ns_
        at['irreps'] = I.alloc(ListRec([('gen', l3, ns_, Const('None'))]), st)
    at['%open'] = boolv(True)
    at.update(kattrs(run, k) if kattrs else {})
    kp = I.alloc(ObjRec(kcls, at), st)
    kps = I.alloc(ListRec([('gen', l, NK, kp)]), st)
    sg = I.alloc(ObjRec(gcls, dict(spinor=boolv(spinor), Lattice=mk('L', 3, 3), positions=mk('pos', NAT, 3), typat=mk('typ', NAT, dtype='i'),
                                   symmetries=symop_list(run, NSYM, st), name=StrT(['SGNAME']), number=scal(sym('SGnum')), order=scal(NSYM), alat=scal(sym('alat')),
                                   symmetries_tables=tables_list(run), refUC=mk('ref', 3, 3), shiftUC=mk('sh', 3))), st)
    bt = dict(spinor=boolv(spinor), kpoints=kps, spacegroup=sg, efermi=scal(sym('EF')), Ecut=scal(sym('Ecut')), Lattice=mk('L', 3, 3), RecLattice=mk('Rec', 3, 3))
    bt['%open'] = boolv(True)
    bt.update(over)
    run.obj = I.alloc(ObjRec(bcls, bt), st)
    return run


def prop(run, name):
    """value of a property or attribute of run.obj"""
    mem = None
    n0 = len(run.I.events)
    if WATCH:
        from . import watch
        _, _, mem = watch.before(run, [], {}, run.st, run.obj)
    try:
        run.result = run.I.getattr(run.obj, name, _NODE, run.st)
    except PyRaise as e:
        run.exc = e
    except Abort as e:
        run.aborted = str(e)
    except Exception as e:
        run.aborted = 'internal: %s %s' % (type(e).__name__, e)
        if os.environ.get('VERIF_DEBUG'):
            traceback.print_exc()
    if mem:
        cls = run.I.rec(run.obj, run.st).cls
        watched(run, '%s.%s' % (cls.name, name), mem, n0)
    return run
