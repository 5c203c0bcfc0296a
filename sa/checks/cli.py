"""Abstract runs of the command line: cli() with the analysis classes as boundaries."""
import ast
from .common import *
from ..drivers import _NODE

for _n in ('oEcut', 'ocorr', 'oalat', 'othr', 'otr', 'oEF'):
    declare(_n)
for _n in ('oIBs', 'oIBe', 'overb'):
    declare(_n, integer=True)

BS = ('identify_irreps', 'write_characters', 'write_irrepsfile', 'write_trace', 'write_plotfile')


def opts(**kw):
    a = dict(ecut=scal(sym('oEcut')), fwav=Const('FWAV'), fpos=Const('FPOS'), fwfk=Const('FWFK'), prefix=Const('PRE'), ibstart=scal(sym('oIBs'), 'i'),
             ibend=scal(sym('oIBe'), 'i'), code=Const('vasp'), spinor=boolv(False), kpoints=NONE, kpnames=NONE, refuc=NONE, shiftuc=NONE, isymsep=NONE,
             onlysym=boolv(False), writesym=boolv(False), alat=scal(sym('oalat')), from_sym_file=NONE, zak=boolv(False), wcc=boolv(False), plotbands=boolv(False),
             ef=Const('auto'), degenthresh=scal(sym('othr')), groupkramers=boolv(True), symmetries=NONE, suffix=Const('SUF'), config=NONE, searchcell=boolv(False),
             correct_ecut0=scal(sym('ocorr')), trans_thresh=scal(sym('otr')), v=scal(ZERO, 'i'))
    a.update(kw)
    return a


def new_bs(I, st, name, nk=3, cls=None):
    cls = cls or I.modules['irrep.bandstructure']['env']['BandStructure']
    sg = I.modules['irrep.spacegroup']['env']['SpaceGroup']
    kc = I.modules['irrep.kpoint']['env']['Kpoint']
    ks = [I.alloc(ObjRec(kc, {'ik0': scal(const(10 + i), 'i'), '%open': boolv(True)}), st) for i in range(nk)]
    at = {'spacegroup': I.alloc(ObjRec(sg, {'%open': boolv(True)}), st), 'kpoints': I.newlist(ks, st), 'NAME': Const(name), '%open': boolv(True)}
    return ObjRec(cls, at)


def name_of(run, st, v):
    r = st.heap.get(v.addr) if isinstance(v, Ref) else None
    n = r.attrs.get('NAME') if isinstance(r, ObjRec) else None
    return n.v if isinstance(n, Const) else None


def cli_run(name, nsub=2, drop=(), **kw):
    """cli(...) ; BandStructure, SpaceGroup and the output methods are recorded, Separate returns nsub subspaces per symmetry"""
    run = new_run('cli[%s]' % name, World('vasp', False), mods=MODS + ('irrep.cli',))
    I, st = run.I, State({}, {})
    run.st = st
    run.order = []

    def rec(qual, ret=None):
        def f(I, env, st, node):
            run.order.append((qual, name_of(run, st, env.get('self')), {k: I.loadv(v, st) for k, v in env.items()}, st.pc))
            return ret(I, env, st, node) if ret else NONE
        record_call(run, qual, f)

    def init(I, env, st, node):
        me = env['self']
        o = new_bs(I, st, 'root', cls=st.heap[me.addr].cls)
        st.heap[me.addr] = o
        return NONE

    def sep(I, env, st, node):
        n = name_of(run, st, env.get('self'))
        s = env.get('isymop')
        q = s.form.int_const() if isinstance(s, Arr) and s.form is not None else None
        q = s.v if isinstance(s, Const) else q
        out = []
        for i in range(nsub):
            e = const(2 * i - 1)
            o = new_bs(I, st, '%s/%s:%d' % (n, q, 2 * i - 1), nk=3 - i % 2)
            if i % 2:
                ks = I.rec(o.attrs['kpoints'], st)
                ks.segs[1:] = [I.alloc(ObjRec(I.modules['irrep.kpoint']['env']['Kpoint'], {'ik0': scal(const(12), 'i'), '%open': boolv(True)}), st)]
            out.append((scal(e), I.alloc(o, st)))
        return I.alloc(DictRec(out), st)
    rec('BandStructure.__init__', init)
    rec('SpaceGroup.show')
    rec('SpaceGroup.write_sym_file')
    rec('SpaceGroup.str', lambda I, env, st, node: StrT(['TEMPLATE']))
    rec('SpaceGroup.json', lambda I, env, st, node: Const('SGJSON'))
    for m in BS:
        rec('BandStructure.' + m)
    rec('BandStructure.json', lambda I, env, st, node: StrT(['JSON:', name_of(run, st, env.get('self')) or '?']))
    rec('BandStructure.Separate', sep)
    rec('BandStructure.zakphase', lambda I, env, st, node: Tup([mk('zz', 2), mk('zg', 2), mk('zc', 2), mk('zl', 2)]))
    rec('BandStructure.wcc', lambda I, env, st, node: mk('zw', 2))
    a = opts(**kw)
    for d in drop:
        a.pop(d)
    f = I.modules['irrep.cli']['env'].get('cli')
    if not isinstance(f, Func):
        run.aborted = 'no function cli'
        return run
    try:
        run.result = I.call(f, [], a, _NODE, st)
    except PyRaise as e:
        run.exc = e
    except Abort as e:
        run.aborted = str(e)
    except RecursionError:
        run.aborted = 'recursion'
    except Exception as e:
        run.aborted = 'internal: %s %s' % (type(e).__name__, e)
        if os.environ.get('VERIF_DEBUG'):
            traceback.print_exc()
    return run
