"""C09: every option of the command line and of the configuration file is honoured"""
from .cli import *
from .cli import _NODE
from ..interp import Ctx as Frame
from .out import *
from ..pyval import pyval

EXPLANATION = ('The declarations of the options are evaluated from the decorators of cli(), cli() is interpreted for combinations of options with the analysis classes as '
               'boundaries, and the value of every option is traced to the argument, the call or the file name in which it takes effect; BandStructure.__init__ is interpreted '
               'for the options it passes on; the command class is interpreted on a configuration file.')
ASSUMPTIONS = ('click passes each option under its lower-case name, converted with the declared type', 'loadfn returns the content of the file as a dictionary')

# option -> (type, value if it is not given)
FLAG = 'flag'
OPTIONS = {
    '-Ecut': ('float', None), '-fWAV': ('str', 'WAVECAR'), '-fPOS': ('str', 'POSCAR'), '-fWFK': ('str', None), '-prefix': ('str', None), '-IBstart': ('int', 0),
    '-IBend': ('int', 0), '-code': ('code', 'vasp'), '-spinor': (FLAG, False), '-kpoints': ('str', None), '-kpnames': ('str', None), '-refUC': ('str', None),
    '-shiftUC': ('str', None), '-isymsep': ('str', None), '-onlysym': (FLAG, False), '-ZAK': (FLAG, False), '-WCC': (FLAG, False), '-plotbands': (FLAG, False),
    '-EF': ('str', '0.0'), '-degenThresh': ('float', 1e-4), '-groupKramers': (FLAG, True), '-symmetries': ('str', None), '-suffix': ('str', 'tognuplot'),
    '-config': ('path', None), '-searchcell': (FLAG, False), '-trans_thresh': ('float', 1e-5), '-alat': ('float', None), '-writesym': (FLAG, False),
    '-from_sym_file': ('str', None), '-correct_Ecut0': ('float', 0.0), '-v': ('count', 1),
}


def plain(v):
    """python value of a constant"""
    if isinstance(v, Const):
        return v.v
    if isinstance(v, Arr) and not v.axes and v.form is not None:
        c = v.form.const()
        if c is not None and abs(c.imag) < 1e-15:
            return bool(c.real) if v.dtype == 'b' else c.real
    if isinstance(v, Builtin):
        return v.name
    return '?'


def declared(run):
    """{option: (type, default)} from the decorators of cli, None if they are not resolved"""
    I = run.I
    f = I.modules['irrep.cli']['env'].get('cli')
    if not isinstance(f, Func):
        return None
    out = {}

    def option(I, args, kw, st, node):
        names = [a.v for a in args if isinstance(a, Const) and isinstance(a.v, str)]
        if not names or len(names) != len(args):
            out['?'] = None
        for n in names:
            out[n] = (kw, names)
        return Builtin('identity')

    def choice(I, args, kw, st, node):
        xs = I.conc_items(args[0], st)
        return Const('choice:' + ','.join(str(plain(x)) for x in xs or []))
    I.call_hooks['ext:click.option'] = option
    I.call_hooks['ext:click.Choice'] = choice
    I.call_hooks['ext:click.Path'] = lambda I, args, kw, st, node: Const('path')
    I.call_hooks['ext:click.command'] = lambda I, args, kw, st, node: Builtin('identity')
    I.call_hooks['ext:click.version_option'] = lambda I, args, kw, st, node: Builtin('identity')
    env = I.modules['irrep.cli']['env']
    I.ctx = Frame(None, I.modules['irrep.cli'], '<module>')
    for d in f.node.decorator_list:
        st = State(dict(env), {a: r for a, r in run.st.heap.items()})
        v = I.ev(d, st)
        if isinstance(v, Func):       # a decorator of the repository, which adds options
            try:
                I.call(v, [f], {}, _NODE, st)
            except PyRaise:
                return None
        elif isinstance(v, Unknown):
            out['?'] = None
    return out


def kind(kw):
    t = plain(kw.get('type', NONE))
    if plain(kw.get('is_flag', NONE)) is True or 'flag_value' in kw:
        return FLAG
    if plain(kw.get('count', NONE)) is True:
        return 'count'
    if t is None:
        d = plain(kw.get('default', NONE))
        return 'str' if d is None or isinstance(d, str) else FLAG if isinstance(d, bool) else 'int' if float(d).is_integer() and getattr(kw['default'], 'dtype', '') == 'i' else 'float'
    if isinstance(t, str) and t.startswith('choice:'):
        return 'code' if set(t[7:].split(',')) == {'vasp', 'abinit', 'espresso', 'wannier90'} else t
    return t


def declarations(ctx):
    run = new_run('options of cli', World('vasp', False), mods=MODS + ('irrep.cli',))
    run.st = State({}, {})
    ctx.run(run)
    rule = 'the option is declared with its type and its value by default, and cli() receives it'
    try:
        d = declared(run)
    except (PyRaise, Abort, RecursionError, Exception) as x:
        d = None
        if os.environ.get('VERIF_DEBUG'):
            traceback.print_exc()
    f = run.I.modules['irrep.cli']['env'].get('cli')
    pars = [a.arg for a in f.node.args.args + f.node.args.kwonlyargs] if isinstance(f, Func) else []
    anykw = bool(isinstance(f, Func) and f.node.args.kwarg)
    for o, (t, v) in OPTIONS.items():
        w = 'irrep/cli.py:cli'
        if d is None or o not in d:
            ctx.ob('option[%s]' % o, 'undecided' if d is None or '?' in d else 'violated', 'not declared', w, rule)
            continue
        kw, names = d[o]
        got = kind(kw)
        dv = plain(kw['default']) if 'default' in kw else (False if got == FLAG else 0 if got == 'count' else None)
        if dv == '?' or got == '?':
            ctx.ob('option[%s]' % o, 'undecided', 'declaration not resolved', w, rule)
            continue
        flagok = got != FLAG or 'flag_value' not in kw or plain(kw['flag_value']) is True
        same = (dv is None and v is None) or (isinstance(v, (int, float)) and isinstance(dv, (int, float)) and abs(v - dv) < 1e-12) or dv == v
        long = [n for n in names if n.startswith('--')] or names
        name = next((n for n in names if not n.startswith('-')), max(long, key=len).lstrip('-').replace('-', '_').lower())
        ok = got == t and same and flagok and (name in pars or anykw)
        ctx.ob('option[%s]' % o, 'ok' if ok else 'violated', 'declared %s, %r as %s' % (got, dv, name), w, rule)


def arg(ctx, name, run, qual, key, want, rule, n=0, **kw):
    cs = [x for x in run.order if x[0] == qual]
    if run.aborted or len(cs) <= n:
        bad = not run.aborted and (run.exc is None or str(run.exc.exc).find('SystemExit') >= 0)
        return ctx.ob(name, 'violated' if bad else 'undecided', 'no call of %s (%s)' % (qual, run.aborted or run.exc and run.exc.exc), 'irrep/cli.py:cli', rule)
    v = cs[n][2].get(key)
    if callable(want):
        return ctx.eq(name, v, want, rule=rule, where='irrep/cli.py:cli', **kw)
    try:
        got = pyval(Model(1), run, v)
    except Undecided as x:
        return ctx.ob(name, 'undecided', str(x), 'irrep/cli.py:cli', rule)
    ctx.true(name, got == want, '%s=%r, required %r' % (key, got, want), 'irrep/cli.py:cli', rule)


def count(ctx, name, run, qual, want, rule):
    """receivers of the calls, in order"""
    if run.aborted or run.exc and 'SystemExit' not in str(run.exc.exc):
        return ctx.ob(name, *stopped(run), 'irrep/cli.py:cli', rule)
    cs = [x for x in run.order if x[0] == qual]
    if any(c[3] for c in cs):
        return ctx.ob(name, 'undecided', 'call under an unresolved condition', 'irrep/cli.py:cli', rule)
    got = [c[1] for c in cs]
    if want and want[0] in ('any', 'none'):
        return ctx.true(name, bool(got) == (want[0] == 'any'), 'calls: %d' % len(got), 'irrep/cli.py:cli', rule)
    ctx.true(name, sorted(map(str, set(got))) == sorted(map(str, want)), 'called for %s, required %s' % (got, want), 'irrep/cli.py:cli', rule)


def names(ctx, name, run, want, rule):
    cs = [x for x in run.order if x[0] == 'BandStructure.write_plotfile']
    try:
        got = sorted((c[1], pyval(Model(1), run, c[2].get('filename'))) for c in cs)
    except Undecided as x:
        return ctx.ob(name, 'undecided', str(x), '', rule)
    if run.aborted or run.exc:
        return ctx.ob(name, *stopped(run), '', rule)
    ctx.true(name, got == sorted(want), '%s, required %s' % (got, sorted(want)), 'irrep/cli.py:cli', rule)


INIT = 'BandStructure.__init__'
T, F = boolv(True), boolv(False)


def plumbing(ctx):
    r = ctx.run(cli_run('traces', kpoints=Const('3,5-6'), symmetries=Const('2,4'), from_sym_file=Const('SYMFILE')))
    rule = 'the value given by the user takes effect'
    for o, key, w in (('Ecut', 'Ecut', 'oEcut'), ('IBstart', 'IBstart', 'oIBs'), ('IBend', 'IBend', 'oIBe'), ('degenThresh', 'degen_thresh', 'othr'),
                      ('trans_thresh', 'trans_thresh', 'otr'), ('alat', 'alat', 'oalat'), ('correct_Ecut0', 'correct_Ecut0', 'ocorr')):
        arg(ctx, 'value[%s]' % o, r, INIT, key, (lambda w: lambda M: M.sym(w))(w), rule)
    for o, key, w in (('fWAV', 'fWAV', 'FWAV'), ('fPOS', 'fPOS', 'FPOS'), ('fWFK', 'fWFK', 'FWFK'), ('prefix', 'prefix', 'PRE'), ('EF', 'EF', 'auto'), ('code', 'code', 'vasp'),
                      ('from_sym_file', 'from_sym_file', 'SYMFILE'), ('spinor,off', 'spinor', False), ('onlysym,off', 'onlysym', False), ('searchcell,off', 'search_cell', False),
                      ('refUC,off', 'refUC', None), ('shiftUC,off', 'shiftUC', None), ('traces', 'calculate_traces', True)):
        arg(ctx, 'value[%s]' % o, r, INIT, key, w, rule)
    arg(ctx, 'value[kpoints]', r, INIT, 'kplist', lambda M: [3, 5, 6], rule)
    arg(ctx, 'value[symmetries,printed]', r, 'SpaceGroup.show', 'symmetries', lambda M: [2, 4], rule)
    arg(ctx, 'value[symmetries,json]', r, 'SpaceGroup.json', 'symmetries', lambda M: [2, 4], rule)
    count(ctx, 'no irreps.dat without names', r, 'BandStructure.write_irrepsfile', ['none'], 'irreps.dat only if k-points are named')
    for m in ('zakphase', 'wcc', 'write_plotfile', 'Separate'):
        count(ctx, 'off[%s]' % m, r, 'BandStructure.' + m, ['none'], 'done only on request')
    count(ctx, 'off[writesym]', r, 'SpaceGroup.write_sym_file', ['none'], 'done only on request')

    for code in ('vasp', 'abinit', 'espresso', 'wannier90'):
        r = ctx.run(cli_run('code=' + code, code=Const(code), spinor=T, searchcell=T))
        arg(ctx, 'value[code=%s]' % code, r, INIT, 'code', code, rule)
        arg(ctx, 'value[spinor,code=%s]' % code, r, INIT, 'spinor', True, rule)
        arg(ctx, 'value[searchcell,code=%s]' % code, r, INIT, 'search_cell', True, rule)
    for ef in ('1.25', '-3', 'auto'):
        r = ctx.run(cli_run('EF=' + ef, ef=Const(ef)))
        arg(ctx, 'value[EF=%s]' % ef, r, INIT, 'EF', ef, rule)

    r = ctx.run(cli_run('irreps', kpnames=Const('GM,X,M'), refuc=Const('0,-1,1,1,0,-1,-1,-1,-1'), shiftuc=Const('0.25,0,0.5'), kpoints=Const('1,2,3')))
    arg(ctx, 'value[refUC]', r, INIT, 'refUC', lambda M: [[0, -1, 1], [1, 0, -1], [-1, -1, -1]], rule)
    arg(ctx, 'value[shiftUC]', r, INIT, 'shiftUC', lambda M: [0.25, 0, 0.5], rule)
    arg(ctx, 'value[kpnames]', r, 'BandStructure.identify_irreps', 'kpnames', ['GM', 'X', 'M'], rule)
    arg(ctx, 'value[kpnames,json]', r, 'BandStructure.json', 'kpnames', ['GM', 'X', 'M'], rule)
    arg(ctx, 'value[kpnames,searchcell]', r, INIT, 'search_cell', True, 'names of k-points need the conventional cell')
    count(ctx, 'irreps.dat with names', r, 'BandStructure.write_irrepsfile', ['root'], 'irreps.dat if k-points are named')

    r = ctx.run(cli_run('writesym', writesym=T))
    arg(ctx, 'value[writesym,prefix]', r, 'SpaceGroup.write_sym_file', 'filename', 'PRE.sym', rule)
    arg(ctx, 'value[writesym,alat]', r, 'SpaceGroup.write_sym_file', 'alat', lambda M: M.sym('oalat'), rule)
    r = ctx.run(cli_run('writesym,onlysym', writesym=T, onlysym=T))
    arg(ctx, 'value[onlysym]', r, INIT, 'onlysym', True, rule)
    arg(ctx, 'value[writesym,onlysym]', r, 'SpaceGroup.write_sym_file', 'filename', 'PRE.sym', rule)

    subs = ['root/2:-1', 'root/2:1']
    subs2 = [s + t for s in subs for t in ('/3:-1', '/3:1')]
    for gk in (True, False):
        r = ctx.run(cli_run('isymsep,groupKramers=%s' % gk, isymsep=Const('2'), groupkramers=boolv(gk), plotbands=T))
        tag = '[groupKramers=%s]' % gk
        arg(ctx, 'value[isymsep]' + tag, r, 'BandStructure.Separate', 'isymop', lambda M: 2, rule)
        arg(ctx, 'value[groupKramers]' + tag, r, 'BandStructure.Separate', 'groupKramers', gk, rule)
        arg(ctx, 'value[degenThresh,isymsep]' + tag, r, 'BandStructure.Separate', 'degen_thresh', lambda M: M.sym('othr'), rule)
        arg(ctx, 'save-wf[isymsep]' + tag, r, INIT, 'save_wf', True, 'the separation needs the wave functions')
        count(ctx, 'console[isymsep]' + tag, r, 'BandStructure.write_characters', ['root'] + subs, 'every subspace is printed')
        names(ctx, 'files[plotbands,isymsep]' + tag, r, [(s, 'bands-SUF-2:%s1.000.dat' % s[-2:].replace('1', '').replace(':', '+')) for s in subs], 'one file per subspace, named by suffix, symmetry and eigenvalue')
    r = ctx.run(cli_run('isymsep,two', isymsep=Const('2,3'), kpnames=Const('A,B,C')))
    count(ctx, 'separate[two]', r, 'BandStructure.Separate', ['root'] + subs, 'each subspace of a symmetry is separated by the next one')
    count(ctx, 'console[two]', r, 'BandStructure.write_characters', ['root'] + subs2, 'every subspace is printed')
    count(ctx, 'json[two]', r, 'BandStructure.json', ['root'] + subs2, 'every subspace is in the JSON file')
    for i, q in enumerate((2, 3, 3)):
        for key, w in (('isymop', lambda M: q), ('groupKramers', True), ('degen_thresh', lambda M: M.sym('othr'))):
            arg(ctx, 'separate-%s[two,%d]' % (key, i), r, 'BandStructure.Separate', key, w, rule, n=i)
    for i, s in enumerate(subs2):
        j = [k for k, c in enumerate([c for c in r.order if c[0] == 'BandStructure.json']) if c[1] == s]
        arg(ctx, 'names[two,%s]' % s, r, 'BandStructure.json', 'kpnames', ['A', 'B', 'C'] if s.endswith('-1') else ['A', 'C'], 'names of the k-points present in the subspace', n=j[0] if j else 99)

    for o, m in (('zak', 'zakphase'), ('wcc', 'wcc')):
        for tag, kw, who in (('', {}, ['root']), (',isymsep', dict(isymsep=Const('2')), subs), (',two', dict(isymsep=Const('2,3')), subs2)):
            r = ctx.run(cli_run(o + tag, **{o: T}, **kw))
            count(ctx, '%s%s' % (o, tag), r, 'BandStructure.' + m, who, 'calculated for every subspace')
            arg(ctx, 'save-wf[%s%s]' % (o, tag), r, INIT, 'save_wf', True, 'needs the wave functions')
    for tag, kw, who in (('', {}, ['root']), ('isymsep', dict(isymsep=Const('2')), subs)):
        r = ctx.run(cli_run('zak,wcc,plotbands' + tag, zak=T, wcc=T, plotbands=T, **kw))
        for m in ('zakphase', 'wcc', 'write_plotfile'):
            count(ctx, 'together[%s]%s' % (m, tag), r, 'BandStructure.' + m, who, 'everything that is requested is done')
    r = ctx.run(cli_run('plotbands', plotbands=T))
    names(ctx, 'files[plotbands]', r, [('root', 'bands-SUF.dat')], 'named by the suffix')


def inner(ctx):
    """options that BandStructure passes on"""
    own = dict(refUC=mk('oref', 3, 3), shiftUC=mk('osh', 3), search_cell=T, trans_thresh=scal(sym('otr')), alat=scal(sym('oalat')), from_sym_file=Const('SYMFILE'),
               correct_Ecut0=scal(sym('ocorr')), save_wf=T)
    rule = 'BandStructure passes the option on'
    for n in ('vasp', 'abinit', 'espresso', 'w90'):
        r = get(n, ctx, **own)
        for key, w in (('refUC', lambda M: [[M.sym('oref', (i, j)) for j in range(3)] for i in range(3)]), ('shiftUC', lambda M: [M.sym('osh', (i,)) for i in range(3)]),
                       ('trans_thresh', lambda M: M.sym('otr')), ('search_cell', lambda M: 1)):
            each(ctx, 'space-group-%s[%s]' % (key, n), r, 'SpaceGroup.__init__', lambda o, c: ctx.eq(o, c['args'].get(key), w, where=where(c), rule=rule))
        each(ctx, 'space-group-alat[%s]' % n, r, 'SpaceGroup.__init__', lambda o, c: ctx.eq(o, c['args'].get('alat'), lambda M: M.sym('oalat'), where=where(c), rule=rule))
        each(ctx, 'space-group-from_sym_file[%s]' % n, r, 'SpaceGroup.__init__', lambda o, c: ctx.true(
            o, plain(c['args'].get('from_sym_file')) == 'SYMFILE' if plain(c['args'].get('from_sym_file')) != '?' else None, str(c['args'].get('from_sym_file')), where(c), rule))
        each(ctx, 'save-wf[%s]' % n, r, 'Kpoint.__init__', lambda o, c: ctx.eq(o, c['args'].get('save_wf'), lambda M: 1, where=where(c), rule=rule))
        if n != 'w90':
            continue
    r = get('vasp', ctx, **own)
    each(ctx, 'correct_Ecut0[vasp]', r, 'calc_gvectors', lambda o, c: ctx.eq(
        o, c['args'].get('Ecut'), lambda M: M.sym('Ecut0') + M.sym('ocorr'), where=where(c), rule='cutoff of the file plus the correction of the user') if 'Ecut' in c['args'] else None)


def config(ctx):
    run = new_run('configuration file', World('vasp', False), mods=MODS + ('irrep.cli',))
    ctx.run(run)
    I, st = run.I, State({}, {})
    env = I.modules['irrep.cli']['env']
    rule = 'values of the configuration file replace those of the command line, whatever the case of their names'
    f = env.get('cli')
    cls = None
    I.ctx = Frame(None, I.modules['irrep.cli'], '<module>')
    for d in f.node.decorator_list if isinstance(f, Func) else ():
        for k in getattr(d, 'keywords', ()):
            if k.arg == 'cls':
                cls = I.ev(k.value, State(dict(env), {}))
    if not isinstance(cls, Class):
        return ctx.ob('config', 'undecided', 'command class not found', 'irrep/cli.py', rule)
    seen = []

    def load(I, args, kw, st, node):
        seen.append(args[0] if args else None)
        return I.alloc(DictRec([(Const('Ecut'), scal(sym('oEcut'))), (Const('KPOINTS'), Const('1,2')), (Const('zak'), boolv(True)), (Const('unused'), Const('x'))]), st)
    for n in ('monty.serialization.loadfn', 'json.load', 'yaml.safe_load', 'yaml.load'):
        I.call_hooks['ext:' + n] = load
    for given in (True, False):
        tag = '[given]' if given else '[none]'
        old = {'ecut': scal(sym('oalat')), 'kpoints': Const('7'), 'code': Const('abinit'), 'zak': boolv(False), 'config': Const('CONF') if given else NONE}
        params = I.alloc(DictRec([(Const(k), v) for k, v in old.items()]), st)
        c = I.alloc(ObjRec('ctx', {'params': params}), st)
        me = I.alloc(ObjRec(cls, {}), st)
        n0 = len(I.events)
        try:
            I.call(I.getattr(me, 'invoke', None, st), [c], {}, _NODE, st)
        except (PyRaise, Abort, Exception) as x:
            ctx.ob('config' + tag, 'undecided', str(x)[:100], 'irrep/cli.py', rule)
            continue
        cr = I.rec(c, st)
        pr = I.rec(cr.attrs['params'], st) if isinstance(cr.attrs.get('params'), Ref) else None
        if not isinstance(pr, DictRec) or pr.unk or pr.gen:
            ctx.ob('config' + tag, 'undecided', 'parameters not resolved', 'irrep/cli.py', rule)
            continue
        got = {k.v: v for k, v in pr.items if isinstance(k, Const)}
        for k, v in old.items():
            if given and k in ('ecut', 'kpoints', 'zak'):
                w = {'ecut': scal(sym('oEcut')), 'kpoints': Const('1,2'), 'zak': boolv(True)}[k]
            else:
                w = v
            g = got.get(k)
            ok = None if isinstance(g, Unknown) else g is not None and repr(g) == repr(w)
            ctx.true('config-%s%s' % (k, tag), ok, 'value %s, required %s' % (g, w), 'irrep/cli.py:invoke', rule)
        sup = [e for e in I.events[n0:] if e.kind == 'supercall' and e.data['name'] == 'invoke']
        okc = any(e.data['args'] and isinstance(e.data['args'][0], Ref) and e.data['args'][0].addr == c.addr for e in sup)
        ctx.true('config-runs' + tag, okc, '%d calls' % len(sup), 'irrep/cli.py:invoke', 'the command runs with the updated parameters')
    ctx.true('config-file', [plain(x) for x in seen] == ['CONF'] if seen else None, str(seen), 'irrep/cli.py:invoke', 'the file named by the user is read')


declare('oref')
declare('osh')


def run(ctx):
    declarations(ctx)
    plumbing(ctx)
    inner(ctx)
    config(ctx)
