"""Shared abstract runs and obligations."""
from ..drivers import *
from ..spec import *
from ..spec import mat, vec
from ..values import *
from ..forms import *
from ..evalform import Undecided, Model

_CACHE = {}


def KL(*ks):
    return lambda: w_arr(list(ks))


# name -> (code, spinor, world options, keyword arguments)
MATRIX = {
    'vasp': ('vasp', False, {}, {}),
    'vasp-soc': ('vasp', True, {}, {}),
    'vasp-k': ('vasp', True, dict(nk=5), dict(kplist=KL(2, 4))),
    'vasp-cart': ('vasp', False, dict(cartesian=True), {}),
    'vasp-sel': ('vasp', False, dict(selective=True), {}),
    'vasp4': ('vasp', False, dict(names=False), {}),
    'abinit': ('abinit', False, dict(nk=5), dict(kplist=KL(2, 4))),
    'abinit-soc': ('abinit', True, dict(nk=5), dict(kplist=KL(1, 2, 5))),
    'abinit-paw': ('abinit', False, dict(nk=5, usepaw=1), dict(kplist=KL(2, 4))),
    'abinit-one': ('abinit', True, dict(nk=1, nat=1), {}),
    'espresso': ('espresso', False, {}, {}),
    'espresso-soc': ('espresso', True, {}, {}),
    'espresso-up': ('espresso', False, dict(spinpol=True), dict(spin_channel=lambda: Const('up'))),
    'espresso-dw': ('espresso', False, dict(spinpol=True), dict(spin_channel=lambda: Const('dw'))),
    'espresso-k': ('espresso', True, dict(nk=5), dict(kplist=KL(2, 3))),
    'espresso-names': ('espresso', False, dict(species=('Fe2', 'Fe1', 'O'), atoms=('Fe1', 'O', 'Fe2', 'Fe1')), {}),
    'w90': ('wannier90', False, {}, {}),
    'w90-soc': ('wannier90', True, {}, {}),
    'w90-bohr': ('wannier90', True, dict(units='bohr'), {}),
    'w90-cart': ('wannier90', False, dict(cartesian=True), {}),
    'w90-order': ('wannier90', False, dict(cartesian=True, atoms_first=True), {}),
    'w90-k': ('wannier90', True, {}, dict(kplist=KL(2, 3))),
}


def get(name, ctx=None, cut_sort=True, **over):
    key = (name, cut_sort, tuple(sorted((k, str(v)) for k, v in over.items())))
    if key not in _CACHE:
        code, sp, opt, kw = MATRIX[name]
        kw = {k: v() for k, v in kw.items()}
        kw.update(over)
        r = band(code, sp, dict(opt), cut_sort=cut_sort, **kw)
        r.name = name + (' ' + ' '.join('%s=%s' % (k, str(v)[:20]) for k, v in over.items()) if over else '')
        r.code = code
        r.spinor = sp
        r.opt = opt
        _CACHE[key] = r
    r = _CACHE[key]
    if ctx is not None:
        ctx.run(r)
    return r


# ---- comparing an argument of a call inside the k-point loop with its specification

def form_of(v):
    return v.form if isinstance(v, Arr) else None


def lifted(v, ikform):
    """add the labels of the k index as leading axes"""
    fl = sorted(ikform.labels()) if ikform is not None else []
    return fl


def kvals(M, ikform, fl):
    if not fl:
        return [M.ev(ikform, {})]
    out = []
    n = M.size(LABLEN[fl[0]], {})
    for i in range(n):
        out.append(M.ev(ikform, {fl[0]: i}))
    return out


def eq_k(ctx, name, call, arg, spec, index='ik', **kw):
    """args[arg] == spec(M, k) for every k of the loop"""
    v = call['args'].get(arg) if isinstance(arg, str) else arg
    if callable(index):
        ikf = index(call)
    else:
        x = call['args'].get(index)
        ikf = form_of(x)
    w = where(call)
    if ikf is None or not isinstance(v, Arr) or v.form is None:
        return ctx.ob(name, 'undecided', 'not resolved: %s' % str(v)[:100], w, kw.get('rule', ''))
    fl = sorted(ikf.labels())
    if len(fl) > 1:
        return ctx.ob(name, 'undecided', 'index with several labels', w, kw.get('rule', ''))
    if fl:
        vv = Arr(tuple([(fl[0], LABLEN[fl[0]])] + list(v.axes)), v.form, v.dtype)
    else:
        vv = v

    def sp(M):
        r = []
        for k in kvals(M, ikf, fl):
            k = int(round(k.real if isinstance(k, complex) else k))
            r.append(spec(M, k))
        return r if fl else r[0]
    return ctx.eq(name, vv, sp, where=w, **kw)


def where(call):
    n = call.get('node')
    return '%s:%s' % (call.get('file', ''), getattr(n, 'lineno', '')) if n is not None else ''


def calls(run, qual):
    cs = [c for c in run.calls.get(qual, ()) if not c['spec']]
    return cs or list(run.calls.get(qual, ()))


def final_calls(run, qual):
    """events of the calls, each call site once (not once per pass of the loop analysis)"""
    return [e for e in run.I.events if e.kind == 'callrec' and e.data['qual'] == qual and not e.spec]


def refused(run):
    """where an exception is raised (by the program or, for certain, by an operation of the language or numpy), if one is on every path"""
    if run.exc is None or not run.exc.definite or run.aborted:
        return ''
    if run.exc.where:
        return run.exc.where
    e = [e for e in run.I.events if e.kind in ('raise', 'error') and e.data['exc'] == run.exc.exc]
    return '%s:%s' % (e[-1].file, e[-1].line) if e else ''


def stopped(run):
    """(verdict, reason) for a run without a result"""
    w = refused(run)
    return ('violated', 'always ends with %s (%s)' % (run.exc.exc, w)) if w else ('undecided', str(run.aborted or run.exc and run.exc.exc))


def each(ctx, name, run, qual, fn, rule='', last=False):
    """fn(obname, call) for all recorded calls; 'undecided' if there is none"""
    cs = calls(run, qual)
    if not cs:
        if refused(run):
            return ctx.ob(name, 'violated', 'the analysis of a well-formed input always ends with %s' % run.exc.exc, refused(run), rule)
        return ctx.ob(name, 'undecided', 'no call of %s reached (%s)' % (qual, run.aborted or (run.exc and run.exc.exc) or ''), '', rule)
    for c in cs[-1:] if last else cs:
        fn(name, c)


def bands_of(M, code, opt, k=None):
    """number of bands in the file"""
    if code == 'abinit':
        return [M.sym('nbandk', (i,)) for i in range(opt.get('nk', 1))]
    return None


# ---- physics of plane waves

def G_of(M, k, g, sym='GF'):
    return [M.sym(sym, (k, g, i)) for i in range(3)]


def kinetic(M, k, g, sym='GF', shift=None):
    """hbar^2 |k+G|^2 / 2m in eV, cartesian length in 1/Angstrom"""
    B = recip(lattice(M))
    K = mv([a + M.sym('kp', (k, i)) for i, a in enumerate(G_of(M, k, g, sym))], B)
    return dot(K, K) / TWOMHBAR2


def med_ecut(npw, sym='GF', k=0):
    def f(M):
        e = sorted(kinetic(M, kk, g, sym) for kk in (k,) for g in range(npw))
        i = len(e) // 2
        return 0.5 * (e[i] + e[i - 1])
    f.withM = True
    return f


def kept(M, k, npw, ecut, sym='GF'):
    """file indices of the plane waves below the cutoff, in ascending order of energy"""
    e = [(kinetic(M, k, g, sym), g) for g in range(npw)]
    return [g for x, g in sorted(e) if x < ecut]


def rows(v, n):
    return Arr(((v.axes[0][0], const(n)),) + tuple(v.axes[1:]), v.form, v.dtype) if isinstance(v, Arr) and v.axes else v
