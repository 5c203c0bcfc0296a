"""All abstract runs of one check, without its comparisons: where an operation certainly fails."""
import importlib, json, os, sys, threading, time


WATCHED = ('unordered', 'random', 'globalset', 'classset', 'mutate')


def model_of(run, seed):
    from . import records as R
    from .checks.kp import KM
    from .evalform import Model
    M = R.model(seed, getattr(run, 'opt', None))
    for k, v in KM.items():
        M.special.setdefault(k, v) if hasattr(M, 'special') else None
    return M


def opaque(f):
    from .forms import META
    a = f.atom()
    n = a[1] if a and a[0] == 'S' else ''
    return n.startswith('cond?') and META.get(n, {}).get('numeric')


def possible(run, e):
    """True: an input reaches this; None: not shown"""
    from .records import envs
    from . import evalform
    from .evalform import Undecided
    if not e.pc:
        return True
    pc = [(f, pol) for f, pol in e.pc if not opaque(f)]
    if len(pc) == len(e.pc) - 1:
        # one threshold whose numbers are not resolved: there are numbers on both sides of it
        e = type('E', (), dict(pc=pc))
        if not pc:
            return True
    models = [lambda s=s: model_of(run, s) for s in range(1, 6)] + [lambda x=x: evalform.Model(x[0], x[1], **x[2]) for x in list((evalform.SEEN or {}).values())[:12]]
    for make in models:
        M = make()
        try:
            fs = [f for f, _ in e.pc]
            for env in envs(M, fs):
                if all(bool(M.ev(f, env)) == pol for f, pol in e.pc):
                    return True
        except (Undecided, ValueError, TypeError, ZeroDivisionError, OverflowError, KeyError, IndexError, AttributeError):
            continue
    return None


def worker(c, watch=False):
    import subprocess
    v = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    env = dict(os.environ)
    env.pop('SA_WATCH', None)
    if watch:
        env['SA_WATCH'] = '1'
    try:
        p = subprocess.run([sys.executable, '-B', '-m', 'sa.collect', c], cwd=v, capture_output=True, text=True, timeout=500, env=env)
        return json.loads(p.stdout)
    except (subprocess.TimeoutExpired, ValueError, OSError) as e:
        return dict(check=c, runs=[], failed='%s' % type(e).__name__)


def gather(skip, watch=False):
    """the runs of all checks but skip, in parallel"""
    import glob
    from concurrent.futures import ThreadPoolExecutor
    here = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'checks')
    cs = sorted(os.path.basename(p)[:-3] for p in glob.glob(os.path.join(here, 'c[0-9][0-9].py')))
    cs = [c for c in cs if c not in skip]
    cs.sort(key=lambda c: -dict(c05=9, c25=8, c07=7, c26=6, c22=5, c04=4, c24=3).get(c, 0))
    with ThreadPoolExecutor(min(8, os.cpu_count() or 4)) as ex:
        res = list(ex.map(lambda c: worker(c, watch), cs))
    return sorted(res, key=lambda d: d['check'])


def undefined(r):
    """attributes and outputs whose value depends on memory that was never set"""
    from .values import Arr
    from .forms import symbols_of
    from .records import envs
    from . import evalform
    from .values import ObjRec
    out, todo = [], []
    for e in r.I.events:
        if e.kind in ('print', 'write', 'dictset'):
            vs = [e.data.get('value')] if e.kind == 'dictset' else []
            for x in e.data.get('parts') or ():
                for y in x if isinstance(x, list) else [x]:
                    if isinstance(y, tuple):
                        vs.append(y[0])
            todo.append((e.where(), vs))
    for rec in list(r.st.heap.values()) if r.st else ():
        if isinstance(rec, ObjRec) and getattr(rec.cls, 'name', None):
            for k, v in rec.attrs.items():
                if isinstance(v, Arr) and v.cell is not None:
                    v = r.st.heap.get(v.cell, v)
                todo.append(('%s.%s' % (rec.cls.name, k), [v]))
    for where, vs in todo:
        for v in vs:
            if not isinstance(v, Arr) or v.form is None or 'undef' not in symbols_of(v.form):
                continue
            res = None
            try:
                got = []
                for u in (1.5, -7.25):
                    M = model_of(r, 1)
                    M.special['undef'] = lambda *a, u=u: u
                    got.append(repr([M.arr(v, env) for env in envs(M, [v.form])][:20]))
                res = got[0] != got[1]
            except Exception:
                pass
            out.append((where, res))
    return sorted(set(out), key=str)


def main(c):
    from . import drivers
    from .framework import Ctx
    drivers.LOG = []
    from . import evalform
    evalform.SEEN = {}
    drivers.WATCH = bool(os.environ.get('SA_WATCH'))

    class Quiet(Ctx):
        quiet = True

        def ob(self, *a, **k):
            return 'undecided'

        def eq(self, *a, **k):
            return 'undecided'
    t = time.time()
    out = dict(check=c, runs=[], failed='')
    try:
        importlib.import_module('sa.checks.' + c).run(Quiet(c, 'quick', 1))
    except Exception as e:
        out['failed'] = '%s: %s' % (type(e).__name__, e)
    seen = set()
    for r in drivers.LOG:
        d = dict(name=r.name, aborted=str(r.aborted or ''), errors=[], funcs=sorted('%s:%s' % x for x in r.I.analysed), events=len(r.I.events),
                 refused=(r.exc.exc, r.exc.where) if r.exc and r.exc.definite else None)
        for e in r.I.events:
            if e.kind == 'error' and not e.data.get('handled') and not e.data.get('soft') and not e.spec:
                p = possible(r, e)
                d['errors'].append((e.where(), e.data['exc'], str(e.data['msg'])[:150], p))
        if drivers.WATCH:
            d['changes'] = [list(x) for x in r.changes]
            d['entries'] = r.entries
            d['events2'] = [(e.kind, e.where(), str({k: v for k, v in (e.data or {}).items() if k in ('roots', 'attr', 'name', 'what', 'cls')}), bool(e.spec), str(e.data.get('elem', '')), getattr(e.node, 'col_offset', -1), e.data.get('what', '')) for e in r.I.events if e.kind in WATCHED]
            d['undef'] = undefined(r)
        out['runs'].append(d)
    out['time'] = time.time() - t
    sys.stdout.write(json.dumps(out))
    sys.stdout.flush()


if __name__ == '__main__':
    sys.setrecursionlimit(20000)
    threading.stack_size(512 * 1024 * 1024)
    import warnings
    warnings.simplefilter('ignore')
    t = threading.Thread(target=main, args=(sys.argv[1],), daemon=True)
    t.start()
    t.join()
