"""C13: analysis and output leave what they are given unchanged"""
import ast, os
from .kp import *
from ..collect import gather
from ..drivers import REPO, method as call_method
from .. import lint

EXPLANATION = ('Every call that the abstract runs of all checks make from outside is watched: the objects, lists and arrays reachable from its arguments and from self are compared before and '
               'after. An attribute, element or array that existed before the call must be the same after it, except the results that Kpoint.identify_irreps stores.  Parameters with mutable '
               'defaults must not be changed by the function.')
ASSUMPTIONS = ('attributes that a call adds (caches) are allowed', 'an array that may be a view of a given one and is written to counts as a change of the given one')
LEVEL = 'other'
# results that a call is there to store
ALLOWED = {('Kpoint.identify_irreps', 'irreps'), ('Kpoint.identify_irreps', 'onlytraces'), ('BandStructure.identify_irreps', 'irreps'), ('BandStructure.identify_irreps', 'onlytraces')}
RULE = 'a call leaves its arguments and its object unchanged'
MUTATORS = {'append', 'extend', 'insert', 'pop', 'remove', 'clear', 'sort', 'reverse', 'update', 'setdefault', 'popitem', 'add', 'discard', 'fill', 'itemset', 'resize'}


def dedicated(ctx):
    """calls that no other check makes"""
    for sp in (False, True):
        t = ',spinor=%s' % sp
        for m in ('write_characters', 'json', 'write_trace', 'NG', 'K'):
            r = kobj(sp, 'Kpoint.%s%s' % (m, t), irreps=NONE)
            ctx.run(prop(r, m) if m in ('NG', 'K') else call_method(r, m))
        ctx.run(call_method(kobj(sp, 'Kpoint.k_close_mod1' + t), 'k_close_mod1', mk('kother', 3)))
        for m in ('json', 'show', 'write_trace', 'str'):
            ctx.run(call_method(sgobj('SpaceGroup.%s%s' % (m, t), sp), m))
        for m, a in (('str', [mk('ref', 3, 3), mk('sh', 3)]), ('str_sym', [scal(sym('alat'))]), ('json_dict', [mk('ref', 3, 3), mk('sh', 3)]), ('show', [mk('ref', 3, 3), mk('sh', 3)])):
            ctx.run(call_method(symop_run('SymmetryOperation.%s%s' % (m, t), sp), m, *a))
    for m in ('show', 'json'):
        r = sgobj('SpaceGroup.%s[list]' % m)
        ctx.run(call_method(r, m, r.I.newlist([scal(sym('symind', ONE), 'i'), scal(sym('symind', const(2)), 'i')], r.st)))
    for m in ('vecs_centering', 'vecs_inv_centers'):
        ctx.run(call_method(sgobj('SpaceGroup.' + m), m))
    for code in ('vasp', 'espresso'):
        ctx.run(band(code, False, refUC=mk('ref', 3, 3), shiftUC=mk('sh', 3), kplist=mk('klist', 2, dtype='i')))
    ctx.run(call_method(bsobj('KPOINTSline'), 'KPOINTSline', kpred=mk('kred', const(3), 3), supercell=mk('sc', 3, 3)))
    ctx.run(call_method(bsobj('KPOINTSline'), 'KPOINTSline'))
    ctx.run(prop(bsobj('num_bands'), 'num_bands'))
    ctx.run(prop(bsobj('num_k'), 'num_k'))
    w = World('espresso', False)

    def f(mod, name, *a, **kw):
        r = new_run(name, World('espresso', False))
        r.st = State({}, {})
        ctx.run(go(r, 'irrep.%s:%s' % (mod, name), list(a), kw, r.st))
    f('spacegroup', 'cart_to_crystal', mk('rotc', 3, 3), mk('trc', 3), mk('L', 3, 3), scal(sym('alat')))
    f('gvectors', 'transformed_g', mk('kk', 3), w.canon_ig(), mk('Rec', 3, 3), mk('Aop', 3, 3, dtype='i'))
    for sp in (False, True):
        f('gvectors', 'sortIG', scal(sym('IK')), mk('kg', sym('NG'), 3, dtype='i'), mk('kk', 3), mk('CG', NB, sym('NG') * const(2 if sp else 1), dtype='c'), mk('Rec', 3, 3),
          scal(sym('Ec0')), scal(sym('Ecut')), boolv(sp))
    f('utility', 'format_matrix', mk('mat', 3, 3))
    f('utility', 'is_round', mk('mat', 3, 3))
    f('utility', 'short', scal(sym('xx')))


def defaults(ctx):
    """parameters whose default is a list, dictionary, set or array built once"""
    n = 0
    for mod in lint.program(REPO).mods.values():
        for fn in ast.walk(mod.tree):
            if not isinstance(fn, (ast.FunctionDef, ast.Lambda)):
                continue
            a = fn.args
            pairs = list(zip((a.posonlyargs + a.args)[len(a.posonlyargs + a.args) - len(a.defaults):], a.defaults)) + [(x, d) for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None]
            for p, d in pairs:
                if isinstance(d, (ast.Constant, ast.Name, ast.Attribute, ast.UnaryOp, ast.Tuple)):
                    continue
                n += 1
                body = fn.body if isinstance(fn.body, list) else [fn.body]
                bad = changes(body, p.arg)
                ctx.ob('default[%s:%s.%s]' % (mod.path, getattr(fn, 'name', 'lambda'), p.arg), 'violated' if bad else 'ok', 'the default object is changed at line %d' % bad if bad else ast.unparse(d),
                       '%s:%s:%d' % (mod.path, getattr(fn, 'name', 'lambda'), bad or fn.lineno), 'a default is not changed')
    ctx.note_defaults = n


def changes(body, name):
    """line where the object that the parameter is bound to is changed, before the name is bound again"""
    for s in body:
        for x in ast.walk(s):
            if isinstance(x, ast.Assign) and any(isinstance(t, ast.Subscript) and root(t) == name for t in x.targets):
                return x.lineno
            if isinstance(x, ast.AugAssign) and root(x.target) == name:
                return x.lineno
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in MUTATORS and root(x.func.value) == name:
                return x.lineno
        if any(isinstance(x, ast.Name) and x.id == name and isinstance(x.ctx, ast.Store) for x in ast.walk(s)):
            return None
    return None


def root(x):
    while isinstance(x, ast.Subscript):
        x = x.value
    return x.id if isinstance(x, ast.Name) else None


def run(ctx):
    if getattr(ctx, 'quiet', False):
        return dedicated(ctx)
    defaults(ctx)
    entries, found, events = {}, {}, {}
    for d in gather(('c14', 'c17', 'c12'), watch=True):
        for r in d['runs']:
            for e in r.get('entries', ()):
                entries.setdefault(e, []).append(r['name'] + (' (cut short: %s)' % r['aborted'] if r['aborted'] else ''))
            for e, name, s, cls, at, w in r.get('changes', ()):
                if (e, at) in ALLOWED and cls == 'Kpoint':
                    continue
                found.setdefault(e, []).append((name, s, w, r['name']))
            for kind, w, what, *_ in r.get('events2', ()):
                if kind == 'mutate' and 'default:' in what:
                    events.setdefault(w, what)
            ctx.analysed |= set(r['funcs'])
        if d['failed'] or not d['runs']:
            ctx.ob('runs[%s]' % d['check'], 'undecided', d['failed'] or 'no runs', '', '')
    for e in sorted(entries):
        bad = [x for x in found.get(e, ()) if x[1] is False]
        open_ = [x for x in found.get(e, ()) if x[1] is None]
        for x in {x[0]: x for x in bad}.values():
            ctx.ob('unchanged[%s: %s]' % (e, x[0]), 'violated', '%s is changed (run %s)' % (x[0], x[3]), x[2], RULE)
        if not bad:
            rs = entries[e]
            ctx.ob('unchanged[%s]' % e, 'undecided' if open_ or all('(cut short' in x for x in rs) else 'ok',
                   '%s may change' % open_[0][0] if open_ else '%d runs, e.g. %s' % (len(rs), rs[0]), open_[0][2] if open_ else '', RULE)
    for w, what in sorted(events.items()):
        ctx.ob('default changed[%s]' % ':'.join(w.split(':')[:2]), 'violated', what, w, 'a default is not changed')
