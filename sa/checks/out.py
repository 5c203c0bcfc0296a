"""What is printed or written: the numbers of an output event, in order."""
import re
from .common import *


def parts_of(e):
    p = e.data.get('parts')
    if p and isinstance(p[0], list):
        out = []
        for i, x in enumerate(p):
            if i:
                out.append(' ')
            out += x
        return out
    return list(p or ())


def text_of(e):
    def f(ps):
        return ''.join(x if isinstance(x, str) else (f(x[3]) if x[0] == 'rep' else '\0') for x in ps)
    return f(parts_of(e))


def numbers(M, ps, env):
    out = []
    for x in ps:
        if isinstance(x, str):
            continue
        if x[0] == 'rep':
            n = M.size(x[2], env)
            for i in range(n):
                out += numbers(M, x[3], {**env, x[1]: i})
            continue
        v = x[0]
        if isinstance(v, Arr):
            if v.form is None:
                raise Undecided('number not resolved')
            r = M.arr(v, env)
            out += list(flat_(r))
        elif isinstance(v, Tup):
            for y in v.items:
                out += numbers(M, [(y, '')], env)
        elif isinstance(v, (Const, StrT)):
            if isinstance(v, StrT):
                out += numbers(M, v.parts, env)
        elif isinstance(v, Seq) or isinstance(v, Ref):
            raise Undecided('container')
        else:
            raise Undecided('text not resolved')
    return out


def flat_(x):
    if isinstance(x, (list, tuple)):
        for y in x:
            yield from flat_(y)
    else:
        yield x


def free_labels(ps, bound=()):
    acc = set()
    for x in ps:
        if isinstance(x, str):
            continue
        if x[0] == 'rep':
            acc |= set(x[2].labels()) | (free_labels(x[3]) - {x[1]})
        elif isinstance(x[0], Arr) and x[0].form is not None:
            own = {l for l, _ in x[0].axes}
            acc |= set(x[0].form.labels()) - own
            for _, n in x[0].axes:
                acc |= set(n.labels())
        elif isinstance(x[0], StrT):
            acc |= free_labels(x[0].parts)
        elif isinstance(x[0], Tup):
            for y in x[0].items:
                acc |= free_labels([(y, '')])
    return acc


def event_values(M, e):
    """list of the numbers of the event, for all values of the loop labels it depends on"""
    ps = parts_of(e)
    fl = sorted(free_labels(ps))
    out = []

    def rec(fl, env):
        if not fl:
            out.append(numbers(M, ps, env))
            return
        if fl[0] not in LABLEN:
            raise Undecided('label')
        for i in range(M.size(LABLEN[fl[0]], env)):
            rec(fl[1:], {**env, fl[0]: i})
    rec(fl, {})
    return out


def printed(ctx, name, run, spec, rule='', kinds=('print',), per_label=False, tol=1e-5, path=None, **kw):
    """some output event of the run carries exactly the numbers spec(M) (a list; per_label: list of lists over the loop)"""
    evs = [e for e in run.events if e.kind in kinds and not e.spec and (path is None or path(e))]
    from ..evalform import close
    sizes = kw.pop('sizes', None)
    best = None
    und = 0
    seeds = range(1, 9) if ctx.thorough else range(1, 5)
    for e in evs:
        st = []
        for s in seeds:
            M = Model(s, sizes, **kw)
            try:
                a = event_values(M, e)
                a = a if per_label else [x for r in a for x in r]
                b = spec(M)
            except Undecided as x:
                st.append(None)
                continue
            st.append(close(a, b, tol) if len(list(flat_(a))) == len(list(flat_(b))) else False)
            if st[-1] is False and len(list(flat_(a))) == len(list(flat_(b))):
                best = (e, a, b)
        if any(x is True for x in st) and not any(x is False for x in st):
            return ctx.ob(name, 'ok', '%s' % e.where(), e.where(), rule)
        if all(x is None for x in st):
            und += 1
    r = in_text(run, evs, spec, sizes, seeds, kw)
    if r is True:
        return ctx.ob(name, 'ok', 'in the complete output', evs[0].where(), rule)
    if und or r is None or run.aborted or run.exc or not evs:
        return ctx.ob(name, 'undecided', 'no matching output; %d outputs not resolved; %s' % (und, run.aborted or run.exc or ''), '', rule)
    if best:
        e, a, b = best
        return ctx.ob(name, 'violated', 'printed %s, required %s' % (short_(a), short_(b)), e.where(), rule)
    return ctx.ob(name, 'violated', 'none of the %d outputs carries the required values' % len(evs), evs[0].where(), rule)


NUM = re.compile(r'[-+]?(?:\d+\.?\d*|\.\d+)(?:[eE][-+]?\d+)?')


def in_text(run, evs, spec, sizes, seeds, kw):
    """do the numbers spec(M) follow each other in the complete output? None if the output is not resolved"""
    n = 0
    for s in seeds:
        M = Model(s, sizes, **kw)
        try:
            want = [complex(x).real for x in flat_(spec(M))]
            text = whole(M, evs)
        except Undecided:
            continue
        n += 1
        got = [(float(x), 0.51 * 10. ** -len((x.split('.') + [''])[1].split('e')[0])) for x in NUM.findall(text)]
        k = len(want)
        if not any(all(abs(a - b) <= t + 1e-5 for (a, t), b in zip(got[i:i + k], want)) for i in range(len(got) - k + 1)):
            return False
    return True if n else None


def short_(x):
    return str([('%.4g' % v if not isinstance(v, complex) else '%.3g%+.3gj' % (v.real, v.imag)) for v in list(flat_(x))[:12]])


def render(M, ps, env=None):
    """the text itself, in a model"""
    env = env or {}
    out = ''
    for x in ps:
        if isinstance(x, str):
            out += x
        elif x[0] == 'rep' and all(isinstance(y, str) and not y.strip() for y in x[3]):
            out += ' '           # padding
        elif x[0] == 'rep':
            n = M.size(x[2], env)
            k = x[4] if len(x) > 4 else 0
            for i in range(n):
                out += render(M, x[3] if i < n - 1 or not k else x[3][:-k], {**env, x[1]: i})
        elif x[0] == 'phi':
            if len(x) < 3:
                raise Undecided('text depends on a condition which is not resolved')
            try:
                i = int(round(M.ev(x[2], env).real))
                if not 0 <= i < len(x[1]):
                    raise Undecided('selector out of range')
                out += render(M, x[1][i], env)
            except Undecided:
                alts = [render(M, y, env) for y in x[1]]
                if len({squeeze(y) for y in alts}) > 1:
                    raise
                out += alts[0]
        elif x[0] == 'cond':
            if not hasattr(x[1], 'subst'):
                raise Undecided('conditional text')
            if M.ev(x[1], env):
                out += render(M, x[2], env)
        elif isinstance(x[0], StrT):
            out += render(M, x[0].parts, env)
        elif isinstance(x[0], Const):
            out += str(x[0].v)
        elif isinstance(x[0], Arr) and x[0].form is not None and not x[0].axes:
            v = M.ev(x[0].form, env)
            d = x[0].dtype
            v = complex(v)
            v = bool(v.real) if d == 'b' else int(round(v.real)) if d == 'i' and abs(v.real - round(v.real)) < 1e-9 else v.real if d != 'c' else v
            s = x[1]
            if s in ('', '?') and isinstance(v, float):
                v = round(v, 10)
            if s and s[-1] == 'd' and isinstance(v, float):
                v = int(round(v))
            try:
                out += format(v, s if s != '?' else '')
            except ValueError:
                out += '%' + s if False else format(v.real if isinstance(v, complex) else v, '')
        elif isinstance(x[0], Arr) and x[0].form is not None and x[0].axes:
            r = M.arr(x[0], env)

            def s_(r):
                return '[' + ' '.join(s_(y) for y in r) + ']' if isinstance(r, (list, tuple)) else \
                    (repr(round(complex(r).real, 8)) if x[0].dtype == 'f' else str(int(round(complex(r).real))) if x[0].dtype == 'i' else str(r))
            out += s_(r)
        else:
            raise Undecided('text not resolved')
    return out


def event_text(M, e):
    """text of the event, for all values of the loop labels it depends on"""
    ps = parts_of(e)
    fl = sorted(free_labels_all(ps))
    out = []

    def rec(fl, env):
        if not fl:
            # does this iteration get there?
            for f, pol in e.pc:
                if f.labels() <= set(env) and bool(M.ev(f, env)) != pol:
                    return
            out.append(render(M, ps, env))
            return
        if fl[0] not in LABLEN:
            raise Undecided('label')
        for i in range(M.size(LABLEN[fl[0]], env)):
            rec(fl[1:], {**env, fl[0]: i})
    rec(fl, {})
    return out


def free_labels_all(ps):
    acc = set()
    for x in ps:
        if isinstance(x, str):
            continue
        if x[0] == 'phi':
            for alt in x[1]:
                acc |= free_labels_all(alt)
            for f in x[2:]:
                acc |= set(f.labels())
        elif x[0] == 'cond':
            acc |= free_labels_all(x[2]) | (set(x[1].labels()) if hasattr(x[1], 'labels') else set())
        elif x[0] == 'rep':
            acc |= set(x[2].labels()) | (free_labels_all(x[3]) - {x[1]})
        else:
            acc |= free_labels([x])
    return acc


def squeeze(s):
    return ''.join(s.split())


def says(ctx, name, run, spec, rule='', kinds=('print',), path=None, exact=False, **kw):
    """in every model some output event contains the text spec(M) (white space ignored). spec may also return a test of the text, or None:
    nothing is required of that model"""
    evs = [e for e in run.events if e.kind in kinds and not e.spec and (path is None or path(e))]
    sizes = kw.pop('sizes', None)
    oks = []
    bad = None
    for s in range(1, 9 if ctx.thorough else 6):
        M = Model(s, sizes, **kw)
        try:
            b = spec(M)
        except Undecided:
            continue
        if b is None:
            continue
        und = False
        seen = []
        hit = None
        for e in evs:
            try:
                a = squeeze('\n'.join(event_text(M, e)))
            except Undecided:
                und = True
                continue
            if b(a) if callable(b) else a == squeeze(b) if exact else squeeze(b) in a:
                hit = e
                break
            if a:
                seen.append((e, a))
        oks.append(True if hit else None if und else False)
        if hit is None and not und and bad is None:
            want = b.__doc__ or 'required text' if callable(b) else squeeze(b)
            e, a = max(seen, key=lambda x: common((x[1], want))) if seen else (None, '')
            bad = (e, a, want)
        elif hit is not None:
            last = hit
    if bad and not run.aborted and not run.exc:
        e, a, b = bad
        return ctx.ob(name, 'violated', 'text %r, required %r' % (a[:200], b[:200]), e.where() if e else '', rule)
    if any(x is True for x in oks) and not bad:
        return ctx.ob(name, 'ok', 'text verified at %s' % last.where(), last.where(), rule)
    return ctx.ob(name, 'undecided', 'output not resolved; %s' % (run.aborted or run.exc or ''), '', rule)


def common(ab):
    import difflib
    return difflib.SequenceMatcher(None, ab[0][:400], ab[1][:400]).ratio()


def whole(M, evs):
    """complete text of a sequence of output events, in the order in which a run with the values of model M produces them"""
    out = []

    def go(evs, depth, env):
        i = 0
        while i < len(evs):
            e = evs[i]
            if len(e.loops) > depth:
                l = e.loops[depth]
                j = i
                while j < len(evs) and len(evs[j].loops) > depth and evs[j].loops[depth] == l:
                    j += 1
                n = M.size(LABLEN[l], env)
                for k in range(n):
                    go(evs[i:j], depth + 1, {**env, l: k})
                i = j
                continue
            i += 1
            skip = False
            for f, pol in e.pc:
                if f.labels() <= set(env):
                    try:
                        if bool(M.ev(f, env)) != pol:
                            skip = True
                            break
                    except Undecided:
                        # a condition which is not resolved: fine as long as it has no alternative among the outputs
                        continue
            if not skip:
                out.append(render(M, parts_of(e), env) + ('\n' if e.kind == 'print' else ''))
    go(evs, 0, {})
    return ''.join(out)


def outputs(run, kinds=('print',), path=None):
    return [e for e in run.events if e.kind in kinds and not e.spec and (path is None or path(e))]


def same_tokens(a, b, tol=6e-5):
    """the two texts consist of the same words and the same numbers, up to the printed precision; returns None or the difference"""
    x, y = a.split(), b.split()
    for p, q in zip(x, y):
        if p == q:
            continue
        try:
            if abs(float(p) - float(q)) <= tol * max(1, abs(float(q))):
                continue
        except ValueError:
            pass
        return '%r instead of %r' % (p, q)
    if len(x) != len(y):
        return '%d words instead of %d: ... %s / ... %s' % (len(x), len(y), ' '.join(x[-4:]), ' '.join(y[-4:]))
    return None


def file_is(ctx, name, run, spec, rule='', kinds=('write',), path=None, test=None, **kw):
    """the complete output consists of the words and numbers of spec(M)"""
    evs = outputs(run, kinds, path)
    sizes = kw.pop('sizes', None)
    test = test or same_tokens
    done, why = 0, ''
    if run.exc or run.aborted:
        return ctx.ob(name, *stopped(run), '', rule)
    for s in range(1, 9 if ctx.thorough else 5):
        M = Model(s, sizes, **kw)
        try:
            a, b = whole(M, evs), spec(M)
        except Undecided as x:
            why = str(x)
            continue
        d = test(a, b)
        if d:
            return ctx.ob(name, 'violated', d, evs[0].where() if evs else '', rule)
        done += 1
    return ctx.ob(name, 'ok' if done else 'undecided', '%d models, %d output statements' % (done, len(evs)) + (' ; not every model evaluated: ' + why if why else '') if done else why, evs[0].where() if evs else '', rule)
