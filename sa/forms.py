"""Canonical element forms.

An array value is abstracted by the *form* of its generic element: a
polynomial whose monomials are products of atoms with (possibly summed) index
labels.  Forms are kept in a normal form, so that two expressions that differ
only by transposition conventions, contraction style (dot/@/einsum/loops),
helper extraction or statement order have the same form.  Everything that is
not understood is `None` (top), never a wrong form.
"""
from fractions import Fraction
import itertools
import cmath
import math

_counter = itertools.count(1)


def new_label():
    return next(_counter)


META = {}   # symbol name -> dict(real=bool, int=bool)


def declare(name, real=True, integer=False):
    META[name] = dict(real=real or integer, int=integer)
    return name


declare('delta', integer=True)
declare('eps', integer=True)

REAL_FN = {'setlen', 'abs', 'real', 'imag', 'round', 'floor', 'ceil', 'angle', 'lt', 'le',
           'eq', 'ne', 'and', 'or', 'not', 'norm', 'len', 'isclose', 'isnan', 'bool', 'int', 'sign',
           'max', 'min', 'arccos', 'sel'}
INT_FN = {'setlen', 'round', 'floor', 'ceil', 'int', 'lt', 'le', 'eq', 'ne', 'and', 'or', 'not',
          'len', 'bool', 'isclose', 'isnan', 'sign'}
REAL_PRES = {'setel', 'ite', 'upd', 'mod', 'sin', 'cos', 'tan', 'phi', 'pow', 'grp', 'floordiv', 'exp', 'log', 'sqrt', 'minimum', 'maximum'}
INT_PRES = {'setel', 'ite', 'upd', 'mod', 'phi', 'floordiv', 'minimum', 'maximum', 'abs'}
REAL_B = {'where', 'argsort', 'abs', 'len', 'norm', 'count'}
INT_B = {'distinct', 'nesto', 'nesti', 'count', 'where', 'argsort', 'len', 'argmax', 'argmin', 'any', 'all'}
PRES_B = {'sort', 'cumsum', 'max', 'min', 'mean', 'roll', 'prod', 'last', 'flatnz', 'masked', 'fill'}


def fmtnum(c):
    c = complex(c)

    def f(x):
        s = '%.6g' % x
        return '0' if s == '-0' else s
    if abs(c.imag) < 1e-12 * max(1, abs(c.real)):
        return f(c.real)
    if abs(c.real) < 1e-12 * max(1, abs(c.imag)):
        return f(c.imag) + 'j'
    return '(%s%s%sj)' % (f(c.real), '+' if c.imag >= 0 else '', f(c.imag))


# ---------------------------------------------------------------- atoms
# ('L', id) ; ('S', name, slots) ; ('F', fname, args) ; ('B', fname, labels, form, slots)
# ('P', idx, comps) ; ('C', idx, segs)   segs = ((len, label, form), ...)

def atom_key(a, env):
    t = a[0]
    if t == 'L':
        return env.get(a[1]) or 'L%d' % a[1]
    if t == 'S':
        if not a[2]:
            return a[1]
        return a[1] + '[' + ','.join(s.key(env) for s in a[2]) + ']'
    if t == 'F':
        return a[1] + '(' + ','.join(x.key(env) if isinstance(x, Form) else repr(x) for x in a[2]) + ')'
    if t == 'B':
        e2 = dict(env)
        d = len(env)
        for i, l in enumerate(a[2]):
            e2[l] = 'b%d_%d' % (d, i)
        return '%s{%s|%s}[%s]' % (a[1], ','.join(LABLEN[l].key() if l in LABLEN else '?' for l in a[2]), a[3].key(e2), ','.join(s.key(env) for s in a[4]))
    if t == 'P':
        return 'pick[%s](%s)' % (a[1].key(env), ';'.join(c.key(env) for c in a[2]))
    if t == 'C':
        out = []
        for (ln, l, f) in a[2]:
            e2 = dict(env)
            e2[l] = 'c%d' % len(env)
            out.append(ln.key(env) + ':' + f.key(e2))
        return 'cat[%s](%s)' % (a[1].key(env), ';'.join(out))
    raise ValueError(t)


def atom_labels(a, acc):
    t = a[0]
    if t == 'L':
        acc.add(a[1])
    elif t == 'S':
        for s in a[2]:
            acc |= s.labels()
    elif t == 'F':
        for s in a[2]:
            if isinstance(s, Form):
                acc |= s.labels()
    elif t == 'B':
        acc |= (a[3].labels() - set(a[2]))
        for s in a[4]:
            acc |= s.labels()
    elif t == 'P':
        acc |= a[1].labels()
        for c in a[2]:
            acc |= c.labels()
    elif t == 'C':
        acc |= a[1].labels()
        for (ln, l, f) in a[2]:
            acc |= ln.labels()
            acc |= (f.labels() - {l})


def factors_key(factors, env):
    return '*'.join(sorted(atom_key(a, env) + ('' if e == 1 else '^%s' % e) for a, e in factors))


def mono_key(dummies, factors, env):
    if not dummies:
        return factors_key(factors, env)
    base = len(env)
    ds = [d for d, _ in dummies]
    sp = {d: s.key(env) for d, s in dummies}
    if len(ds) == 1:
        e = dict(env)
        e[ds[0]] = 's%d_0' % base
        return 'S(%s)' % sp[ds[0]] + factors_key(factors, e)
    ln = dict(dummies)
    dep = {d for d in ds if ln[d].labels() & set(ds)}       # lengths that depend on another summed label
    for d in dep:
        e = dict(env)
        for o in ds:
            e[o] = '*%d' % base
        sp[d] = ln[d].key(e)
    sigs = []
    for d in ds:
        e = dict(env)
        for o in ds:
            e[o] = '*%d' % base
        e[d] = '@%d' % base
        sigs.append((factors_key([(a, x) for a, x in factors if d in _al(a)], e) + sp[d], d))
    sigs.sort(key=lambda x: x[0])
    groups = []
    for k, g in itertools.groupby(sigs, key=lambda x: x[0]):
        groups.append([d for _, d in g])
    best = None
    n = 0
    for perm in itertools.product(*[list(itertools.permutations(g)) if len(g) <= 4 else [tuple(g)] for g in groups]):
        order = [d for g in perm for d in g]
        e = dict(env)
        for i, d in enumerate(order):
            e[d] = 's%d_%d' % (base, i)
        k = 'S(' + ','.join(ln[d].key(e) if d in dep else sp[d] for d in order) + ')' + factors_key(factors, e)
        if best is None or k < best:
            best = k
        n += 1
        if n > 200:
            break
    return best


def _al(a):
    s = set()
    atom_labels(a, s)
    return s


class Form:
    __slots__ = ('terms', '_key', '_labels')

    def __init__(self, terms):
        # terms: dict key -> (coef, dummies, factors)
        self.terms = terms
        self._key = None
        self._labels = None

    # ---- construction helpers
    @staticmethod
    def build(items):
        d = {}
        for coef, dummies, factors in items:
            if abs(coef) < 1e-13:
                continue
            k = mono_key(dummies, factors, {})
            if k in d:
                c0, dm, fa = d[k]
                c = c0 + coef
                if abs(c) < 1e-11 * max(abs(c0), abs(coef), 1e-30):
                    del d[k]
                else:
                    d[k] = (c, dm, fa)
            else:
                d[k] = (complex(coef), dummies, factors)
        return Form(d)

    def items(self):
        return list(self.terms.values())

    def key(self, env=None):
        if not env:
            if self._key is None:
                self._key = self._mk({})
            return self._key
        if not (self.labels() & set(env)):
            # nested summed labels get names depending on depth: normalise
            return self.key()
        return self._mk(env)

    def _mk(self, env):
        if not self.terms:
            return '0'
        parts = []
        for k0, (c, dm, fa) in self.terms.items():
            k = mono_key(dm, fa, env) if env else k0
            parts.append((k, fmtnum(c)))
        parts.sort()
        return '(' + ' + '.join(c if not k else (k if c == '1' else c + '*' + k) for k, c in parts) + ')' \
            if len(parts) > 1 or parts[0][1] != '1' else parts[0][0] or '1'

    def labels(self):
        if self._labels is None:
            acc = set()
            for c, dm, fa in self.terms.values():
                s = set()
                for a, e in fa:
                    atom_labels(a, s)
                for d, ln in dm:
                    s |= ln.labels()
                acc |= s - {d for d, _ in dm}
            self._labels = frozenset(acc)
        return self._labels

    def __repr__(self):
        return self.key()

    def __eq__(self, o):
        return isinstance(o, Form) and self.key() == o.key()

    def __hash__(self):
        return hash(self.key())

    # ---- queries
    def const(self):
        """complex constant or None"""
        if not self.terms:
            return 0j
        if len(self.terms) == 1:
            (c, dm, fa), = self.terms.values()
            if not fa and not dm:
                return c
        return None

    def real_const(self):
        c = self.const()
        if c is None or abs(c.imag) > 1e-12:
            return None
        return c.real

    def int_const(self):
        c = self.real_const()
        if c is None or c != c or c in (float('inf'), float('-inf')) or abs(c - round(c)) > 1e-9:
            return None
        return int(round(c))

    def single(self):
        if len(self.terms) == 1:
            return next(iter(self.terms.values()))
        return None

    def atom(self):
        """the atom if the form is exactly one atom"""
        s = self.single()
        if s and not s[1] and len(s[2]) == 1 and abs(s[0] - 1) < 1e-12 and s[2][0][1] == 1:
            return s[2][0][0]
        return None

    def label(self):
        a = self.atom()
        return a[1] if a and a[0] == 'L' else None

    # ---- algebra
    def __add__(self, o):
        o = lift(o)
        return Form.build(self.items() + o.items())

    def __neg__(self):
        return self.scale(-1)

    def __sub__(self, o):
        return self + (-lift(o))

    def scale(self, c):
        if abs(c) < 1e-300:
            return ZERO
        return Form({k: (x * c, d, f) for k, (x, d, f) in self.terms.items()})

    def __mul__(self, o):
        o = lift(o)
        c = o.const()
        if c is not None:
            return self.scale(c)
        c = self.const()
        if c is not None:
            return o.scale(c)
        out = []
        for t1 in self.items():
            for t2 in o.items():
                out.extend(_mul_terms(t1, t2))
        return Form.build(out)

    def inv_scalar(self):
        return self.powr(Fraction(-1))

    def powr(self, e):
        e = Fraction(e)
        c = self.const()
        if c is not None:
            if c == 0 and e < 0:
                return None
            return const(c ** float(e)) if c != 0 else (ONE if e == 0 else ZERO)
        if e == 0:
            return ONE
        if e.denominator == 1 and e > 0 and e <= 4:
            r = self
            for _ in range(int(e) - 1):
                r = r * self
            return r
        s = self.single()
        if s and not s[1]:
            coef, dm, fa = s
            okfrac = e.denominator == 1 or (abs(coef.imag) < 1e-12 and coef.real > 0)
            if okfrac:
                nf = []
                f = ONE
                for a, x in fa:
                    y = x * e
                    if a[0] == 'F' and a[1] == 'exp':
                        if e.denominator != 1:
                            break
                        f = f * fn('exp', a[2][0].scale(float(e)))
                        continue
                    if e.denominator != 1 and x % 2 == 0 and y.denominator == 1 and y % 2 == 1:
                        a = ('F', 'abs', (Form.build([(1, (), ((a, 1),))]),)) if not (a[0] == 'F' and a[1] in ('abs', 'norm')) else a
                    nf.append((a, y))
                else:
                    r = Form.build([(coef ** float(e), (), tuple(nf))]) * f
                    return _renorm(r)
        return Form.build([(1, (), ((('F', 'grp', (self,)), e),))])

    def subst(self, m):
        """m: label id -> Form"""
        if not m or not (self.labels() & set(m)):
            return self
        out = []
        for t in self.items():
            out.extend(_subst_term(t, m))
        return Form.build(out)


def _renorm(f):
    return f


def lift(x):
    return x if isinstance(x, Form) else const(x)


def const(c):
    c = complex(c)
    if c == 0:
        return ZERO
    return Form({'': (c, (), ())})


ZERO = Form({})
ONE = Form({'': (1 + 0j, (), ())})


def atom_form(a):
    r = _simplify_atom(a)
    if isinstance(r, Form):
        return r
    return Form.build([(1, (), ((r, Fraction(1)),))])


def lab(i):
    return Form.build([(1, (), ((('L', i), Fraction(1)),))])


def sym(name, *slots):
    return atom_form(('S', name, tuple(lift(s) for s in slots)))


def fn(name, *args):
    return atom_form(('F', name, tuple(args)))


NAMED = {}      # canonical text -> symbol name, for large where/count/argsort/... bodies
NAMELIM = 160


def binder(name, labels, form, slots):
    if name in ('where', 'count', 'argsort', 'nesto', 'nesti', 'sort', 'any', 'all') and len(form.key()) > (20 if name[:4] == 'nest' else NAMELIM):
        return named_binder(name, tuple(labels), form, tuple(slots))
    if any(l in LABLEN and LABLEN[l].labels() for l in labels):
        # the range depends on other labels: keep them as explicit slots, so that substitutions reach them
        return named_binder(name, tuple(labels), form, tuple(slots))
    return atom_form(('B', name, tuple(labels), form, tuple(slots)))


def named_binder(name, labels, form, slots):
    free = set(form.labels())
    for l in labels:
        if l in LABLEN:
            free |= set(LABLEN[l].labels())
    free = sorted(free - set(labels))
    if len(free) > 1:
        env = {l: 'a%d' % i for i, l in enumerate(labels)}

        def sig(x):
            e = dict(env)
            for o in free:
                e[o] = '*'
            e[x] = '@'
            return form.key(e)
        free.sort(key=lambda x: (sig(x), x))
    env = {l: 'a%d' % i for i, l in enumerate(labels)}
    for i, l in enumerate(free):
        env[l] = 'f%d' % i
    rng = ','.join(LABLEN[l].key(env) if l in LABLEN else '?' for l in labels)
    text = '%s|%s|%s' % (name, rng, form.key(env))
    nm = NAMED.get(text)
    if nm is None:
        nm = '%s#%d' % (name, len(NAMED))
        NAMED[text] = nm
        META[nm] = dict(real=is_real_atom(('B', name, labels, form, ())), int=is_int_atom(('B', name, labels, form, ())),
                        body=(name, labels, form, tuple(free)))
        if name in ('where', 'argsort') and labels[0] in LABLEN and not LABLEN[labels[0]].labels():
            IDXLEN[nm] = LABLEN[labels[0]]
    return sym(nm, *([lab(l) for l in free] + list(slots)))


def unname(a):
    """expand a named binder atom to ('B', ...); other atoms unchanged"""
    if a[0] == 'S' and '#' in a[1]:
        b = META.get(a[1], {}).get('body')
        if b:
            name, labels, form, free = b
            nl = []
            m = {}
            for l in labels:
                k = new_label()
                if l in LABLEN:
                    LABLEN[k] = LABLEN[l]
                nl.append(k)
                m[l] = lab(k)
            m.update(dict(zip(free, a[2])))
            return ('B', name, tuple(nl), form.subst(m), tuple(a[2][len(free):]))
    return a


def delta(a, b):
    return sym('delta', a, b)


def is_real_atom(a):
    t = a[0]
    if t == 'L':
        return True
    if t == 'S':
        n = a[1]
        m = META.get(n)
        if m is None and n.startswith('inv:'):
            m = META.get(n[4:])
            return bool(m and m['real'])
        return bool(m and m['real'])
    if t == 'F':
        if a[1] in REAL_FN:
            return True
        if a[1] in REAL_PRES:
            return all(is_real(x) for x in a[2] if isinstance(x, Form))
        return False
    if t == 'B':
        if a[1] in REAL_B or a[1] in INT_B:
            return True
        if a[1] in PRES_B or a[1] in ('inv', 'det', 'cross'):
            return is_real(a[3])
        return False
    if t == 'P':
        return all(is_real(c) for c in a[2])
    if t == 'C':
        return all(is_real(f) for _, _, f in a[2])
    return False


def is_real(f):
    return all(abs(c.imag) < 1e-14 * max(1, abs(c)) and all(is_real_atom(a) for a, e in fa) for c, dm, fa in f.items())


def is_int_atom(a):
    t = a[0]
    if t == 'L':
        return True
    if t == 'S':
        m = META.get(a[1])
        return bool(m and m['int'])
    if t == 'F':
        if a[1] in INT_FN:
            return True
        if a[1] in INT_PRES:
            return all(is_int(x) for x in a[2] if isinstance(x, Form))
        return False
    if t == 'B':
        if a[1] in INT_B:
            return True
        if a[1] in PRES_B and a[1] != 'mean':
            return is_int(a[3])
        return False
    if t == 'P':
        return all(is_int(c) for c in a[2])
    if t == 'C':
        return all(is_int(f) for _, _, f in a[2])
    return False


def is_int(f):
    return all(abs(c - round(c.real)) < 1e-12 and all(is_int_atom(a) and e.denominator == 1 and e > 0 for a, e in fa)
               for c, dm, fa in f.items())


def _window(idx, n):
    """idx = c + label of constant range m, a proper window of [0, n): (c, label form, m)"""
    c, l = 0, None
    for k, dm, fa in idx.items():
        if dm or abs(k.imag) > 0:
            return None
        if not fa:
            c = int(round(k.real))
        elif len(fa) == 1 and fa[0][1] == 1 and fa[0][0][0] == 'L' and k == 1 and l is None:
            l = fa[0][0][1]
        else:
            return None
    if l is None or l not in LABLEN:
        return None
    m = LABLEN[l].int_const()
    if m is None or c < 0 or c + m > n or (c == 0 and m == n) or m < 1:
        return None
    return c, lab(l), m


class _NoRoll(Exception):
    pass


def _au_form(x, y, l):
    """anti-unify two forms: slots holding 0 in x and 1 in y become the label l"""
    if x == y:
        return x
    tx, ty = x.items(), y.items()
    if len(tx) != len(ty) or not tx or len(tx) > 4:
        raise _NoRoll()
    out = []
    for (c, dm, fa), (c2, dm2, fa2) in zip(tx, ty):
        if abs(c - c2) > 1e-9 * max(1, abs(c)) or dm or dm2 or len(fa) != len(fa2) or not fa:
            raise _NoRoll()
        out.append((c, (), tuple((_au_atom(a, b, l), e) for (a, e), (b, e2) in zip(fa, fa2))))
    return Form.build(out)


def _au_atom(a, b, l):
    if a == b:
        return a
    if a[0] != 'S' or b[0] != 'S' or a[1] != b[1] or a[1] == 'delta' or len(a[2]) != len(b[2]):
        raise _NoRoll()
    sl = []
    for p, q in zip(a[2], b[2]):
        if p == q:
            sl.append(p)
        elif p.int_const() == 0 and q.int_const() == 1:
            sl.append(lab(l))
        else:
            sl.append(_au_form(p, q, l))
    return ('S', a[1], tuple(sl))


def _roll(idx, comps):
    """pick[idx](s[0]; s[1]; ...) -> s[idx]"""
    l = new_label()
    try:
        f = _au_form(comps[0], comps[1], l)
    except _NoRoll:
        return None
    for i, c in enumerate(comps):
        if f.subst({l: const(i)}) != c:
            return None
    return f.subst({l: idx})


def _simplify_atom(a):
    t = a[0]
    if t == 'S' and a[1] == 'delta':
        x, y = a[2]
        d = x - y
        c = d.real_const()
        if c is not None:
            return ONE if abs(c) < 1e-9 else ZERO
        if y.key() < x.key():
            return ('S', 'delta', (y, x))
        return a
    if t == 'P':
        c = a[1].int_const()
        if c is not None:
            if -len(a[2]) <= c < len(a[2]):
                return a[2][c]
            return a
        if len(a[2]) and all(x == a[2][0] for x in a[2]):
            return a[2][0]
        w = _window(a[1], len(a[2]))
        if w is not None:
            r = _simplify_atom(('P', w[1], a[2][w[0]:w[0] + w[2]]))
            return r if isinstance(r, Form) else Form.build([(1, (), ((r, Fraction(1)),))])
        if len(a[2]) >= 2:
            r = _roll(a[1], a[2])
            if r is not None:
                return r
        return a
    if t == 'C':
        idx, segs = a[1], a[2]
        off = ZERO
        # which segment does the index fall into (by its symbolic offset)?
        best = None
        for i, (ln, l, f) in enumerate(segs):
            rest = idx - off
            r = _fits(rest, ln)
            if r:
                best = (i, rest)
            off = off + ln
        if best is not None:
            ln, l, f = segs[best[0]]
            return f.subst({l: best[1]})
        return a
    if t == 'F':
        n, args = a[1], a[2]
        if n == 'exp':
            c = args[0].const()
            if c is not None:
                return const(cmath.exp(c))
            return a
        if n == 'conj':
            return conj(args[0])
        if n in ('abs',) and isinstance(args[0], Form):
            c = args[0].const()
            if c is not None:
                return const(abs(c))
            s = args[0].single()
            if s and not s[1]:
                # pull the constant out, drop unit phases
                fa = tuple((x, e) for x, e in s[2] if not (x[0] == 'F' and x[1] == 'exp' and _pure_imag(x[2][0])))
                if len(fa) == 1 and fa[0][1] == 1 and fa[0][0][0] == 'F' and fa[0][0][1] in ('abs', 'norm'):
                    return Form.build([(abs(s[0]), (), fa)])
                if abs(s[0] - 1) > 1e-12 or fa != s[2]:
                    return fn('abs', Form.build([(1, (), fa)])).scale(abs(s[0]))
            k1 = args[0].key()
            neg = -args[0]
            if neg.key() < k1:
                return ('F', 'abs', (neg,))
            return a
        if n == 'real':
            if is_real(args[0]):
                return args[0]
            return a
        if n == 'imag':
            if is_real(args[0]):
                return ZERO
            return a
        if n in ('round', 'floor', 'ceil', 'int'):
            if is_int(args[0]):
                return args[0]
            c = args[0].real_const()
            if c is not None and len(args) == 1:
                return const({'round': round, 'floor': math.floor, 'ceil': math.ceil, 'int': int}[n](c))
            return a
        if n in ('mod', 'floordiv') and args[1].const() != 1:
            qr = divsplit(args[0], args[1])
            if qr is not None:
                return qr[1] if n == 'mod' else qr[0]
        if n == 'mod':
            c, m = args[0].real_const(), args[1].real_const()
            if c is not None and m:
                return const(c % m)
            # drop additive multiples of the modulus; drop nested mod with same modulus
            if m:
                out = []
                ch = False
                for coef, dm, fa in args[0].items():
                    f = Form.build([(coef, dm, fa)])
                    q = f.scale(1 / m)
                    if is_int(q):
                        ch = True
                        continue
                    if len(fa) == 1 and not dm and fa[0][1] == 1 and fa[0][0][0] == 'F' and fa[0][0][1] == 'mod' \
                            and fa[0][0][2][1].real_const() == m and abs(coef - round(coef.real)) < 1e-12:
                        ch = True
                        out.extend(fa[0][0][2][0].scale(coef).items())
                        continue
                    out.append((coef, dm, fa))
                if ch:
                    return fn('mod', Form.build(out), args[1])
            return a
        if n == 'floordiv':
            c, m = args[0].real_const(), args[1].real_const()
            if c is not None and m:
                return const(c // m)
            if m:
                q = args[0].scale(1 / m)
                if is_int(q):
                    return q
            return a
        if n == 'grp':
            return a
        if n in ('lt', 'le', 'eq', 'ne'):
            c0, c1 = args[0].real_const(), args[1].real_const()
            if c0 is not None and c1 is not None:
                v = {'lt': c0 < c1, 'le': c0 <= c1, 'eq': c0 == c1, 'ne': c0 != c1}[n]
                return ONE if v else ZERO
            d = (args[0] - args[1]).real_const()
            if d is not None and d == d:
                v = {'lt': d < 0, 'le': d <= 0, 'eq': d == 0, 'ne': d != 0}[n]
                return ONE if v else ZERO
            for p, q in ((0, 1), (1, 0)):      # integers are finite
                c = args[p].real_const()
                if c is not None and abs(c) == float('inf') and is_int(args[q]):
                    return ONE if n == 'ne' or n in ('lt', 'le') and (c > 0) == (p == 1) else ZERO
            if n in ('eq', 'ne') and args[1].key() < args[0].key():
                return ('F', n, (args[1], args[0]))
            if n in ('lt', 'eq', 'ne') and ZERO in args:
                at = (args[1] if args[0] == ZERO else args[0]).atom()
                if at and at[0] == 'S' and META.get(at[1], {}).get('pos'):
                    return ONE if n == 'ne' or n == 'lt' and args[0] == ZERO else ZERO
            if n == 'lt':
                if _fits(args[0], args[1]):
                    return ONE
                l = args[0].label()
                if l is not None and l in LABLEN and args[1] == ZERO:
                    return ZERO
            elif n == 'le':
                if _fits(args[1], args[0]):
                    return ZERO
                l = args[1].label()
                if l is not None and l in LABLEN and args[0] == ZERO:
                    return ONE
            return a
        if n in ('and', 'or'):
            xs = {}
            for x in args:
                at = x.atom()
                if at and at[0] == 'F' and at[1] == n:
                    for y in at[2]:
                        xs[y.key()] = y
                else:
                    xs[x.key()] = x
            z, o = (ZERO, ONE) if n == 'and' else (ONE, ZERO)
            if z.key() in xs:
                return z
            xs.pop(o.key(), None)
            if not xs:
                return o
            if len(xs) == 1:
                return next(iter(xs.values()))
            return ('F', n, tuple(xs[k] for k in sorted(xs)))
        if n == 'not':
            c = args[0].real_const()
            if c is not None:
                return const(0 if c else 1)
            at = args[0].atom()
            if at and at[0] == 'F':
                if at[1] == 'lt':
                    return fn('le', at[2][1], at[2][0])
                if at[1] == 'le':
                    return fn('lt', at[2][1], at[2][0])
                if at[1] == 'eq':
                    return fn('ne', *at[2])
                if at[1] == 'ne':
                    return fn('eq', *at[2])
                if at[1] == 'not':
                    return at[2][0]
            return a
        if n == 'ite':
            c = args[0].real_const()
            if c is not None:
                return args[1] if c else args[2]
            if args[1] == args[2]:
                return args[1]
            at = args[0].atom()
            if at and at[0] == 'F' and at[1] == 'not':
                return fn('ite', at[2][0], args[2], args[1])
            if at and at[0] == 'F' and at[1] in ('ne', 'le'):
                nc = fn('not', args[0])
                na = nc.atom()
                if na and na[1] in ('eq', 'lt'):
                    return ('F', 'ite', (nc, args[2], args[1]))
            if args[1].const() == 1 and args[2].const() == 0 and is_bool(args[0]):
                return args[0]
            if args[1].const() == 0 and args[2].const() == 1 and is_bool(args[0]):
                return fn('not', args[0])
            return a
        if n == 'bool':
            c = args[0].real_const()
            if c is not None:
                return ONE if c else ZERO
            if is_bool(args[0]):
                return args[0]
            return a
        if n == 'upd':
            l, i, v, old = args
            d = (l - i).real_const()
            if d is not None:
                return v if abs(d) < 1e-9 else old
            if v == old:
                return v
            return a
        if n == 'phi':
            xs = {}
            for x in args:
                at = x.atom()
                if at and at[0] == 'F' and at[1] == 'phi':
                    for y in at[2]:
                        xs[y.key()] = y
                else:
                    xs[x.key()] = x
            if len(xs) == 1:
                return next(iter(xs.values()))
            return ('F', 'phi', tuple(xs[k] for k in sorted(xs)))
        if n in ('min', 'max'):
            xs = {}
            for x in args:
                at = x.atom()
                if at and at[0] == 'F' and at[1] == n:
                    for y in at[2]:
                        xs[y.key()] = y
                else:
                    xs[x.key()] = x
            if len(xs) == 1:
                return next(iter(xs.values()))
            cs = [x.real_const() for x in xs.values()]
            if all(c is not None for c in cs):
                return const(min(cs) if n == 'min' else max(cs))
            return ('F', n, tuple(xs[k] for k in sorted(xs)))
        return a
    return a


def divsplit(x, m):
    """x = q*m + r with 0 <= r < m visible from the shape of r"""
    if not is_int(x) or not is_int(m):
        return None
    inv = m.powr(Fraction(-1))
    if inv is None:
        return None
    q, r = [], []
    for t in x.items():
        f = Form.build([t])
        g = f * inv
        if is_int(g):
            q += g.items()
        else:
            r.append(t)
    R = Form.build(r)
    c = R.int_const()
    mc = m.int_const()
    if c is not None:
        ok = (mc is not None and 0 <= c < mc) or (mc is None and c == 0)
    else:
        ok = _fits(R, m)
        if not ok and R.label() is not None and mc is not None:
            L = LABLEN.get(R.label())
            lc = L.int_const() if L is not None else None
            ok = lc is not None and lc <= mc
        if not ok:
            ok = _fits_lin(R, m)
    return (Form.build(q), R) if ok else None


def _fits_lin(R, m):
    """R = a*n + b with b < n (label range n), a < k and m = k*n"""
    mc = m.int_const()
    if mc is None:
        return False
    hi = 0
    for c, dm, fa in R.items():
        if dm or c.real < 0:
            return False
        if not fa:
            hi += c.real
            continue
        if len(fa) != 1 or fa[0][1] != 1 or fa[0][0][0] != 'L':
            return False
        L = LABLEN.get(fa[0][0][1])
        lc = L.int_const() if L is not None else None
        if lc is None:
            return False
        hi += c.real * (lc - 1)
    return hi < mc


BOOL_FN = {'lt', 'le', 'eq', 'ne', 'and', 'or', 'not', 'bool', 'isclose', 'isnan'}


def is_bool(f):
    a = f.atom()
    return bool(a and (a[0] == 'F' and a[1] in BOOL_FN or a[0] == 'B' and a[1] in ('any', 'all') or
                       a[0] == 'S' and META.get(a[1], {}).get('bool')))


LABLEN = {}   # label id -> length form (for range reasoning on plain labels)
IDXLEN = {}   # symbol name of an index array -> length form of the range of its values


def _fits(idx, ln):
    """does idx provably lie in [0, ln)?  (by its shape)"""
    c, n = idx.int_const(), ln.int_const()
    if c is not None:
        if n is not None:
            return 0 <= c < n
        return False
    l = idx.label()
    if l is not None:
        L = LABLEN.get(l)
        return L is not None and L == ln
    if n is not None and _fits_lin(idx, ln):
        return True
    a = idx.atom()
    if a is not None:
        if a[0] == 'S' and a[1] in IDXLEN:
            return IDXLEN[a[1]] == ln
        if a[0] == 'B' and a[1] in ('where', 'argsort'):
            # values enumerate the axis of the binder's label
            L = LABLEN.get(a[2][0])
            return L is not None and L == ln
    return False


def _pure_imag(f):
    return is_real(f.scale(1j))


def _mul_terms(t1, t2):
    c1, d1, f1 = t1
    c2, d2, f2 = t2
    if d1 and d2:
        ids1 = {d for d, _ in d1}
        if ids1 & {d for d, _ in d2}:
            t2 = _freshen(t2)
            c2, d2, f2 = t2
    # also avoid capture of free labels: labels are globally unique, so cannot happen
    return _norm_term(c1 * c2, d1 + d2, f1 + f2)


def _freshen(t):
    c, dm, fa = t
    m = {}
    nd = []
    for d, ln in dm:
        m[d] = lab(new_label())
    for d, ln in dm:
        n = m[d].label()
        ln = ln.subst(m)            # lengths may depend on other summed labels
        LABLEN[n] = ln
        nd.append((n, ln))
    r = []
    for a, e in fa:
        r.append((_subst_atom(a, m), e))
    nf = []
    for a, e in r:
        at = a if not isinstance(a, Form) else a.atom()
        nf.append((at, e))
    return (c, tuple(nd), tuple(nf))


def _norm_term(c, dummies, factors):
    """combine equal atoms, merge exponentials; returns list of terms"""
    acc = {}
    order = []
    exps = None
    for a, e in factors:
        if a[0] == 'F' and a[1] == 'exp':
            arg = a[2][0].scale(float(e))
            exps = arg if exps is None else exps + arg
            continue
        k = atom_key(a, {})
        if k in acc:
            acc[k] = (a, acc[k][1] + e)
        else:
            acc[k] = (a, Fraction(e))
            order.append(k)
    extra = []
    out = []
    for k in order:
        a, e = acc[k]
        if e == 0:
            continue
        if a[0] == 'F' and a[1] == 'grp' and e.denominator == 1 and e > 0:
            extra.append(a[2][0].powr(e))
            continue
        if a[0] == 'F' and a[1] == 'abs' and e.denominator == 1 and e % 2 == 0 and e > 0:
            g = a[2][0]
            for _ in range(int(e // 2)):
                extra.append(g * conj(g))
            continue
        if a[0] == 'S' and a[1] == 'delta' and e > 1:
            e = Fraction(1)
        out.append((a, e))
    if exps is not None:
        at = _simplify_atom(('F', 'exp', (exps,)))
        if isinstance(at, Form):
            extra.append(at)
        else:
            out.append((at, Fraction(1)))
    terms = [(c, tuple(dummies), tuple(out))]
    if extra:
        f = Form.build(terms)
        for x in extra:
            f = f * x
        return f.items()
    return terms


def _subst_form_or(x, m):
    return x.subst(m) if isinstance(x, Form) else x


def _subst_atom(a, m):
    """returns atom or Form"""
    t = a[0]
    if t == 'L':
        return m[a[1]] if a[1] in m else a
    if t == 'S':
        n = ('S', a[1], tuple(s.subst(m) for s in a[2]))
        return _simplify_atom(n) if a[1] == 'delta' else n
    if t == 'F':
        return _simplify_atom(('F', a[1], tuple(_subst_form_or(x, m) for x in a[2])))
    if t == 'B':
        m2 = {k: v for k, v in m.items() if k not in a[2]}
        return ('B', a[1], a[2], a[3].subst(m2), tuple(s.subst(m) for s in a[4]))
    if t == 'P':
        return _simplify_atom(('P', a[1].subst(m), tuple(c.subst(m) for c in a[2])))
    if t == 'C':
        segs = []
        for ln, l, f in a[2]:
            m2 = {k: v for k, v in m.items() if k != l}
            segs.append((ln.subst(m2), l, f.subst(m2)))
        return _simplify_atom(('C', a[1].subst(m), tuple(segs)))


def _subst_term(t, m):
    c, dm, fa = t
    m = {k: v for k, v in m.items() if k not in {d for d, _ in dm}}
    dm = tuple((d, ln.subst(m)) for d, ln in dm)
    plain = []
    forms = []
    for a, e in fa:
        r = _subst_atom(a, m)
        if isinstance(r, Form):
            forms.append(r if e == 1 else r.powr(e))
        else:
            plain.append((r, e))
    if any(f is None for f in forms):
        raise Top()
    terms = _norm_term(c, (), tuple(plain))
    f = Form.build(terms)
    for x in forms:
        f = f * x
    if dm:
        for d, ln in reversed(dm):       # those whose length depends on another label first
            f = sum_over(f, d, ln)
    return f.items()


class Top(Exception):
    pass


def conj(f):
    out = []
    for c, dm, fa in f.items():
        nf = []
        extra = []
        for a, e in fa:
            r = _conj_atom(a)
            if isinstance(r, Form):
                extra.append(r if e == 1 else r.powr(e))
            else:
                nf.append((r, e))
        g = Form.build(_norm_term(c.conjugate(), dm, tuple(nf)))
        for x in extra:
            g = g * x
        out.extend(g.items())
    return Form.build(out)


def _conj_atom(a):
    if is_real_atom(a):
        return a
    if a[0] == 'F':
        if a[1] == 'conj':
            return a[2][0]
        if a[1] == 'exp':
            return ('F', 'exp', (conj(a[2][0]),))
        if a[1] == 'grp':
            return ('F', 'grp', (conj(a[2][0]),))
    if a[0] == 'P':
        return ('P', a[1], tuple(conj(x) for x in a[2]))
    if a[0] == 'C':
        return ('C', a[1], tuple((ln, l, conj(f)) for ln, l, f in a[2]))
    if a[0] == 'B' and a[1] in ('inv', 'mean', 'cumsum'):
        return ('B', a[1], a[2], conj(a[3]), a[4])
    return ('F', 'conj', (Form.build([(1, (), ((a, Fraction(1)),))]),))


def inv_name(n):
    return n[4:] if n.startswith('inv:') else 'inv:' + n


def sum_over(form, l, length):
    """sum of form over label l in range(length)"""
    out = ZERO
    if l in form.labels():
        # bound labels are always fresh: no capture is possible
        nl = new_label()
        LABLEN[nl] = length
        form = form.subst({l: lab(nl)})
        l = nl
    n = length.int_const()
    for t in form.items():
        c, dm, fa = t
        labs = set()
        for a, e in fa:
            atom_labels(a, labs)
        for d, ln in dm:
            labs |= ln.labels()
        f = Form.build([t])
        if l not in labs:
            out = out + f * length
            continue
        if n is not None and n <= 4 and len(fa) == 1 and not dm and fa[0][0][0] == 'S' and fa[0][1] == 1 \
                and fa[0][0][1] != 'delta' and is_int_atom(fa[0][0]):
            for i in range(n):
                out = out + f.subst({l: const(i)})
            continue
        r = _bind(t, l, length, n)
        out = out + r
    return out


def _expandable(a, l):
    """atom structure that forces component expansion over l"""
    t = a[0]
    if t == 'P':
        return l in a[1].labels() or any(_fexp(c, l) for c in a[2])
    if t == 'C':
        return l in a[1].labels()
    return False


def _fexp(f, l):
    return any(_expandable(a, l) for c, dm, fa in f.items() for a, e in fa)


def _bind(t, l, length, n):
    c, dm, fa = t
    # delta elimination
    for i, (a, e) in enumerate(fa):
        if a[0] == 'S' and a[1] == 'delta':
            x, y = a[2]
            for p, q in ((x, y), (y, x)):
                if l in p.labels() and l not in q.labels():
                    s = p.items()
                    rest = p - lab(l)
                    if l not in rest.labels():
                        tgt = q - rest
                        # the delta may select an index outside the range only for
                        # concrete ranges; check those
                        g = Form.build([(c, dm, fa[:i] + fa[i + 1:])])
                        return g.subst({l: tgt})
    if n is not None and n <= 8 and any(_expandable(a, l) for a, e in fa):
        f = Form.build([t])
        r = ZERO
        for i in range(n):
            r = r + f.subst({l: const(i)})
        return r
    # inverse contraction
    L = lab(l).key()
    for i, (a, e) in enumerate(fa):
        if a[0] != 'S' or len(a[2]) < 2 or e != 1 or a[2][-1].key() != L:
            continue
        if any(l in s.labels() for s in a[2][:-1]):
            continue
        for j, (b, e2) in enumerate(fa):
            if i == j or b[0] != 'S' or e2 != 1 or b[1] != inv_name(a[1]) or len(b[2]) != len(a[2]):
                continue
            if b[2][-2].key() != L or l in b[2][-1].labels():
                continue
            if [s.key() for s in a[2][:-2]] != [s.key() for s in b[2][:-2]]:
                continue
            others = [x for k, x in enumerate(fa) if k not in (i, j)]
            if any(l in _al(x) for x, _ in others):
                continue
            g = Form.build([(c, dm, tuple(others))])
            return g * delta(a[2][-2], b[2][-1])
    # C atoms over l: split at segments
    for a, e in fa:
        if a[0] == 'C' and a[1].label() == l:
            segs = list(a[2])
            tot = ZERO
            for ln, sl, sf in segs:
                tot = tot + ln
            d = (tot - length).int_const()
            while d is not None and d > 0 and segs:     # the range may stop before the last segments
                k = segs[-1][0].int_const()
                if k is None:
                    d = None
                elif k <= d:
                    segs.pop()
                    d -= k
                else:
                    segs[-1] = (const(k - d),) + tuple(segs[-1][1:])
                    d = 0
            if d != 0:
                continue
            r = ZERO
            off = ZERO
            f = Form.build([t])
            for ln, sl, sf in segs:
                nl = new_label()
                LABLEN[nl] = ln
                r = r + sum_over(f.subst({l: lab(nl) + off}), nl, ln)
                off = off + ln
            return r
    return _rebind_deltas((c, (dm + ((l, length),)) if not any(l in x.labels() for _, x in dm) else (((l, length),) + dm), fa))


def _rebind_deltas(t):
    """after binding, other dummies may now be eliminable by deltas/inverses"""
    return Form.build([t])


def rebind(form):
    """re-run delta/inverse elimination on all summed labels"""
    out = ZERO
    for c, dm, fa in form.items():
        f = Form.build([(c, (), fa)])
        for d, ln in dm:
            f = sum_over(f, d, ln)
        out = out + f
    return out


def approx_equal(f, g, rtol=1e-5):
    """same monomials, coefficients equal within rtol"""
    if set(f.terms) != set(g.terms):
        return False
    for k in f.terms:
        a, b = f.terms[k][0], g.terms[k][0]
        if abs(a - b) > rtol * max(abs(a), abs(b)):
            return False
    return True


def atoms_of(form, acc=None):
    """all atoms occurring anywhere"""
    if acc is None:
        acc = []
    for c, dm, fa in form.items():
        for a, e in fa:
            _atoms(a, acc)
        for d, ln in dm:
            atoms_of(ln, acc)
    return acc


def _atoms(a, acc):
    acc.append(a)
    t = a[0]
    if t == 'S':
        for s in a[2]:
            atoms_of(s, acc)
    elif t == 'F':
        for s in a[2]:
            if isinstance(s, Form):
                atoms_of(s, acc)
    elif t == 'B':
        atoms_of(a[3], acc)
        for s in a[4]:
            atoms_of(s, acc)
    elif t == 'P':
        atoms_of(a[1], acc)
        for c in a[2]:
            atoms_of(c, acc)
    elif t == 'C':
        atoms_of(a[1], acc)
        for ln, l, f in a[2]:
            atoms_of(ln, acc)
            atoms_of(f, acc)


def symbols_of(form):
    return {a[1] for a in atoms_of(form) if a[0] == 'S'}


# ------------------------------------------------------------- matrix helpers
def mat_inverse(form, i, j, n=None):
    """inverse of the matrix lambda i,j: form ; returns form with labels i,j"""
    s = form.single()
    if s:
        c, dm, fa = s
        dms = {d: ln for d, ln in dm}
        edges = []
        scal = []
        ok = True
        for a, e in fa:
            labs = _al(a)
            inner = labs & (set(dms) | {i, j})
            if not inner:
                scal.append((a, e))
                continue
            if a[0] == 'S' and len(a[2]) >= 2 and e == 1 and full(a[1], n):
                x, y = a[2][-2].label(), a[2][-1].label()
                if x is not None and y is not None and inner == {x, y} and x != y and not any(
                        inner & s_.labels() for s_ in a[2][:-2]):
                    edges.append([x, y, a])
                    continue
            ok = False
            break
        if ok and len(edges) == len(dms) + 1 and all(n is None or ln == n for ln in dms.values()):
            path = []
            cur = i
            left = list(edges)
            while left:
                for ed in left:
                    if ed[0] == cur:
                        path.append((ed[2], False, ed[0], ed[1]))
                        cur = ed[1]
                        left.remove(ed)
                        break
                    if ed[1] == cur:
                        path.append((ed[2], True, ed[1], ed[0]))
                        cur = ed[0]
                        left.remove(ed)
                        break
                else:
                    break
            if not left and cur == j:
                ren = {i: j, j: i}
                fs = [(a, -e) for a, e in scal]
                g = Form.build([(1 / c, (), tuple(fs))])
                for a, tr, x, y in path:
                    x2, y2 = lab(ren.get(x, x)), lab(ren.get(y, y))
                    # element a[..., x, y] (or transposed): inverse has [y, x]
                    nm = 'delta' if a[1] == 'delta' else inv_name(a[1])
                    if not tr:
                        g = g * sym(nm, *a[2][:-2], y2, x2)
                    else:
                        g = g * sym(nm, *a[2][:-2], x2, y2)
                for d, ln in dm:
                    g = sum_over(g, d, ln)
                return g
    a, b = new_label(), new_label()
    if n is not None:
        LABLEN[a] = LABLEN[b] = n
    return binder('inv', (a, b), form.subst({i: lab(a), j: lab(b)}), (lab(i), lab(j)))


def full(name, n):
    """inverses and determinants of named matrices are those of their leading 'dim' rows and columns"""
    if n is None or name == 'delta':
        return True
    c = n.int_const()
    return c is not None and c == META.get(name.replace('inv:', ''), {}).get('dim', 3)


def mat_det(form, i, j, n=None):
    s = form.single()
    if s and not s[1] and n is not None and n.int_const() is not None:
        c, dm, fa = s
        m = None
        scal = []
        for a, e in fa:
            labs = _al(a)
            if labs & {i, j}:
                if m is None and a[0] == 'S' and len(a[2]) >= 2 and e == 1 and full(a[1], n) and \
                        {a[2][-2].label(), a[2][-1].label()} == {i, j}:
                    m = a
                else:
                    m = False
            else:
                scal.append((a, e * n.int_const()))
        if m:
            g = Form.build([(c ** n.int_const(), (), tuple(scal))])
            if m[1] == 'delta':
                return g
            if m[1].startswith('inv:'):
                return g * sym('det:' + m[1][4:], *m[2][:-2]).powr(-1)
            return g * sym('det:' + m[1], *m[2][:-2])
    a, b = new_label(), new_label()
    if n is not None:
        LABLEN[a] = LABLEN[b] = n
    return binder('det', (a, b), form.subst({i: lab(a), j: lab(b)}), ())
