"""Random interpretation of canonical forms (Gulwani & Necula): two element forms extracted from the source are
compared by giving every physical symbol a random value and evaluating both; a polynomial identity that holds in
several independent random models holds with probability ~1, and a difference in one model is a disproof.
Only the extracted forms are evaluated, never the repository's code."""
import cmath, math, random, zlib
from .forms import atoms_of, META, LABLEN, unname, const, lab, ZERO, ONE
from .values import Arr


class Undecided(Exception):
    pass


class BadIndex(Undecided):
    pass


SIZES = dict(NK=3, NB=7, NPW=5, NG=4, NAT=3, NSYM=3, NTAB=3, NIRR=3, RL=60, NTYP=2, NA=1, NATT=3, NSPEC=2, NBUP=6, NBDW=5)


SEEN = None      # (sizes, special) of the models made, if wanted


class Model:
    cut = False       # read arrays that end early (slices beyond the end of an axis) as shorter ones

    def __init__(self, seed, sizes=None, **special):
        if SEEN is not None:
            SEEN[tuple(sorted(special)), str(sizes), tuple(getattr(x, '__code__', x) for x in special.values())] = seed, sizes, special
        self.seed = seed
        self.sizes = dict(SIZES)
        self.sizes.update(sizes or {})
        self.special = special        # symbol name -> fn(args) -> value
        self.cache = {}
        self.mats = {}
        self.budget = 400000
        self.pivot_used = False
        self.foldctx = {}
        self.fsig = ()
        self.depmemo = {}

    # ---- symbols
    def rnd(self, *key):
        return random.Random(zlib.crc32(repr((self.seed,) + key).encode()))

    def sym(self, name, args=()):
        k = (name, args)
        if k in self.cache:
            return self.cache[k]
        v = self._sym(name, args)
        self.cache[k] = v
        return v

    def _sym(self, name, args):
        if name in self.special:
            f = self.special[name]
            return f(self, *args) if getattr(f, 'withM', False) else f(*args)
        if name in self.sizes:
            return self.sizes[name]
        if name == 'delta':
            return 1 if abs(args[0] - args[1]) < 1e-9 else 0
        if name == 'nan':
            return float('nan')
        if '#' in name or '?' in name or name in ('undef', 'eps'):
            raise Undecided('symbol ' + name)
        if name.startswith('inv:') or name.startswith('det:'):
            return self.invdet(name, args)
        m = META.get(name, {})
        for a in args:
            if isinstance(a, float) and abs(a - round(a)) > 1e-9:
                raise BadIndex('index %r of %s' % (a, name))
            if isinstance(a, complex):
                raise BadIndex('index')
        args = tuple(int(round(a)) for a in args)
        return self._sym0(name, args)

    def _sym0(self, name, args):
        m = META.get(name, {})
        r = self.rnd(name, args)
        if m.get('int'):
            return r.randint(-3, 4) if args else r.randint(2, 5)
        if m.get('real', True):
            return r.choice((-1, 1)) * r.uniform(0.3, 2.0) if args else r.uniform(0.3, 2.0)
        return complex(r.uniform(-1.5, 1.5), r.uniform(-1.5, 1.5))

    def invdet(self, name, args):
        base = name[4:]
        pre = args[:-2] if name.startswith('inv:') else args
        k = ('mat', base, pre)
        if k not in self.mats:
            n = META.get(base, {}).get('dim', 3)
            m = [[complex(self.sym(base, pre + (i, j))) for j in range(n)] for i in range(n)]
            self.mats[k] = (inv(m), det(m))
        iv, d = self.mats[k]
        if name.startswith('det:'):
            return clean(d)
        i, j = int(round(args[-2])), int(round(args[-1]))
        if not (0 <= i < len(iv) and 0 <= j < len(iv)):
            raise BadIndex('matrix index')
        return clean(iv[i][j])

    # ---- forms
    def ev(self, form, env):
        self.budget -= 1
        if self.budget < 0:
            raise Undecided('evaluation budget')
        tot = 0
        for c, dm, fa in form.items():
            tot = tot + self.term(c, dm, fa, env)
        return clean(tot)

    def term(self, c, dm, fa, env):
        if not dm:
            v = c
            for a, e in fa:
                x = self.atom(a, env)
                if x == 0 and e > 0:
                    return 0
                v = v * power(x, e)
            return v
        i = 0
        if len(dm) > 1:
            ds = {d for d, _ in dm}
            i = next((j for j, (d, ln) in enumerate(dm) if not (ln.labels() & ds)), 0)
        (d, ln), rest = dm[i], dm[:i] + dm[i + 1:]
        n = self.size(ln, env)
        tot = 0
        env = dict(env)
        for i in range(n):
            env[d] = i
            tot = tot + self.term(c, rest, fa, env)
        return tot

    def size(self, ln, env):
        n = self.ev(ln, env)
        if isinstance(n, complex) or abs(n - round(n)) > 1e-6 or n < 0 or n > 4000:
            raise Undecided('size')
        return int(round(n))

    def atom(self, a, env):
        t = a[0]
        if t == 'L':
            if a[1] not in env:
                raise Undecided('free label')
            return env[a[1]]
        if t == 'S':
            if '#' in a[1]:
                meta = META.get(a[1], {})
                body = meta.get('body')
                if body is None and 'fold' in meta:
                    return self.fold(a[1], meta['fold'], [self.ev(x, env) for x in a[2]])
                if a[1] in self.foldctx:
                    F, n, fenv, memo = self.foldctx[a[1]]
                    return self.fold_at(F, F['vars'].index(a[1]), n, tuple(idx(self.ev(x, env)) for x in a[2]), fenv, memo)
                if body:
                    name, labels, form, free = body
                    sv = [self.ev(x, env) for x in a[2]]
                    fv = tuple(idx(x) for x in sv[:len(free)])
                    return self._B(name, labels, form, sv[len(free):], dict(zip(free, fv)), (a[1], fv, self.sig(a[1])) if self.fsig else (a[1], fv))
            return self.sym(a[1], tuple(idx(self.ev(s, env)) for s in a[2]))
        if t == 'F':
            return self.atomF(a[1], a[2], env)
        if t == 'P':
            i = self.ev(a[1], env)
            i = int(round(i))
            if i < 0:
                i += len(a[2])
            if not 0 <= i < len(a[2]):
                raise BadIndex('pick index')
            return self.ev(a[2][i], env)
        if t == 'C':
            i = self.ev(a[1], env)
            i = int(round(i))
            tot = [self.size(s[0], env) for s in a[2]]
            if i < 0:
                i += sum(tot)
            for n, (ln, l, f) in zip(tot, a[2]):
                if i < n:
                    e = dict(env)
                    e[l] = i
                    return self.ev(f, e)
                i -= n
            raise BadIndex('cat index')
        if t == 'B':
            return self.atomB(a, env)
        raise Undecided(t)

    def atomF(self, n, args, env):
        if n == 'ite':
            c = self.ev(args[0], env)
            return self.ev(args[1] if truth(c) else args[2], env)
        if n == 'upd':
            l, at = self.ev(args[0], env), self.ev(args[1], env)
            return self.ev(args[2] if abs(l - at) < 1e-9 else args[3], env)
        if n == 'phi':
            r = self.rnd('phi', tuple(x.key() for x in args))
            return self.ev(r.choice(args), env)
        if n == 'and':
            return int(all(truth(self.ev(x, env)) for x in args))
        if n == 'or':
            return int(any(truth(self.ev(x, env)) for x in args))
        if n in ('setlen', 'setel'):
            xs = []
            for x in args[n == 'setel':]:
                x = self.ev(x, env)
                if all(abs(x - y) > 1e-9 for y in xs):
                    xs.append(x)
            if n == 'setlen':
                return len(xs)
            k = int(round(complex(self.ev(args[0], env)).real))
            if not 0 <= k < len(xs):
                raise Undecided('element of a set')
            return xs[k]
        v = [self.ev(x, env) if not isinstance(x, (str, int, float)) else x for x in args]
        f = FN.get(n)
        if f is None:
            raise Undecided('function ' + n)
        try:
            return f(*v)
        except (TypeError, ValueError, ZeroDivisionError, OverflowError) as e:
            raise Undecided('%s: %s' % (n, e))

    def sig(self, name):
        """the enclosing loop steps the value of a named form depends on"""
        if not self.fsig:
            return ()
        seen = self.depmemo.get(name)
        if seen is None:
            seen, labs, todo = set(), set(), [name]
            while todo:
                x = todo.pop()
                if x in seen:
                    continue
                seen.add(x)
                meta = META.get(x, {})
                F = self.foldctx[x][0] if x in self.foldctx else meta.get('fold')
                fs, ls = [], []
                if F is not None:
                    for lb, body, old in F['body']:
                        fs += [body, old]
                        ls += list(lb)
                    fs.append(F['length'])
                    todo += [y for y in F['vars']]
                elif meta.get('body'):
                    fs, ls = [meta['body'][2]], list(meta['body'][1])
                while fs or ls:
                    for f in fs:
                        for a in atoms_of(f):
                            if a[0] == 'S':
                                todo.append(a[1])
                            elif a[0] == 'L':
                                ls.append(a[1])
                            elif a[0] == 'B':
                                ls += list(a[2])
                    fs = [LABLEN[l] for l in set(ls) - labs if l in LABLEN]
                    labs |= set(ls)
                    ls = []
            self.depmemo[name] = seen
        return tuple(x for x in self.fsig if x[0] in seen)

    def fold(self, nm, F, sv):
        """value of a loop-carried variable after all iterations"""
        free = F['free']
        fv = tuple(idx(x) for x in sv[:len(free)])
        env = dict(zip(free, fv))
        memo = self.cache.setdefault(('fold', nm, fv, self.sig(nm)), {})
        return self.fold_at(F, F['which'], self.size(F['length'], env), tuple(idx(x) for x in sv[len(free):]), env, memo)

    def fold_at(self, F, v, n, ix, env, memo):
        key = (v, n, ix)
        if key in memo:
            return memo[key]
        labels, body, old = F['body'][v]
        e = dict(env)
        e.update(zip(labels, ix))
        ctx, sig = self.foldctx, self.fsig
        try:
            if n == 0:
                r = self.ev(old, e)
            else:
                e[F['m']] = n - 1
                self.foldctx = dict(ctx)
                for x in F['vars']:
                    self.foldctx[x] = (F, n - 1, env, memo)
                self.fsig = sig + ((F['vars'][0], n - 1, tuple(sorted(env.items()))),)
                r = self.ev(body, e)
        finally:
            self.foldctx, self.fsig = ctx, sig
        memo[key] = r
        return r

    def vals(self, labels, form, env):
        """list over the (single) bound label"""
        l = labels[0]
        if l not in LABLEN:
            raise Undecided('range')
        n = self.size(LABLEN[l], env)
        out = []
        e = dict(env)
        for i in range(n):
            e[l] = i
            out.append(self.ev(form, e))
        return out

    def all(self, labels, form, env):
        if not labels:
            return [self.ev(form, env)]
        l = labels[0]
        if l not in LABLEN:
            raise Undecided('range')
        out = []
        e = dict(env)
        for i in range(self.size(LABLEN[l], env)):
            e[l] = i
            out += self.all(labels[1:], form, e)
        return out

    def atomB(self, a, env):
        _, name, labels, form, slots = a
        s = [self.ev(x, env) for x in slots]
        key = None
        if not (form.labels() - set(labels)):
            key = ('B', name, labels, form.key(), tuple(s), self.fsig)
            if key in self.cache:
                return self.cache[key]
        v = self._B(name, labels, form, s, env)
        if key is not None:
            self.cache[key] = v
        return v

    def _B(self, name, labels, form, s, env, ck=None):
        if ck is not None and name in ('any', 'all', 'max', 'min', 'mean', 'prod', 'sum', 'count', 'argmax', 'argmin'):
            if ck not in self.cache:
                self.cache[ck] = self._B(name, labels, form, s, env)
            return self.cache[ck]
        if name in ('any', 'all', 'max', 'min', 'mean', 'prod', 'sum'):
            x = self.all(labels, form, env)
            if name == 'any':
                return int(any(truth(v) for v in x))
            if name == 'all':
                return int(all(truth(v) for v in x))
            if not x:
                if name == 'prod':
                    return 1
                if name == 'sum':
                    return 0
                raise BadIndex('empty ' + name)
            if name == 'prod':
                p = 1
                for v in x:
                    p = p * v
                return p
            if name == 'mean':
                return sum(x) / len(x)
            if name != 'sum' and any(isinstance(v, complex) or v != v for v in x):
                raise Undecided('order of complex numbers or nan')
            return {'max': max, 'min': min, 'sum': sum}[name](x)
        if name == 'count':
            return sum(1 for v in self.vals(labels, form, env) if truth(v))
        if name == 'distinct':
            return len({complex(round(complex(v).real, 9), round(complex(v).imag, 9)) for v in self.vals(labels, form, env)})
        if name in ('where', 'argsort', 'sort', 'cumsum', 'nesto', 'nesti'):
            i = int(round(s[0]))
            w = self.cache.get(('list', ck)) if ck is not None else None
            if w is None:
                w = self.listof(name, labels, form, env)
                if ck is not None:
                    self.cache[('list', ck)] = w
            if not -len(w) <= i < len(w):
                raise BadIndex(name)
            return w[i]
        if name in ('argmax', 'argmin'):
            x = self.vals(labels, form, env)
            if not x:
                raise BadIndex(name)
            return x.index(max(x) if name == 'argmax' else min(x))
        if name in ('inv', 'det', 'expm'):
            m = self.matrix(labels, form, env)
            if name == 'det':
                return clean(det(m))
            r = inv(m) if name == 'inv' else expm(m)
            return clean(r[int(round(s[0]))][int(round(s[1]))])
        if name in ('fftn', 'ifftn'):
            ns = [self.size(LABLEN[l], env) for l in labels]
            key = ('fft', name, labels, form.key(), tuple((l, env[l]) for l in sorted(form.labels() - set(labels)) if l in env), self.fsig)
            data = self.cache.get(key)
            if data is None:
                data = self.grid(labels, ns, form, env)
                self.cache[key] = data
            sg = -1 if name == 'fftn' else 1
            t = 0
            for pos, v in data:
                t += v * cmath.exp(sg * 2j * math.pi * sum(k.real * r / n for k, r, n in zip(s, pos, ns)))
            return clean(t / (1 if name == 'fftn' else math.prod(ns)))
        if name in ('eigvals', 'eigvecs', 'eigvalsh', 'eigvecsh', 'svdU', 'svdS', 'svdV', 'svdu', 'svdv'):
            kind = {'eigvals': 'eig', 'eigvecs': 'eig', 'eigvalsh': 'eigh', 'eigvecsh': 'eigh'}.get(name, 'svd' if name[3] in 'USV' else 'svdr')
            fk = form.key({l: 'x%d' % i for i, l in enumerate(labels)}) + '|' + ','.join(LABLEN[l].key() for l in labels)
            key = (kind, fk, tuple((l, env[l]) for l in sorted(form.labels() - set(labels)) if l in env), self.fsig)
            data = self.cache.get(key)
            if data is None:
                data = self.cache[key] = self.decompose(kind, self.matrix(labels, form, env, kind[:3] != 'svd'), key)
            q = {'eigvals': 0, 'eigvecs': 1, 'eigvalsh': 0, 'eigvecsh': 1, 'svdS': 1, 'svdU': 0, 'svdu': 0}.get(name, 2)
            r = data[q]
            for i in s[:1 if name in ('eigvals', 'eigvalsh', 'svdS') else 2]:
                i = int(round(i))
                if not -len(r) <= i < len(r):
                    raise BadIndex(name)
                r = r[i]
            return clean(r)
        raise Undecided('binder ' + name)

    def grid(self, labels, ns, form, env):
        import itertools
        out = []
        e = dict(env)
        for pos in itertools.product(*(range(n) for n in ns)):
            for l, i in zip(labels, pos):
                e[l] = i
            out.append((pos, self.ev(form, e)))
        return out

    def listof(self, name, labels, form, env):
        x = self.vals(labels, form, env)
        if name == 'where':
            w = [j for j, v in enumerate(x) if truth(v)]
        elif name == 'argsort':
            w = sorted(range(len(x)), key=lambda j: (x[j], j))
        elif name == 'sort':
            w = sorted(x)
        elif name == 'cumsum':
            w, t = [], 0
            for v in x:
                t = t + v
                w.append(t)
        else:
            w = []
            for j, v in enumerate(x):
                for q in range(int(round(v))):
                    w.append(j if name == 'nesto' else q)
        return w

    def decompose(self, kind, m, key):
        """eigenvectors and singular vectors are returned with arbitrary phases (and order, where none is defined)"""
        from . import linalg
        if kind == 'eig' and '%eig' in self.special:
            return self.special['%eig'](self, m)
        r = self.rnd(*key)
        try:
            if kind == 'eig':
                return linalg.eig(m, r)
            ph = [cmath.exp(2j * math.pi * r.random()) if any(x.imag for q in m for x in q) else r.choice((-1, 1)) for _ in range(max(len(m), len(m[0])))]
            if kind == 'eigh':
                w, v = linalg.eigh(m)
                return w, [[x * p for x, p in zip(q, ph)] for q in v]
            U, S, V = linalg.svd(m, kind == 'svd')
            k = len(S)
            return [[x * p for x, p in zip(q, ph)] for q in U], S, [[x / (p if i < k else 1) for x in q] for i, (q, p) in enumerate(zip(V, ph))]
        except (ValueError, ZeroDivisionError, OverflowError) as x:
            raise Undecided(str(x))

    def matrix(self, labels, form, env, square=True):
        n = self.size(LABLEN[labels[0]], env)
        m = self.size(LABLEN[labels[1]], env)
        if n != m and square:
            raise Undecided('not square')
        e = dict(env)
        out = []
        for i in range(n):
            row = []
            for j in range(m):
                e[labels[0]], e[labels[1]] = i, j
                row.append(complex(self.ev(form, e)))
            out.append(row)
        return out

    # ---- abstract values
    def arr(self, v, env=None):
        """nested lists for an Arr (numbers for 0-d)"""
        if not isinstance(v, Arr):
            raise Undecided('not an array')
        if v.form is None:
            raise Undecided('unknown element')
        return self._arr(list(v.axes), v.form, dict(env or {}))

    def _arr(self, axes, form, env):
        if not axes:
            return self.ev(form, env)
        (l, n), rest = axes[0], axes[1:]
        out = []
        for i in range(self.size(n, env)):
            env[l] = i
            try:
                out.append(self._arr(rest, form, env))
            except BadIndex:
                # numpy cuts slices at the end of the axis
                if not self.cut or not out:
                    raise
                break
        return out


class Closed(Model):
    """evaluation of forms without any unknown"""

    def _sym(self, name, args):
        if name in ('delta', 'nan'):
            return Model._sym(self, name, args)
        raise Undecided('symbol ' + name)


_CL = {}


def closed(f):
    """value of a form without unknowns, or None"""
    c = f.const()
    if c is not None:
        return c
    k = f.key()
    if k not in _CL:
        if len(_CL) > 100000:
            _CL.clear()
        try:
            _CL[k] = Closed(1).ev(f, {}) if not f.labels() else None
        except (Undecided, BadIndex, ArithmeticError, ValueError, TypeError, KeyError, IndexError, AttributeError):
            _CL[k] = None
    return _CL[k]


def truth(v):
    return abs(v) > 1e-12


def idx(v):
    if isinstance(v, complex):
        raise BadIndex('complex index')
    r = round(v)
    if abs(v - r) < 1e-9:
        return int(r)
    return v


def ordered(f, x):
    if any(isinstance(v, complex) or v != v for v in x):
        raise Undecided('order of complex numbers or nan')
    return f(x)


def lex(v):
    """order of numpy, lexicographic for complex numbers"""
    return (v.real, v.imag)


def clean(v):
    if isinstance(v, complex):
        if v.imag == 0 or abs(v.imag) < 1e-13 * max(1.0, abs(v.real)):
            v = v.real
        elif v.imag != v.imag and (v.real != v.real or math.isinf(v.real)):
            v = v.real           # nan or inf multiplied by a complex coefficient
    return v


def power(x, e):
    if e == 1:
        return x
    if x == 0 and e < 0:
        raise Undecided('division by zero')
    if e.denominator == 1:
        return x ** int(e)
    if isinstance(x, complex) or x < 0:
        return complex(x) ** float(e)
    return x ** float(e)


def det(m):
    m = [list(r) for r in m]
    n = len(m)
    d = 1
    for c in range(n):
        p = max(range(c, n), key=lambda r: abs(m[r][c]))
        if abs(m[p][c]) < 1e-14:
            return 0
        if p != c:
            m[p], m[c] = m[c], m[p]
            d = -d
        d = d * m[c][c]
        for r in range(c + 1, n):
            f = m[r][c] / m[c][c]
            for k in range(c, n):
                m[r][k] -= f * m[c][k]
    return d


def inv(m):
    n = len(m)
    a = [list(r) + [1 if i == j else 0 for j in range(n)] for i, r in enumerate(m)]
    for c in range(n):
        p = max(range(c, n), key=lambda r: abs(a[r][c]))
        if abs(a[p][c]) < 1e-14:
            raise Undecided('singular')
        a[p], a[c] = a[c], a[p]
        q = a[c][c]
        a[c] = [x / q for x in a[c]]
        for r in range(n):
            if r != c:
                f = a[r][c]
                a[r] = [x - f * y for x, y in zip(a[r], a[c])]
    return [r[n:] for r in a]


def matmul(a, b):
    return [[sum(x * y for x, y in zip(r, c)) for c in zip(*b)] for r in a]


def expm(m):
    n = len(m)
    k = 0
    nrm = max(sum(abs(x) for x in r) for r in m)
    while nrm > 0.5:
        nrm /= 2
        k += 1
    m = [[x / 2 ** k for x in r] for r in m]
    r = [[1.0 if i == j else 0.0 for j in range(n)] for i in range(n)]
    t = r
    for i in range(1, 20):
        t = [[x / i for x in q] for q in matmul(t, m)]
        r = [[x + y for x, y in zip(p, q)] for p, q in zip(r, t)]
    for _ in range(k):
        r = matmul(r, r)
    return r


def _real(x):
    return x.real if isinstance(x, complex) else x


def hashval(*a):
    """an arbitrary (generic) complex function of its arguments"""
    k = repr([(round(complex(x).real, 5) + 0.0, round(complex(x).imag, 5) + 0.0) for x in a])
    r = random.Random(zlib.crc32(k.encode()))
    return complex(r.uniform(-1.5, 1.5), r.uniform(-1.5, 1.5))


FN = {
    'H': hashval, 'Hr': lambda *a: hashval(*a).real,
    'exp': lambda x: cmath.exp(x) if isinstance(x, complex) else math.exp(x),
    'conj': lambda x: x.conjugate() if isinstance(x, complex) else x,
    'abs': abs, 'real': _real, 'imag': lambda x: x.imag if isinstance(x, complex) else 0,
    'mod': lambda x, y: x % y, 'floordiv': lambda x, y: x // y,
    'round': lambda x, *d: round(x), 'floor': math.floor, 'ceil': math.ceil, 'int': lambda x: int(x),
    'roundto': lambda x, d: complex(round(x.real, int(d)), round(x.imag, int(d))) if isinstance(x, complex) else round(x, int(d)),
    'lt': lambda x, y: int(lex(x) < lex(y)), 'le': lambda x, y: int(lex(x) <= lex(y)),
    'eq': lambda x, y: int(x == y or abs(x - y) < 1e-12), 'ne': lambda x, y: int(x != y and abs(x - y) >= 1e-12),
    'not': lambda x: int(not truth(x)), 'bool': lambda x: int(truth(x)),
    'angle': lambda x: cmath.phase(x), 'max': lambda *x: ordered(max, x), 'min': lambda *x: ordered(min, x),
    'maximum': max, 'minimum': min, 'pow': lambda x, y: complex(x) ** y if not isinstance(x, complex) and x < 0 and y != int(y) else x ** y,
    'sin': lambda x: cmath.sin(x) if isinstance(x, complex) else math.sin(x),
    'cos': lambda x: cmath.cos(x) if isinstance(x, complex) else math.cos(x),
    'tan': math.tan, 'log': math.log, 'sqrt': lambda x: cmath.sqrt(x) if isinstance(x, complex) or x < 0 else math.sqrt(x),
    'sign': lambda x: (x > 0) - (x < 0), 'arccos': math.acos, 'arcsin': math.asin, 'arctan': math.atan, 'grp': lambda x: x,
    'arctan2': math.atan2, 'isnan': lambda x: int(x != x), 'isclose': lambda d, tol=1e-5: int(abs(d) <= complex(tol).real),
}


def flat(x):
    if isinstance(x, (list, tuple)):
        for y in x:
            yield from flat(y)
    else:
        yield x


def shape(x):
    s = []
    while isinstance(x, (list, tuple)):
        s.append(len(x))
        if not x:
            break
        x = x[0]
    return tuple(s)


def close(a, b, tol=1e-6):
    """nested lists equal up to a relative tolerance"""
    if shape(a) != shape(b):
        return False
    for x, y in zip(flat(a), flat(b)):
        if x != x and y != y:
            continue
        if not abs(x - y) <= tol * max(1.0, abs(x), abs(y)):
            return False
    return True


def compare(v, spec, tol=1e-6, seeds=(1, 2, 3, 4, 5), sizes=None, post=None, **special):
    """v: abstract array; spec: fn(Model) -> nested list.  ('ok'|'differs'|'undecided', detail)"""
    done = 0
    why = ''
    for s in seeds:
        M = Model(s, sizes, **special)
        try:
            a = M.arr(v) if isinstance(v, Arr) else v(M)
            b = spec(M)
        except Undecided as e:
            why = str(e)
            continue
        if post:
            a, b = post(a), post(b)
        if not close(a, b, tol):
            return 'differs', 'model %d: extracted %s, required %s' % (s, short(a), short(b))
        done += 1
    if done and isinstance(v, Arr):
        # both sides of every comparison of an input with a constant
        for name, val, integer in pivots(v.form, special):
            M = Model(97, sizes, **{**special, name: pivot_sym(name, val, integer)})
            try:
                a, b = M.arr(v), spec(M)
            except (Undecided, ZeroDivisionError, OverflowError, ValueError):
                continue
            if not M.pivot_used:
                continue
            if post:
                a, b = post(a), post(b)
            if not close(a, b, tol):
                return 'differs', 'model with %s = %.5g: extracted %s, required %s' % (name, val, short(a), short(b))
            done += 1
    return ('ok', '%d models' % done + (' ; not every model evaluated: ' + why if why else '')) if done else ('undecided', why)


def pivots(form, special):
    from .forms import atoms_of
    out = []
    seen = set()
    if form is None:
        return out
    for a in atoms_of(form):
        if a[0] != 'F' or a[1] not in ('lt', 'le', 'eq', 'ne', 'isclose'):
            continue
        xs = a[2]
        if len(xs) == 2 and a[1] != 'isclose':
            d = xs[0] - xs[1]
        elif a[1] == 'isclose':
            d = xs[0]
        elif len(xs) == 1:
            d = xs[0]
        else:
            continue
        b, lin = 0.0, []
        for c, dm, fa in d.items():
            if not fa and not dm:
                b = c
            else:
                lin.append((c, dm, fa))
        if len(lin) != 1 or lin[0][1] or len(lin[0][2]) != 1:
            continue
        (at, e), c = lin[0][2][0], lin[0][0]
        if e != 1 or at[0] != 'S' or abs(complex(b).imag) > 0 or abs(complex(c).imag) > 0 or '#' in at[1] or ':' in at[1]:
            continue
        name = at[1]
        if name in special or name in SIZES or name in ('delta', 'nan', 'undef', 'eps'):
            continue
        p = -complex(b).real / complex(c).real
        integer = bool(META.get(name, {}).get('int'))
        vals = [p - 1, p, p + 1] if integer else [p, p * 1.4 + 0.2, p * 0.6 - 0.2]
        for x in vals:
            if not at[2] and x <= 0 or (name, x) in seen:
                continue
            seen.add((name, x))
            out.append((name, x, integer))
    return out[:24]


def pivot_sym(name, val, integer):
    def f(M, *args):
        M.pivot_used = True
        if not args:
            return int(round(val)) if integer else val
        r = M.rnd('pivot', name, args)
        if r.random() < 0.5:
            return int(round(val)) if integer else val
        return M._sym0(name, tuple(int(round(a.real if isinstance(a, complex) else a)) for a in args))
    f.withM = True
    return f


def short(x):
    def f(v):
        if isinstance(v, (list, tuple)):
            return '[' + ','.join(f(y) for y in v[:4]) + (',..' if len(v) > 4 else '') + ']'
        return '%.5g' % v if not isinstance(v, complex) else '%.4g%+.4gj' % (v.real, v.imag)
    t = f(x)
    return t if len(t) < 240 else t[:240] + '..'
