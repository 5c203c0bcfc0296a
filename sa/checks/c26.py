"""C26: axis, angle, inversion, spinor matrix and reduced translation of every operation are those of its rotation"""
import itertools, cmath, math, random, re
from .kp import *
from .out import whole, outputs, render, NUM
from ..drivers import go, new_run, method as call_method
from ..pyval import pyval, diff
from ..linalg import eig, mul, herm, eye

EXPLANATION = ('The constructor of SymmetryOperation is interpreted once on a symbolic rotation, translation and cell; the attributes it stores are closed forms of them, which are evaluated '
               'for the 64 rotations and rotoinversions that can occur in a crystal, in primitive cells of all lattices, with random orientation in space and both handednesses, '
               'with the eigenvectors in any order, sign and phase. Required: Rodrigues formula, unit axis, angle in (-pi, pi], spinor matrix exp(-i angle/2 axis.sigma), '
               'translation in [0,1). The printed angle is interpreted operation by operation.')
ASSUMPTIONS = ('numpy.linalg.eig returns eigenvectors of unit norm, real ones for real eigenvalues of a real matrix, in any order',)

declare('symR0', integer=True)
declare('symt0')

W = 'irrep/spacegroup.py:SymmetryOperation.__init__'


def cubic():
    out = []
    for p in itertools.permutations(range(3)):
        for s in itertools.product((1, -1), repeat=3):
            out.append([[float(s[i]) if p[i] == j else 0. for j in range(3)] for i in range(3)])
    return out


def hexagonal():
    out = []
    for n in range(6):
        c, s = math.cos(n * PI / 3), math.sin(n * PI / 3)
        for f in (1, -1):
            for i in (1, -1):
                # rotation about z, optionally after a two-fold rotation about x, optionally times the inversion
                out.append([[i * c, -i * s * f, 0.], [i * s, i * c * f, 0.], [0., 0., float(i * f)]])
    return out


BASES = [
    ('cP', cubic(), [[1, 0, 0], [0, 1, 0], [0, 0, 1]]),
    ('cF', cubic(), [[0, .5, .5], [.5, 0, .5], [.5, .5, 0]]),
    ('cI', cubic(), [[-.5, .5, .5], [.5, -.5, .5], [.5, .5, -.5]]),
    ('hP', hexagonal(), [[1, 0, 0], [-.5, math.sqrt(3) / 2, 0], [0, 0, 1.63]]),
]


def orthogonal(r):
    """random rotation, of either handedness"""
    while True:
        q = [r.gauss(0, 1) for _ in range(4)]
        n = math.sqrt(sum(x * x for x in q))
        if n > .1:
            break
    w, x, y, z = (a / n for a in q)
    R = [[1 - 2 * (y * y + z * z), 2 * (x * y - z * w), 2 * (x * z + y * w)], [2 * (x * y + z * w), 1 - 2 * (x * x + z * z), 2 * (y * z - x * w)],
         [2 * (x * z - y * w), 2 * (y * z + x * w), 1 - 2 * (x * x + y * y)]]
    return [[-a for a in q] for q in R] if r.random() < .5 else R


class Case:
    """operation n of a point group, in a cell oriented at random (or along the axes)"""

    def __init__(self, lattice, n, seed):
        self.name = '%s,%d,%d' % (lattice[0], n, seed)
        r = random.Random(seed * 1009 + n * 31 + len(lattice[1]))
        Q = orthogonal(r) if seed else eye(3)
        a = r.uniform(2, 9)
        B = lattice[2]
        if seed > 1:
            # another primitive cell of the same lattice
            U = [[1, 0, 0], [0, 1, 0], [0, 0, 1]]
            for _ in range(2):
                i, j = r.sample(range(3), 2)
                k = r.choice((-1, 1))
                U[i] = [x + k * y for x, y in zip(U[i], U[j])]
            B = mul(U, B)
        R0 = lattice[1][n]
        self.L = [[a * x for x in v] for v in mul(B, T(Q))]               # rows: vectors
        self.cart = mul(mul(Q, R0), T(Q))
        LT = T(self.L)
        R = mul(mul(real(inv([[complex(x) for x in v] for v in LT])), self.cart), LT)
        self.R = [[int(round(x)) for x in v] for v in R]
        assert max(abs(x - y) for v, w in zip(R, self.R) for x, y in zip(v, w)) < 1e-6
        self.det = 1 if det(self.cart) > 0 else -1
        self.t = [r.choice((0., .5, -.25, 1 / 3., -2 / 3., 1.75, -1e-9, 1e-9, 2 - 1e-8, -3 + 1e-9)) if r.random() < .7 else r.uniform(-2, 3) for _ in range(3)]
        self.seed = seed

    def model(self):
        return Model(self.seed + 1, None, symR0=lambda i, j: self.R[i][j], symt0=lambda i: self.t[i], L=lambda i, j: self.L[i][j],
                     **{'%eig': lambda M, m: self.eig(m)})

    def eig(self, m):
        try:
            return eig(m, random.Random(self.name))
        except (ValueError, ZeroDivisionError) as x:
            raise Undecided(str(x))

    def __call__(self, form):
        """premise: decides the branches"""
        try:
            return bool(abs(complex(self.model().ev(form, {}))) > 1e-12)
        except (Undecided, ZeroDivisionError, OverflowError):
            return None


def det(m):
    return sum(m[0][i] * (m[1][(i + 1) % 3] * m[2][(i + 2) % 3] - m[1][(i + 2) % 3] * m[2][(i + 1) % 3]) for i in range(3))


def rodrigues(n, a):
    K = [[0, -n[2], n[1]], [n[2], 0, -n[0]], [-n[1], n[0], 0]]
    K2 = mul(K, K)
    return [[(i == j) + math.sin(a) * K[i][j] + (1 - math.cos(a)) * K2[i][j] for j in range(3)] for i in range(3)]


def make(name, spinor, case=None):
    run = new_run(name, World('espresso', spinor))
    run.st = State({}, {})
    if case is not None:
        run.I.premise = case
    return go(run, 'irrep.spacegroup:SymmetryOperation', [mk('symR0', 3, 3, dtype='i'), mk('symt0', 3, dtype='f'), mk('L', 3, 3)],
              dict(ind=scal(const(7), 'i'), spinor=boolv(spinor)), run.st)


def attr(run, M, name):
    r = run.I.rec(getattr(run, 'op', None) or run.result, run.st)
    if name not in r.attrs:
        raise Undecided('no attribute ' + name)
    return pyval(M, run, r.attrs[name])


def vec3(v):
    v = [complex(x) for x in v]
    if any(abs(x.imag) > 1e-9 for x in v):
        return None
    return [x.real for x in v]


def geometry(c, inversion, axis, angle):
    if bool(inversion) != (c.det < 0):
        return 'inversion is %s for determinant %d' % (bool(inversion), c.det)
    n = vec3(axis)
    if n is None or len(n) != 3:
        return 'axis %s' % (axis,)
    if abs(sum(x * x for x in n) - 1) > 1e-6:
        return 'axis %s is not a unit vector' % (n,)
    a = complex(angle)
    if abs(a.imag) > 1e-9 or not -PI + 1e-6 < a.real < PI + 1e-6:
        return 'angle %s' % angle
    want = [[c.det * x for x in r] for r in c.cart]
    if abs(a.real * 6 / PI - round(a.real * 6 / PI)) > 1e-6:
        return 'angle %s is not a multiple of pi/6' % angle
    return diff(rodrigues(n, a.real), want, 1e-5, 'rotation by %.5g about %s' % (a.real, ['%.4f' % x for x in n]))


def spinor_matrix(n, a):
    c, s = math.cos(a / 2), math.sin(a / 2)
    return [[c - 1j * s * n[2], -1j * s * n[0] - s * n[1]], [-1j * s * n[0] + s * n[1], c + 1j * s * n[2]]]


def reduced(c, t):
    t = vec3(t)
    if t is None:
        return 'translation'
    for x, y in zip(t, c.t):
        if not (-1e-12 <= x < 1) or x > 1 - 1e-6:
            return 'translation %r stored as %r' % (y, x)
        if abs((x - y + .5) % 1 - .5) > 1.1e-5:
            return 'translation %r stored as %r' % (y, x)


def cases(thorough):
    for l in BASES:
        for n in range(len(l[1])):
            for seed in (range(6) if thorough else range(2) if l[0] in ('cF', 'hP') else (2,)):
                yield Case(l, n, seed)


def turns(text):
    """angle in units of pi which a text shows"""
    m = re.fullmatch(r'\s*([-+]?\d*\.?\d*)\s*(?:/\s*(\d+))?\s*(pi|π)?\s*(?:/\s*(\d+))?\s*', text)
    if not m:
        raise Undecided('text %r' % text)
    a = m.group(1)
    v = float(a + '1' if a in ('', '-', '+') else a)
    for d in (m.group(2), m.group(4)):
        if d:
            v /= int(d)
    return v if m.group(3) else v / PI


def run(ctx):
    for spinor in (False, True):
        tag = '[soc]' if spinor else '[scalar]'
        r = ctx.run(make('SymmetryOperation' + tag, spinor))
        rules = dict(geometry='inversion is det < 0 and the rotation about axis by angle is +-R', spinor='exp(-i angle/2 axis.sigma), a proper SU(2) matrix', translation='in [0,1), integers are 0',
                     stored='rotation, index and kind of the arguments')
        if r.aborted or not isinstance(r.result, Ref):
            for k in rules:
                ctx.ob(k + tag, *stopped(r), W, rules[k])
            continue
        res = {k: [0, '', None] for k in rules}
        for c in cases(ctx.thorough):
            M = c.model()

            def geo():
                return geometry(c, attr(r, M, 'inversion'), attr(r, M, 'axis'), attr(r, M, 'angle'))

            def spi():
                n, a = vec3(attr(r, M, 'axis')), complex(attr(r, M, 'angle')).real
                return diff(attr(r, M, 'spinor_rotation'), spinor_matrix(n, a), 1e-6, 'spinor matrix')

            def sto():
                return diff(attr(r, M, 'rotation'), c.R, path='rotation') or diff(attr(r, M, 'ind'), 7, path='ind') or diff(attr(r, M, 'sign'), 1, path='sign') or \
                    (None if bool(attr(r, M, 'spinor')) == spinor else 'spinor')
            for k, f in (('geometry', geo), ('spinor', spi), ('translation', lambda: reduced(c, attr(r, M, 'translation'))), ('stored', sto)):
                if k == 'spinor' and not spinor:
                    continue
                try:
                    d = f()
                except (Undecided, ZeroDivisionError, OverflowError, TypeError, ValueError) as x:
                    res[k][1] = str(x)
                    continue
                res[k][0] += 1
                if d and not res[k][2]:
                    res[k][2] = '%s: %s' % (c.name, d)
        for k, (n, why, bad) in res.items():
            if k == 'spinor' and not spinor:
                continue
            ctx.ob(k + tag, 'violated' if bad else 'ok' if n else 'undecided', bad or ('%d operations' % n if n else why) + (' ; not every one evaluated: ' + why if n and why else ''), W, rules[k])
    described(ctx)


def described(ctx):
    """operation by operation: constructed without an error, angle as text, description"""
    done = set()
    every = [Case(l, n, seed) for l in BASES[1::2] for n in range(len(l[1])) for seed in ((1, 2) if ctx.thorough else (1,))]
    for c in every:
        key = tuple(map(tuple, c.R)) if ctx.thorough else (c.det, round(c.det * sum(c.cart[i][i] for i in range(3)), 6), len(c.name.split(',')[0]), c.name[0])
        if key in done:
            continue
        done.add(key)
        r = ctx.run(make('SymmetryOperation[%s]' % c.name, True, c))
        tag = '[%s]' % c.name
        rule = 'no rotation of a crystal is refused; the angle is shown as it is'
        if r.aborted or not isinstance(r.result, Ref):
            ctx.ob('angle' + tag, *stopped(r), W, rule)
            continue
        M = c.model()
        try:
            s = attr(r, M, 'angle_str')
            a = complex(attr(r, M, 'angle')).real
            if geometry(c, attr(r, M, 'inversion'), attr(r, M, 'axis'), a):
                ctx.ob('angle' + tag, 'violated', geometry(c, attr(r, M, 'inversion'), attr(r, M, 'axis'), a), W, rule)
                continue
            ctx.true('angle' + tag, abs(turns(s) - a / PI) < 1e-3, 'shown as %r, angle %.5g pi' % (s, a / PI), W, rule)
        except (Undecided, ValueError, TypeError) as x:
            ctx.ob('angle' + tag, 'undecided', str(x), W, rule)
            continue
        shown(ctx, c, tag)


def shown(ctx, c, tag):
    rule = 'the description shows number, axis, angle and inversion of the operation'
    W2 = 'irrep/spacegroup.py:SymmetryOperation.show'
    r = make('show' + tag, True, c)
    if not isinstance(r.result, Ref):
        return
    r.obj = r.op = r.result
    call_method(r, 'show')
    ctx.run(r)
    if r.aborted or r.exc:
        return ctx.ob('show' + tag, *stopped(r), W2, rule)
    M = c.model()
    try:
        text = whole(M, outputs(r))
        want = [7] + [x for x in vec3(attr(r, M, 'axis'))]
        inversion, angle = bool(attr(r, M, 'inversion')), attr(r, M, 'angle_str').strip()
    except Undecided as x:
        return ctx.ob('show' + tag, 'undecided', str(x), W2, rule)
    nums = [float(x) for x in NUM.findall(text)]
    d = None
    if 7 not in nums:
        d = 'number 7 is not shown'
    elif not any(all(abs(p - q) < 2e-4 for p, q in zip(nums[i:i + 3], want[1:])) for i in range(len(nums) - 2)):
        d = 'axis %s is not shown' % want[1:]
    elif angle not in text:
        d = 'angle %s is not shown' % angle
    elif ('True' in text) != inversion or ('False' in text) == inversion:
        d = 'inversion %s is not shown' % inversion
    ctx.ob('show' + tag, 'violated' if d else 'ok', d or '%d numbers' % len(nums), W2, rule)
