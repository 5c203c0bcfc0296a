"""C17: each of the 460 tables describes a space group and complete sets of irreps of its little groups"""
import cmath, os
from concurrent.futures import ProcessPoolExecutor
from fractions import Fraction as F

EXPLANATION = ('The tables are part of the source: each of the 460 files is parsed with the grammar of the loader (C18) and decided by exact arithmetic on its contents: the header, '
               'the closure of the operations modulo the lattice of the centring, the spinor matrices as a double-valued representation of the rotations, the little groups of the k-points, '
               'and for every irrep the relations that characterise irreducible characters with the factor system of the little group (orthonormality, completeness, '
               'D(g)D(h)D(g)^-1, products for one-dimensional irreps, the class-sum equation for the others).')
ASSUMPTIONS = ('the centring is the one named by the first letter of the symbol; numbers are rational with denominators up to 24 or rounded to 3 decimals at least',)
REPO = os.environ.get('IRREP_REPO', '/repo')
DIR = 'irreptables/irreptables/tables/'
CENT = {'P': [], 'I': [(F(1, 2),) * 3], 'F': [(0, F(1, 2), F(1, 2)), (F(1, 2), 0, F(1, 2)), (F(1, 2), F(1, 2), 0)], 'A': [(0, F(1, 2), F(1, 2))], 'B': [(F(1, 2), 0, F(1, 2))],
        'C': [(F(1, 2), F(1, 2), 0)], 'R': [(F(2, 3), F(1, 3), F(1, 3)), (F(1, 3), F(2, 3), F(2, 3))]}
TOL = 4e-3


class Bad(Exception):
    pass


def frac(x):
    f = F(x).limit_denominator(24)
    if abs(float(f) - x) > 2e-3:
        raise Bad('%r is not a fraction' % x)
    return f


def parse(path):
    """-> header, operations, k-points (name, k, isym, [(label, dim, chars, line)], line) of the file"""
    L = open(path).read().split('\n')
    h, i = {}, 0
    while i < len(L):
        a = L[i].strip().split('=')
        i += 1
        if a[0].lower() == 'symmetries':
            break
        if len(a) > 1:
            h[a[0].strip().lower()] = a[1].strip()
    for k in ('sg', 'name', 'nsym', 'spinor'):
        if k not in h:
            raise Bad('no entry %s in the header' % k)
    ops = []
    while len(ops) < int(h['nsym']):
        if i >= len(L):
            raise Bad('%d operations instead of %s' % (len(ops), h['nsym']))
        w = L[i].split()
        i += 1
        if not w:
            continue
        try:
            if len(w) not in (12, 20):
                raise ValueError
            R = tuple(tuple(int(x) for x in w[3 * r:3 * r + 3]) for r in range(3))
            t = tuple(frac(float(x)) for x in w[9:12])
            S = [float(a) * cmath.exp(1j * cmath.pi * float(p)) for a, p in zip(w[12:16], w[16:20])] if len(w) == 20 else None
        except ValueError:
            raise Bad('line %d is not an operation' % i)
        ops.append((R, t, S))
    ks = []
    for n, l in enumerate(L[i:], i + 1):
        if not l.strip():
            continue
        p = l.split(':')
        try:
            if p[0].split()[0] == 'kpoint':
                ks.append((p[0].split()[1], tuple(frac(float(x)) for x in p[1].split()), ranges(p[2]), [], n))
                continue
            w = l.split()
            ns = len(ks[-1][2])
            if len(w) not in (2 + ns, 2 + 2 * ns):
                raise ValueError
            c = [complex(float(x)) for x in w[2:2 + ns]]
            if len(w) > 2 + ns:
                c = [x * cmath.exp(1j * cmath.pi * float(y)) for x, y in zip(c, w[2 + ns:])]
            ks[-1][3].append((w[0], int(w[1]), c, n))
        except (ValueError, IndexError):
            raise Bad('line %d is neither a k-point nor an irrep with the characters of the %d operations' % (n, len(ks[-1][2]) if ks else 0))
    return h, ops, ks


def ranges(s):
    out = []
    for x in s.split():
        a, _, b = x.partition('-')
        out += list(range(int(a), int(b) + 1)) if b else [int(a)]
    return out


def mm(a, b):
    return tuple(tuple(sum(a[i][k] * b[k][j] for k in range(3)) for j in range(3)) for i in range(3))


def m2(a, b):
    return [a[0] * b[0] + a[1] * b[2], a[0] * b[1] + a[1] * b[3], a[2] * b[0] + a[3] * b[2], a[2] * b[1] + a[3] * b[3]]


def inv3(a):
    det = sum(a[0][i] * (a[1][(i + 1) % 3] * a[2][(i + 2) % 3] - a[1][(i + 2) % 3] * a[2][(i + 1) % 3]) for i in range(3))
    return tuple(tuple((a[(i + 1) % 3][(j + 1) % 3] * a[(i + 2) % 3][(j + 2) % 3] - a[(i + 1) % 3][(j + 2) % 3] * a[(i + 2) % 3][(j + 1) % 3]) * det for i in range(3)) for j in range(3)), det


def group(h, ops):
    """closure modulo the lattice; -> (product table, translation and sign of each product)"""
    if h['name'][:1] not in CENT:
        raise Bad('symbol %r' % h['name'])
    cen = [(F(0),) * 3] + [tuple(map(F, c)) for c in CENT[h['name'][0]]]
    Rs = [o[0] for o in ops]
    idx = {R: i for i, R in enumerate(Rs)}
    if len(idx) != len(Rs):
        raise Bad('two operations with the same rotation')
    if Rs[0] != ((1, 0, 0), (0, 1, 0), (0, 0, 1)) or any(x % 1 for x in ops[0][1]):
        raise Bad('the first operation is not the identity')
    N = len(ops)
    prod = [[0] * N for _ in range(N)]
    T = {}
    for i in range(N):
        if inv3(Rs[i])[1] not in (1, -1):
            raise Bad('operation %d is not unimodular' % (i + 1))
        for j in range(N):
            l = idx.get(mm(Rs[i], Rs[j]))
            if l is None:
                raise Bad('the product of operations %d and %d is missing' % (i + 1, j + 1))
            prod[i][j] = l
            t = [sum(Rs[i][r][c] * ops[j][1][c] for c in range(3)) + ops[i][1][r] - ops[l][1][r] for r in range(3)]
            if not any(all((t[r] - c[r]) % 1 == 0 for r in range(3)) for c in cen):
                raise Bad('the product of operations %d and %d differs from operation %d by %s' % (i + 1, j + 1, l + 1, [str(x) for x in t]))
            T[i, j] = t
    return prod, T, cen


def spinors(h, ops, prod):
    sg = {}
    want = h['spinor'].lower() in ('t', 'true', '1', 'yes', 'y')
    if any((o[2] is not None) != want for o in ops):
        raise Bad('spinor matrices are given exactly in the tables with spinors')
    N = len(ops)
    if not want:
        return {(i, j): 1 for i in range(N) for j in range(N)}
    for i, (R, t, S) in enumerate(ops):
        _, det = inv3(R)
        c2 = (1 + (det * sum(R[r][r] for r in range(3)) - 1) / 2) / 2
        if abs(abs(S[0] + S[3]) ** 2 / 4 - c2) > TOL or abs(S[0] * S[3] - S[1] * S[2] - 1) > TOL:
            raise Bad('spinor matrix of operation %d does not belong to its rotation' % (i + 1))
    for i in range(N):
        for j in range(N):
            S, l = m2(ops[i][2], ops[j][2]), prod[i][j]
            p, m = max(abs(x - y) for x, y in zip(S, ops[l][2])), max(abs(x + y) for x, y in zip(S, ops[l][2]))
            if min(p, m) > TOL:
                raise Bad('spinor matrices of operations %d and %d do not multiply to that of %d' % (i + 1, j + 1, l + 1))
            sg[i, j] = 1 if p < m else -1
    return sg


def little(k, ops, cen):
    out = []
    for i, (R, _, _) in enumerate(ops):
        I, _ = inv3(R)
        d = [sum(k[r] * I[r][c] for r in range(3)) - k[c] for c in range(3)]
        if all(F(sum(d[c] * g[c] for c in range(3))).denominator == 1 for g in [(1, 0, 0), (0, 1, 0), (0, 0, 1)] + cen):
            out.append(i + 1)
    return out


def factor(sign, k, g, T, sg):
    return {(i, j): sg[i, j] * cmath.exp(sign * 2j * cmath.pi * float(sum(a * b for a, b in zip(k, T[i, j])) % 1)) for i in g for j in g}


def character(dim, ch, g, prod, w):
    """None, or what fails for an irrep with D(i)D(j) = w(i,j) D(ij)"""
    inv = {i: j for i in g for j in g if prod[i][j] == 0}
    conj = {}
    for u in g:
        for x in g:
            y = prod[prod[u][x]][inv[u]]
            ph = w[u, x] / w[y, u]        # D(u)D(x)D(u)^-1 = ph D(y)
            conj[u, x] = (y, ph)
            if abs(ch[x] - ph * ch[y]) > TOL:
                return 'operations %d and %d are conjugate, but their characters %s and %s are not related' % (x + 1, y + 1, z(ch[x]), z(ch[y]))
    for x in g:
        for y in (g if dim > 1 else ()):
            s = sum(conj[u, y][1] * w[x, conj[u, y][0]] * ch[prod[x][conj[u, y][0]]] for u in g)
            if abs(s / len(g) * dim - ch[x] * ch[y]) > TOL * dim * dim:
                return 'the characters of operations %d and %d do not satisfy the class-sum equation' % (x + 1, y + 1)
        for y in (g if dim == 1 else ()):
            if abs(ch[x] * ch[y] - w[x, y] * ch[prod[x][y]]) > TOL:
                return 'the characters of operations %d and %d do not multiply to that of %d' % (x + 1, y + 1, prod[x][y] + 1)


def z(c):
    return '%.3f%+.3fi' % (complex(c).real, complex(c).imag)


def table(job):
    n, kind = job
    rel = DIR + 'irreps-SG=%d-%s.dat' % (n, kind)
    tag = '[%d,%s]' % (n, kind)
    obs = []

    def ob(name, why, line=None, rule=''):
        obs.append((name + tag, why, rel + (':%d' % line if line else ''), rule))
    summary = None
    try:
        h, ops, ks = parse(os.path.join(REPO, rel))
    except (Bad, OSError) as x:
        ob('readable', str(x), None, 'every line of the file follows the grammar of the loader')
        return job, obs, None, 0
    ob('readable', None)
    bad = None if h['sg'] == str(n) and (h['spinor'].lower() in ('t', 'true', '1')) == (kind == 'spin') else 'SG=%s, spinor=%s' % (h['sg'], h['spinor'])
    ob('header', bad, None, 'number and kind are those of the file name')
    nir = sum(len(k[3]) for k in ks)
    try:
        prod, T, cen = group(h, ops)
        ob('group', None, None, 'operations are closed modulo lattice translations')
        summary = (h['name'], [o[0] for o in ops], [o[1] for o in ops], [k[:3] for k in ks])
        sg = spinors(h, ops, prod)
        ob('spinors', None, None, 'spinor matrices represent the rotations up to a sign')
    except Bad as x:
        ob('group', str(x), None, 'the operations form a group modulo lattice translations, represented by the spinor matrices up to a sign')
        return job, obs, summary, nir
    names = [k[0] for k in ks]
    labels = [i[0] for k in ks for i in k[3]]
    ob('labels', 'repeated k-point names or labels' if len(set(names)) != len(names) or len(set(labels)) != len(labels) else next(
        ('%s at %s' % (i[0], k[0]) for k in ks for i in k[3] if not i[0].lstrip('-').startswith(k[0]) or i[0].startswith('-') != (kind == 'spin')), None),
       None, 'each label appears once and belongs to the k-point')
    for k in ks:
        at = '[%d,%s,%s]' % (n, kind, k[0])

        def okk(name, why, line, rule):
            obs.append((name + at, why, rel + ':%d' % line, rule))
        want = little(k[1], ops, cen)
        okk('little-group', None if want == k[2] else 'operations %s, but R^-T k = k + G for %s' % (k[2], want), k[4], 'the operations of the k-point are those that leave it invariant')
        if want != k[2]:
            continue
        g = [i - 1 for i in k[2]]
        tot = sum(i[1] ** 2 for i in k[3])
        why = None if tot == len(g) else 'squares of the dimensions add up to %d for %d operations' % (tot, len(g))
        for a, i in enumerate(k[3]):
            if abs(i[2][0] - i[1]) > TOL:
                why = '%s: dimension %d, character of the identity %s' % (i[0], i[1], z(i[2][0]))
            for j in k[3][:a + 1]:
                s = sum(x * y.conjugate() for x, y in zip(i[2], j[2])) / len(g)
                if abs(s - (i is j)) > TOL:
                    why = '%s and %s: product %s' % (i[0], j[0], z(s))
        okk('complete', why, k[4], 'characters are orthonormal and complete')
        res = {}
        for sign in (-1, 1):
            w = factor(sign, k[1], g, T, sg)
            res[sign] = [(i, x) for i in k[3] for x in [character(i[1], dict(zip(g, i[2])), g, prod, w)] if x]
            if not res[sign]:
                break
        if not res[-1]:
            okk('characters', None, k[4], 'characters of irreps with translations T represented by exp(-2 pi i k.T)')
        elif len(res) == 2 and not res[1]:
            okk('translations', '%s: %s; with exp(+2 pi i k.T) they would' % (res[-1][0][0][0], res[-1][0][1]), res[-1][0][0][3],
                'characters of irreps with translations T represented by exp(-2 pi i k.T), as in the traces of the program')
        else:
            i, x = min((r[0] for r in res.values() if r), key=lambda r: r[0][3])
            okk('characters', '%s: %s' % (i[0], x), i[3], 'characters of irreps with translations T represented by exp(-2 pi i k.T)')
    return job, obs, summary, nir


def run(ctx):
    jobs = [(n, kind) for n in range(1, 231) for kind in ('scal', 'spin')]
    with ProcessPoolExecutor(max_workers=min(8, os.cpu_count() or 2)) as ex:
        res = list(ex.map(table, jobs, chunksize=4))
    summ, nir = {}, 0
    for job, obs, s, n in res:
        nir += n
        summ[job] = s
        ctx.analysed.add(DIR + 'irreps-SG=%d-%s.dat' % job)
        for name, why, where, rule in obs:
            ctx.ob(name, 'violated' if why else 'ok', why or '', where, rule)
    for n in range(1, 231):
        a, b = summ[n, 'scal'], summ[n, 'spin']
        if a and b:
            d = [w for w, x, y in zip(('symbol', 'rotations', 'translations', 'k-points'), a, b) if x != y]
            ctx.ob('same-group[%d]' % n, 'violated' if d else 'ok', ', '.join(d), DIR + 'irreps-SG=%d-spin.dat' % n, 'both tables of a space group list the same operations and k-points')
    ctx.ob('irreps', 'ok', '%d irreps' % nir)
