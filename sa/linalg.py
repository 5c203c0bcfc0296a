"""Small dense linear algebra on nested lists, for the evaluation of extracted closed forms."""
import cmath, math


def herm(a):
    return [[complex(x).conjugate() for x in c] for c in zip(*a)]


def mul(a, b):
    cb = list(zip(*b))
    return [[sum(x * y for x, y in zip(r, c)) for c in cb] for r in a]


def eye(n):
    return [[1.0 if i == j else 0.0 for j in range(n)] for i in range(n)]


def qr(a):
    """modified Gram-Schmidt, columns of q orthonormal"""
    n = len(a)
    q = [list(c) for c in zip(*a)]          # columns
    r = [[0j] * n for _ in range(n)]
    for j in range(n):
        v = q[j]
        for _ in range(2):
            for i in range(j):
                s = sum(complex(x).conjugate() * y for x, y in zip(q[i], v))
                r[i][j] += s
                v = [y - s * x for x, y in zip(q[i], v)]
        nv = math.sqrt(sum(abs(y) ** 2 for y in v))
        if nv < 1e-300:
            # any vector orthogonal to the others
            for e in range(n):
                v = [1.0 if k == e else 0.0 for k in range(n)]
                for i in range(j):
                    s = sum(complex(x).conjugate() * y for x, y in zip(q[i], v))
                    v = [y - s * x for x, y in zip(q[i], v)]
                m = math.sqrt(sum(abs(y) ** 2 for y in v))
                if m > 1e-3:
                    v = [y / m for y in v]
                    break
            r[j][j] = 0j
        else:
            r[j][j] = complex(nv)
            v = [y / nv for y in v]
        q[j] = v
    return [list(x) for x in zip(*q)], r


def eigvals(a):
    a = [[complex(x) for x in r] for r in a]
    out = []
    while a:
        n = len(a)
        if n == 1:
            out.append(a[0][0])
            break
        sc = max(max(abs(x) for x in r) for r in a) or 1.0
        for it in range(2000):
            if max(abs(x) for x in a[n - 1][:n - 1]) < 1e-15 * sc:
                break
            p, q, r, s = a[n - 2][n - 2], a[n - 2][n - 1], a[n - 1][n - 2], a[n - 1][n - 1]
            d = cmath.sqrt((p - s) ** 2 / 4 + q * r)
            mu = min(((p + s) / 2 + d, (p + s) / 2 - d), key=lambda x: abs(x - s))
            if it % 13 == 12:
                mu += (0.3 + 0.2j) * sc
            Q, R = qr([[x - (mu if i == j else 0) for j, x in enumerate(row)] for i, row in enumerate(a)])
            a = [[x + (mu if i == j else 0) for j, x in enumerate(row)] for i, row in enumerate(mul(R, Q))]
        else:
            raise ValueError('eigenvalues not converged')
        out.append(a[n - 1][n - 1])
        a = [r[:n - 1] for r in a[:n - 1]]
    return out


def nullspace(a, tol=1e-7):
    """basis of the null space, as a list of vectors"""
    a = [list(r) for r in a]
    n = len(a)
    sc = max(max(abs(x) for x in r) for r in a) or 1.0
    piv = []
    row = 0
    cols = []
    for _ in range(n):
        best = max(((abs(a[i][j]), i, j) for i in range(row, n) for j in range(n) if j not in cols), default=(0, 0, 0))
        if best[0] < tol * max(sc, 1.0):
            break
        _, i, j = best
        a[row], a[i] = a[i], a[row]
        f = a[row][j]
        a[row] = [x / f for x in a[row]]
        for k in range(n):
            if k != row:
                g = a[k][j]
                a[k] = [x - g * y for x, y in zip(a[k], a[row])]
        cols.append(j)
        piv.append((row, j))
        row += 1
    out = []
    for f in range(n):
        if f in cols:
            continue
        v = [0j] * n
        v[f] = 1 + 0j
        for r, j in piv:
            v[j] = -a[r][f]
        m = math.sqrt(sum(abs(x) ** 2 for x in v))
        out.append([x / m for x in v])
    return out


def groups(w, tol=1e-6):
    out = []
    for x in w:
        for g in out:
            if abs(g[0] - x) < tol:
                g.append(x)
                break
        else:
            out.append([x])
    return out


def eig(a, rnd=None):
    """eigenvalues and eigenvectors (columns) in the manner of LAPACK: real vectors for the real eigenvalues of a real matrix, complex pairs
    next to each other, positive imaginary part first; order, signs, and vectors of degenerate eigenvalues arbitrary (drawn from rnd)"""
    n = len(a)
    real = all(abs(complex(x).imag) < 1e-13 for r in a for x in r)
    blocks = []
    done = []
    for g in groups(eigvals(a)):
        w = sum(g) / len(g)
        if real and abs(w.imag) < 1e-7:
            w = complex(w.real, 0.0)
        if real and w.imag < 0:
            continue
        vs = nullspace([[complex(x) - (w if i == j else 0) for j, x in enumerate(r)] for i, r in enumerate(a)])
        if len(vs) != len(g):
            raise ValueError('not diagonalizable')
        if rnd is not None and len(vs) > 1:
            cs = [[rnd.uniform(-1, 1) if real and w.imag == 0 else complex(rnd.uniform(-1, 1), rnd.uniform(-1, 1)) for _ in vs] for _ in vs]
            vs = [[sum(c * v[i] for c, v in zip(cc, vs)) for i in range(n)] for cc in cs]
            vs = [[x / math.sqrt(sum(abs(y) ** 2 for y in v)) for x in v] for v in vs]
        for v in vs:
            if real and w.imag == 0:
                j = max(range(n), key=lambda i: abs(v[i]))
                p = v[j] / abs(v[j])
                v = [complex((x / p).real, 0.0) for x in v]
                if rnd is not None and rnd.random() < .5:
                    v = [-x for x in v]
                blocks.append([(w, v)])
            elif real:
                blocks.append([(w, v), (w.conjugate(), [x.conjugate() for x in v])])
            else:
                p = cmath.exp(2j * math.pi * rnd.random()) if rnd is not None else 1
                blocks.append([(w, [x * p for x in v])])
    if rnd is not None:
        rnd.shuffle(blocks)
    pairs = [p for b in blocks for p in b]
    if len(pairs) != n:
        raise ValueError('eigenvalues')
    return [w for w, _ in pairs], [list(r) for r in zip(*[v for _, v in pairs])]


def svd(a, full=True):
    """U, S, V^H of a square or rectangular matrix, singular values descending"""
    m, n = len(a), len(a[0])
    h = mul(herm(a), a)
    w, v = eigh(h)
    order = sorted(range(n), key=lambda j: -w[j])
    k = min(m, n)
    S = [math.sqrt(max(w[j], 0.0)) for j in order[:k]]
    V = [[v[i][j] for i in range(n)] for j in order]
    U = []
    for j in range(k):
        if S[j] < 1e-9 * max(S[0], 1e-300):
            raise ValueError('singular')
        U.append([sum(a[i][l] * V[j][l] for l in range(n)) / S[j] for i in range(m)])
    if full and m > k:
        for e in range(m):
            x = [1.0 if i == e else 0.0 for i in range(m)]
            for _ in range(2):
                for u in U:
                    s = sum(complex(p).conjugate() * q for p, q in zip(u, x))
                    x = [q - s * p for p, q in zip(u, x)]
            nx = math.sqrt(sum(abs(q) ** 2 for q in x))
            if nx > 1e-6:
                U.append([q / nx for q in x])
            if len(U) == m:
                break
    if not full:
        V = V[:k]
    return [list(r) for r in zip(*U)], S, [[complex(x).conjugate() for x in r] for r in V]


def eigh(a):
    """Jacobi; eigenvalues (ascending) and eigenvectors (columns) of a hermitian matrix"""
    n = len(a)
    a = [[complex(x) for x in r] for r in a]
    v = [[complex(x) for x in r] for r in eye(n)]
    for _ in range(60):
        off = sum(abs(a[i][j]) ** 2 for i in range(n) for j in range(n) if i != j)
        if off < 1e-28 * max(1e-300, sum(abs(a[i][i]) ** 2 for i in range(n))):
            break
        for p in range(n):
            for q in range(p + 1, n):
                if abs(a[p][q]) < 1e-300:
                    continue
                ph = a[p][q] / abs(a[p][q])
                t = 0.5 * math.atan2(2 * abs(a[p][q]), (a[q][q] - a[p][p]).real)
                c, s = math.cos(t), math.sin(t)
                # columns: p' = c p - s conj(ph) q ; q' = s ph p + c q
                for M in (a, v):
                    for r in M:
                        x, y = r[p], r[q]
                        r[p], r[q] = c * x - s * ph.conjugate() * y, s * ph * x + c * y
                x, y = a[p], a[q]
                a[p], a[q] = [c * i - s * ph * j for i, j in zip(x, y)], [s * ph.conjugate() * i + c * j for i, j in zip(x, y)]
    order = sorted(range(n), key=lambda j: a[j][j].real)
    return [a[j][j].real for j in order], [[r[j] for j in order] for r in v]
