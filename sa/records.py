"""Layouts of the binary files, record by record, in a model of their contents.

A layout is a list of (kind, size in bytes, number); neighbours of the same kind are merged, so that what counts is the sequence of
elementary items, not how a format groups them.  None: the file has no such record."""
import re

OPAQUE = 'opaque'


def merged(fields):
    out = []
    for k, s, n in fields:
        if k == 'c':
            k, s, n = 'f', s // 2, 2 * n
        if k == 'a':
            k, s, n = 'a', 1, s * n
        if n == 0:
            continue
        if out and out[-1][:2] == (k, s):
            out[-1] = (k, s, out[-1][2] + n)
        else:
            out.append((k, s, n))
    return out


def split_fields(text):
    out, cur, d = [], '', 0
    for c in text.replace(' ', ''):
        d += (c == '(') - (c == ')')
        if c == ',' and d == 0:
            out.append(cur)
            cur = ''
        else:
            cur += c
    return out + [cur]


def parse_format(text):
    """numpy format text -> (layout, whether it is a single elementary type), or None"""
    fs = []
    for f in split_fields(text):
        m = re.fullmatch(r'(?:\(([\d,]*)\)|(\d*))[<>=|]?([aSifcu])(\d+)', f)
        if not m:
            m2 = re.fullmatch(r'(?:\(([\d,]*)\)|(\d*))(float|int|complex|float64|float32|int32|complex64|complex128|d|f|i)', f)
            if not m2:
                return None
            k, s = {'float': 'f8', 'float64': 'f8', 'd': 'f8', 'float32': 'f4', 'f': 'f4', 'int': 'i8', 'int32': 'i4', 'i': 'i4', 'complex': 'c16', 'complex128': 'c16',
                    'complex64': 'c8'}[m2.group(3)][0], 0
            s = int({'float': 'f8', 'float64': 'f8', 'd': 'f8', 'float32': 'f4', 'f': 'f4', 'int': 'i8', 'int32': 'i4', 'i': 'i4', 'complex': 'c16', 'complex128': 'c16',
                     'complex64': 'c8'}[m2.group(3)][1:])
            shape, cnt = m2.group(1), m2.group(2)
        else:
            shape, cnt, k, s = m.group(1), m.group(2), m.group(3), int(m.group(4))
        n = 1
        if shape is not None:
            for x in shape.split(','):
                if x:
                    n *= int(x)
        elif cnt:
            n = int(cnt)
        fs.append(({'S': 'a'}.get(k, k), s, n))
    return merged(fs), len(fs) == 1


def abinit(M, n, opt, nspinor):
    l = abinit_(M, n, opt, nspinor)
    return merged(l) if isinstance(l, list) else l


def abinit_(M, n, opt, nspinor):
    nk = opt.get('nk') or M.sym('NK')
    nat = opt.get('nat') or M.sym('NAT')
    npsp, nsym, nty, bt = (M.sym(x) for x in ('NPSP', 'NSYMA', 'NTYP', 'BANDTOT'))
    if n < 0:
        return None
    if n == 0:
        return [('a', 6 if opt.get('old_abinit') else 8, 1), ('i', 4, 2)]
    if n == 1:
        return [('i', 4, 18), ('f', 8, 19), ('i', 4, 4)]
    if n == 2:
        return [('i', 4, 3 * nk + npsp + nsym + 9 * nsym + nat), ('f', 8, 3 * nk + bt + 3 * nsym + nty + nk)]
    if n == 3:
        return [('f', 8, 1 + 3 * nat + 2 + nty)]
    if n == 4:
        return [('i', 4, 2), ('f', 8, 2), ('i', 4, 19), ('f', 8, 3 * (M.sym('uz#1') + M.sym('uz#2')))]
    n -= 5
    if n < npsp:
        return [('a', 132, 1), ('f', 8, 2), ('i', 4, 5), ('a', 32, 1)]
    n -= npsp
    if opt.get('usepaw'):
        if n < 2:
            return OPAQUE
        n -= 2
    for k in range(nk):
        nb, npw = M.sym('nbandk', (k,)), M.sym('npwk', (k,))
        if n < 3 + nb:
            return [('i', 4, 3)] if n == 0 else [('i', 4, 3 * npw)] if n == 1 else [('f', 8, 2 * nb)] if n == 2 else [('f', 8, 2 * npw * nspinor)]
        n -= 3 + nb
    return None


def espresso(M, n, opt, nspinor, spin=''):
    nb = {'up': M.sym('NBUP'), 'dw': M.sym('NBDW')}.get(spin) or M.sym('NB')
    npw = M.sym('NPW')
    if n < 0 or n >= 4 + nb:
        return None
    return [[('i', 4, 1), ('f', 8, 3), ('i', 4, 2), ('f', 8, 1)], [('i', 4, 4)], [('f', 8, 9)], [('i', 4, 3 * npw)]][n] if n < 4 else [('f', 8, 2 * npw * nspinor)]


def wannier90(M, n, opt, nspinor):
    if n < 0 or n > M.sym('NB') * nspinor:
        return None
    return [('i', 4, 5)] if n == 0 else [('f', 8, 2 * M.sym('ngx') * M.sym('ngy') * M.sym('ngz'))]


def vasp(M, n, opt, nspinor):
    """(kind, size, least number to be there)"""
    nk, nb = opt.get('nk') or M.sym('NK'), M.sym('NB')
    if n < 0 or n >= 2 + nk * (nb + 1):
        return None
    if n < 2:
        return ('f', 8, 3 if n == 0 else 12)
    r = (n - 2) % (nb + 1)
    return ('f', 8, 4 + 3 * nb) if r == 0 else ('c', 8, M.sym('NPW') * nspinor)


def describe(l):
    return 'no record' if l is None else str(l) if isinstance(l, str) else ','.join('%dx%s%d' % (n, k, s) for k, s, n in l)


def envs(M, forms, pc=()):
    """values of the free labels of the forms (those that the path condition allows)"""
    from .forms import LABLEN
    from .evalform import Undecided
    fl = sorted(set().union(*[f.labels() for f in forms]) if forms else ())
    out = []

    def rec(fl, env):
        if not fl:
            for f, pol in pc:
                if f.labels() <= set(env):
                    try:
                        if bool(M.ev(f, env)) != pol:
                            return
                    except Undecided:
                        pass
            out.append(env)
            return
        if fl[0] not in LABLEN:
            raise Undecided('label')
        for i in range(M.size(LABLEN[fl[0]], env)):
            rec(fl[1:], {**env, fl[0]: i})
    rec(fl, {})
    return out


SIZES = dict(NB=4, NBUP=3, NBDW=4, NK=5, NAT=7, NPSP=3, NSYMA=4, NTYP=2, NPW=6, RL=60)


def model(seed, opt=None):
    from .evalform import Model
    nb = lambda k: 3 + int(k) % 2
    nk = (opt or {}).get('nk') or SIZES['NK']
    return Model(seed, dict(SIZES, NB=4 + seed % 2), **{**{'u#%d' % k: (lambda k=k: 30 + k) for k in range(18)}, 'uz#0': lambda: 21, 'uz#3': lambda: 22, 'nbandk': nb, 'npwk': lambda k: 3 + int(k), 'uz#1': lambda: 1, 'uz#2': lambda: 2, 'BANDTOT': lambda: sum(nb(k) for k in range(nk))})


def whole(x):
    x = complex(x)
    return int(round(x.real)) if abs(x.imag) < 1e-6 and abs(x.real - round(x.real)) < 1e-6 else None


def nowhere(pos, pc, layout, opt=None, seeds=(1, 2, 3)):
    """True if the position is certainly not that of a suitable record: layout(M, n) is None for all values of the loop labels"""
    from .evalform import Undecided
    n = 0
    for s in seeds:
        M = model(s, opt)
        try:
            for env in envs(M, [pos], pc):
                p = whole(M.ev(pos, env))
                if p is not None and layout(M, p) is not None:
                    return False
                n += 1
        except (Undecided, ValueError, TypeError, ZeroDivisionError):
            return False
    return n > 0
