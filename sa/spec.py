"""Specifications in random models (plain numbers)."""
import math
from .evalform import inv, det, matmul, Undecided

PI = math.pi
TWOMHBAR2 = 0.26246842360751754      # 2m/hbar^2 in 1/(eV Angstrom^2), CODATA


def mat(M, name, n=3, m=3, pre=()):
    return [[M.sym(name, tuple(pre) + (i, j)) for j in range(m)] for i in range(n)]


def vec(M, name, n=3, pre=()):
    return [M.sym(name, tuple(pre) + (i,)) for i in range(n)]


def real(m):
    return [[x.real if isinstance(x, complex) else x for x in r] for r in m]


def T(m):
    return [list(r) for r in zip(*m)]


def recip(L):
    """rows: reciprocal vectors, L_i . B_j = 2 pi delta_ij"""
    return [[2 * PI * x for x in r] for r in T(real(inv(L)))]


def mv(v, m):
    """row vector times matrix"""
    return [sum(v[i] * m[i][j] for i in range(len(v))) for j in range(len(m[0]))]


def mmv(m, v):
    return [sum(m[i][j] * v[j] for j in range(len(v))) for i in range(len(m))]


def dot(a, b):
    return sum(x * y for x, y in zip(a, b))


def lattice(M):
    return mat(M, 'L')
