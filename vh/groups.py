"""Projection and random construction of symmetry elements."""
import numpy as np, sympy, itertools
import tinyarray as ta
import qsymm
from qsymm import groups as qg
from qsymm.groups import PointGroupElement


def Rarr(g):
    return np.array(np.array(g.R).tolist(), dtype=float)


def rec(g, pr):
    """Public attributes of an element as a trace record."""
    R = Rarr(g)
    isint = np.allclose(R, np.round(R), atol=1e-9)
    R_is_int_type = isinstance(g.R, ta.ndarray_int)
    return dict(R=pr.rmat(R), c=bool(g.conjugate), a=bool(g.antisymmetry),
                U=[] if g.U is None else pr.cmat(g.U), s=g._strict_eq is True,
                # exact integer arithmetic must stay exact
                intR=bool(isint), intRok=bool(np.all(R == np.round(R)) if R_is_int_type else True))


# ---- rotations: lists of (generators as float arrays) per profile -----------------
s2, s3 = np.sqrt(2), np.sqrt(3)


def rot2(c, s):
    return np.array([[c, -s], [s, c]])


C3 = rot2(-.5, s3/2); C6 = rot2(.5, s3/2); C4 = np.array([[0, -1], [1, 0]]); C8 = rot2(1/s2, 1/s2); C12 = rot2(s3/2, .5)
MX = np.diag([-1, 1]); MY = np.diag([1, -1])
S3 = sympy.sqrt(3)
C6s = sympy.ImmutableMatrix([[sympy.Rational(1, 2), -S3/2], [S3/2, sympy.Rational(1, 2)]])
C12s = sympy.ImmutableMatrix([[S3/2, -sympy.Rational(1, 2)], [sympy.Rational(1, 2), S3/2]])
C8s = sympy.ImmutableMatrix([[1/sympy.sqrt(2), -1/sympy.sqrt(2)], [1/sympy.sqrt(2), 1/sympy.sqrt(2)]])


def emb3(M, axis=2):
    R = np.eye(3) if not isinstance(M, sympy.MatrixBase) else sympy.eye(3)
    idx = [(axis + 1) % 3, (axis + 2) % 3]
    for i in range(2):
        for j in range(2):
            R[idx[i], idx[j]] = M[i, j]
    return R if not isinstance(R, sympy.MatrixBase) else sympy.ImmutableMatrix(R)


PERM3 = np.array([[0, 0, 1], [1, 0, 0], [0, 1, 0]])
# pools: name -> (dim, representation, generators)
POOLS = {
    'int1': (1, 'int', [np.array([[-1]])]),
    'int2': (2, 'int', [C4, MX]),
    'hexint2': (2, 'int', [np.array([[1, -1], [1, 0]]), np.array([[0, 1], [1, 0]])]),
    'int3': (3, 'int', [emb3(C4, 2).astype(int), PERM3, -np.eye(3, dtype=int)]),
    'hexfloat2': (2, 'float', [C6, MX]),
    'oct_float2': (2, 'float', [C8, MX]),
    'dodec_float2': (2, 'float', [C12, MX]),
    'hexfloat3': (3, 'float', [emb3(C6, 2), np.diag([1, -1, -1]), -np.eye(3)]),
    'hextilt3': (3, 'float', [emb3(C3, 0), np.diag([-1, 1, -1])]),
    'hexsym2': (2, 'sympy', [C6s, sympy.ImmutableMatrix([[-1, 0], [0, 1]])]),
    'octsym2': (2, 'sympy', [C8s, sympy.ImmutableMatrix([[1, 0], [0, -1]])]),
    'hexsym3': (3, 'sympy', [emb3(C6s, 2), sympy.ImmutableMatrix(np.diag([1, -1, -1]))]),
}
PROFILE = {'int1': 'q', 'int2': 'q', 'hexint2': 'q', 'int3': 'q', 'hexfloat2': 'q3', 'oct_float2': 'q2',
           'dodec_float2': 'q3', 'hexfloat3': 'q3', 'hextilt3': 'q3', 'hexsym2': 'q3', 'octsym2': 'q2', 'hexsym3': 'q3'}


s5 = np.sqrt(5)
_gr = (1 + s5) / 2
# icosahedral group: five-fold rotation about (0, 1, gr), even permutation, inversion
ICOSA = [np.array([[_gr - 1, -_gr, 1], [_gr, 1, _gr - 1], [-1, _gr - 1, _gr]]) / 2, PERM3, -np.eye(3)]
SPIN_OK = ('int2', 'int3', 'hexfloat2', 'hexfloat3', 'hexsym2', 'hexsym3', 'dodec_float2')


def spin_half_of(R, antiunitary=False):
    """Spin-1/2 action of a rotation (mirrors in 2D act as 3D mirrors)."""
    from scipy.linalg import expm, logm
    M = np.array(R).astype(float)
    if len(M) == 2:
        M = np.block([[M, np.zeros((2, 1))], [np.zeros((1, 2)), np.eye(1)]])
    if np.linalg.det(M) < 0:
        M = -M
    c = (np.trace(M) - 1) / 2
    th = np.arccos(np.clip(c, -1, 1))
    if abs(th) < 1e-9:
        n = np.zeros(3)
    elif abs(th - np.pi) < 1e-6:
        v = (M + np.eye(3)) / 2
        k = np.argmax(np.diag(v))
        n = v[:, k] / np.sqrt(v[k, k]) * np.pi
    else:
        n = np.array([M[2, 1] - M[1, 2], M[0, 2] - M[2, 0], M[1, 0] - M[0, 1]]) / (2 * np.sin(th)) * th
    S = np.array([[[0, 1], [1, 0]], [[0, -1j], [1j, 0]], [[1, 0], [0, -1]]]) / 2
    U = expm(-1j * np.tensordot(n, S, 1))
    if antiunitary:
        U = U @ np.array([[0, -1], [1, 0]])
    return U


def rand_R(rng, pool):
    if pool == 'icosa3':
        R = np.eye(3)
        for _ in range(rng.integers(0, 4)):
            R = R @ ICOSA[rng.integers(3)]
        return R
    dim, kind, gens = POOLS[pool]
    n = rng.integers(0, 5)
    if kind == 'sympy':
        R = sympy.eye(dim)
        for _ in range(n):
            R = R * gens[rng.integers(len(gens))]
        R = sympy.ImmutableMatrix(R.applyfunc(sympy.nsimplify).applyfunc(sympy.radsimp)) if n > 1 else sympy.ImmutableMatrix(R)
        return R
    R = np.eye(dim, dtype=int if kind == 'int' else float)
    for _ in range(n):
        R = R @ gens[rng.integers(len(gens))]
    return R


def rand_unimodular(rng, dim):
    M = np.eye(dim, dtype=int)
    if dim == 1:
        return M * rng.choice([-1, 1])
    for _ in range(rng.integers(1, 6)):
        i, j = rng.choice(dim, 2, replace=False)
        E = np.eye(dim, dtype=int); E[i, j] = rng.choice([-2, -1, 1, 2])
        M = M @ E
    if rng.integers(2):
        M[0] *= -1
    return M


# ---- unitaries over the Gaussian rationals / K -------------------------------------
def rand_perm_phase(rng, n):
    U = np.zeros((n, n), complex)
    p = rng.permutation(n)
    for i in range(n):
        U[i, p[i]] = 1j ** rng.integers(4)
    return U


_U2 = [np.array([[3, 4j], [4j, 3]]) / 5, np.array([[3, -4], [4, 3]]) / 5,
       np.array([[1 + 1j, 1 - 1j], [1 - 1j, 1 + 1j]]) / 2, np.array([[0, 1], [1, 0]], complex),
       np.array([[0, -1j], [1j, 0]]), np.array([[1, 0], [0, -1]], complex), np.array([[1, 0], [0, 1j]])]


def rand_unitary(rng, n, rich=True):
    """Random unitary with Gaussian-rational entries of small height."""
    U = rand_perm_phase(rng, n)
    if n >= 2 and rich:
        for _ in range(rng.integers(0, 2) + (n > 2)):
            i, j = rng.choice(n, 2, replace=False)
            V = np.eye(n, dtype=complex)
            V[np.ix_([i, j], [i, j])] = _U2[rng.integers(2, len(_U2))]
            U = U @ V
    return U


def rand_elem(rng, pool, nU, flags=True, rich=True, strict=None):
    R = rand_R(rng, pool)
    c, a = (bool(rng.integers(2)), bool(rng.integers(2))) if flags else (False, False)
    U = None if nU is None else rand_unitary(rng, nU, rich)
    return PointGroupElement(R, c, a, U, **({} if strict is None else dict(_strict_eq=strict)))


def near(x, tol=1e-9):
    """Integer that x is, else a value no specification expects."""
    r = round(float(x))
    return int(r) if abs(x - r) < tol * max(1, abs(x)) else -10**6
