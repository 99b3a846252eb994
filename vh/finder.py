"""Integer models for the symmetry finder and their floating point images."""
import itertools as it
import numpy as np, sympy, scipy.sparse as sp
from scipy.stats import unitary_group
from qsymm import Model, BlochModel, PointGroupElement
from qsymm.model import BlochCoeff, e as E

I2, I3 = np.eye(2, dtype=int), np.eye(3, dtype=int)
C4 = np.array([[0, -1], [1, 0]])
MX = np.array([[-1, 0], [0, 1]])
H6 = np.array([[1, -1], [1, 0]])      # six-fold rotation in lattice coordinates
HM = np.array([[0, 1], [1, 0]])


def e3(R, z=1):
    M = np.eye(3, dtype=int); M[:2, :2] = R; M[2, 2] = z
    return M


PERM = np.array([[0, 1, 0], [0, 0, 1], [1, 0, 0]])
HEXA = np.array([[1, -.5], [0, np.sqrt(3) / 2]])
HEXS = sympy.Matrix([[1, -sympy.Rational(1, 2)], [0, sympy.sqrt(3) / 2]])
# name: (dim, integer generators, Cartesian basis A with k_cart = A kappa such that R_cart = A R A^-1)
GROUPS = {
    'line': (1, [-np.eye(1, dtype=int)], np.eye(1)),
    'square': (2, [C4, MX], np.eye(2)),
    'c4': (2, [C4], np.eye(2)),
    'rect': (2, [MX, -I2], np.eye(2)),
    'hex': (2, [H6, HM], HEXA),
    'c6': (2, [H6], HEXA),
    'tetra': (3, [e3(C4), e3(MX), e3(I2, -1)], np.eye(3)),
    'c4h': (3, [e3(C4), -I3], np.eye(3)),
    'd2h': (3, [np.diag([-1, 1, 1]), np.diag([1, -1, 1]), np.diag([1, 1, -1])], np.eye(3)),
    'd3': (3, [PERM, -HM.T.dot(I2) if False else np.array([[0, -1, 0], [-1, 0, 0], [0, 0, -1]])], np.eye(3)),
    't': (3, [PERM, np.diag([-1, -1, 1])], np.eye(3)),
    'oh': (3, [PERM, e3(C4), -I3], np.eye(3)),
    'hex3': (3, [e3(H6), e3(HM), e3(I2, -1)], np.block([[HEXA, np.zeros((2, 1))], [np.zeros((1, 2)), np.eye(1)]])),
    'zero': (0, [], np.eye(0)),
}


class G:
    """exact symmetry element with integer R and Gaussian integer monomial U"""
    def __init__(s, R, c, a, U):
        s.R, s.c, s.a, s.U = np.array(R, int), bool(c), bool(a), np.array(U, complex)

    def __mul__(s, o):
        return G(s.R @ o.R, s.c ^ o.c, s.a ^ o.a, s.U @ (o.U.conj() if s.c else o.U))

    def key(s):
        return (s.R.shape, tuple(map(int, s.R.ravel())), s.c, s.a, tuple(np.round(2 * s.U.ravel(), 6)))

    def base(s):
        return (tuple(map(int, s.R.ravel())), s.c, s.a)


def close(gens, limit=200):
    group = {g.key(): g for g in gens}
    front = list(gens)
    while front:
        new = []
        for x in front:
            for g in gens:
                y = x * g
                if y.key() not in group:
                    group[y.key()] = y
                    new.append(y)
                    if len(group) > limit:
                        return None
        front = new
    return list(group.values())


def intgroup(gens, dim):
    """closure of (R, c, a)"""
    gens = [G(R, c, a, np.eye(1)) for R, c, a in gens] + [G(np.eye(dim, dtype=int), 0, 0, np.eye(1))]
    return [(g.R, g.c, g.a) for g in close(gens, 10000)]


class Fam:
    """Integer family: terms[p][key] -> matrix; key: exponents (poly) or hopping (hop)"""
    def __init__(s, mode, dim, N, np_):
        s.mode, s.dim, s.N = mode, dim, N
        s.t = [dict() for _ in range(np_)]

    def add(s, p, k, M):
        k = tuple(int(x) for x in k)
        s.t[p][k] = s.t[p].get(k, 0) + np.asarray(M, complex)

    def clean(s):
        for d in s.t:
            for k in [k for k, v in d.items() if not np.any(np.abs(v) > 1e-9)]:
                del d[k]
        return s

    def max(s):
        return max([np.max(np.abs(v)) for d in s.t for v in d.values()], default=0)

    def rotated(s, R):
        """H o R"""
        out = Fam(s.mode, s.dim, s.N, len(s.t))
        for p, d in enumerate(s.t):
            for k, M in d.items():
                if s.mode == 'hop':
                    out.add(p, np.array(R).T @ np.array(k, int), M)
                    continue
                poly = {(0,) * s.dim: 1}
                for i, n in enumerate(k):
                    for _ in range(n):
                        new = {}
                        for ex, c in poly.items():
                            for j in range(s.dim):
                                if R[i][j]:
                                    e2 = ex[:j] + (ex[j] + 1,) + ex[j + 1:]
                                    new[e2] = new.get(e2, 0) + c * R[i][j]
                        poly = new
                for ex, c in poly.items():
                    if c:
                        out.add(p, ex, c * M)
        return out.clean()

    def applied(s, g):
        """g H"""
        Ri = np.round(np.linalg.inv(g.R)).astype(int) if s.dim else g.R
        r = s.rotated(Ri)
        out = Fam(s.mode, s.dim, s.N, len(s.t))
        for p, d in enumerate(r.t):
            for k, M in d.items():
                sg = (-1 if g.a else 1) * (-1 if g.c and s.mode == 'poly' and sum(k) % 2 else 1)
                out.add(p, k, sg * g.U @ (M.conj() if g.c else M) @ g.U.conj().T)
        return out.clean()

    def plus(s, o):
        out = Fam(s.mode, s.dim, s.N, len(s.t))
        for x in (s, o):
            for p, d in enumerate(x.t):
                for k, M in d.items():
                    out.add(p, k, M)
        return out.clean()

    def dsum(s, o):
        out = Fam(s.mode, s.dim, s.N + o.N, len(s.t))
        for p in range(len(s.t)):
            for k in set(s.t[p]) | set(o.t[p]):
                M = np.zeros((out.N, out.N), complex)
                if k in s.t[p]: M[:s.N, :s.N] = s.t[p][k]
                if k in o.t[p]: M[s.N:, s.N:] = o.t[p][k]
                out.add(p, k, M)
        return out

    def kron(s, A, left=False):
        out = Fam(s.mode, s.dim, s.N * len(A), len(s.t))
        for p in range(len(s.t)):
            for k, M in s.t[p].items():
                out.add(p, k, np.kron(A, M) if left else np.kron(M, A))
        return out

    def same(s, o):
        return all(set(a) == set(b) and all(np.allclose(a[k], b[k]) for k in a) for a, b in zip(s.t, o.t))


def mons(dim, deg):
    """monomials with total degree <= deg, ordered by degree"""
    return sorted([k for k in it.product(range(deg + 1), repeat=dim) if sum(k) <= deg], key=lambda k: (sum(k), k))


def rand_fam(rng, mode, dim, N, nparam, deg, size=3, sparse=.5, hops=None):
    f = Fam(mode, dim, N, nparam)
    for p in range(nparam):
        if mode == 'poly':
            ks = mons(dim, deg)
        else:
            ks = hops
        for k in ks:
            if rng.random() < sparse and len(ks) > 1:
                continue
            M = rng.integers(-size, size + 1, (N, N)) + 1j * rng.integers(-size, size + 1, (N, N))
            if mode == 'poly':
                f.add(p, k, M + M.conj().T)
            else:
                f.add(p, k, M); f.add(p, [-x for x in k], M.conj().T)
    return f.clean()


def rand_hops(rng, dim):
    hs = [(0,) * dim]
    for _ in range(rng.integers(1, 3)):
        hs.append(tuple(int(x) for x in rng.integers(-1, 2, dim)))
    return list(dict.fromkeys(hs))


def mono_U(rng, N, phases=True):
    U = np.zeros((N, N), complex)
    for i, j in enumerate(rng.permutation(N)):
        U[i, j] = 1j ** rng.integers(4) if phases else 1
    return U


def spec_model(f, group=()):
    """JSON form for the specification.  Hops are completed to orbits."""
    dim, N = f.dim, f.N
    if f.mode == 'poly':
        deg = max([sum(k) for d in f.t for k in d], default=0)
        ms = mons(dim, deg)
        if dim == 0:
            ms = [()]
        ix = {k: i + 1 for i, k in enumerate(ms)}
        par, down = [], []
        for k in ms:
            dn = []
            for j in range(dim):
                dn.append(ix.get(k[:j] + (k[j] - 1,) + k[j + 1:], 0) if k[j] else 0)
            down.append(dn)
            j = next((j for j in range(dim) if k[j]), None)
            par.append([j + 1, dn[j]] if j is not None else [0, 0])
        M = dict(mode='poly', deg=[sum(k) for k in ms], par=par, down=down, hop=[])
    else:
        ms = {k for d in f.t for k in d} or {(0,) * dim}
        ms |= {tuple(int(x) for x in np.array(g[0]).T @ np.array(k, int)) for k in list(ms) for g in group}
        ms = sorted(ms)
        M = dict(mode='hop', deg=[0] * len(ms), par=[], down=[], hop=[list(k) for k in ms])
    Z = np.zeros((N, N))
    arr = [[np.asarray(d.get(k, Z), complex) for k in ms] for d in f.t]
    for row in arr:
        for A in row:
            assert np.allclose(A, np.round(A)), A
    M.update(dim=dim, N=N, n=len(ms), ex=[list(k) for k in ms],
             re=[[np.round(A.real).astype(int).tolist() for A in r] for r in arr],
             im=[[np.round(A.imag).astype(int).tolist() for A in r] for r in arr])
    return M


PARAMS = [sympy.Integer(1), sympy.Symbol('a'), sympy.Symbol('b'), sympy.Symbol('t_1')]
MOM = [sympy.Symbol('k_x'), sympy.Symbol('k_y'), sympy.Symbol('k_z')]


def substitute(poly_key, B):
    """monomial of kappa = B k as dict over exponents of k"""
    dim = len(B)
    poly = {(0,) * dim: 1.}
    for i, n in enumerate(poly_key):
        for _ in range(n):
            new = {}
            for ex, c in poly.items():
                for j in range(dim):
                    if abs(B[i][j]) > 1e-12:
                        e2 = ex[:j] + (ex[j] + 1,) + ex[j + 1:]
                        new[e2] = new.get(e2, 0) + c * B[i][j]
            poly = new
    return poly


def to_model(f, A=None, W=None, scales=None, fmt='dense', cls='model', exact=None, rng=None):
    """Library model: k = A kappa, Hilbert space basis rotated by W, parameters scaled"""
    dim = f.dim
    A = np.eye(dim) if A is None else A
    W = np.eye(f.N) if W is None else W
    conv = (lambda M: M) if fmt == 'dense' else (lambda M: sp.csr_matrix(M) if fmt == 'csr' else sp.csc_matrix(M))
    mom = MOM[:dim]
    out = {}
    B = np.linalg.inv(A) if dim else A
    for p, d in enumerate(f.t):
        for k, M in d.items():
            M = W @ M @ W.conj().T * (1 if scales is None else scales[p])
            if f.mode == 'poly':
                for ex, c in substitute(k, B).items():
                    if abs(c) < 1e-12:
                        continue
                    key = PARAMS[p] * sympy.Mul(*[m ** n for m, n in zip(mom, ex)])
                    out[key] = out.get(key, 0) + c * M
            elif cls == 'bloch':
                key = BlochCoeff(np.array(B.T @ np.array(k, float)), PARAMS[p])
                hit = [q for q in out if q == key]
                out[hit[0] if hit else key] = (out[hit[0]] if hit else 0) + M
            else:
                hop = [sympy.Integer(x) for x in k] if exact is None else list(exact.inv().T * sympy.Matrix(k))
                key = PARAMS[p] * E ** sympy.expand(sympy.Add(*[sympy.I * h * m for h, m in zip(hop, mom)]))
                out[key] = out.get(key, 0) + M
    out = {k: conv(np.array(v)) for k, v in out.items() if np.any(np.abs(v) > 1e-10)}
    if rng is not None:     # any order of the terms
        ks = list(out)
        out = {ks[i]: out[ks[i]] for i in rng.permutation(len(ks))}
    # shape/format of an empty model
    kw = {}
    if not out:
        kw = dict(shape=(f.N, f.N), format=np.ndarray if fmt == 'dense' else type(conv(np.eye(f.N))))
    return (BlochModel if cls == 'bloch' else Model)(out, momenta=mom, **kw)


def cart(R, A, kind, exact=None):
    """library form of an integer rotation"""
    R = np.array(R, int)
    if kind == 'int':
        return R
    if kind == 'sympy':
        M = exact if exact is not None else sympy.eye(len(R))
        return sympy.ImmutableMatrix((M * sympy.Matrix(R) * M.inv()).applyfunc(sympy.nsimplify).applyfunc(sympy.radsimp))
    return A @ R @ np.linalg.inv(A)


def back(R, A):
    """integer rotation of a library R, or something no specification expects"""
    M = np.array(np.array(R).tolist(), dtype=float).reshape(len(A), len(A))
    M = np.linalg.inv(A) @ M @ A
    r = np.round(M).astype(int)
    return (r if np.allclose(M, r, atol=1e-6) else r * 0 + 99).tolist()


S = 10**5


def fixed(U):
    U = np.asarray(U, complex)
    if U.ndim != 2 or not np.all(np.isfinite(U)) or np.max(np.abs(U)) > 10:
        return [[999 * S]], [[0]]
    return np.round(U.real * S).astype(int).tolist(), np.round(U.imag * S).astype(int).tolist()


def result(g, A, W):
    """projected library element in lattice coordinates and the original basis"""
    U = g.U
    if U is None:
        Ur, Ui = [], []
    else:
        U = W.conj().T @ U @ (W.conj() if g.conjugate else W) if U.shape == W.shape else U
        Ur, Ui = fixed(U)
    return dict(R=back(g.R, A), c=bool(g.conjugate), a=bool(g.antisymmetry), Ur=Ur, Ui=Ui)


def rand_W(rng, N):
    return unitary_group.rvs(N, random_state=int(rng.integers(2**31))) if N > 1 else np.array([[np.exp(1j * rng.random())]])
