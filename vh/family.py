"""Symmetries with exact (known) unitaries, families of models and their projections."""
import itertools as it
import numpy as np, sympy, scipy.linalg as sla
import qsymm
from qsymm import PointGroupElement, ContinuousGroupGenerator, BlochModel
from . import finder as F
from . import models as MD

XS = 20000
WS = 2000
SX, SY, SZ = np.array([[0, 1], [1, 0]], complex), np.array([[0, -1j], [1j, 0]]), np.diag([1, -1]).astype(complex)
S0 = np.eye(2, dtype=complex)
L1 = np.array([[[0, 0, 0], [0, 0, -1j], [0, 1j, 0]], [[0, 0, 1j], [0, 0, 0], [-1j, 0, 0]], [[0, -1j, 0], [1j, 0, 0], [0, 0, 0]]])


def spin(twos):
    """matrices of spin twos/2"""
    if twos == 1:
        return np.array([SX, SY, SZ]) / 2
    if twos == 2:
        return L1
    n = twos + 1
    m = twos / 2 - np.arange(n)
    sp_ = np.diag([np.sqrt(twos / 2 * (twos / 2 + 1) - x * (x + 1)) for x in m[1:]], 1)
    return np.array([(sp_ + sp_.T) / 2, (sp_ - sp_.T) / 2j, np.diag(m)]).astype(complex)


class Sym:
    """kind 'pg': integer R (lattice), c, a, U; kind 'cont': integer r with R = i A r A^-1 / lam, U"""
    def __init__(s, kind, R=None, c=False, a=False, U=None, r=None, lam=1, ph=0):
        s.kind, s.c, s.a, s.U, s.lam, s.ph = kind, bool(c), bool(a), np.asarray(U, complex), lam, ph
        s.R = None if R is None else np.array(R, int)
        s.r = None if r is None else np.array(r, int)

    def lib(s, A, V, rkind='float', exact=None, none_ok=True):
        U = V @ s.U @ (V.T if s.c else V.conj().T)
        if s.kind == 'pg':
            return PointGroupElement(F.cart(s.R, A, rkind, exact), s.c, s.a, U)
        if not np.any(s.r) and none_ok:
            return ContinuousGroupGenerator(None, U)
        return ContinuousGroupGenerator(1j * (A @ s.r @ np.linalg.inv(A)) / s.lam if len(A) else np.zeros((0, 0)), U)

    def rec(s, pr):
        """JSON record; None if the unitary is not in the field"""
        U = s.U * s.lam
        n = np.max(np.abs(U)) if U.size else 1
        we, ws, W = None, 1, None
        for ws in (1, 2):
            if np.allclose(ws * U, np.round(ws * U)):
                W, we = np.round(ws * U), 0
                break
        if W is None:
            # monomial up to one real factor
            if s.kind == 'pg':
                v = np.abs(U[np.abs(U) > 1e-9]).min()
                for q in (1, 2, 3, 4, 6):
                    x = U / v * np.sqrt(q)
                    if np.allclose(x, np.round(x)):
                        W, we, ws = np.round(x), 0, 1
                        break
        if W is None:
            ws, we = WS, 1
            W = np.round(ws * U)
        z = pr.cmat(U)
        if any(x < 0 for row in z[0] + z[1] for x in row):
            return None
        d = len(s.R) if s.kind == 'pg' else len(s.r)
        phz = pr.frac(s.ph * s.lam) if s.kind == 'cont' else 0
        return dict(kind=s.kind, R=s.R.tolist() if s.kind == 'pg' else np.eye(d, dtype=int).tolist(),
                    r=(s.r * ws).tolist() if s.kind == 'cont' else [[0] * d] * d, c=s.c, a=s.a,
                    Wr=W.real.astype(int).tolist(), Wi=W.imag.astype(int).tolist(), we=we, ws=ws * s.lam, z=z,
                    rz=s.r.tolist() if s.kind == 'cont' else [[0] * d] * d, ph=int(s.ph), phz=phz)


def rot3(R, A):
    """Cartesian O(3) matrix of an integer rotation in one to three dimensions and whether it is improper"""
    d = len(R)
    C = A @ np.array(R) @ np.linalg.inv(A) if d else np.zeros((0, 0))
    M = np.eye(3)
    M[:d, :d] = C
    improper = np.linalg.det(M) < 0
    return (-M if improper else M), improper


def spin_rep(R, A, twos):
    M, imp = rot3(R, A)
    w = np.real(np.trace(M) - 1) / 2
    ang = np.arccos(np.clip(w, -1, 1))
    if ang < 1e-9:
        n = np.array([0, 0, 1.])
    elif abs(ang - np.pi) < 1e-7:
        B = (M + np.eye(3)) / 2
        i = int(np.argmax(np.diag(B)))
        n = B[:, i] / np.sqrt(B[i, i])
    else:
        n = np.array([M[2, 1] - M[1, 2], M[0, 2] - M[2, 0], M[1, 0] - M[0, 1]]) / (2 * np.sin(ang))
    S = spin(twos)
    return sla.expm(-1j * ang * np.einsum('i,iab->ab', n, S)), imp


ORB = [np.eye(1), np.eye(1), S0, SX, SZ, SY, 1j * SY]


def rand_sym(rng, dim, A, N, R, c, a):
    """a unitary for the element (R, c, a) on N states: representations or anything unitary"""
    r = rng.random()
    if r < .25 or N == 1:
        return Sym('pg', R, c, a, F.mono_U(rng, N))
    ns = [t for t in (1, 2, 3) if N % (t + 1) == 0]
    if not ns or r < .3:
        return Sym('pg', R, c, a, F.mono_U(rng, N, phases=False))
    t = ns[rng.integers(len(ns))]
    U, imp = spin_rep(R, A, t)
    k = N // (t + 1)
    O = F.mono_U(rng, k, phases=rng.random() < .5)
    if c:
        U = U @ sla.expm(-1j * np.pi * spin(t)[1])
    return Sym('pg', R, c, a, np.kron(O, U) * (1j ** rng.integers(4) if rng.random() < .3 else 1))


def rand_cont(rng, dim, N, rot=True):
    """onsite conserved quantity or a rotation generator (orthonormal lattices only)"""
    L = {2: [np.array([[0, -1], [1, 0]])], 3: [np.round(-1j * L).real.astype(int) for L in L1]}.get(dim)
    if rot and L and rng.random() < .75:
        i = rng.integers(len(L))
        ax = 2 if dim == 2 else i
        ns = [t for t in (1, 2, 3) if N % (t + 1) == 0]
        r = L[i]
        if ns and rng.random() < .8:
            t = ns[rng.integers(len(ns))]
            U = np.kron(np.eye(N // (t + 1)), spin(t)[ax])
        else:
            U = np.diag(rng.integers(-1, 2, N)).astype(complex)
        if rng.random() < .15:
            r = -r
        return Sym('cont', r=r * 2, lam=2, U=U)
    if rng.random() < .15:      # a small constraint
        return Sym('cont', r=np.zeros((dim, dim), int), U=np.diag(rng.integers(-1, 2, N)) / 128, lam=128)
    M = rng.integers(-1, 2, (N, N)) + 1j * rng.integers(-1, 2, (N, N))
    M = M + M.conj().T if rng.random() < .4 else np.diag(rng.integers(-1, 2, N)).astype(complex)
    return Sym('cont', r=np.zeros((dim, dim), int), U=M)


def function_space(keys, mode, dim, N):
    f = F.Fam(mode, dim, N, 1)
    for k in keys:
        f.add(0, k, np.eye(N))
    M = F.spec_model(f)
    for x in ('re', 'im'):
        M[x] = []
    return M


def member(m, names, A, mode, conv):
    """{lattice key: matrix} of a library model; conv maps matrices to the original basis"""
    out, extra = {}, False
    dim = len(A)
    for key, val in m.data.items():
        val = conv(np.asarray(MD.arr(val), complex))
        it_ = MD.bkey(key, m.momenta, names) if isinstance(m, BlochModel) else MD.parse_key(key, names)
        for c, ex, ph in it_:
            if len(ex) > dim and any(ex[dim:]):
                extra = True
                continue
            if mode == 'poly':
                if any(abs(x) > 1e-9 for x in ph) or any(x < 0 for x in ex):
                    extra = True
                    continue
                for k, v in F.substitute(ex[:dim], A).items():
                    out[k] = out.get(k, 0) + v * c * val
            else:
                d = A.T @ np.array(ph, float) if dim else np.zeros(0)
                k = np.round(d).astype(int)
                if any(ex) or np.max(np.abs(d - k), initial=0) > 1e-6:
                    extra = True
                    continue
                k = tuple(int(x) for x in k)
                out[k] = out.get(k, 0) + c * val
    return out, extra


def project(family, names, A, mode, keys, N, conv=lambda x: x, shape=None):
    """members as fixed point numbers, rank, extra"""
    mem, vecs, extra = [], [], False
    keys = [tuple(k) for k in keys]
    for m in family:
        d, x = member(m, names, A, mode, conv)
        extra |= x
        arr = np.zeros((len(keys), N, N), complex)
        for k, v in d.items():
            if np.max(np.abs(v)) < 1e-9:
                continue
            if k not in keys or v.shape != (N, N):
                extra = True
                continue
            arr[keys.index(k)] = v
        mx = np.max(np.abs(arr), initial=0)
        if not np.isfinite(mx):
            extra = True
            arr[:] = 0
        elif mx > 0:
            arr = arr / mx
        mem.append(dict(re=np.round(arr.real * XS).astype(int).tolist(), im=np.round(arr.imag * XS).astype(int).tolist()))
        vecs.append(np.concatenate([arr.real.ravel(), arr.imag.ravel()]))
    return mem, rank(vecs), bool(extra)


def rank(vecs):
    """rank of normalised vectors; -1 if some vanish"""
    if not len(vecs):
        return 0
    V = np.array(vecs)
    n = np.linalg.norm(V, axis=1)
    if np.any(n < 1e-9):
        return -1
    s = np.linalg.svd(V / n[:, None], compute_uv=False)
    return int(np.sum(s > 1e-7))
