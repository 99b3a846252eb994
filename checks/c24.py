"""C24: lattice reduction, closest vectors, Voronoi vectors."""
import numpy as np
from scipy.linalg import expm
from vh.check import Check, main
from qsymm import kwant_linalg_lll as LL


def unimod(rng, r, steps, size):
    U = np.eye(r, dtype=int)
    if r == 1:
        return U * rng.choice([-1, 1])
    for _ in range(steps):
        i, j = rng.choice(r, 2, replace=False)
        U[i] += rng.integers(-size, size + 1) * U[j]
    U = U[rng.permutation(r)]
    return U * rng.choice([-1, 1], r)[:, None]


def det(A):
    return int(round(np.linalg.det(A)))


SPECIAL = [np.eye(2, dtype=int), np.array([[1, 1, 0], [0, 1, 1], [1, 0, 1]]), np.array([[-1, 1, 1], [1, -1, 1], [1, 1, -1]]),
           np.array([[1, -1, 0], [0, 1, -1]]), np.array([[1, -1, 0, 0], [0, 1, -1, 0], [0, 0, 1, -1], [0, 0, 1, 1]]),
           np.array([[1, -1, 0, 0, 0], [0, 1, -1, 0, 0], [0, 0, 1, -1, 0], [0, 0, 0, 1, -1]]), np.eye(4, dtype=int),
           np.eye(3, dtype=int), np.array([[2, 0], [0, 3]]), np.array([[1, -1, 0, 0], [0, 1, -1, 0], [0, 0, 0, 3]])]


def rbasis(rng, rmax=4):
    """integer basis of small vectors"""
    while True:
        if rng.random() < .3:
            R = SPECIAL[rng.integers(len(SPECIAL))] * int(rng.integers(1, 3))
        else:
            r = int(rng.choice([1, 2, 2, 3, 3, 3, 4]))
            d = int(rng.integers(r, min(5, r + 2) + 1))
            s = 3 if r < 4 else 2
            R = rng.integers(-s, s + 1, (r, d))
        if len(R) > rmax:
            continue
        G = R @ R.T
        D = det(G)
        if 0 < D < 3000 and np.linalg.cond(G) < 200:
            return R, G


def tinyfacet(rng):
    """nearly orthogonal planar basis: a.b = 1 with long vectors, one pair of facets of the Voronoi cell is tiny"""
    while True:
        p, q = (int(x) for x in rng.integers(20, 95, 2))
        if np.gcd(p, q) == 1:
            u = pow(p, -1, q)
            R = np.array([[p, q], [u - q, (1 - p * u) // q + p]])
            G = R @ R.T
            if np.max(G) < 20000 and abs(2 * G[0, 1]) < np.min(np.diag(G)):
                return R, G


def shells(R, U, t, q, D2):
    """cost estimate of the search of the library"""
    B = U @ R
    inv = np.linalg.inv((B @ B.T).astype(float))
    rad = .5 / np.sqrt(np.max(np.diag(inv)))
    l = int((np.sqrt(D2) / rad + 1) / 2) + 2
    return (2 * l + 1) ** len(B)


def embed(rng, B):
    """the same lattice in another frame: (float array handed to the library, map to integers)"""
    r, d = B.shape
    kind = rng.integers(5)
    if kind == 0:
        return B.astype(int), lambda v: v
    if kind == 1:
        return B.astype(float), lambda v: v
    s = float(rng.choice([1, 1e-3, .37, 12.5, 1e3]))
    d2 = d + int(rng.integers(0, 2))
    A = rng.normal(size=(d2, d2))
    O = expm(A - A.T)[:d]
    if kind == 4:
        s = float(rng.choice([1e-8, 1e6]))
    return s * B @ O, lambda v: v @ O.T / s


def near(R, U, t, q, n, group):
    """squared distance of the n-th vector, for the size of the enumeration"""
    G = (R @ R.T).astype(float)
    tr = np.array(t) @ U / q
    c = np.round(tr)
    w = {1: 60, 2: 5}.get(len(R), 3)
    pts = np.stack(np.meshgrid(*[np.arange(-w, w + 1)] * len(R), indexing='ij'), -1).reshape(-1, len(R)) + c - tr
    d = np.sort(np.einsum('ni,ij,nj->n', pts, G, pts))
    if group:
        d = d[np.concatenate([[True], np.diff(d) > 1e-6])]
    return d[min(n, len(d)) - 1], len(pts)


def minors(B):
    B = np.asarray(B).astype(int)
    d = [exact_det((B @ B.T)[:k, :k].tolist()) for k in range(1, len(B) + 1)]
    return [min(int(x), 2 * 10**9) for x in d]


def exact_det(A):
    if not A:
        return 1
    return sum((-1) ** j * A[0][j] * exact_det([r[:j] + r[j + 1:] for r in A[1:]]) for j in range(len(A)))


def clip(out, r, size=400):
    """(points, whether they are absurdly far away)"""
    out = np.asarray(out)
    if out.ndim != 2 or out.shape[1] != r or not np.issubdtype(out.dtype, np.integer) or np.max(np.abs(out), initial=0) > size:
        return [[0] * r], True
    return out.tolist(), False


def enumbox(R, D2):
    G = (R @ R.T).astype(float)
    w = np.sqrt(D2 * np.diag(np.linalg.inv(G)))
    return np.prod(2 * w + 1)


def body():
    ck = Check('C24', 'C24', 'JC24')
    lst = lambda A: np.asarray(A).astype(int).tolist()

    def build(rng, i):
        with ck.session(f'lattice/{i}') as ses:
            op = ['lll', 'lll', 'cvp', 'cvp', 'cvp', 'voronoi', 'voronoi', 'isred'][i % 8]
            if op == 'lll':
                while True:
                    R, G = rbasis(rng)
                    U = unimod(rng, len(R), int(rng.integers(0, 9)), int(rng.integers(1, 5)))
                    B = U @ R
                    if np.max(np.abs(B)) < 4000 and np.linalg.cond(B.astype(float)) < 1e5:
                        break
                L, back = embed(rng, B)
                cn, cd = [(134, 100), (134, 100), (2, 1), (3, 2), (11, 1), (193, 100)][rng.integers(5)]
                kw = {} if (cn, cd) == (134, 100) and rng.random() < .7 else dict(c=cn / cd)
                arg = L if rng.random() < .8 else L.tolist()
                keep = np.array(arg, copy=True)
                try:
                    vecs, coefs = LL.lll(arg, **kw)
                except (RuntimeError, ValueError, np.linalg.LinAlgError) as e:
                    ses.ev('lll', raised=True, B=lst(B), coefs=lst(np.eye(len(B))), vecs=lst(B), d=minors(B), exact=False, cn=cn, cd=cd, why=repr(e)[:80])
                    return
                v = back(vecs)
                vi = np.round(v)
                # floating point errors of the library are proportional to the size of the input
                ok = np.allclose(v, vi, atol=1e-5) and np.issubdtype(coefs.dtype, np.integer)
                ok = ok and np.array_equal(keep, np.array(arg)) and np.max(np.abs(v)) < 1000 and np.max(np.abs(coefs)) < 10**5
                if not ok:
                    vi, coefs = np.clip(vi, -1000, 1000), np.clip(coefs, -10**4, 10**4)
                ses.ev('lll', raised=False, B=lst(B), coefs=lst(coefs), vecs=lst(vi), d=minors(vi), exact=bool(ok), cn=cn, cd=cd)
            elif op == 'isred':
                while True:
                    R, G = rbasis(rng)
                    B = unimod(rng, len(R), int(rng.integers(0, 4)), 1) @ R
                    cn, cd = [(134, 100), (2, 1), (3, 1), (9, 7)][rng.integers(4)]
                    d = [1] + [np.linalg.det((B @ B.T)[:k, :k].astype(float)) for k in range(1, len(B) + 1)]
                    r = np.array(d[1:]) / np.array(d[:-1])
                    # away from the boundary, where rounding decides
                    if np.max(np.abs(B)) < 60 and max(d) < 1e5 and all(abs(a / b - cn / cd) > 1e-6 for a, b in zip(r, r[1:])):
                        break
                L, _ = embed(rng, B)
                ses.ev('isred', B=lst(B), d=minors(B), cn=cn, cd=cd, out=bool(LL.is_c_reduced(L.astype(float), cn / cd)))
            elif op == 'cvp':
                while True:
                    R, G = rbasis(rng)
                    U = unimod(rng, len(R), int(rng.integers(0, 5)), int(rng.integers(1, 3)))
                    q = int(rng.choice([1, 2, 2, 3, 4, 5, 6]))
                    t = rng.integers(-3 * q, 3 * q + 1, len(R))
                    if rng.random() < .2:
                        t = 0 * t
                    n = int(rng.integers(1, 9))
                    group = bool(rng.random() < .5)
                    if rng.random() < .1:
                        n = int(rng.integers(9, 40)) if not group else 9
                    D2, _ = near(R, U, t, q, n, group)
                    if enumbox(R, D2) < 4000 and shells(R, U, t, q, D2) < 2e5:
                        break
                B = U @ R
                L, back = embed(rng, B)
                x = t / q @ L
                if L.shape[1] > len(L) and rng.random() < .5:
                    # a component perpendicular to the lattice changes nothing
                    p = rng.normal(size=L.shape[1]) * np.max(np.abs(L))
                    x = x + p - np.linalg.pinv(L) @ (L @ p) if False else x + p - p @ np.linalg.pinv(L) @ L
                if rng.random() < .3:
                    x = x.tolist()
                kw = {}
                if n != 1 or rng.random() < .5:
                    kw['n'] = n
                if group:
                    kw['group_by_length'] = True
                    # distances have been computed with an error of the order of eps * |coordinates|
                    if rng.random() < .3:
                        kw['rtol'] = 1e-7
                try:
                    out = LL.cvp(x, L if rng.random() < .8 else L.tolist(), **kw)
                    raised = False
                except (RuntimeError, ValueError, np.linalg.LinAlgError) as e:
                    out, raised = np.zeros((0, len(R))), True
                pts, far = clip(out, len(R))
                ses.ev('cvp', raised=raised, B=lst(B), R=lst(R), U=lst(U), t=lst(t), q=q, n=n, group=group, out=pts, far=far and not raised, dmax=int(np.ceil(D2 * q * q + 1e-6)))
            else:
                while True:
                    R, G = rbasis(rng) if rng.random() < .9 else tinyfacet(rng)
                    U = unimod(rng, len(R), int(rng.integers(0, 5)), int(rng.integers(1, 3)))
                    # all vectors with odd/even parities are shorter than this
                    w = np.stack(np.meshgrid(*[[-1, 0, 1]] * len(R), indexing='ij'), -1).reshape(-1, len(R))
                    nr = np.einsum('ni,ij,nj->n', w, G, w)
                    par = (w % 2) @ (2 ** np.arange(len(R)))
                    bound = max(nr[par == k].min() for k in range(1, 2 ** len(R)))
                    if enumbox(R, bound) < 3000 and shells(R, U, None, 1, bound / 4) < 5e4:
                        break
                B = U @ R
                L, back = embed(rng, B)
                reduced = bool(rng.random() < .6)
                try:
                    out = LL.voronoi(L, reduced=True) if reduced else LL.voronoi(L if rng.random() < .8 else L.tolist())
                    raised = False
                except (RuntimeError, ValueError, np.linalg.LinAlgError) as e:
                    out, raised = np.zeros((0, len(R))), True
                pts, far = clip(out, len(R))
                ses.ev('voronoi', raised=raised, B=lst(B), R=lst(R), U=lst(U), reduced=reduced, bound=int(bound), out=pts, far=far and not raised)
            if i % 50 == 0:
                for what, f in [('1d basis', lambda: LL.lll([1., 2.])), ('too many vectors', lambda: LL.lll([[1., 0], [0, 1], [1, 1]])),
                                ('1d cvp basis', lambda: LL.cvp([1., 2.], [1., 2.])), ('1d voronoi basis', lambda: LL.voronoi([1., 2.]))]:
                    try:
                        f()
                        raised = False
                    except ValueError:
                        raised = True
                    ses.ev('reject', what=what, raised=raised)

    # the algorithms themselves, on all small bases
    F = ck.field.consts()
    ck.model('ReduceAlg', dict(S=ck.scale(2, 3), M=2, CN=134, CD=100, **F), ['SameLattice', 'Reduced'], properties=['Terminates'], label='basis reduction, all planar bases')
    if ck.thorough:
        ck.model('ReduceAlg', dict(S=1, M=3, CN=134, CD=100, **F), ['SameLattice', 'Reduced'], properties=['Terminates'], label='basis reduction, spatial bases')
    ck.model('ShellAlg', dict(S=ck.scale(1, 2), Q=2, Count=ck.scale(3, 5), **F), ['Complete'], properties=['Terminates'], label='closest vector search, all planar bases')
    ck.parallel(build, ck.scale(5000, 60000))
    return ck.finish()


if __name__ == '__main__':
    main(body)
