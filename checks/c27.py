"""C27: symmetry adapted bases are a full set of irreducible blocks; Lie algebra utilities."""
import numpy as np, warnings
import scipy.linalg as la
from vh.check import Check, main
from vh import finder as F
from checks.c15 import make, library
from checks.c17 import blocks, matrix, rank, residual
import qsymm
from qsymm.symmetry_finder import symmetry_adapted_sun, struct_const, killing, casimir, separate_lie_algebra, conserved_quantities
from qsymm import PointGroupElement


def cols(P, W):
    P = W.conj().T @ np.asarray(P, complex)
    if P.ndim != 2 or not np.all(np.isfinite(P)):
        return dict(r=[[]], i=[[]])
    return dict(r=np.round(P.real * 30000).astype(int).tolist(), i=np.round(P.imag * 30000).astype(int).tolist())


def gmat(g):
    return dict(r=np.round(g.real).astype(int).tolist(), i=np.round(g.imag).astype(int).tolist())


def gint(z):
    r, i = int(round(z.real)), int(round(z.imag))
    return [r, i] if abs(z - complex(r, i)) < 1e-6 else [99999, 99999]


def su(d):
    """basis of su(d) whose brackets have integer coefficients"""
    out = []
    for a in range(d):
        for b in range(a + 1, d):
            x = np.zeros((d, d), complex); x[a, b] = x[b, a] = 1
            y = np.zeros((d, d), complex); y[a, b] = -1j; y[b, a] = 1j
            out += [x, y]
    for a in range(d - 1):
        z = np.zeros((d, d), complex); z[a, a] = 1; z[a + 1, a + 1] = -1
        out.append(z)
    return out


PAULI = [np.array([[0, 1], [1, 0]], complex), np.array([[0, -1j], [1j, 0]]), np.diag([1, -1]).astype(complex)]
VEC = []
for k in range(3):
    L = np.zeros((3, 3), complex)
    i, j = (k + 1) % 3, (k + 2) % 3
    L[i, j], L[j, i] = -1j, 1j
    VEC.append(L)


def embed(x, off, N):
    out = np.zeros((N, N), complex)
    out[off:off + len(x), off:off + len(x)] = x
    return out


def mix(rng, gens, k):
    """unimodular change of the basis"""
    gens = [g.copy() for g in gens]
    for _ in range(k):
        i, j = rng.integers(len(gens), size=2)
        if i != j:
            g = gens[i] + (1 if rng.integers(2) else -1) * gens[j]
            if np.max(np.abs(g)) <= 4:
                gens[i] = g
    return [gens[i] for i in rng.permutation(len(gens))]


def algebra(rng, maxN):
    """generators, Casimir values"""
    facs, N = [], 0
    while True:
        t = ['su2', 'su2', 'su3', 'vec', 'spin+vec', 'u1', 'u1', 'su2x'][rng.integers(8)]
        n = int(rng.integers(1, 3))
        size = {'su2': 2 * n, 'su3': 3, 'vec': 3 * (1 if maxN < 6 else n), 'spin+vec': 5, 'u1': n, 'su2x': 4}[t]
        if N + size > maxN:
            if facs:
                break
            continue
        facs.append((t, N, size)); N += size
        if rng.random() < .4 or N == maxN:
            break
    gens, cas = [], []
    for t, off, size in facs:
        if t == 'su2':
            gens += [embed(np.kron(x, np.eye(size // 2)), off, N) for x in PAULI]; cas += [[3, 8]] * size
        elif t == 'su2x':
            gens += [embed(np.kron(np.eye(2), x), off, N) for x in PAULI]; cas += [[3, 8]] * size
        elif t == 'su3':
            gens += [embed(x, off, N) for x in su(3)]; cas += [[4, 9]] * 3
        elif t == 'vec':
            gens += [embed(np.kron(x, np.eye(size // 3)), off, N) for x in VEC]; cas += [[1, 1]] * size
        elif t == 'spin+vec':
            gens += [embed(la.block_diag(x, 2 * y), off, N) for x, y in zip(PAULI, VEC)]; cas += [[3, 8]] * 2 + [[1, 1]] * 3
        else:
            gens += [embed(np.eye(size), off, N)]; cas += [[0, 1]] * size
        if t != 'u1' and rng.random() < .3:
            gens += [embed(np.eye(size), off, N)]
    if not any(t != 'u1' for t, _, _ in facs) and len(gens) > 1 and rng.random() < .5:
        gens = gens[:-1]
    return gens, cas, N


def call(f):
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        try:
            return f(), False
        except ValueError:
            return None, True


def inspan(x, gens):
    A = np.array([g.ravel() for g in gens]).T
    c = np.linalg.lstsq(A, np.asarray(x).ravel(), rcond=None)[0]
    return bool(np.max(np.abs(A @ c - np.asarray(x).ravel())) < 1e-6 * max(1, np.max(np.abs(x))))


def body():
    ck = Check('C27', 'C27', 'JC27')
    rng = ck.rng
    n = 0
    while n < ck.scale(170, 2500):
        c = blocks(rng, int(rng.integers(1, 8))) if rng.random() < .7 else make(rng, maxN=5, big=24)
        if c is None or c.f.N > 7 or len(c.f.t) == 0:
            continue
        n += 1
        p = library(c, rng)
        with ck.session(f'reduced/{c.name}/{c.mode}/{c.kind}/{n}') as s, warnings.catch_warnings():
            warnings.simplefilter('ignore')
            one = PointGroupElement(F.cart(np.eye(c.dim, dtype=int), p.A, p.rk, p.exact), False, False, None)
            sparse = bool(rng.random() < .3 and c.f.N >= 2)
            Ps = qsymm.discrete_symmetries(p.model, {one}, sparse_linalg=sparse)[1]
            sm = F.spec_model(c.f)
            s.ev('reduced', M=sm, B=[[cols(x, p.W) for x in P] for P in Ps], how=f'{p.cls} {p.fmt} {sparse}')
            keep = [np.array(P) for P in Ps]
            if rng.random() < .5:
                Ls = [np.asarray(g.U) for g in conserved_quantities(Ps, prettify=bool(rng.integers(2)), num_digits=8)]
                s.ev('conserved', **residual(p.model, Ls, 8), M=sm, L=[matrix(L, p.W) for L in Ls], rank=rank(Ls), pure=True, how='from adapted basis')
            if p.cands and rng.random() < .4:
                res = sorted(qsymm.discrete_symmetries(p.model, set(p.cands), Ps=Ps)[0])
                rec = lambda b: dict(R=np.asarray(b[0]).tolist(), c=b[1], a=b[2])
                s.ev('find', M=F.spec_model(c.f, c.group), cand=[rec(b) for b in c.cand], res=[F.result(g, p.A, p.W) for g in res],
                     gen=False, tests=bool(rng.random() < .3), known=[rec(b) for b in c.known], how='with given adapted basis')
            assert all(np.array_equal(x, y) for x, y in zip(keep, Ps)), 'adapted basis modified'
    for rep in range(ck.scale(60, 600)):
        with ck.session(f'sun/{rep}') as s:
            d, m = [(2, 1), (2, 2), (2, 3), (3, 1), (3, 2), (2, 4), (4, 1), (4, 2), (3, 3)][rng.integers(7 if not ck.thorough else 9)]
            gens = mix(rng, [np.kron(x, np.eye(m)) for x in su(d)], int(rng.integers(0, 8)))
            V = F.mono_U(rng, d * m)
            gens = [V @ g @ V.conj().T for g in gens]
            W = F.rand_W(rng, d * m) if rng.integers(2) else np.eye(d * m)
            lib = np.array([W @ g @ W.conj().T for g in gens])
            lib = lib * [1, .05, 7.5][rng.integers(3)]
            Ps = symmetry_adapted_sun(lib, check=bool(rng.integers(2)))
            s.ev('sun', d=d, n=m, G=[gmat(g) for g in gens], B=[cols(P, W) for P in Ps])
    for rep in range(ck.scale(150, 1500)):
        with ck.session(f'lie/{rep}') as s:
            gens, cas, N = algebra(rng, int(rng.integers(2, 8)))
            V = F.mono_U(rng, N)
            perm = np.argmax(np.abs(V), axis=1)
            gens = [V @ g @ V.conj().T for g in mix(rng, gens, int(rng.integers(0, 6)))]
            cas = [cas[i] for i in perm]
            W = F.rand_W(rng, N) if rng.random() < .4 else np.eye(N)
            if rng.random() < .5:
                gens_l = np.array([W @ g @ W.conj().T for g in gens])
            else:
                W, gens_l = np.eye(N), np.array(gens)
            keep = gens_l.copy()
            C = struct_const(gens_l)
            K = killing(gens_l)
            ce, se = separate_lie_algebra(gens_l)
            Q, raised = call(lambda: casimir(gens_l))
            s.ev('lie', G=[gmat(g) for g in gens], C=[[[gint(z) for z in x] for x in y] for y in C], K=[[gint(z) for z in x] for x in K],
                 centre=[matrix(x, W) for x in ce], semi=[matrix(x, W) for x in se], crank=rank(list(ce)), srank=rank(list(se)),
                 cspan=all(inspan(x, gens_l) for x in ce), sspan=all(inspan(x, gens_l) for x in se),
                 casraised=raised, Q=dict(zip(('Ur', 'Ui'), F.fixed(W.conj().T @ Q @ W))) if not raised else 0, cas=cas)
            assert np.array_equal(keep, gens_l), 'generators modified'
    for rep in range(ck.scale(60, 600)):
        with ck.session(f'open/{rep}') as s:
            if rng.random() < .5:
                gens, _, N = algebra(rng, int(rng.integers(2, 7)))
                if len(gens) < 3:
                    continue
                gens = mix(rng, gens, 2)[:-1]
            else:
                N = int(rng.integers(2, 5))
                gens = []
                for _ in range(rng.integers(2, 4)):
                    x = rng.integers(-2, 3, (N, N)) + 1j * rng.integers(-2, 3, (N, N))
                    gens.append(x + x.conj().T)
            if rank(gens) != len(gens):
                continue
            g = np.array(gens) * [1, .05, 7.5][rng.integers(3)]
            s.ev('open', G=[gmat(x) for x in gens], raised=[call(lambda: f(g))[1] for f in (struct_const, killing, casimir, separate_lie_algebra)])
    return ck.finish()


if __name__ == '__main__':
    main(body)
