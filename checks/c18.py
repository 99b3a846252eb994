"""C18: continuous rotation symmetries."""
import itertools as it
import numpy as np, warnings
from vh.check import Check, main
from vh import finder as F
from checks.c15 import make, library, Case, find
from checks.c17 import matrix, rank, residual
import qsymm

SX, SY, SZ = np.array([[0, 1], [1, 0]]), np.array([[0, -1j], [1j, 0]]), np.diag([1, -1])
J1 = [np.array([[-1j * ((i - j) * (j - k) * (k - i) // 2) for k in range(3)] for j in range(3)]) for i in range(3)]   # (J_i)_jk = -i eps_ijk


class Poly:
    """polynomial in momenta with matrix coefficients"""
    def __init__(s, d):
        s.d = {k: v for k, v in d.items() if np.any(v)}

    def __add__(s, o):
        return Poly({k: s.d.get(k, 0) + o.d.get(k, 0) for k in set(s.d) | set(o.d)})

    def __matmul__(s, o):
        out = {}
        for (a, x), (b, y) in it.product(s.d.items(), o.d.items()):
            k = tuple(p + q for p, q in zip(a, b))
            out[k] = out.get(k, 0) + x @ y
        return Poly(out)

    def dag(s):
        return Poly({k: v.conj().T for k, v in s.d.items()})

    def scale(s, c):
        return Poly({k: c * v for k, v in s.d.items()})


def unit(dim, i):
    return tuple(int(i == j) for j in range(dim))


def rot3(rng, N0):
    """fully rotation symmetric ring in 3D; optional breaking to one axis"""
    z = (0, 0, 0)
    kind = rng.integers(6)
    if kind == 0:
        spins = [[SX, SY, SZ]]
    elif kind == 1:
        spins = [J1]
    elif kind == 2:
        spins = [[np.kron(s, np.eye(2)) for s in (SX, SY, SZ)], [np.kron(np.eye(2), s) for s in (SX, SY, SZ)]]
    elif kind == 3:
        spins = [[np.kron(s, np.eye(2)) for s in (SX, SY, SZ)]]
    elif kind == 4:
        return [], [Poly({unit(3, 0): np.zeros((1, 1))})], 1, rng
    else:   # scalar and vector: |0><i| k_i
        v = [np.zeros((4, 4), complex) for _ in range(3)]
        for i in range(3):
            v[i][0, 1 + i] = 1
        Js = [np.block([[np.zeros((1, 1)), np.zeros((1, 3))], [np.zeros((3, 1)), J]]) for J in J1]
        spins = [Js, v]
    N = len(spins[0][0])
    inv = [Poly({z: np.eye(N)}), Poly({tuple(2 * x for x in unit(3, i)): np.eye(N) for i in range(3)})]
    for S in spins:
        inv.append(Poly({unit(3, i): S[i] for i in range(3)}))
        inv.append(Poly({z: sum(S[i] @ S[i] for i in range(3))}))
    if len(spins) == 2:
        inv.append(Poly({z: sum(spins[0][i] @ spins[1][i] for i in range(3))}))
    if kind == 3:
        for s in (SX, SY, SZ):
            inv.append(Poly({z: np.kron(np.eye(2), s)}))
    ax = []
    for S in spins:
        ax.append(Poly({z: S[2]}))
        ax.append(Poly({unit(3, 2): S[2]}))
        ax.append(Poly({unit(3, 0): S[1], unit(3, 1): -S[0]}))
    ax.append(Poly({unit(3, 2): np.eye(N)}))
    return inv, ax, N, rng


def rot2(rng):
    """weights l_a: entries (k_x + i k_y)^(l_a - l_b) k^2n"""
    N = int(rng.integers(1, 5))
    l = rng.integers(0, 3, N)
    one = Poly({(0, 0): np.eye(1)})
    kp, k2 = Poly({(1, 0): np.eye(1), (0, 1): 1j * np.eye(1)}), Poly({(2, 0): np.eye(1), (0, 2): np.eye(1)})
    km = kp.dag()
    inv = []
    for a in range(N):
        for b in range(a + 1):
            m = int(l[a] - l[b])
            p = one
            for _ in range(abs(m)):
                p = p @ (kp if m > 0 else km)
            E = np.zeros((N, N)); E[a, b] = 1
            inv.append(Poly({k: v[0, 0] * E for k, v in p.d.items()}))
            if rng.random() < .5 and abs(m) < 2:
                inv.append(Poly({k: v[0, 0] * E for k, v in (p @ k2).d.items()}))
    ax = [Poly({(1, 0): np.eye(N)}), Poly({(0, 1): np.eye(N)})]
    return inv, ax, N, rng


def rotational(rng):
    dim = int(rng.integers(2, 4))
    inv, ax, N, _ = rot2(rng) if dim == 2 else rot3(rng, 2)
    if N == 1 and dim == 3:
        z = (0, 0, 0)
        inv = [Poly({z: np.eye(1)}), Poly({tuple(2 * x for x in unit(3, i)): np.eye(1) for i in range(3)})]
        ax = [Poly({unit(3, 2): np.eye(1)})]
    f = F.Fam('poly', dim, N, int(rng.integers(1, 4)))
    for p in range(len(f.t)):
        tot = Poly({})
        for _ in range(rng.integers(1, 3)):
            x = inv[rng.integers(len(inv))]
            if rng.random() < .4:
                x = x @ inv[rng.integers(len(inv))]
            if max((sum(k) for k in x.d), default=0) > 3:
                continue
            tot = tot + x.scale(int(rng.integers(1, 3)) * 1j ** int(rng.integers(4)))
        if rng.random() < .2:
            tot = tot + ax[rng.integers(len(ax))]
        tot = tot + tot.dag()
        for k, M in tot.d.items():
            f.add(p, k, M)
    return f.clean()


def case(rng):
    r = rng.random()
    if r < .25:
        c = make(rng, maxN=4)
        return c
    f = rotational(rng)
    if r > .75 and f.N <= 2:
        g = rotational(rng)
        while g.dim != f.dim or g.N > 2:
            g = rotational(rng)
        h = F.Fam('poly', f.dim, g.N, len(f.t))
        h.t = [dict(g.t[p]) if p < len(g.t) else {} for p in range(len(f.t))]
        f = f.dsum(h)
    elif .55 < r <= .68 and f.N <= 3:      # several blocks of various sizes
        n = int(rng.integers(2, 5))
        for _ in range(40):
            g = rotational(rng)
            if g.dim == f.dim and f.N + g.N <= 7 and n:
                h = F.Fam('poly', f.dim, g.N, len(f.t))
                h.t = [dict(g.t[p]) if p < len(g.t) else {} for p in range(len(f.t))]
                f = f.dsum(h)
                n -= 1
    elif r > .68 and f.N <= 2:
        f = f.dsum(f)
    if rng.random() < .5:
        f = f.applied(F.G(np.eye(f.dim, dtype=int), bool(rng.integers(2)), 0, F.mono_U(rng, f.N)))
    if not any(f.t) or f.max() > 100:
        return case(rng)
    c = Case()
    c.name = {2: 'square', 3: 'tetra'}[f.dim]
    c.dim, c.mode, c.kind, c.f, c.cand, c.group, c.A0 = f.dim, 'poly', 'rotational', f, [], [], np.eye(f.dim)
    return c


def body():
    ck = Check('C18', 'C18', 'JC18')
    rng = ck.rng
    for n in range(ck.scale(260, 2500)):
        c = case(rng)
        with ck.session(f'{c.name}/{c.mode}/{c.kind}/{n}') as s:
            p = library(c, rng)
            kw = dict(prettify=bool(rng.integers(2)), sparse_linalg=bool(rng.random() < .3))
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                if rng.random() < .5:
                    _, cont = qsymm.symmetries(p.model, [], continuous_rotations=True, **kw)
                    pure = [g for g in cont if g.R is None or np.allclose(g.R, 0)]
                    gens = cont[len(pure):]
                    assert all(g is h for g, h in zip(pure + gens, cont)), 'conserved quantities are not listed first'
                    Ls = [np.asarray(g.U) for g in pure]
                    s.ev('conserved', **residual(p.model, Ls, 8), M=F.spec_model(c.f), L=[matrix(L, p.W) for L in Ls], rank=rank(Ls), pure=True, how=f'{p.cls} {p.fmt} {kw}')
                else:
                    gens = qsymm.continuous_symmetries(p.model, **kw)
            A = p.A
            G = np.round((A.T @ A) / (A.T @ A)[0, 0] * 2).astype(int) if c.dim else np.zeros((0, 0), int)
            assert np.allclose(G, (A.T @ A) / (A.T @ A)[0, 0] * 2) if c.dim else True
            out = []
            for g in gens:
                U = p.W.conj().T @ np.asarray(g.U, complex) @ p.W
                R = np.asarray(g.R, complex)
                assert np.allclose(R.real, 0)
                r = np.linalg.inv(A) @ R.imag @ A
                sc = max(1, np.max(np.abs(U)), np.max(np.abs(r)))
                ur, ui = F.fixed(U / sc)
                out.append(dict(r=np.round(r / sc * F.S).astype(int).tolist(), Ur=ur, Ui=ui))
            s.ev('rotations', M=dict(F.spec_model(c.f), G=G.tolist()), g=out, bloch=p.cls == 'bloch',
                 rank=rank([np.asarray(g.R, complex) for g in gens]), how=f'{p.cls} {p.fmt} {kw}')
    return ck.finish()


if __name__ == '__main__':
    main(body)
