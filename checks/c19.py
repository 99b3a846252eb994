"""C19: Bravais point groups against exact enumeration of the isometries of integer Gram matrices."""
import itertools as it
import numpy as np, warnings
from vh.check import Check, main
import qsymm

CENT = {'P': np.eye(3), 'I': np.array([[-1, 1, 1], [1, -1, 1], [1, 1, -1]]) / 2, 'F': np.array([[0, 1, 1], [1, 0, 1], [1, 1, 0]]) / 2,
        'C': np.array([[1, -1, 0], [1, 1, 0], [0, 0, 2]]) / 2, 'R': np.array([[2, 1, 1], [-1, 1, 1], [-1, -2, 1]]) / 3}


def conventional(rng):
    """Gram matrix of a conventional cell, times 36, in integers"""
    p = [4, 5, 6, 7, 8, 9, 10, 12, 15, 18, 3, 2]
    a, b, c = (int(x) for x in rng.choice(p, 3))
    k = rng.integers(9)
    off = lambda x, y: int(rng.integers(-int(np.sqrt(x * y) * .7), int(np.sqrt(x * y) * .7) + 1))
    if k == 0: G, cent = np.diag([a, a, a]), 'PIF'
    elif k == 1: G, cent = np.diag([a, a, c]), 'PIFC'
    elif k == 2: G, cent = np.diag([a, b, c]), 'PIFC'
    elif k in (3, 4): G, cent = np.array([[2 * a, -a, 0], [-a, 2 * a, 0], [0, 0, 2 * c]]), 'PR'
    elif k in (5, 6):
        o = off(a, c)
        G, cent = np.array([[a, 0, o], [0, b, 0], [o, 0, c]]), 'PCI'
    elif k == 7:
        o = off(a, a)
        G, cent = np.array([[a, o, o], [o, a, o], [o, o, a]]), 'P'
    else: G, cent = np.array([[a, off(a, b), off(a, c)], [0, b, off(b, c)], [0, 0, c]]), 'P'
    G = np.triu(G) + np.triu(G, 1).T
    B = CENT[cent[rng.integers(len(cent))]]
    G = B @ (36 * G) @ B.T
    assert np.allclose(G, np.round(G))
    G = np.round(G).astype(int)
    return G // np.gcd.reduce(G.ravel())


def reduce(G):
    """pairwise (Selling-like) reduction: short basis of the same lattice"""
    n = len(G)
    T = np.eye(n, dtype=int)
    while True:
        H = T @ G @ T.T
        best = None
        for i in range(n):
            for co in it.product((-1, 0, 1), repeat=n):
                if co[i] != 1:
                    continue
                v = np.array(co) @ T
                if v @ G @ v < H[i, i]:
                    best = (i, v)
        if best is None:
            return H, T
        T[best[0]] = best[1]


def gram(rng):
    r = rng.random()
    if r < .05:
        return np.array([[int(rng.integers(1, 9))]])
    if r < .35:
        a, b = (int(x) for x in rng.choice([1, 2, 3, 4, 5, 6, 8, 9, 12], 2))
        k = rng.integers(5)
        G = [np.diag([a, b]), np.diag([a, a]), np.array([[2 * a, -a], [-a, 2 * a]]), np.array([[a + b, a - b], [a - b, a + b]]), None][k]
        if G is None:
            o = int(rng.integers(-int(np.sqrt(a * b) * .9), int(np.sqrt(a * b) * .9) + 1))
            G = np.array([[a, o], [o, b]])
        return G
    if r < .55:   # small random Gram matrices
        while True:
            M = rng.integers(-2, 3, (3, 3))
            if abs(round(np.linalg.det(M))) > 0:
                return M @ M.T
    while True:
        G = conventional(rng)
        if np.all(np.linalg.eigvalsh(G) > 1e-6 * np.trace(G)) and np.max(np.abs(G)) < 4000:
            return G


def exhaustive(nmax, dim=3):
    """all Gram matrices with obtuse/acute small entries up to trivial permutations"""
    out = []
    for d in it.combinations_with_replacement(range(1, nmax + 1), dim):
        offs = [range(-(d[i] // 2), d[i] // 2 + 1) for i, j in it.combinations(range(dim), 2)]
        for o in it.product(*offs):
            G = np.diag(d)
            for (i, j), x in zip(it.combinations(range(dim), 2), o):
                G[i, j] = G[j, i] = x
            if np.min(np.linalg.eigvalsh(G)) > .05 and sum(x < 0 for x in o) in (0, 1, 3) and np.gcd.reduce(G.ravel()) == 1:
                out.append(G)
    return out


def unimodular(rng, n, steps):
    T = np.eye(n, dtype=int)
    for _ in range(steps):
        if n > 1:
            i, j = rng.choice(n, 2, replace=False)
            T[i] += int(rng.integers(-2, 3)) * T[j]
    T = T[rng.permutation(n)] * rng.choice([-1, 1], (n, 1))
    return T


def event(s, rng, G, plain=False):
    n = len(G)
    G0, T = reduce(G)
    P0 = np.linalg.cholesky(G0.astype(float))
    emb = n
    if not plain:
        if rng.random() < .25:
            emb = n + int(rng.integers(1, 3))
        P0 = P0 @ np.linalg.qr(rng.normal(size=(emb, emb)))[0][:n] * [1, 1, rng.random() * 3 + .2][rng.integers(3)]
    while True:
        W = unimodular(rng, n, 0 if plain else int(rng.integers(0, 5)))
        if np.max(np.abs(W)) < 30:
            break
    per = W @ P0
    fr = P0
    if emb > n:
        # results are given in the frame of the orthonormalized periods
        q, r = np.linalg.qr(per.T)
        fr = P0 @ (q * np.sign(np.diag(r)))
    tr, ph = bool(rng.random() < .4), bool(rng.random() < .4)
    arg = per.tolist() if rng.random() < .3 else per
    res = qsymm.bravais_point_group(arg, tr=tr, ph=ph)
    gens = qsymm.bravais_point_group(arg, tr=tr, ph=ph, generators=True)

    def conv(g):
        R = np.array(np.array(g.R).tolist(), dtype=float)
        M = fr @ R.T @ np.linalg.inv(fr)
        Mi = np.round(M).astype(int)
        return dict(M=(Mi if np.allclose(M, Mi, atol=1e-5) else Mi * 0 + 77).tolist(), c=bool(g.conjugate), a=bool(g.antisymmetry))
    s.ev('bravais', G0=G0.tolist(), tr=tr, ph=ph, res=[conv(g) for g in res], gens=[conv(g) for g in gens],
         unitary=any(g.U is not None for g in res | gens), periods=str(np.round(per, 8).tolist()))


def body():
    ck = Check('C19', 'C19', 'JC19')
    rng = ck.rng
    for i in range(ck.scale(200, 3000)):
        G = gram(rng)
        with ck.session(f'{len(G)}d/{i}') as s:
            event(s, rng, G)
            if rng.random() < .3:
                event(s, rng, G)
    # lattices that are nearly, but not exactly, more symmetric
    for i in range(ck.scale(60, 600)):
        while True:
            G = gram(rng)
            K = int(rng.choice([100, 200, 400]))
            G = K * (G // np.gcd.reduce(G.ravel()))
            D = np.array([[[0, 0, 1, -1][rng.integers(4)] for _ in G] for _ in G])
            G = G + D + D.T
            if np.max(np.abs(G)) < 6000 and np.all(np.linalg.eigvalsh(G) > 1e-2 * np.trace(G)):
                break
        with ck.session(f'near/{len(G)}d/{i}') as s:
            event(s, rng, G)
    ex = [G for m, d in ((5, 1), (6, 2), (ck.scale(4, 5), 3)) for G in exhaustive(m, d)]
    for i in (range(len(ex)) if ck.thorough else rng.permutation(len(ex))[:150]):
        with ck.session(f'all/{i}') as s:
            event(s, rng, ex[i])
    return ck.finish()


if __name__ == '__main__':
    main(body)
