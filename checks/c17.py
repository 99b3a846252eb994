"""C17: conserved quantities are exactly the traceless Hermitian commutant."""
import numpy as np, warnings
from vh.check import Check, main
from vh import finder as F
from checks.c15 import make, library, symmetrized, Case
import qsymm


def blocks(rng, maxN):
    """family with prescribed multiplicities: direct sum of small families, some repeated, basis permuted"""
    mode = ['poly', 'hop'][rng.integers(2)]
    dim = int(rng.integers(0, 4)) if mode == 'poly' else int(rng.integers(1, 4))
    hops = F.rand_hops(rng, dim)
    nparam, deg = int(rng.integers(1, 3)), int(rng.integers(0, 3)) if dim < 3 else 1
    if dim == 0:
        deg = 0
    f, tries = None, 0
    target = int(rng.integers(1, maxN + 1))
    while True:
        tries += 1
        n = int(rng.integers(1, 4))
        if f is not None and f.N + n > target or tries > 20:
            break
        r = rng.random()
        g = F.rand_fam(rng, mode, dim, n, nparam, deg, 2, sparse=.3, hops=hops)
        if f is not None and r < .3:      # inequivalent block with the same spectrum in some terms: conjugated family
            g = F.Fam(mode, dim, f.N, nparam) if f.N + f.N > target else f.applied(F.G(np.eye(dim, dtype=int), 1, 0, np.eye(f.N)))
            if not any(g.t):
                continue
        f = g if f is None else f.dsum(g)
        while f.N + n <= target and rng.random() < .45:
            f = f.dsum(g if g.N == n else F.rand_fam(rng, mode, dim, n, nparam, deg, 2, sparse=.3, hops=hops))
    if f is None or not any(f.t):
        return None
    f = f.applied(F.G(np.eye(dim, dtype=int), 0, 0, F.mono_U(rng, f.N)))
    c = Case()
    c.name = {0: 'zero', 1: 'line', 2: 'square', 3: 'tetra'}[dim]
    c.dim, c.mode, c.kind, c.f, c.cand, c.group, c.A0 = dim, mode, 'blocks', f, [], [], np.eye(dim)
    return c


def matrix(L, W):
    M = W.conj().T @ np.asarray(L, complex) @ W
    return dict(zip(('Ur', 'Ui'), F.fixed(M / max(1, np.max(np.abs(M))))))


def rank(vs):
    if not len(vs):
        return 0
    V = np.array([np.concatenate([np.real(v).ravel(), np.imag(v).ravel()]) for v in vs])
    n = np.linalg.norm(V, axis=1)
    if np.any(n < 1e-9):
        return -1
    s = np.linalg.svd(V / n[:, None], compute_uv=False)
    return int(np.sum(s > 1e-6))


def residual(model, Ls, digits):
    """violation of commutation in units of the last digit that the caller asked for"""
    Hs = [np.asarray(h.toarray() if hasattr(h, 'toarray') else h, complex) for h in model.values()]
    res = [np.max(np.abs(L @ h - h @ L), initial=0) / max(1e-9, np.max(np.abs(h), initial=0)) for L in Ls for h in Hs]
    return dict(digits=digits, resid=int(min(1e9, np.ceil(max(res, default=0) * 10.**digits))))


def body():
    ck = Check('C17', 'C17', 'JC17')
    rng = ck.rng
    n = 0
    while n < ck.scale(600, 6000):
        c = blocks(rng, int(rng.integers(1, ck.scale(9, 10)))) if rng.random() < .7 else make(rng, maxN=6)
        if c is None or c.f.N > 9:
            continue
        n += 1
        with ck.session(f'{c.name}/{c.mode}/{c.kind}/{n}') as s:
            p = library(c, rng)
            kw = dict(prettify=bool(rng.integers(2)), sparse_linalg=bool(rng.random() < .3))
            if rng.random() < .3:
                kw['num_digits'] = int(rng.integers(6, 11))
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                _, cont = qsymm.symmetries(p.model, [] if rng.random() < .5 else set(), **kw)
            Ls = [np.asarray(g.U) for g in cont]
            s.ev('conserved', **residual(p.model, Ls, min(kw.get('num_digits', 8), 9) if kw['prettify'] else 9), M=F.spec_model(c.f), L=[matrix(L, p.W) for L in Ls], rank=rank(Ls),
                 pure=all(g.R is None or not np.any(g.R) for g in cont), how=f'{p.cls} {p.fmt} {kw}')
    return ck.finish()


if __name__ == '__main__':
    main(body)
