"""C15: discrete symmetries reported for a model are symmetries, form a group, generators generate it."""
import numpy as np, sympy, warnings
import scipy.linalg as la
from vh.check import Check, main
from vh import finder as F
import qsymm
from qsymm import PointGroupElement


def word(rng, gens, dim):
    R = np.eye(dim, dtype=int)
    for _ in range(rng.integers(0, 4)):
        if gens:
            R = R @ gens[rng.integers(len(gens))]
    return R


def flags(rng):
    r = rng.random()
    return (False, False) if r < .4 else (True, False) if r < .65 else (True, True) if r < .85 else (False, True)


def symmetrized(rng, mode, dim, N, nparam, deg, seeds, hops=None, size=3):
    """random integer family with the symmetries seeds (list of G)"""
    group = F.close(seeds, 48) if seeds else []
    if group is None:
        return None
    for _ in range(4):
        p = F.rand_fam(rng, mode, dim, N, nparam, deg, size, hops=hops)
        if not group:
            return p
        f = F.Fam(mode, dim, N, nparam)
        for g in group:
            f = f.plus(p.applied(g))
        for d in f.t:
            v = [x for M in d.values() for x in (*np.round(M.real).astype(int).ravel(), *np.round(M.imag).astype(int).ravel())]
            q = np.gcd.reduce(v) if v else 1
            for k in d:
                d[k] = d[k] / max(q, 1)
        f.clean()
        if any(f.t) and f.max() <= 60:
            return f
    return None


class Case:
    pass


def make(rng, maxN=4, names=None, big=48):
    """random family, candidate group, known symmetries"""
    while True:
        names_ = names or ['line', 'square', 'c4', 'rect', 'hex', 'c6', 'tetra', 'c4h', 'd2h', 'd3', 't', 'oh', 'hex3']
        c = Case()
        c.name = names_[rng.integers(len(names_))]
        dim, gens, A = F.GROUPS[c.name]
        c.dim = dim
        c.mode = 'poly' if rng.random() < .6 else 'hop'
        nparam = int(rng.integers(1, 4))
        deg = int(rng.integers(1, 3 if dim == 3 else 4))
        hops = F.rand_hops(rng, dim) if c.mode == 'hop' else None
        base = [(word(rng, gens, dim), *flags(rng)) for _ in range(rng.integers(0, 4))]
        kind = rng.integers(7)
        c.kind = ['plain', 'plain', 'dsum', 'copies', 'kron', 'orbit', 'dsum-copy'][kind]

        def fam(N):
            seeds = [F.G(R, cc, a, F.mono_U(rng, N, phases=rng.random() < .7)) for R, cc, a in base]
            return symmetrized(rng, c.mode, dim, N, nparam, deg, seeds, hops, size=int(rng.integers(1, 4)))
        f = fam(int(rng.integers(1, max(2, min(maxN, 4) + 1 if c.kind == "plain" else min(maxN, 4) // 2 + 1))))
        if f is None:
            continue
        if c.kind.startswith('dsum'):
            g = fam(int(rng.integers(1, 3)))
            if g is None:
                continue
            f = f.dsum(g)
            if c.kind == 'dsum-copy':
                f = f.dsum(g)
        elif c.kind == 'copies':
            V = F.mono_U(rng, f.N)
            g = f.applied(F.G(np.eye(dim, dtype=int), 0, 0, V))
            f = f.dsum(g)
        elif c.kind == 'kron':
            f = f.kron(np.eye(2), left=bool(rng.integers(2)))
        elif c.kind == 'orbit':
            g = F.G(word(rng, gens, dim), *flags(rng), F.mono_U(rng, f.N))
            orb, x = [f], f.applied(g)
            while not x.same(f) and len(orb) < 5:
                orb.append(x); x = x.applied(g)
            if len(orb) == 5:
                continue
            f = orb[0]
            for y in orb[1:]:
                f = f.dsum(y)
            base = [b for b in base if False] + [(g.R, g.c, g.a)]
        if f.N > maxN or f.max() > 60 or not any(f.t):
            continue
        # candidates
        r = rng.random()
        c.cand_none = r < .08
        T, P = (np.eye(dim, dtype=int), True, False), (np.eye(dim, dtype=int), True, True)
        if c.cand_none:
            full = F.intgroup([T, P], dim)
        else:
            ext = [[], [T], [P], [T, P], [(np.eye(dim, dtype=int), False, True)]][rng.integers(5)]
            full = F.intgroup([(R, False, False) for R in gens] + ext, dim)
        if len(full) > big:
            continue
        if c.cand_none or r < .6:
            c.cand = full
        else:
            k = int(rng.integers(1, min(len(full), 9) + 1))
            c.cand = [full[i] for i in rng.choice(len(full), k, replace=False)]
            G = F.intgroup(c.cand, dim)
        c.cand = [c.cand[i] for i in rng.permutation(len(c.cand))]
        keys = {F.G(*b, np.eye(1)).base() for b in F.intgroup(base, dim)}
        c.known = [b for b in c.cand if F.G(*b, np.eye(1)).base() in keys]
        c.group = F.intgroup(c.cand, dim)
        c.f = f
        c.A0 = A
        return c


def library(c, rng, sparse_ok=True):
    """random presentation of a case in the library"""
    f, dim = c.f, c.dim
    p = Case()
    r = rng.integers(3)
    p.cls = 'model' if c.mode == 'poly' or rng.random() < .4 else 'bloch'
    p.exact = None
    p.A, p.rk = np.eye(dim), 'int'
    if c.mode == 'poly' or p.cls == 'bloch':
        if r == 1:
            p.A, p.rk = c.A0, 'float'
        elif r == 2:
            Q = np.linalg.qr(rng.normal(size=(dim, dim)))[0]
            if rng.random() < .5 and dim > 1:      # nearly aligned: terms of very different sizes
                w = rng.normal(size=(dim, dim)) * 10 ** rng.uniform(-3.5, -1)
                Q = la.expm(w - w.T)
            p.A, p.rk = Q @ c.A0 * (rng.random() + .6), 'float'
            p.A = p.A if c.mode == 'hop' or f.max() < 1e9 else c.A0
    elif r == 1:
        p.exact = F.HEXS if c.name in ('hex', 'c6') else None
        if dim == 3 or (c.name not in ('hex', 'c6')):
            p.exact = None
        p.rk = 'sympy'
        p.A = np.array(p.exact.tolist(), dtype=float) if p.exact is not None else np.eye(dim)
    p.W = F.rand_W(rng, f.N) if rng.random() < .6 else np.eye(f.N)
    p.fmt = ['dense', 'dense', 'csr', 'csc'][rng.integers(4)]
    p.scales = [float(x) for x in rng.random(len(f.t)) * 2 + .3] if rng.random() < .5 else None
    p.model = F.to_model(f, p.A, p.W, p.scales, p.fmt, p.cls, p.exact, rng)
    p.cands = [PointGroupElement(F.cart(R, p.A, p.rk, p.exact), cc, a, None) for R, cc, a in c.cand]
    if rng.random() < .2:
        p.cands = p.cands + p.cands[:1]
    p.opt = dict(prettify=bool(rng.integers(2)), sparse_linalg=bool(f.N >= 2 and rng.random() < .3 and sparse_ok))
    return p


def find(c, p, rng, gen, via=0):
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        if via and not c.cand_none:
            res = sorted(qsymm.discrete_symmetries(p.model, set(p.cands), generators=gen, sparse_linalg=p.opt['sparse_linalg'])[0])
        else:
            arg = None if c.cand_none else [set, list, tuple, frozenset][rng.integers(4)](p.cands)
            res = qsymm.symmetries(p.model, arg, generators=gen, **p.opt)[0]
    return [F.result(g, p.A, p.W) for g in res]


def event(s, c, p, rng, tests):
    gen = bool(rng.random() < .4)
    res = find(c, p, rng, gen, via=int(rng.random() < .3))
    kw = {}
    if gen:
        kw['full'] = [dict(R=r['R'], c=r['c'], a=r['a']) for r in find(c, p, rng, False)]
    rec = lambda b: dict(R=np.asarray(b[0]).tolist(), c=b[1], a=b[2])
    s.ev('find', M=F.spec_model(c.f, c.group), cand=[rec(b) for b in c.cand], res=res, gen=gen, tests=tests, known=[rec(b) for b in c.known],
         how=f'{c.name} {c.mode} {c.kind} {p.cls} {p.rk} {p.fmt} {p.opt}', **kw)


def body():
    ck = Check('C15', 'C15', 'JC15')
    rng = ck.rng
    for n in range(ck.scale(150, 1500)):
        c = make(rng, maxN=int(rng.integers(1, 7)), big=ck.scale(48, 96))
        with ck.session(f'{c.name}/{c.mode}/{c.kind}/{n}') as s:
            event(s, c, library(c, rng), rng, tests=False)
    return ck.finish()


if __name__ == '__main__':
    main(body)
