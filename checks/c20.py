"""C20: families of continuum Hamiltonians."""
import numpy as np, sympy, warnings
from vh.check import Check, main
from vh import finder as F, family as FM
import qsymm

NAMES = [['k_x', 'k_y', 'k_z'], ['q', 'p_1', 'w'], ['k_y', 'k_z', 'k_x'], ['alpha', 'y', 'k_x']]
SHAPES = [(0, 4), (1, 4), (1, 4), (2, 4), (2, 4), (2, 3), (3, 3), (3, 2), (3, 2)]


def space(rng, ck):
    """group, dimension, powers"""
    while True:
        name = list(F.GROUPS)[rng.integers(len(F.GROUPS))]
        dim, gens, A = F.GROUPS[name]
        N = int(rng.integers(1, 5))
        deg = int(rng.integers(0, {0: 3, 1: 5, 2: 4, 3: 4}[dim]))
        if rng.random() < .15 and dim > 1:
            N, deg = 1, int(rng.integers(3, 6 if dim == 2 else 5))
        if len(F.mons(dim, deg)) * N * N <= ck.scale(100, 170):
            return name, dim, gens, A, N, deg


def symmetries(rng, name, dim, gens, A, N, nmax=3, conts=True):
    grp = F.intgroup([(R, c, a) for R in gens for c in (0, 1) for a in (0, 1)] if gens else
                     [(np.eye(dim, dtype=int), c, a) for c in (0, 1) for a in (0, 1)], dim)
    syms = []
    orth = np.allclose(A, np.eye(dim))
    for _ in range(rng.integers(1, nmax + 1)):
        if conts and rng.random() < .3:
            syms.append(FM.rand_cont(rng, dim, N, orth))
        else:
            R, c, a = grp[rng.integers(len(grp))]
            if rng.random() < .45:
                R = np.eye(dim, dtype=int)
            if rng.random() < .5:
                a = False
            syms.append(FM.rand_sym(rng, dim, A, N, R, c, a))
    return syms


def body():
    ck = Check('C20', 'C20', 'JC20', profile='q23')
    rng, pr = ck.rng, ck.proj()
    n = 0
    while n < ck.scale(340, 3500):
        name, dim, gens, A0, N, deg = space(rng, ck)
        syms = symmetries(rng, name, dim, gens, A0, N)
        recs = [s.rec(pr) for s in syms]
        if None in recs:
            continue
        n += 1
        A = A0 * [1, 1, 2.5][rng.integers(3)]
        orth = np.allclose(A0, np.eye(dim))
        if N == 1 and deg > 2:
            A = A0
        if orth and dim > 1 and (N > 1 or deg < 3) and rng.random() < .25:
            from scipy.stats import ortho_group
            A = ortho_group.rvs(dim, random_state=int(rng.integers(2**31)))
        std = np.allclose(A, np.eye(dim))
        V = F.rand_W(rng, N) if rng.random() < .3 else np.eye(N)
        # powers
        power = deg if rng.random() < .6 else sorted({int(x) for x in rng.integers(0, deg + 1, rng.integers(1, 3))})
        if isinstance(power, list) and rng.random() < .3:
            power = tuple(power)
        if N == 1 and dim > 1 and rng.random() < .4:
            power = [deg]
        degs = list(range(deg + 1)) if isinstance(power, int) else list(power)
        all_powers = None
        if std and rng.random() < (.35 if N > 1 or dim < 2 else .7):
            all_powers = [int(rng.integers(0, deg + 1)) if rng.random() < .5 else
                          sorted({int(x) for x in rng.integers(0, deg + 1, rng.integers(1, 3))})
                          for _ in range(dim + rng.integers(0, 2))]
            if dim > 1 and rng.random() < .4:      # one direction with higher powers
                i = int(rng.integers(dim))
                all_powers = [deg if j == i else int(rng.integers(0, 2)) if rng.random() < .7 else [0, 1] for j in range(dim)]
        okp = (lambda k: True) if all_powers is None else (
            lambda k: all(e <= p if isinstance(p, int) else e in p for e, p in zip(k, all_powers)))
        names = NAMES[rng.integers(len(NAMES))] if rng.random() < .4 else NAMES[0]
        mom = {0: list(names), 1: [sympy.Symbol(x, commutative=False) for x in names],
               2: [sympy.Symbol(x) for x in names]}[int(rng.integers(3))]
        kw = dict(momenta=mom if rng.random() < .5 else mom[:max(dim, 1)])
        if names is NAMES[0] and rng.random() < .5:
            kw = {}
        pretty = bool(rng.random() < .4) and np.allclose(V, np.eye(N))
        kw.update(prettify=pretty, sparse_linalg=bool(rng.random() < .35))
        if pretty and rng.random() < .3:
            kw['num_digits'] = int(rng.integers(8, 11))
        with ck.session(f'{name}/{N}/{deg}/{n}') as s:
            exact = {2: F.HEXS}.get(dim) if name in ('hex', 'c6') and np.allclose(A, F.HEXA) else None
            kinds = ['float'] + (['int'] if std else []) + (['sympy'] if exact is not None or std else [])
            lib = [g.lib(A, V, kinds[rng.integers(len(kinds))], exact if not std else None) for g in syms]
            if rng.random() < .2:
                lib = tuple(lib)
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                if rng.random() < .1:      # the same objects again
                    qsymm.continuum_hamiltonian(lib, dim, deg, **kw)
                fam = qsymm.continuum_hamiltonian(lib, dim, power, **({} if all_powers is None else dict(all_powers=list(all_powers))), **kw)
            keys = F.mons(dim, max(degs)) if dim else [()]
            M = FM.function_space(keys, 'poly', dim, N)
            vars_ = [[i + 1, a + 1, b + 1] for i, k in enumerate(keys) if sum(k) in degs and okp(k)
                     for a in range(N) for b in range(N)]
            mem, rk, extra = FM.project(fam, list(names[:dim]), A, 'poly', keys, N, lambda X: V.conj().T @ X @ V)
            ok = all([str(x) for x in m.momenta] == list(names[:dim]) and m.shape == (N, N) for m in fam)
            s.ev('family', M=M, syms=recs, vars=vars_, mem=mem, xs=FM.XS, rank=rk, extra=extra, momenta=ok,
                 complete=True, how=f'{power} {all_powers} {kw}')
    return ck.finish()


if __name__ == '__main__':
    main(body)
