"""C21: families of tight-binding Hamiltonians."""
from collections import OrderedDict
import numpy as np, sympy, warnings, scipy.linalg as sla
from vh.check import Check, main
from vh import finder as F, family as FM
import qsymm
from qsymm.groups import symmetry_from_permutation

NAMES = [['k_x', 'k_y', 'k_z'], ['q', 'p_1', 'w'], ['k_y', 'k_z', 'k_x']]
IDS = [['A', 'B', 'C', 'D'], [0, 1, 2, 3], [('s', 1), ('s', 0), ('t', 5), ('t', 4)], ['a', 0, 'b', 1]]


def img(R, d):
    return tuple(int(x) for x in np.round(np.linalg.inv(np.array(R, float)).T @ np.array(d)).astype(int))


def keyset(hops, gens, closed):
    """hopping vectors, closed under negation and all the symmetries"""
    S = {tuple(d) for d in hops}
    front = set(S)
    while front:
        new = {tuple(-x for x in d) for d in front} | {img(R, d) for R in gens for d in front}
        front = new - S
        S |= new
    return sorted(S)


def case(rng, limit):
    while True:
        name = list(F.GROUPS)[rng.integers(len(F.GROUPS))]
        dim, gens, A = F.GROUPS[name]
        if dim == 0:
            continue
        ns = int(rng.integers(1, 5))
        orbs = [int(x) for x in rng.integers(1, 4, ns)] if rng.random() < .4 else [int(rng.integers(1, 4))] * ns
        N = sum(orbs)
        if N > 6:
            continue
        grp = F.intgroup([(R, c, a) for R in gens for c in (0, 1) for a in (0, 1)], dim)
        off = np.cumsum([0] + orbs)
        syms = []
        for _ in range(rng.integers(0, 4)):
            R, c, a = grp[rng.integers(len(grp))]
            if rng.random() < .4:
                R = gens[rng.integers(len(gens))]
            if rng.random() < .6:
                a = False
            while True:
                perm = rng.permutation(ns) if rng.random() < .6 else np.arange(ns)
                if all(orbs[i] == orbs[perm[i]] for i in range(ns)):
                    break
            U = np.zeros((N, N), complex)
            blocks = []
            for i in range(ns):
                V = FM.rand_sym(rng, dim, A, orbs[i], R, c, a).U if rng.random() < .75 else np.eye(orbs[i])
                j = perm[i]
                U[off[j]:off[j + 1], off[i]:off[i + 1]] = V
                blocks.append(V)
            g = FM.Sym('pg', R, c, a, U)
            g.perm, g.blocks = [int(x) for x in perm], blocks
            syms.append(g)
        cont = []
        if rng.random() < .25:
            for _ in range(rng.integers(1, 3)):
                r = rng.random()
                blk = []
                for n in orbs:
                    if r < .4:
                        X = FM.spin(n - 1)[2] if n > 1 else np.zeros((1, 1))
                    elif r < .6 and n > 1:
                        X = FM.spin(n - 1)[rng.integers(3)]
                    else:
                        X = np.diag(rng.integers(-1, 2, n))
                    blk.append(X)
                cont.append(FM.Sym('cont', r=np.zeros((dim, dim), int), U=sla.block_diag(*blk)))
        hops = []
        for _ in range(rng.integers(1, 4)):
            d = rng.integers(-1, 2, dim) * (1 if rng.random() < .8 else rng.integers(1, 3))
            hops.append((int(rng.integers(ns)), int(rng.integers(ns)), tuple(int(x) for x in d)))
        if rng.random() < .15:
            hops.append(hops[0])
        if rng.random() < .15:
            a, b, d = hops[0]
            hops.append((b, a, tuple(-x for x in d)))
        onsites = bool(rng.random() < .7)
        symmetrize = bool(rng.random() < .6)
        if symmetrize:
            group = F.close([F.G(g.R, g.c, g.a, g.U) for g in syms] + [F.G(np.eye(dim, dtype=int), 0, 0, np.eye(N))], 64) if syms else []
            if group is None:
                continue
            # the conserved quantities have to be mapped to each other
            if cont and not normalised(cont, syms):
                continue
            # onsite unitaries have to be given as conserved quantities
        h = hops + ([(i, i, (0,) * dim) for i in range(ns)] if onsites else [])
        # the library adds up every pair of basis terms
        if sum(orbs[a] * orbs[b] for a, b, _ in h) > limit // 4:
            continue
        keys = keyset([d for _, _, d in h], [g.R for g in syms], symmetrize)
        if len(keys) > 26:
            continue
        nv = entries(h, syms if symmetrize else [], orbs)
        if nv > limit:
            continue
        return name, dim, A, orbs, off, syms, cont, hops, onsites, symmetrize, keys


def entries(h, syms, orbs):
    S = {(a, b, tuple(d)) for a, b, d in h}
    S |= {(b, a, tuple(-x for x in d)) for a, b, d in S}
    front = set(S)
    while front and syms:
        new = {(g.perm[a], g.perm[b], img(g.R, d)) for g in syms for a, b, d in front} - S
        S |= new
        front = new
    return sum(orbs[a] * orbs[b] for a, b, d in S)


def normalised(cont, syms):
    B = np.array([c.U.ravel() for c in cont])
    B = np.concatenate([B, [np.eye(len(cont[0].U)).ravel()]])
    r = np.linalg.matrix_rank(B, tol=1e-8)
    for g in syms:
        C = [(g.U @ (c.U.conj() if g.c else c.U) @ g.U.conj().T).ravel() for c in cont]
        if np.linalg.matrix_rank(np.concatenate([B, C]), tol=1e-8) != r:
            return False
    return True


def body():
    ck = Check('C21', 'C21', 'JC21', profile='q23')
    pr = ck.proj()

    def build(rng, n):
        name, dim, A0, orbs, off, syms, cont, hops, onsites, symmetrize, keys = case(rng, ck.scale(52, 100))
        recs = [s.rec(pr) for s in syms + cont]
        if None in recs:
            return
        for g, r in zip(syms, recs):
            r['perm'] = [x + 1 for x in g.perm]
            r['Rit'] = np.round(np.linalg.inv(g.R).T).astype(int).tolist()
        N, ns = sum(orbs), len(orbs)
        bloch = bool(rng.random() < .5)
        hexl = not np.allclose(A0, np.eye(dim))
        A = A0 * ([1, 1, 2.5, .4][rng.integers(4)] if bloch else 1)
        if bloch and not hexl and dim > 1 and rng.random() < .25:
            from scipy.stats import ortho_group
            A = ortho_group.rvs(dim, random_state=int(rng.integers(2**31)))
        exact = None
        if hexl and dim == 2:
            exact = F.HEXS
        elif hexl:
            exact = sympy.eye(3); exact[:2, :2] = F.HEXS
        std = np.allclose(A, np.eye(dim))
        same = np.allclose(A, A0)
        V = sla.block_diag(*[F.rand_W(rng, k) for k in orbs]) if rng.random() < .2 else np.eye(N)
        plain = np.allclose(V, np.eye(N))
        ids = IDS[rng.integers(len(IDS))][:ns]
        norbs = list(zip(ids, orbs))
        if rng.random() < .6:
            norbs = OrderedDict(norbs)
        elif rng.random() < .5:
            norbs = tuple(norbs)
        names = NAMES[0] if rng.random() < .6 else NAMES[rng.integers(3)]
        kw = {}
        if names is not NAMES[0] or rng.random() < .3:
            kw['momenta'] = [sympy.Symbol(x, commutative=bool(rng.integers(2))) for x in names] if rng.random() < .5 else list(names)
            if rng.random() < .4:
                kw['momenta'] = kw['momenta'][:dim]
        if rng.random() < .6 or not symmetrize:
            kw['symmetrize'] = symmetrize
        if not onsites or rng.random() < .5:
            kw['onsites'] = onsites
        kw['prettify'] = bool(rng.integers(2)) and plain
        if rng.random() < .25:
            kw['num_digits'] = int(rng.integers(8, 11))
        with ck.session(f'{name}/{"bloch" if bloch else "model"}/{"symmetrize" if symmetrize else "constrain"}/{n}') as s:
            kinds = (['int'] if std else []) + (['sympy'] if (same and exact is not None) or std else [])
            if bloch:
                kinds.append('float')
            if 'float' in kinds and 'sympy' in kinds:    # cannot be mixed
                kinds.remove(['float', 'sympy'][rng.integers(2)])
            lib = []
            for g in syms:
                k = kinds[rng.integers(len(kinds))]
                if plain and rng.random() < .5:
                    R = F.cart(g.R, A, k, exact if not std else None)
                    blocks = {i: b for i, b in zip(ids, g.blocks)}
                    lib.append(symmetry_from_permutation(R, {ids[i]: ids[j] for i, j in enumerate(g.perm)}, norbs, blocks, g.c, g.a))
                else:
                    lib.append(g.lib(A, V, k, exact if not std else None))
            lib += [g.lib(A, V, none_ok=rng.random() < .6) for g in cont]
            if rng.random() < .3:
                lib = list(lib)[::-1]
            hv = []
            for a, b, d in hops:
                if not bloch and exact is not None:
                    v = list(exact.inv().T * sympy.Matrix(d))
                elif std and rng.random() < .5:
                    v = list(d)
                elif not bloch:
                    v = [sympy.Integer(x) for x in d]
                else:
                    v = np.linalg.inv(A).T @ np.array(d, float)
                    v = v if rng.random() < .5 else [float(x) for x in v]
                hv.append((ids[a], ids[b], v))
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                fam = qsymm.bloch_family(hv, lib, norbs, bloch_model=bloch, **kw)
            M = FM.function_space(keys, 'hop', dim, N)
            mem, rk, extra = FM.project(fam, list(names[:dim]), A, 'hop', keys, N, lambda X: V.conj().T @ X @ V)
            ok = all([str(x) for x in m.momenta] == list(names[:dim]) and m.shape == (N, N)
                     and type(m) is (qsymm.BlochModel if bloch else qsymm.Model) for m in fam)
            s.ev('family', M=M, syms=recs, sites=[[int(off[i]) + 1, int(off[i + 1])] for i in range(ns)],
                 req=[[a + 1, b + 1, list(d)] for a, b, d in hops], onsites=onsites, symmetrize=symmetrize,
                 mem=mem, xs=FM.XS, rank=rk, extra=extra, momenta=ok, complete=True, how=str(kw))
    ck.parallel(build, ck.scale(280, 2400))
    return ck.finish()


if __name__ == '__main__':
    main(body)
