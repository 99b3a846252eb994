"""C07: symmetry_from_permutation."""
import copy
from collections import OrderedDict
import numpy as np
from vh.check import Check, main, call
from vh import groups as G
from qsymm.groups import symmetry_from_permutation
from qsymm import Model


def body():
    ck = Check('C07', 'C07', 'JC07')
    rng = ck.rng
    for rep in range(ck.scale(120, 1500)):
        pool = ['int2', 'int3', 'hexfloat2', 'hexsym2', 'int1'][rng.integers(5)]
        pr = ck.proj(G.PROFILE[pool])
        ns = int(rng.integers(1, 6))
        names = [['A', 'B', 'C', 'D', 'E'][:ns], list(range(ns)), [('s', i) for i in range(ns)], [5, 'x', (1, 2), 0, 'A'][:ns]][rng.integers(4)]
        # classes of sites with equal number of orbitals
        cls = rng.integers(0, 2, ns)
        no = [int(rng.integers(1, 4)) for _ in range(2)]
        n = [no[c] for c in cls]
        with ck.session(f'perm/{rep}') as s:
            objs = []
            for _ in range(3):
                perm = np.arange(ns)
                for c in range(2):
                    idx = np.nonzero(cls == c)[0]
                    perm[idx] = rng.permutation(idx)
                kind = rng.integers(3)
                uniform = len(set(n)) == 1
                if kind == 0:
                    on, arg = [np.eye(m, dtype=complex) for m in n], None
                elif kind == 1 and uniform:
                    V = G.rand_unitary(rng, n[0])
                    on, arg = [V] * ns, V
                else:
                    on = [G.rand_unitary(rng, m) for m in n]
                    if rng.random() < .2:
                        on = [rng.integers(-2, 3, (m, m)) + 1j * rng.integers(-2, 3, (m, m)) for m in n]
                    arg = {a: o for a, o in zip(names, on)}
                R = G.rand_R(rng, pool)
                c, a = bool(rng.integers(2)), bool(rng.integers(2))
                norbs = [OrderedDict(zip(names, n)), tuple(zip(names, n)), dict(zip(names, n)), list(zip(names, n))][rng.integers(4)]
                order = rng.permutation(ns)   # the order of the permutation dict is irrelevant
                pd = {names[i]: names[perm[i]] for i in order}
                before = (copy.deepcopy(norbs), dict(pd), copy.deepcopy(arg))
                kw = {}
                if arg is not None:
                    kw['onsite_action'] = arg
                g = symmetry_from_permutation(R, pd, norbs, antiunitary=c, antisymmetry=a, **kw)
                from qsymm.groups import PointGroupElement
                r0 = G.rec(PointGroupElement(R), pr)
                s.ev('perm', n=n, p=dict(R=r0['R'], c=c, a=a, perm=[int(x) + 1 for x in perm], on=[pr.cmat(o) for o in on]), res=G.rec(g, pr))
                same = before[0] == norbs and before[1] == pd and (arg is None or (np.array_equal(before[2], arg) if isinstance(arg, np.ndarray) else all(np.array_equal(before[2][k], arg[k]) for k in arg)))
                s.ev('unchanged', same=bool(same))
                objs.append(g)
                x = int(rng.integers(len(objs)))
                y = int(rng.integers(len(objs)))
                s.ev('compose', x=x + 1, y=y + 1, n=n, res=G.rec(objs[x] * objs[y], pr))
                sa, sb = (int(v) for v in rng.integers(0, ns, 2))
                E = rng.integers(-2, 3, (n[sa], n[sb])) + 1j * rng.integers(-2, 3, (n[sa], n[sb]))
                off = np.concatenate([[0], np.cumsum(n)])
                M = np.zeros((off[-1], off[-1]), complex)
                M[off[sa]:off[sa + 1], off[sb]:off[sb + 1]] = E
                res = g.apply(Model({1: M}, momenta=['k_x', 'k_y', 'k_z'][:len(G.Rarr(g))]))
                s.ev('hopping', x=len(objs), a=sa + 1, b=sb + 1, n=n, E=pr.cmat(E), res=pr.cmat(np.asarray(res[1]) * np.ones(M.shape)))
    I2 = np.eye(2)
    bad = [lambda: symmetry_from_permutation(I2, {'A': 'B', 'B': 'A'}, {'A': 1, 'B': 2}),
           lambda: symmetry_from_permutation(I2, {'A': 'A'}, {'A': 1, 'B': 1}),
           lambda: symmetry_from_permutation(I2, {'A': 'B', 'B': 'B'}, {'A': 1, 'B': 1}),
           lambda: symmetry_from_permutation(I2, {'A': 'B', 'B': 'A', 'C': 'C'}, {'A': 1, 'B': 1}),
           lambda: symmetry_from_permutation(I2, {'A': 'B', 'B': 'C', 'C': 'A'}, {'A': 2, 'B': 2, 'C': 1}),
           lambda: symmetry_from_permutation(I2, {'A': 'A', 'B': 'B'}, {'A': 1, 'B': 2}, onsite_action={'A': np.eye(2), 'B': np.eye(2)}),
           lambda: symmetry_from_permutation(I2, {'A': 'A', 'B': 'B'}, {'A': 2, 'B': 3}, onsite_action=np.eye(2))]
    # inconsistent orbital counts, also where numpy could broadcast
    for rep in range(ck.scale(30, 200)):
        n = [int(v) for v in rng.choice([1, 2, 3], 3)]
        if rep % 2 and len(set(n)) > 1:
            perm = [1, 2, 0]
            on = {i: G.rand_unitary(rng, [1, n[i], n[perm[i]]][rng.integers(3)]) for i in range(3)}
        else:
            perm = [0, 1, 2]
            on = {i: G.rand_unitary(rng, m) for i, m in enumerate(n)}
            k = int(rng.integers(3))
            m = n[k]
            on[k] = [lambda: np.ones((m + 1, m + 1)), lambda: np.ones((m, m + 1)), lambda: np.ones((1, m)) if m > 1 else np.ones((2, 2)),
                     lambda: np.ones((m, 1)) if m > 1 else np.ones((1, 2)), lambda: np.ones((1, 1)) if m > 1 else np.ones((3, 3))][rng.integers(5)]()
        bad.append(lambda on=on, perm=perm, n=n: symmetry_from_permutation(I2, dict(enumerate(perm)), dict(enumerate(n)), onsite_action=on))
    with ck.session('invalid') as s:
        s.ev('rejects', raised=[call(b)[1] is not None for b in bad])
    return ck.finish()


if __name__ == '__main__':
    main(body)
