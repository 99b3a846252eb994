"""C03: generate_group against the closure computed by the specification."""
import json, re, tempfile
import numpy as np, sympy
from vh.check import Check, main
from vh import groups as G
from qsymm.groups import PointGroupElement, generate_group, spin_rotation, spin_matrices


SX, SY, SZ = np.array([[0, 1], [1, 0]]), np.array([[0, -1j], [1j, 0]]), np.diag([1, -1])
C4 = np.array([[0, -1], [1, 0]])
MX = np.diag([-1, 1])
H3 = np.array([[0, -1], [1, -1]])
HM = np.array([[0, 1], [1, 0]])


def extended():
    """generators of groups of (R, c, a, U) up to phase; sizes of the sets of generators"""
    e, I = np.eye(2, dtype=int), np.eye(2)
    return {'C4xZ2': ([(C4, 0, 0, I), (e, 0, 0, SX)], 2),
            'C2xTxpauli': ([(-e, 0, 0, I), (e, 1, 0, I), (e, 0, 0, SX), (e, 0, 0, SZ)], 2),
            'MxPxpauli': ([(MX, 0, 0, SX), (e, 1, 1, SZ), (e, 0, 0, SY), (e, 0, 0, SX)], 2),
            'S3xZ2': ([(H3, 0, 0, I), (HM, 0, 0, I), (e, 0, 0, SZ)], 2),
            'C2v-strict': ([(-e, 0, 0, SX), (MX, 1, 0, SZ)], 3)}


def tabulate(gens):
    """elements, multiplication table and classes of equal (R, c, a)"""
    def mul(x, y):
        return x[0] @ y[0], x[1] ^ y[1], x[2] ^ y[2], x[3] @ (y[3].conj() if x[1] else y[3])

    def key(x):
        U = np.array(x[3], complex)
        k = np.flatnonzero(abs(U.ravel()) > 1e-9)[0]
        U = np.round(U * abs(U.ravel()[k]) / U.ravel()[k], 6) + 0
        return base(x), tuple(U.ravel())

    def base(x):
        return tuple(x[0].ravel()), x[1], x[2]
    els = {}
    front = list(gens)
    while front:
        new = [x for x in front if key(x) not in els]
        for x in new:
            els[key(x)] = x
        front = [mul(x, g) for x in new for g in gens]
    ks = list(els)
    ix = {k: i + 1 for i, k in enumerate(ks)}
    bs = list(dict.fromkeys(base(els[k]) for k in ks))
    return [els[k] for k in ks], [[ix[key(mul(els[a], els[b]))] for b in ks] for a in ks], [bs.index(base(els[k])) + 1 for k in ks]


def body():
    ck = Check('C03', 'C03', 'JC03')
    rng = ck.rng
    cases = list(G.POOLS) + ['icosa3']
    for rep in range(ck.scale(35, 250)):
        for pool in cases:
            dim, kind, base = G.POOLS[pool] if pool in G.POOLS else (3, 'float', G.ICOSA)
            if pool == 'icosa3' and rep % 7:
                continue
            prof = G.PROFILE.get(pool, 'q235')
            spin = None
            r = rng.random()
            if r < .3:
                ulist = None
            elif r < .6 and pool in G.SPIN_OK:
                ulist, spin = None, 'spin'
                prof = 'q235' if prof == 'q235' else 'q23'
            else:
                # commuting or monomial actions generate small groups
                n = int(rng.integers(1, 4))
                ulist = [G.rand_perm_phase(rng, n) for _ in range(2)] if n < 3 else \
                        [np.eye(n)[rng.permutation(n)] * (1, 1j)[rng.integers(2)] for _ in range(2)]
            pr = ck.proj(prof)
            strict = bool(rng.integers(2))
            gens = []
            for _ in range(rng.integers(1, 4)):
                R = base[rng.integers(len(base))] if rng.random() < .6 else G.rand_R(rng, pool)
                c, a = bool(rng.random() < .3), bool(rng.random() < .3)
                U = None
                if spin:
                    U = G.spin_half_of(R, c)
                elif ulist is not None and rng.random() < .95:
                    U = ulist[rng.integers(2)]
                gens.append(PointGroupElement(R, c, a, U, _strict_eq=strict))
            if rng.random() < .3:   # redundant generators, duplicates
                gens.append(gens[rng.integers(len(gens))] * gens[0])
                gens.append(gens[0])
            order = rng.permutation(len(gens))
            gens = [gens[i] for i in order]
            with ck.session(f'{pool}/{rep}') as s:
                grecs = [G.rec(g, pr) for g in gens]
                arg = [list, set, frozenset][rng.integers(3)](gens)
                res = generate_group(arg)
                s.ev('group', gens=grecs, strict=strict, res=[G.rec(g, pr) for g in list(res)[:2500]])
    # every generator set of the closure model, for groups with several unitary parts per rotation
    for name, (els, ngen) in extended().items():
        els, table, q = tabulate(els)
        with tempfile.NamedTemporaryFile('w', suffix='.json') as tf:
            json.dump(dict(T=table, q=q, ngen=ngen), tf)
            tf.flush()
            out = ck.model('ClosureAlg', {}, ['Members', 'NoDuplicates', 'Closed'], properties=['Ends'], label=f'closure on {name}', env=dict(TABLE_FILE=tf.name))
        cases = [[int(i) - 1 for i in X.split(',') if i.strip()] for X in re.findall(r'<<\s*"CASE",\s*\{([\d, \n]*)\}\s*>>', out)]
        assert len(cases) > 10, (name, len(cases))
        pr = ck.proj('q23')
        for n in rng.permutation(len(cases))[:ck.scale(60, 1500)]:
            gens = [PointGroupElement(*els[i][:3], els[i][3] * (1 if els[i][3] is None else 1j ** int(rng.integers(4)))) for i in cases[n]]
            if gens:
                with ck.session(f'{name}/{n}') as s:
                    s.ev('group', gens=[G.rec(g, pr) for g in gens], strict=False, res=[G.rec(g, pr) for g in generate_group(set(gens))])
    with ck.session('empty') as s:
        s.ev('group', gens=[], strict=False, res=[G.rec(g, pr) for g in generate_group(set())])
    return ck.finish()


if __name__ == '__main__':
    main(body)
