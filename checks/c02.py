"""C02: tables of ==, !=, hash, <, set and dict behaviour."""
from fractions import Fraction
import numpy as np, sympy
import tinyarray as ta
from vh.check import Check, main
from vh import groups as G
from qsymm.groups import PointGroupElement

MIXED = {'hexsym2': 'int2', 'octsym2': 'int2', 'hexsym3': 'int3', 'hexfloat2': 'int2', 'hexfloat3': 'int3',
         'oct_float2': 'hexint2'}


def variant(rng, g):
    """The same element, constructed from another representation of R."""
    R = g.R
    k = rng.integers(4)
    if isinstance(R, ta.ndarray_int):
        A = np.array(R)
        R = [A, A.astype(float), sympy.ImmutableMatrix(A), ta.array(A)][k]
    elif isinstance(R, ta.ndarray_float):
        A = np.array(R)
        R = [A, A * (1 + 1e-14), A + 1e-15, ta.array(A)][k]
    else:
        R = [R, sympy.Matrix(R), R * sympy.eye(R.shape[0]), R.applyfunc(lambda x: x)][k]
    return PointGroupElement(R, g.conjugate, g.antisymmetry, g.U, _strict_eq=g._strict_eq)


def table(s, els, recs, exact, uniform):
    hs = [hash(g) for g in els]
    ids = {v: i for i, v in enumerate(dict.fromkeys(hs))}
    st = set(els)
    d = {}
    for i, g in enumerate(els):
        d[g] = i + 1
    order = sorted(range(len(els)), key=lambda i: els[i])
    s.ev('table', objs=recs,
         eq=[[bool(a == b) for b in els] for a in els],
         ne=[[bool(a != b) for b in els] for a in els],
         lt=[[bool(a < b) for b in els] for a in els],
         hash=[ids[v] for v in hs], exact=exact, uniform=uniform,
         setsize=len(st), member=[g in st for g in els],
         lookup=[d[g] for g in els], sorted=[i + 1 for i in order])


def body():
    ck = Check('C02', 'C02', 'JC02')
    rng = ck.rng
    # strictness is set on one element at a time
    for rep in range(ck.scale(16, 160)):
        for pool in G.POOLS:
            kind = G.POOLS[pool][1]
            pr = ck.proj('q23' if pool in MIXED else G.PROFILE[pool])
            with ck.session(f'{pool}/{rep}') as s:
                mode = rng.integers(3)   # all non-strict, all strict, mixed
                nU = [None, 1, 2, 2, 3][rng.integers(5)]
                if nU is not None:
                    pal = [G.rand_unitary(rng, nU) for _ in range(2)] + [np.eye(nU)]
                # few base rotations so that equal elements occur often
                Rs = [G.rand_R(rng, pool) for _ in range(2)] + [G.rand_R(rng, MIXED.get(pool, pool)), np.eye(G.POOLS[pool][0])]
                els = []
                for i in range(ck.scale(7, 9)):
                    U = None
                    if nU is not None and rng.random() < .9:
                        U = pal[rng.integers(3)] * [1, -1, 1j, (3 + 4j) / 5, (1 - 1j) * (1 + 1j) / 2][rng.integers(5)]
                    g = PointGroupElement(Rs[rng.integers(4)], bool(rng.integers(2)), bool(rng.random() < .3), U,
                                          _strict_eq=bool(mode == 1 or (mode == 2 and rng.integers(2))))
                    r = rng.random()
                    if r < .25 and els:
                        o = els[rng.integers(len(els))]
                        g = variant(rng, o)
                    elif r < .4 and els:
                        # the same element through arithmetic
                        o = els[rng.integers(len(els))]
                        g = o.inv().inv() if rng.integers(2) else (o * o) * o.inv()
                    els.append(g)
                if mode == 0:
                    els = [PointGroupElement(e.R, e.conjugate, e.antisymmetry, e.U) for e in els]
                elif mode == 1:
                    els = [PointGroupElement(e.R, e.conjugate, e.antisymmetry, e.U, _strict_eq=True) for e in els]
                table(s, els, [G.rec(g, pr) for g in els], kind != 'float', bool(mode != 2))
    # rotations that are close to each other but different
    pr = ck.proj('q')
    for rep in range(ck.scale(12, 60)):
        with ck.session(f'near/{rep}') as s:
            els, recs = [], []
            strict = bool(rng.integers(2))
            dim = int(rng.integers(2, 4))
            for _ in range(7):
                q = Fraction(1, int(rng.choice([2, 3, 10, 100, 1000]))) * int(rng.choice([-1, 0, 1]))
                c, sn = (1 - q * q) / (1 + q * q), 2 * q / (1 + q * q)
                R = [[c, -sn], [sn, c]] if dim == 2 else [[c, -sn, 0], [sn, c, 0], [0, 0, 1]]
                g = PointGroupElement(np.array(R, float), False, bool(rng.random() < .2), _strict_eq=strict)
                els.append(g)
                recs.append(dict(R=[[pr.frac(x) for x in row] for row in R], c=False, a=g.antisymmetry, U=[], s=strict))
            table(s, els, recs, False, True)
    # equal up to rounding errors, at values where rounding to decimals is ambiguous
    for rep in range(ck.scale(10, 60)):
        with ck.session(f'rounding/{rep}') as s:
            els, recs = [], []
            strict = bool(rng.integers(2))
            for d in rng.permutation(6)[:4]:
                q = Fraction(2 * int(rng.integers(-9, 9)) + 1, 2 * 10 ** int(d))
                k = rng.integers(3)
                for e in (0, 4e-13, -3e-13):
                    R = [[q, 0], [0, 1]] if k == 0 else [[q + 1, 1], [0, q + 1]] if k == 1 else [[q, 1], [1, 0]]
                    A = np.array([[float(x) for x in row] for row in R])
                    A = A + e * (rng.integers(2) if k == 1 else 1)
                    U = None if rng.integers(2) else np.eye(2) * (1 + abs(e))
                    els.append(PointGroupElement(A, False, False, U, _strict_eq=strict and U is None))
                    recs.append(dict(R=[[pr.frac(Fraction(x)) for x in row] for row in R], c=False, a=False, U=[] if U is None else pr.cmat(np.eye(2)), s=strict and U is None))
            table(s, els, recs, False, not strict)
    for rep in range(ck.scale(60, 600)):
        with ck.session(f'scaled/{rep}') as s:
            a = G.rand_elem(rng, 'int2', 2, strict=bool(rng.integers(2)))
            U = a.U * [2, .5, 3, 1][rng.integers(4)]
            b = PointGroupElement(a.R, a.conjugate, a.antisymmetry, U, _strict_eq=bool(rng.integers(2)))
            s.ev('scaled', x=G.rec(a, pr), y=G.rec(b, pr), eq=bool(a == b), qe=bool(b == a), ne=bool(a != b))
    return ck.finish()


if __name__ == '__main__':
    main(body)
