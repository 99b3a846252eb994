"""C01: sessions of products, inverses, powers over shared elements."""
import numpy as np, sympy
from vh.check import Check, Session, main, call
from vh import groups as G
from qsymm.groups import PointGroupElement


def given(g, R, c, a, U, pr):
    """what the constructor was asked for"""
    return dict(R=pr.rmat(np.array(np.array(R).tolist(), dtype=float)), c=bool(c), a=bool(a), U=[] if U is None else pr.cmat(np.asarray(U)), s=g._strict_eq is True)


def body():
    ck = Check('C01', 'C01', 'JC01')
    rng = ck.rng
    pools = list(G.POOLS)
    n = ck.scale(10, 120)
    for rep in range(n):
        for pool in pools:
            pr = ck.proj(G.PROFILE[pool])
            nU = [None, 1, 2, 2, 3, 4][rng.integers(6)]
            with ck.session(f'{pool}/{rep}') as s:
                heap = []

                def add(op, g, **kw):
                    heap.append(g)
                    s.ev(op, res=G.rec(g, pr), **kw)
                for i in range(3):
                    g = G.rand_elem(rng, pool, nU if rng.random() < .9 else None)
                    if rng.random() < .15 and G.POOLS[pool][1] != 'int':
                        # an integer rotation may be mixed with either representation
                        g = PointGroupElement(np.diag(rng.choice([-1, 1], G.POOLS[pool][0])), g.conjugate, g.antisymmetry, g.U)
                    # built anew from its parts: the constructor stores what it is given
                    par = G.Rarr(g) if rng.random() < .5 and not isinstance(g.R, sympy.MatrixBase) else g.R, g.conjugate, g.antisymmetry, g.U
                    par = (np.round(par[0]).astype(int) if rng.random() < .5 and np.all(G.Rarr(g) == np.round(G.Rarr(g))) else par[0], *par[1:])
                    g = PointGroupElement(*par)
                    add('new', g, obj=given(g, *par, pr))
                for _ in range(ck.scale(6, 10)):
                    k = rng.integers(10)
                    # spectrum of heights stays small: operate on the most recent and the base elements
                    x, y, z = (int(v) for v in rng.integers(0, min(len(heap), 6), 3))
                    if k < 4:
                        add('mul', heap[x] * heap[y], x=x + 1, y=y + 1)
                    elif k == 4:
                        add('inv', heap[x].inv(), x=x + 1)
                    elif k == 5:
                        m = int(rng.integers(-3, 4)); add('pow', heap[x] ** m, x=x + 1, n=m)
                    elif k == 6:
                        add('id', heap[x].identity(), x=x + 1)
                    elif k == 7:
                        a, b, c = heap[x], heap[y], heap[z]
                        s.ev('assoc', x=x + 1, y=y + 1, z=z + 1, left=G.rec((a * b) * c, pr), right=G.rec(a * (b * c), pr))
                    else:
                        a = heap[x]
                        s.ev('invid', x=x + 1, left=G.rec(a.inv() * a, pr), right=G.rec(a * a.inv(), pr))
                s.ev('frame', objs=[G.rec(g, pr) for g in heap])
    # general invertible integer matrices (lattice coordinates): exact integer inverses
    pr = ck.proj('q')
    for rep in range(ck.scale(150, 1500)):
        dim = int(rng.integers(1, 4))
        with ck.session(f'unimodular/{rep}') as s:
            R0 = G.rand_unimodular(rng, dim)
            g = PointGroupElement(R0)
            s.ev('new', obj=given(g, R0, False, False, None, pr), res=G.rec(g, pr))
            gi = g.inv(); s.ev('inv', x=1, res=G.rec(gi, pr))
            s.ev('invid', x=1, left=G.rec(gi * g, pr), right=G.rec(g * gi, pr))
            p = g ** -2; s.ev('pow', x=1, n=-2, res=G.rec(p, pr))
    # floating point rotations in coordinates that are not Cartesian, and very small shears
    for rep in range(ck.scale(60, 600)):
        with ck.session(f'skew/{rep}') as s:
            heap = []
            if rep % 3:
                pr, B = ck.proj('q'), [np.array([[1, .5], [0, 2]]), np.array([[1, .25], [1, .75]]), np.array([[1, 0, .5], [0, .5, 0], [0, 1, 2]])][rng.integers(3)]
                base = [G.rand_R(rng, 'int2' if len(B) == 2 else 'int3') for _ in range(3)]
                Rs = [B @ R @ np.linalg.inv(B) for R in base]
            else:
                pr = ck.proj('fine')
                Rs = [np.eye(2) + np.array([[0, int(rng.integers(-9, 10))], [0, 0]]) / 20000 for _ in range(3)]
            for R in Rs:
                par = R.astype(float), bool(rng.random() < .3), bool(rng.random() < .3), None if rng.random() < .5 else np.eye(2)
                g = PointGroupElement(*par)
                heap.append(g); s.ev('new', obj=given(g, *par, pr), res=G.rec(g, pr))
            for _ in range(6):
                x, y, k = (int(v) for v in (*rng.integers(0, len(heap), 2), rng.integers(4)))
                if k == 0:
                    g = heap[x] * heap[y]; s.ev('mul', x=x + 1, y=y + 1, res=G.rec(g, pr))
                elif k == 1:
                    g = heap[x].inv(); s.ev('inv', x=x + 1, res=G.rec(g, pr))
                elif k == 2:
                    m = int(rng.integers(-3, 4)); g = heap[x] ** m; s.ev('pow', x=x + 1, n=m, res=G.rec(g, pr))
                else:
                    a = heap[x]; s.ev('invid', x=x + 1, left=G.rec(a.inv() * a, pr), right=G.rec(a * a.inv(), pr)); continue
                heap.append(g)
    ck.assumptions += ['entries of results are recognised in Q(i,sqrt2,sqrt3) with tolerance 1e-9']
    return ck.finish()


if __name__ == '__main__':
    main(body)
