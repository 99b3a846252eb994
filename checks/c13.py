"""C13: continuous generators acting on models."""
import numpy as np, sympy, scipy.sparse as sp
import tinyarray as ta
from vh.check import Check, main, call
from vh import models as M, groups as G
from checks.c11 import key, VARS, NV
from checks.c12 import URun, element
from qsymm import Model, BlochModel, PointGroupElement, ContinuousGroupGenerator
from qsymm.groups import L_matrices, spin_matrices


def herm(rng, n):
    if rng.random() < .2 and n > 1:
        return spin_matrices((n - 1) / 2)[rng.integers(3)] if n < 3 else np.diag([1., 0, -1]) if rng.integers(2) else L_matrices(3, 1)[rng.integers(3)]
    a = rng.integers(-2, 3, (n, n)) + 1j * rng.integers(-2, 3, (n, n))
    return a + a.T.conj()


def asym(rng, d):
    if d == 3 and rng.random() < .3:
        return np.array(L_matrices(3, 1)[rng.integers(3)])
    a = rng.integers(-2, 3, (d, d))
    return 1j * (a - a.T)


def gen(rng, d, n, bloch=False):
    r = rng.random()
    R = None if r < .2 or bloch else np.zeros((d, d)) if r < .25 else asym(rng, d)
    r = rng.random()
    U = None if n is None or r < .2 else np.zeros((n, n)) if r < .25 else herm(rng, n)
    return ContinuousGroupGenerator(R, U)


def grec(g, pr):
    return dict(R=[] if g.R is None else pr.cmat(g.R), U=[] if g.U is None else pr.cmat(g.U))


def body():
    ck = Check('C13', 'C13', 'JC13', profile='q')
    rng = ck.rng
    pr = ck.proj('q23')
    P = lambda m: M.pmodel(m, VARS, pr)
    for rep in range(ck.scale(200, 2600)):
        with ck.session(f'generator/{rep}') as s:
            R = URun(ck, s, pr, rng)
            n = int(rng.integers(1, 4))
            fm = ['dense', 'dense', 'sparse', 'scalar'][rng.integers(4)]
            sh = () if fm == 'scalar' else (n, n)
            mom = [['k_x', 'k_y', 'k_z'], ['k_x', 'k_y'], ['k_x', 'k_y'], ['k_y'], ['k_y', 'k_x'], ['q_x', 'k_z']][rng.integers(6)]
            mi = [VARS.index(v) for v in mom]
            bloch = rng.random() < .15
            for _ in range(2):
                if bloch:
                    R.new(M.Fn(VARS, sh, {key(rng, mom): M.rmat(rng, sh) for _ in range(rng.integers(1, 4))}), fm, mom)
                else:
                    fn = M.rand_fn(rng, VARS, sh, 4, nmom=3, deg=3, phase=.25, polyvars=mi + [3, 4], phvars=mi + [3], half=.15, neg=0 if 5 in mi else .08)
                    if rng.random() < .25 and len(mom) > 1:
                        # rotation invariant: powers of k^2 times scalars
                        fn = M.Fn(VARS, sh, {})
                        v = np.eye(n) * 2 if sh else 2.
                        for i in mi:
                            ex = [0] * NV
                            ex[i] = 2
                            fn.data[(tuple(ex), (0,) * NV)] = v
                    R.new_plain(fn, fm, mom)
            base = [k for k, m in enumerate(R.m) if isinstance(m, BlochModel) == bloch]
            ms = [k + 1 for k in mi]
            for step in range(ck.scale(4, 6)):
                i = base[rng.integers(len(base))]
                x = R.m[i]
                nU = n if sh else None
                f, g = gen(rng, len(mom), nU, bloch), gen(rng, len(mom), nU, bloch)
                r = rng.integers(4)
                if r == 0:
                    R.push('gen', g.apply(x), x=i + 1, g=grec(g, pr), mom=ms, nv=NV, bl=bloch)
                elif r == 1 and len(x.data) <= 6:
                    br = lambda a, b: None if a is None or b is None else -1j * (a @ b - b @ a)
                    c = ContinuousGroupGenerator(br(f.R, g.R), br(f.U, g.U))
                    s.ev('lie', x=i + 1, f=grec(f, pr), g=grec(g, pr), mom=ms, nv=NV, fg=P(f.apply(g.apply(x))), gf=P(g.apply(f.apply(x))), br=P(c.apply(x)))
                elif r == 2 and not bloch:
                    pool = {1: 'int1', 2: 'int2', 3: 'int3'}[len(mom)]
                    e = element(rng, pool, nU, True)
                    e = PointGroupElement(e.R, False, e.antisymmetry, e.U)
                    Rm = np.array(np.array(e.R).tolist(), float)
                    G2 = ContinuousGroupGenerator(None if g.R is None else Rm @ g.R @ Rm.T, None if g.U is None else g.U if e.U is None else e.U @ g.U @ e.U.T.conj())
                    s.ev('conj-covariance', x=i + 1, g=G.rec(e, pr), G=grec(g, pr), mom=ms, nv=NV, left=P(e.apply(g.apply(x))), right=P(G2.apply(e.apply(x))))
                elif r == 3:
                    j = base[rng.integers(len(base))]
                    y = R.m[j]
                    c = [2, -1j, 1 + 1j][rng.integers(3)]
                    if y.shape == x.shape and y.format is x.format:
                        a = R.push('scale', x * c, x=i + 1, z=pr.cplx(c), bl=bloch)
                        b = R.push('add', R.m[a - 1] + y, x=a, y=j + 1, bl=bloch)
                        R.push('gen', g.apply(R.m[b - 1]), x=b, g=grec(g, pr), mom=ms, nv=NV, bl=bloch)
            for i in base:
                s.ev('unchanged', x=i + 1, res=P(R.m[i]))
    with ck.session('invalid') as s:
        bad = []
        L = np.array([[0, -1j], [1j, 0]])
        for a in ([[0, 1], [-1, 0]], [[0, 1], [1, 0]], [[1j, 0], [0, 0]], [[1, 0], [0, 1]], [[0, 1j], [1j, 0]], [[1, -1j], [1j, 0]], [[0, 1 - 1j], [1 + 1j, 0]],
                  [[0, 1e-2 - 1j], [1e-2 + 1j, 0]], [[0, -1j], [1.1j, 0]]):
            bad.append(lambda a=a: ContinuousGroupGenerator(R=np.array(a)))
            bad.append(lambda a=a: ContinuousGroupGenerator(R=np.array(a), U=np.eye(3)))
        for a in ([[0, 1], [-1, 0]], [[1j, 0], [0, 0]], [[0, 1j], [1j, 0]], [[1, 2], [2 + 1e-2, 1]], [[0, 1 + 1j], [1 + 1j, 0]], [[1 + .01j, 0], [0, 1]]):
            bad.append(lambda a=a: ContinuousGroupGenerator(U=np.array(a)))
            bad.append(lambda a=a: ContinuousGroupGenerator(R=L, U=np.array(a)))
        bad.append(lambda: ContinuousGroupGenerator(R=L).apply(Model('k_x*sigma_x', momenta=['k_x'])))
        bad.append(lambda: ContinuousGroupGenerator(R=L).apply(BlochModel({'e**(I*k_x)': np.eye(2)}, momenta=['k_x', 'k_y'])))
        s.ev('rejects', raised=[call(b)[1] is not None for b in bad])
        good = [lambda: ContinuousGroupGenerator(R=L), lambda: ContinuousGroupGenerator(U=L), lambda: ContinuousGroupGenerator(R=L, U=np.eye(2)), lambda: ContinuousGroupGenerator(),
                lambda: ContinuousGroupGenerator(R=L * (1 + 1e-14), U=np.array([[1, 1j], [-1j * (1 + 1e-13), 2]]))]
        s.ev('rejects', raised=[call(b)[1] is None for b in good])
    return ck.finish()


if __name__ == '__main__':
    main(body)
