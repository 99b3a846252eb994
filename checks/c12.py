"""C12: symmetry elements acting on models and Bloch models."""
import numpy as np, sympy, scipy.sparse as sp
import tinyarray as ta
from vh.check import Check, main, call
from vh import models as M, groups as G
from checks.c11 import BRun, key, VARS, NV
from qsymm import Model, BlochModel, PointGroupElement

POOLS = {1: ['int1'], 2: ['int2', 'int2', 'hexint2', 'hexfloat2', 'hexsym2', 'oct_float2'],
         3: ['int3', 'int3', 'hexfloat3', 'hextilt3', 'hexsym3']}


class URun(BRun):
    def new_plain(self, fn, fm, mom):
        m = M.build(fn, fm, mom)
        return self.push('new', m, m=fn.record(self.pr, fm, mom), bl=False)


def element(rng, pool, n, irr):
    """random element; the unitary has small height"""
    R = G.rand_R(rng, pool)
    c, a = bool(rng.integers(2)), bool(rng.integers(2))
    r = rng.random()
    if n is None or r < .2:
        U = None
    elif n == 2 and r < .5:
        U = G.spin_half_of(R, c) if pool in G.SPIN_OK else G.rand_unitary(rng, n)
    else:
        U = G.rand_unitary(rng, n, rich=n <= 2 and not irr)
    if not isinstance(R, sympy.MatrixBase) and rng.random() < .5:
        R = ta.array(np.array(R).tolist())
    return PointGroupElement(R, c, a, U)


def body():
    ck = Check('C12', 'C12', 'JC12', profile='q')
    rng = ck.rng
    pr = ck.proj('q23')
    for rep in range(ck.scale(170, 2200)):
        with ck.session(f'action/{rep}') as s:
            R = URun(ck, s, pr, rng)
            n = int(rng.integers(1, 4))
            fm = ['dense', 'dense', 'sparse', 'scalar'][rng.integers(4)]
            square = fm != 'scalar' and rng.random() < .9
            sh = () if fm == 'scalar' else (n, n) if square else (n, n % 3 + 1)
            mom = [['k_x', 'k_y', 'k_z'], ['k_x', 'k_y'], ['k_x', 'k_y'], ['k_y'], ['k_y', 'k_x'], ['q_x', 'k_z']][rng.integers(6)]
            mi = [VARS.index(v) for v in mom]
            pool = POOLS[len(mom)][rng.integers(len(POOLS[len(mom)]))]
            irr = 'int' not in pool
            bloch = rng.random() < .55
            for _ in range(2):
                if bloch:
                    R.new(M.Fn(VARS, sh, {key(rng, mom): M.rmat(rng, sh) for _ in range(rng.integers(0 if rng.random() < .08 else 1, 4))}), fm, mom)
                else:
                    # plain models: polynomials in momenta, parameters; exponentials with integer actions
                    kw = dict(polyvars=mi + [3, 4], phvars=[] if irr else mi + [3], half=.15)
                    R.new_plain(M.rand_fn(rng, VARS, sh, 4, nmom=3, deg=3 if not irr else 2, phase=.4, neg=0 if 5 in mi else .08, **kw), fm, mom)
            base = [k for k, m in enumerate(R.m) if isinstance(m, BlochModel) == bloch]
            for step in range(ck.scale(4, 6)):
                i = base[rng.integers(len(base))]
                x = R.m[i]
                if len(x.data) > 12:
                    continue
                nU = sh[0] if square else None
                g, f = element(rng, pool, nU, irr), element(rng, pool, nU, irr)
                if rng.random() < .12:     # flags, identity
                    g = PointGroupElement(np.eye(len(mom), dtype=int), bool(rng.integers(2)), bool(rng.integers(2)), None if nU is None else g.U)
                if g.U is None or f.U is None:
                    g = PointGroupElement(g.R, g.conjugate, g.antisymmetry, None)
                    f = PointGroupElement(f.R, f.conjugate, f.antisymmetry, None)
                fe, ge = G.rec(f, pr), G.rec(g, pr)
                r = rng.integers(4)
                ms = [k + 1 for k in mi]
                if r == 0:
                    R.push('apply', g.apply(x), x=i + 1, g=ge, mom=ms, nv=NV, bl=bloch)
                elif r <= 2:
                    P = lambda m: M.pmodel(m, VARS, pr)
                    s.ev('laws', x=i + 1, g=ge, f=fe, mom=ms, nv=NV, prod=P((g * f).apply(x)), seq=P(g.apply(f.apply(x))),
                         back=P(g.inv().apply(g.apply(x))), id=P(g.identity().apply(x)))
                elif not irr:
                    j = base[rng.integers(len(base))]
                    y = R.m[j]
                    c = [2, -1j, 1 + 1j][rng.integers(3)]
                    # linear combination, then apply
                    if y.shape == x.shape and y.format is x.format:
                        a = R.push('scale', x * c, x=i + 1, z=pr.cplx(c), bl=bloch)
                        b = R.push('add', R.m[a - 1] + y, x=a, y=j + 1, bl=bloch)
                        R.push('apply', g.apply(R.m[b - 1]), x=b, g=ge, mom=ms, nv=NV, bl=bloch)
            for i in base:
                s.ev('unchanged', x=i + 1, res=M.pmodel(R.m[i], VARS, pr))
    ck.assumptions += ['entries of results are recognised in Q(i,sqrt2,sqrt3) with tolerance 1e-9']
    return ck.finish()


if __name__ == '__main__':
    main(body)
