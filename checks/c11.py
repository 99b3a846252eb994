"""C11: Bloch models against the algebra of spec/Poly.tla."""
import copy, inspect
from fractions import Fraction
import numpy as np, sympy, scipy.sparse as sp
import tinyarray as ta
from vh.check import Check, main, call
from vh import models as M, groups as G
from checks.c10 import Run, half_power
from qsymm import Model, BlochModel
from qsymm.model import BlochCoeff, e as E

VARS = ['k_x', 'k_y', 'k_z', 'a', 'b', 'q_x', 'c']
NV = len(VARS)
SY = [sympy.Symbol(v) for v in VARS]
I = sympy.I


def key(rng, mom, deg=2, sqrt=False):
    """momentum free monomial times a hopping exponential"""
    mi = [VARS.index(v) for v in mom]
    par = [i for i in range(3, NV) if i not in mi and i != 5]
    ex, ph = [0] * NV, [0] * NV
    for _ in range(rng.integers(0, deg + 1)):
        ex[par[rng.integers(len(par))]] += 1
    if rng.random() < .06:
        ex[par[rng.integers(len(par))]] -= 1
    if rng.random() < .8:
        for i in mi:
            ph[i] = int(rng.integers(-1, 2))
        if rng.random() < .2:
            ph[mi[0]] = Fraction(int(rng.integers(-3, 4)), 2)
    if rng.random() < .12:
        ph[par[rng.integers(len(par))]] = int(rng.choice([-1, 1, 2]))
    return tuple(ex), tuple(ph)


def coeff_of(k, mom):
    ex, ph = k
    hop = np.array([float(ph[VARS.index(v)]) for v in mom])
    ph2 = tuple(0 if VARS[i] in mom else p for i, p in enumerate(ph))
    return BlochCoeff(hop, sympy.sympify(M.sym_key(ex, ph2, VARS)))


class BRun(Run):
    def push(self, op, res, **kw):
        kw.setdefault('bl', True)
        return super().push(op, res, **kw)

    def new(self, fn, fm, mom, keep=None):
        rng = self.rng
        cls = [sp.csr_matrix, sp.csc_matrix][rng.integers(2)]
        val = lambda v: cls(v) if fm == 'sparse' else complex(v) if fm == 'scalar' else v.copy()
        form = rng.integers(4)
        F = {'sparse': cls, 'scalar': np.complex128, 'dense': np.ndarray}[fm]
        kw = {}
        if keep is not None:
            kw['keep'] = [coeff_of(k, mom) for k in keep]
            form = 0
            if not any(k in keep for k in fn.data):
                kw.update(shape=fn.sh, format=F)
        if not fn.data:
            kw.update(shape=fn.sh, format=F)
        rec = fn.record(self.pr, fm, mom, keep or ())
        if form == 0:
            # hoppings with rounding errors
            data = {}
            for k, v in fn.data.items():
                hop, c = coeff_of(k, mom)
                data[BlochCoeff(hop * (1 + (1e-13 * rng.normal(size=hop.shape) if keep is None else 0)), c)] = val(v)
            return self.push('new', BlochModel(data, momenta=mom, **kw), m=rec)
        if form == 1:
            return self.push('new', BlochModel({M.sym_key(*k, VARS): val(v) for k, v in fn.data.items()}, momenta=mom, **kw), m=rec)
        if form == 2 and fm == 'dense' and len(fn.sh) == 2 and fn.data and any(np.any(v) for v in fn.data.values()):
            ex = sum((M.sym_key(*k, VARS) * sympy.Matrix([[int(z.real) + I * int(z.imag) for z in row] for row in v]) for k, v in fn.data.items()), sympy.zeros(*fn.sh))
            if rng.integers(2):
                ex = str(ex.tolist())
            return self.push('new', BlochModel(ex, momenta=mom), m=rec)
        m = M.build(fn, fm, mom, cls=cls)
        x = super().push('new', m, m=rec, bl=False)
        return self.push('recast', BlochModel(m), x=x)


def floaty(m):
    if not isinstance(m, BlochModel):
        return any(k.atoms(sympy.Float) for k in m.data)
    """coefficients are compared as sympy expressions, where e**(I*a) and e**(1.0*I*a) differ"""
    return any(k[1].atoms(sympy.Float) for k in m.data)


def body():
    ck = Check('C11', 'C11', 'JC11', profile='q')
    rng = ck.rng
    pr = ck.proj('q23')
    for rep in range(ck.scale(230, 3000)):
        with ck.session(f'bloch/{rep}') as s:
            R = BRun(ck, s, pr, rng)
            n = int(rng.integers(1, 4))
            fm = ['dense', 'dense', 'sparse', 'scalar'][rng.integers(4)]
            sh = () if fm == 'scalar' else (n, n) if rng.random() < .8 else (n, int(rng.integers(1, 3)))
            mom = [['k_x', 'k_y', 'k_z'], ['k_x', 'k_y'], ['k_x', 'k_y'], ['k_y'], ['k_y', 'k_x'], ['q_x', 'k_z']][rng.integers(6)]
            keys = [key(rng, mom) for _ in range(4)] + [((0,) * NV, (0,) * NV)]
            usekeep = rng.random() < .15
            def rfn():
                return M.Fn(VARS, sh, {keys[rng.integers(len(keys))] if rng.random() < .6 else key(rng, mom): M.rmat(rng, sh) for _ in range(rng.integers(0 if rng.random() < .1 else 1, 4))})
            for _ in range(2):
                keep = None
                if usekeep and rng.random() < .7:
                    keep = [k for k in keys + [key(rng, mom) for _ in range(2)] if rng.random() < .6] or [keys[0]]
                R.new(rfn(), fm, mom, keep)
            for step in range(ck.scale(8, 11)):
                i = int(rng.integers(len(R.m)))
                x = R.m[i]
                if len(x.data) > 12 or any(np.max(np.abs(M.arr(v)), initial=0) > 2e3 for v in x.values()):
                    continue
                bl = isinstance(x, BlochModel)
                cm = [getattr(k, 'name', k) for k in x.momenta]
                same = [j for j, y in enumerate(R.m) if y.shape == x.shape and y.format is x.format and isinstance(y, BlochModel) == bl and y.momenta == x.momenta]
                j = same[rng.integers(len(same))]
                y = R.m[j]
                r = rng.integers(15)
                if bl and (floaty(x) or floaty(y)):
                    r = [2, 3, 7, 8, 13][rng.integers(5)]
                if not bl:      # plain models only as intermediate results (see C08 - C10)
                    r = [7, 12, 12, 13][rng.integers(4)]
                if r == 0:
                    R.push('add', x + y, x=i + 1, y=j + 1, bl=bl)
                elif r == 1:
                    R.push('sub', x - y, x=i + 1, y=j + 1, bl=bl)
                elif r == 2:
                    R.push('neg', -x, x=i + 1, bl=bl)
                elif r == 3:
                    c = [2, -1, 1.5, 2 - 1j, 1j, np.float64(.5), np.complex128(1 + 1j)][rng.integers(7)]
                    R.push('scale', x * c if rng.integers(2) else c * x, x=i + 1, z=pr.cplx(complex(c)), bl=bl)
                elif r == 4 and M.fmt(x.format) != 'sparse' and len(x.data) * len(y.data) <= 16:
                    R.push('mul', x * y, x=i + 1, y=j + 1, bl=bl)
                elif r == 5 and len(x.data) * len(y.data) <= 16 and len(x.shape) == 2 and x.shape[0] == x.shape[1]:
                    R.push('matmul', x @ y, x=i + 1, y=j + 1, bl=bl)
                elif r == 6 and cm and (not bl or not x.keep):
                    k = key(rng, cm) if not bl else tuple(key(rng, cm)[:1]) + ((0,) * NV,)
                    if sum(map(abs, k[0])) + sum(abs(p) for p in k[1]) == 0:
                        continue
                    if 'q_x' in cm and k[0][5]:
                        continue
                    S = M.sym_key(*k, VARS)
                    R.push('symbol', x * S if rng.integers(2) else S * x, x=i + 1, key=M.keyj(*k, pr), bl=bl)
                elif r == 7:
                    R.push('conj', x.conj(), x=i + 1, bl=bl)
                elif r == 8 and len(x.shape) == 2:
                    q = rng.integers(3)
                    if q == 0:
                        R.push('T', x.T(), x=i + 1, bl=bl)
                    elif q == 1 and x.shape[0] == x.shape[1]:
                        R.push('trace', x.trace(), x=i + 1, bl=bl)
                    else:
                        ns = (1, x.shape[0] * x.shape[1])
                        R.push('reshape', x.reshape(ns), x=i + 1, sh=list(ns), bl=bl)
                elif r == 9 and cm and all(c in VARS for c in cm):
                    mi = [VARS.index(c) for c in cm]
                    pools = {1: ['int1'], 2: ['int2', 'hexfloat2', 'hexsym2', 'oct_float2'], 3: ['int3', 'hexfloat3', 'hexsym3']}[len(cm)]
                    Rm = G.rand_R(rng, pools[rng.integers(len(pools))])
                    if rng.random() < .2:
                        Q = rng.integers(-1, 2, (len(cm), len(cm)))   # any invertible linear map
                        if abs(np.linalg.det(Q)) > .5:
                            Rm = Q
                    Rf = np.array(np.array(Rm).tolist(), float)
                    if not isinstance(Rm, sympy.MatrixBase) and rng.integers(2):
                        Rm = ta.array(np.array(Rm).tolist())
                    integer = np.allclose(Rf, np.round(Rf))
                    if not integer and not bl:
                        continue
                    if not integer and any(None in R.phases(x, v) for v in mi):
                        continue
                    k = R.push('rot', x.rotate_momenta(Rm), x=i + 1, R=pr.rmat(Rf), mom=[v + 1 for v in mi], nv=NV, bl=bl)
                    if not integer and rng.random() < .5:
                        R.push('recast', R.m[k - 1].tomodel(nsimplify=bool(rng.random() < .7)), x=k, bl=False)
                        R.m.pop()
                        s.ev('alias', x=len(R.m) + 1, y=i + 1)
                        R.m.append(x)
                    if not integer:
                        # rotate back: hoppings agree again within tolerance
                        b = R.push('rot', R.m[k - 1].rotate_momenta(Rf.T), x=k, R=pr.rmat(Rf.T), mom=[v + 1 for v in mi], nv=NV, bl=bl)
                        s.ev('eq', x=i + 1, y=b, res=bool(x == R.m[b - 1]), ne=bool(x != R.m[b - 1]), sym=bool(R.m[b - 1] == x))
                        R.push('sub', x - R.m[b - 1], x=i + 1, y=b, bl=bl)
                        R.push('add', R.m[b - 1] + x, x=b, y=i + 1, bl=bl)
                        # the irrational one is not used any further
                        R.m[k - 1] = R.m[b - 1]
                        s.ev('alias', x=k, y=b)
                elif r in (10, 11):
                    if any(0 < abs(p) < 1e-9 for _, ex, ph in M.parts(x, VARS) for p in ph):
                        continue      # rounding errors
                    v = int(rng.integers(NV))
                    st = None
                    for _ in range(4):
                        st = R.step(x, v)
                        if st is not None:
                            break
                    if st is None:
                        continue
                    st, old, new = st
                    # the step is chosen for the terms of the model, not for those of keep
                    if bl and x.keep and any(ex[v] or ph[v] for kk in x.keep for _, ex, ph in M.bkey(kk, x.momenta, VARS)):
                        continue
                    # keep the result in Bloch form: parameters are not replaced by momenta
                    if bl and VARS[v] not in cm and (set(st['occ']) & set(cm)):
                        continue
                    if st['sym'] in cm or st["sym"] and any(ex[VARS.index(st['sym'])] or ph[VARS.index(st['sym'])] for _, ex, ph in M.parts(x, VARS)):
                        continue
                    if bl and VARS[v] in cm and len(st['occ']) > 0 and not R.phases(x, v) - {0}:
                        # nothing to substitute: only the list of momenta changes
                        pass
                    res = x.subs(old, new) if rng.integers(2) else x.subs({old: new})
                    R.push('subs', res, x=i + 1, steps=[st], nv=NV, bl=bl)
                elif r == 12:
                    q = rng.integers(3)
                    if q == 0 or not bl:
                        if bl:
                            R.push('recast', x.tomodel(nsimplify=bool(rng.integers(2))), x=i + 1, bl=False)
                        else:
                            R.push('recast', BlochModel(x), x=i + 1, bl=True)
                    elif q == 1:
                        R.push('copy', x.copy() if rng.integers(2) else copy.copy(x), x=i + 1, bl=bl)
                    elif fm != 'scalar' and len(x.shape) == 2:
                        if rng.integers(2):
                            R.push('format', x.toarray(), x=i + 1, fmt='dense', bl=bl)
                        else:
                            R.push('format', x.tocsr(), x=i + 1, fmt='sparse', bl=bl)
                elif r == 13 and x.data and len(x.shape) != 1:
                    steps, vals, ok = [], {}, True
                    for v in range(NV):
                        phs = R.phases(x, v) - {0}
                        nn = 0
                        if None in phs or (phs and R.neg(x, v)):
                            ok = False
                            break
                        if phs and not R.inpoly(x, v):
                            nn = int(rng.integers(-3, 4))
                            val, z = nn * np.pi / 2, 0
                        elif phs:
                            val = z = 0
                        else:
                            val = z = [2, 1, -1, .5][rng.integers(4)]
                        zz = pr.cplx(z)
                        steps.append(dict(var=v + 1, name=VARS[v], sym='', occ=[], lin=[0] * NV, ph=[[pr.real(float(d)), pr.cplx(half_power(d * nn))] for d in phs],
                                          q=[[[0] * NV, [0] * NV, [zz[0]], [zz[1]]]] if z else []))
                        vals[VARS[v]] = val
                    if not ok:
                        continue
                    f = x.lambdify(nsimplify=bool(rng.integers(2)))
                    res = M.arr(f(**{u: vals[u] for u in inspect.signature(f).parameters}))
                    shp = list(res.shape) if not (x.shape == () and res.size == 1) else []
                    s.ev('eval', x=i + 1, steps=steps, nv=NV, sh=shp, v=list(M.flat(res, pr)))
                elif r == 14:
                    s.ev('eqzero', x=i + 1, res=[bool(x == 0), bool(x == {}), bool(x.allclose(0)), not (x != 0)])
                    if bl and x.data:
                        k0 = list(x.data)[rng.integers(len(x.data))]
                        _, ex, ph = M.bkey(k0, x.momenta, VARS)[0]
                        hop = np.array(k0[0]) + 1e-12
                        forms = [k0, BlochCoeff(hop, k0[1])]
                        if all(abs(p * 4 - round(p * 4)) < 1e-9 and (p == 0 or v in cm) for p, v in zip(ph, VARS)):
                            forms.append(M.sym_key(ex, [Fraction(round(p * 4), 4) for p in ph], VARS))
                        for f in forms:
                            v = x[f]
                            s.ev('look', x=i + 1, key=M.keyj(ex, ph, pr), sh=list(np.shape(M.arr(v))), v=list(M.flat(M.arr(v), pr)))
                if len(R.m) > 1:
                    a = int(rng.integers(len(R.m)))
                    c = [q for q in range(len(R.m)) if R.m[q].shape == R.m[a].shape and R.m[q].format is R.m[a].format and isinstance(R.m[q], BlochModel) == isinstance(R.m[a], BlochModel)
                         and R.m[q].momenta == R.m[a].momenta]
                    b = c[rng.integers(len(c))]
                    if isinstance(R.m[a], BlochModel) and floaty(R.m[a]) == floaty(R.m[b]) == False:   # (plain models distinguish e**(I*k_x) and e**(1.0*I*k_x))
                        s.ev('eq', x=a + 1, y=b + 1, res=bool(R.m[a] == R.m[b]), ne=bool(R.m[a] != R.m[b]), sym=bool(R.m[b] == R.m[a]))
            for i, m in enumerate(R.m):
                if rng.random() < .3:
                    s.ev('unchanged', x=i + 1, res=M.pmodel(m, VARS, pr))
    # coefficients
    for rep in range(ck.scale(40, 300)):
        with ck.session(f'coeff/{rep}') as s:
            mom = ['k_x', 'k_y', 'k_z'][:rng.integers(1, 4)]
            k1, k2 = key(rng, mom), key(rng, mom)
            b1, b2 = coeff_of(k1, mom), coeff_of(k2, mom)
            for x, y, same in ((b1, b2, k1 == k2), (b1, BlochCoeff(b1[0] + 1e-12 * rng.normal(size=b1[0].shape), b1[1]), True), (b1, b1.copy(), True),
                               (b1, BlochCoeff(b1[0] + 1e-3, b1[1]), False), (b1, BlochCoeff(b1[0], b1[1] * SY[4]), False)):
                s.ev('bceq', same=same, eq=bool(x == y), ne=bool(x != y), hash=hash(x) == hash(y), found=y in {x: 1})
            s.ev('bceq', same=k1 == ((0,) * NV, (0,) * NV), eq=bool(b1 == 1), ne=bool(b1 != 1), hash=True, found=bool(b1 == 1))
            p = b1 * b2
            _, ex, ph = M.bkey(p, mom, VARS)[0]
            s.ev('bcmul', x=M.keyj(*k1, pr), y=M.keyj(*k2, pr), res=M.keyj(ex, ph, pr))
            t = (tuple(M.rand_key(rng, NV, polyvars=[3, 4], phvars=[], neg=0)[0]), (0,) * NV)
            for q in (b1 * sympy.sympify(M.sym_key(*t, VARS)), sympy.sympify(M.sym_key(*t, VARS)) * b1 if M.sym_key(*t, VARS) != 1 else b1):
                _, ex, ph = M.bkey(q, mom, VARS)[0]
                s.ev('bcmul', x=M.keyj(*k1, pr), y=M.keyj(*t, pr), res=M.keyj(ex, ph, pr))
    A = np.eye(2)
    B = BlochModel({'e**(I*k_x)': A})
    kx, a = sympy.symbols('k_x a')
    bad = [lambda k=k: BlochModel({k: A}) for k in ('k_x*a', 'k_x', 'e**(k_x)', 'e**(a*I*k_x)', 'e**(I*k_x**2)', 'k_x*e**(I*k_y)', 'e**(I*k_x*k_y)', 'e**((1+I)*k_x)', 'k_x**2*e**(I*k_x)', 'sqrt(k_x)', 'e**(I*k_x + k_y)')]
    bad += [lambda: BlochModel('k_x*sigma_x'), lambda: BlochModel({BlochCoeff(np.zeros(3), a): A, 'a': A}), lambda: B.transform_symbolic(lambda x: x), lambda: BlochCoeff([0, 1], a),
            lambda: BlochCoeff(np.zeros(2), 1), lambda: BlochCoeff(np.zeros(2), a + 1), lambda: BlochModel(Model({'k_x': A})), lambda: BlochModel({'a*e**(I*k_x)': A}).subs(a, kx),
            lambda: B.subs(kx, a * kx), lambda: B.rotate_momenta(np.eye(2)), lambda: B.subs(kx, kx**2)]
    with ck.session('invalid') as s:
        s.ev('rejects', raised=[call(b)[1] is not None for b in bad])
    return ck.finish()


if __name__ == '__main__':
    main(body)
