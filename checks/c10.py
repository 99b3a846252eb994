"""C10: substitution, rotation, differentiation, conversion and evaluation."""
import inspect
from fractions import Fraction
import numpy as np, sympy, scipy.sparse as sp
import tinyarray as ta
from vh.check import Check, main, call
from vh import models as M, groups as G
from qsymm import Model

VARS = ['k_x', 'k_y', 'k_z', 'a', 'b', 'q_x', 'c']
NV = len(VARS)
SY = [sympy.Symbol(v) for v in VARS]
PI = sympy.pi


def half_power(q):
    """exp(i pi q / 2) for q with 2q integer (multiples of pi/4 stay in the field)"""
    return np.exp(1j * np.pi / 2 * float(q))


class Run:
    def __init__(self, ck, s, pr, rng):
        self.ck, self.s, self.pr, self.rng, self.m = ck, s, pr, rng, []

    def push(self, op, res, **kw):
        self.s.ev(op, res=M.pmodel(res, VARS, self.pr), **kw)
        self.m.append(res)
        return len(self.m)

    def phases(self, m, i):
        """coefficients of variable i in the exponents of m"""
        out = set()
        for _, ex, ph in M.parts(m, VARS):
            out.add(Fraction(round(ph[i] * 4), 4) if abs(ph[i] * 4 - round(ph[i] * 4)) < 1e-9 else None)
        return out

    def inpoly(self, m, i):
        return any(ex[i] for _, ex, ph in M.parts(m, VARS))

    def neg(self, m, i):
        return any(ex[i] < 0 for _, ex, ph in M.parts(m, VARS))

    def step(self, m, i):
        """a random admissible replacement of variable i: (record, old, new)"""
        rng, pr = self.rng, self.pr
        phs = self.phases(m, i) - {0}
        one = [pr.cplx(1)[0]], [pr.cplx(1)[1]]
        st = dict(var=i + 1, name=VARS[i], sym='', occ=[], lin=[0] * NV, ph=[], q=[])
        def term(ex, z):
            z = pr.cplx(z)
            return [[int(x) for x in ex], [0] * NV, [z[0]], [z[1]]]
        E = lambda *idx: [sum(1 for j in idx if j == k) for k in range(NV)]
        r = rng.random()
        if r < .3:      # rename
            j = int([x for x in range(NV) if x != i][rng.integers(NV - 1)])
            st.update(sym=VARS[j], occ=[VARS[j]], q=[term(E(j), 1)])
            st['lin'][j] = pr.real(1)
            return st, SY[i], SY[j]
        if r < .6:      # number
            if phs:
                if None in phs:
                    return None
                n = int(rng.integers(-3, 4))
                val = n * PI / 2
                if self.inpoly(m, i):
                    n, val = 0, sympy.Integer(0)
                    if self.neg(m, i):
                        return None
                z = 0
                st['ph'] = [[pr.real(float(d)), pr.cplx(half_power(d * n))] for d in phs]
                new = val if rng.integers(2) else float(val)
            else:
                q = [Fraction(2), Fraction(-1), Fraction(1, 2), Fraction(0), Fraction(-3, 2), Fraction(3)][rng.integers(6)]
                if self.neg(m, i) and q not in (1, -1, 2, Fraction(1, 2)):
                    return None
                z = float(q)
                new = [sympy.Rational(q), float(q), sympy.Float(float(q)), int(q) if q.denominator == 1 else float(q), np.float64(q)][rng.integers(5)]
                if not phs and rng.random() < .15 and not self.neg(m, i):
                    z, new = 1j, [sympy.I, 1j][rng.integers(2)]
            st['q'] = [term(E(), z)] if z else []
            return st, SY[i], new
        # expression
        if phs:
            if None in phs:
                return None
            lin = {int(j): int(rng.choice([-1, 1, 2])) for j in rng.choice(NV, rng.integers(1, 3), replace=False)}
            n = 0 if self.inpoly(m, i) else int(rng.integers(-2, 3))
            if self.neg(m, i):
                return None
            new = sum((c * SY[j] for j, c in lin.items()), n * PI / 2)
            st['q'] = [term(E(j), c) for j, c in lin.items()]
            for j, c in lin.items():
                st['lin'][j] = pr.real(c)
            st['ph'] = [[pr.real(float(d)), pr.cplx(half_power(d * n))] for d in phs]
            st['occ'] = [VARS[j] for j in lin]
            if isinstance(new, sympy.Symbol):
                st['sym'] = new.name
            return st, SY[i], new
        if self.neg(m, i):
            return None
        terms = {}
        for _ in range(rng.integers(1, 3)):
            ex = tuple(E(*rng.integers(0, NV, rng.integers(0, 3))))
            terms[ex] = [1, -1, 2, .5, 1j, 2 - 1j][rng.integers(6)]
        new = sum((c if not isinstance(c, complex) else int(c.real) + sympy.I * int(c.imag)) * sympy.prod([s ** x for s, x in zip(SY, ex)]) for ex, c in terms.items())
        new = sympy.sympify(new)
        st['q'] = [term(ex, c) for ex, c in terms.items()]
        st['occ'] = [VARS[j] for j in range(NV) if SY[j] in new.free_symbols]
        if isinstance(new, sympy.Symbol):
            st['sym'] = new.name
        return st, SY[i], new


def deg(m):
    return max([sum(map(abs, ex)) for _, ex, ph in M.parts(m, VARS)], default=0)


def body():
    ck = Check('C10', 'C10', 'JC10', profile='q')
    rng = ck.rng
    pr = ck.proj('q23')
    for rep in range(ck.scale(230, 3000)):
        with ck.session(f'subs/{rep}') as s:
            R = Run(ck, s, pr, rng)
            n = int(rng.integers(1, 4))
            fm = ['dense', 'dense', 'sparse', 'scalar'][rng.integers(4)]
            sh = () if fm == 'scalar' else (n, n) if rng.random() < .8 else (n, int(rng.integers(1, 3)))
            mom = [['k_x', 'k_y', 'k_z'], ['k_x', 'k_y'], ['k_y'], ['k_y', 'k_x', 'k_z'], ['q_x', 'k_z']][rng.integers(5)]
            nm = len(mom)
            mi = [VARS.index(v) for v in mom]
            sep = rng.random() < .6
            kw = dict(polyvars=[3, 4, 1] if sep else range(6), phvars=[0, 2, 5] if sep else range(6), half=.15)
            fn = M.rand_fn(rng, VARS, sh, 4, nmom=3, deg=2, phase=.5, **kw)
            m = M.build(fn, fm, mom)
            R.push('new', m, m=fn.record(pr, fm, mom))
            i = 0
            for step in range(ck.scale(5, 7)):
                i = int(rng.integers(len(R.m)))
                x = R.m[i]
                if any(0 < abs(p) < 1e-9 for _, ex, ph in M.parts(x, VARS) for p in ph):
                    continue      # rounding errors in exponents: keys are not merged
                if len(x.data) > 12 or deg(x) > 5 or any(np.max(np.abs(M.arr(v)), initial=0) > 2e3 for v in x.values()):
                    continue
                cm = [getattr(k, 'name', k) for k in x.momenta]
                r = rng.integers(9)
                if r <= 3:
                    k = 1 if rng.random() < .6 else int(rng.integers(2, 4))
                    vs = [int(v) for v in rng.choice(NV, k, replace=False)]
                    steps, pairs = [], []
                    for v in vs:
                        st = R.step(x, v)
                        if st is None:
                            continue
                        steps.append(st[0]); pairs.append(st[1:])
                    if not steps:
                        continue
                    names = [st['name'] for st in steps]
                    # no replacement mentions a variable that is replaced or renames onto a momentum
                    form = rng.integers(3) if len(pairs) == 1 else rng.integers(1, 3)
                    if len(steps) > 1 and any(set(st['occ']) & set(names) for st in steps):
                        # a list is substituted in order
                        inv = {VARS.index(n) for st in steps for n in [st['name'], *st['occ']]}
                        if any(VARS[v] in cm or R.phases(x, v) - {0} or R.neg(x, v) for v in inv):
                            continue
                        form = 2
                    if any(st['sym'] in cm and st['name'] in cm for st in steps):
                        continue
                    if len({st['sym'] for st in steps if st['sym']}) < sum(1 for st in steps if st['sym']):
                        continue
                    if any(n == sympy.Symbol('k') for _, n in pairs):
                        continue
                    if form == 0:
                        res = x.subs(*pairs[0])
                    elif form == 1:
                        res = x.subs(dict(pairs))
                    else:
                        res = x.subs(list(pairs))
                    R.push('subs', res, x=i + 1, steps=steps, nv=NV)
                elif r == 4 and all(c in VARS for c in cm) and cm:
                    mi = [VARS.index(c) for c in cm]
                    if any(R.neg(x, v) for v in mi):
                        continue
                    d = len(cm)
                    pools = {1: ['int1'], 2: ['int2', 'hexfloat2', 'hexsym2', 'oct_float2'], 3: ['int3', 'hexfloat3', 'hextilt3', 'hexsym3']}[d]
                    Rm = G.rand_R(rng, pools[rng.integers(len(pools))])
                    Rf = np.array(np.array(Rm).tolist(), float)
                    if not np.allclose(Rf, np.round(Rf)) and (deg(x) > 2 or len(x.data) > 6):
                        continue
                    if rng.random() < .2:
                        Rm = Rf = rng.integers(-2, 3, (d, d))
                        if deg(x) > 3:
                            continue
                    if not isinstance(Rm, sympy.MatrixBase) and rng.integers(2):
                        Rm = ta.array(np.array(Rm).tolist())
                    k = R.push('rot', x.rotate_momenta(Rm), x=i + 1, R=pr.rmat(Rf), mom=[j + 1 for j in mi], nv=NV)
                    if not np.allclose(Rf, np.round(Rf)):
                        # irrational keys are not used any further
                        s.ev('unchanged', x=i + 1, res=M.pmodel(x, VARS, pr))
                        break
                elif r == 5:
                    v = int(rng.integers(NV))
                    R.push('diff', x.transform_symbolic(lambda e, v=v: sympy.diff(e.subs(M.E_SYM, sympy.E), SY[v]).replace(lambda t: isinstance(t, sympy.exp), lambda t: M.E_SYM ** t.args[0])), x=i + 1, var=v + 1)
                elif r == 6 and fm != 'scalar' and len(sh) == 2:
                    if rng.integers(2):
                        R.push('format', x.toarray(), x=i + 1, fmt='dense')
                    else:
                        R.push('format', x.tocsr(), x=i + 1, fmt='sparse')
                elif r == 7 and x.data:
                    ns = bool(rng.integers(2))
                    S = x.tosympy(nsimplify=ns)
                    ent = [S] if not isinstance(S, sympy.MatrixBase) else list(S)
                    shp = [] if not isinstance(S, sympy.MatrixBase) else [int(d) for d in S.shape]
                    if x.shape == () and shp == [1, 1]:
                        shp = []
                    terms = []
                    N = len(ent)
                    for p, en in enumerate(ent):
                        for c, ex, ph in M.parse_key(en, VARS):
                            X, Y = [0] * N, [0] * N
                            z = pr.cplx(c)
                            X[p], Y[p] = z
                            terms.append(M.keyj(ex, ph, pr) + [X, Y])
                    s.ev('tosympy', x=i + 1, sh=shp, t=terms)
                elif r == 8 and x.data:
                    steps, vals, ok = [], {}, True
                    for v in range(NV):
                        phs = R.phases(x, v) - {0}
                        if None in phs:
                            ok = False
                            break
                        nn = 0
                        if phs and not R.inpoly(x, v):
                            nn = int(rng.integers(-3, 4))
                            val, z = nn * np.pi / 2, 0
                        elif phs:
                            val = z = 0
                            if R.neg(x, v):
                                ok = False
                                break
                        else:
                            val = z = [2, -1, .5, 1, -1.5, 3][rng.integers(6)] if not R.neg(x, v) else [2, 1, -1][rng.integers(3)]
                        zz = pr.cplx(z)
                        steps.append(dict(var=v + 1, name=VARS[v], sym='', occ=[], lin=[0] * NV, ph=[[pr.real(float(d)), pr.cplx(half_power(d * nn))] for d in phs],
                                          q=[[[0] * NV, [0] * NV, [zz[0]], [zz[1]]]] if z else []))
                        vals[VARS[v]] = val
                    if not ok:
                        continue
                    used = sorted({VARS[j] for key, vv in x.data.items() if np.any(M.arr(vv)) for _, ex, ph in M.parse_key(key, VARS) for j in range(NV) if ex[j] or ph[j]})
                    how = rng.integers(4)
                    if how == 3 and (any(any(ph) for _, ex, ph in M.parts(x, VARS))):
                        how = 0
                    if how == 3:
                        # real polynomial keys
                        res = x.evalf(subs=vals)
                    else:
                        ons = rng.integers(4)
                        f = x.lambdify(nsimplify=bool(rng.integers(2)), onsite=ons == 1, hopping=ons == 2)
                        exp = (['site'] if ons == 1 else ['site1', 'site2'] if ons == 2 else []) + used
                        s.ev('args', args=list(inspect.signature(f).parameters), expect=exp)
                        res = f(*(['dummy'] * {1: 1, 2: 2}.get(int(ons), 0)), **{u: vals[u] for u in used})
                    res = M.arr(res)
                    shp = list(res.shape) if not (x.shape == () and res.size == 1) else []
                    s.ev('eval', x=i + 1, steps=steps, nv=NV, sh=shp, v=list(M.flat(res, pr)))
            for i, m in enumerate(R.m):
                if rng.random() < .4:
                    s.ev('unchanged', x=i + 1, res=M.pmodel(m, VARS, pr))
    # lists of substitutions that build on each other
    for rep in range(ck.scale(40, 400)):
        with ck.session(f'chain/{rep}') as s:
            R = Run(ck, s, pr, rng)
            fn = M.rand_fn(rng, VARS, (2, 2), 4, nmom=3, deg=2, phase=.3, polyvars=[3, 4, 6], phvars=[0, 1], neg=0)
            m = M.build(fn, 'dense', ['k_x', 'k_y', 'k_z'])
            R.push('new', m, m=fn.record(pr, 'dense', ['k_x', 'k_y', 'k_z']))
            order = [[3, 4, 6], [4, 6, 3], [6, 3], [3, 4, 6, 3]][rng.integers(4)]
            steps, pairs = [], []
            for v, w in zip(order, order[1:] + [5]):
                st = dict(var=v + 1, name=VARS[v], sym='', occ=[VARS[w]], lin=[0] * NV, ph=[], q=[])
                c = [1, 2, -1][rng.integers(3)]
                E = lambda j, n=1: [n if k == j else 0 for k in range(NV)]
                for ex, z in [(E(w), c)] + ([(E(w, 2), 1)] if rng.random() < .3 and len(order) < 4 else []) + ([(E(v), 1)] if rng.random() < .2 else []):
                    zz = pr.cplx(z)
                    st['q'].append([ex, [0] * NV, [zz[0]], [zz[1]]])
                new = sum(zc * sympy.prod([t ** x for t, x in zip(SY, ex)]) for ex, zc in [(t[0], {pr.cplx(q)[0]: q for q in (1, 2, -1)}[t[2][0]]) for t in st['q']])
                if isinstance(new, sympy.Symbol):
                    st['sym'] = new.name
                steps.append(st); pairs.append((SY[v], new))
            R.push('subs', m.subs(pairs), x=1, steps=steps, nv=NV)
    # exact forms of irrational values
    for rep in range(ck.scale(40, 300)):
        with ck.session(f'exact/{rep}') as s:
            R = Run(ck, s, pr, rng)
            fm = ['dense', 'sparse', 'scalar'][rng.integers(3)]
            sh = () if fm == 'scalar' else (2, 2)
            fn = M.rand_fn(rng, VARS, sh, 3, nmom=3, deg=2, phase=.3)
            g = [np.sqrt(3), np.sqrt(3) / 2, np.sqrt(2), np.sqrt(6) / 4, 1 / 3, 1 / 7, np.sqrt(2) / 3][rng.integers(7)]
            q = Fraction(int(rng.integers(1, 9)), int(rng.integers(1, 9)))
            for k in fn.data:
                fn.data[k] = fn.data[k] * (g if g != 1 / 7 else 1 / 9) * (float(q) if g < 1 and rng.random() < .3 and q.denominator <= 2 else 1)
            mom = ['k_x', 'k_y', 'k_z']
            m = M.build(fn, fm, mom)
            R.push('new', m, m=fn.record(pr, fm, mom))
            if not m.data:
                continue
            S = m.tosympy(nsimplify=True)
            ent = [S] if not isinstance(S, sympy.MatrixBase) else list(S)
            shp = [] if not isinstance(S, sympy.MatrixBase) or fm == 'scalar' else [int(d) for d in S.shape]
            terms = []
            for p, en in enumerate(ent):
                for c, ex, ph in M.parse_key(en, VARS):
                    X, Y = [0] * len(ent), [0] * len(ent)
                    X[p], Y[p] = pr.cplx(c)
                    terms.append(M.keyj(ex, ph, pr) + [X, Y])
            s.ev('tosympy', x=1, sh=shp, t=terms)
    m = Model({'a': np.eye(2)})
    with ck.session('invalid') as s:
        s.ev('rejects', raised=[call(b)[1] is not None for b in [lambda: m.lambdify(onsite=True, hopping=True), lambda: m.rotate_momenta(np.eye(2)),
                                                                 lambda: Model({'a*b': np.eye(2)}).evalf(subs={'a': 1})]])
    return ck.finish()


if __name__ == '__main__':
    main(body)
