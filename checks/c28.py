"""C28: the symbolic front end (sympify, make_commutative, monomials, lambdify)
against the algebra of operator valued expressions (spec/Words.tla)."""
import inspect, warnings
from fractions import Fraction
import numpy as np, sympy
from vh.check import Check, main
import qsymm
from qsymm import kwant_continuum as KC

OPS = ['k_x', 'k_y', 'k_z', 'x', 'y', 'z']
POOL = ['a', 'b', 'c', 'alpha', 'm_0', 'E', 'S', 'N', 'Q', 'C', 'O', 'beta', 'gamma', 'zeta', 'lamda', 'mu', 't', 'e', 'Delta', 'omega_c', 'rho', 'xi', 'k_0', 'sigma', 'x_1']
FUN = ['A', 'V', 'g']
NV = 13
SIG = {'0': np.eye(2), 'x': np.array([[0, 1], [1, 0]]), 'y': np.array([[0, -1j], [1j, 0]]), 'z': np.diag([1, -1])}
NUM = [(2, '2'), (-1, '(-1)'), (.5, '(1/2)'), (.5, '0.5'), (1j, 'I'), (-1j, '(-I)'), (3, '3'), (1 - 2j, '(1 - 2*I)'), (-1.5, '(-3/2)')]


class World:
    """letters of a session: six operators, three commuting parameters, functions of them"""
    def __init__(s, rng):
        s.par = [str(x) for x in rng.choice(POOL, 3, replace=False)]
        s.deps = [[] for _ in range(9)] + [[4], [4, 5], [7], [5]]
        s.names = OPS + s.par + ['A(x)', 'V(x, y)', f'g({s.par[0]})', 'A(y)']
        s.comm = set()           # operators that the caller declares to commute
        if rng.random() < .25:
            s.comm = {int(i) for i in rng.choice(6, rng.integers(1, 5), replace=False) + 1}
        s.nc = {i for i in range(1, 7) if i not in s.comm}
        s.nc |= {i for i in range(10, 14) if any(d in s.nc for d in s.deps[i - 1])}

    def letter(s, f):
        n = f.name if f.is_Symbol else str(f)
        return s.names.index(n) + 1

    def terms(s, x, pr):
        x = sympy.expand(sympy.sympify(x))
        out = []
        for t in sympy.Add.make_args(x):
            if t == 0:
                continue
            c, exps, word = 1 + 0j, [0] * NV, []
            cp, ncp = t.args_cnc()
            for f in cp:
                if f.is_number:
                    c *= complex(f)
                    continue
                b, n = f.as_base_exp()
                exps[s.letter(b) - 1] += int(n)
                assert n == int(n)
            for f in ncp:
                b, n = f.as_base_exp()
                while b.is_Pow:
                    b, n = b.base, n * b.exp
                assert n == int(n) and n > 0
                word += [s.letter(b)] * int(n)
            out.append([word, exps, pr.cplx(c)])
        return out

    def rec(s, X, pr):
        if isinstance(X, sympy.MatrixBase):
            return dict(sh=list(X.shape), e=[s.terms(x, pr) for x in X])
        return dict(sh=[], e=[s.terms(X, pr)])


class Gen:
    def __init__(s, rng, w, pr):
        s.rng, s.w, s.pr = rng, w, pr
        s.locals, s.shadow, s.inloc = {}, {}, False
        for i in w.comm:
            s.locals[OPS[i - 1]] = sympy.Symbol(OPS[i - 1])
        if not w.comm and rng.random() < .15:
            # names with a special meaning may be redefined
            i, j = (int(v) for v in rng.integers(1, 7, 2))
            s.shadow[i] = j
            s.locals[OPS[i - 1]] = OPS[j - 1]

    def var(s):
        r = s.rng
        i = int(r.choice([*range(1, 7), *range(7, 14)], p=[.1] * 6 + [.4 / 7] * 7))
        if s.shadow and i >= 10:
            i = int(r.integers(1, 7))
        n = int(r.integers(2, 4)) if r.random() < .2 else 1
        if 7 <= i <= 9 and r.random() < .2:
            n = -n
        t = s.w.names[i - 1]
        j = i if s.inloc else s.shadow.get(i, i)
        return ['v', j, n], t if n == 1 else f'{t}**{n}' if n > 0 else f'{t}**({n})'

    def scalar(s, d):
        r = s.rng.random()
        if d == 0 or r < .2:
            if s.rng.random() < .25:
                v, t = NUM[s.rng.integers(len(NUM))]
                return ['n', s.pr.cplx(v)], t
            return s.var()
        if r < .5:
            xs = [s.scalar(d - 1) for _ in range(s.rng.integers(2, 4))]
            return ['+', [x[0] for x in xs]], '(' + ' + '.join(x[1] for x in xs) + ')'
        if r < .85:
            xs = [s.scalar(d - 1) for _ in range(s.rng.integers(2, 4) if d < 2 else 2)]
            return ['*', [x[0] for x in xs]], '*'.join(x[1] for x in xs)
        if r < .92:
            x = s.scalar(d - 1)
            return ['^', x[0], 2], f'({x[1]})**2'
        if s.inloc or s.w.comm:
            return s.scalar(d - 1)
        s.inloc = True
        x = s.scalar(d - 1)
        s.inloc = False
        nm = f'loc_{len(s.locals)}'
        s.locals[nm] = x[1]
        return x[0], nm

    def rows(s, n, m):
        R = [[s.scalar(1) for _ in range(m)] for _ in range(n)]
        return ['mat', [[x[0] for x in r] for r in R]], '[' + ', '.join('[' + ', '.join(x[1] for x in r) + ']' for r in R) + ']'

    def const(s, n):
        r = s.rng.random()
        if n == 4 and r < .5:
            x, y = s.const(2), s.const(2)
            return ['kron', x[0], y[0]], f'kron({x[1]}, {y[1]})'
        if r < .2:
            A, t = np.eye(n), f"{['identity', 'eye'][s.rng.integers(2)]}({n})"
        elif n == 2 and r < .75:
            c = '0xyz'[s.rng.integers(4)]
            A, t = SIG[c], f'sigma_{c}'
        else:
            A = s.rng.integers(-2, 3, (n, n)) + 1j * s.rng.integers(-1, 2, (n, n))
            t = f'mat_{len(s.locals)}'
            txt = '[' + ', '.join('[' + ', '.join(f'({int(z.real)} + {int(z.imag)}*I)' for z in row) + ']' for row in A) + ']'
            s.locals[t] = [txt, A, sympy.sympify(sympy.Matrix([[int(z.real) + sympy.I * int(z.imag) for z in row] for row in A]))][s.rng.integers(3)]
        return ['M', [n, n], [s.pr.cplx(z) for z in np.asarray(A, complex).ravel()]], t

    def matrix(s, n, d):
        r = s.rng.random()
        if d == 0 or r < .15:
            if r < .4 and not s.w.comm and not s.inloc:
                s.inloc = True
                x = s.rows(n, n)
                s.inloc = False
                nm = f'mat_{len(s.locals)}'
                s.locals[nm] = x[1]
                return x[0], nm
            return s.const(n)
        if r < .4:
            x, y = s.matrix(n, d - 1), s.matrix(n, d - 1)
            return ['+', [x[0], y[0]]], f'({x[1]} + {y[1]})'
        if r < .65:
            x, y = s.scalar(1), s.matrix(n, d - 1)
            return ['*', [x[0], y[0]]], f'{x[1]}*{y[1]}'
        if r < .85:
            x, y = s.matrix(n, d - 1), s.scalar(1)
            return ['*', [x[0], y[0]]], f'{x[1]}*{y[1]}'
        x, y = s.matrix(n, d - 1), s.matrix(n, d - 1)
        return ['*', [x[0], y[0]]], f'({x[1]})*({y[1]})'


def rules():
    """the conversion of lists by sympy itself"""
    try:
        return isinstance(sympy.sympify([1, [2]]), list)
    except ValueError:
        return False


def point(rng, w, pr):
    v = [complex(x) for x in rng.choice([1, 2, -1, .5, 1j, -2], 9)]
    A, V, g = (lambda x: 2 * x + 1), (lambda x, y: x - 3 * y), (lambda a: a * a)
    return v + [A(v[3]), V(v[3], v[4]), g(v[6]), A(v[4])], dict(A=A, V=V, g=g)


def dyadic(z, pr):
    """all numbers that enter are dyadic fractions"""
    a, b = (pr.frac(Fraction(round(x * 2**24), 2**24)) for x in (z.real, z.imag))
    return [(a + pr.f.ri * b) % pr.f.p, (a - pr.f.ri * b) % pr.f.p]


def body():
    ck = Check('C28', 'C28', 'JC28')
    pr = ck.proj()

    def build(rng, i):
        w = World(rng)
        with ck.session(f'expr/{i}') as ses:
            g = Gen(rng, w, pr)
            n = int([1, 2, 2, 3, 4][rng.integers(5)])
            q = rng.random()
            if q < .5:
                ast, txt = g.scalar(3 if rng.random() < .3 else 2)
            elif q < .65:
                ast, txt = g.rows(n, int(rng.integers(1, 4)))
            else:
                ast, txt = g.matrix(n, int(rng.integers(1, 3)))
            loc = g.locals
            before = {k: str(v) for k, v in loc.items()}
            args = (txt, loc) if loc or rng.random() < .2 else (txt,)
            X = qsymm.sympify(*args)
            ses.ev('sympify', ast=ast, nv=NV, nc=sorted(w.nc), res=w.rec(X, pr), text=txt[:300])
            ses.ev('pure', same=before == {k: str(v) for k, v in loc.items()}, rules=rules())
            # functions of the names in alphabetic order
            vals, funs = point(rng, w, pr)

            def evaluate(x, k, *a):
                f = KC.lambdify(*a)
                used = {t for t in x.atoms(sympy.Symbol)}
                names = {t.name for t in used} | {str(t.func) for t in x.atoms(sympy.core.function.AppliedUndef)}
                if any(fn in names and fn in w.par for fn in FUN):
                    return
                want = sorted(names)
                ses.ev('args', got=len(inspect.signature(f).parameters), want=len(want))
                with warnings.catch_warnings():
                    warnings.simplefilter('ignore')
                    r = np.asarray(f(*[funs[t] if t in funs else vals[w.names.index(t)] for t in want]), complex)
                ses.ev('eval', x=k, at=[dyadic(z, pr) for z in vals], sh=list(r.shape), val=[dyadic(z, pr) for z in r.ravel()])
            if rng.random() < .5:
                evaluate(X, 1, *args)
            heap = [(X, set(w.nc))]
            for _ in range(rng.integers(1, 3)):
                k = int(rng.integers(len(heap)))
                x, nc = heap[k]
                S = [int(s) for s in rng.choice(9, rng.integers(1, 7), replace=False) + 1]
                Y = KC.make_commutative(x, *[sympy.Symbol(w.names[s - 1], commutative=bool(rng.integers(2))) for s in S])
                ses.ev('commute', x=k + 1, S=S, deps=w.deps, res=w.rec(Y, pr))
                heap.append((Y, {l for l in nc if l not in S and (not w.deps[l - 1] or (set(w.deps[l - 1]) & nc) - set(S))}))
            for k, (x, nc) in enumerate(heap):
                if rng.random() < .3:
                    gens, arg = list(range(1, 10)), ()
                else:
                    gens = [int(s) for s in rng.choice(9, rng.integers(1, 6), replace=False) + 1]
                    syms = [sympy.Symbol(w.names[s - 1], commutative=s not in nc) if w.names[s - 1] != 'e' else KC.e for s in gens]
                    if all(s in nc or s > 6 for s in gens) and rng.random() < .5:
                        syms = [t.name for t in syms]
                    arg = (syms if rng.random() < .5 else tuple(syms),)
                m = KC.monomials(x, *arg)
                ses.ev('monomials', x=k + 1, gens=gens, out=[dict(key=w.terms(a, pr), val=w.rec(b, pr)) for a, b in m.items()])
                ses.ev('pure', same=w.rec(x, pr) == w.rec(heap[k][0], pr), rules=rules())
            k = len(heap) - 1
            x = heap[k][0]
            if rng.random() < .5:
                evaluate(x, k + 1, x)
            if rng.random() < .5:
                y = sympy.ImmutableMatrix(x) if isinstance(x, sympy.MatrixBase) else x
                kw = bool(rng.integers(2))
                with warnings.catch_warnings(record=True) as ws:
                    warnings.simplefilter('always')
                    z = qsymm.sympify(y, dict(a='b')) if kw else qsymm.sympify(y)
                ses.ev('again', x=k + 1, res=w.rec(z, pr), locals=kw, warned=any(issubclass(t.category, RuntimeWarning) for t in ws))
            if rng.random() < .2:
                # the user provides all functions, also those that SymPy knows
                fs = [[sympy.sin, sympy.cos, sympy.exp, sympy.tanh, sympy.sinh][t] for t in rng.integers(0, 5, 2)]
                y = sum((f(sympy.Symbol(w.par[t]) * 2) * sympy.Symbol(OPS[t], commutative=False) for t, f in enumerate(fs)), sympy.Integer(0))
                z = qsymm.sympify(y)
                want = {(str(f), f'2*{w.par[t]}') for t, f in enumerate(fs)}
                got = {(str(f.func), str(f.args[0])) for f in z.atoms(sympy.core.function.AppliedUndef)}
                ses.ev('undefined', same=want == got, left=len(z.atoms(sympy.Function) - z.atoms(sympy.core.function.AppliedUndef)))
            if i % 10 == 0:
                for bad in [{'1a': 'b'}, {'lambda': 'b'}, {'a b': 1}, {3: 'a'}, {'': 'a'}]:
                    try:
                        qsymm.sympify('a', bad)
                        raised = False
                    except ValueError:
                        raised = True
                    ses.ev('reject', raised=raised, what=str(bad))
                try:
                    qsymm.sympify('[[a, b], ((]')
                except Exception:
                    pass
                ses.ev('pure', same=True, rules=rules())
                nn = [int(v) for v in rng.integers(-100, 101, rng.integers(2, 5)) * rng.integers(1, 3)]
                if all(nn):
                    ses.ev('gcd', n=nn, out=int(KC.gcd(*nn)))

    ck.model('WordAlg', dict(L=ck.scale(1, 2), **ck.field.consts()), ['Assoc', 'Distrib', 'Hom', 'Split', 'Eval'], label='laws of the operator algebra')
    ck.parallel(build, ck.scale(900, 12000))
    return ck.finish()


if __name__ == '__main__':
    main(body)
