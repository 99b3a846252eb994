"""C09: syntax trees are printed in the input language of the library and their
denotation (spec/C09.tla) is compared with the model that is built."""
from fractions import Fraction
import numpy as np, sympy
from vh.check import Check, main, call
from vh import models as M
from qsymm import Model
import scipy.sparse as sp

NAMES = [['k_x', 'k_y', 'k_z', 'a', 'b'], ['k_x', 'k_y', 'k_z', 'alpha', 'x'], ['k_x', 'k_y', 'k_z', 'm_0', 'Delta'], ['q_1', 'q_2', 'k_z', 't', 'mu'],
         ['k_x', 'k_y', 'k_z', 'E', 'S'], ['k_x', 'k_y', 'k_z', 'y', 'N']]
NV = 5
SIG = {'0': np.eye(2), 'x': np.array([[0, 1], [1, 0]]), 'y': np.array([[0, -1j], [1j, 0]]), 'z': np.diag([1, -1])}
KX = sympy.Symbol


class Gen:
    """random tree -> (json ast, text, sympy expression)"""
    def __init__(self, rng, pr, names, trig=True, nc=False):
        self.rng, self.pr, self.names, self.trig, self.nc = rng, pr, names, trig, nc
        self.locals = {}
        self.nosqrt = False

    def S(self, i):
        return sympy.Symbol(self.names[i], commutative=not (self.nc and i < 3))

    def num(self):
        r = self.rng
        v = [(2, '2', sympy.Integer(2)), (-1, '(-1)', sympy.Integer(-1)), (.5, '(1/2)', sympy.Rational(1, 2)), (.5, '0.5', sympy.Float(.5)), (1j, 'I', sympy.I),
             (-1j, '(-I)', -sympy.I), (3, '3', sympy.Integer(3)), (1 - 2j, '(1 - 2*I)', 1 - 2 * sympy.I), (2.5, '2.5', sympy.Float(2.5)), (-1.5, '(-3/2)', sympy.Rational(-3, 2)), (2**.5, 'sqrt(2)', sympy.sqrt(2)),
             (-2**.5 / 2, '(-sqrt(2)/2)', -sympy.sqrt(2) / 2)][r.integers(10 if self.nosqrt else 12)]
        return ['n', self.pr.cplx(v[0])], v[1], v[2]

    def var(self):
        i = int(self.rng.integers(NV))
        n = int([1, 1, 1, 2, -1][self.rng.integers(5)]) if self.rng.random() < .4 else 1
        t = self.names[i]
        if n == -1 and i < 3:
            n = 1
        txt = t if n == 1 else f'{t}**{n}' if n > 0 else f'1/{t}'
        return ['v', i + 1, n], f'({txt})' if n != 1 else txt, self.S(i) ** n

    def lin(self):
        r = self.rng
        phs = [0] * NV
        for _ in range(r.integers(1, 3)):
            phs[r.integers(NV)] = int(r.choice([-2, -1, 1, 1, 2]))
        if r.random() < .2:
            phs[r.integers(3)] = Fraction(int(r.choice([-1, 1])), 2)
        if not any(phs):
            phs[0] = 1
        parts = []
        for i, p in enumerate(phs):
            if p:
                q = Fraction(p)
                parts.append(f'({q})*{self.names[i]}' if q != 1 or r.random() < .2 else self.names[i])
        expr = sum((sympy.Rational(Fraction(p)) * self.S(i) for i, p in enumerate(phs) if p), sympy.Integer(0))
        return [self.pr.real(float(p)) for p in phs], ' + '.join(parts), expr

    def func(self):
        k = ['cos', 'sin', 'exp'][self.rng.integers(3)]
        ph, txt, ex = self.lin()
        one = self.pr.cplx(1)
        if self.rng.random() < .3 and not self.nosqrt and not self.nc:      # a constant phase
            n = int(self.rng.choice([-2, -1, 1, 2, 3, 4]))
            one = self.pr.cplx(np.exp(1j * np.pi * n / 4))
            txt, ex = f'{txt} + ({Fraction(n, 4)})*pi', ex + sympy.Rational(n, 4) * sympy.pi
        if k == 'exp':
            form = self.rng.integers(2)
            return ['exp', ph, one], (f'exp(I*({txt}))' if form else f'e**(I*({txt}))'), (sympy.exp(sympy.I * ex) if form else M.E_SYM ** (sympy.I * ex))
        return [k, ph, one], f'{k}({txt})', getattr(sympy, k)(ex)

    def scalar(self, d):
        r = self.rng.random()
        if d == 0 or r < .25:
            q = self.rng.random()
            if q < .35:
                return self.num()
            if q < .55 and self.trig:
                return self.func()
            return self.var()
        if r < .55:
            xs = [self.scalar(d - 1) for _ in range(self.rng.integers(2, 4))]
            out = ['+', [x[0] for x in xs]]
            return out, '(' + ' + '.join(x[1] for x in xs) + ')', sum((x[2] for x in xs), sympy.Integer(0))
        if r < .85:
            xs = [self.scalar(d - 1) for _ in range(2)]
            return ['*', [x[0] for x in xs]], '*'.join(x[1] for x in xs), xs[0][2] * xs[1][2]
        if r < .92:
            self.nosqrt = True
            x = self.scalar(d - 1)
            self.nosqrt = False
            n = int(self.rng.integers(2, 4)) if d < 2 else 2
            return ['^', x[0], n], f'({x[1]})**{n}', x[2] ** n
        # a local definition
        x = self.scalar(d - 1)
        if 'loc_' in x[1]:
            return x
        name = f'loc_{len(self.locals)}'
        self.locals[name] = x[1]
        return x[0], name, x[2]

    def const(self, n):
        r = self.rng.integers(4)
        if r == 0 or n not in (2, 4):
            if self.rng.random() < .3:
                nm = ['identity', 'eye'][self.rng.integers(2)]
                A = np.eye(n)
                return ['M', [n, n], list(M.flat(A, self.pr))], f'{nm}({n})', sympy.eye(n)
            A = M.rmat(self.rng, (n, n), 2)
            txt = '[' + ', '.join('[' + ', '.join(f'({int(z.real)} + {int(z.imag)}*I)' for z in row) + ']' for row in A) + ']'
            ast = ['M', [n, n], list(M.flat(A, self.pr))]
            S = sympy.Matrix([[int(z.real) + sympy.I * int(z.imag) for z in row] for row in A])
            name = f'mat_{len(self.locals)}'
            self.locals[name] = [txt, np.array(A), S][self.rng.integers(3)]
            return ast, name, S
        if n == 2:
            c = '0xyz'[self.rng.integers(4)]
            A = SIG[c]
            return ['M', [2, 2], list(M.flat(A, self.pr))], f'sigma_{c}', sympy.Matrix(A.tolist()).applyfunc(sympy.nsimplify)
        x, y = self.const(2), self.const(2)
        return ['kron', x[0], y[0]], f'kron({x[1]}, {y[1]})', sympy.Matrix(sympy.kronecker_product(x[2], y[2]))

    def rows(self, n, m=None):
        # locals are not resolved inside of locals
        keep, rows = dict(self.locals), None
        while rows is None or any('loc_' in x[1] for r in rows for x in r):
            rows = [[self.scalar(1) for _ in range(m or n)] for _ in range(n)]
        self.locals = keep
        return (['mat', [[x[0] for x in r] for r in rows]], '[' + ', '.join('[' + ', '.join(x[1] for x in r) + ']' for r in rows) + ']',
                sympy.Matrix([[x[2] for x in r] for r in rows]))

    def matrix(self, n, d):
        r = self.rng.random()
        if d == 0:
            return self.const(n)
        if r < .2:
            ast, txt, S = self.rows(n)
            name = f'mat_{len(self.locals)}'
            self.locals[name] = txt
            return ast, name, S
        if r < .55:
            x, y = self.matrix(n, d - 1), self.matrix(n, d - 1)
            return ['+', [x[0], y[0]]], f'({x[1]} + {y[1]})', x[2] + y[2]
        if r < .9:
            x, y = self.scalar(2), self.matrix(n, d - 1)
            if self.rng.random() < .5:
                return ['*', [x[0], y[0]]], f'{x[1]}*{y[1]}', x[2] * y[2]
            return ['*', [y[0], x[0]]], f'{y[1]}*{x[1]}', x[2] * y[2]
        x, y = self.const(n), self.const(n)
        return ['*', [x[0], y[0]]], f'{x[1]}*{y[1]}', x[2] * y[2]


def body():
    ck = Check('C09', 'C09', 'JC09', profile='q2')
    rng = ck.rng
    pr = ck.proj()
    for rep in range(ck.scale(160, 2500)):
        names = NAMES[rng.integers(len(NAMES))]
        with ck.session(f'parse/{rep}') as s:
            mom = names[:3] if rng.random() < .7 else names[:int(rng.integers(1, 4))]
            form = rng.integers(4)
            n = int([1, 2, 2, 3, 4][rng.integers(5)])
            if form <= 1:
                g = Gen(rng, pr, names)
                q = rng.random()
                if q < .35:
                    ast, txt, _ = g.scalar(2)
                elif q < .5:
                    ast, txt, _ = g.rows(n, int(rng.integers(1, 4)))
                else:
                    ast, txt, _ = g.matrix(n, int(rng.integers(1, 3)))
                loc = g.locals
                kw = dict(momenta=mom)
                if loc or rng.random() < .1:
                    kw['locals'] = loc
                before = str(loc)
                m = Model(txt, **kw)
                s.ev('parse', ast=ast, nv=NV, raw=False, fmt='dense', mom=mom, norm=True, res=M.pmodel(m, names, pr), text=txt[:300])
                s.ev('same', same=str(loc) == before)
            elif form == 2:
                nc = rng.random() < .2
                # (sympy cannot evaluate trigonometric functions of some noncommuting sums)
                g = Gen(rng, pr, names, nc=nc, trig=not nc)
                ast, txt, ex = g.scalar(2) if rng.random() < .4 else g.matrix(n, int(rng.integers(1, 3)))
                m = Model(ex, momenta=mom)
                s.ev('parse', ast=ast, nv=NV, raw=False, fmt='dense', mom=mom, norm=True, res=M.pmodel(m, names, pr), text=str(ex)[:300])
            else:
                g = Gen(rng, pr, names, trig=False)
                fm = ['dense', 'sparse', 'scalar'][rng.integers(3)]
                sh = () if fm == 'scalar' else (n, n)
                data, asts = {}, []
                cls = [sp.csr_matrix, sp.csc_matrix][rng.integers(2)]
                for _ in range(rng.integers(1, 4)):
                    ast, txt, ex = g.scalar(2)
                    if rng.random() < .25:
                        f = g.func()
                        while f[0][0] != 'exp':
                            f = g.func()
                        ast, txt, ex = ['*', [ast, f[0]]], f'{txt}*{f[1]}', ex * f[2]
                        if 'exp(' in f[1]:
                            ex = ex.subs({x: M.E_SYM ** x.args[0] for x in ex.atoms(sympy.exp)})
                    g.locals = {}
                    A = M.rmat(rng, sh)
                    key = ex if rng.random() < .6 or 'loc_' in txt or 'exp(' in txt or any(c in names for c in 'ESNI') else txt
                    key = sympy.sympify(key) if not isinstance(key, str) else key
                    if key in data:
                        continue
                    data[key] = complex(A) if fm == 'scalar' else cls(A) if fm == 'sparse' else A
                    asts.append(['*', [ast, ['M', list(sh), list(M.flat(A, pr))] if sh else ['n', pr.cplx(complex(A))]]])
                # texts that sympify simplifies to the same key overwrite each other in the dict
                if len({sympy.sympify(k, locals={'e': M.E_SYM}) for k in data}) < len(asts):
                    continue
                m = Model(data, momenta=mom, normalize=True)
                s.ev('parse', ast=['+', asts], nv=NV, raw=True, fmt=fm, mom=mom, norm=True, res=M.pmodel(m, names, pr), text=str(list(data))[:300])
            # look terms up by equivalent expressions
            for key, val in list(m.data.items())[:4]:
                parts = M.parse_key(key, names)
                if len(parts) != 1:
                    continue
                _, ex, ph = parts[0]
                forms = [key, sympy.expand(key)]
                fs = list(sympy.Mul.make_args(key))
                rng.shuffle(fs)
                if not any(c in names for c in ('E', 'S', 'N')):
                    forms += ['*'.join(f'({f})' for f in fs), str(key), ' * '.join(f'{f}' if '/' not in str(f) else f'({f})' for f in fs)]
                forms += [sympy.Mul(*fs)]
                if all(p == 0 for p in ph) and rng.random() < .3 and not any(c in names for c in ('E', 'S', 'N')):
                    forms.append('*'.join(['*'.join([v] * n) if n > 0 else '1/(' + '*'.join([v] * -n) + ')' for v, n in zip(names, ex) if n] or ['1']))
                if key == 1:
                    forms += [1, '1', sympy.Integer(1)]
                for f in forms:
                    v = m[f]
                    s.ev('look', x=1, key=M.keyj(ex, ph, pr), sh=list(np.shape(M.arr(v))), v=list(M.flat(M.arr(v), pr)))
            z = m['zzz*a**5'] if rng.integers(2) else m[sympy.Symbol('zzz')]
            s.ev('look', x=1, key=M.keyj([99] + [0] * (NV - 1), [0] * NV, pr), sh=list(np.shape(M.arr(z))), v=list(M.flat(M.arr(z), pr)))
    # numerical factors of any kind are moved to the values
    TAU = [sympy.cbrt(2), sympy.pi, sympy.sqrt(sympy.sqrt(2)), sympy.E, sympy.log(2), sympy.sin(1), sympy.cos(sympy.pi / 7), sympy.sqrt(7), sympy.sqrt(2 + sympy.sqrt(3)),
           sympy.Rational(1, 7), sympy.Float(.3), sympy.root(5, 4), sympy.exp(sympy.Rational(1, 3)), sympy.GoldenRatio, sympy.sqrt(5) + 1, sympy.pi ** 2, 2 ** sympy.pi, sympy.exp(-2), sympy.atan(2)]
    # the same as text: only functions and constants that strings support
    TXT = {'2**(1/3)': 2 ** (1 / 3), 'pi': np.pi, 'sqrt(7)': 7 ** .5, 'sin(1)': np.sin(1), 'cos(pi/7)': np.cos(np.pi / 7), '1/7': 1 / 7, '0.3': .3, 'exp(1/3)': np.exp(1 / 3),
           'exp(-2)': np.exp(-2), 'e**2': np.exp(2), 'pi**2': np.pi ** 2, '2**pi': 2 ** np.pi, '(1 + sqrt(5))': 1 + 5 ** .5, '5**(1/4)': 5 ** .25, 'exp(2 + 1/2)': np.exp(2.5)}
    for rep in range(ck.scale(40, 400)):
        names = NAMES[rng.integers(4)]
        with ck.session(f'factor/{rep}') as s:
            g = Gen(rng, pr, names, trig=False)
            tau = TAU[rng.integers(len(TAU))]
            t = float(tau)
            data, asts = {}, []
            string = rng.random() < .4
            for _ in range(rng.integers(1, 4)):
                ast, txt, ex = g.scalar(1)
                A = M.rmat(rng, (2, 2))
                k = tau * ex if rng.random() < .5 else sympy.expand(tau * ex)
                if string:
                    data[k] = sympy.Matrix(2, 2, [int(z.real) + sympy.I * int(z.imag) for z in A.ravel()])
                elif k in data:
                    continue
                else:
                    data[k] = A
                g.locals = {}
                asts.append(['*', [ast, ['M', [2, 2], list(M.flat(A, pr))]]])
                if string:
                    break
            if string and 'loc_' in txt and tau in (sympy.log(2), sympy.atan(2)):
                continue
            if string:
                k, A = next(iter(data.items()))
                if tau not in (sympy.log(2), sympy.atan(2)) and (rng.random() < .5 or 'loc_' in txt):
                    m = Model(k * A, momenta=names[:3])
                else:
                    tau, t = list(TXT.items())[rng.integers(len(TXT))]
                    m = Model(f'({tau})*({txt})*M', locals={'M': A}, momenta=names[:3])
            else:
                m = Model(data, momenta=names[:3], normalize=True)
            m2 = Model({}, shape=m.shape, format=m.format, momenta=m.momenta)
            m2.data = {k: v / t for k, v in m.data.items()}
            s.ev('parse', ast=['+', asts], nv=NV, raw=True, fmt='dense', mom=names[:3], norm=True, res=M.pmodel(m2, names, pr), text=str([tau, list(data)])[:300])
    return ck.finish()


if __name__ == '__main__':
    main(body)
