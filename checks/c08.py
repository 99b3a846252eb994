"""C08: model arithmetic against the key-map algebra of spec/Poly.tla."""
import copy
from fractions import Fraction
import numpy as np, sympy, scipy.sparse as sp
from vh.check import Check, main, call
from vh import models as M
from qsymm import Model

VARS = ['k_x', 'k_y', 'k_z', 'a', 'b']
NV = len(VARS)


def rand_key(rng, deg=2):
    ex = [0] * NV
    for _ in range(rng.integers(0, deg + 1)):
        ex[rng.integers(NV)] += 1
    if rng.random() < .08:
        ex[rng.integers(3, NV)] -= 1
    ph = [0] * NV
    if rng.random() < .35:
        ph[rng.integers(NV)] = int(rng.integers(-2, 3))
        if rng.random() < .3:
            ph[rng.integers(3)] = Fraction(int(rng.integers(-3, 4)), 2)
    return tuple(ex), tuple(ph)


def rand_fn(rng, sh, nterm=4, keys=None):
    d = {}
    for _ in range(rng.integers(0 if rng.random() < .15 else 1, nterm)):
        k = keys[rng.integers(len(keys))] if keys and rng.random() < .6 else rand_key(rng)
        d[k] = M.rmat(rng, sh)
    return M.Fn(VARS, sh, d)


class Heap:
    def __init__(self, ck, s, pr, rng):
        self.ck, self.s, self.pr, self.rng, self.m = ck, s, pr, rng, []

    def push(self, op, res, **kw):
        self.s.ev(op, res=M.pmodel(res, VARS, self.pr), **kw)
        self.m.append(res)
        return len(self.m)

    def new(self, fn, fm, mom=('k_x', 'k_y', 'k_z'), keep=None):
        """build the model from the description in one of the equivalent ways"""
        rng = self.rng
        cls = [sp.csr_matrix, sp.csc_matrix, sp.coo_matrix][rng.integers(3)] if fm == 'sparse' else None
        def val(v):
            if fm == 'sparse':
                return cls(v)
            if fm == 'scalar':
                v = complex(v)
                return v.real if v.imag == 0 and rng.random() < .5 else v
            if fm == 'linop':
                return M.conv(v, 'linop')
            return v.copy()
        data = {}
        kl = list(fn.data)
        for k in kl:
            sk = M.sym_key(*k, VARS)
            if rng.random() < .2:
                sk = str(sk).replace('e**', 'e**') if k[1] == (0,) * NV else sk
            data[sk] = val(fn.data[k])
        kw = {}
        if not data:
            F = {'sparse': cls, 'scalar': np.complex128, 'dense': np.ndarray, 'linop': sp.linalg.LinearOperator}[fm]
            kw = dict(shape=fn.sh, format=F)
        keepk = () if keep is None else keep
        if keep is not None:
            kw['keep'] = [M.sym_key(*k, VARS) for k in keep]
            if not any(k in keep for k in kl):
                F = {'sparse': cls, 'scalar': np.complex128, 'dense': np.ndarray, 'linop': sp.linalg.LinearOperator}[fm]
                kw.update(shape=fn.sh, format=F)
        m = Model(data, momenta=list(mom), **kw)
        return self.push('new', m, m=fn.record(self.pr, fm, mom, keepk))

    def idx(self, pred=lambda m: True):
        c = [i for i, m in enumerate(self.m) if pred(m)]
        return int(c[self.rng.integers(len(c))]) if c else None


def body():
    ck = Check('C08', 'C08', 'JC08')
    rng = ck.rng
    pr = ck.proj('q')
    for rep in range(ck.scale(250, 2500)):
        with ck.session(f'alg/{rep}') as s:
            H = Heap(ck, s, pr, rng)
            n = int(rng.integers(1, 4))
            sh = (n, n)
            kind = ['dense', 'dense', 'sparse', 'scalar', 'linop'][rng.integers(5)] if rep % 7 else 'dense'
            keys = [rand_key(rng) for _ in range(3)] + [((0,) * NV, (0,) * NV)]
            base = kind
            shape = () if kind == 'scalar' else sh if rng.random() < .7 else (n, int(rng.integers(1, 4)))
            if kind == 'dense' and rng.random() < .1:
                shape = (n,)
            usekeep = rng.random() < .3
            for _ in range(2):
                keep = None
                fn = rand_fn(rng, shape, keys=keys)
                if usekeep and rng.random() < .7:
                    prods = [(tuple(a + b for a, b in zip(k[0], l[0])), tuple(a + b for a, b in zip(k[1], l[1]))) for k in keys for l in keys]
                    pool = list(dict.fromkeys(keys + [rand_key(rng)] + [prods[q] for q in rng.integers(0, len(prods), 4)]))
                    keep = [k for k in pool if rng.random() < .6] or [keys[0]]
                H.new(fn, kind, keep=keep)
            if kind in ('dense', 'sparse') and rng.random() < .5:
                H.new(rand_fn(rng, (), keys=keys), 'scalar')
            for step in range(ck.scale(9, 14)):
                i = H.idx()
                x = H.m[i]
                terms = len(x.data)
                r = rng.integers(18)
                fm = M.fmt(x.format)
                if any(np.max(np.abs(M.arr(v)), initial=0) > 1e5 for v in x.values()) or terms > 12:
                    continue
                if r in (0, 1, 2):
                    j = H.idx(lambda y: y.shape == x.shape and y.format is x.format)
                    y = H.m[j]
                    if r == 0:
                        H.push('add', x + y, x=i + 1, y=j + 1)
                    elif r == 1:
                        H.push('sub', x - y, x=i + 1, y=j + 1)
                    else:
                        z = sum([x, y, x]) if rng.integers(2) else 0 + x + y + x + 0
                        k = H.push('add', x + y, x=i + 1, y=j + 1)
                        H.push('add', z, x=k, y=i + 1)
                elif r == 3:
                    H.push('neg', -x, x=i + 1)
                elif r == 4:
                    c = [2, -1, 0, 1.5, 2 - 1j, 1j, np.float64(.5), np.complex128(1 + 1j), np.int64(3), .25, -.125j, .125 + .125j, 4 - 3j][rng.integers(13)]
                    res = [lambda: x * c, lambda: c * x, lambda: x / (1 / c) if c and abs(1 / (1 / c) - c) < 1e-12 else x * c][rng.integers(3)]()
                    H.push('scale', res, x=i + 1, z=pr.cplx(complex(c)))
                elif r in (5, 6):
                    ok = lambda y: len(y.data) * terms <= 16 and ((y.shape == x.shape and fm == M.fmt(y.format) == 'dense') or
                                                                 (y.shape == () and M.fmt(y.format) == 'scalar') or (fm == 'scalar' and x.shape == ()))
                    j = H.idx(ok)
                    if j is None:
                        continue
                    y = H.m[j]
                    H.push('mul', x * y, x=i + 1, y=j + 1)
                elif r in (7, 8):
                    ok = lambda y: len(y.data) * terms <= 16 and len(x.shape) in (1, 2) and len(y.shape) in (1, 2) and x.shape[-1] == y.shape[0] and \
                        M.fmt(y.format) in ('dense', fm) and fm != 'scalar'
                    j = H.idx(ok)
                    if j is None:
                        continue
                    y = H.m[j]
                    if fm == 'sparse' and M.fmt(y.format) == 'sparse' and x.format is not y.format and False:
                        continue
                    H.push('matmul', x @ y, x=i + 1, y=j + 1)
                elif r == 9:
                    k = rand_key(rng)
                    S = M.sym_key(*k, VARS)
                    if S.is_number:   # numeric sympy constants are outside of the claim
                        continue
                    H.push('symbol', x * S if rng.integers(2) else S * x, x=i + 1, key=M.keyj(*k, pr))
                elif r == 10 and fm != 'linop':
                    H.push('conj', x.conj(), x=i + 1)
                elif r == 11 and len(x.shape) <= 2 and x.shape:
                    H.push('T', x.T(), x=i + 1)
                elif r == 12 and fm in ('dense', 'sparse') and len(x.shape) == 2 and x.shape[0] == x.shape[1]:
                    H.push('trace', x.trace(), x=i + 1)
                elif r == 13 and fm in ('dense', 'sparse') and len(x.shape) == 2:
                    a, b = x.shape
                    ns = [(b, a), (1, a * b), (a * b, 1)][rng.integers(3)]
                    if fm == 'dense' and rng.random() < .3:
                        ns = (a * b,)
                    arg = list(ns)
                    if rng.random() < .3:
                        arg[rng.integers(len(arg))] = -1
                    H.push('reshape', x.reshape(*arg) if rng.integers(2) else x.reshape(tuple(arg)), x=i + 1, sh=list(ns))
                elif r in (14, 15):
                    mm = bool(rng.integers(2)) and fm != 'scalar' and len(x.shape) == 2
                    left = bool(rng.integers(2))
                    if fm == 'linop' or (not mm and fm == 'sparse'):
                        mm = True
                    if mm:
                        q = int(rng.integers(1, 4))
                        cs = (q, x.shape[0]) if left else (x.shape[1], q)
                        if rng.random() < .3:
                            cs = cs[1:] if left else cs[:1]
                    else:
                        cs = x.shape if fm != 'scalar' else sh
                    C = M.rmat(rng, cs)
                    cf = 'dense'
                    if mm and fm == 'sparse' and rng.random() < .5 and len(cs) == 2:
                        cf = 'sparse'
                    A = M.conv(C, cf)
                    if left and cf == 'sparse':      # scipy matrices do not defer to Model
                        left, cs, C = False, C.T.shape, C.T
                        if x.shape[1] != cs[0]:
                            continue
                        A = M.conv(C, cf)
                    if mm and not left and fm == 'linop' and len(cs) == 1:
                        continue
                    if mm and left and fm == 'linop' and len(cs) == 1:
                        continue
                    res = (A @ x if left else x @ A) if mm else (A * x if left else x * A)
                    X, Y = M.flat(C, pr)
                    H.push('arr', res, x=i + 1, left=left, mm=mm, c=dict(sh=list(cs), v=[X, Y], fmt=cf))
                elif r == 16:
                    if fm == 'linop':
                        continue
                    C = M.rmat(rng, x.shape)
                    if fm == 'scalar' and x.shape == ():
                        A = complex(C)
                    elif fm == 'dense':
                        A = C.copy()
                    elif fm == 'sparse':
                        A = x.format(C)
                    else:
                        continue
                    if fm == 'sparse' or rng.integers(2):
                        res = x + A
                    else:
                        res = A + x
                    X, Y = M.flat(C, pr)
                    H.push('const', res, x=i + 1, v=[X, Y], nv=NV)
                else:
                    q = rng.integers(3)
                    if q == 0:
                        H.push('copy', x.copy() if rng.integers(2) else copy.copy(x), x=i + 1)
                    elif q == 1 and fm in ('dense', 'sparse', 'linop') and len(x.shape) == 2:
                        if rng.integers(2):
                            H.push('format', x.toarray(), x=i + 1, fmt='dense')
                        else:
                            H.push('format', x.tocsr(), x=i + 1, fmt='sparse')
                    elif q == 2:
                        s.ev('eqzero', x=i + 1, res=[bool(x == 0), bool(x == {}), bool(x.allclose(0)), not (x != 0)])
                # comparisons
                a = H.idx()
                b = H.idx(lambda y: y.shape == H.m[a].shape and y.format is H.m[a].format)
                s.ev('eq', x=a + 1, y=b + 1, res=bool(H.m[a] == H.m[b]), ne=bool(H.m[a] != H.m[b]), sym=bool(H.m[b] == H.m[a]))
                if x.data and rng.random() < .3:
                    k = keys[rng.integers(len(keys))]
                    v = x[M.sym_key(*k, VARS) if rng.integers(2) else str(M.sym_key(*k, VARS))] if k[1] == (0,) * NV else x[M.sym_key(*k, VARS)]
                    s.ev('look', x=i + 1, key=M.keyj(*k, pr), sh=list(np.shape(M.arr(v))), v=list(M.flat(M.arr(v), pr)))
            for i, m in enumerate(H.m):
                if rng.random() < .3:
                    s.ev('unchanged', x=i + 1, res=M.pmodel(m, VARS, pr))
    # tolerance of the comparison, rounding, elimination of small terms
    for rep in range(ck.scale(120, 1200)):
        with ck.session(f'tol/{rep}') as s:
            n = int(rng.integers(1, 4))
            fm = ['dense', 'sparse', 'scalar'][rng.integers(3)]
            sh = () if fm == 'scalar' else (n, n)
            fn = rand_fn(rng, sh)
            ks = [M.sym_key(*k, VARS) for k in fn.data]
            if not ks:
                continue
            scale = 10.0 ** rng.integers(-2, 3)
            vals = [v * scale + scale * np.eye(n)[0, 0] * (np.ones(sh) if fm == 'scalar' else np.eye(n)) * 7 for v in fn.data.values()]
            m1 = Model({k: M.conv(v, fm) for k, v in zip(ks, vals)})
            ks = list(m1.data)
            j = int(rng.integers(len(ks)))
            for d, exp in ((1e-9 * scale, True), (1e-2 * scale, False)):
                v2 = [v.copy() if hasattr(v, 'copy') else v for v in vals]
                pos = () if sh == () else tuple(rng.integers(0, n, 2))
                v2[j] = np.array(v2[j]); v2[j][pos] += d
                m2 = Model({k: M.conv(v, fm) for k, v in zip(ks, v2)})
                s.ev('tol', res=bool(m1 == m2), expect=exp)
                s.ev('tol', res=bool(m2.allclose(m1)), expect=exp)
                s.ev('tol', res=bool((m1 - m2).allclose(0, atol=3e-9 * scale, rtol=0)) , expect=exp)
            # extra key with a small / a large value
            extra = sympy.Symbol('b') ** 7
            for d, exp in ((1e-10, True), (1e-2, False)):
                m2 = m1.copy()
                m2[extra] = M.conv(np.full(sh, d), fm) if fm != 'sparse' else m1.format(np.full(sh, d, complex))
                s.ev('tol', res=bool(m1 == m2), expect=exp)
                s.ev('tol', res=bool(m2 == m1), expect=exp)
            # rounding: integer multiples of 1e-3, not halfway
            dec = int(rng.integers(-3, 4))
            u = 10 ** (3 - dec)
            big = 1500 if dec >= 0 else 15 * u
            vin, data = [], {}
            for k in ks:
                a = rng.integers(-big, big, sh + (2,)) // (1 if rng.random() < .6 else 40)
                a = np.where(2 * np.abs(a) % (2 * u) == u, a + 1, a)
                vin.append(a.reshape(-1, 2).tolist())
                data[k] = M.conv((a[..., 0] + 1j * a[..., 1]) / 1000, fm)
            m = Model(data)
            r = m.around(dec) if dec != 3 or rng.integers(2) else m.around()
            out = []
            for k in ks:
                v = np.asarray(M.arr(r[k]), complex).ravel() * 1000 / u
                out.append([[int(round(z.real)), int(round(z.imag))] if abs(z - complex(round(z.real), round(z.imag))) < 1e-6 else [999999, 0] for z in v])
            s.ev('around', u=int(u), vin=vin, present=[k in r.data for k in ks], vout=out, n=len(r.data))
            if fm != 'scalar':
                # exact elimination, also with terms that have a single entry or vanishing powers
                sh2 = (n, n)
                V, E = [], []
                for k in ks:
                    a = rng.integers(-1, 2, sh2 + (2,)) * (rng.random(sh2 + (1,)) < [.3, .6, 1][rng.integers(3)])
                    if rng.random() < .3:
                        a = np.stack([np.triu(a[..., i], 1) for i in range(2)], axis=-1)
                    if not a.any():
                        a[tuple(rng.integers(0, n, 2)) + (0,)] = 1
                    V.append(a); E.append(int(rng.integers(0, 5)))
                qa, qr = int(rng.integers(0, 5)), int(rng.integers(0, 4))
                nrm = [float(np.sum(a ** 2)) ** .5 * 10. ** -e for a, e in zip(V, E)]
                if all(abs(x / y - 1) > 1e-6 for x in nrm for y in (10. ** -qa, 10. ** -qr * max(nrm))):
                    m = Model({k: M.conv((a[..., 0] + 1j * a[..., 1]) * 10. ** -e, fm) for k, a, e in zip(ks, V, E)})
                    r = m.eliminate_zeros(rtol=10. ** -qr, atol=10. ** -qa)
                    s.ev('elimx', v=[a.reshape(-1, 2).tolist() for a in V], e=E, qa=qa, qr=qr, present=[k in r.data for k in ks],
                         same=all(np.array_equal(M.arr(r[k]), M.arr(m[k])) for k in ks if k in r.data))
                mags = [10.0 ** rng.integers(-12, 3) for _ in ks]
                B = [np.asarray(v) / np.linalg.norm(np.asarray(v)) * g for v, g in zip(vals, mags)]
                m = Model({k: M.conv(b, fm) for k, b in zip(ks, B)})
                ea, er = [(1e-8, 1e-5), (1e-3, 1e-12), (1e-20, 1e-2)][rng.integers(3)]
                tol = max(ea, er * max(mags))
                if all(g < tol / 2 or g > tol * 2 for g in mags):
                    r = m.eliminate_zeros(rtol=er, atol=ea) if (ea, er) != (1e-8, 1e-5) else m.eliminate_zeros()
                    s.ev('elim', small=[g < tol for g in mags], present=[k in r.data for k in ks], same=all(np.array_equal(M.arr(r[k]), M.arr(m[k])) for k in ks if k in r.data))
    A = np.eye(2)
    m1 = Model({'a': A}, momenta=['k_x']); m2 = Model({'a': A}, momenta=['k_y']); m3 = Model({'a': np.eye(3)}); ms = Model({'a': sp.csr_matrix(A)})
    m0 = Model({'a': A})
    bad = [lambda: m1 + m2, lambda: m1 * m2, lambda: m1 @ m2, lambda: m0 + m3, lambda: m0 + ms, lambda: ms * ms, lambda: m0 / m0,
           lambda: m0 @ m3, lambda: Model({'a': A, 'b': np.eye(3)}), lambda: Model({'a': A, 'b': sp.csr_matrix(A)}),
           lambda: m0.__setitem__('c', np.eye(3)), lambda: m0.__setitem__('c', 3), lambda: m0 + 3, lambda: Model({'a': 'x'})]
    with ck.session('invalid') as s:
        s.ev('rejects', raised=[call(b)[1] is not None for b in bad])
    return ck.finish()


if __name__ == '__main__':
    main(body)
