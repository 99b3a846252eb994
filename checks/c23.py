"""C23: manipulations of families."""
import numpy as np, sympy, warnings
from vh.check import Check, main, call
from vh import finder as F, family as FM, models as MD
import qsymm
from qsymm import hamiltonian_generator as HG
from qsymm import BlochModel, Model


def rmem(rng, nk, N, size=2, sparse=.6):
    X = rng.integers(-size, size + 1, (nk, N, N)) + 1j * rng.integers(-size, size + 1, (nk, N, N))
    X = X * (rng.random((nk, N, N)) > sparse)
    return X


class Sp:
    """function space of a session"""
    def __init__(s, rng, limit):
        while True:
            s.mode = ['poly', 'hop'][rng.integers(2)]
            s.name = list(F.GROUPS)[rng.integers(len(F.GROUPS))]
            s.dim, s.gens, s.A0 = F.GROUPS[s.name]
            if s.mode == 'hop' and s.dim == 0:
                continue
            s.N = int(rng.integers(1, 4))
            grp = F.intgroup([(R, c, a) for R in s.gens for c in (0, 1) for a in (0, 1)] if s.gens else
                             [(np.eye(s.dim, dtype=int), c, a) for c in (0, 1) for a in (0, 1)], s.dim)
            s.grp = grp
            if s.mode == 'poly':
                s.keys = F.mons(s.dim, int(rng.integers(0, 3))) if s.dim else [()]
            else:
                S = {tuple(int(x) for x in rng.integers(-1, 2, s.dim)) for _ in range(rng.integers(1, 3))}
                front = set(S)
                while front:
                    new = {tuple(-x for x in d) for d in front} | {tuple(int(x) for x in R.T @ np.array(d)) for R in s.gens for d in front}
                    front = new - S
                    S |= new
                s.keys = sorted(S)
            if len(s.keys) * s.N ** 2 <= limit:
                break
        s.cls = 'bloch' if s.mode == 'hop' and rng.random() < .5 else 'model'
        s.orth = np.allclose(s.A0, np.eye(s.dim))
        s.A = s.A0 if s.cls == 'bloch' or s.mode == 'poly' or s.orth else None
        s.exact = None
        if s.A is None:
            s.A = s.A0
            s.exact = F.HEXS
            if s.dim == 3:
                s.exact = sympy.eye(3); s.exact[:2, :2] = F.HEXS
        s.kinds = (['int'] if s.orth else []) + (['float'] if s.mode == 'poly' or s.cls == 'bloch' else [])
        if s.mode == 'hop' and s.cls == 'model':
            s.kinds = ['int', 'sympy'] if s.orth else ['sympy']
        s.V = F.rand_W(rng, s.N) if rng.random() < .25 else np.eye(s.N)

    def lib(s, X, plain=False):
        f = F.Fam(s.mode, s.dim, s.N, 1)
        for k, M in zip(s.keys, X):
            if np.any(M):
                f.add(0, k, M)
        return F.to_model(f, s.A, s.V, None, 'dense', s.cls, s.exact)

    def M(s):
        return FM.function_space(s.keys, s.mode, s.dim, s.N)

    def back(s, m):
        names = [str(x) for x in F.MOM[:s.dim]]
        d, extra = FM.member(m, names, s.A, s.mode, lambda X: s.V.conj().T @ X @ s.V)
        keys = [tuple(k) for k in s.keys]
        out = np.zeros((len(keys), s.N, s.N), complex)
        for k, v in d.items():
            if np.max(np.abs(v), initial=0) < 1e-9:
                continue
            if k not in keys or v.shape != (s.N, s.N):
                extra = True
                continue
            out[keys.index(k)] = v
        return out, extra


def flat(X):
    return np.concatenate([X.real.ravel(), X.imag.ravel()])


def ints(X):
    return np.round(flat(X)).astype(int).tolist()


def memj(X):
    return dict(re=np.round(X.real).astype(int).tolist(), im=np.round(X.imag).astype(int).tolist())


def results(sp_, out, Fv, dep=False):
    """normalised members with their coefficients in the family Fv"""
    res, xs, extra, vecs = [], [], False, []
    B = np.array([flat(X) for X in Fv]).T if Fv else np.zeros((2 * len(sp_.keys) * sp_.N ** 2, 0))
    for m in out:
        X, e = sp_.back(m)
        extra |= e
        mx = np.max(np.abs(X), initial=0)
        if mx > 0:
            X = X / mx
        v = flat(X)
        if mx > 0 or not dep:
            vecs.append(v)
        c = np.linalg.lstsq(B, v, rcond=None)[0] if B.shape[1] else np.zeros(0)
        c = np.clip(c, -1e3, 1e3)
        res.append(dict(v=np.round(v * FM.XS).astype(int).tolist(), c=np.round(c * FM.XS).astype(int).tolist()))
        xs.append(dict(re=np.round(X.real * FM.XS).astype(int).tolist(), im=np.round(X.imag * FM.XS).astype(int).tolist()))
    return res, xs, bool(extra), FM.rank(vecs)


def rfamily(rng, sp_, nmax=5, dependent=.4):
    n = int(rng.integers(1, nmax + 1))
    fam = [rmem(rng, len(sp_.keys), sp_.N) for _ in range(n)]
    if rng.random() < dependent and n > 1:
        for _ in range(rng.integers(1, 3)):
            i = rng.integers(n)
            c = rng.integers(-2, 3, n)
            fam.insert(int(rng.integers(len(fam) + 1)), sum(a * f for a, f in zip(c, fam)))
    if rng.random() < .1:
        fam.append(fam[0] * 0)
    fam = [f for f in fam if np.any(f) or rng.random() < .3]
    return fam or [rmem(rng, len(sp_.keys), sp_.N, sparse=-1)]


def mono_syms(rng, s, kmax=2, conts=True):
    syms = []
    for _ in range(rng.integers(1, kmax + 1)):
        if conts and rng.random() < .25 and (s.mode == 'poly' or True):
            r = rng.random()
            L = {2: [np.array([[0, -1], [1, 0]])], 3: [np.round(-1j * x).real.astype(int) for x in FM.L1]}.get(s.dim)
            U = np.diag(rng.integers(-1, 2, s.N)).astype(complex)
            if s.N == 2 and r < .5:
                U = [FM.SX, FM.SY, FM.SZ][rng.integers(3)]
            if L and s.orth and s.mode == 'poly' and rng.random() < .7:
                syms.append(FM.Sym('cont', r=L[rng.integers(len(L))] * 2, lam=2, U=U * (.5 if rng.random() < .7 else 1)))
            else:
                syms.append(FM.Sym('cont', r=np.zeros((s.dim, s.dim), int), U=U))
            continue
        R, c, a = s.grp[rng.integers(len(s.grp))]
        if rng.random() < .3:
            R = np.eye(s.dim, dtype=int)
        syms.append(FM.Sym('pg', R, c, a and rng.random() < .5, F.mono_U(rng, s.N)))
    return syms


def group_of(syms, s, limit=64):
    gens = [F.G(g.R, g.c, g.a, g.U) for g in syms if g.kind == 'pg']
    return F.close(gens + [F.G(np.eye(s.dim, dtype=int), 0, 0, np.eye(s.N))], limit)


def act(g, X, s):
    f = F.Fam(s.mode, s.dim, s.N, 1)
    for k, M in zip(s.keys, X):
        f.add(0, k, M)
    f = f.applied(g)
    keys = [tuple(k) for k in s.keys]
    out = np.zeros_like(X)
    for k, M in f.t[0].items():
        out[keys.index(k)] = M
    return out


def some_invariant(rng, s, syms, n):
    """members, some of which are invariant under the discrete symmetries"""
    G = group_of(syms, s)
    out = []
    for _ in range(n):
        X = rmem(rng, len(s.keys), s.N)
        if G is not None and rng.random() < .6:
            X = sum(act(g, X, s) for g in G)
            v = np.concatenate([X.real.ravel(), X.imag.ravel()]).astype(int)
            d = np.gcd.reduce(v)
            X = X / d if d else rmem(rng, len(s.keys), s.N)
        out.append(X)
    return out


def quiet(f, *a, **k):
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        return f(*a, **k)


SYMS = ['c0', 'c1', 'c2', 'c3', 'c4', 'c5', 'c6', 'm', 'v_1', 'alpha']


def combine(rng, ck, pr, s, ses):
    while not (s.orth):
        s = Sp(rng, 30)
    s.V = np.eye(s.N)
    fam = rfamily(rng, s, 4, .3)
    fam = [f for f in fam if np.any(f)] or [rmem(rng, len(s.keys), s.N, sparse=-1) * 0 + 1]
    lib = [s.lib(X) for X in fam]
    vals = [0.5, 2, -3, 1, sympy.Rational(1, 3), -0.25]
    coeffs, cf, sy = [], [], []
    r = rng.random()
    for i in range(len(fam)):
        if r < .35:
            q, sm = 1, f'c{i}'
        else:
            q = vals[rng.integers(len(vals))] if rng.random() < .7 else 1
            sm = SYMS[7 + rng.integers(3)] if rng.random() < .6 else None
        q2 = q
        if sm is None:
            # plain numbers
            coeffs.append(float(q) if isinstance(q, sympy.Basic) else q)
        else:
            coeffs.append(q2 * sympy.Symbol(sm))
        cf.append(pr.cplx(complex(q)))
        sy.append(SYMS.index(sm) + 1 if sm else 0)
    kw = {}
    if r >= .35 or rng.random() < .3:
        kw['coeffs'] = coeffs
    tosympy, nsimp = bool(rng.random() < .6), bool(rng.integers(2))
    ham = quiet(HG.hamiltonian_from_family, lib if rng.random() < .7 else tuple(lib), tosympy=tosympy, nsimplify=nsimp, **kw)
    names = [str(x) for x in F.MOM[:s.dim]] + SYMS
    keys = [tuple(k) for k in s.keys]
    out = np.zeros((len(SYMS) + 1, len(keys), s.N, s.N), complex)
    extra = False

    def put(c, ex, ph, val, sl=slice(None)):
        nonlocal extra
        e2 = ex[s.dim:]
        if sum(e2) > 1 or min(e2, default=0) < 0 or any(abs(x) > 1e-9 for x in ph[s.dim:]):
            extra = True
            return
        k = tuple(ex[:s.dim]) if s.mode == 'poly' else tuple(int(round(x)) for x in ph[:s.dim])
        bad = any(abs(x) > 1e-9 for x in ph) if s.mode == 'poly' else any(ex[:s.dim]) or max([abs(x - round(x)) for x in ph], default=0) > 1e-9
        if bad or k not in keys:
            extra |= bool(np.max(np.abs(val)) > 1e-12)
            return
        out[list(e2).index(1) + 1 if sum(e2) else 0, keys.index(k)][sl] += c * val

    if tosympy:
        ok = isinstance(ham, sympy.MatrixBase) and ham.shape == (s.N, s.N)
        for a in range(s.N):
            for b in range(s.N):
                for c, ex, ph in MD.parse_key(ham[a, b], names):
                    if c:
                        put(c, ex, ph, 1, (a, b))
    else:
        ok = type(ham) is (BlochModel if s.cls == 'bloch' else Model)
        for key, val in ham.data.items():
            for c, ex, ph in (MD.bkey(key, ham.momenta, names) if s.cls == 'bloch' else MD.parse_key(key, names)):
                put(c, ex, ph, np.asarray(val))
    ses.ev('combine', F=[dict(re=np.round(X.real).astype(int).ravel().tolist(), im=np.round(X.imag).astype(int).ravel().tolist()) for X in fam],
           cf=cf, sy=sy, out=[pr.cvec(o.ravel()) for o in out], extra=extra, type=ok, how=f'{s.mode} {s.cls} {tosympy} {nsimp} {coeffs}')


def body():
    ck = Check('C23', 'C23', 'JC23', profile='q')
    pr = ck.proj()

    def build(rng, i):
        s = Sp(rng, 30)
        # orthogonality refers to the momenta of the models
        while i % 11 in (2, 3) and s.mode == 'poly' and not s.orth:
            s = Sp(rng, 30)
        op = ['dup', 'pretty', 'subtract', 'subtract', 'constrain', 'constrain', 'check', 'symmetrize', 'combine', 'dup', 'pretty'][i % 11]
        with ck.session(f'{op}/{s.mode}/{s.cls}/{i}') as ses:
            if op in ('dup', 'pretty'):
                fam = rfamily(rng, s, dependent=.6 if op == 'dup' else .35)
                if op == 'dup' and rng.random() < .4:      # members of very different norms
                    fam = [X * int(rng.choice([1, 1, 100, 5000])) for X in fam]
                lib = [s.lib(X) for X in fam]
                nd = int(rng.integers(8, 12))
                if op == 'pretty' and rng.random() < .7:
                    # the pretty basis has entries 0, 1, -1, i, -i: any number of digits and any scale of the members will do
                    lab = rng.integers(0, 4, (len(s.keys), s.N, s.N))
                    un = np.array([1, -1, 1j, -1j])[rng.integers(4, size=lab.shape)]
                    fam = [un * (lab == k) for k in (1, 2, 3) if np.any(lab == k)] or [un]
                    for _ in range(rng.integers(0, 4)):
                        j, k = rng.integers(len(fam), size=2)
                        if j != k:
                            fam[j] = fam[j] + fam[k] * (1 if rng.integers(2) else -1)
                    if np.all(s.V == np.eye(s.N)) and s.orth:
                        nd = int(rng.choice([2, 2, 3, 4, 6, 8, 11]))
                    # the precision is relative to the largest member
                    sc = 10. ** rng.integers(-3, 4, len(fam)) if nd >= 8 else np.full(len(fam), 10. ** rng.integers(-3, 6))
                    lib = [s.lib(X * float(x)) for X, x in zip(fam, sc)]
                if op == 'dup':
                    out = quiet(HG.remove_duplicates, lib, **({} if rng.random() < .6 else dict(tol=10. ** -rng.integers(6, 11))))
                else:
                    out = quiet(HG.make_basis_pretty, lib, num_digits=nd)
                res, _, extra, rk = results(s, out, fam)
                ses.ev('span', F=[ints(X) for X in fam], out=res, rank=rk, extra=extra, raised=False)
            elif op == 'subtract':
                fam = rfamily(rng, s, dependent=.3)
                B = np.array([ints(X) for X in fam])
                H = []
                D = B.shape[1]
                nul = sympy.Matrix(B).nullspace() if D <= 40 else []
                nul = [np.array(v * sympy.ilcm(*[x.q for x in v]), int).ravel() for v in nul]
                nul = [v for v in nul if np.max(np.abs(v)) < 30]
                for _ in range(rng.integers(1, 4)):
                    r = rng.random()
                    if r < .5 or not nul:
                        v = rng.integers(-1, 2, len(fam)) @ B
                    elif r < .88:
                        v = nul[rng.integers(len(nul))] * (1 if rng.random() < .8 else 2)
                    else:
                        v = ints(rmem(rng, len(s.keys), s.N))
                    H.append(np.array(v))
                Hx = [(v[:D // 2] + 1j * v[D // 2:]).reshape(fam[0].shape) for v in H]
                kw = {} if rng.random() < .6 else dict(tol=10. ** -rng.integers(6, 10))
                if rng.random() < .3:
                    kw = dict(prettify=True, tol=10. ** -rng.integers(8, 10))
                out, err = call(HG.subtract_family, [s.lib(X) for X in fam], [s.lib(X) for X in Hx], **kw)
                if err and not err.startswith('ValueError'):
                    raise RuntimeError(err)
                res, _, extra, rk = results(s, out or [], fam)
                ses.ev('subtract', F=[ints(X) for X in fam], H=[v.tolist() for v in H], out=res, rank=rk, extra=extra, raised=err is not None, err=str(err), how=str(kw))
            elif op in ('constrain', 'check'):
                syms = mono_syms(rng, s)
                recs = [g.rec(pr) for g in syms]
                assert all(r['we'] == 0 for r in recs)
                k = s.kinds[rng.integers(len(s.kinds))]
                slib = [g.lib(s.A, s.V, k, s.exact) for g in syms]
                if op == 'constrain':
                    fam = rfamily(rng, s, 4, .2) if rng.random() < .3 else some_invariant(rng, s, syms, int(rng.integers(1, 5)))
                    if rng.random() < .4:
                        # members map to each other
                        g = [g for g in syms if g.kind == 'pg']
                        if g:
                            fam = fam[:2] + [act(g[0], X, s) for X in fam[:2]]
                    if rng.random() < .3 and len(fam) > 1:
                        T = np.eye(len(fam), dtype=int)
                        T[0, 1:] = rng.integers(-1, 2, len(fam) - 1)
                        fam = [sum(a * f for a, f in zip(t, fam)) for t in T]
                    lib = [s.lib(X) for X in fam]
                    out = quiet(HG.constrain_family, slib, lib, sparse_linalg=bool(rng.random() < .3))
                    res, xs, extra, rk = results(s, out, fam, np.linalg.matrix_rank([ints(X) for X in fam]) < len(fam))
                    ses.ev('constrain', M=s.M(), syms=recs, mem=[memj(X) for X in fam], out=res, outx=xs, xs=FM.XS, rank=rk, extra=extra, raised=False)
                else:
                    fam = some_invariant(rng, s, syms, int(rng.integers(1, 4)))
                    if rng.random() < .7:
                        G = group_of(syms, s)
                        if G is not None:
                            fam = [sum(act(g, X, s) for g in G) for X in fam]
                            if rng.random() < .3:
                                j = rng.integers(len(fam))
                                fam[j] = fam[j] + rmem(rng, len(s.keys), s.N, 1, .9)
                    nd = None if rng.random() < .6 else int(rng.integers(2, 9))
                    _, err = call(HG.check_symmetry, [s.lib(X) for X in fam], slib, **({} if nd is None else dict(num_digits=nd)))
                    if err and not err.startswith('ValueError'):
                        raise RuntimeError(err)
                    ses.ev('check', M=s.M(), syms=recs, mem=[memj(X) for X in fam], raised=err is not None, how=str(nd))
            elif op == 'symmetrize':
                while True:
                    syms = mono_syms(rng, s, 2, False)
                    G = group_of(syms, s, 48)
                    if G is not None:
                        break
                X = rmem(rng, len(s.keys), s.N)
                k = s.kinds[rng.integers(len(s.kinds))]
                recs, slib = [], []
                for g in G:
                    q = FM.Sym('pg', g.R, g.c, g.a, g.U)
                    r = q.rec(pr)
                    r['Rinv'] = np.round(np.linalg.inv(g.R)).astype(int).tolist() if s.dim else []
                    recs.append(r)
                    slib.append(q.lib(s.A, s.V, k, s.exact))
                m = quiet(HG.symmetrize_monomial, s.lib(X), slib if rng.random() < .6 else set(slib) if len(set(slib)) == len(slib) else slib)
                Y, extra = s.back(m)
                Y = Y * len(G)
                assert np.allclose(Y, np.round(Y), atol=1e-6), 'average of integers'
                ses.ev('symmetrize', M=s.M(), group=recs, X=memj(X), out=ints(Y), extra=bool(extra))
            else:
                combine(rng, ck, pr, s, ses)
            if i % 20 == 0:
                fam = [s.lib(X) for X in rfamily(rng, s) if np.any(X)]
                ses.ev('empty', what='remove_duplicates', n=len(HG.remove_duplicates([])), want=0)
                ses.ev('empty', what='make_basis_pretty', n=len(HG.make_basis_pretty([])), want=0)
                ses.ev('empty', what='subtract empty', n=len(HG.subtract_family(fam, [])), want=len(fam))
                ses.ev('empty', what='subtract from empty', n=len(HG.subtract_family([], fam)), want=0)
                ses.ev('empty', what='no symmetries', n=len(HG.constrain_family([], fam)), want=len(fam))
                ses.ev('empty', what='constrain empty', n=len(HG.constrain_family([], [])), want=0)

    ck.parallel(build, ck.scale(700, 7000))
    return ck.finish()


if __name__ == '__main__':
    main(body)
