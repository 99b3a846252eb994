"""C25: linear solvers."""
import numpy as np, scipy.sparse as sp, warnings, itertools as it
import scipy.sparse.linalg as sla
import tinyarray as ta
from scipy.linalg import expm
from vh.check import Check, main
from vh.family import XS, rank
from qsymm import linalg as L, Model

FMT = ['csr', 'csc', 'coo']
ERR = (ValueError, np.linalg.LinAlgError, ZeroDivisionError, TypeError, AttributeError, IndexError, RuntimeError, AssertionError, NotImplementedError)


def gint(rng, shape, s=2, cplx=True, sparse=.3):
    A = rng.integers(-s, s + 1, shape) + (1j * rng.integers(-s, s + 1, shape) if cplx else 0)
    return A * (rng.random(shape) > sparse)


def lowrank(rng, m, n, s=2, cplx=True):
    """integer matrix of a random rank"""
    r = int(rng.integers(0, min(m, n) + 1))
    if rng.random() < .3:
        return gint(rng, (m, n), s, cplx)
    A = gint(rng, (m, r), 1, cplx, .4) @ gint(rng, (r, n), 1, cplx, .4)
    if rng.random() < .3 and n > 1:
        A[:, rng.integers(n)] = 0
    return A


def ri(A):
    A = np.asarray(A)
    return np.round(A.real).astype(int).tolist(), np.round(A.imag).astype(int).tolist()


def fx(A, lim=1e4):
    A = np.nan_to_num(np.asarray(A), nan=lim, posinf=lim, neginf=-lim)
    return np.round(np.clip(A.real, -lim, lim) * XS).astype(int), np.round(np.clip(A.imag, -lim, lim) * XS).astype(int)


def fvec(rows):
    """fixed point vectors (re, im), normalised to order one"""
    out = []
    for r in rows:
        a, b = fx(np.ravel(r), 10)
        out.append(a.tolist() + b.tolist())
    return out


def crank(rows, real=False):
    if not len(rows):
        return 0
    V = np.array([np.ravel(r) for r in rows])
    if real:
        V = np.hstack([V.real, V.imag])
    n = np.linalg.norm(V, axis=1)
    if np.any(n < 1e-9):
        return -1
    s = np.linalg.svd(V / n[:, None], compute_uv=False)
    return int(np.sum(s > 1e-6))


def quiet(f, *a, **k):
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        return f(*a, **k)


def tosp(rng, A):
    return sp.csr_matrix(A).asformat(FMT[rng.integers(3)])


def null(rng, ses):
    cplx = rng.random() < .5
    big = rng.random() < .15
    n = int(rng.integers(1, 7)) if not big else int(rng.integers(12, 26))
    m = int(rng.integers(1, 7)) if not big else int(rng.integers(1, 8))
    A = lowrank(rng, m, n, cplx=cplx)
    if rng.random() < .08:
        A = A * 0
    if big and rng.random() < .5:
        A = sp.block_diag([lowrank(rng, 2, 3, cplx=cplx) for _ in range(n // 3)]).toarray()
        m, n = A.shape
    # keep away from the tolerances
    s = np.linalg.svd(A, compute_uv=False)
    if np.any((s > 1e-9) & (s < .05)):
        return
    B = A if cplx else A.real
    if rng.random() < .2 and not cplx:
        B = B.astype(int)
    kind = rng.integers(5)
    kw, comp = {}, None
    if kind == 0:
        arg = B
    elif kind == 1:
        arg = B
        kw = dict(return_complement=True)
    elif kind == 2:
        arg = tosp(rng, B.astype(complex if cplx else float))
    elif kind == 3:
        arg, kw = B.astype(complex if cplx else float), dict(sparse=True)
    else:
        arg, kw = tosp(rng, B), dict(sparse=False)
    kmax = -10
    if kind in (2, 3) and np.any(A):
        kmax = int(rng.choice([-10, -10, -1, -3, 1, 2, 4, 12]))
        if kmax != -10:
            kw['k_max'] = kmax
    elif kind == 0 and rng.random() < .2:
        kw['k_max'] = 2       # ignored for dense
    try:
        out = quiet(L.nullspace, arg, **kw)
        if kw.get('return_complement'):
            out, comp = out
        raised = False
    except ERR:
        raised, out = True, np.zeros((0, n))
    re, im = ri(A)
    ses.ev('null', raised=raised, re=re, im=im, cols=n, out=fvec(out), rank=crank(out), kmax=kmax if kind in (2, 3) else -1,
           hasc=comp is not None, comp=fvec(comp) if comp is not None else [], xs=XS, how=str(kw) + str(kind))


def solve(rng, ses):
    n = int(rng.choice([1, 2, 2, 3, 3, 4]))
    herm, traceless = bool(rng.random() < .5), bool(rng.random() < .4)
    ne = int(rng.integers(1, 4))
    cplx = rng.random() < .6
    style = rng.integers(4)
    Ls, Rs = [], []
    W = np.eye(n)[rng.permutation(n)] * rng.choice([1, -1, 1j, -1j], n)
    blocks = rng.integers(0, 2, n)
    for _ in range(ne):
        A = gint(rng, (n, n), 2, cplx, .4)
        if style in (0, 1):
            A = A * (blocks[:, None] == blocks[None, :])
        if style == 1 or rng.random() < .3:
            A = A + A.conj().T
        if rng.random() < .2:
            A = np.diag(rng.integers(-1, 2, n)).astype(complex)
        Ls.append(A)
        Rs.append(W @ A @ W.conj().T if style in (0, 1, 2) else gint(rng, (n, n), 1, cplx, .6))
    if rng.random() < .05:
        Ls = [0 * x for x in Ls]
        Rs = [0 * x for x in Rs]
    same = rng.random() < .4
    if same:
        Rs = Ls
    cj = [False] * ne
    conj = False
    if rng.random() < .35:
        if rng.random() < .5:
            conj, cj = True, [True] * ne
        else:
            cj = [bool(x) for x in rng.integers(0, 2, ne)]
            conj = cj
        if style in (0, 1) and not same:
            Rs = [W @ a.conj() @ W.T if False else W @ a @ W.T for a in Ls]
    realspace = herm or any(cj)
    kw = {}
    if herm:
        kw['hermitian'] = True
    if traceless:
        kw['traceless'] = True
    if conj is not False:
        kw['conjugate'] = conj
    kind = rng.integers(4)
    kmax = -1
    La, Ra = [np.array(x) for x in Ls], [np.array(x) for x in Rs]
    if not cplx and all(np.isrealobj(x) or not np.any(x.imag) for x in La + Ra):
        La, Ra = [x.real for x in La], [x.real for x in Ra]
    if kind == 0 and rng.random() < .5:
        La, Ra = np.array(La), np.array(Ra)
    elif kind == 1:
        La, Ra = [tosp(rng, x) for x in La], [tosp(rng, x) for x in Ra]
    elif kind == 2:
        kw['sparse'] = True
    # keep away from the tolerances: singular values of the linear system
    E = [np.kron(np.eye(n), l.T) - np.kron(r, np.eye(n)) for l, r in zip(Ls, Rs)]
    s = np.linalg.svd(np.vstack(E), compute_uv=False)
    if np.any((s > 1e-9) & (s < .05)):
        return
    if kind in (1, 2) and any(np.any(x) for x in E) and rng.random() < .4 and not (n == 1):
        kmax = int(rng.choice([1, 2, 3, -2]))
        kw['k_max'] = kmax
    try:
        out = quiet(L.solve_mat_eqn, La, **kw) if same else quiet(L.solve_mat_eqn, La, Ra, **kw)
        out = [x.toarray() if sp.issparse(x) else np.asarray(x) for x in out]
        raised = any(x.shape != (n, n) for x in out)
    except ERR as e:
        out, raised = [], True
    mj = lambda A: dict(re=ri(A)[0], im=ri(A)[1])
    if kmax > 0 and not raised:
        # if everything solves the equations nothing is eliminated (all solutions are returned)
        rows = []
        bas = list(L.matrix_basis(n, traceless=traceless))
        if all(np.allclose(b @ l - r @ (b.conj() if c else b), 0) for b in bas for l, r, c in zip(Ls, Rs, cj)):
            kmax = -1
    ses.ev('solve', raised=raised, n=n, L=[mj(x) for x in Ls], R=[mj(x) for x in Rs], conj=cj, herm=herm, traceless=traceless,
           realspace=bool(realspace), out=fvec(out), rank=crank(out, realspace), kmax=kmax, how=str(kw) + str(kind))


def basis(rng, ses):
    n = int(rng.integers(0, 5))
    kw = {k: bool(rng.random() < .5) for k in ('traceless', 'antihermitian', 'real', 'sparse')}
    out = list(L.matrix_basis(n, **{k: v for k, v in kw.items() if v or rng.random() < .5}))
    typ = all((sp.issparse(x) if kw['sparse'] else isinstance(x, np.ndarray)) and x.shape == (n, n) for x in out)
    vs = []
    for x in out:
        x = x.toarray() if sp.issparse(x) else np.asarray(x)
        typ = typ and np.allclose(x, np.round(x.real) + 1j * np.round(x.imag))
        a, b = ri(x.ravel())
        vs.append(a + b)
    ses.ev('basis', n=n, traceless=kw['traceless'], anti=kw['antihermitian'], real=kw['real'], out=vs, typeok=bool(typ))


def minpivot(A):
    """smallest leading value of the row reduction"""
    A = np.array(A, complex)
    out, r = np.inf, 0
    for k in range(A.shape[1]):
        if r == len(A):
            break
        i = r + int(np.argmax(np.abs(A[r:, k])))
        if abs(A[i, k]) < 1e-9:
            continue
        out = min(out, abs(A[i, k]))
        A[[r, i]] = A[[i, r]]
        A[r] = A[r] / A[r, k]
        for j in range(len(A)):
            if j != r:
                A[j] = A[j] - A[j, k] * A[r]
        r += 1
    return out


def rrefs(rng, ses):
    cplx = rng.random() < .5
    m, n = int(rng.integers(1, 5)), int(rng.integers(1, 6))
    A = lowrank(rng, m, n, 2 if m < 4 else 1, cplx)
    if rng.random() < .07:
        A = A * 0
    if not cplx:
        A = A.real
        if rng.random() < .3:
            A = A.astype(int)
    kind = ['rref', 'rrefS', 'basis', 'basisreal'][rng.integers(4)]
    if kind[0] == 'r' and rng.random() < .4:
        # rows of different sizes: leading values small compared to the largest element
        B = A * rng.choice([1, 1, 30, 60], m)[:, None]
        if minpivot(B) > 2.5e-3 * np.max(np.abs(B), initial=0):
            A = B
    dig, drop, Srank, raised = 6, False, m, False
    M = A
    tol = 2
    try:
        if kind == 'rref':
            kw = {} if rng.random() < .5 else dict(rtol=1e-5)
            red, S = quiet(L.rref, A, **kw), None
        elif kind == 'rrefS':
            red, S = quiet(L.rref, A, return_S=True)
        else:
            dig = int(rng.choice([3, 4, 6]))
            tol = 3 + int(10. ** -dig * XS)
            drop = True
            kw = {} if dig == 3 else dict(num_digits=dig)
            if kind == 'basisreal':
                kw['reals'] = True
                M = np.hstack([A.real, A.imag])
            red, S = quiet(L.sparse_basis, A, **kw), None
            red = np.asarray(red).reshape(-1, n)
            if kind == 'basisreal':
                red = np.hstack([red.real, red.imag])
    except ERR:
        raised, red, S = True, np.zeros((m, M.shape[1])), np.eye(m)
    red = np.asarray(red)
    hasS = S is not None
    if not hasS:
        S = np.linalg.lstsq(np.asarray(M, complex).T, red.T, rcond=1e-9)[0].T if len(red) else np.zeros((0, m))
    else:
        Srank = int(np.linalg.matrix_rank(S, tol=1e-8)) if S.shape == (m, m) else -1
    re, im = ri(M)
    f = fx(red, 1e3)
    g = fx(S, 1e3)
    ses.ev('rref', raised=raised, re=re, im=im, cols=M.shape[1], red=f[0].tolist(), redi=f[1].tolist(), S=g[0].tolist(), Si=g[1].tolist(),
           hasS=hasS, Srank=Srank, drop=drop, tol=tol, xs=XS, kind=kind)


def diag(rng, ses):
    n, k = int(rng.integers(1, 7)), int(rng.integers(1, 4))
    herm = rng.random() < .5
    # joint eigenvalues: few distinct ones
    pool = rng.integers(-2, 3, (int(rng.integers(1, n + 1)), k)) + (0 if herm else 1j * rng.integers(-2, 3, (1, k)) * rng.integers(0, 2, (1, k)))
    if not herm:
        pool = pool + 1j * rng.integers(-1, 2, pool.shape)
    ev = pool[rng.integers(0, len(pool), n)]
    if rng.random() < .5:
        V = np.linalg.qr(rng.normal(size=(n, n)) + 1j * rng.normal(size=(n, n)))[0]
    elif rng.random() < .5:
        V = np.linalg.qr(rng.normal(size=(n, n)))[0]
    else:
        V = np.eye(n)[rng.permutation(n)]
    if rng.random() < .2 and not herm and n > 1:
        # permutation matrices: normal with complex eigenvalues, real entries
        pass
    kw = {} if rng.random() < .5 else dict(checks=int(rng.integers(0, 3)))
    ev2 = ev
    if rng.random() < .25:      # degenerate within the tolerance only
        kw = dict(tol=float(rng.choice([1e-2, 1e-1])))
        ev2 = ev + 2e-5 * rng.normal(size=ev.shape) * (rng.random(k) < .7)
    mats = np.array([V @ np.diag(ev2[:, a]) @ V.conj().T for a in range(k)])
    if np.allclose(mats.imag, 0) and rng.random() < .5:
        mats = mats.real
    raised, unitary, eigen, bl = False, False, True, []
    try:
        Ps = quiet(L.simult_diag, mats, **kw)
        U = np.hstack(Ps)
        unitary = U.shape == (n, n) and np.allclose(U.conj().T @ U, np.eye(n), atol=1e-6)
        for P in Ps:
            lam = []
            for M in mats:
                D = P.conj().T @ M @ P
                z = np.trace(D) / max(len(D), 1)
                eigen = eigen and np.allclose(M @ P, z * P, atol=1e-3 if 'tol' in kw else 1e-5) and abs(z - np.round(z.real) - 1j * np.round(z.imag)) < (1e-3 if 'tol' in kw else 1e-5)
                lam += [int(np.round(z.real)), int(np.round(z.imag))]
            bl.append(dict(l=lam, n=int(P.shape[1])))
    except ERR:
        raised = True
    joint = [[int(y) for z in r for y in (np.round(z.real), np.round(z.imag))] for r in ev]
    ses.ev('diag', raised=raised, joint=joint, blocks=bl, unitary=bool(unitary), eigen=bool(eigen), how=str(kw))


def small(rng, ses, i):
    r = i % 5
    if r == 0:
        n = int(rng.integers(1, 5))
        s = float(rng.choice([1, 1e-3, 1e4]))
        z = int(rng.integers(-2, 3)) + 1j * int(rng.integers(-1, 2))
        A = z * np.eye(n)
        if rng.random() < .6:
            for _ in range(rng.integers(1, 3)):
                A[rng.integers(n), rng.integers(n)] += int(rng.integers(-1, 2)) * (1j if rng.random() < .5 else 1)
        B = A if np.any(A.imag) or rng.random() < .5 else A.real
        p, c = L.prop_to_id(B * s)
        c = c / s
        ok = abs(c - np.round(np.real(c)) - 1j * np.round(np.imag(c))) < 1e-6
        re, im = ri(A)
        ses.ev('prop', A=dict(re=re, im=im), prop=bool(p), re=int(np.round(np.real(c))) if ok else 999, im=int(np.round(np.imag(c))) if ok else 999)
    elif r == 1:
        nd = rng.integers(4)
        shape = [(3,), (2, 3), (3, 3), (2, 2, 2)][nd]
        unit = 1j if rng.random() < .3 else 1
        a = rng.integers(-50, 51, shape)
        b = a + rng.integers(-3, 4, shape) * (rng.random(shape) < .5)
        if rng.random() < .2:
            a, b = a * (rng.random(shape) < .2), b * 0
        den = 256
        rd = int(rng.choice([4, 16, 64, 1024]))
        rn = int(rng.integers(0, 4))
        at = int(rng.integers(0, 4) * rng.choice([1, 100, 256, 1000]))
        x, y = a * unit, b * unit
        kw = dict(rtol=rn / rd, atol=at / den)
        if rng.random() < .15:
            kw = {}
            rn, rd, at, den = 1, 100000, 0, 1
            x, y = a * 1. * unit, b * 1. * unit
        k = rng.integers(7)
        if k == 0:
            x = x.tolist()
        elif k == 1:
            y = y.tolist()
        elif k == 2 and nd in (1, 2):
            x, y = tosp(rng, x), tosp(rng, y)
        elif k == 3 and nd in (1, 2):
            x, y = (tosp(rng, x), y) if rng.random() < .5 else (x, tosp(rng, y))
        elif k == 4 and nd == 2:
            x, y = (sla.aslinearoperator(x), y) if rng.random() < .5 else (x, sla.aslinearoperator(np.asarray(y)))
        elif k == 5:
            c = int(b.ravel()[0])
            b = np.full(shape, c)
            y = c * unit
            if rng.random() < .5:
                x, y = y, x
        out = L.allclose(x, y, **kw)
        ses.ev('close', a=(a * den).ravel().tolist(), b=(b * den).ravel().tolist(), atol=at, rnum=rn, rden=rd, out=bool(out), kind=int(k))
        if rng.random() < .1:
            sa, sb = [[(0,), (0, 2), (2, 0), (0, 0)][rng.integers(4)] for _ in range(2)]
            ses.ev('closeempty', sa=list(sa), sb=list(sb), out=bool(L.allclose(np.zeros(sa), np.zeros(sb))))
    elif r == 2:
        n, nk, nm = int(rng.integers(1, 3)), int(rng.integers(1, 5)), int(rng.integers(1, 5))
        mem = gint(rng, (nm, nk, n, n), 3, True, .2) * (rng.random((nm, nk, 1, 1)) < .7)
        names = [1, 'k_x', 'k_x*k_y', 'k_z**2'][:nk]
        import sympy
        keys = [sympy.sympify(x) for x in names]
        fam = [Model({k: mem[a, j] for j, k in enumerate(keys) if np.any(mem[a, j])}, shape=(n, n), format=np.ndarray) for a in range(nm)]
        if rng.random() < .6:
            order = list(rng.permutation(nk))
            out = L.family_to_vectors(fam, all_keys=[keys[j] for j in order])
            given = True
        else:
            out = L.family_to_vectors(fam)
            given = False
            # the order of keys is arbitrary: any order that explains the result
            used = [j for j in range(nk) if np.any(mem[:, j])]
            order = used
            for o in it.permutations(used):
                w = np.hstack([np.hstack([mem[:, j].reshape(nm, -1).real, mem[:, j].reshape(nm, -1).imag]) for j in o]) if o else np.zeros((nm, 0))
                if w.shape == out.shape and np.array_equal(w, out):
                    order = list(o)
                    break
        mj = [[np.round(x.real).astype(int).ravel().tolist() + np.round(x.imag).astype(int).ravel().tolist() for x in a] for a in mem]
        ses.ev('vec', n=n, nkeys=nk, mem=mj, order=[int(j) + 1 for j in order], given=given, out=np.round(out).astype(int).tolist())
    elif r == 3:
        n = int(rng.integers(1, 5))
        A = rng.integers(-2, 3, (n, n))
        if rng.random() < .6:
            A = np.eye(n, dtype=int)[rng.permutation(n)] * rng.choice([-1, 1], n)
            for _ in range(rng.integers(0, 4)):
                if n > 1:
                    a, b = rng.choice(n, 2, replace=False)
                    A[a] += rng.integers(-1, 2) * A[b]
        d = round(np.linalg.det(A))
        try:
            out, raised = np.array(L._inv_int(ta.array(A.tolist(), int))), False
        except ValueError:
            out, raised = A, True
        ses.ev('inv', A=A.tolist(), uni=abs(d) == 1, raised=raised, out=np.round(out).astype(int).tolist())
    else:
        p, q, r_, s, m = (int(x) for x in rng.integers(1, 4, 5))
        a, B, c = rng.integers(-3, 4, (p, q)), rng.integers(-3, 4, (m, q, r_)), rng.integers(-3, 4, (r_, s))
        ses.ev('mtm', a=a.tolist(), B=B.tolist(), c=c.tolist(), out=np.asarray(L.mtm(a, B, c)).tolist())


def body():
    ck = Check('C25', 'C25', 'JC25')

    def build(rng, i):
        with ck.session(f'linalg/{i}') as ses:
            for j in range(3):
                k = (3 * i + j) % 10
                if k in (0, 1):
                    null(rng, ses)
                elif k in (2, 3, 4):
                    solve(rng, ses)
                elif k == 5:
                    basis(rng, ses)
                elif k in (6, 7):
                    rrefs(rng, ses)
                elif k == 8:
                    diag(rng, ses)
                else:
                    small(rng, ses, i)
            if i % 10 == 0:
                for k in range(5):
                    small(rng, ses, k)

    ck.parallel(build, ck.scale(2000, 20000))
    return ck.finish()


if __name__ == '__main__':
    main(body)
