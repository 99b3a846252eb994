"""C26: random matrix ensembles."""
import numpy as np
from vh.check import Check, main
from qsymm import kwant_rmt as R

CL = ['A', 'AI', 'AII', 'AIII', 'BDI', 'CII', 'D', 'DIII', 'C', 'CI']
ERR = (ValueError, TypeError, IndexError, RuntimeError, ZeroDivisionError, KeyError)
XS = 20000


class Fake:
    """the k-th standard normal number is one, the others vanish"""
    def __init__(s, k):
        s.k, s.n = k, 0

    def randn(s, *shape):
        m = int(np.prod(shape))
        x = np.zeros(m)
        if s.n <= s.k < s.n + m:
            x[s.k - s.n] = 1
        s.n += m
        return x.reshape(shape)

    def _no(s, *a, **k):
        raise AssertionError('unexpected distribution')
    random_sample = choice = randint = _no

    def standard_normal(s, size=()):
        return s.randn(*np.atleast_1d(size))


def mj(A, s):
    A = np.clip(np.nan_to_num(np.asarray(A)), -1e3, 1e3) if np.isrealobj(A) else np.nan_to_num(np.asarray(A))
    return dict(re=np.round(A.real * s).astype(int).tolist(), im=np.round(A.imag * s).astype(int).tolist())


def gauss(rng, ses):
    sym = CL[rng.integers(10)] if rng.random() < .97 else ['B', 'ai', '', 'DIII '][rng.integers(4)]
    n = int(rng.integers(1, 10)) if rng.random() < .7 else int(rng.choice([4, 8, 12, 16]))
    v = float(rng.choice([1, 1, .3, 1e-3, 50]))
    kw = dict(v=v) if v != 1 or rng.random() < .3 else {}
    seed = int(rng.integers(2**31)) if rng.random() < .8 else int(rng.integers(2))
    kind = rng.integers(4)
    make = lambda: [seed, np.int64(seed), np.random.RandomState(seed), None][kind]
    if kind == 3:
        np.random.seed(seed)
    a = n if rng.random() < .9 else np.int64(n)
    try:
        H, raised = R.gaussian(a, sym, rng=make(), **kw), False
    except ERR as e:
        H, raised = np.zeros((1, 1)), not isinstance(e, (IndexError, KeyError, ZeroDivisionError))
    mx = float(np.max(np.abs(H), initial=0))
    ses.ev('gauss', raised=raised, n=n, sym=sym, shape=list(H.shape), max=int(mx > 1e-12), H=mj(H / mx if mx > 0 else H, 10**6))
    if not raised:
        H2 = R.gaussian(n, sym, rng=np.random.RandomState(seed), **kw)
        same = np.array_equal(H, H2)
        if rng.random() < .3 and mx > 0:
            g = np.random.RandomState(seed)
            H3, H4 = R.gaussian(n, sym, rng=g, **kw), R.gaussian(n, sym, rng=g, **kw)
            same = same and np.array_equal(H3, H) and not np.allclose(H4, H3)
        ses.ev('same', same=bool(same), what='gaussian')


def circ(rng, ses):
    sym = CL[rng.integers(10)] if rng.random() < .97 else ['B', 'aiii', '', 'E'][rng.integers(4)]
    charged = sym in ('D', 'DIII', 'AIII', 'BDI', 'CII')
    n = int(rng.integers(1, 9)) if rng.random() < .8 else int(rng.choice([2, 4, 6, 10]))
    hasc = charged and rng.random() < .75 or rng.random() < .05
    if hasc and sym in ('D', 'DIII'):
        n = min(n, 4 if sym == 'D' else 6)
    num, den, charge = 0, 1, None
    if hasc:
        top = {'AIII': n, 'BDI': n, 'CII': n // 2}.get(sym, 1)
        num = int(rng.integers(0, top + 1)) if sym in ('AIII', 'BDI', 'CII') else int(rng.choice([-1, 1]))
        if rng.random() < .15:
            num = int(rng.choice([-1, -2, 0, 2, top + 1, top + 2]))
        charge = num
        if rng.random() < .1:
            charge = np.int64(num)
        elif rng.random() < .08:
            num, den = 2 * num + 1, 2
            charge = num / den
        elif rng.random() < .08:
            charge = float(num)
    seed = int(rng.integers(2**31)) if rng.random() < .8 else int(rng.integers(2))
    kind = rng.integers(4)
    if kind == 3:
        np.random.seed(seed)
    g = [seed, np.int64(seed), np.random.RandomState(seed), None][kind]
    kw = dict(charge=charge) if hasc or rng.random() < .3 else {}
    try:
        s, raised = R.circular(n if rng.random() < .9 else np.int64(n), sym, rng=g, **kw), False
    except ValueError:
        s, raised = np.zeros((1, 1)), True
    except ERR:
        # not a refusal
        s, raised = np.zeros((1, 1)), False
    ses.ev('circ', raised=raised, n=n, sym=sym, shape=list(s.shape), H=mj(s, XS), xs=XS, hascharge=bool(hasc), num=num, den=den, how=repr(charge))
    if not raised and s.shape == (n, n):
        same = np.array_equal(s, R.circular(n, sym, rng=np.random.RandomState(seed), **kw))
        ses.ev('same', same=bool(same), what='circular')


def law(ses, sym, n, v):
    f = Fake(-1)
    R.gaussian(n, sym, v=v, rng=f)
    V, lin = [], True
    for k in range(f.n):
        H = R.gaussian(n, sym, v=v, rng=Fake(k))
        V.append(np.concatenate([H.real.ravel(), H.imag.ravel()]))
        lin = lin and np.allclose(R.gaussian(n, sym, v=2 * v, rng=Fake(k)), 2 * H)
    V = np.array(V)
    # all entries are multiples of the smallest one
    u = np.min(np.abs(V[np.abs(V) > 1e-9]), initial=np.inf)
    u = u if np.isfinite(u) else 1.
    Vi = np.round(V / u)
    ex = np.allclose(V / u, Vi, atol=1e-9) and np.max(np.abs(Vi), initial=0) <= 16
    keep = np.any(Vi, axis=1)
    Vi = np.clip(Vi[keep], -16, 16).astype(int).tolist() or [[0] * (2 * n * n)]
    ses.ev('law', sym=sym, n=n, V=Vi, exact=bool(ex), linear=bool(lin))


def body():
    ck = Check('C26', 'C26', 'JC26')

    def build(rng, i):
        with ck.session(f'rmt/{i}') as ses:
            for _ in range(4):
                gauss(rng, ses)
                circ(rng, ses)
            if i < 10:
                for n in (1, 2, 3, 4):
                    if not ((n % 2 and CL[i] not in ('A', 'AI', 'D')) or (CL[i] == 'CII' and n % 4)):
                        try:
                            law(ses, CL[i], n, [1., .5, 4.][rng.integers(3)])
                        except (AttributeError, AssertionError):
                            pass        # random numbers are drawn in another way
                sym = CL[i]
                U = lambda t: (np.array(t[sym]) if sym in t else np.zeros((1, 1)))
                ses.ev('table', sym=sym, raised=False, t=R.t(sym), p=R.p(sym), c=int(R.c(sym)), hasT=sym in R.h_t_matrix, hasP=sym in R.h_p_matrix,
                       T=mj(U(R.h_t_matrix), 1), P=mj(U(R.h_p_matrix), 1))
            elif i < 14:
                for f in (R.t, R.p, R.c, lambda s: R.gaussian(4, s), lambda s: R.circular(4, s)):
                    try:
                        f(['B', 'AIV', '', 'a'][i - 10])
                        raised = False
                    except ValueError:
                        raised = True
                    ses.ev('reject', raised=raised, what='class')
                for bad in ('x', 1.5, object(), [1]):
                    for f in (R.gaussian, R.circular):
                        try:
                            f(4, 'A', rng=bad)
                            raised = False
                        except ValueError:
                            raised = True
                        ses.ev('reject', raised=raised, what='rng')

    ck.parallel(build, ck.scale(1800, 30000))
    return ck.finish()


if __name__ == '__main__':
    main(body)
