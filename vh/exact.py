"""Projection of floating point / sympy numbers to residues.

Every matrix the checks feed into the library has entries in
K = Q(i, sqrt2, sqrt3, sqrt5) of small height, so results do as well.  `Proj`
recognises such entries (tolerance far below the spacing of the recognised
set) and maps them through the ring homomorphism used by spec/Fld.tla.
Entries that are not recognised are emitted as -1, which no residue equals,
so the specification rejects them in whichever clause reads them."""
import math
import numpy as np

PRIMES = [p for p in range(20000, 32768) if p % 120 == 1 and all(p % q for q in range(2, 182))]


def sqrt_mod(a, p):
    for x in range(1, p):
        if x * x % p == a % p:
            return x
    raise ValueError((a, p))


class Field:
    def __init__(self, p):
        self.p = p
        self.ri = sqrt_mod(p - 1, p)
        self.r2, self.r3, self.r5 = sqrt_mod(2, p), sqrt_mod(3, p), sqrt_mod(5, p)
        self.sq = {1: 1, 2: self.r2, 3: self.r3, 5: self.r5,
                   6: self.r2 * self.r3 % p, 10: self.r2 * self.r5 % p,
                   15: self.r3 * self.r5 % p, 30: self.r2 * self.r3 % p * self.r5 % p}

    def consts(self):
        return dict(P=self.p, RI=self.ri, R2=self.r2, R3=self.r3, R5=self.r5)


DENS = (1, 2, 3, 4, 6, 8, 12, 16, 24, 32, 48, 64, 5, 10, 20, 9, 18, 36, 72, 96, 128, 144, 25, 50, 75, 15, 30, 45, 225)
# profiles: list of radicand tuples, tried in order
PROFILES = {
    'q': [()],
    'q2': [(), (2,)],
    'fine': [()],
    'q3': [(), (3,)],
    'q23': [(), (3,), (2,), (6,), (2, 3), (2, 6), (3, 6), (2, 3, 6)],
    'q235x': [(), (3,), (2,), (5,), (6,), (10,), (15,), (30,), (2, 6), (3, 5), (2, 3), (2, 10), (2, 3, 6)],
    'q235': [(), (3,), (2,), (5,), (6,), (10,), (15,), (30,), (2, 3, 6), (2, 5, 10), (3, 5, 15), (6, 10, 15)],
}
BOUND = {0: 0, 1: 300, 2: 20, 3: 12}
_grid = {}


def _grids(rads):
    if rads not in _grid:
        b = BOUND[len(rads)]
        r = np.arange(-b, b + 1)
        coefs = np.array(np.meshgrid(*([r] * len(rads)), indexing='ij')).reshape(len(rads), -1).T
        # all coefficients nonzero in the single radicand case: simpler classes are tried before
        if len(rads) == 1:
            coefs = coefs[coefs[:, 0] != 0]
        vals = coefs @ np.sqrt(np.array(rads, float))
        order = np.argsort(np.abs(coefs).sum(axis=1), kind='stable')
        _grid[rads] = (coefs[order], vals[order])
    return _grid[rads]


class Proj:
    def __init__(self, field, profile='q', tols=(2e-11, 1e-9)):
        self.f, self.profile, self.tols = field, profile, tols
        self.cache = {}
        self.unknown = 0

    # -- scalars
    def snap(self, x):
        """(denominator, {radicand: numerator}) or None"""
        for tol0 in self.tols:
            tol = tol0 * max(1.0, abs(x))
            for rads in PROFILES[self.profile]:
                if not rads:
                    for n in (DENS if self.profile != 'fine' else (1, 20000)):
                        a = round(x * n)
                        if abs(x * n - a) < tol * n:
                            return n, {1: a}
                    continue
                coefs, vals = _grids(rads)
                for n in DENS[:9] if len(rads) > 1 else DENS:
                    rest = x * n - vals
                    a = np.round(rest)
                    ok = np.nonzero(np.abs(rest - a) < tol * n)[0]
                    if len(ok):
                        # smallest height
                        k = min(ok, key=lambda j: abs(a[j]) + np.abs(coefs[j]).sum())
                        d = {1: int(a[k])}
                        d.update({r: int(c) for r, c in zip(rads, coefs[k])})
                        return n, d
        return None

    def real(self, x):
        x = float(x)
        if not math.isfinite(x):
            return -1
        key = round(x, 9)
        if key in self.cache:
            return self.cache[key]
        s = self.snap(x)
        p = self.f.p
        if s is None:
            self.unknown += 1
            r = -1
        else:
            n, d = s
            r = sum(c * self.f.sq[k] for k, c in d.items()) * pow(n, -1, p) % p
        self.cache[key] = r
        return r

    def cplx(self, z):
        a, b = self.real(np.real(z)), self.real(np.imag(z))
        if a < 0 or b < 0:
            return [-1, -1]
        p = self.f.p
        ib = self.f.ri * b
        return [(a + ib) % p, (a - ib) % p]

    def frac(self, q):
        from fractions import Fraction
        q = Fraction(q)
        return q.numerator * pow(q.denominator, -1, self.f.p) % self.f.p

    # -- arrays
    def rmat(self, A):
        A = np.atleast_2d(np.array(A, dtype=float))
        return [[self.real(x) for x in row] for row in A]

    def rvec(self, v):
        return [self.real(x) for x in np.array(v, dtype=float).ravel()]

    def cmat(self, A):
        A = np.asarray(A, dtype=complex)
        if A.ndim == 0:
            A = A.reshape(1, 1)
        if A.ndim == 1:
            A = A.reshape(1, -1)
        X, Y = [], []
        for row in A:
            z = [self.cplx(x) for x in row]
            X.append([a for a, _ in z])
            Y.append([b for _, b in z])
        return [X, Y]

    def cvec(self, v):
        z = [self.cplx(x) for x in np.asarray(v, complex).ravel()]
        return [[a for a, _ in z], [b for _, b in z]]
