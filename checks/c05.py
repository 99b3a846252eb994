"""C05: factories, predefined groups, spin and orbital matrices."""
import itertools
import numpy as np, sympy
import tinyarray as ta
from scipy.linalg import expm, block_diag
from vh.check import Check, main, call
from vh import groups as G
from qsymm.groups import (PointGroupElement, identity, time_reversal, particle_hole, chiral, inversion, rotation, mirror,
                          square, cubic, hexagonal, spin_matrices, spin_rotation, L_matrices)

S1 = np.array([[[0, 1], [1, 0]], [[0, -1j], [1j, 0]], [[1, 0], [0, -1]]]) / 2
eps = np.zeros((3, 3, 3))
for a, b, c in itertools.permutations(range(3)):
    eps[a, b, c] = np.linalg.det(np.eye(3)[[a, b, c]])
L1 = -1j * eps


def std(s):
    d = int(2 * s + 1)
    m = np.arange(s, -s - 1, -1)
    sp = np.diag(np.sqrt(s * (s + 1) - m[1:] * (m[1:] + 1)), 1)
    return np.array([(sp + sp.T) / 2, (sp - sp.T) / 2j, np.diag(m)])


AXES = [(1, 0, 0), (0, 1, 0), (0, 0, 1), (1, 1, 0), (1, -1, 0), (0, 1, 1), (-1, 0, 1), (1, 1, 1), (-1, 1, 1), (1, -1, -1),
        (0, 0, -1), (-2, 0, 0), (0, 3, 4), (1, 2, 2), (2, -1, 2), (-2, 2, 1), (1, 2, 0), (0, -2, 1), (1, 1, -2), (3, 0, 0),
        (-3, 4, 0), (2, 1, 1)]


def kind(g):
    return ('int' if isinstance(g.R, ta.ndarray_int) else 'float' if isinstance(g.R, ta.ndarray_float) else 'sympy')


def known(pr, *arrs):
    """Whether the projection recognises all entries of an independently computed expectation."""
    return all(x >= 0 for A in arrs for X in pr.cmat(A) for row in X for x in row)


def body():
    ck = Check('C05', 'C05', 'JC05')
    rng = ck.rng
    pr = ck.proj('q235x')

    def spin_choice(allow_explicit=True):
        r = rng.random()
        if r < .25:
            return dict(spin='none', twoS=0, twoJ=0, step=2, S=[], U=[]), None, None
        if r < .75 or not allow_explicit:
            two = int(rng.choice([1, 1, 2, 2, 3, 0, 4]))
            s = two / 2
            arg = [s, int(s)][int(s) == s and rng.integers(2)]
            return dict(spin='std', twoS=two, twoJ=two, step=2, S=[], U=[]), arg, std(s)
        # explicit matrices
        k = rng.integers(4)
        if k == 0:
            S, two, step = L1, 2, 2
        elif k == 1:
            S, two, step = np.array([block_diag(a, b) for a, b in zip(S1, L1)]), 2, 1
        elif k == 2:
            S, two, step = np.array([np.kron(a, np.eye(2)) + np.kron(np.eye(2), a) for a in S1]), 2, 2
        else:
            S, two, step = np.array([np.kron(a, np.eye(3)) + np.kron(np.eye(2), b) for a, b in zip(S1, L1)]), 3, 2
        arg = [S, list(S), tuple(S)][rng.integers(3)]
        return dict(spin='mat', twoS=0, twoJ=two, step=step, S=[pr.cmat(x) for x in S], U=[]), arg, S

    def U_or_spin():
        """record fields, keyword arguments, spin matrices"""
        rec, arg, S = spin_choice()
        if S is None and rng.integers(2):
            U = G.rand_unitary(rng, int(rng.integers(1, 4)))
            rec['U'] = pr.cmat(U)
            return rec, dict(U=U), None
        return rec, ({} if S is None else dict(spin=arg)), S

    py = np.arctan2(1, 2) * 2
    n_ok = 0
    while n_ok < ck.scale(150, 2000):
        rec, kw, S = U_or_spin()
        k, j = int(rng.integers(-30, 31)), 0
        if rng.random() < .25:
            k, j = int(rng.choice([0, 6, 12, -6])), int(rng.integers(-2, 3))
        elif rng.random() < .7:
            k = 2 * (k // 2)
        theta = 2 * (k * np.pi / 12 + j * py / 2)
        dim = int(rng.integers(2, 4))
        axis = AXES[rng.integers(len(AXES))]
        n = np.array(axis) / np.linalg.norm(axis) if dim == 3 else np.array([0, 0, 1.])
        # stay inside the field: decided from an independent calculation, never from the result
        R = expm(-1j * theta * np.tensordot(n, L1, 1))
        if not known(pr, R) or (S is not None and not known(pr, expm(-1j * theta * np.tensordot(n, S, 1)))):
            continue
        n_ok += 1
        inv = bool(rng.integers(2)) and dim == 3
        with ck.session(f'rotation/{n_ok}') as s:
            ax = None if dim == 2 else [np.array(axis), list(axis), np.array(axis, float) * 1.7][rng.integers(3)]
            a = theta / (2 * np.pi)
            g = rotation(a, **({} if ax is None else dict(axis=ax)), **(dict(inversion=inv) if dim == 3 else {}), **kw)
            s.ev('rotation', dim=dim, axis=list(axis), k=k, j=j, inv=inv, res=G.rec(g, pr), **rec)
            if S is not None:
                U = spin_rotation(theta * n, kw['spin'])
                s.ev('spinrot', axis=list(axis) if dim == 3 else [0, 0, 1], k=k, j=j, res=pr.cmat(U), **rec)
    for i in range(ck.scale(60, 600)):
        rec, kw, S = U_or_spin()
        dim = int(rng.integers(1, 4))
        axis = AXES[rng.integers(len(AXES))][:dim] if dim > 1 else (int(rng.choice([-1, 2])),)
        if not any(axis):
            continue
        n = np.array(axis) / np.linalg.norm(axis)
        if dim == 1 and S is not None:
            continue
        n3 = np.append(n, 0) if dim == 2 else n
        if not known(pr, np.eye(dim) - 2 * np.outer(n, n)) or (S is not None and not known(pr, expm(-1j * np.pi * np.tensordot(n3, S, 1)))):
            continue
        with ck.session(f'mirror/{i}') as s:
            g = mirror([np.array(axis), list(axis)][rng.integers(2)], **kw)
            s.ev('mirror', axis=list(axis), res=G.rec(g, pr), **rec)
    for i in range(ck.scale(40, 300)):
        dim = int(rng.integers(1, 4))
        with ck.session(f'onsite/{i}') as s:
            rec, kw, S = U_or_spin()
            if S is None or known(pr, expm(-1j * np.pi * S[1])):
                s.ev('timerev', dim=dim, res=G.rec(time_reversal(dim, **kw), pr), **rec)
            U = G.rand_unitary(rng, int(rng.integers(1, 4))) if rng.integers(2) else None
            for op, f in (('parthole', particle_hole), ('chiral', chiral), ('inversion', inversion)):
                s.ev(op, dim=dim, U=[] if U is None else pr.cmat(U), spin='none',
                     res=G.rec(f(dim) if U is None else f(dim, U), pr))
            m = int(rng.integers(0, 4))
            s.ev('identity', dim=dim, n=m, res=G.rec(identity(dim) if m == 0 else identity(dim, m), pr))
    with ck.session('matrices') as s:
        for two in range(0, 7):
            for inc in (False, True):
                A = spin_matrices(two / 2, inc)
                s.ev('spinmat', twoS=two, inc0=inc, S=[pr.cmat(x) for x in A])
                if two % 2 == 0:
                    A = spin_matrices(two // 2, include_0=inc)
                    s.ev('spinmat', twoS=two, inc0=inc, S=[pr.cmat(x) for x in A])
        for two in range(1, ck.scale(16, 40)):
            A = np.array(spin_matrices(two / 2))
            d = two + 1
            up = [np.diag(x, 1) for x in A]
            mask = ~(np.eye(d, k=1) + np.eye(d, k=-1)).astype(bool)
            ok = (A.shape == (3, d, d) and np.allclose(A[0][mask], 0) and np.allclose(A[1][mask], 0) and
                  np.allclose(A[2], np.diag(np.diag(A[2]))) and np.allclose(up[0].imag, 0) and np.allclose(up[1].real, 0)
                  and np.all(up[0].real > 0) and np.all(up[1].imag < 0) and np.allclose(A, A.conj().transpose(0, 2, 1)))
            s.ev('spinbig', twoS=two, structure=bool(ok), sx2=[G.near(4 * x.real ** 2) for x in up[0]],
                 sy2=[G.near(4 * x.imag ** 2) for x in up[1]], sz2=[G.near(2 * x.real) for x in np.diag(A[2])])
        for kw, d, l in (({}, 3, 1), (dict(d=3, l=1), 3, 1), (dict(d=3, l=2), 3, 2), (dict(d=2), 2, 1), (dict(l=2), 3, 2)):
            s.ev('lmat', d=d, l=l, L=[pr.cmat(x) for x in L_matrices(**kw)])
    combos = []
    for tr, ph, gens in itertools.product((True, False), repeat=3):
        for two in (None, 0, 1, 2, 3):
            if ph and two is not None:
                continue
            combos.append(('square', square, 2, 'any', dict(), tr, ph, gens, two))
            combos.append(('cubic', cubic, 3, 'any', dict(), tr, ph, gens, two))
            for dim in (2, 3):
                for sy in (True, False):
                    combos.append(('hexagonal', hexagonal, dim, 'sympy' if sy else 'float', dict(dim=dim, sympy_R=sy), tr, ph, gens, two))
    if not ck.thorough:
        big = [c for c in combos if c[0] != 'hexagonal' or c[-1] is not None]
        combos = [combos[i] for i in rng.permutation(len(combos))[:45]] + [c for c in combos if c[-2] and c[-1] in (1, 2)]
    for name, f, dim, sy, kw, tr, ph, gens, two in combos:
        with ck.session(f'{name}/{dim}/{sy}/{tr}/{ph}/{gens}/{two}') as s:
            args = dict(kw, tr=tr, ph=ph, generators=gens)
            rec = dict(spin='none', twoS=0, S=[])
            if two is not None:
                args['spin'] = two / 2
                rec = dict(spin='std', twoS=two, S=[])
                if two == 2 and not tr and rng.integers(2):
                    args['spin'] = L1
                    rec = dict(spin='mat', twoS=two, S=[pr.cmat(x) for x in L1])
            res = list(f(**args))
            s.ev('pointgroup', name=name, dim=dim, tr=tr, ph=ph, gens=gens, sympy=sy, kinds=[kind(g) for g in res],
                 res=[G.rec(g, pr) for g in res], **rec)
    U = np.eye(2)
    bad = [lambda: rotation(1/4, U=U, spin=1/2), lambda: mirror([1, 0], U=U, spin=1/2), lambda: time_reversal(2, U=U, spin=1/2),
           lambda: square(spin=1/2), lambda: cubic(spin=1), lambda: hexagonal(spin=1/2), lambda: hexagonal(dim=4),
           lambda: hexagonal(dim=3, spin=1/2, ph=True), lambda: rotation(1/4, [1, 0]), lambda: rotation(1/3, [1, 0, 0, 1]),
           lambda: L_matrices(d=4), lambda: L_matrices(d=2, l=2), lambda: L_matrices(d=3, l=3), lambda: spin_matrices(0.3)]
    with ck.session('invalid') as s:
        s.ev('rejects', raised=[call(b)[1] is not None for b in bad])
    return ck.finish()


if __name__ == '__main__':
    main(body)
