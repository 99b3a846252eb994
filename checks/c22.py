"""C22: families of pairing terms."""
import numpy as np, sympy, warnings
from vh.check import Check, main, call
from vh import finder as F, family as FM
from checks.c20 import symmetries, NAMES
import qsymm


def project(family, names, A, keys, n, V):
    mem, vecs, extra = [], [], False
    keys = [tuple(k) for k in keys]
    for m in family:
        d, x = FM.member(m, names, A, 'poly', lambda D: V.conj().T @ D @ V.conj())
        extra |= x
        arr = np.zeros((len(keys), 2 * n, 2 * n), complex)
        for k, v in d.items():
            if np.max(np.abs(v)) < 1e-9:
                continue
            if k not in keys or v.shape != (n, n):
                extra = True
                continue
            i = keys.index(k)
            arr[i, :n, n:] = v
            arr[i, n:, :n] = v.conj().T
        mx = np.max(np.abs(arr), initial=0)
        if not np.isfinite(mx):
            extra, mx = True, 0
            arr[:] = 0
        if mx > 0:
            arr = arr / mx
        mem.append(dict(re=np.round(arr.real * FM.XS).astype(int).tolist(), im=np.round(arr.imag * FM.XS).astype(int).tolist()))
        vecs.append(np.concatenate([arr.real.ravel(), arr.imag.ravel()]))
    return mem, FM.rank(vecs), bool(extra)


PH = [1, -1, 1j, -1j] * 3 + [np.exp(2j * np.pi / 3), np.exp(-2j * np.pi / 3), np.exp(1j * np.pi / 3), np.exp(-1j * np.pi / 3), np.exp(1j * np.pi / 4)]


def body():
    ck = Check('C22', 'C22', 'JC22', profile='q23')
    pr = ck.proj()

    def build(rng, i):
        while True:
            name = list(F.GROUPS)[rng.integers(len(F.GROUPS))]
            dim, gens, A0 = F.GROUPS[name]
            n = int(rng.integers(1, 4))
            deg = int(rng.integers(0, {0: 2, 1: 5, 2: 4, 3: 4}[dim]))
            if len(F.mons(dim, deg)) * 2 * n * n > ck.scale(90, 150):
                continue
            syms = symmetries(rng, name, dim, gens, A0, n)
            recs = [s.rec(pr) for s in syms]
            if None not in recs:
                break
        default = all(s.kind == 'pg' for s in syms) and rng.random() < .4
        phases = []
        for s, r in zip(syms, recs):
            if s.kind == 'pg':
                p = 1 if default else PH[rng.integers(len(PH))]
                if r['we'] and p not in PH[:4]:
                    p = PH[rng.integers(4)]
                p = complex(p)
                r['ps'] = 1 if p in PH[:4] else 2000
                r['pc'], r['psn'] = int(np.round(p.real * r['ps'])), int(np.round(p.imag * r['ps']))
                r['zph'] = pr.cplx(p)
            else:
                p = int(rng.integers(-1, 3)) if rng.random() < .7 else 0
                r['ps'] = r['pc'] = 1
                r['psn'], r['zph'], r['ph'], r['phz'] = 0, [1, 1], p, p * s.lam % ck.field.p
            phases.append(p)
        A = A0 * [1, 1, 2.5][rng.integers(3)]
        std = np.allclose(A, np.eye(dim))
        V = F.rand_W(rng, n) if rng.random() < .3 else np.eye(n)
        power = deg if rng.random() < .5 else sorted({int(x) for x in rng.integers(0, deg + 1, rng.integers(1, 3))})
        degs = list(range(deg + 1)) if isinstance(power, int) else list(power)
        all_powers = None
        if std and rng.random() < .3:
            all_powers = [int(rng.integers(0, deg + 1)) if rng.random() < .5 else
                          sorted({int(x) for x in rng.integers(0, deg + 1, rng.integers(1, 3))})
                          for _ in range(dim + rng.integers(0, 2))]
        okp = (lambda k: True) if all_powers is None else (
            lambda k: all(e <= p if isinstance(p, int) else e in p for e, p in zip(k, all_powers)))
        names = NAMES[rng.integers(len(NAMES))] if rng.random() < .4 else NAMES[0]
        mom = list(names) if rng.integers(2) else [sympy.Symbol(x) for x in names]
        kw = dict(momenta=mom)
        if names is NAMES[0] and rng.random() < .6:
            kw = {}
        if not default or rng.random() < .3:
            kw['phases'] = phases if rng.random() < .6 else np.array(phases)
        square = 1 if rng.random() < .6 else -1
        if square == -1 or rng.random() < .5:
            kw['ph_square'] = square
        pretty = bool(rng.random() < .4) and np.allclose(V, np.eye(n))
        kw.update(prettify=pretty, sparse_linalg=bool(rng.random() < .3))
        if all_powers is not None:
            kw['all_powers'] = list(all_powers)
        kinds = ['float'] + (['int'] if std else []) + (['sympy'] if std else [])
        fam = None
        with ck.session(f'pairing/{name}/{n}/{deg}/{i}') as s:
            k = kinds[rng.integers(len(kinds))]
            lib = [g.lib(A, V, k) for g in syms]
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                if rng.random() < .25:      # the same objects again
                    qsymm.hamiltonian_generator.continuum_pairing(lib, dim, power, **kw)
                fam = qsymm.hamiltonian_generator.continuum_pairing(lib, dim, power, **kw)
            keys = F.mons(dim, max(degs)) if dim else [()]
            M = FM.function_space(keys, 'poly', dim, 2 * n)
            vars_ = [[q + 1, a + 1, b + 1] for q, m in enumerate(keys) if sum(m) in degs and okp(m)
                     for a in range(2 * n) for b in range(2 * n) if (a < n) != (b < n)]
            mem, rk, extra = project(fam, list(names[:dim]), A, keys, n, V)
            s.ev('pairing', M=M, syms=recs, vars=vars_, mem=mem, xs=FM.XS, rank=rk, extra=extra, square=square,
                 momenta=all(m.shape == (n, n) for m in fam), complete=True, how=f'{power} {kw}')
        if fam is not None and i % 4 == 0:
            with ck.session(f'pairing-momenta/{i}') as s:
                s.ev('momenta', got=[[str(x) for x in m.momenta] for m in fam], want=list(names[:dim]))
        if i % 40 == 0:
            with ck.session(f'square/{i}') as s:
                sq = [0, 2, 1j, -2, None][rng.integers(5)]
                _, err = call(qsymm.hamiltonian_generator.continuum_pairing, lib, dim, power, ph_square=sq)
                s.ev('reject', raised=err is not None and 'ValueError' in err, sq=str(sq))

    ck.parallel(build, ck.scale(280, 2600))
    return ck.finish()


if __name__ == '__main__':
    main(body)
