"""C16: discrete symmetry finding misses nothing; loop design model replayed in the library."""
import json, re, tempfile
import numpy as np
from vh.check import Check, main
from vh import finder as F
from checks.c15 import make, library, event, symmetrized, Case

I2 = np.eye(2, dtype=int)
LOOP = {
    'square': ('square', [(F.C4, False, False), (F.MX, False, False)]),
    'c4xT': ('square', [(F.C4, False, False), (I2, True, False)]),
    'rectxT': ('square', [(F.MX, False, False), (-I2, False, False), (I2, True, False)]),
    'line': ('line', [(-np.eye(1, dtype=int), False, False), (np.eye(1, dtype=int), True, False), (np.eye(1, dtype=int), True, True)]),
    'c6': ('hex', [(F.H6, False, False)]),
    's3': ('hex', [(F.H6 @ F.H6, False, False), (F.HM, False, False)]),
    'magc4': ('square', [(F.C4, True, False), (F.MX, False, True)]),
}


def loop_cases(ck, name):
    group, gens = LOOP[name]
    dim = F.GROUPS[group][0]
    els = F.intgroup(gens, dim)
    key = lambda b: F.G(*b, np.eye(1)).base()
    ident = key((np.eye(dim, dtype=int), False, False))
    els.sort(key=lambda b: key(b) != ident)
    ix = {key(b): i + 1 for i, b in enumerate(els)}
    mul = lambda x, y: (x[0] @ y[0], x[1] ^ y[1], x[2] ^ y[2])
    table = [[ix[key(mul(x, y))] for y in els] for x in els]
    with tempfile.NamedTemporaryFile('w', suffix='.json') as tf:
        json.dump(dict(T=table), tf)
        tf.flush()
        out = ck.model('FinderLoop', {}, ['Sound', 'NoneExcluded', 'Progress', 'Complete'], label=f'candidate loop on {name}', env=dict(TABLE_FILE=tf.name))
    cases = []
    for S, C in re.findall(r'<<\s*"CASE",\s*\{([\d, \n]*)\},\s*\{([\d, \n]*)\}\s*>>', out):
        cases.append(tuple([els[int(i) - 1] for i in X.split(',')] for X in (S, C)))
    return group, dim, cases


def body():
    ck = Check('C16', 'C16', 'JC16')
    rng = ck.rng
    # general models against the exact decision
    for n in range(ck.scale(90, 1200)):
        c = make(rng, maxN=int(rng.integers(1, 5 if not ck.thorough else 6)), big=ck.scale(32, 64))
        with ck.session(f'{c.name}/{c.mode}/{c.kind}/{n}') as s:
            for _ in range(1 + (n % 4 == 0)):     # several presentations of the same problem
                event(s, c, library(c, rng), rng, tests=True)
                c.cand = [c.cand[i] for i in rng.permutation(len(c.cand))]
    # every case of the loop model is a set of true symmetries and a set of candidates
    for name in LOOP:
        group, dim, cases = loop_cases(ck, name)
        assert len(cases) >= 100, (name, len(cases))
        for i in rng.permutation(len(cases))[:ck.scale(30, 600)]:
            S, C = cases[i]
            mode = ['poly', 'hop'][rng.integers(2)]
            f, hops = None, F.rand_hops(rng, dim)
            if rng.random() < .6:
                f = symmetrized(rng, mode, dim, 2, 1 + int(rng.integers(2)), 3, [F.G(*b, np.eye(2)) for b in S], hops=hops)
            if f is None:
                # direct sum over the orbit of a model of size one
                f0 = F.rand_fam(rng, mode, dim, 1, 1, 3 if mode == 'poly' else 1, 3, sparse=.2, hops=hops)
                orb = []
                for b in S:
                    x = f0.applied(F.G(*b, np.eye(1)))
                    if not any(x.same(y) for y in orb):
                        orb.append(x)
                f = orb[0]
                for x in orb[1:]:
                    f = f.dsum(x)
            if not any(f.t) or f.N > 8:
                continue
            c = Case()
            c.name, c.dim, c.mode, c.kind, c.f, c.cand_none, c.A0 = group, dim, mode, f'loop-{name}', f, False, F.GROUPS[group][2]
            c.cand = C
            keys = {F.G(*b, np.eye(1)).base() for b in S}
            c.known = [b for b in C if F.G(*b, np.eye(1)).base() in keys]
            c.group = F.intgroup(C, dim)
            with ck.session(f'loop/{name}/{i}') as s:
                event(s, c, library(c, rng), rng, tests=True)
    return ck.finish()


if __name__ == '__main__':
    main(body)
