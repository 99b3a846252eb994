"""C04: generate_subgroups against the enumeration of the specification."""
import json, tempfile
import numpy as np, sympy
from vh.check import Check, main
from vh import groups as G
from qsymm.groups import (PointGroupElement, generate_group, generate_subgroups, time_reversal, particle_hole, chiral,
                          rotation, mirror, square, cubic, hexagonal, inversion)


def key(r):
    return repr((r['R'], r['c'], r['a']))


def small_groups(limit):
    """multiplication tables (identity first) of permutation groups up to an order, one per list of invariants"""
    def cyc(*cs):
        n = max(max(c) for c in cs) + 1 if cs else 1
        p = list(range(10))
        for c in cs:
            for a, b in zip(c, c[1:] + c[:1]):
                p[a] = b
        return tuple(p)
    gens = [[cyc()]]
    gens += [[cyc(tuple(range(n)))] for n in range(2, 10)]
    gens += [[cyc((0, 1)), cyc((2, 3))], [cyc((0, 1)), cyc((2, 3)), cyc((4, 5))], [cyc((0, 1)), cyc((2, 3)), cyc((4, 5)), cyc((6, 7))],
             [cyc((0, 1, 2, 3)), cyc((4, 5))], [cyc((0, 1, 2, 3)), cyc((4, 5)), cyc((6, 7))], [cyc((0, 1, 2, 3)), cyc((4, 5, 6, 7))],
             [cyc((0, 1, 2)), cyc((3, 4, 5))], [cyc((0, 1, 2)), cyc((0, 1))], [cyc((0, 1, 2, 3)), cyc((0, 2))], [cyc((0, 1, 2, 3, 4)), cyc((1, 4), (2, 3))],
             [cyc((0, 1, 2)), cyc((0, 1)), cyc((3, 4))], [cyc((0, 1, 2)), cyc((0, 1), (2, 3))], [cyc((0, 1, 2, 3, 4, 5, 6)), cyc((1, 6), (2, 5), (3, 4))],
             [cyc((0, 1, 2, 3), (4, 5, 6, 7)), cyc((0, 4, 2, 6), (1, 7, 3, 5))], [cyc((0, 1, 2, 3)), cyc((0, 2)), cyc((4, 5))],
             [cyc((0, 1, 2)), cyc((3, 4, 5, 6), (1, 2))]]
    out = []
    for g in gens:
        els = [cyc()]
        for x in els:
            for y in g:
                z = tuple(x[y[i]] for i in range(10))
                if z not in els:
                    els.append(z)
        if len(els) <= limit:
            out.append([[els.index(tuple(x[y[i]] for i in range(10))) + 1 for y in els] for x in els])
    return out


def body():
    ck = Check('C04', 'C04', 'JC04')
    rng = ck.rng
    E2, E3 = np.eye(2), np.eye(3)
    named = []
    for n in (1, 2, 3, 4, 6, 8, 12):
        named.append((f'C{n}', 'q23', [rotation(1 / n)]))
        named.append((f'D{n}', 'q23', [rotation(1 / n), mirror([1, 0])]))
    named += [('D4xT', 'q', [rotation(1 / 4), mirror([1, 0]), time_reversal(2)]),
              ('C4T', 'q', [PointGroupElement(np.array([[0, -1], [1, 0]]), True)]),
              ('S3TP', 'q23', [rotation(1 / 3), mirror([0, 1]), time_reversal(2), particle_hole(2)]),
              ('C2xTxP', 'q', [rotation(1 / 2), time_reversal(2), particle_hole(2)]),
              ('1D', 'q', [inversion(1), time_reversal(1), particle_hole(1)]),
              ('T12', 'q', [rotation(1 / 3, [1, 1, 1]), rotation(1 / 2, [0, 0, 1])]),
              ('O24', 'q', [rotation(1 / 3, [1, 1, 1]), rotation(1 / 4, [0, 0, 1])]),
              ('Td24', 'q', [rotation(1 / 3, [1, 1, 1]), rotation(1 / 4, [0, 0, 1], inversion=True)]),
              ('Th24', 'q', [rotation(1 / 3, [1, 1, 1]), rotation(1 / 2, [0, 0, 1]), inversion(3)]),
              ('D2h', 'q', [rotation(1 / 2, [0, 0, 1]), rotation(1 / 2, [1, 0, 0]), inversion(3)]),
              ('C6h', 'q23', [rotation(1 / 6, [0, 0, 1]), inversion(3)]),
              ('hexsym', 'q23', list(hexagonal(ph=False, tr=False, generators=True))),
              ('hexsymT', 'q23', list(hexagonal(ph=False, tr=True, generators=True))),
              ('A5', 'q235', [PointGroupElement(G.ICOSA[0]), PointGroupElement(G.PERM3)] if ck.thorough else [PointGroupElement(G.PERM3)]),
              ('Oh48', 'q', [rotation(1 / 3, [1, 1, 1]), rotation(1 / 4, [0, 0, 1]), inversion(3)] if ck.thorough else [inversion(3)]),
              ('hex3', 'q23', [rotation(1 / 6, [0, 0, 1]), mirror([1, 0, 0]), inversion(3)]),
              ('trivial', 'q', [PointGroupElement(np.eye(2))])]
    # subgroups that cyclic subgroups intersect in more than the identity: quaternion and dicyclic groups
    qi = np.array([[0, -1, 0, 0], [1, 0, 0, 0], [0, 0, 0, -1], [0, 0, 1, 0]])
    qj = np.array([[0, 0, -1, 0], [0, 0, 0, 1], [1, 0, 0, 0], [0, -1, 0, 0]])
    B = lambda a, b: np.block([[a, np.zeros((2, 2))], [np.zeros((2, 2)), b]])
    q = [PointGroupElement(qi.astype(int)), PointGroupElement(qj.astype(int))]
    dic = [PointGroupElement(B(G.C3, np.eye(2))), PointGroupElement(B(G.MX, G.C4))]
    named += [('Q8', 'q', q), ('Q8xT', 'q', q + [PointGroupElement(np.eye(4, dtype=int), True)]),
              ('Q8T', 'q', [PointGroupElement(qi.astype(int), True), q[1]]),
              ('Dic3', 'q23', dic), ('Dic3xP', 'q23', dic + [PointGroupElement(np.eye(4), True, True)]),
              ('C4xC4', 'q', [PointGroupElement(B(G.C4, np.eye(2)).astype(int)), PointGroupElement(B(np.eye(2), G.C4).astype(int))])]
    for rep in range(ck.scale(40, 300)):
        pool = list(G.POOLS)[rng.integers(len(G.POOLS))]
        gens = [PointGroupElement(G.rand_R(rng, pool), bool(rng.random() < .3), bool(rng.random() < .3))
                for _ in range(rng.integers(1, 4))]
        named.append((f'rand-{pool}-{rep}', G.PROFILE[pool], gens))
    # design model: the enumeration is complete for every group of small order
    tabs = small_groups(ck.scale(8, 16))
    with tempfile.NamedTemporaryFile('w', suffix='.json') as tf:
        json.dump(dict(T=tabs), tf)
        tf.flush()
        ck.model('SubgroupAlg', {}, ['Sound', 'Complete'], properties=['Ends'], label=f'subgroup enumeration on {len(tabs)} groups', env=dict(TABLE_FILE=tf.name))
    for name, prof, gens in named:
        pr = ck.proj(prof)
        group = generate_group(gens)
        if len(group) > (60 if ck.thorough else 24) and not name in ('Oh48', 'A5', 'hex3'):
            continue
        with ck.session(name) as s:
            glist = list(group)
            perm = rng.permutation(len(glist))
            glist = [glist[i] for i in perm]
            recs = [G.rec(g, pr) for g in glist]
            idx = {key(r): i + 1 for i, r in enumerate(recs)}
            arg = set(glist)
            subs = generate_subgroups(arg)
            s.ev('subgroups', objs=recs, same=bool(len(arg) == len(glist) and all(g in arg for g in glist)),
                 subs=[dict(members=[idx.get(key(G.rec(g, pr)), 0) for g in k],
                            gens=[idx.get(key(G.rec(g, pr)), 0) for g in v]) for k, v in subs.items()])
    return ck.finish()


if __name__ == '__main__':
    main(body)
