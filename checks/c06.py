"""C06: names are decoded from the printed text and compared with the element."""
import re
import numpy as np, sympy
from vh.check import Check, main
from vh import groups as G
from qsymm.groups import (PointGroupElement, ContinuousGroupGenerator, rotation, mirror, inversion, pretty_print_pge,
                          pretty_print_cgg, L_matrices, spin_matrices)

NUM = r'[-+]?\d*\.?\d+|[-+]?\d+\.?\d*'


def angle(txt):
    """printed angle -> (num, den) or None, in units of pi"""
    t = txt.replace(' ', '')
    m = re.fullmatch(r'(-?)(\d*)π(?:/(\d+))?', t)
    if m:
        return (-1 if m[1] else 1) * int(m[2] or 1), int(m[3] or 1)
    m = re.fullmatch(r'(-?)\\frac\{(\d*)\\pi\}\{(\d+)\}', t) or re.fullmatch(r'(-?)(\d*)\\pi()', t)
    if m:
        return (-1 if m[1] else 1) * int(m[2] or 1), int(m[3] or 1)
    return None


def axis(txt):
    """printed axis -> integers of scale 100"""
    t = txt.strip()
    if not (t.startswith('[') and t.endswith(']')):
        return None
    try:
        return [round(100 * float(x)) for x in t[1:-1].replace(',', ' ').split()]
    except ValueError:
        return None


def decode(name):
    d = dict(kind='?', c=1000, s=0, axis=[], az='', fr=[])
    t = name.strip().strip('$')
    t = t.replace(r'\left(', '(').replace(r'\right)', ')')
    m = re.fullmatch(r'(.*?)\s*(?:\\mathcal\{([TPC])\}|([TPC]))?', t, re.S)
    rot, d['az'] = m[1].strip(), m[2] or m[3] or ''
    if rot in ('1', 'I'):
        d['kind'] = rot
        return d
    if rot == '' and d['az']:
        d['kind'] = '1'
        return d
    m = re.fullmatch(r'([RMS])\((.*)\)', rot, re.S)
    if not m:
        return d
    k, arg = m[1], m[2]
    if k == 'M':
        a = axis(arg)
        if a is None:
            return d
        d.update(kind='M', axis=a)
        return d
    parts = arg.split(',', 1)
    an = angle(parts[0])
    if an is None:
        return d
    th = np.pi * an[0] / an[1]
    d.update(c=round(1000 * np.cos(th)), s=round(1000 * np.sin(th)), fr=list(an))
    if len(parts) == 2:
        a = axis(parts[1])
        if a is None:
            return d
        d['axis'] = a
    d['kind'] = k
    return d


CNUM = re.compile(r'\(?([-+]?[\d.]+(?:e[-+]?\d+)?)\s*([-+]\s*[\d.]+(?:e[-+]?\d+)?)j\)?')


def cprint(txt, shape):
    v = [complex(float(a), float(b.replace(' ', ''))) for a, b in CNUM.findall(txt)]
    if len(v) != int(np.prod(shape)):
        return [[], []]
    return fixed(np.array(v).reshape(shape))


def fixed(U):
    U = np.asarray(U, complex)
    return [[[round(1000 * x.real) for x in r] for r in U], [[round(1000 * x.imag) for x in r] for r in U]]


def body():
    ck = Check('C06', 'C06', 'JC06')
    rng = ck.rng
    AX = [(1, 0, 0), (0, 1, 0), (0, 0, 1), (1, 1, 0), (1, -1, 0), (0, 1, 1), (0, 1, -1), (1, 0, 1), (-1, 0, 1), (1, 1, 1),
          (-1, 1, 1), (1, -1, 1), (1, 1, -1), (1, 2, 3), (1, -2, 1), (1, 1, -2), (2, -1, -1), (-1, 3, -2), (0, 0, -1), (-1, -1, -1),
          (3, 4, 0), (0, 1, 1.618), (2, 2, 1), (-2, -2, -1), (1, 0, -3)]

    def events(lab, g, tol=None, fr=()):
        fr = list(fr)   # the angle of the rotation in units of pi, if it is a simple fraction
        R = G.Rarr(g)
        dim = len(R)
        Ri = [[round(1000 * x) for x in r] for r in R]
        for latex in (False, True):
            with ck.session(f'{lab}/{"latex" if latex else "text"}') as s:
                name = pretty_print_pge(g, full=False, latex=latex)
                d = decode(name)
                # printed axes are rounded to two decimals
                t = tol or (20 if all(abs(x) in (0, 100) for x in d['axis']) else 45)
                s.ev('name', name=name, dim=dim, R=Ri, c=g.conjugate, a=g.antisymmetry, d=d, fr=fr, tol=t)
                rep = g._repr_latex_() if latex else None
                if latex:
                    s.ev('name', name=rep, dim=dim, R=Ri, c=g.conjugate, a=g.antisymmetry, d=decode(rep), fr=fr, tol=t)
                full = pretty_print_pge(g, full=True, latex=latex) if latex or rng.integers(2) else str(g)
                if latex:
                    m = re.match(r'\$U H\(\\mathbf\{k\}\)(\^\*)? U\^\{-1\} = (-)?H\((-)?R\\mathbf\{k\}\) \\\\R = (.*?)\\\\(U = .*)?\$$', full, re.S)
                else:
                    m = re.match(r'\nU⋅H\(k\)(\*)?⋅U\^-1 = (-)?H\((-)?R⋅k\)\nR = (.*?)\n(U = .*)?$', full, re.S)
                if not m:
                    s.ev('full', name=full, dim=dim, R=Ri, c=g.conjugate, a=g.antisymmetry, d=dict(kind='?', c=0, s=0, axis=[], az='', fr=[]), fr=fr, tol=t)
                else:
                    U = [] if g.U is None else fixed(g.U)
                    up = [] if g.U is None else ((cprint(m[5] or '', g.U.shape)) if not latex else U)
                    s.ev('full', dim=dim, R=Ri, c=g.conjugate, a=g.antisymmetry, d=decode(m[4]), fr=fr, tol=t, star=bool(m[1]),
                         hminus=bool(m[2]), kminus=bool(m[3]), hasU=m[5] is not None, U=U, Uprint=up)

    k = 0
    for rep in range(ck.scale(150, 2500)):
        flags = (bool(rng.integers(2)), bool(rng.integers(2)))
        U = G.rand_unitary(rng, int(rng.integers(1, 4))) if rng.integers(2) else None
        r = rng.integers(9)
        tol = None
        fr = ()
        if r < 3:
            n = int(rng.integers(1, 51))
            fr = (2 * int(rng.integers(-n, n + 1)), n)
            a = fr[0] / n / 2
            ax = np.array(AX[rng.integers(len(AX))], float) if rng.random() < .8 else rng.normal(size=3)
            g = rotation(a, ax, inversion=bool(rng.integers(2)))
        elif r == 3:
            n = int(rng.integers(1, 51))
            fr = (2 * int(rng.integers(-n, n + 1)), n)
            g = rotation(fr[0] / n / 2)
        elif r == 4:
            ax = np.array(AX[rng.integers(len(AX))], float)
            d = int(rng.integers(2, 4))
            ax = ax[:d] if np.any(ax[:d]) else np.ones(d)
            if rng.random() < .2:
                ax = rng.normal(size=d)
            g = mirror(ax)
        elif r == 5:
            g = [inversion(int(rng.integers(1, 4))), PointGroupElement(np.eye(int(rng.integers(1, 4))))][rng.integers(2)]
        else:
            pool = list(G.POOLS)[rng.integers(len(G.POOLS))]
            if pool == 'hexint2':
                pool = 'int2'
            g = PointGroupElement(G.rand_R(rng, pool))
        g = PointGroupElement(g.R, *flags, U)
        k += 1
        events(f'pge/{rep}', g, tol, fr)
    # arbitrary angles: the printed fraction approximates the angle
    for rep in range(ck.scale(15, 200)):
        th = rng.uniform(.02, .48) * rng.choice([-1, 1])
        g = rotation(th) if rng.integers(2) else rotation(th, rng.normal(size=3), inversion=bool(rng.integers(2)))
        events(f'generic/{rep}', g, 60)

    for rep in range(ck.scale(60, 800)):
        dim = [None, 1, 2, 3, 3][rng.integers(5)]
        R = None
        ax = np.zeros(3)
        if dim == 3:
            ax = np.array(AX[rng.integers(len(AX))], float) * rng.choice([.5, 1, 2])
            R = np.tensordot(ax, L_matrices(), 1)
        elif dim == 2:
            R = L_matrices(d=2)[0] * rng.choice([1, -1, .5])
        elif dim == 1:
            R = np.zeros((1, 1))
        if dim in (2, 3) and rng.random() < .15:
            R = R * 0
        L = None
        if rng.random() < .7:
            n = int(rng.integers(1, 4))
            L = G.rand_unitary(rng, n)
            L = (L + L.conj().T) * rng.choice([0, .5, 1, 2])
        hasR = R is not None and not np.allclose(R, 0)
        hasL = L is not None and not np.allclose(L, 0)
        g = ContinuousGroupGenerator(R, L)
        for latex in (False, True):
            with ck.session(f'cgg/{rep}/{latex}') as s:
                t = [pretty_print_cgg(g, latex=latex), g._repr_latex_() if latex else str(g)][rng.integers(2)]
                u = t.replace(r'\left(', '(').replace(r'\right)', ')').replace(r'\phi', 'ϕ').replace('{', '').replace('}', '')
                m = re.search(r'= R\(ϕ,\s*(\[[^\]]*\])\)', u)
                rot = bool(re.search(r'= R\(ϕ', u))
                Lp = []
                if hasL and not latex:
                    Lp = cprint(u.split('L = ', 1)[1] if 'L = ' in u else '', L.shape)
                s.ev('cgg', name=t, dim=0 if dim is None else dim, hasR=hasR, hasL=hasL,
                     commutator=bool(re.search(r'\[\s*H\(.*\),\s*L\s*\\?(right)?\]\s*= 0', u)),
                     rot=rot, axis=[] if not m else (axis(m[1]) or []),
                     G=[] if not hasR else [[round(1000 * x) for x in r] for r in (1j * R).real],
                     printedL=bool('L = ' in u), L=fixed(L) if hasL else [], Lprint=Lp, tol=2,
                     expL=bool(re.search(r'exp\(-i ϕ L\).*exp\(i ϕ L\)|e\^-iϕ L.*e\^iϕ L', u)))
    ck.assumptions += ['names are parsed by regular expressions for the documented grammar']
    return ck.finish()


if __name__ == '__main__':
    main(body)
