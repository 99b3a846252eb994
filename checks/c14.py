"""C14: operands are never modified, results of the listed operations are independent."""
import copy, hashlib, re, warnings, collections.abc as abc
import numpy as np, sympy, scipy.sparse as sp
import tinyarray as ta
import qsymm
from vh.check import Check, main, call
from vh import models as M, groups as G
from qsymm import Model, BlochModel, PointGroupElement, ContinuousGroupGenerator
from qsymm import groups as qg, linalg as ql, hamiltonian_generator as hg, symmetry_finder as sf, kwant_linalg_lll as lll
from qsymm.model import BlochCoeff


def _d(x):
    """structure that determines the observable value of an object"""
    if isinstance(x, Model):
        return ('model', type(x).__name__, sorted((_s(_d(k)), _s(_d(v))) for k, v in x.data.items()), str(x.shape), str(x.format),
                sorted(_s(_d(k)) for k in x.keep), [str(m) for m in x.momenta])
    if isinstance(x, PointGroupElement):
        return ('pge', _d(x.R), x.conjugate, x.antisymmetry, _d(x.U), x._strict_eq)
    if isinstance(x, ContinuousGroupGenerator):
        return ('cgg', _d(x.R), _d(x.U))
    if isinstance(x, BlochCoeff):
        return ('bc', _d(x[0]), str(x[1]))
    if isinstance(x, np.ndarray):
        if x.dtype == object:
            return ('oarr', x.shape, [_d(y) for y in x.ravel()])
        return ('arr', str(x.dtype), x.shape, x.tobytes().hex())
    if sp.issparse(x):
        c = x.tocoo()
        order = np.lexsort((c.col, c.row))
        return ('sparse', x.format, x.shape, c.row[order].tolist(), c.col[order].tolist(), np.asarray(c.data)[order].tobytes().hex())
    if isinstance(x, (ta.ndarray_int, ta.ndarray_float, ta.ndarray_complex)):
        return ('ta', type(x).__name__, repr(x))
    if isinstance(x, abc.Mapping):
        return ('map', type(x).__name__, sorted((_s(_d(k)), _s(_d(v))) for k, v in x.items()))
    if isinstance(x, (set, frozenset)):
        return ('set', sorted(_s(_d(y)) for y in x))
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, [_d(y) for y in x])
    if callable(x) and not isinstance(x, sympy.Basic):
        return ('callable',)
    return (type(x).__name__, repr(x))


def _s(t):
    return repr(t)


def dig(x):
    return int(hashlib.sha256(_s(_d(x)).encode()).hexdigest()[:7], 16)


a, b, kx, ky = (sympy.Symbol(v) for v in ('a', 'b', 'k_x', 'k_y'))
C4 = np.array([[0, -1], [1, 0]])
SX, SY, SZ = (np.array(m, complex) for m in ([[0, 1], [1, 0]], [[0, -1j], [1j, 0]], [[1, 0], [0, -1]]))
G1 = PointGroupElement(C4, False, False, SX)
G2 = PointGroupElement(C4, True, True, SY)
G0 = PointGroupElement(np.eye(2, dtype=int), False, False, None)
G0a = PointGroupElement(np.eye(2, dtype=int), False, True, None)
UNARY = {
    'copy': lambda x: x.copy(), 'copycopy': lambda x: copy.copy(x), 'neg': lambda x: -x, 'addzero': lambda x: x + 0, 'raddzero': lambda x: 0 + x,
    'sum': lambda x: sum([x]), 'sub0': lambda x: x - 0, 'subs': lambda x: x.subs(a, 2), 'subsnone': lambda x: x.subs(sympy.Symbol('zz'), 3), 'subsempty': lambda x: x.subs({}),
    'subsk': lambda x: x.subs(kx, ky) if False else x.subs(kx, sympy.Integer(0)), 'rot': lambda x: x.rotate_momenta(C4), 'rotid': lambda x: x.rotate_momenta(np.eye(2, dtype=int)),
    'apply': lambda x: G1.apply(x), 'applyanti': lambda x: G2.apply(x), 'applyid': lambda x: G0.apply(x), 'applyas': lambda x: G0a.apply(x),
}
BINARY = {'add': lambda x, y: x + y, 'sub': lambda x, y: x - y}
SHARE1 = {
    'conj': lambda x: x.conj(), 'T': lambda x: x.T(), 'reshape': lambda x: x.reshape((2, 2)), 'toarray': lambda x: x.toarray(), 'tocsr': lambda x: x.tocsr(), 'scale': lambda x: x * 1,
    'div': lambda x: x / 1, 'symbol': lambda x: x * a, 'around': lambda x: x.around(6), 'cast': lambda x: type(x)(x) if type(x) is BlochModel else Model(x.data, momenta=x.momenta),
    'transform': lambda x: x.transform_symbolic(lambda k: k) if type(x) is Model else x, 'matscale': lambda x: x @ np.eye(2), 'rmatscale': lambda x: np.eye(2) @ x,
    'eliminate': lambda x: (x.copy().eliminate_zeros() or x.copy()) if hasattr(x, 'eliminate_zeros') else x.copy(),
}
SHARE2 = {'matmul': lambda x, y: x @ y}
QUERY = [lambda x: x == x, lambda x: x != 0, lambda x: x.allclose(x), lambda x: bool(x.data), lambda x: x.tosympy(), lambda x: x.lambdify(), lambda x: repr(x), lambda x: str(x), lambda x: x.toarray(),
         lambda x: x[a], lambda x: x.keys(), lambda x: hash(1), lambda x: x.zeros_like(), lambda x: x.evalf({a: 1, b: 1, kx: 0, ky: 0}) if type(x) is Model else 0, lambda x: x.norm() if hasattr(x, 'norm') else 0]


def mutate(x, rng):
    """modify a model in place"""
    r = rng.integers(4)
    keys = list(x.data)
    if not keys or r == 0:
        x[a * b * 3 if type(x) is Model else BlochCoeff(np.array([.25, .5]), a * b)] = _like(x)
        x.keep.add(a)
        return
    for k in keys:
        v = x.data[k]
        if sp.issparse(v):
            v.data *= 3
        elif isinstance(v, np.ndarray) and v.ndim:
            if r == 1:
                v[0, 0] = 77
            else:
                v *= 3
        else:
            x.data[k] = v * 3
    if r == 3:
        del x.data[keys[0]]


def _like(x):
    if issubclass(x.format, sp.spmatrix):
        return x.format(np.ones((2, 2), complex))
    return np.ones((2, 2), complex)


def start(kind, rng):
    f = {'dense': lambda v: np.array(v, complex), 'csr': lambda v: sp.csr_matrix(v, dtype=complex), 'csc': lambda v: sp.csc_matrix(v, dtype=complex), 'real': lambda v: np.array(np.real(v), float)}
    bl = kind.startswith('bloch')
    fmt = kind.replace('bloch-', '')
    out = []
    for _ in range(2):
        ks = [1, a, a * b, kx, kx * ky, ky ** 2 * a, sympy.Symbol('e', positive=True) ** (sympy.I * kx)] if not bl else [1, a, a * b, M.E_SYM ** (sympy.I * kx), b * M.E_SYM ** (sympy.I * (kx - ky)), M.E_SYM ** (-sympy.I * ky)]
        d = {ks[i]: f[fmt](M.rmat(rng, (2, 2)) + np.eye(2)) for i in rng.choice(len(ks), 3, replace=False)}
        out.append((BlochModel if bl else Model)(d, momenta=['k_x', 'k_y']))
    return out


def ssplit(out):
    for m in re.finditer(r'<<\s*"W",\s*(<<.*?>>)\s*>>\s*(?=<<\s*"W"|$|\n\w)', out, re.S):
        yield m.group(1)


def words(ck, K, unary, binary, share):
    S = lambda xs: '{' + ', '.join('"%s"' % x for x in sorted(xs)) + '}'
    out = ck.model('Alias', dict(K=K, Unary=S(unary), Binary=S(binary), Share=S(share), N0=2), ['Independent', 'Framed'], label=f'Alias words of length {K}', workers=1)
    ws = []
    for chunk in re.split(r'<<\s*"W",', out)[1:]:
        w = re.findall(r'<<\s*"(\w+)",\s*(\d+),\s*(\d+)\s*>>', chunk)
        ws.append([(o, int(i), int(j)) for o, i, j in w][:K])
    return ws


def replay(ck, s, rng, kind, word):
    objs = start(kind, rng)
    digs = lambda: [dig(o) for o in objs]
    s.ev('init', dig=digs())
    ALL = {**UNARY, **BINARY, **SHARE1, **SHARE2}
    for op, i, j in word:
        if op == 'mutate':
            mutate(objs[i - 1], rng)
            s.ev('mutate', i=i, dig=digs())
            continue
        x, y = objs[i - 1], objs[j - 1]
        f = ALL[op]
        two = op in BINARY or op in SHARE2
        if two and (x.format is not y.format or x.momenta != y.momenta):
            break
        if (op.startswith('rot') or op.startswith('apply')) and len(x.momenta) != 2:
            break
        if op == 'symbol' and x.keep:
            break
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            objs.append(f(x, y) if two else f(x))
        s.ev('op', name=op, i=i, j=j, share=op in SHARE1 or op in SHARE2, dig=digs())
    # queries, then every object is modified in turn
    x = objs[-1]
    q = QUERY[rng.integers(len(QUERY))]
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        call(q, x)
    for i in rng.permutation(len(objs)):
        mutate(objs[i], rng)
        s.ev('mutate', i=int(i) + 1, dig=digs())


def framed(s, name, f, *args, **kw):
    """call with frame condition on all arguments"""
    B = [dig(x) for x in args] + [dig(kw[k]) for k in sorted(kw)]
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        res = f(*args, **kw)
    s.ev('call', name=name, before=B, after=[dig(x) for x in args] + [dig(kw[k]) for k in sorted(kw)])
    return res


def body():
    ck = Check('C14', 'C14', 'JC14')
    rng = ck.rng
    kinds = ['dense', 'csr', 'csc', 'real', 'bloch-dense', 'bloch-csr']
    ws = words(ck, 2, UNARY.keys() | SHARE1.keys(), BINARY.keys() | SHARE2.keys(), SHARE1.keys() | SHARE2.keys())
    ck.rnd.shuffle(ws)
    few = ws[:ck.scale(700, len(ws))]
    for n, w in enumerate(few):
        kind = kinds[n % len(kinds)]
        with ck.session('word/%s/%s' % (kind, '-'.join('%s.%d.%d' % t for t in w))) as s:
            replay(ck, s, rng, kind, w)
    if ck.thorough:
        ws = words(ck, 3, ['copy', 'neg', 'addzero', 'subs', 'subsnone', 'rot', 'applyid', 'conj', 'cast', 'toarray'], ['add', 'sub'], SHARE1.keys())
        ck.rnd.shuffle(ws)
        for n, w in enumerate(ws[:6000]):
            kind = kinds[n % len(kinds)]
            with ck.session('word3/%s/%s' % (kind, '-'.join('%s.%d.%d' % t for t in w))) as s:
                replay(ck, s, rng, kind, w)
    # repeated calls after modification of the first result
    for n in range(ck.scale(60, 400)):
        kind = kinds[n % len(kinds)]
        with ck.session(f'repeat/{kind}/{n}') as s:
            x, y = start(kind, rng)
            for op, f in UNARY.items():
                r1 = f(x); d1 = dig(r1); mutate(r1, rng); s.ev('repeat', name=op, first=d1, second=dig(f(x)))
            for op, f in BINARY.items():
                r1 = f(x, y); d1 = dig(r1); mutate(r1, rng); s.ev('repeat', name=op, first=d1, second=dig(f(x, y)))
    # constructors and algorithms
    for rep in range(ck.scale(6, 40)):
        with ck.session(f'calls/{rep}') as s:
            calls(ck, s, rng)
    return ck.finish()


def calls(ck, s, rng):
    F = lambda name, f, *args, **kw: framed(s, name, f, *args, **kw)
    # constructors
    d = {a: np.array(SX), kx * ky: np.array(SZ), 1: np.eye(2)}
    keep, loc, mom = [a, kx], {'M': sympy.Matrix([[1, 2], [2, 3]]), 'q': kx + 1}, ['k_x', 'k_y']
    m = F('Model', Model, d, momenta=mom, keep=keep)
    m = F('Model', Model, d, momenta=mom)
    ds = {'a': np.array(SX), 'k_x': sp.csr_matrix(SZ)}
    call(F, 'Model', Model, ds, momenta=mom)
    dsp = {'a': sp.csr_matrix(SX), 'k_x': sp.csr_matrix(SZ)}
    F('Model', Model, dsp, momenta=mom, normalize=bool(rng.integers(2)))
    F('Model', Model, 'M * q + a*k_y*sigma_x', locals=loc, momenta=mom)
    db = {BlochCoeff(np.array([1., 0]), a): np.array(SX), BlochCoeff(np.array([0, 1.]), a): np.array(SZ)}
    bm = F('BlochModel', BlochModel, db, momenta=mom)
    F('BlochModel', BlochModel, {a: np.array(SX), 'e**(I*k_x)': np.array(SZ)} if False else {a: np.array(SX)}, momenta=mom)
    F('BlochModel', BlochModel, bm.tomodel())
    F('tomodel', bm.tomodel)
    F('sympify', qsymm.sympify, 'k_x * M', locals=loc)
    F('subs', m.subs, {kx: 2, a: b})
    F('subs', m.subs, [(kx, 2), (a, b)])
    F('lambdify', m.lambdify)
    F('rotate', m.rotate_momenta, np.array(C4, float))
    F('mul', lambda x, y: x @ y, m, np.array(SX)); F('mul', lambda x, y: y @ x, m, np.array(SX)); F('add', lambda x, y: x + y, m, np.array(SX)) if False else None
    F('allclose', m.allclose, m.copy())
    F('evalf', m.evalf, {a: 1., kx: 2, ky: 3})
    # elements
    U = np.array(SX); R = np.array(C4)
    g = F('PointGroupElement', PointGroupElement, R, False, False, U)
    h = F('PointGroupElement', PointGroupElement, np.array(C4, float), True, False, np.array(SY), _strict_eq=True)
    F('mul', lambda x, y: x * y, g, h); F('inv', lambda x: x.inv(), h); F('pow', lambda x: x ** -3, g); F('cmp', lambda x, y: (x == y, x < y, hash(x), x != y), g, h)
    F('apply', lambda x, y: x.apply(y), g, m); F('apply', lambda x, y: x.apply(y), h, bm)
    c = ContinuousGroupGenerator(np.array([[0, -1j], [1j, 0]]), np.array(SZ))
    F('apply', lambda x, y: x.apply(y), c, m)
    F('pretty', lambda x: [qg.pretty_print_pge(x, full=f, latex=l) for f in (0, 1) for l in (0, 1)], g); F('pretty', lambda x: [qg.pretty_print_cgg(x, latex=l) for l in (0, 1)], c)
    gens = [g, h, PointGroupElement(-np.eye(2), False, True, np.eye(2))]
    gens = gens[:rng.integers(1, 4)]
    gs = set(PointGroupElement(x.R, x.conjugate, x.antisymmetry, None) for x in gens)
    grp = F('generate_group', qg.generate_group, gs)
    F('generate_group', qg.generate_group, gens) if rng.integers(2) else F('generate_group', qg.generate_group, set(gens))
    if len(grp) <= 16:
        F('generate_subgroups', qg.generate_subgroups, grp)
    F('set_multiply', qg.set_multiply, grp, grp)
    spin = [np.array(x) for x in qg.spin_matrices(.5)]
    for f in (qg.square, qg.cubic, lambda **k: qg.hexagonal(dim=2, **k), lambda **k: qg.hexagonal(dim=3, sympy_R=False, **k)):
        F('pointgroup', f, spin=spin, tr=True, ph=False, generators=True)
    F('rotation', qg.rotation, 1/4, np.array([0, 0, 1]), spin=spin); F('rotation', qg.rotation, 1/3, [1, 1, 1], U=np.array(SX)); F('mirror', qg.mirror, np.array([1, 0]), U=np.array(SX)); F('mirror', qg.mirror, [1, 0, 0], spin=spin)
    F('time_reversal', qg.time_reversal, 2, spin=spin); F('spin_rotation', qg.spin_rotation, np.array([.3, .2, .1]), np.array(spin))
    perm, no, ons = {'A': 'B', 'B': 'A'}, {'A': 1, 'B': 2}, {'A': np.array([[1j]]), 'B': np.array(SX)}
    no = {'A': 2, 'B': 2}; ons = {'A': np.array(SZ), 'B': np.array(SX)}
    F('symmetry_from_permutation', qg.symmetry_from_permutation, np.array(C4), perm, no, ons)
    # finder
    H = [Model('k_x*sigma_x + k_y*sigma_y + a*sigma_z', momenta=mom), Model('(k_x**2+k_y**2)*eye(2)+a*sigma_z', momenta=mom), Model({kx: np.kron(SX, np.eye(2)), ky: np.kron(SY, np.eye(2))}, momenta=mom)][rng.integers(3)]
    cand = qg.square(tr=False, ph=bool(rng.integers(2)), generators=False)
    cl = sorted(cand)
    gl = bool(rng.integers(2))
    F('symmetries', qsymm.symmetries, H, cl if rng.integers(2) else set(cl), generators=gl, continuous_rotations=bool(rng.integers(2)), prettify=bool(rng.integers(2)), sparse_linalg=False)
    Ps = qsymm.discrete_symmetries(H, {qg.identity(2)})[1]
    F('discrete_symmetries', qsymm.discrete_symmetries, H, set(cl[:6]), Ps=Ps, generators=gl); F('discrete_symmetries', qsymm.discrete_symmetries, H, set(cl[:6]))
    F('conserved_quantities', qsymm.conserved_quantities, Ps, prettify=True); F('continuous_symmetries', qsymm.continuous_symmetries, H, Ps)
    F('bravais_point_group', qsymm.bravais_point_group, np.array([[1, 0.], [0, 1]]), tr=True); F('bravais_point_group', qsymm.bravais_point_group, [[1, 0.], [.5, np.sqrt(3)/2]], generators=True)
    # families
    syms = [PointGroupElement(C4, False, False, np.diag([1, 1j])), qsymm.time_reversal(2, np.eye(2))]
    syms = syms[:rng.integers(1, 3)]
    fam = F('continuum_hamiltonian', qsymm.continuum_hamiltonian, syms, 2, 2, prettify=bool(rng.integers(2)))
    F('continuum_hamiltonian', qsymm.continuum_hamiltonian, [ContinuousGroupGenerator(np.array([[0, -1j], [1j, 0]]), np.array(SZ) / 2)] + syms[:1], 2, 2)
    ap = [[0, 1], [0, 2]]
    F('continuum_hamiltonian', qsymm.continuum_hamiltonian, syms, 2, 2, all_powers=ap, momenta=['k_x', 'k_y'])
    F('continuum_variables', hg.continuum_variables, 2, 3, all_powers=ap)
    for f, pre in ((qsymm.continuum_hamiltonian, (syms, 2, 2)), (hg.continuum_variables, (2, 2)), (qsymm.continuum_pairing, (syms[:1], 2, 1))):
        F(f.__name__, f, *pre, all_powers=[1, 2]); F(f.__name__, f, *pre, all_powers=[1, [0, 2], 3]); F(f.__name__, f, *pre, momenta=[kx, ky] if f is not qsymm.continuum_pairing else [kx, ky, sympy.Symbol('k_z')])
    F('continuum_pairing', qsymm.continuum_pairing, [PointGroupElement(C4, False, False, np.diag([1, 1j]))], 2, 1, phases=np.array([1.]) if rng.integers(2) else [1j])
    fam2 = fam + [fam[0] * 2] if fam else fam
    if len(fam) > 1:
        F('remove_duplicates', hg.remove_duplicates, fam2); F('subtract_family', hg.subtract_family, fam, fam[:1], prettify=bool(rng.integers(2))); F('make_basis_pretty', hg.make_basis_pretty, fam)
        F('check_symmetry', hg.check_symmetry, fam, syms); F('hamiltonian_from_family', hg.hamiltonian_from_family, fam, coeffs=[1.] * len(fam)); F('hamiltonian_from_family', hg.hamiltonian_from_family, fam)
        F('constrain_family', hg.constrain_family, syms, fam); F('round_family', hg.round_family, fam); F('family_to_vectors', ql.family_to_vectors, fam); F('symmetrize_monomial', hg.symmetrize_monomial, fam[0], syms)
        F('symmetrize_monomial', hg.symmetrize_monomial, fam[-1], set(syms)); F('constrain_family', hg.constrain_family, syms, fam, sparse_linalg=False)
        F('check_symmetry', hg.check_symmetry, fam, syms, num_digits=4)
    hv = [('A', 'A', np.array([1, 0])), ('A', 'B', np.array([0.5, .5]))] if rng.integers(2) else [('A', 'B', [1, 0]), ('A', 'A', [0, 1])]
    nrb = [('A', 1), ('B', 1)]
    nrd = __import__('collections').OrderedDict(nrb)
    bs = [PointGroupElement(-np.eye(2), False, False, np.eye(2)), qsymm.time_reversal(2, np.eye(2))]
    for nr in (nrb, nrd, tuple(nrb)):
        F('bloch_family', qsymm.bloch_family, hv, bs, nr, onsites=bool(rng.integers(2)), bloch_model=bool(rng.integers(2)))
    F('bloch_family', qsymm.bloch_family, [('A', 'A', np.array([1, 0])), ('A', 'A', np.array([0, 1]))], [PointGroupElement(C4, U=np.eye(1)), qsymm.time_reversal(2, np.eye(1))], {'A': 1}, hopping_vectors_symmetrized=False) if False else None
    # linear algebra
    A = M.rmat(rng, (4, 3)); A[:, 2] = A[:, 0]
    F('nullspace', ql.nullspace, A); F('nullspace', ql.nullspace, sp.csr_matrix(A), sparse=False); F('nullspace', ql.nullspace, A, return_complement=True); F('rref', ql.rref, A.copy(), return_S=True); F('rref', ql.rref, A.real.copy())
    F('sparse_basis', ql.sparse_basis, A.copy()); F('allclose', ql.allclose, A, A.copy()); F('allclose', ql.allclose, sp.csr_matrix(A), A.copy()); F('prop_to_id', ql.prop_to_id, np.eye(3)); F('mtm', ql.mtm, SX.copy(), np.array([SX, SZ]), SX.copy())
    F('simult_diag', ql.simult_diag, np.array([np.kron(SX, np.eye(2)), np.kron(np.eye(2), SZ)])); F('solve', ql.solve_mat_eqn, np.array([SX, SZ])); F('solve', ql.solve_mat_eqn, np.array([SX, SZ]), HR=np.array([SX, SZ]), hermitian=True, traceless=True)
    F('solve', ql.solve_mat_eqn, [sp.csr_matrix(SX), sp.csr_matrix(SZ)], sparse=True) if False else None
    F('commutator', ql.commutator, SX.copy(), SY.copy()); F('split_list', ql.split_list, [0., 0, 1, 1, 1])
    B = np.array([[1., 0, 0], [3, 1, 0], [2, 2, 1]]) if rng.integers(2) else np.array([[1, 0], [5, 1]], float)
    F('lll', lll.lll, B.copy()); F('cvp', lll.cvp, np.array([.3] * len(B)), B.copy(), n=4); F('cvp', lll.cvp, np.array([.3] * len(B)), B.copy(), n=2, group_by_length=True); F('voronoi', lll.voronoi, B.copy()); F('gs', lll.gs, B.copy()); F('is_c_reduced', lll.is_c_reduced, B.copy(), 1.34)
    F('sun', sf.symmetry_adapted_sun, np.array(spin)); F('separate', sf.separate_lie_algebra, [np.array(x) for x in spin])


if __name__ == '__main__':
    main(body)
