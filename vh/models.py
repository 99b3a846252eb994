"""Random matrix-valued functions, their construction through the library and
the projection of the library's models to canonical key -> matrix maps."""
import itertools
from fractions import Fraction
import numpy as np, scipy.sparse as sp, scipy.sparse.linalg as sla, sympy
import qsymm
from qsymm import Model, BlochModel
from qsymm.model import BlochCoeff, e as E_SYM

I = sympy.I
_cache = {}


class NotCanonical(Exception):
    pass


def _factor(f, vars_, st):
    """multiply the state (coef, exps, phs) by a sympy factor"""
    if f.is_number:
        st[0] *= complex(f)
        return
    if f.is_Symbol:
        if str(f) == 'e' and f not in vars_:
            st[0] *= np.e
            return
        st[1][vars_.index(f.name)] += 1
        return
    b, x = f.as_base_exp()
    if isinstance(f, sympy.exp):
        b, x = E_SYM, f.args[0]
    if b.is_Symbol and b.name == 'e':
        x = sympy.expand(x)
        rest = x
        for i, v in enumerate(vars_):
            for s in [s for s in x.atoms(sympy.Symbol) if s.name == v]:
                c = x.coeff(s)
                if not c.is_number or abs(complex(c).real) > 1e-12:
                    raise NotCanonical(str(f))
                st[2][i] += complex(c).imag
                rest = rest - c * s
        rest = sympy.expand(rest)
        if not rest.is_number:
            raise NotCanonical(str(f))
        st[0] *= complex(np.exp(complex(rest)))
        return
    if b.is_Symbol and x.is_Number and float(x) == int(x):
        st[1][vars_.index(b.name)] += int(x)
        return
    raise NotCanonical(str(f))


def parse_key(key, vars_):
    """sympy expression -> list of (complex, exps, phs)"""
    ck = (key, tuple(vars_))
    if ck in _cache:
        return _cache[ck]
    x = sympy.sympify(key)
    if not x.is_commutative:
        x = x.subs({s: sympy.Symbol(s.name) for s in x.atoms(sympy.Symbol) if not s.is_commutative})
    if x.atoms(sympy.Function):
        x = x.rewrite(sympy.exp)
    x = sympy.expand(x, power_exp=False)
    out = []
    for term in sympy.Add.make_args(x):
        st = [1 + 0j, [0] * len(vars_), [0.0] * len(vars_)]
        for f in sympy.Mul.make_args(term):
            _factor(f, list(vars_), st)
        out.append((st[0], tuple(st[1]), tuple(st[2])))
    _cache[ck] = out
    return out


def bkey(bc, momenta, vars_):
    hop, coeff = bc
    out = []
    for c, ex, ph in parse_key(coeff, vars_):
        ph = list(ph)
        for k, d in zip(momenta, hop):
            ph[vars_.index(getattr(k, 'name', k))] += float(d)
        out.append((c, ex, tuple(ph)))
    return out


def parts(m, vars_):
    """(coefficient, exponents, phases) of all terms of a model"""
    for key in m.data:
        yield from bkey(key, m.momenta, vars_) if isinstance(m, BlochModel) else parse_key(key, vars_)


def arr(v):
    """dense array of any supported value"""
    if sp.issparse(v):
        return v.toarray()
    if isinstance(v, sla.LinearOperator):
        return v @ np.eye(v.shape[-1], dtype=complex)
    return np.asarray(v)


def fmt(f):
    if f is None:
        return 'none'
    if issubclass(f, sp.spmatrix):
        return 'sparse'
    if issubclass(f, np.ndarray):
        return 'dense'
    if issubclass(f, sla.LinearOperator):
        return 'linop'
    return 'scalar' if issubclass(f, np.complex128) else str(f)


def flat(v, pr):
    z = [pr.cplx(x) for x in np.asarray(v, complex).ravel()]
    return [a for a, _ in z], [b for _, b in z]


def keyj(ex, ph, pr):
    return [[int(x) for x in ex], [pr.real(x) for x in ph]]


def pmodel(m, vars_, pr, checkval=True):
    """Projection of a Model or BlochModel to a trace record."""
    bloch = isinstance(m, BlochModel)
    terms, nf = [], True
    for key, val in m.data.items():
        parts = bkey(key, m.momenta, vars_) if bloch else parse_key(key, vars_)
        if len(parts) != 1 or abs(parts[0][0] - 1) > 1e-9:
            nf = False
        v = arr(val)
        if checkval and tuple(v.shape) != tuple(m.shape):
            raise NotCanonical(f'value of shape {v.shape} in model of shape {m.shape}')
        if checkval and fmt(type(val)) != fmt(m.format) and not (np.ndim(v) == 0 and fmt(m.format) in ('dense', 'scalar')):
            raise NotCanonical(f'value of type {type(val)} in model of format {m.format}')
        for c, ex, ph in parts:
            X, Y = flat(c * v, pr)
            terms.append(keyj(ex, ph, pr) + [X, Y])
    keep = []
    for k in m.keep:
        parts = bkey(k, m.momenta, vars_) if bloch else parse_key(k, vars_)
        keep += [keyj(ex, ph, pr) for _, ex, ph in parts]
    return dict(sh=list(m.shape) if m.shape is not None else [-1], fmt=fmt(m.format), mom=[getattr(k, 'name', str(k)) for k in m.momenta],
                keep=keep, t=terms, nf=nf, bloch=bloch, n=len(m.data))


class Fn:
    """A function as dict {(exps, phs): array}: the harness' own description of an input."""
    def __init__(self, vars_, sh, data=None):
        self.vars, self.sh, self.data = list(vars_), tuple(sh), dict(data or {})

    def record(self, pr, fm, mom, keep=()):
        t = []
        for (ex, ph), v in self.data.items():
            X, Y = flat(v, pr)
            t.append(keyj(ex, ph, pr) + [X, Y])
        return dict(sh=list(self.sh), fmt=fm, mom=list(mom), keep=[keyj(ex, ph, pr) for ex, ph in keep], t=t)


def sym_key(ex, ph, vars_, exact=True):
    k = sympy.Integer(1)
    for n, v in zip(ex, vars_):
        k *= sympy.Symbol(v) ** n
    arg = sum(((sympy.Rational(p) if exact and isinstance(p, Fraction) else sympy.Integer(p) if exact and float(p) == int(p) else sympy.Float(float(p))) * sympy.Symbol(v)
               for p, v in zip(ph, vars_) if p != 0), sympy.Integer(0))
    if arg != 0:
        k = k * E_SYM ** sympy.expand(I * arg)
    return k


def rmat(rng, sh, lim=3, dens=.7):
    a = (rng.integers(-lim, lim + 1, sh) + 1j * rng.integers(-lim, lim + 1, sh)) * (rng.random(sh) < dens)
    return np.asarray(a, complex)


def conv(v, f, rng=None):
    if f == 'sparse':
        return (sp.csr_matrix if rng is None or rng.random() < .6 else sp.csc_matrix)(v, dtype=complex)
    if f == 'linop':
        return sla.aslinearoperator(np.asarray(v, complex))
    if f == 'scalar':
        return complex(v)
    return np.array(v, complex)


# ---- random inputs ------------------------------------------------------------------
def rand_key(rng, nv, nmom=3, deg=2, phase=.35, polyvars=None, phvars=None, neg=.08, half=.3):
    ex, ph = [0] * nv, [0] * nv
    pv = list(range(nv)) if polyvars is None else list(polyvars)
    hv = list(range(nv)) if phvars is None else list(phvars)
    for _ in range(rng.integers(0, deg + 1)):
        if pv:
            ex[pv[rng.integers(len(pv))]] += 1
    pars = [i for i in pv if i >= nmom]
    if pars and rng.random() < neg:
        ex[pars[rng.integers(len(pars))]] -= 1
    if hv and rng.random() < phase:
        ph[hv[rng.integers(len(hv))]] = int(rng.integers(-2, 3))
        if rng.random() < half:
            ph[hv[rng.integers(len(hv))]] = Fraction(int(rng.integers(-3, 4)), 2)
    return tuple(ex), tuple(ph)


def rand_fn(rng, vars_, sh, nterm=4, **kw):
    d = {}
    for _ in range(rng.integers(1, nterm)):
        d[rand_key(rng, len(vars_), **kw)] = rmat(rng, sh)
    return Fn(vars_, sh, d)


def build(fn, fm, mom, vars_=None, cls=sp.csr_matrix, M=None):
    """Model from a description"""
    vars_ = vars_ or fn.vars
    data = {}
    for k, v in fn.data.items():
        data[sym_key(*k, vars_)] = cls(v) if fm == 'sparse' else complex(v) if fm == 'scalar' else np.array(v, complex)
    kw = {}
    if not data:
        kw = dict(shape=fn.sh, format={'sparse': cls, 'scalar': np.complex128, 'dense': np.ndarray}[fm])
    return (M or Model)(data, momenta=list(mom), **kw)
