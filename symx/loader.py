"""
Loads the current source of /repo/x7/geom (and the pure-Python x7.lib.iters, x7.testing) for symbolic execution.

Every module is re-read from disk, its AST is rewritten so that arithmetic stays exact over the reals
(division, modulo, power, float literals), and it is executed with shims in place of the libraries whose native code
would need concrete numbers (math, numpy constructors, scipy interpolation, random, PIL drawing).
"""
import ast
import builtins
import importlib.abc
import importlib.util
import math as _math
import os
import re
import sys
import types
from fractions import Fraction
from . import terms as T
from .terms import Sym, SymBool, Unsupported, lift, mk_bool

REPO = os.environ.get('SYMX_REPO', '/repo')
LOADED = {}         # module name -> (path, source)


# ------------------------------------------------------------------------------------------------------ AST rewriting

class Rewriter(ast.NodeTransformer):
    def __init__(self):
        self.consts = []

    def _call(self, node, name, *args):
        return ast.copy_location(ast.Call(func=ast.Name(id=name, ctx=ast.Load()), args=list(args), keywords=[]), node)

    OPS = {ast.Div: '__sx_div__', ast.Mod: '__sx_mod__', ast.Pow: '__sx_pow__'}
    IOPS = {ast.Div: '__sx_idiv__', ast.Mod: '__sx_mod__', ast.Pow: '__sx_pow__'}

    def visit_BinOp(self, node):
        self.generic_visit(node)
        n = self.OPS.get(type(node.op))
        return self._call(node, n, node.left, node.right) if n else node

    def visit_AugAssign(self, node):
        self.generic_visit(node)
        n = self.IOPS.get(type(node.op))
        if not n:
            return node
        load = ast.fix_missing_locations(_as_load(node.target))
        return ast.copy_location(ast.Assign(targets=[node.target], value=self._call(node, n, load, node.value)), node)

    def visit_Constant(self, node):
        if type(node.value) is float:
            self.consts.append(node.value)
            return ast.copy_location(
                ast.Subscript(value=ast.Name(id='__sx_lit__', ctx=ast.Load()),
                              slice=ast.Constant(len(self.consts) - 1), ctx=ast.Load()), node)
        return node

    def visit_JoinedStr(self, node):
        for v in node.values:
            if isinstance(v, ast.FormattedValue):
                v.value = self.visit(v.value)
        return node

    def visit_Call(self, node):
        self.generic_visit(node)
        if isinstance(node.func, ast.Name) and node.func.id == 'type' and len(node.args) == 1 and not node.keywords:
            node.func = ast.copy_location(ast.Name(id='__sx_type__', ctx=ast.Load()), node.func)
        return node


def _as_load(t):
    if isinstance(t, ast.Name):
        return ast.copy_location(ast.Name(id=t.id, ctx=ast.Load()), t)
    if isinstance(t, ast.Attribute):
        return ast.copy_location(ast.Attribute(value=t.value, attr=t.attr, ctx=ast.Load()), t)
    if isinstance(t, ast.Subscript):
        return ast.copy_location(ast.Subscript(value=t.value, slice=t.slice, ctx=ast.Load()), t)
    return t


def compile_source(src, path):
    tree = ast.parse(src, path)
    rw = Rewriter()
    tree = ast.fix_missing_locations(rw.visit(tree))
    return compile(tree, path, 'exec', dont_inherit=True), [_lit(c) for c in rw.consts]


def _lit(c):
    if c != c or c in (_math.inf, -_math.inf):
        return c
    return lift(c)


# ------------------------------------------------------------------------------------------------- rewritten operators

def _np():
    return sys.modules.get('numpy')


def _is_arr(x):
    np = _np()
    return np is not None and isinstance(x, np.ndarray)


def _obj(x):
    """numeric ndarray -> object array of lifted numbers"""
    np = _np()
    if _is_arr(x):
        if x.dtype.kind in 'ifuO':
            r = np.empty(x.shape, dtype=object)
            rf, xf = r.reshape(-1), x.reshape(-1)
            for i in range(xf.shape[0]):
                v = xf[i]
                l = lift(v) if not isinstance(v, Sym) else v
                rf[i] = v if l is None else l
            return rf.reshape(x.shape)
        return x
    return x


def sx_div(a, b):
    if _is_arr(a) or _is_arr(b):
        a, b = _obj(a), _obj(b)
        if not _is_arr(a):
            a = lift(a)
        if not _is_arr(b):
            b = lift(b)
        return a / b
    ta, tb = type(a), type(b)
    if ta in (int, float, bool) and tb in (int, float, bool):
        if ta is float and not _math.isfinite(a) or tb is float and not _math.isfinite(b):
            return a / b
        la = lift(a)
        return la / lift(b)
    return a / b


def sx_idiv(a, b):
    if _is_arr(a):
        r = sx_div(a, b)
        if a.dtype == object:
            a[...] = r
            return a
        return r
    return sx_div(a, b)


def sx_pow(a, b):
    if type(a) is Sym or type(b) is Sym:
        if type(a) is not Sym and not _is_arr(a):
            a = lift(a)
        return a ** b
    if type(a) in (int, float, bool) and type(b) in (int, float):
        if type(a) is int and type(b) is int and b >= 0:
            return a ** b
        return lift(a) ** b
    return a ** b


_SPEC = re.compile(r'%(\([^)]*\))?([-+ #0]*)(\*|\d+)?(\.(\*|\d+))?[hlL]?([a-zA-Z%])')


def sx_mod(a, b):
    if isinstance(a, str):
        items = b if isinstance(b, tuple) else (b,)
        if isinstance(b, dict) or not any(isinstance(x, Sym) for x in items):
            return a % b
        it = iter(range(len(items)))
        items = list(items)

        def rep(m):
            if m.group(6) == '%':
                return m.group(0)
            try:
                i = next(it)
            except StopIteration:
                return m.group(0)
            x = items[i]
            if isinstance(x, Sym) and m.group(6) not in 'srsa':
                if x.is_const():
                    c = x.cval()
                    items[i] = int(c) if m.group(6) in 'dixXoc' else float(c)
                    return m.group(0)
                items[i] = str(x)
                return '%s'
            return m.group(0)
        fmt = _SPEC.sub(rep, a)
        return fmt % tuple(items)
    if type(a) is float or type(b) is float:
        if (type(a) is not float or _math.isfinite(a)) and (type(b) is not float or _math.isfinite(b)):
            la, lb = lift(a), lift(b)
            if la is not None and lb is not None:
                return la % lb
    return a % b


def sx_type(x):
    t = type(x)
    if t is Sym:
        return sx_int if x.kind == 'i' else sx_float
    if t is float:
        return sx_float
    if t is int:
        return sx_int
    if t is SymBool:
        return bool
    return t


# --------------------------------------------------------------------------------------------------- builtin type shims

class _FloatMeta(type):
    def __instancecheck__(cls, o):
        return isinstance(o, float) or (type(o) is Sym and o.kind == 'r')

    def __subclasscheck__(cls, c):
        return isinstance(c, type) and (c is sx_float or type.__subclasscheck__(float, c))

    def __call__(cls, *a, **k):
        if len(a) == 1:
            x = a[0]
            if isinstance(x, (Sym, int, Fraction)) and not isinstance(x, bool):
                x = lift(x)
                return Sym(x.num, x.den, 'r')
            if isinstance(x, SymBool):
                return lift(float(bool(x)))
            np = _np()
            if np is not None and isinstance(x, np.ndarray) and x.size == 1:
                return cls(x.reshape(-1)[0])
            if isinstance(x, str):
                m = re.fullmatch(r'\s*(-?)__S\((\d+)\)\s*', x)
                if m:
                    v = T.token_value(int(m.group(2)))
                    return -v if m.group(1) else v
            f = float(x)
            return lift(f) if _math.isfinite(f) else f
        return float(*a, **k)

    def __eq__(cls, o):
        return o is cls or o is float

    def __hash__(cls):
        return hash(float)


class sx_float(metaclass=_FloatMeta):
    fromhex = float.fromhex

    def __class_getitem__(cls, i):
        return cls


class _IntMeta(type):
    def __instancecheck__(cls, o):
        return isinstance(o, int) or (type(o) is Sym and o.kind == 'i')

    def __subclasscheck__(cls, c):
        return isinstance(c, type) and (c is sx_int or type.__subclasscheck__(int, c))

    def __call__(cls, *a, **k):
        if len(a) == 1 and not k:
            x = a[0]
            if isinstance(x, Sym):
                r = T.sym_trunc(x)
                return int(r.cval()) if r.is_const() else r
            if isinstance(x, SymBool):
                return int(bool(x))
            if isinstance(x, Fraction):
                return int(x)
        return int(*a, **k)

    def __eq__(cls, o):
        return o is cls or o is int

    def __hash__(cls):
        return hash(int)


class sx_int(metaclass=_IntMeta):
    pass


def sx_round(x, n=None):
    if type(x) is float and _math.isfinite(x):
        x = lift(x)
    if isinstance(x, Sym):
        r = T.sym_round(x, n)
        if n is None and r.is_const():
            return int(r.cval())
        return r
    return builtins.round(x) if n is None else builtins.round(x, n)


def sx_divmod(a, b):
    return lift(a) // lift(b), sx_mod(lift(a), lift(b))


def sx_pow_b(a, b, m=None):
    return sx_pow(a, b) if m is None else pow(a, b, m)


def sx_sum(it, start=0):
    t = start
    for x in it:
        t = t + x
    return t


def make_minmax(op):
    real = getattr(builtins, op)

    def f(*a, **k):
        if T.ST.merge and not k:
            xs = list(a[0]) if len(a) == 1 else list(a)
            if len(xs) > 1 and any(isinstance(x, Sym) for x in xs):
                ls = [None if isinstance(x, bool) else lift(x) for x in xs]
                if all(l is not None for l in ls):
                    return T.sym_minmax(op, ls)
            return real(xs)
        return real(*a, **k)
    f.__name__ = op
    return f


# ---------------------------------------------------------------------------------------------------------- math shim

def _num(x):
    np = _np()
    if np is not None and isinstance(x, np.ndarray) and x.size == 1:
        x = x.reshape(-1)[0]
    r = lift(x)
    if r is None:
        raise TypeError('must be real number, not %s' % type(x).__name__)
    return r


def _fin(x):
    return not (isinstance(x, float) and not _math.isfinite(x))


def make_math():
    m = types.ModuleType('math')
    for k in dir(_math):
        if not k.startswith('__'):
            f = getattr(_math, k)
            if callable(f):
                def wrap(*a, _f=f, _k=k, **kw):
                    if any(isinstance(x, Sym) and not x.is_const() for x in a):
                        raise Unsupported('math.%s of a symbolic value' % _k)
                    a = [float(x) if isinstance(x, Sym) else x for x in a]
                    r = _f(*a, **kw)
                    return lift(r) if type(r) is float and _math.isfinite(r) else r
                f = wrap
            setattr(m, k, f)
    m.pi = T.sym_pi()
    m.tau = 2 * T.sym_pi()
    m.e = lift(_math.e)
    m.sqrt = lambda x: T.sym_sqrt(_num(x))
    m.hypot = lambda *a: T.sym_hypot(*[_num(x) for x in a])
    m.dist = lambda p, q: T.sym_hypot(*[_num(x) - _num(y) for x, y in zip(p, q)])
    m.cos = lambda x: T.sym_cossin(_num(x))[0]
    m.sin = lambda x: T.sym_cossin(_num(x))[1]
    m.tan = lambda x: T.sym_tan(_num(x))
    m.atan2 = lambda y, x: T.sym_atan2(_num(y), _num(x))
    m.atan = lambda x: T.sym_atan2(_num(x), 1)
    m.acos = lambda x: T.sym_acos(_num(x))
    m.asin = lambda x: T.sym_asin(_num(x))
    m.radians = lambda x: T.sym_radians(_num(x))
    m.degrees = lambda x: T.sym_degrees(_num(x))

    def _floor(x):
        r = T.sym_floor(_num(x))
        return int(r.cval()) if r.is_const() else r

    def _ceil(x):
        r = -T.sym_floor(-_num(x))
        return int(r.cval()) if r.is_const() else r
    m.floor = _floor
    m.ceil = _ceil
    m.trunc = lambda x: sx_int(_num(x))

    def fabs(x):
        r = abs(_num(x))
        return Sym(r.num, r.den, 'r')
    m.fabs = fabs

    def fmod(a, b):
        a, b = _num(a), _num(b)
        q = T.sym_trunc(a / b)
        return a - q * b
    m.fmod = fmod

    def modf(x):
        x = _num(x)
        t = T.sym_trunc(x)
        return x - t, Sym(t.num, t.den, 'r')
    m.modf = modf

    def remainder(a, b):
        a, b = _num(a), _num(b)
        return a - T.sym_round(a / b) * b
    m.remainder = remainder

    def copysign(a, b):
        a = fabs(a)
        return a if _num(b) >= 0 else -a
    m.copysign = copysign

    def isclose(a, b, *, rel_tol=Fraction(1, 10**9), abs_tol=0):
        if not _fin(a) or not _fin(b):
            return a == b
        a, b = _num(a), _num(b)
        d = abs(a - b)
        return bool(d <= lift(abs_tol)) or bool(d <= lift(rel_tol) * max(abs(a), abs(b)))
    m.isclose = isclose
    m.isfinite = lambda x: _fin(x)
    m.isinf = lambda x: isinstance(x, float) and _math.isinf(x)
    m.isnan = lambda x: isinstance(x, float) and _math.isnan(x)
    m.pow = lambda a, b: sx_pow(_num(a), b if type(b) is int else _num(b))
    m.fsum = lambda xs: sx_sum([_num(x) for x in xs], lift(0))

    def prod(xs, *, start=1):
        for x in xs:
            start = start * x
        return start
    m.prod = prod
    m.sumprod = lambda a, b: sx_sum([x * y for x, y in zip(a, b)], 0)
    return m


# --------------------------------------------------------------------------------------------------------- numpy shim

def make_numpy():
    import numpy as np

    def is_float_dtype(dt):
        return dt is None or dt is sx_float or dt is float or dt is object or \
            (isinstance(dt, (np.dtype, type, str)) and dt is not sx_int and dt not in (int, bool, 'int', 'bool')
             and np.dtype(dt).kind in 'fO')

    def real_dtype(dt):
        if dt is sx_int:
            return int
        if dt is sx_float:
            return float
        return dt

    def flat_has_float(x):
        # does the nested data contain anything but plain ints/bools?
        if isinstance(x, np.ndarray):
            if x.dtype == object:
                return True
            return x.dtype.kind == 'f'
        if isinstance(x, (list, tuple)):
            return any(flat_has_float(v) for v in x)
        return not isinstance(x, (int, bool, np.integer))

    def norm(x):
        """nested sequences with generators/points flattened to plain nested lists"""
        if isinstance(x, np.ndarray):
            return x
        if isinstance(x, (list, tuple)):
            return [norm(v) for v in x]
        if isinstance(x, (Sym, int, float, str, bool, Fraction, SymBool)) or x is None:
            return x
        if isinstance(x, np.generic):
            return x.item()
        if hasattr(x, '__array__'):
            return np.asarray(x)
        if hasattr(x, '__len__') and hasattr(x, '__getitem__'):
            return [norm(v) for v in x]
        return x

    def array(x, dtype=None, *a, **k):
        k.pop('copy', None)
        k.pop('order', None)
        x = norm(x)
        if is_float_dtype(dtype):
            if dtype is None and not flat_has_float(x):
                # integer (or bool) data stays integer data
                return np.array(x, *a, **k)
            if isinstance(x, np.ndarray):
                if x.dtype.kind in 'USmM':
                    return np.array(x, *a, **k)
                return np.array(_obj(x), dtype=object, *a, **k)
            r = np.array(x, dtype=object, *a, **k)
            return _obj(r)
        dt = real_dtype(dtype)
        kind = np.dtype(dt).kind
        if kind in 'iu':
            r = np.array(x, dtype=object)
            out = np.empty(r.shape, dtype=object)
            o, f = out.reshape(-1), r.reshape(-1)
            for i in range(f.shape[0]):
                o[i] = sx_int(f[i])
            if all(isinstance(v, int) for v in o):
                return np.array(out.tolist(), dtype=dt)
            return o.reshape(r.shape)
        return np.array(x, dtype=dt, *a, **k)

    def full(shape, v, dtype=None):
        r = np.empty(shape, dtype=object)
        r[...] = lift(v) if lift(v) is not None else v
        return r

    def zeros(shape, dtype=None, *a, **k):
        if is_float_dtype(dtype):
            return full(shape, Sym.const(0, 'r'))
        return np.zeros(shape, real_dtype(dtype))

    def ones(shape, dtype=None, *a, **k):
        if is_float_dtype(dtype):
            return full(shape, Sym.const(1, 'r'))
        return np.ones(shape, real_dtype(dtype))

    def eye(n, m=None, k=0, dtype=None):
        if not is_float_dtype(dtype):
            return np.eye(n, m, k, real_dtype(dtype))
        return _obj(np.eye(n, m, k))

    def diag(v, k=0):
        r = np.diag(np.asarray(v), k)
        return _obj(r) if r.dtype.kind in 'fO' else r

    def linspace(a, b, num=50, endpoint=True, retstep=False, dtype=None, axis=0):
        a, b = lift(a), lift(b)
        num = int(num)
        div = num - 1 if endpoint else num
        step = (b - a) / div if div > 0 else Sym.const(0, 'r')
        out = np.empty((num,), dtype=object)
        for i in range(num):
            out[i] = Sym.const(0, 'r') + a + step * i
        return (out, step) if retstep else out

    def arange(*a, **k):
        a = [lift(x) for x in a]
        if all(x.kind == 'i' for x in a):
            return np.arange(*[int(x) for x in a])
        lo, hi, st = (lift(0), a[0], lift(1)) if len(a) == 1 else (a + [lift(1)])[:3]
        n = -T.sym_floor(-((hi - lo) / st))
        n = int(n)
        out = np.empty((max(n, 0),), dtype=object)
        for i in range(max(n, 0)):
            out[i] = lo + st * i
        return out

    def elementwise(fn):
        def f(*a, **k):
            if any(isinstance(x, (np.ndarray, list, tuple)) for x in a):
                a = [np.asarray(array(x, dtype=float)) if isinstance(x, (np.ndarray, list, tuple)) else x for x in a]
                b = np.broadcast(*a) if len(a) > 1 else a[0]
                shape = b.shape
                out = np.empty(shape, dtype=object)
                bs = np.broadcast_arrays(*[x if isinstance(x, np.ndarray) else full((), x) for x in a])
                of = out.reshape(-1)
                fl = [x.reshape(-1) for x in bs]
                for i in range(of.shape[0]):
                    of[i] = fn(*[y[i] for y in fl])
                return of.reshape(shape)
            return fn(*a, **k)
        return f

    M = make_math()

    def isclose1(a, b, rtol=Fraction(1, 10**5), atol=Fraction(1, 10**8)):
        return bool(abs(_num(a) - _num(b)) <= lift(atol) + lift(rtol) * abs(_num(b)))

    def isclose(a, b, rtol=Fraction(1, 10**5), atol=Fraction(1, 10**8), equal_nan=False):
        a, b = array(a, dtype=float), array(b, dtype=float)
        r = elementwise(lambda x, y: isclose1(x, y, rtol, atol))(a, b)
        return np.array(r, dtype=bool) if isinstance(r, np.ndarray) and r.shape else bool(np.asarray(r).item())

    def allclose(a, b, rtol=Fraction(1, 10**5), atol=Fraction(1, 10**8), equal_nan=False):
        return bool(np.all(isclose(a, b, rtol, atol)))

    def det(m):
        m = array(m, dtype=float)
        n = m.shape[0]
        if n == 1:
            return m[0, 0]
        if n == 2:
            return m[0, 0] * m[1, 1] - m[0, 1] * m[1, 0]
        t = Sym.const(0, 'r')
        for j in range(n):
            if m[0, j].is_const() and not m[0, j].cval():
                continue
            sub = np.delete(np.delete(m, 0, 0), j, 1)
            t = t + (m[0, j] if j % 2 == 0 else -m[0, j]) * det(sub)
        return t

    def inv(m):
        m = array(m, dtype=float)
        n = m.shape[0]
        d = det(m)
        if d == 0:
            raise np.linalg.LinAlgError('Singular matrix')
        out = np.empty((n, n), dtype=object)
        for i in range(n):
            for j in range(n):
                if n == 1:
                    c = Sym.const(1, 'r')
                else:
                    c = det(np.delete(np.delete(m, j, 0), i, 1))
                out[i, j] = (c if (i + j) % 2 == 0 else -c) / d
        return out

    def solve(a, b):
        return np.dot(inv(a), array(b, dtype=float))

    def norm_(x, *a, **k):
        if a or k:
            raise Unsupported('numpy.linalg.norm with options')
        return T.sym_hypot(*list(array(x, dtype=float).reshape(-1)))

    def interp1(x, xp, fp):
        n = len(xp)
        if x <= xp[0]:
            return fp[0]
        for i in range(1, n):
            if x <= xp[i]:
                if x == xp[i]:
                    return fp[i]
                return fp[i - 1] + (fp[i] - fp[i - 1]) * (x - xp[i - 1]) / (xp[i] - xp[i - 1])
        return fp[n - 1]

    def interp(x, xp, fp, left=None, right=None, period=None):
        xp, fp = array(xp, dtype=float), array(fp, dtype=float)
        if left is not None or right is not None or period is not None:
            raise Unsupported('numpy.interp with options')
        if isinstance(x, (list, tuple, np.ndarray)):
            return elementwise(lambda v: interp1(v, xp, fp))(x)
        return interp1(_num(x), xp, fp)

    def wrapf(f):
        def g(*a, **k):
            if 'dtype' in k:
                k['dtype'] = object if is_float_dtype(k['dtype']) else real_dtype(k['dtype'])
            a = [_obj(x) if isinstance(x, np.ndarray) and x.dtype.kind == 'f' else
                 (array(x) if isinstance(x, (list, tuple)) and flat_has_float(x) and
                  not _has_nonnum(x) else x) for x in a]
            return f(*a, **k)
        g.__name__ = getattr(f, '__name__', 'f')
        return g

    def _has_nonnum(x):
        if isinstance(x, (list, tuple)):
            return any(_has_nonnum(v) for v in x)
        if isinstance(x, np.ndarray):
            return True     # list of arrays: leave alone
        return lift(x) is None

    class Linalg(types.ModuleType):
        LinAlgError = np.linalg.LinAlgError

        def __getattr__(self, n):
            raise Unsupported('numpy.linalg.%s' % n)
    linalg = Linalg('numpy.linalg')
    linalg.inv, linalg.det, linalg.solve, linalg.norm = inv, det, solve, norm_

    class NP(types.ModuleType):
        def __getattr__(self, n):
            if n.startswith('__'):
                raise AttributeError(n)
            v = getattr(np, n)
            if isinstance(v, (type, types.ModuleType)) or not callable(v):
                return v
            g = wrapf(v)
            setattr(self, n, g)
            return g

    P = NP('numpy')
    P.__dict__.update(
        array=array, asarray=array, asanyarray=array, ascontiguousarray=array, zeros=zeros, ones=ones, eye=eye,
        empty=zeros, full=full, identity=lambda n, dtype=None: eye(n, dtype=dtype), diag=diag, linspace=linspace,
        arange=arange, isclose=isclose, allclose=allclose, interp=interp, linalg=linalg,
        zeros_like=lambda a, dtype=None: zeros(np.shape(a), dtype), ones_like=lambda a, dtype=None: ones(np.shape(a), dtype),
        empty_like=lambda a, dtype=None: zeros(np.shape(a), dtype),
        pi=M.pi, e=M.e, inf=_math.inf, nan=_math.nan,
        sqrt=elementwise(M.sqrt), hypot=elementwise(M.hypot), cos=elementwise(M.cos), sin=elementwise(M.sin),
        tan=elementwise(M.tan), arctan2=elementwise(M.atan2), arctan=elementwise(M.atan), radians=elementwise(M.radians),
        deg2rad=elementwise(M.radians), degrees=elementwise(M.degrees), rad2deg=elementwise(M.degrees),
        arccos=elementwise(M.acos), arcsin=elementwise(M.asin), square=elementwise(lambda x: x * x),
        absolute=elementwise(abs), abs=elementwise(abs), fabs=elementwise(abs),
        floor=elementwise(M.floor), ceil=elementwise(M.ceil), divide=lambda a, b: sx_div(a, b),
        true_divide=lambda a, b: sx_div(a, b), power=lambda a, b: sx_pow(_obj(a), b),
        float64=lambda x=0: sx_float(x), float32=lambda x=0: sx_float(x), float_=sx_float,
        int64=sx_int, int32=sx_int, isnan=lambda x: False, isfinite=lambda x: True,
        dtype=lambda d, *a, **k: np.dtype(real_dtype(d), *a, **k), round=elementwise(sx_round),
        around=elementwise(sx_round), sign=elementwise(lambda x: (x > 0) - (x < 0)),
        clip=elementwise(lambda x, a, b: min(max(x, a), b)), mean=lambda a, axis=None: _mean(a, axis),
        maximum=elementwise(max), minimum=elementwise(min), fmax=elementwise(max), fmin=elementwise(min),
        rint=elementwise(sx_round), trunc=elementwise(M.trunc), fix=elementwise(M.trunc), isinf=lambda x: False,
        fmod=elementwise(M.fmod), mod=elementwise(lambda a, b: a % b), remainder=elementwise(lambda a, b: a % b),
        exp=elementwise(M.exp), log=elementwise(M.log),
    )

    def _mean(a, axis=None):
        a = array(a, dtype=float)
        n = a.size if axis is None else a.shape[axis]
        return sx_div(np.sum(a, axis=axis), n)
    return P


# --------------------------------------------------------------------------------------------------- other environment

class RGI(object):
    """Model of scipy's RegularGridInterpolator (method='linear'): bilinear in the cell, extrapolating with the outer
    cells when fill_value is None"""

    def __init__(self, points, values, method='linear', bounds_error=True, fill_value=_math.nan, **k):
        np = _np()
        if method != 'linear' or bounds_error or fill_value is not None:
            raise Unsupported('RegularGridInterpolator options')
        self.xs, self.ys = [list(p) for p in points]
        self.v = np.asarray(values)
        if self.v.shape[0] != len(self.xs) or self.v.shape[1] != len(self.ys):
            raise ValueError('There are %d points and %d values on dimension 0' % (len(self.xs), self.v.shape[0]))
        for g in (self.xs, self.ys):
            for a, b in zip(g, g[1:]):
                if not a < b:
                    raise ValueError('The points in dimension 0 must be strictly ascending or descending')

    @staticmethod
    def _cell(g, x):
        n = len(g)
        i = 0
        while i < n - 2 and not x < g[i + 1]:
            i += 1
        return i, sx_div(x - g[i], g[i + 1] - g[i])

    def __call__(self, pts):
        np = _np()
        out = []
        for p in pts:
            i, s = self._cell(self.xs, p[0])
            j, t = self._cell(self.ys, p[1])
            v = self.v
            out.append(v[i, j] * (1 - s) * (1 - t) + v[i + 1, j] * s * (1 - t) + v[i, j + 1] * (1 - s) * t
                       + v[i + 1, j + 1] * s * t)
        r = np.empty((len(out),), dtype=object)
        for k, x in enumerate(out):
            r[k] = x
        return r


class SymPathList(object):
    """Model of PIL.ImagePath.Path: a sequence of (x, y) pairs made from a flat or paired list"""

    def __init__(self, data=()):
        if isinstance(data, SymPathList):
            self.pts = list(data.pts)
            return
        data = list(data)
        if data and not isinstance(data[0], (tuple, list)) and not hasattr(data[0], 'xy'):
            if len(data) % 2:
                raise ValueError('wrong number of coordinates')
            self.pts = [(data[i], data[i + 1]) for i in range(0, len(data), 2)]
        else:
            self.pts = [tuple(p) for p in data]
            for p in self.pts:
                if len(p) != 2:
                    raise ValueError('incorrect coordinate type')

    def __len__(self):
        return len(self.pts)

    def __getitem__(self, i):
        if isinstance(i, slice):
            return SymPathList(self.pts[i])
        return self.pts[i]

    def __iter__(self):
        return iter(self.pts)

    def tolist(self, flat=False):
        return [v for p in self.pts for v in p] if flat else list(self.pts)

    def getbbox(self):
        xs, ys = [p[0] for p in self.pts], [p[1] for p in self.pts]
        mn, mx = get_builtins()['min'], get_builtins()['max']
        return mn(xs), mn(ys), mx(xs), mx(ys)

    def map(self, f):
        self.pts = [tuple(f(*p)) for p in self.pts]

    def transform(self, m):
        a, b, c, d, e, f = m[:6]
        self.pts = [(a * x + b * y + c, d * x + e * y + f) for x, y in self.pts]

    def compact(self, distance=2):
        raise Unsupported('ImagePath.compact')


class Dummy(types.ModuleType):
    """Inert stand-in for user-interface libraries (never called by the code under check)"""

    def __init__(self, name='dummy'):
        types.ModuleType.__init__(self, name)
        self.__path__ = []

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        if n[:1].isupper():
            v = type(n, (), {})
        else:
            v = Dummy(self.__name__ + '.' + n)
        setattr(self, n, v)
        return v

    def __call__(self, *a, **k):
        return None


_HOLD = {}


def shims():
    if not _HOLD:
        import numpy        # noqa
        _HOLD['math'] = make_math()
        _HOLD['numpy'] = make_numpy()
        r = types.ModuleType('random')
        import random as _random

        def fresh(name):
            c = T.ctx()
            if c.random_source is None:
                raise Unsupported('random numbers without a declared random source')
            return c.random_source()
        r.random = lambda: fresh('random')
        r.uniform = lambda a, b: a + (b - a) * fresh('uniform')
        r.Random = _random.Random
        r.seed = lambda *a: None

        def nope(n):
            def f(*a, **k):
                raise Unsupported('random.%s' % n)
            return f
        for n in ('randint', 'choice', 'gauss', 'shuffle', 'sample', 'randrange', 'triangular', 'normalvariate'):
            setattr(r, n, nope(n))
        _HOLD['random'] = r
        sp = types.ModuleType('scipy')
        sp.__path__ = []
        spi = types.ModuleType('scipy.interpolate')
        spi.RegularGridInterpolator = RGI
        sp.interpolate = spi
        _HOLD['scipy'], _HOLD['scipy.interpolate'] = sp, spi
        for n in ('matplotlib', 'matplotlib.pyplot', 'matplotlib.axes', 'matplotlib.artist', 'matplotlib.figure',
                  'matplotlib.backends', 'matplotlib.backends.backend_tkagg', 'matplotlib.animation', 'tkinter'):
            _HOLD[n] = Dummy(n)
        for n in list(_HOLD):
            if '.' in n and n.startswith('matplotlib'):
                p, _, c = n.rpartition('.')
                setattr(_HOLD[p], c, _HOLD[n])
        pil = types.ModuleType('PIL')
        pil.__path__ = []
        for n in ('Image', 'ImageDraw', 'ImageFilter', 'ImageChops', 'ImageEnhance', 'ImageFont', 'ImagePalette', 'ImageColor'):
            try:
                real = importlib.import_module('PIL.' + n)
            except ImportError:
                continue
            setattr(pil, n, real)
            _HOLD['PIL.' + n] = real
        ip = types.ModuleType('PIL.ImagePath')
        ip.Path = SymPathList
        pil.ImagePath = ip
        _HOLD['PIL'], _HOLD['PIL.ImagePath'] = pil, ip
        bz = types.ModuleType('bezier')

        class Curve(object):
            """Stand-in: intersections are supplied by the harness; evaluation is exact"""
            intersector = None

            def __init__(self, nodes, degree=None):
                self.nodes = nodes
                self.degree = degree

            @classmethod
            def from_nodes(cls, nodes, copy=True):
                return cls(nodes, nodes.shape[1] - 1)

            def intersect(self, other, strategy=None, verify=True):
                if Curve.intersector is None:
                    raise Unsupported('bezier.Curve.intersect without a declared model')
                return Curve.intersector(self, other)

            def _eval(self, s):
                n = self.nodes
                u = 1 - s
                w = (u * u * u, 3 * u * u * s, 3 * u * s * s, s * s * s)
                return [sx_sum([w[k] * n[d][k] for k in range(4)], lift(0)) for d in (0, 1)]

            def evaluate(self, s):
                return _HOLD['numpy'].array([[v] for v in self._eval(s)])

            def evaluate_multi(self, ss):
                cols = [self._eval(s) for s in ss]
                np = _np()
                out = np.empty((2, len(cols)), dtype=object)
                for j, c in enumerate(cols):
                    out[0, j], out[1, j] = c
                return out
        bz.Curve = Curve
        _HOLD['bezier'] = bz
    return _HOLD


SHIM_ROOTS = {'math', 'numpy', 'random', 'scipy', 'matplotlib', 'tkinter', 'PIL', 'bezier'}


def sx_import(name, globals=None, locals=None, fromlist=(), level=0):
    if level == 0 and name.split('.')[0] in SHIM_ROOTS:
        sh = shims()
        if name in sh:
            if fromlist:
                return sh[name]
            return sh[name.split('.')[0]]
        if name.split('.')[0] in ('matplotlib', 'tkinter'):
            return Dummy(name)
        if name.split('.')[0] == 'numpy':
            return builtins.__import__(name, globals, locals, fromlist, level)
        raise ImportError('No module named %r (no symbolic model)' % name)
    return builtins.__import__(name, globals, locals, fromlist, level)


BUILTINS = None


def get_builtins():
    global BUILTINS
    if BUILTINS is None:
        b = dict(builtins.__dict__)
        b.update(__import__=sx_import, float=sx_float, int=sx_int, round=sx_round, divmod=sx_divmod, pow=sx_pow_b,
                 min=make_minmax('min'), max=make_minmax('max'),
                 sum=sx_sum,
                 __sx_div__=sx_div, __sx_idiv__=sx_idiv, __sx_mod__=sx_mod, __sx_pow__=sx_pow, __sx_type__=sx_type,
                 __S=T.token_value)
        BUILTINS = b
    return BUILTINS


def exec_instrumented(module, src, path):
    code, lits = compile_source(src, path)
    g = module.__dict__
    g['__builtins__'] = get_builtins()
    g['__sx_lit__'] = lits
    exec(code, g)


class Loader(importlib.abc.Loader):
    def __init__(self, path):
        self.path = path

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        with open(self.path, encoding='utf-8') as f:
            src = f.read()
        LOADED[module.__name__] = self.path
        module.__file__ = self.path
        exec_instrumented(module, src, self.path)

    def get_source(self, name):
        with open(self.path, encoding='utf-8') as f:
            return f.read()


class Finder(importlib.abc.MetaPathFinder):
    def find_spec(self, name, path=None, target=None):
        p = None
        pkg = False
        if name == 'x7.geom' or name.startswith('x7.geom.'):
            base = os.path.join(REPO, *name.split('.'))
            if os.path.isdir(base) and os.path.exists(os.path.join(base, '__init__.py')):
                p, pkg = os.path.join(base, '__init__.py'), True
            elif os.path.exists(base + '.py'):
                p = base + '.py'
        elif name in ('x7.lib.iters', 'x7.testing.extended', 'x7.testing.support'):
            parent, _, last = name.rpartition('.')
            for d in importlib.import_module(parent).__path__:
                q = os.path.join(d, last + '.py')
                if os.path.exists(q):
                    p = q
                    break
        elif name.startswith('checks.'):
            q = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), *name.split('.')) + '.py'
            if os.path.exists(q):
                p = q
        if p is None:
            return None
        spec = importlib.util.spec_from_loader(name, Loader(p), origin=p, is_package=pkg)
        if pkg:
            spec.submodule_search_locations = [os.path.dirname(p)]
        return spec


def install():
    sys.meta_path.insert(0, Finder())
