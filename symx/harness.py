"""
Harness API.  A harness is a function of one argument h; the same function runs symbolically (SymH, on the instrumented
modules) and concretely (ConcH, on the unmodified package, for counterexample replay and trace validation).
"""
import math
from fractions import Fraction

REGISTRY = []


class Harness(object):
    def __init__(self, fn, **opts):
        self.fn = fn
        self.name = fn.__name__
        self.opts = opts


def harness(**opts):
    """opts: bounds (text), time (s), paths, tier ('quick'|'thorough'), params (list of kwargs dicts)"""
    def deco(fn):
        ps = opts.pop('params', None)
        o = dict(opts)
        o.setdefault('doc', (fn.__doc__ or '').strip())
        h = Harness(fn, **o)
        h.params = ps
        h.module = fn.__module__
        REGISTRY.append(h)
        return fn
    return deco


class AssumeFailed(Exception):
    pass


class Reject(Exception):
    """Concrete replay: inputs missing or not usable"""


class ViolationFound(Exception):
    def __init__(self, label, detail=''):
        Exception.__init__(self, label)
        self.label = label
        self.detail = detail


def is_pointlike(a):
    return hasattr(a, 'xy') and callable(a.xy)


def parts(a):
    """Structured value -> list of components, or None for a leaf"""
    if is_pointlike(a):
        return list(a.xy())
    if isinstance(a, (list, tuple)):
        return list(a)
    if hasattr(a, 'as_6tuple'):
        return list(a.as_6tuple())
    if hasattr(a, 'as_tuple') and hasattr(a, 'xl'):
        return list(a.as_tuple())
    if hasattr(a, 'shape') and hasattr(a, 'tolist'):
        return a.tolist() if a.shape else None
    if hasattr(a, 'tolist') and hasattr(a, 'getbbox'):
        return list(a.tolist())
    return None


def flatten(a, out=None):
    out = [] if out is None else out
    p = parts(a)
    if p is None:
        out.append(a)
    else:
        for x in p:
            flatten(x, out)
    return out


TOL = 1e-7


class ConcH(object):
    """Concrete execution of a harness with given inputs"""
    symbolic = False

    def __init__(self, inputs, choices, tier='quick', params=None):
        self.inputs = inputs
        self.choices = choices
        self.tier = tier
        self.failed = []
        self.obs = []
        self.nrand = 0

    # inputs
    def real(self, name, lo=None, hi=None, nz=False):
        return self._in(name, float)

    def int(self, name, lo=None, hi=None):
        return int(self._in(name, float))

    def angle(self, name, base=1):
        return self._in(name, float)

    def _in(self, name, conv):
        if name not in self.inputs:
            return conv(0)      # not constrained by the counterexample
        return conv(self.inputs[name])

    def choice(self, name, options):
        return list(options)[int(self.choices.get(name, 0))]

    def rand_unit(self):
        self.nrand += 1
        return min(max(self._in('rand#%d' % self.nrand, float), 0.0), 1.0)

    @staticmethod
    def frac(a, b):
        return a / b

    def mark(self):
        """Position in the trace of compared values (see reset)"""
        return len(self.obs)

    def reset(self, m):
        """Forget the values compared since mark (for comparisons whose number depends on the form of the values)"""
        del self.obs[m:]

    # logic
    def assume(self, c):
        if not self._b(c):
            raise AssumeFailed()

    def _b(self, c):
        return bool(c)

    def check(self, label, c):
        if not self._b(c):
            self.failed.append(label)

    def fail(self, label, detail=''):
        self.failed.append(label)

    def observe(self, label, v):
        for x in flatten(v):
            self.obs.append(self._o(x))

    @staticmethod
    def _o(x):
        try:
            return float(x)
        except (TypeError, ValueError):
            return str(type(x).__name__)

    def _leaf_eq(self, x, y, tol):
        if isinstance(x, (str, bytes, type(None), bool)) or isinstance(y, (str, bytes, type(None), bool)):
            return x == y
        try:
            fx, fy = float(x), float(y)
        except (TypeError, ValueError):
            return x == y
        if math.isnan(fx) or math.isnan(fy):
            return False
        return abs(fx - fy) <= tol * max(1.0, abs(fx), abs(fy))

    def eq(self, a, b, tol=TOL):
        pa, pb = parts(a), parts(b)
        if pa is None and pb is None:
            self.obs.append(self._o(a))
            return self._leaf_eq(a, b, tol)
        if pa is None or pb is None or len(pa) != len(pb):
            return False
        r = True
        for x, y in zip(pa, pb):
            if not self.eq(x, y, tol):
                r = False
        return r

    def ne(self, a, b):
        return not self.eq(a, b, 1e-12)

    def le(self, a, b):
        return bool(a <= b + TOL * max(1.0, abs(a), abs(b)))

    def lt(self, a, b):
        return self.le(a, b)

    def and_(self, *cs):
        return all(self._b(c) for c in cs)

    def or_(self, *cs):
        return any(self._b(c) for c in cs)

    def not_(self, c):
        return not self._b(c)

    def implies(self, a, b):
        return (not self._b(a)) or self._b(b)

    def iff(self, a, b):
        return self._b(a) == self._b(b)

    def strict(self, c):
        """c is decided with a clear margin (used to excuse float ties on replay); symbolically true"""
        return c

    def raises(self, exc, fn):
        try:
            fn()
        except exc:
            return True
        return False

    def evaluate(self, text, ns):
        return eval(text, dict(ns))

    def run_text(self, text, ns):
        d = dict(ns)
        exec(text, d)
        return d


class SymH(object):
    """Symbolic execution of a harness along one path"""
    symbolic = True

    def __init__(self, path, rec, tier='quick'):
        from . import terms as T
        from .poly import VT
        self.T, self.VT = T, VT
        self.path = path
        self.rec = rec
        self.tier = tier
        self.trace = []
        self.raw = []
        self.nrand = 0
        path.random_source = self.rand_unit

    # inputs
    def real(self, name, lo=None, hi=None, nz=False):
        s = self.T.Sym.var(name)
        vid = self.VT.ids[name]
        self.VT.inputs[vid] = name
        self.path.ex.cur_inputs[vid] = ('real', name)
        if lo is not None:
            self.assume(s >= lo)
        if hi is not None:
            self.assume(s <= hi)
        if nz:
            self.assume(s != 0)
        return s

    def int(self, name, lo=None, hi=None):
        s = self.T.Sym.var(name, 'int')
        vid = self.VT.ids[name]
        self.VT.inputs[vid] = name
        self.path.ex.cur_inputs[vid] = ('int', name)
        if lo is not None:
            self.assume(s >= lo)
        if hi is not None:
            self.assume(s <= hi)
        return s

    def angle(self, name, base=1):
        """An arbitrary angle in degrees; base = finest fraction 1/base of the angle used in trigonometric functions"""
        s = self.T.Sym.var(name)
        vid = self.VT.ids[name]
        self.VT.inputs[vid] = name
        self.path.ex.cur_inputs[vid] = ('angle', name)
        k = Fraction(1, 360 * base)
        c, sn = self.T._cs_vars('%s*%s turn' % (k, name), (s, k, 'turn'))
        self.path.trig[(((vid, 1),), 'turn')] = (k, c, sn)
        vc, vs = self.VT.ids['cos<%s*%s turn>' % (k, name)], self.VT.ids['sin<%s*%s turn>' % (k, name)]
        self.path.ex.cur_inputs[vid] = ('angle', name, float(k), vc, vs)
        return s

    def choice(self, name, options):
        options = list(options)
        if name in self.path.choices:       # asked for before on this path: the same again, as in a replay
            return options[self.path.choices[name]]
        if len(options) == 1:
            self.path.choices[name] = 0
            return options[0]
        return options[self.path.choose(name, len(options))]

    def rand_unit(self):
        self.nrand += 1
        return self.real('rand#%d' % self.nrand, 0, 1)

    def frac(self, a, b):
        return self.T.lift(Fraction(a, b))

    def mark(self):
        return len(self.trace)

    def reset(self, m):
        del self.trace[m:]

    # logic
    def F(self, c):
        if isinstance(c, (list, tuple)):
            return self.T.f_and(*[self.F(x) for x in c])
        return self.T.to_f(c)

    def assume(self, c):
        """Restrict to inputs satisfying c"""
        f = self.F(c)
        if f.op == 't':
            return
        if f.op == 'f':
            raise self.T.InfeasiblePath()
        self.path.assume(f)

    def check(self, label, c):
        self.rec.check(self, label, self.F(c))

    def fail(self, label, detail=''):
        self.rec.check(self, label, self.T.F_)

    def observe(self, label, v):
        for x in flatten(v):
            self.trace.append(self._o(x))

    def _o(self, x):
        if isinstance(x, (self.T.Sym,)):
            return x
        if isinstance(x, self.T.SymBool):
            return x
        try:
            return float(x)
        except (TypeError, ValueError, self.T.Unsupported):
            return str(type(x).__name__)

    def eq(self, a, b, tol=None):
        T = self.T
        pa, pb = parts(a), parts(b)
        if pa is None and pb is None:
            self.trace.append(self._o(a))
            if isinstance(a, (str, bytes, type(None), bool)) or isinstance(b, (str, bytes, type(None), bool)):
                if isinstance(a, T.SymBool) or isinstance(b, T.SymBool):
                    return self.iff(a, b)
                return a == b
            if isinstance(a, T.SymBool) or isinstance(b, T.SymBool):
                return self.iff(a, b)
            la, lb = T.lift(a), T.lift(b)
            if la is not None and lb is not None:
                r = T.mk_bool((la - lb).rel('='))
                if r is True and not (la.is_const() and lb.is_const()):
                    self.raw.append((la, lb))
                return r
            return a == b
        if pa is None or pb is None or len(pa) != len(pb):
            return False
        return T.mk_bool(T.f_and(*[T.to_f(self.eq(x, y)) for x, y in zip(pa, pb)]))

    def ne(self, a, b):
        return self.not_(self.eq(a, b))

    def le(self, a, b):
        return self.T.mk_bool((self.T.lift(a) - self.T.lift(b)).rel('<='))

    def lt(self, a, b):
        return self.T.mk_bool((self.T.lift(a) - self.T.lift(b)).rel('<'))

    def and_(self, *cs):
        return self.T.mk_bool(self.T.f_and(*[self.F(c) for c in cs]))

    def or_(self, *cs):
        return self.T.mk_bool(self.T.f_or(*[self.F(c) for c in cs]))

    def not_(self, c):
        return self.T.mk_bool(self.T.f_not(self.F(c)))

    def implies(self, a, b):
        return self.or_(self.not_(a), b)

    def iff(self, a, b):
        fa, fb = self.F(a), self.F(b)
        T = self.T
        return T.mk_bool(T.f_or(T.f_and(fa, fb), T.f_and(T.f_not(fa), T.f_not(fb))))

    def strict(self, c):
        return c

    def raises(self, exc, fn):
        try:
            fn()
        except exc:
            return True
        return False

    def evaluate(self, text, ns):
        from . import loader
        d = dict(ns)
        d['__builtins__'] = loader.get_builtins()
        code, lits = loader.compile_source('__result__ = (%s)' % text.strip(), '<eval>')
        d['__sx_lit__'] = lits
        exec(code, d)
        return d['__result__']

    def run_text(self, text, ns):
        from . import loader
        d = dict(ns)
        d['__builtins__'] = loader.get_builtins()
        code, lits = loader.compile_source(text, '<exec>')
        d['__sx_lit__'] = lits
        exec(code, d)
        return d
