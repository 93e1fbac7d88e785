"""
Symbolic values: formulas (F), symbolic booleans (SymBool) and symbolic numbers (Sym = rational function over reals/ints).
"""
import math
import numbers
from fractions import Fraction
from .poly import *
from .poly import VT, norm_coef


class SxControl(BaseException):
    """Base of the executor's own control-flow exceptions (never caught by code under test catching Exception)"""


class Unsupported(SxControl):
    """The code did something the executor has no model for"""


class InfeasiblePath(SxControl):
    pass


class State:
    merge = False       # min/max of numbers as definitional variables instead of forks
    ctx = None          # current path context (engine.Path)


ST = State()


def ctx():
    if ST.ctx is None:
        raise Unsupported('symbolic operation outside a path')
    return ST.ctx


NONNEG = set()          # variable ids known to be >= 0 by definition


# ----------------------------------------------------------------------------------------------------------- formulas

def sign_hint(p):
    """'+' if p > 0 surely, '0+' if p >= 0 surely, '-' / '0-' likewise, else None (purely syntactic)"""
    if not p:
        return None
    sg = None
    strict = False
    for m, c in p.items():
        for v, e in m:
            if e % 2 and v not in NONNEG:
                return None
        s = 1 if c > 0 else -1
        if sg is None:
            sg = s
        elif sg != s:
            return None
        if not m:
            strict = True
    return ('+' if sg > 0 else '-') if strict else ('0+' if sg > 0 else '0-')


class F(object):
    """Formula: op in {'t','f','<','<=','=','!=','and','or'}; relational atoms are  poly REL 0"""
    __slots__ = ('op', 'args', 'poly', 'diff', 'key', 'vars')

    def __init__(self, op, args=(), poly=None, diff=None):
        self.op = op
        self.args = args
        self.poly = poly
        self.diff = diff        # Sym whose comparison with 0 this atom is (same relation), for margins
        if poly is not None:
            self.key = (op, p_key(poly))
            self.vars = frozenset(p_vars(poly))
        else:
            self.key = (op, frozenset(a.key for a in args))
            vs = frozenset()
            for a in args:
                vs |= a.vars
            self.vars = vs

    def __repr__(self):
        if self.op in ('t', 'f'):
            return {'t': 'true', 'f': 'false'}[self.op]
        if self.poly is not None:
            return '(%s %s 0)' % (p_str(self.poly), self.op)
        return '(%s %s)' % (self.op, ' '.join(map(repr, self.args)))


T_ = F('t')
F_ = F('f')


def f_atom(op, p, diff=None):
    """poly op 0, simplified"""
    if p_is_const(p):
        c = p_const_val(p)
        r = {'<': c < 0, '<=': c <= 0, '=': c == 0, '!=': c != 0}[op]
        return T_ if r else F_
    k = p_content(p)
    if k != 1:
        p = p_scale(p, Fraction(1) / k)
    if op in ('=', '!='):
        if p[p_lead(p)] < 0:
            p = p_neg(p)
    h = sign_hint(p)
    if h is not None:
        if h == '+':
            return {'<': F_, '<=': F_, '=': F_, '!=': T_}[op]
        if h == '-':
            return {'<': T_, '<=': T_, '=': F_, '!=': T_}[op]
        if h == '0+' and op == '<':
            return F_
        if h == '0-' and op == '<=':
            return T_
    return F(op, poly=p, diff=diff)


def f_not(f):
    op = f.op
    if op == 't':
        return F_
    if op == 'f':
        return T_
    if op == '<':       # p >= 0
        return f_atom('<=', p_neg(f.poly), diff=None if f.diff is None else -f.diff)
    if op == '<=':
        return f_atom('<', p_neg(f.poly), diff=None if f.diff is None else -f.diff)
    if op == '=':
        return F('!=', poly=f.poly, diff=f.diff)
    if op == '!=':
        return F('=', poly=f.poly, diff=f.diff)
    if op == 'and':
        return f_or(*[f_not(a) for a in f.args])
    return f_and(*[f_not(a) for a in f.args])


def f_and(*fs):
    out, seen = [], set()
    for f in fs:
        if f.op == 'f':
            return F_
        if f.op == 't':
            continue
        for g in (f.args if f.op == 'and' else (f,)):
            if g.key not in seen:
                seen.add(g.key)
                out.append(g)
    if not out:
        return T_
    return out[0] if len(out) == 1 else F('and', tuple(out))


def f_or(*fs):
    out, seen = [], set()
    for f in fs:
        if f.op == 't':
            return T_
        if f.op == 'f':
            continue
        for g in (f.args if f.op == 'or' else (f,)):
            if g.key not in seen:
                seen.add(g.key)
                out.append(g)
    if not out:
        return F_
    return out[0] if len(out) == 1 else F('or', tuple(out))


def f_eval(f, vals):
    """Evaluate under {vid: value}; KeyError if variables are missing"""
    op = f.op
    if op == 't':
        return True
    if op == 'f':
        return False
    if op == 'and':
        return all(f_eval(a, vals) for a in f.args)
    if op == 'or':
        return any(f_eval(a, vals) for a in f.args)
    v = p_eval(f.poly, vals)
    return {'<': v < 0, '<=': v <= 0, '=': v == 0, '!=': v != 0}[op]


class SymBool(object):
    """Result of a symbolic comparison; using it as a condition forks the path"""
    __slots__ = ('f',)

    def __init__(self, f):
        self.f = f

    def __bool__(self):
        if self.f.op == 't':
            return True
        if self.f.op == 'f':
            return False
        return ctx().branch(self.f)

    # comparisons/arith of booleans (e.g. True == SymBool) decide the boolean first
    def __eq__(self, other):
        if isinstance(other, (bool, SymBool)):
            return bool(self) == bool(other)
        return NotImplemented if other is None else bool(self) == other

    def __ne__(self, other):
        r = self.__eq__(other)
        return r if r is NotImplemented else not r

    def __hash__(self):
        return hash(bool(self))

    def __and__(self, other):
        return SymBool(f_and(self.f, to_f(other)))
    __rand__ = __and__

    def __or__(self, other):
        return SymBool(f_or(self.f, to_f(other)))
    __ror__ = __or__

    def __xor__(self, other):
        return bool(self) ^ bool(other)
    __rxor__ = __xor__

    def __invert__(self):
        return -1 - int(bool(self))

    def __int__(self):
        return int(bool(self))

    def __index__(self):
        return int(bool(self))

    def __float__(self):
        return float(bool(self))

    def __add__(self, o):
        return int(bool(self)) + o
    __radd__ = __add__

    def __sub__(self, o):
        return int(bool(self)) - o

    def __rsub__(self, o):
        return o - int(bool(self))

    def __mul__(self, o):
        return int(bool(self)) * o
    __rmul__ = __mul__

    def __neg__(self):
        return -int(bool(self))

    def __str__(self):
        return str(bool(self))
    __repr__ = __str__


def mk_bool(f):
    if f.op == 't':
        return True
    if f.op == 'f':
        return False
    return SymBool(f)


def to_f(b):
    if isinstance(b, F):
        return b
    if isinstance(b, SymBool):
        return b.f
    if b is True:
        return T_
    if b is False:
        return F_
    if isinstance(b, Sym):
        return b.rel('!=')
    return T_ if b else F_


# ------------------------------------------------------------------------------------------------------------ numbers

def _split_factor(p):
    """p -> (const, [(poly, exp)...]) with primitive factors of positive leading coefficient"""
    k = p_content(p)
    if p[p_lead(p)] < 0:
        k = -k
    p = p_scale(p, Fraction(1) / k) if k != 1 else p
    facs = []
    # monomial content
    common = None
    for m in p:
        d = dict(m)
        if common is None:
            common = d
        else:
            common = {v: min(e, d.get(v, 0)) for v, e in common.items() if d.get(v, 0)}
        if not common:
            break
    if common:
        mm = tuple(sorted(common.items()))
        p = {mono_div(m, mm): c for m, c in p.items()}
        for v, e in mm:
            facs.append((p_var(v), e))
    if not p_is_const(p):
        q = p_sqrt(p)
        if q is not None and not p_is_const(q):
            facs.append((q if q[p_lead(q)] > 0 else p_neg(q), 2))
        else:
            facs.append((p, 1))
    else:
        k = norm_coef(Fraction(k) * p_const_val(p))
    return k, facs


_KEYCACHE = {}


class Sym(object):
    """num / prod(f**e for f, e in den); den factors are primitive, non-constant and known to be non-zero on this path"""
    __slots__ = ('num', 'den', 'kind', '_k')

    def __init__(self, num, den=(), kind='r'):
        self.num = num
        self.den = den
        self.kind = kind
        self._k = None

    # -- construction ------------------------------------------------------------------------------------------------
    @staticmethod
    def const(c, kind=None):
        if kind is None:
            kind = 'i' if isinstance(c, int) else 'r'
        return Sym(p_const(norm_coef(Fraction(c))), (), kind)

    @staticmethod
    def var(name, kind='real'):
        return Sym(p_var(VT.get(name, kind)), (), 'i' if kind == 'int' else 'r')

    @property
    def key(self):
        if self._k is None:
            self._k = (p_key(self.num), frozenset((p_key(f), e) for f, e in self.den))
        return self._k

    def is_const(self):
        return not self.den and p_is_const(self.num)

    def cval(self):
        return p_const_val(self.num)

    @staticmethod
    def make(num, den, kind):
        """den: dict key -> [poly, exp]; cancels"""
        if not num:
            return Sym({}, (), kind)
        if den:
            out = []
            for f, e in den:
                while e > 0:
                    q = p_exact_div(num, f)
                    if q is None:
                        break
                    num = q
                    e -= 1
                if e > 0:
                    out.append((f, e))
            den = tuple(out)
            # rationalise square-root variables in the denominator
            for i, (f, e) in enumerate(den):
                if len(f) == 1:
                    (m, c), = f.items()
                    if len(m) == 1 and m[0][1] == 1 and m[0][0] in VT.square and m[0][0] in NONNEG:
                        v = m[0][0]
                        rest = list(den[:i] + den[i + 1:])
                        if e % 2:
                            num = p_mul(num, p_var(v))
                            e += 1
                        k, facs = _split_factor(p_pow(VT.square[v], e // 2) if e > 2 else VT.square[v])
                        num = p_scale(num, Fraction(1) / k)
                        return Sym.make(num, _merge_den(rest, facs), 'r')
            if not den:
                return Sym(num, (), kind)
        return Sym(num, den, kind)

    # -- arithmetic --------------------------------------------------------------------------------------------------
    def __add__(self, o):
        o = lift(o)
        if o is None:
            return NotImplemented
        kind = 'i' if self.kind == 'i' and o.kind == 'i' else 'r'
        if not self.den and not o.den:
            return Sym(p_add(self.num, o.num), (), kind)
        if self.den == o.den:
            return Sym.make(p_add(self.num, o.num), self.den, kind)
        l, ma, mb = _lcm(self.den, o.den)
        num = p_add(p_mul(self.num, ma), p_mul(o.num, mb))
        return Sym.make(num, l, kind)

    __radd__ = __add__

    def __neg__(self):
        return Sym(p_neg(self.num), self.den, self.kind)

    def __pos__(self):
        return self

    def __sub__(self, o):
        o = lift(o)
        if o is None:
            return NotImplemented
        return self + (-o)

    def __rsub__(self, o):
        o = lift(o)
        if o is None:
            return NotImplemented
        return o + (-self)

    def __mul__(self, o):
        o = lift(o)
        if o is None:
            return NotImplemented
        kind = 'i' if self.kind == 'i' and o.kind == 'i' else 'r'
        if not self.den and not o.den:
            return Sym(p_mul(self.num, o.num), (), kind)
        return Sym.make(p_mul(self.num, o.num), _merge_den(self.den, o.den), kind)

    __rmul__ = __mul__

    def inv(self):
        """1/self, self known non-zero"""
        k, facs = _split_factor(self.num)
        num = p_const(Fraction(1) / k)
        for f, e in self.den:
            num = p_mul(num, p_pow(f, e))
        return Sym.make(num, tuple(facs), 'r')

    def __truediv__(self, o):
        o = lift(o)
        if o is None:
            return NotImplemented
        if o.is_const():
            if not o.cval():
                raise ZeroDivisionError('division by zero')
            return Sym(p_scale(self.num, Fraction(1) / o.cval()), self.den, 'r')
        if mk_bool(o.rel('=')):
            raise ZeroDivisionError('division by zero')
        return self * o.inv() if self.kind == 'r' else Sym(self.num, self.den, 'r') * o.inv()

    def __rtruediv__(self, o):
        o = lift(o)
        if o is None:
            return NotImplemented
        return o / self

    def __pow__(self, n, mod=None):
        if isinstance(n, Sym):
            if not n.is_const():
                raise Unsupported('symbolic exponent')
            n = n.cval()
        if isinstance(n, float) and n == int(n):
            n = int(n)
        if n == Fraction(1, 2) or n == 0.5:
            return sym_sqrt(self)
        if not isinstance(n, int):
            raise Unsupported('exponent %r' % (n,))
        if n < 0:
            return Sym.const(1) / (self ** -n)
        r = Sym.const(1, self.kind)
        for _ in range(n):
            r = r * self
        return r

    def __rpow__(self, o):
        if self.is_const():
            return lift(o) ** self.cval()
        raise Unsupported('symbolic exponent')

    def __abs__(self):
        h = self.sign_known()
        if h is not None:
            return self if h >= 0 else -self
        return self if mk_bool(self.rel('>=')) else -self

    def sign_known(self):
        if self.is_const():
            c = self.cval()
            return (c > 0) - (c < 0)
        h = sign_hint(self.num)
        if h is None:
            return None
        for f, e in self.den:
            if e % 2 and sign_hint(f) not in ('+', '0+'):
                return None
        return 1 if h in ('+', '0+') else -1

    def sx_floor(self):
        return sym_floor(self)

    def __floordiv__(self, o):
        o = lift(o)
        if o is None:
            return NotImplemented
        q = self / o
        r = sym_floor(q)
        return r if (self.kind == 'i' and o.kind == 'i') else Sym(r.num, r.den, 'r')

    def __rfloordiv__(self, o):
        return lift(o) // self

    def __mod__(self, o):
        o = lift(o)
        if o is None:
            return NotImplemented
        q = sym_floor(self / o)
        r = self - q * o
        return r if (self.kind == 'i' and o.kind == 'i') else Sym(r.num, r.den, 'r')

    def __rmod__(self, o):
        o = lift(o)
        if o is None:
            return NotImplemented
        return o % self

    def __divmod__(self, o):
        return self // o, self % o

    def __rdivmod__(self, o):
        return lift(o) // self, lift(o) % self

    def __round__(self, n=None):
        return sym_round(self, n)

    def __floor__(self):
        return sym_floor(self)

    def __ceil__(self):
        return -sym_floor(-self)

    def __trunc__(self):
        return sym_trunc(self)

    def is_integer(self):
        return sym_floor(self) == self

    def conjugate(self):
        return self

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return 0

    # numpy object-array ufuncs call these as methods
    def sqrt(self):
        return sym_sqrt(self)

    def cos(self):
        return sym_cossin(self)[0]

    def sin(self):
        return sym_cossin(self)[1]

    def hypot(self, o):
        return sym_hypot(self, o)

    def arctan2(self, o):
        return sym_atan2(self, o)

    def radians(self):
        return sym_radians(self)
    deg2rad = radians

    def degrees(self):
        return sym_degrees(self)
    rad2deg = degrees

    def item(self):
        return self

    # -- comparison --------------------------------------------------------------------------------------------------
    def rel(self, op):
        """Formula for  self op 0"""
        if op in ('=', '!='):
            return f_atom(op, self.num, diff=self)
        p = self.num
        for f, e in self.den:
            if e % 2:
                h = sign_hint(f)
                if h in ('+', '0+'):
                    continue
                p = p_mul(p, f)
        if op in ('>', '>='):
            return f_atom('<' if op == '>' else '<=', p_neg(p), diff=-self)
        return f_atom(op, p, diff=self)

    def _cmp(self, o, op):
        if o is None or isinstance(o, str):
            return NotImplemented
        if isinstance(o, float) and (o != o or o in (math.inf, -math.inf)):
            if o != o:
                return False
            return (op in ('<', '<=')) == (o > 0)
        o = lift(o)
        if o is None:
            return NotImplemented
        return mk_bool((self - o).rel(op))

    def __lt__(self, o):
        return self._cmp(o, '<')

    def __le__(self, o):
        return self._cmp(o, '<=')

    def __gt__(self, o):
        return self._cmp(o, '>')

    def __ge__(self, o):
        return self._cmp(o, '>=')

    def __eq__(self, o):
        if isinstance(o, float) and (o != o or o in (math.inf, -math.inf)):
            return False
        o = lift(o)
        if o is None:
            return NotImplemented
        return mk_bool((self - o).rel('='))

    def __ne__(self, o):
        if isinstance(o, float) and (o != o or o in (math.inf, -math.inf)):
            return True
        o = lift(o)
        if o is None:
            return NotImplemented
        return mk_bool((self - o).rel('!='))

    def __hash__(self):
        if self.is_const():
            return hash(self.cval())
        return 0x51a7

    def __bool__(self):
        return bool(mk_bool(self.rel('!=')))

    # -- concretisation ----------------------------------------------------------------------------------------------
    def __index__(self):
        if self.kind != 'i':
            raise TypeError("'float' object cannot be interpreted as an integer")
        if self.is_const():
            return int(self.cval())
        return ctx().enumerate_int(self)

    def __int__(self):
        if self.is_const():
            return int(self.cval())
        t = sym_trunc(self)
        if t.is_const():
            return int(t.cval())
        return ctx().enumerate_int(t)

    def __float__(self):
        if self.is_const():
            return float(self.cval())
        raise Unsupported('float() of a symbolic value')

    def __complex__(self):
        raise Unsupported('complex() of a symbolic value')

    # -- text ---------------------------------------------------------------------------------------------------------
    def __repr__(self):
        return token(self)

    def __str__(self):
        return token(self)

    def __format__(self, spec):
        return token(self)

    def show(self):
        s = p_str(self.num)
        if self.den:
            s = '(%s)/(%s)' % (s, ')*('.join(p_str(f) + ('^%d' % e if e > 1 else '') for f, e in self.den))
        return s

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __reduce__(self):
        raise Unsupported('pickling of a symbolic value')


numbers.Real.register(Sym)
numbers.Number.register(Sym)

TOKENS = {}
TOKEN_VALS = []


def token(s):
    """A literal that evaluates back (in a namespace containing __S) to the same symbolic value"""
    k = (s.key, s.kind)
    i = TOKENS.get(k)
    if i is None:
        i = len(TOKEN_VALS)
        TOKENS[k] = i
        TOKEN_VALS.append(s)
    return '__S(%d)' % i


def token_value(i):
    return TOKEN_VALS[i]


def lift(o):
    t = type(o)
    if t is Sym:
        return o
    if t is int:
        return Sym(p_const(o), (), 'i')
    if t is bool:
        return Sym(p_const(int(o)), (), 'i')
    if t is float:
        if o != o or o in (math.inf, -math.inf):
            raise Unsupported('non-finite float %r' % o)
        return Sym(p_const(norm_coef(Fraction(repr(o)))), (), 'r')
    if t is Fraction:
        return Sym(p_const(norm_coef(o)), (), 'r')
    if t is SymBool:
        return lift(bool(o))
    if isinstance(o, numbers.Integral):
        return lift(int(o))
    if isinstance(o, numbers.Real):
        return lift(float(o))
    return None


def _merge_den(a, b):
    if not a:
        return tuple(b)
    if not b:
        return tuple(a)
    out = [[f, e, p_key(f)] for f, e in a]
    for f, e in b:
        k = p_key(f)
        for it in out:
            if it[2] == k:
                it[1] += e
                break
        else:
            out.append([f, e, k])
    return tuple((f, e) for f, e, k in out)


def _lcm(a, b):
    """lcm of two factor lists, and the multipliers (as polynomials) for each side"""
    ka = {p_key(f): (f, e) for f, e in a}
    kb = {p_key(f): (f, e) for f, e in b}
    out, ma, mb = [], ONE, ONE
    for k, (f, e) in ka.items():
        eb = kb.get(k, (None, 0))[1]
        m = max(e, eb)
        out.append((f, m))
        if m > e:
            ma = p_mul(ma, p_pow(f, m - e))
        if m > eb:
            mb = p_mul(mb, p_pow(f, m - eb))
    for k, (f, e) in kb.items():
        if k not in ka:
            out.append((f, e))
            ma = p_mul(ma, p_pow(f, e))
    return tuple(out), ma, mb


# ------------------------------------------------------------------------------------------------ derived quantities

def known_nonneg(s):
    h = s.sign_known()
    return h is not None and h >= 0


def _sq_part(n):
    """n = a*a*b with b square-free w.r.t. small primes (n positive int)"""
    a = 1
    for p in (2, 3, 5, 7, 11, 13):
        while n % (p * p) == 0:
            n //= p * p
            a *= p
    r = math.isqrt(n)
    if r * r == n:
        return a * r, 1
    return a, n


def _poly_sqrt(p):
    """Sym for sqrt(p), p known >= 0 on this path"""
    if not p:
        return Sym.const(0, 'r')
    k = Fraction(p_content(p))
    p = p_scale(p, 1 / k) if k != 1 else p
    a, b = _sq_part(k.numerator * k.denominator)
    coef = Fraction(a, k.denominator)
    outer = Sym.const(coef, 'r')
    # p primitive; p may have a negative leading coefficient
    common = None
    for m in p:
        d = dict(m)
        common = d if common is None else {v: min(e, d.get(v, 0)) for v, e in common.items() if d.get(v, 0)}
        if not common:
            break
    if common:
        mm = tuple(sorted((v, e - e % 2) for v, e in common.items() if e >= 2))
        if mm:
            p = {mono_div(m, mm): c for m, c in p.items()}
            for v, e in mm:
                outer = outer * abs(Sym(p_var(v))) ** (e // 2)
    if b == 1:
        q = p_sqrt(p)
        if q is not None:
            return outer * abs(Sym(q, (), 'r'))
    if len(p) == 2 and p.get(()) == 1:
        # the square root of 1 - cos^2 is |sin|
        for vs, sq in VT.square.items():
            if vs not in NONNEG and sq == p:
                return outer * _poly_sqrt(p_const(b)) * abs(Sym(p_var(vs)))
    p = p_scale(p, b)
    if p_is_const(p):
        c = Fraction(p_const_val(p))
        r = frac_sqrt(c)
        if r is not None:
            return outer * Sym.const(r, 'r')
    name = 'sqrt{%s}' % p_str(p)
    new = name not in VT.ids
    v = VT.get(name, 'real')
    if new:
        NONNEG.add(v)
        VT.square[v] = p
        # r >= 0 and r*r == p  (kept as raw, unreduced polynomial)
        VT.defs[v] = [F('<=', poly={((v, 1),): -1}),
                      F('=', poly=p_add({((v, 2),): 1}, p_neg(p)))]
        VT.approx[v] = ('sqrt', p)
    return outer * Sym(p_var(v), (), 'r')


def sym_sqrt(s, check=True):
    s = lift(s)
    if s.is_const():
        c = s.cval()
        if c < 0:
            raise ValueError('math domain error')
        return _poly_sqrt(p_const(c))
    if not known_nonneg(s) and check:
        if mk_bool(s.rel('<')):
            raise ValueError('math domain error')
    num = s.num
    div = Sym.const(1, 'r')
    for f, e in s.den:
        if e % 2:
            num = p_mul(num, f)
        fs = Sym(f, (), 'r')
        div = div * abs(fs) ** ((e + 1) // 2)
    r = _poly_sqrt(num)
    if div.is_const():
        return r / div
    return r * div.inv()


def sym_hypot(*args):
    t = Sym.const(0, 'r')
    for a in args:
        a = lift(a)
        t = t + a * a
    return sym_sqrt(t, check=False)


def _int_split(s):
    """Split polynomial s into (integer-valued part, rest)"""
    if s.den:
        return Sym.const(0), s
    ip, rest = {}, {}
    for m, c in s.num.items():
        if all(VT.kind[v] == 'int' for v, e in m):
            if type(c) is int:
                ip[m] = c
                continue
            if not m:
                fl = c.numerator // c.denominator
                if fl:
                    ip[m] = fl
                rest[m] = norm_coef(c - fl)
                continue
        rest[m] = c
    return Sym(ip, (), 'i'), Sym(rest, (), 'r')


def _narrow_floor(s, lo=-3, hi=6):
    """The floor of s where this path confines a linear s to [lo, hi), forking on its values; None elsewhere"""
    if ST.ctx is None or s.den or any(len(m) > 1 or (m and m[0][1] > 1) for m in s.num):
        return None
    if ctx().query(f_or((s - lo).rel('<'), (s - hi).rel('>=')))[0] != 'unsat':
        return None
    for k in range(lo + 1, hi):
        if mk_bool((s - k).rel('<')):
            return Sym.const(k - 1)
    return Sym.const(hi - 1)


def sym_floor(s):
    s = lift(s)
    if s.kind == 'i':
        return s
    if s.is_const():
        return Sym.const(math.floor(s.cval()))
    ip, rest = _int_split(s)
    if rest.is_const():
        return ip + math.floor(rest.cval())
    k = _narrow_floor(rest)
    if k is not None:
        return ip + k
    name = 'floor{%s}' % rest.show()
    new = name not in VT.ids
    n = Sym.var(name, 'int')
    vid = VT.ids[name]
    if new:
        d = rest - n
        VT.defs[vid] = [d.rel('>='), (d - 1).rel('<')]
        VT.approx[vid] = ('floor', rest)
    return ip + n


def sym_trunc(s):
    s = lift(s)
    if s.kind == 'i':
        return s
    if s.is_const():
        return Sym.const(int(s.cval()))
    if known_nonneg(s) or mk_bool(s.rel('>=')):
        return sym_floor(s)
    return -sym_floor(-s)


def sym_round(s, n=None):
    s = lift(s)
    if isinstance(n, Sym):
        n = int(n)
    if s.kind == 'i':
        if n is None or n >= 0:
            return s
    p = Fraction(10) ** (n or 0)
    t = s * Sym.const(p, 'r') if p != 1 else Sym(s.num, s.den, 'r')
    if t.is_const():
        r = Sym.const(round(Fraction(t.cval())))
    else:
        if not t.den and all(type(c) is int and all(VT.kind[v] == 'int' for v, e in m) for m, c in t.num.items()):
            r = Sym(t.num, (), 'i')     # already an integer
        else:
            name = 'round{%s}' % t.show()
            new = name not in VT.ids
            m = Sym.var(name, 'int')
            vid = VT.ids[name]
            if new:
                h = Sym.var('half{%s}' % t.show(), 'int')
                d = (m - t) * 2
                even = (m - h * 2).rel('=')
                VT.defs[vid] = [(d - 1).rel('<='), (d + 1).rel('>='),
                                f_or(f_and((d - 1).rel('!='), (d + 1).rel('!=')), even)]
                VT.approx[vid] = ('round', t)
            r = m
    if n is None:
        return r
    r = Sym(r.num, r.den, 'r')
    return r * Sym.const(1 / p, 'r') if p != 1 else r


# ------------------------------------------------------------------------------------------------------------- angles

_PI = {}


def sym_pi():
    if 'pi' not in _PI:
        v = VT.get('pi', 'real')
        NONNEG.add(v)
        lo, hi = Fraction(314159265358979, 10**14), Fraction(314159265358980, 10**14)
        s = Sym(p_var(v), (), 'r')
        VT.defs[v] = [(s - Sym.const(lo)).rel('>'), (s - Sym.const(hi)).rel('<')]
        VT.approx[v] = ('const', math.pi)
        _PI['pi'] = (v, s)
    return _PI['pi'][1]


def sym_radians(d):
    return lift(d) * sym_pi() / 180


def sym_degrees(r):
    return lift(r) * 180 * sym_pi().inv()


def _const_cs(u):
    """(cos, sin) of u turns, u an exact rational constant"""
    u = u - math.floor(u)
    q = Fraction(u) * 4
    k = math.floor(q)
    f = q - k           # fraction of a quarter turn in [0, 1)
    if f == 0:
        c, s = Sym.const(1, 'r'), Sym.const(0, 'r')
    elif f == Fraction(1, 2):
        c = s = _poly_sqrt(p_const(Fraction(1, 2)))
    elif f == Fraction(1, 3):
        c, s = _poly_sqrt(p_const(Fraction(3, 4))), Sym.const(Fraction(1, 2), 'r')
    elif f == Fraction(2, 3):
        c, s = Sym.const(Fraction(1, 2), 'r'), _poly_sqrt(p_const(Fraction(3, 4)))
    else:
        c, s = _cs_vars('const(%s)' % f, None)
        vc, vs = VT.ids['cos<const(%s)>' % f], VT.ids['sin<const(%s)>' % f]
        if len(VT.defs[vc]) == 1:
            ang = float(f) * math.pi / 2
            eps = Fraction(1, 10**15)
            fc, fs = Fraction(math.cos(ang)), Fraction(math.sin(ang))
            bounds = [(c - (fc - eps)).rel('>'), (c - (fc + eps)).rel('<'),
                      (s - (fs - eps)).rel('>'), (s - (fs + eps)).rel('<')]
            VT.defs[vc] = VT.defs[vc] + bounds
            VT.defs[vs] = VT.defs[vc]
            VT.approx[vc], VT.approx[vs] = ('const', math.cos(ang)), ('const', math.sin(ang))
    for _ in range(k):
        c, s = -s, c
    return c, s


def _cs_vars(name, angle):
    """Fresh (cos, sin) variable pair for a named base angle"""
    nc, ns = 'cos<%s>' % name, 'sin<%s>' % name
    new = nc not in VT.ids
    vc, vs = VT.get(nc), VT.get(ns)
    if new:
        VT.square[vs] = {(): 1, ((vc, 2),): -1}
        d = F('=', poly={((vc, 2),): 1, ((vs, 2),): 1, (): -1})
        VT.defs[vc] = [d]
        VT.defs[vs] = [d]
        if angle is not None:
            VT.approx[vc], VT.approx[vs] = ('cos', angle), ('sin', angle)
    return Sym(p_var(vc)), Sym(p_var(vs))


def _multiple(c, s, n):
    """(cos, sin) of n times the angle with cos c and sin s"""
    if n < 0:
        c, s = _multiple(c, s, -n)
        return c, -s
    rc, rs = Sym.const(1, 'r'), Sym.const(0, 'r')
    bc, bs = c, s
    while n:
        if n & 1:
            rc, rs = rc * bc - rs * bs, rc * bs + rs * bc
        n >>= 1
        if n:
            bc, bs = bc * bc - bs * bs, 2 * (bc * bs)
    return rc, rs


def sym_cossin(x):
    """(cos x, sin x), x in radians"""
    x = lift(x)
    pi = sym_pi()
    piv = VT.ids['pi']
    # u = x in turns; separate the part proportional to pi
    c, s = Sym.const(1, 'r'), Sym.const(0, 'r')
    terms = []          # (key, coefficient, description)
    u = x * (2 * pi).inv() if x.num else Sym.const(0, 'r')
    if not u.den:
        for m, k in u.num.items():
            terms.append((m, Fraction(k), 'turn'))
    else:
        # split: terms of x containing pi -> turns; the rest -> radians
        if x.den:
            # a rational expression: split the numerator over the common denominator
            if any(piv in p_vars(f) for f, e in x.den):
                raise Unsupported('trigonometric function of %s' % x.show())
            num_pi = {m: k for m, k in x.num.items() if any(v == piv and e == 1 for v, e in m)}
            num_rest = {m: k for m, k in x.num.items() if m not in num_pi}
            for part, unit in ((num_pi, 'turn'), (num_rest, 'rad')):
                for m, k in part.items():
                    if unit == 'turn':
                        m2 = mono_div(m, ((piv, 1),))
                        t = Sym.make({m2: 1}, x.den, 'r')
                        kk = Fraction(k) / 2
                    else:
                        t = Sym.make({m: 1}, x.den, 'r')
                        kk = Fraction(k)
                    terms.append((('q', t.key, t), kk, unit))
        else:
            for m, k in x.num.items():
                d = mono_div(m, ((piv, 1),))
                if d is not None:
                    terms.append((d, Fraction(k) / 2, 'turn'))
                else:
                    terms.append((m, Fraction(k), 'rad'))
    tab = ctx().trig if ST.ctx is not None else {}
    for m, k, unit in terms:
        if unit == 'turn' and m == ():
            cc, ss = _const_cs(k)
        else:
            if unit == 'turn' and m and m[0] != 'q' and all(VT.kind[v] == 'int' for v, e in m) and k.denominator == 1:
                continue        # whole turns
            if unit == 'rad' and m == ():
                # constant radians
                f = Fraction(k)
                ang = float(f)
                cc, ss = _cs_vars('rad(%s)' % f, None)
                vc, vs = VT.ids['cos<rad(%s)>' % f], VT.ids['sin<rad(%s)>' % f]
                if len(VT.defs[vc]) == 1:
                    eps = Fraction(1, 10**15)
                    fc, fs = Fraction(math.cos(ang)), Fraction(math.sin(ang))
                    VT.defs[vc] = VT.defs[vc] + [(cc - (fc - eps)).rel('>'), (cc - (fc + eps)).rel('<'),
                                                 (ss - (fs - eps)).rel('>'), (ss - (fs + eps)).rel('<')]
                    VT.defs[vs] = VT.defs[vc]
                    VT.approx[vc], VT.approx[vs] = ('const', math.cos(ang)), ('const', math.sin(ang))
            else:
                cc, ss = _base_cs(tab, m, k, unit)
        c, s = c * cc - s * ss, s * cc + c * ss
    return c, s


def _base_cs(tab, m, k, unit):
    if m and m[0] == 'q':
        tkey = (m[1], unit)
        desc = m[2].show()
        tval = m[2]
    else:
        tkey = (m, unit)
        desc = p_str({m: 1})
        tval = Sym({m: 1})
    ent = tab.get(tkey)
    while ent is not None and max(abs((k / ent[0]).numerator), (k / ent[0]).denominator) > 24:
        # too far apart to be related by polynomials: an angle of its own (an over-approximation; replay decides)
        tkey = (tkey, 'far')
        ent = tab.get(tkey)
    if ent is None:
        # preferred base: smallest known coefficient given in advance, else this one
        name = '%s*%s%s' % (abs(k), desc, ' turn' if unit == 'turn' else '')
        c, s = _cs_vars(name, (tval, abs(k), unit))
        tab[tkey] = ent = (abs(k), c, s)
    k0, c, s = ent
    n = k / k0
    if n.denominator == 1:
        return _multiple(c, s, n.numerator)
    # finer base angle needed: relate the old one to it
    fine = k0 / n.denominator
    name = '%s*%s%s' % (fine, desc, ' turn' if unit == 'turn' else '')
    c2, s2 = _cs_vars(name, (tval, fine, unit))
    co, so = _multiple(c2, s2, n.denominator)
    ctx().add_fact((c - co).rel('='))
    ctx().add_fact((s - so).rel('='))
    tab[tkey] = (fine, c2, s2)
    return _multiple(c2, s2, n.numerator)


def sym_tan(x):
    x = lift(x)
    u = x * (2 * sym_pi()).inv() if x.num else Sym.const(0, 'r')
    if u.is_const():
        d = Fraction(u.cval())
        if (d * 2 * 8).denominator == 1 or (d * 2 * 12).denominator == 1:
            c2, s2 = _const_cs(2 * d)
            if not s2.is_const() or s2.cval():
                return (1 - c2) / s2
    c, s = sym_cossin(x)
    return s / c


def sym_atan2(y, x):
    y, x = lift(y), lift(x)
    if y.is_const() and x.is_const():
        yy, xx = y.cval(), x.cval()
        if xx == 0 and yy == 0:
            return Sym.const(0, 'r')
        if yy == 0:
            return Sym.const(0, 'r') if xx > 0 else sym_pi()
        if xx == 0:
            return sym_pi() / 2 if yy > 0 else -sym_pi() / 2
        if abs(xx) == abs(yy):
            return sym_pi() * Fraction(1 if xx > 0 else 3, 4) * (1 if yy > 0 else -1)
    r = sym_hypot(x, y)
    if mk_bool(r.rel('=')):
        return Sym.const(0, 'r')
    ri = r.inv()
    name = 'atan2{%s, %s}' % (y.show(), x.show())
    new = name not in VT.ids
    th = Sym.var(name)
    vid = VT.ids[name]
    if new:
        def rng(lo, hi, strict_lo, strict_hi):
            return f_and((th - lo).rel('>' if strict_lo else '>='), (th - hi).rel('<' if strict_hi else '<='))
        h, q = Fraction(1, 2), Fraction(1, 4)
        yp, yn, yz = y.rel('>'), y.rel('<'), y.rel('=')
        xp, xn, xz = x.rel('>'), x.rel('<'), x.rel('=')
        VT.defs[vid] = [
            rng(-h, h, True, False),
            f_or(f_not(f_and(xp, yp)), rng(0, q, True, True)),
            f_or(f_not(f_and(xn, yp)), rng(q, h, True, True)),
            f_or(f_not(f_and(xn, yn)), rng(-h, -q, True, True)),
            f_or(f_not(f_and(xp, yn)), rng(-q, 0, True, True)),
            f_or(f_not(f_and(yz, xp)), th.rel('=')),
            f_or(f_not(f_and(yz, xn)), (th - h).rel('=')),
            f_or(f_not(f_and(xz, yp)), (th - q).rel('=')),
            f_or(f_not(f_and(xz, yn)), (th + q).rel('=')),
            f_or(f_not(f_and((y - x).rel('='), xp)), (th - q / 2).rel('=')),
            f_or(f_not(f_and((y - x).rel('='), xn)), (th + h - q / 2).rel('=')),
            f_or(f_not(f_and((y + x).rel('='), xp)), (th + q / 2).rel('=')),
            f_or(f_not(f_and((y + x).rel('='), xn)), (th - h + q / 2).rel('=')),
        ]
        VT.approx[vid] = ('atan2turn', (y, x))
    ctx().trig[(((vid, 1),), 'turn')] = (Fraction(1), x * ri, y * ri)
    return th * 2 * sym_pi()


def sym_acos(x):
    x = lift(x)
    if mk_bool((x - 1).rel('>')) or mk_bool((x + 1).rel('<')):
        raise ValueError('math domain error')
    return sym_atan2(sym_sqrt(1 - x * x, check=False), x)


def sym_asin(x):
    x = lift(x)
    if mk_bool((x - 1).rel('>')) or mk_bool((x + 1).rel('<')):
        raise ValueError('math domain error')
    return sym_atan2(x, sym_sqrt(1 - x * x, check=False))


MINMAX = {}         # variable id -> ('min'|'max', [Sym...])


def sym_minmax(op, items):
    """min/max of numbers as one definitional variable instead of a fork per ordering"""
    flat = {}
    kind = 'i'

    def add(s):
        if not s.den and len(s.num) == 1:
            (m, c), = s.num.items()
            if c == 1 and len(m) == 1 and m[0][1] == 1:
                mm = MINMAX.get(m[0][0])
                if mm is not None and mm[0] == op:
                    for x in mm[1]:
                        add(x)
                    return
        flat.setdefault(s.key, s)
    for s in items:
        if s.kind != 'i':
            kind = 'r'
        add(s)
    xs = list(flat.values())
    cs = [x for x in xs if x.is_const()]
    if len(cs) > 1:
        best = (min if op == 'min' else max)(x.cval() for x in cs)
        xs = [x for x in xs if not x.is_const()] + [x for x in cs if x.cval() == best][:1]
    facts = ST.ctx.facts if ST.ctx is not None else {}
    drop = set()
    for i, a in enumerate(xs):
        for j, b in enumerate(xs):
            if i == j or i in drop or j in drop:
                continue
            d = (a - b) if op == 'min' else (b - a)     # a at least as good as b
            f = d.rel('<=')
            if f.op == 't' or facts.get(f.key) is True or facts.get(d.rel('<').key) is True:
                drop.add(j)
    xs = [x for i, x in enumerate(xs) if i not in drop]
    if len(xs) == 1:
        return xs[0]
    xs.sort(key=lambda x: x.show())
    name = '%s{%s}' % (op, ','.join(x.show() for x in xs))
    new = name not in VT.ids
    v = Sym.var(name, 'int' if kind == 'i' else 'real')
    vid = VT.ids[name]
    if new:
        MINMAX[vid] = (op, xs)
        rel = '<=' if op == 'min' else '>='
        VT.defs[vid] = [(v - x).rel(rel) for x in xs] + [f_or(*[(v - x).rel('=') for x in xs])]
        VT.approx[vid] = (op, xs)
    return v


def approx_value(vid, vals, depth=0):
    """Float value of a derived variable from {input vid: float}; None if unknown"""
    if vid in vals:
        return vals[vid]
    spec = VT.approx.get(vid)
    if spec is None or depth > 30:
        return None
    kind, arg = spec
    try:
        if kind == 'const':
            return arg
        if kind == 'sqrt':
            v = approx_poly(arg, vals, depth + 1)
            return math.sqrt(max(v, 0.0))
        if kind in ('min', 'max'):
            return (min if kind == 'min' else max)(approx_sym(a, vals, depth + 1) for a in arg)
        if kind == 'floor':
            return math.floor(approx_sym(arg, vals, depth + 1))
        if kind == 'round':
            return round(approx_sym(arg, vals, depth + 1))
        if kind in ('cos', 'sin'):
            t, k, unit = arg
            a = approx_sym(t, vals, depth + 1) * float(k) * (2 * math.pi if unit == 'turn' else 1)
            return math.cos(a) if kind == 'cos' else math.sin(a)
        if kind == 'atan2turn':
            y, x = arg
            return math.atan2(approx_sym(y, vals, depth + 1), approx_sym(x, vals, depth + 1)) / (2 * math.pi)
    except (TypeError, ZeroDivisionError, OverflowError):
        return None
    return None


def approx_poly(p, vals, depth=0):
    t = 0.0
    for m, c in p.items():
        x = float(c)
        for v, e in m:
            a = approx_value(v, vals, depth)
            if a is None:
                raise TypeError('unknown variable')
            x *= float(a) ** e
        t += x
    return t


def approx_sym(s, vals, depth=0):
    v = approx_poly(s.num, vals, depth)
    for f, e in s.den:
        v /= approx_poly(f, vals, depth) ** e
    return v
