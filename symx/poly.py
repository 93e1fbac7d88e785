"""
Sparse multivariate polynomials with rational coefficients.

A polynomial is a dict {monomial: coefficient}; a monomial is a tuple of (variable-id, exponent) pairs sorted by
variable id.  Variables may carry a square rule  v*v -> P  (square roots, sines), which is applied after every product,
so that polynomials are kept in normal form with respect to these rules.
"""
from fractions import Fraction
from math import gcd, isqrt


class VarTable:
    """Global (per process) table of variables"""

    def __init__(self):
        self.names = []         # id -> name
        self.ids = {}           # name -> id
        self.kind = []          # id -> 'real' | 'int'
        self.square = {}        # id -> polynomial dict for v*v
        self.defs = {}          # id -> list of formulas that define v (see terms.py)
        self.approx = {}        # id -> callable(values) giving float value from inputs (for reporting)
        self.inputs = {}        # id -> declared input (name)

    def get(self, name, kind='real'):
        vid = self.ids.get(name)
        if vid is None:
            vid = len(self.names)
            self.ids[name] = vid
            self.names.append(name)
            self.kind.append(kind)
        return vid


VT = VarTable()


def norm_coef(c):
    if type(c) is Fraction and c.denominator == 1:
        return c.numerator
    return c


def mono_mul(a, b):
    if not a:
        return b
    if not b:
        return a
    d = dict(a)
    for v, e in b:
        d[v] = d.get(v, 0) + e
    return tuple(sorted(d.items()))


ZERO = {}
ONE = {(): 1}


def p_const(c):
    c = norm_coef(c)
    return {(): c} if c else {}


def p_var(vid):
    return {((vid, 1),): 1}


def p_add(a, b):
    if not a:
        return b
    if not b:
        return a
    if len(a) < len(b):
        a, b = b, a
    r = dict(a)
    for m, c in b.items():
        v = r.get(m)
        if v is None:
            r[m] = c
        else:
            v = norm_coef(v + c)
            if v:
                r[m] = v
            else:
                del r[m]
    return r


def p_neg(a):
    return {m: -c for m, c in a.items()}


def p_sub(a, b):
    return p_add(a, p_neg(b)) if b else a


def p_scale(a, k):
    if not k:
        return {}
    if k == 1:
        return a
    return {m: norm_coef(c * k) for m, c in a.items()}


def _reduce(r):
    """Apply the square rules until none applies"""
    sq = VT.square
    if not sq:
        return r
    while True:
        bad = None
        for m in r:
            for v, e in m:
                if e >= 2 and v in sq:
                    bad = True
                    break
            if bad:
                break
        if not bad:
            return r
        out = {}
        for m, c in r.items():
            rep = None
            for i, (v, e) in enumerate(m):
                if e >= 2 and v in sq:
                    rest = m[:i] + (((v, e - 2),) if e > 2 else ()) + m[i + 1:]
                    rep = {mono_mul(rest, m2): norm_coef(c * c2) for m2, c2 in sq[v].items()}
                    break
            if rep is None:
                rep = {m: c}
            out = p_add(out, rep)
        r = out


def p_mul(a, b):
    if not a or not b:
        return {}
    if len(a) == 1 and () in a:
        return p_scale(b, a[()])
    if len(b) == 1 and () in b:
        return p_scale(a, b[()])
    r = {}
    for m1, c1 in a.items():
        for m2, c2 in b.items():
            m = mono_mul(m1, m2)
            c = c1 * c2
            v = r.get(m)
            r[m] = c if v is None else v + c
    r = {m: norm_coef(c) for m, c in r.items() if c}
    return _reduce(r)


def p_pow(a, n):
    r = ONE
    for _ in range(n):
        r = p_mul(r, a)
    return r


def p_key(a):
    return frozenset(a.items())


def p_is_const(a):
    return not a or (len(a) == 1 and () in a)


def p_const_val(a):
    return a.get((), 0)


def p_vars(a):
    return {v for m in a for v, e in m}


def p_content(a):
    """Positive rational content (a / content has coprime integer coefficients)"""
    num, den = 0, 1
    for c in a.values():
        if type(c) is int:
            n, d = c, 1
        else:
            n, d = c.numerator, c.denominator
        num = gcd(num, n)
        den = den * d // gcd(den, d)
    return norm_coef(Fraction(num, den)) if num else 0


def mono_deg(m):
    return sum(e for v, e in m)


def _order_key(m):
    # lexicographic by variable id: a genuine monomial order; smaller ids are "larger"
    # represent as sorted tuple comparison on exponent vectors: compare by first differing variable
    return m


def mono_gt(a, b):
    """lex order with smaller variable ids more significant"""
    ia = ib = 0
    while True:
        if ia >= len(a):
            return False
        if ib >= len(b):
            return True
        va, ea = a[ia]
        vb, eb = b[ib]
        if va < vb:
            return True
        if va > vb:
            return False
        if ea != eb:
            return ea > eb
        ia += 1
        ib += 1


def p_lead(a):
    best = None
    for m in a:
        if best is None or mono_gt(m, best):
            best = m
    return best


def mono_div(a, b):
    """a/b or None"""
    if not b:
        return a
    d = dict(a)
    for v, e in b:
        x = d.get(v, 0) - e
        if x < 0:
            return None
        if x:
            d[v] = x
        else:
            d.pop(v, None)
    return tuple(sorted(d.items()))


def p_degs(a):
    d = {}
    for m in a:
        for v, e in m:
            if e > d.get(v, 0):
                d[v] = e
    return d


def p_exact_div(a, b):
    """a/b as polynomials (no use of square rules), or None"""
    if not a:
        return {}
    if p_is_const(b):
        return p_scale(a, Fraction(1) / p_const_val(b))
    da, db = p_degs(a), p_degs(b)
    for v, e in db.items():
        if da.get(v, 0) < e:
            return None
    lb = p_lead(b)
    cb = b[lb]
    if len(b) == 1:
        q = {}
        for m, c in a.items():
            d = mono_div(m, lb)
            if d is None:
                return None
            q[d] = norm_coef(Fraction(c) / cb)
        return q
    r = dict(a)
    q = {}
    steps = 0
    while r:
        steps += 1
        if steps > 400:
            return None
        lr = p_lead(r)
        d = mono_div(lr, lb)
        if d is None:
            return None
        k = norm_coef(Fraction(r[lr]) / cb)
        q[d] = k
        for m, c in b.items():
            mm = mono_mul(m, d)
            v = norm_coef(r.get(mm, 0) - k * c)
            if v:
                r[mm] = v
            else:
                r.pop(mm, None)
    return q


def frac_sqrt(c):
    """exact square root of a non-negative rational or None"""
    c = Fraction(c)
    if c < 0:
        return None
    n, d = isqrt(c.numerator), isqrt(c.denominator)
    if n * n == c.numerator and d * d == c.denominator:
        return norm_coef(Fraction(n, d))
    return None


def p_sqrt(a):
    """polynomial q with q*q == a (without square rules), or None"""
    if not a:
        return {}
    la = p_lead(a)
    c = frac_sqrt(a[la]) if a[la] > 0 else None
    if c is None or any(e % 2 for v, e in la):
        return None
    lm = tuple((v, e // 2) for v, e in la)
    q = {lm: c}
    for _ in range(60):
        # r = a - q*q (raw product)
        r = dict(a)
        for m1, c1 in q.items():
            for m2, c2 in q.items():
                m = mono_mul(m1, m2)
                v = norm_coef(r.get(m, 0) - c1 * c2)
                if v:
                    r[m] = v
                else:
                    r.pop(m, None)
        if not r:
            return q
        lr = p_lead(r)
        d = mono_div(lr, lm)
        if d is None or d in q:
            return None
        if mono_gt(d, lm):
            return None
        q[d] = norm_coef(Fraction(r[lr]) / (2 * c))
    return None


def p_str(a):
    if not a:
        return '0'
    out = []
    for m, c in sorted(a.items(), key=lambda it: str(it[0])):
        s = '*'.join(VT.names[v] + ('^%d' % e if e > 1 else '') for v, e in m)
        out.append(('%s*%s' % (c, s)) if s and c != 1 else (s or str(c)))
    return ' + '.join(out)


def p_eval(a, vals):
    """Evaluate with {vid: Fraction/float}; KeyError if a variable is missing"""
    t = 0
    for m, c in a.items():
        x = c
        for v, e in m:
            x = x * vals[v] ** e
        t = t + x
    return t
