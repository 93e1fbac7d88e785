"""
Path exploration (depth-first by re-execution) and solver queries.
"""
import os
import random
import subprocess
import tempfile
import time
from fractions import Fraction
from .poly import *
from .poly import VT
from .terms import *
from .terms import ST, F, f_atom, f_and, f_or, f_not, T_, F_
import z3

z3.set_param('smt.random_seed', 1)


class Stats:
    def __init__(self):
        self.queries = 0
        self.solver_s = 0.0
        self.by_backend = {}
        self.unknown = 0
        self.sat = 0
        self.unsat = 0
        self.cache_hits = 0

    def as_dict(self):
        return dict(queries=self.queries, solver_s=round(self.solver_s, 3), backends=self.by_backend,
                    sat=self.sat, unsat=self.unsat, unknown=self.unknown, cache_hits=self.cache_hits)


STATS = Stats()

_zvars = {}
_zpoly = {}


def zvar(v):
    r = _zvars.get(v)
    if r is None:
        n = 'v%d' % v
        r = z3.Int(n) if VT.kind[v] == 'int' else z3.Real(n)
        _zvars[v] = r
    return r


def zpoly(p):
    """z3 term of an integer-coefficient polynomial"""
    k = p_key(p)
    r = _zpoly.get(k)
    if r is None:
        ts = []
        all_int = all(VT.kind[v] == 'int' for v in p_vars(p))
        for m, c in p.items():
            fs = []
            for v, e in m:
                x = zvar(v)
                if not all_int and VT.kind[v] == 'int':
                    x = z3.ToReal(x)
                fs += [x] * e
            if all_int:
                cc = z3.IntVal(int(c))
            else:
                cc = z3.RealVal(str(c))
            if not fs:
                ts.append(cc)
            elif c == 1:
                ts.append(z3.Product(fs) if len(fs) > 1 else fs[0])
            else:
                ts.append(z3.Product([cc] + fs))
        r = z3.Sum(ts) if len(ts) > 1 else ts[0]
        _zpoly[k] = r
    return r


def zform(f):
    op = f.op
    if op == 't':
        return z3.BoolVal(True)
    if op == 'f':
        return z3.BoolVal(False)
    if op == 'and':
        return z3.And([zform(a) for a in f.args])
    if op == 'or':
        return z3.Or([zform(a) for a in f.args])
    p = f.poly
    k = p_content(p)
    if k and k != 1:
        p = p_scale(p, Fraction(1) / k)
    t = zpoly(p)
    if op == '<':
        return t < 0
    if op == '<=':
        return t <= 0
    if op == '=':
        return t == 0
    return t != 0


def f_degree(f):
    if f.poly is not None:
        return max(sum(e for v, e in m) for m in f.poly)
    return max([f_degree(a) for a in f.args], default=0)


def closure(formulas_vars):
    """All variables reachable through definitions, and the definitions themselves"""
    todo = list(formulas_vars)
    seen = set(todo)
    defs = []
    dk = set()
    while todo:
        v = todo.pop()
        for d in VT.defs.get(v, ()):
            if d.key not in dk:
                dk.add(d.key)
                defs.append(d)
            for w in d.vars:
                if w not in seen:
                    seen.add(w)
                    todo.append(w)
    return seen, defs


def _num(z):
    """z3 numeral -> Fraction or float (algebraic)"""
    if z3.is_int_value(z):
        return Fraction(z.as_long())
    if z3.is_rational_value(z):
        return Fraction(z.numerator_as_long(), z.denominator_as_long())
    if z3.is_algebraic_value(z):
        a = z.approx(30)
        return float(Fraction(a.numerator_as_long(), a.denominator_as_long()))
    return None


def get_model(m, vs):
    out = {}
    for v in vs:
        z = m.eval(zvar(v), model_completion=True)
        n = _num(z)
        if n is not None:
            out[v] = n
    return out


CVC5 = '/usr/bin/cvc5'
for _c in ('/usr/local/bin/cvc5', '/usr/bin/cvc5', '/opt/veriftools/bin/cvc5'):
    if os.path.exists(_c):
        CVC5 = _c
        break


def run_cvc5(fs, timeout_ms):
    s = z3.Solver()
    for f in fs:
        s.add(zform(f))
    txt = s.to_smt2()
    txt = '(set-logic ALL)\n' + '\n'.join(l for l in txt.splitlines() if not l.startswith('; ') and 'set-info' not in l)
    try:
        r = subprocess.run([CVC5, '--lang=smt2', '--tlimit=%d' % timeout_ms, '-'], input=txt, text=True,
                           capture_output=True, timeout=timeout_ms / 1000 + 5)
    except (subprocess.TimeoutExpired, OSError):
        return 'unknown'
    out = r.stdout.strip().splitlines()
    if out and out[0] in ('sat', 'unsat') and '(error' not in r.stdout:
        return out[0]
    return 'unknown'


def solve(fs, timeout=8000, model_vars=None, want_model=True):
    """-> ('sat', {vid: value} or None) | ('unsat', None) | ('unknown', None)"""
    t0 = time.time()
    vs = set()
    nonlin = False
    ints = False
    for f in fs:
        vs |= f.vars
        if not nonlin and f_degree(f) > 1:
            nonlin = True
    for v in vs:
        if VT.kind[v] == 'int':
            ints = True
    zf = [zform(f) for f in fs]
    STATS.queries += 1
    res = 'unknown'
    model = None
    if not nonlin:
        plan = [('z3-lin', lambda: z3.Solver(), timeout)]
    elif not ints:
        plan = [('z3-nlsat', lambda: z3.Tactic('qfnra-nlsat').solver(), max(300, timeout // 4)),
                ('z3-smt', lambda: z3.Solver(), max(300, timeout // 4)),
                ('cvc5', None, timeout // 2),
                ('z3-nlsat', lambda: z3.Tactic('qfnra-nlsat').solver(), timeout)]
    else:
        plan = [('z3-smt', lambda: z3.Solver(), timeout), ('cvc5', None, timeout // 2)]
    for name, mk, tmo in plan:
        if mk is None:
            if timeout < 3000:
                continue
            r = run_cvc5(fs, tmo)
            if r == 'unsat':
                res = 'unsat'
            elif r == 'sat':
                res = 'sat'
                model = None
            STATS.by_backend[name] = STATS.by_backend.get(name, 0) + 1
            if res != 'unknown':
                break
            continue
        s = mk()
        s.set('timeout', int(tmo))
        s.add(zf)
        try:
            r = s.check()
        except z3.Z3Exception:
            r = z3.unknown
        STATS.by_backend[name] = STATS.by_backend.get(name, 0) + 1
        if r == z3.unsat:
            res = 'unsat'
            break
        if r == z3.sat:
            res = 'sat'
            if want_model:
                try:
                    model = get_model(s.model(), model_vars if model_vars is not None else vs)
                except z3.Z3Exception:
                    model = None
            break
    STATS.solver_s += time.time() - t0
    if res == 'sat':
        STATS.sat += 1
    elif res == 'unsat':
        STATS.unsat += 1
    else:
        STATS.unknown += 1
    return res, model


def confirm_equal(pairs):
    """Put identities that the canonical form already closed to the solver as well: unsat of  OR a_i != b_i"""
    t0 = time.time()
    zs = []
    for a, b in pairs:
        pa, pb = a.num, b.num
        for f, e in b.den:
            pa = p_mul(pa, p_pow(f, e))
        for f, e in a.den:
            pb = p_mul(pb, p_pow(f, e))
        zs.append(zpoly(pa) != zpoly(pb) if pa and pb else z3.BoolVal(bool(pa) != bool(pb)))
    s = z3.Solver()
    s.set('timeout', 2000)
    s.add(z3.Or(zs))
    r = s.check()
    STATS.queries += 1
    STATS.by_backend['z3-identity'] = STATS.by_backend.get('z3-identity', 0) + 1
    STATS.solver_s += time.time() - t0
    if r == z3.unsat:
        STATS.unsat += 1
    else:
        STATS.unknown += 1
    return r == z3.unsat


_memo = {}


class Decision(object):
    __slots__ = ('value', 'forced', 'alts', 'model')

    def __init__(self, value, forced=False, alts=(), model=None):
        self.value = value
        self.forced = forced
        self.alts = list(alts)      # remaining alternatives: (value, model)
        self.model = model


class PathLimit(SxControl):
    pass


class Path(object):
    """One execution of the harness along a decision prefix"""

    def __init__(self, explorer, prefix):
        self.ex = explorer
        self.prefix = prefix            # list of Decision (shared with explorer)
        self.pos = 0
        self.pc = []                    # formulas
        self.trig = {}
        self.model = {}                 # candidate model satisfying pc (partial)
        self.model_ok = True
        self.choices = {}
        self.observed = []
        self.checks = 0
        self.approx_feasible = False    # some feasibility query was 'unknown'
        self.facts = {}
        self.random_source = None

    # ---- path condition
    def slice(self, fvars):
        """pc constraints (plus definitions) connected to the given variables"""
        vs, defs = closure(fvars)
        pool = [(c, closure(c.vars)[0]) if c.vars else (c, c.vars) for c in self.pc]
        chosen = []
        changed = True
        pending = pool
        while changed:
            changed = False
            rest = []
            for c, cv in pending:
                if cv & vs:
                    chosen.append(c)
                    if not cv <= vs:
                        vs |= cv
                    changed = True
                else:
                    rest.append((c, cv))
            pending = rest
        vs2, defs = closure(vs)
        # definitions may connect further constraints, but closure(c.vars) already included them
        return chosen + defs, vs2

    def add_fact(self, f):
        """A definitional constraint that is known to be satisfiable together with the rest"""
        if f.op == 't':
            return
        if f.key in self.facts:
            return
        self.facts[f.key] = True
        self.pc.append(f)
        self.model_ok = False

    def assume(self, f):
        for g in (f.args if f.op == 'and' else (f,)):
            known = self.facts.get(g.key)
            if known is True:
                continue
            if known is False:
                raise InfeasiblePath()
            if self._eval(g) is not True:
                r, m = self.query(g)
                if r == 'unsat':
                    raise InfeasiblePath()
                mm = self._merge(m)
                if r == 'unknown':
                    self.approx_feasible = True
                if mm is None or any(type(x) is float for x in mm.values()):
                    self.model_ok = False
                else:
                    self.model = mm
            self.pc.append(g)
            self.facts[g.key] = True
            self.facts[f_not(g).key] = False

    def query(self, f, timeout=None):
        """Is pc and f satisfiable?  -> ('sat'|'unsat'|'unknown', model)"""
        if f.op == 'f':
            return 'unsat', None
        if f.op == 't':
            return 'sat', None
        sl, vs = self.slice(f.vars)
        key = (f.key, frozenset(c.key for c in sl))
        r = _memo.get(key)
        if r is not None:
            STATS.cache_hits += 1
            return r
        r = solve(sl + [f], timeout or self.ex.feas_timeout, model_vars=vs)
        _memo[key] = r
        return r

    def _eval(self, f):
        if not self.model_ok:
            return None
        try:
            return f_eval(f, self.model)
        except (KeyError, TypeError, OverflowError):
            return None

    def branch(self, f):
        """Decide formula f on this path, forking if both outcomes are feasible"""
        k = f.key
        known = self.facts.get(k)
        if known is not None:
            return known
        nf = f_not(f)
        if self.pos < len(self.prefix):
            d = self.prefix[self.pos]
            self.pos += 1
            val = d.value
            self._take(f if val else nf, d)
            self.facts[k] = val
            self.facts[nf.key] = not val
            return val
        self.ex.check_time()
        ev = self._eval(f)
        m_t = m_f = None
        if ev is True:
            st = 'sat'
            m_t = self.model
            sf, mm = self.query(nf)
            m_f = self._merge(mm)
        elif ev is False:
            sf = 'sat'
            m_f = self.model
            st, mm = self.query(f)
            m_t = self._merge(mm)
        else:
            st, mm = self.query(f)
            m_t = self._merge(mm)
            sf, mm2 = self.query(nf) if st != 'unsat' else ('sat', None)
            m_f = self._merge(mm2)
        if st == 'unknown' or sf == 'unknown':
            self.ex.unknown_branches += 1
            self.approx_feasible = True
        if st == 'unsat' and sf == 'unsat':
            raise InfeasiblePath()
        if st == 'unsat':
            d = Decision(False, forced=True, model=m_f)
        elif sf == 'unsat':
            d = Decision(True, forced=True, model=m_t)
        else:
            first, second = (True, False)
            d = Decision(first, alts=[(second, m_f)], model=m_t)
        self.prefix.append(d)
        self.pos += 1
        self.ex.transitions += 1
        self._take(f if d.value else nf, d)
        self.facts[k] = d.value
        self.facts[nf.key] = not d.value
        return d.value

    def _merge(self, m):
        if m is None or not self.model_ok:
            return m if (m is not None) else None
        if any(type(x) is float for x in m.values()):
            return None
        r = dict(self.model)
        r.update(m)
        return r

    def _take(self, f, d):
        if not d.forced:
            self.pc.append(f)
        elif f.op != 't':
            pass        # implied by pc; not needed (kept out to keep queries small)
        if d.model is not None:
            if any(type(x) is float for x in d.model.values()):
                self.model_ok = False
            else:
                self.model = d.model
                self.model_ok = True
        elif not d.forced:
            self.model_ok = False

    def choose(self, name, n):
        """Non-deterministic choice among 0..n-1 (enumerated, not solved)"""
        if self.pos < len(self.prefix):
            d = self.prefix[self.pos]
            self.pos += 1
        else:
            d = Decision(0, alts=[(i, self.model if self.model_ok else None) for i in range(1, n)],
                         model=self.model if self.model_ok else None)
            self.prefix.append(d)
            self.pos += 1
            self.ex.transitions += 1
        if d.model is not None:
            self.model = d.model
        self.choices[name] = d.value
        return d.value

    def enumerate_int(self, s):
        """Fork over all values of an integer-kind Sym on this path"""
        for _ in range(64):
            # candidate from the current model
            cand = None
            if self.pos < len(self.prefix):
                d = self.prefix[self.pos]
                if isinstance(d.value, tuple):
                    pass
            if self.pos < len(self.prefix) and isinstance(self.prefix[self.pos].value, tuple):
                d = self.prefix[self.pos]
                self.pos += 1
                kind, cand = d.value
            else:
                # pick a value
                st, m = self.query(f_atom('=', p_sub(s.num, s.num))) if False else (None, None)
                cand = self._pick(s)
                d = Decision(('pick', cand), forced=True, model=self.model if self.model_ok else None)
                self.prefix.append(d)
                self.pos += 1
            if bool(mk_bool((s - cand).rel('='))):
                return int(cand)
        raise Unsupported('unbounded symbolic integer used as a size or index: %s' % s.show())

    def _pick(self, s):
        if self.model_ok:
            try:
                v = p_eval(s.num, self.model)
                return int(v)
            except (KeyError, TypeError):
                pass
        sl, vs = self.slice(frozenset(p_vars(s.num)))
        r, m = solve(sl, self.ex.feas_timeout, model_vars=vs)
        if r == 'sat' and m:
            try:
                return int(p_eval(s.num, m))
            except (KeyError, TypeError):
                pass
        return 0

    def full_model(self, extra=(), timeout=10000, soft=()):
        """A model of the whole path condition and extra formulas"""
        fs = list(self.pc) + list(extra)
        vs = set()
        for f in fs:
            vs |= f.vars
        vs |= set(VT.inputs) & set(self.ex.cur_inputs)
        vs, defs = closure(vs)
        r, m = solve(fs + defs, timeout, model_vars=vs)
        return r, m


class Explorer(object):
    def __init__(self, feas_timeout=1500, check_timeout=10000, max_paths=20000, time_limit=300):
        self.feas_timeout = feas_timeout
        self.check_timeout = check_timeout
        self.max_paths = max_paths
        self.time_limit = time_limit
        self.t0 = time.time()
        self.transitions = 0
        self.paths = 0
        self.infeasible = 0
        self.unknown_branches = 0
        self.cur_inputs = {}
        self.truncated = None

    def check_time(self):
        if time.time() - self.t0 > self.time_limit:
            raise PathLimit('time limit of %d s' % self.time_limit)

    def run(self, body):
        """body(path) is executed for every feasible path; returns list of per-path results

        The open alternatives are taken in turn from the deepest, the shallowest and a pseudo-random place: the order
        makes no difference when all paths are explored, but an exploration that stops at a limit has seen some of
        every corner and not all of one."""
        frontier = []       # (prefix, index of the decision, other value, model)
        results = []
        rng = random.Random(1)
        prefix, turn = [], 0
        while True:
            known = len(prefix)
            path = Path(self, prefix)
            ST.ctx = path
            self.cur_inputs = {}
            try:
                res = body(path)
                self.paths += 1
                results.append(res)
                stop = res == 'stop'
            except InfeasiblePath:
                self.infeasible += 1
                stop = False
            except PathLimit as e:
                self.truncated = str(e)
                stop = True
            finally:
                ST.ctx = None
            if stop:
                break
            for i in range(known, len(prefix)):
                for value, model in reversed(prefix[i].alts):
                    frontier.append((prefix, i, value, model))
            if not frontier:
                break
            if self.paths + self.infeasible >= self.max_paths:
                self.truncated = 'path limit of %d' % self.max_paths
                break
            # next alternative
            turn = (turn + 1) % 3
            k = (len(frontier) - 1, 0, rng.randrange(len(frontier)))[turn]
            base, i, value, model = frontier.pop(k)
            prefix = base[:i] + [Decision(value, model=model)]
        return results
