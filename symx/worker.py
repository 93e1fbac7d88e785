"""
Runs one harness symbolically and writes a JSON result.
usage: worker <module> <harness> <param-index> <tier> <out.json>
"""
import importlib
import json
import os
import subprocess
import sys
import time
import traceback
from fractions import Fraction

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def setup_path():
    if HERE not in sys.path:
        sys.path.insert(0, HERE)
    vt = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'
    if vt not in sys.path:
        sys.path.append(vt)
    sys.setrecursionlimit(20000)


setup_path()
from symx import loader, harness as H           # noqa
from symx.poly import VT, p_vars                # noqa
from symx.terms import *                        # noqa
from symx.terms import ST, F, f_and, f_or, f_not, f_atom, f_eval, approx_sym, SxControl, Unsupported, T_, F_, Sym, SymBool   # noqa
from symx import engine                         # noqa
from symx.engine import Explorer, STATS, solve, closure     # noqa


def margin(f, m):
    """Strengthen f so that its atoms hold with margin m"""
    op = f.op
    if op in ('t', 'f'):
        return f
    if op in ('and', 'or'):
        return (f_and if op == 'and' else f_or)(*[margin(a, m) for a in f.args])
    d = f.diff if f.diff is not None else Sym(f.poly, (), 'r')
    if any(VT.kind[v] == 'int' for v in f.vars) and all(VT.kind[v] == 'int' for v in f.vars):
        return f
    if op == '!=':
        return f_or((d - m).rel('>='), (d + m).rel('<='))
    if op == '<':
        return (d + m).rel('<=')
    if op == '<=':
        return (d + m).rel('<=')
    return f


class Replayer(object):
    """Persistent process running harnesses concretely on the unmodified package"""

    def __init__(self):
        self.p = None

    def start(self):
        env = dict(os.environ)
        env['PYTHONPATH'] = HERE + os.pathsep + loader.REPO
        self.p = subprocess.Popen([sys.executable, '-m', 'symx.replay', '--server'], stdin=subprocess.PIPE,
                                  stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, env=env, cwd=HERE)

    def run(self, job, timeout=30):
        import select
        if self.p is None or self.p.poll() is not None:
            self.start()
        try:
            self.p.stdin.write(json.dumps(job) + '\n')
            self.p.stdin.flush()
            r, _, _ = select.select([self.p.stdout], [], [], timeout)
            if not r:
                self.p.kill()
                self.p = None
                return {'status': 'timeout', 'failed': []}
            line = self.p.stdout.readline()
            return json.loads(line)
        except (OSError, ValueError) as e:
            self.p = None
            return {'status': 'error', 'failed': [], 'exc': str(e)}

    def close(self):
        if self.p is not None and self.p.poll() is None:
            self.p.kill()
            self.p.wait()


class Stop(SxControl):
    pass


UNMODELLED = object()


class Recorder(object):
    def __init__(self, module, hname, pidx, tier, opts):
        self.module, self.hname, self.pidx, self.tier = module, hname, pidx, tier
        self.ob = {}            # label -> dict
        self.violations = []
        self.unreproduced = []
        self.inconclusive = []
        self.ex = None
        self.replayer = Replayer()
        self.samples = []
        self.cex_tries = 0
        self.unmodelled_tries = 0

    def entry(self, label):
        e = self.ob.get(label)
        if e is None:
            e = self.ob[label] = dict(reached=0, solver=0, normal=0, inconclusive=0, violated=0)
        return e

    def check(self, h, label, f):
        e = self.entry(label)
        e['reached'] += 1
        for g in (f.args if f.op == 'and' else (f,)):
            if g.op == 't':
                e['normal'] += 1
                continue
            p = h.path
            self.ex.check_time()
            known = p.facts.get(g.key)
            if known is True:
                e['normal'] += 1
                continue
            ng = f_not(g)
            if g.op == 'f':
                r, m = p.full_model()
            else:
                r, m = p.query(ng, timeout=self.ex.check_timeout)
            if r == 'unsat':
                if g.op == 'f':
                    raise InfeasiblePath()
                e['solver'] += 1
                if p.facts.get(g.key) is None:
                    p.facts[g.key] = True
                    p.facts[ng.key] = False
                continue
            if r == 'unknown':
                # an unknown may still have an easily found counterexample
                if self.cex_tries < 12 and self.counterexample(h, label, ng, quick=True):
                    e['violated'] += 1
                    raise Stop()
                e['inconclusive'] += 1
                self.inconclusive.append('%s: solver gave no answer' % label)
                continue
            # counterexample candidate
            got = self.counterexample(h, label, ng)
            if got:
                e['violated'] += 1
                raise Stop()
            e['inconclusive'] += 1
            self.unreproduced.append(label)
            if g.op == 'f':
                raise InfeasiblePath()

    def exception(self, h, exc, tb):
        """An exception escaped the harness on this path"""
        where = traceback.extract_tb(exc.__traceback__)
        lab = 'no unexpected %s' % type(exc).__name__
        e = self.entry(lab)
        e['reached'] += 1
        got = self.counterexample(h, lab, T_, exc=exc)
        if got == 'infeasible':
            e['solver'] += 1
            return True
        if got:
            e['violated'] += 1
            raise Stop()
        e['inconclusive'] += 1
        last = where[-1] if where else None
        self.inconclusive.append('%s: %s at %s:%s (not reproduced concretely)' % (
            lab, exc, last and os.path.basename(last.filename), last and last.lineno))

    def unmodelled(self, h):
        """The path reached something the engine has no model for: let the solver give inputs which reach it (clear of all
        branch conditions); the real code either fails a check on them or the path stays undecided"""
        self.unmodelled_tries += 1
        if self.unmodelled_tries > 6:
            return False
        return self.counterexample(h, 'beyond unmodelled code', T_, exc=UNMODELLED, quick=True) is True

    # -- counterexamples
    def inputs_from(self, model, h):
        """Concrete input values from a model"""
        import math
        out = {}
        for vid, spec in self.ex.cur_inputs.items():
            kind, name = spec[0], spec[1]
            v = model.get(vid)
            if kind == 'int':
                out[name] = int(v) if v is not None else 0
            elif kind == 'real':
                out[name] = float(v) if v is not None else 0.0
            else:
                k, vc, vs = spec[2], spec[3], spec[4]
                c, s = model.get(vc), model.get(vs)
                base = float(v) if v is not None else 0.0
                # finer bases introduced on the path take precedence
                ent = h.path.trig.get((((vid, 1),), 'turn'))
                if ent is not None and float(ent[0]) != k:
                    kk = float(ent[0])
                    ids = [list(p_vars(x.num)) for x in ent[1:3]]
                    if all(len(i) == 1 for i in ids):
                        c2, s2 = model.get(ids[0][0]), model.get(ids[1][0])
                        if c2 is not None and s2 is not None:
                            k, c, s = kk, c2, s2
                if c is None or s is None:
                    out[name] = base
                else:
                    a = math.atan2(float(s), float(c)) / (2 * math.pi * k)
                    per = 1.0 / k
                    a += per * round((base - a) / per) if v is not None else 0
                    ra = round(a, 6)
                    out[name] = ra if abs(ra - a) < 1e-9 else a
        return out

    def nice(self, fs, model, h, budget=3.0):
        """Greedily move input values to simple numbers while fs stays satisfiable"""
        t0 = time.time()
        fixed = []
        items = []
        for vid, spec in self.ex.cur_inputs.items():
            if spec[0] == 'angle':
                items.append(('angle', spec[3], spec[4]))
            else:
                items.append((spec[0], vid))
        for it in items:
            if time.time() - t0 > budget:
                break
            if it[0] == 'angle':
                if it[1] not in model and it[2] not in model:
                    continue
                cands = [(Fraction(3, 5), Fraction(4, 5)), (Fraction(4, 5), Fraction(3, 5)), (0, 1), (1, 0), (-1, 0), (0, -1),
                         (Fraction(-3, 5), Fraction(4, 5)), (Fraction(3, 5), Fraction(-4, 5))]
                for c, s in cands:
                    try_f = [(Sym({((it[1], 1),): 1}) - c).rel('='), (Sym({((it[2], 1),): 1}) - s).rel('=')]
                    r, m = solve(fs + fixed + try_f, 800)
                    if r == 'sat' and m:
                        fixed += try_f
                        model = m
                        break
                continue
            vid = it[1]
            v = model.get(vid)
            if v is None:
                continue
            fv = float(v)
            if it[0] == 'int':
                cands = [int(v)]
            else:
                cands = []
                for c in (round(fv), round(fv) + 1, round(fv) - 1, Fraction(round(fv * 2), 2), Fraction(round(fv * 8), 8),
                          Fraction(round(fv * 100), 100)):
                    if c not in cands:
                        cands.append(c)
                if v in cands:
                    cands.remove(v)
                    cands.insert(0, v)
            for c in cands:
                try_f = [(Sym.var(VT.names[vid], VT.kind[vid]) - Sym.const(Fraction(c))).rel('=')]
                if try_f[0].op == 'f':
                    continue
                r, m = solve(fs + fixed + try_f, 800)
                if r == 'sat' and m:
                    if try_f[0].op != 't':
                        fixed += try_f
                    model = m
                    break
        return model

    def counterexample(self, h, label, nf, exc=None, quick=False):
        """Find concrete inputs satisfying pc and nf, and replay them on the real code"""
        p = h.path
        self.cex_tries += 1
        bounds = []
        for vid, spec in self.ex.cur_inputs.items():
            if spec[0] != 'angle':
                s = Sym.var(VT.names[vid], VT.kind[vid])
                bounds += [(s - 50).rel('<='), (s + 50).rel('>=')]
        tried = []
        sat_seen = False
        all_unsat = True
        one, cent, mil = Fraction(1), Fraction(1, 100), Fraction(1, 1000)
        plans = [(one, cent, True), (cent, mil, True), (None, mil, True), (None, None, True), (one, None, False),
                 (Fraction(1, 10**5), None, False), (None, None, False)]
        if quick:
            plans = [(one, cent, True), (cent, None, True)]
        if exc is not None or nf.op == 't':
            plans = [(None, cent, True), (None, None, True), (None, None, False)]
        if exc is UNMODELLED:
            plans, exc = plans[:1], None
        t_end = time.time() + (15 if quick else 60)
        for mg, pm, bnd in plans:
            if time.time() > t_end:
                break
            fs = [c if pm is None else margin(c, pm) for c in p.pc]
            fs.append(nf if mg is None else margin(nf, mg))
            if any(f.op == 'f' for f in fs):
                continue
            fs = [f for f in fs if f.op != 't']
            vs = set()
            for f in fs:
                vs |= f.vars
            vs |= set(self.ex.cur_inputs)
            for spec in self.ex.cur_inputs.values():
                if spec[0] == 'angle':
                    vs |= {spec[3], spec[4]}
            vs, defs = closure(vs)
            base = fs + defs + (bounds if bnd else [])
            r, m = solve(base, 3000 if quick else 6000, model_vars=vs)
            if r != 'unsat':
                all_unsat = False if (mg is None and pm is None and not bnd) or r == 'sat' else all_unsat
            if r != 'sat' or m is None:
                if r == 'unknown':
                    all_unsat = False
                continue
            sat_seen = True
            cands = [m]
            try:
                m2 = self.nice(base, m, h, 2.0 if quick else 5.0)
                if m2 is not m:
                    cands.insert(0, m2)
            except SxControl:
                pass
            for mm in cands:
                inp = self.inputs_from(mm, h)
                key = (tuple(sorted(inp.items())), tuple(sorted(p.choices.items())))
                if key in tried:
                    continue
                tried.append(key)
                job = dict(module=self.module, harness=self.hname, param=self.pidx, tier=self.tier,
                           inputs=inp, choices=dict(p.choices))
                res = self.replayer.run(job)
                hit = None
                if res.get('failed'):
                    hit = label if label in res['failed'] else res['failed'][0]
                elif res.get('status') == 'exception':
                    hit = 'no unexpected %s' % res.get('exc_type')
                if hit is not None:
                    self.violations.append(dict(label=hit, found_for=label, job=job, result=res,
                                                path=[str(c)[:300] for c in p.pc[:30]]))
                    return True
        if exc is not None and not sat_seen and all_unsat:
            return 'infeasible'
        # the solver has a counterexample, but in the over-approximation (an angle not tied to its input, say): concretise it
        # at inputs in general position near the model before giving up
        if sat_seen and (exc is not None or nf.op != 't'):
            for inp in self.variants(tried[:2]):
                if time.time() > t_end:
                    break
                job = dict(module=self.module, harness=self.hname, param=self.pidx, tier=self.tier, inputs=inp, choices=dict(p.choices))
                res = self.replayer.run(job)
                failed = res.get('failed') or ()
                if exc is not None and failed:      # an error in exact arithmetic (division by zero) which rounding avoids, with other results than promised
                    failed = [label] + list(failed)
                elif exc is not None and res.get('status') == 'exception' and res.get('exc_type') == type(exc).__name__:
                    failed = [label]
                if label in failed:
                    self.violations.append(dict(label=failed[-1], found_for=label, job=job, result=res,
                                                path=[str(c)[:300] for c in p.pc[:30]]))
                    return True
        return False

    @staticmethod
    def variants(tried):
        for key in tried:
            inp = dict(key[0])
            for only_zero in (True, False):
                for k in (1, 2):
                    yield {n: v if isinstance(v, int) or (only_zero and v) else round(v + ((i * 7 + k * 5) % 11 + 3) / 8 * (-1) ** (i + k), 4)
                           for i, (n, v) in enumerate(sorted(inp.items()))}


def watch_functions(store):
    """Record the code objects of /repo functions that execute symbolically"""
    mon = sys.monitoring
    tid = 3
    try:
        mon.use_tool_id(tid, 'symx')
    except ValueError:
        return
    pref = os.path.join(loader.REPO, 'x7')

    def start(code, off):
        if code.co_filename.startswith(pref):
            store.add('%s:%s' % (os.path.relpath(code.co_filename, loader.REPO), code.co_qualname))
        return mon.DISABLE
    mon.register_callback(tid, mon.events.PY_START, start)
    mon.set_events(tid, mon.events.PY_START)


def main(argv):
    module, hname, pidx, tier, out = argv
    t0 = time.time()
    loader.install()
    funcs = set()
    res = dict(module=module, harness=hname, param=pidx, status='ok')
    try:
        importlib.import_module(module)
        hs = [h for h in H.REGISTRY if h.name == hname and h.module == module]
        har = hs[0]
        kw = har.params[int(pidx)] if har.params else {}
        o = har.opts
        mult = 1 if tier == 'quick' else 6
        tlim = o.get('time', 60) * mult
        ex = Explorer(feas_timeout=o.get('feas', 1500) * (1 if tier == 'quick' else 3),
                      check_timeout=o.get('solve', 10000) * (1 if tier == 'quick' else 5),
                      max_paths=o.get('paths', 3000) * mult, time_limit=tlim)
        rec = Recorder(module, hname, pidx, tier, o)
        rec.ex = ex
        watch_functions(funcs)
        ST.merge = bool(o.get('merge'))
        unsupported = []
        nval = o.get('validate', 3)
        ident = dict(confirmed=0, unconfirmed=0)
        validated = dict(ok=0, diverged=0, skipped=0, details=[])
        vac = dict(completed=0, witnessed=0)

        def validate(h, path):
            r, m = path.full_model(timeout=3000)
            if r == 'unsat':
                raise InfeasiblePath()
            if r != 'sat' or m is None or (not m and path.pc):
                validated['skipped'] += 1
                return
            vac['witnessed'] += 1
            fs = list(path.pc)
            for vid, spec in ex.cur_inputs.items():
                if spec[0] != 'angle':
                    s = Sym.var(VT.names[vid], VT.kind[vid])
                    fs += [(s - 50).rel('<='), (s + 50).rel('>=')]
            vs = set(ex.cur_inputs)
            for f in fs:
                vs |= f.vars
            for spec in ex.cur_inputs.values():
                if spec[0] == 'angle':
                    vs |= {spec[3], spec[4]}
            vs, defs = closure(vs)
            strong = [margin(c, Fraction(1, 100)) for c in fs]
            if not any(c.op == 'f' for c in strong):
                r2, m2 = solve([c for c in strong if c.op != 't'] + defs, 2000, model_vars=vs)
                if r2 == 'sat' and m2 is not None:
                    m = m2
            inp = rec.inputs_from(m, h)
            vals = {VT.ids[n]: v for n, v in inp.items()}
            job = dict(module=module, harness=hname, param=pidx, tier=tier, inputs=inp, choices=dict(path.choices))
            rr = rec.replayer.run(job)
            exp = []
            for x in h.trace:
                if isinstance(x, Sym):
                    try:
                        exp.append(approx_sym(x, vals))
                    except (TypeError, ZeroDivisionError, OverflowError):
                        exp.append(None)
                elif isinstance(x, SymBool):
                    exp.append(None)
                else:
                    exp.append(x)
            got = rr.get('obs') or []
            same = rr.get('status') == 'ok' and not rr.get('failed') and len(got) == len(exp)
            ncmp = 0
            if same:
                for a, b in zip(exp, got):
                    if a is None:
                        continue
                    if isinstance(a, float) and isinstance(b, float):
                        ncmp += 1
                        if not abs(a - b) <= 1e-6 * max(1.0, abs(a), abs(b)):
                            same = False
                            break
            if same:
                validated['ok'] += 1
                if len(rec.samples) < 3:
                    rec.samples.append(dict(harness=hname, inputs=inp, choices=dict(path.choices), compared_values=ncmp))
            else:
                validated['diverged'] += 1
                if len(validated['details']) < 3:
                    validated['details'].append(dict(job=job, status=rr.get('status'), failed=rr.get('failed'),
                                                     exc=rr.get('exc'), n=[len(exp), len(got)],
                                                     first=[(a, b) for a, b in zip(exp, got) if isinstance(a, float) and
                                                            isinstance(b, float) and abs(a - b) > 1e-6 * max(1, abs(a))][:2]))

        def body(path):
            h = H.SymH(path, rec, tier)
            try:
                har.fn(h, **kw)
            except Unsupported as e:
                unsupported.append(str(e)[:300])
                tb = traceback.extract_tb(e.__traceback__)
                for fr in reversed(tb):
                    if loader.REPO in fr.filename or 'checks' in fr.filename:
                        unsupported[-1] += ' [%s:%s]' % (os.path.basename(fr.filename), fr.lineno)
                        break
                try:
                    return 'stop' if rec.unmodelled(h) else 'unsupported'
                except SxControl:
                    return 'unsupported'
            except Stop:
                return 'stop'
            except SxControl:
                raise
            except RecursionError as e:
                unsupported.append('recursion limit: %s' % str(e)[:100])
                try:
                    return 'stop' if rec.unmodelled(h) else 'unsupported'
                except SxControl:
                    return 'unsupported'
            except Exception as e:
                try:
                    if not rec.exception(h, e, None) and rec.unmodelled(h):
                        return 'stop'
                except Stop:
                    return 'stop'
                except SxControl:
                    pass
                return 'exception'
            if h.raw:
                if engine.confirm_equal(h.raw):
                    ident['confirmed'] += len(h.raw)
                else:
                    ident['unconfirmed'] += len(h.raw)
            if vac['witnessed'] == 0 or vac['completed'] in (1, 3, 7, 15, 31, 63, 127) and \
                    validated['ok'] + validated['diverged'] + validated['skipped'] < nval:
                validate(h, path)
            vac['completed'] += 1
            return 'done'

        ex.run(body)
        rec.replayer.close()
        res.update(obligations=rec.ob, violations=rec.violations, unreproduced=rec.unreproduced,
                   inconclusive=rec.inconclusive, paths=ex.paths, infeasible=ex.infeasible, transitions=ex.transitions,
                   unknown_branches=ex.unknown_branches, truncated=ex.truncated, unsupported=sorted(set(unsupported))[:10],
                   n_unsupported=len(unsupported), identities=ident, validated=validated, completed=vac['completed'], witnessed=vac['witnessed'],
                   samples=rec.samples, bounds=o.get('bounds', ''), stubs=o.get('stubs', ''))
    except SxControl as e:
        res.update(status='error', error='%s: %s' % (type(e).__name__, e), trace=traceback.format_exc()[-2000:])
    except Exception as e:
        res.update(status='error', error='%s: %s' % (type(e).__name__, e), trace=traceback.format_exc()[-3000:])
    res['functions'] = sorted(funcs)
    res['solver'] = STATS.as_dict()
    res['wall_s'] = round(time.time() - t0, 2)
    with open(out, 'w') as f:
        json.dump(res, f, default=str)
    return 0


if __name__ == '__main__':
    sys.exit(main(sys.argv[1:]))
