#!/usr/bin/env python3
"""mutate.py gen OUT.json | test OUT.json | check OUT.json [N]: systematic small changes to x7/geom, which of them the
repository's own tests let through, and which of those the checks of the functions concerned report.

A tool for finding gaps; nothing in here is used by the checks."""
import ast, json, os, random, shutil, subprocess, sys, tempfile, glob
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, 'tools'))
FILES = ['anim', 'anim_simple', 'bezier', 'colors', 'drawing', 'geom', 'imagehelp', 'model', 'plot_utils', 'testing', 'transform', 'utils', 'vec_field']
CMP = {ast.Lt: ['<='], ast.LtE: ['<'], ast.Gt: ['>='], ast.GtE: ['>'], ast.Eq: ['!='], ast.NotEq: ['=='], ast.Is: ['is not'], ast.IsNot: ['is'],
       ast.In: ['not in'], ast.NotIn: ['in']}
ARI = {ast.Add: '-', ast.Sub: '+', ast.Mult: '/', ast.Div: '*', ast.FloorDiv: '/', ast.Mod: '*', ast.Pow: '*'}


def gen(name):
    src = open('/repo/x7/geom/%s.py' % name).read()
    lines = src.splitlines(keepends=True)
    offs = [0]
    for l in lines:
        offs.append(offs[-1] + len(l.encode()))
    b = src.encode()
    pos = lambda n: (offs[n.lineno - 1] + n.col_offset, offs[n.end_lineno - 1] + n.end_col_offset)
    seg = lambda n: b[slice(*pos(n))].decode()
    out = []

    def add(func, s, e, new, what):
        out.append(dict(file=name, func=func, start=s, end=e, new=new, old=b[s:e].decode(), line=b[:s].count(b'\n') + 1, what=what))

    def visit(n, func):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            q = func + '.' + n.name if func else n.name
            for c in n.body:
                visit(c, q)
            if isinstance(n, ast.FunctionDef):
                for d in n.args.defaults + [k for k in n.args.kw_defaults if k]:
                    visit(d, q)
            return
        if func and not isinstance(n, (ast.Import, ast.ImportFrom)):
            s = e = None
            if hasattr(n, 'lineno'):
                s, e = pos(n)
            if isinstance(n, ast.Compare) and len(n.ops) == 1:
                for r in CMP.get(type(n.ops[0]), []):
                    add(func, s, e, '(%s %s %s)' % (seg(n.left), r, seg(n.comparators[0])), 'cmp')
            if isinstance(n, ast.BinOp) and type(n.op) in ARI:
                add(func, s, e, '((%s) %s (%s))' % (seg(n.left), ARI[type(n.op)], seg(n.right)), 'arith')
                if isinstance(n.op, (ast.Sub, ast.Div)):
                    add(func, s, e, '((%s) %s (%s))' % (seg(n.right), '-' if isinstance(n.op, ast.Sub) else '/', seg(n.left)), 'flip')
            if isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.USub, ast.Not)):
                add(func, s, e, '(%s)' % seg(n.operand), 'unary')
            if isinstance(n, ast.Constant) and type(n.value) in (int, float):
                add(func, s, e, repr(n.value + 1), 'const')
                if n.value == 1:
                    add(func, s, e, '0', 'const')
            if isinstance(n, ast.Constant) and type(n.value) is bool:
                add(func, s, e, repr(not n.value), 'const')
            if isinstance(n, ast.BoolOp):
                op = ' or ' if isinstance(n.op, ast.And) else ' and '
                add(func, s, e, '(' + op.join(seg(v) for v in n.values) + ')', 'bool')
                for i in range(len(n.values)):
                    rest = n.values[:i] + n.values[i + 1:]
                    add(func, s, e, '(' + (' and ' if isinstance(n.op, ast.And) else ' or ').join(seg(v) for v in rest) + ')', 'drop')
            if isinstance(n, ast.IfExp):
                add(func, s, e, '(%s)' % seg(n.body), 'ifexp')
                add(func, s, e, '(%s)' % seg(n.orelse), 'ifexp')
            if isinstance(n, (ast.If, ast.While)):
                ts, te = pos(n.test)
                add(func, ts, te, '(not (%s))' % seg(n.test), 'cond')
                if isinstance(n, ast.If):
                    add(func, ts, te, 'False', 'cond')
                    add(func, ts, te, 'True', 'cond')
            if isinstance(n, ast.Call):
                if isinstance(n.func, ast.Attribute) and n.func.attr in ('copy', 'fixed', 'normal', 'unit', 'restore') and not n.args:
                    add(func, s, e, seg(n.func.value), 'nocopy')
                if isinstance(n.func, ast.Name) and n.func.id in ('list', 'tuple', 'abs', 'round', 'int', 'float', 'sorted', 'reversed') and len(n.args) == 1:
                    add(func, s, e, '(%s)' % seg(n.args[0]), 'nowrap')
                if len(n.args) >= 2 and not any(isinstance(a, ast.Starred) for a in n.args):
                    a, c = n.args[0], n.args[1]
                    if seg(a) != seg(c):
                        add(func, pos(a)[0], pos(c)[1], '%s, %s' % (seg(c), seg(a)), 'swap')
                for k in n.keywords:
                    if k.arg:
                        ks, ke = pos(k)
                        t = ke
                        while b[t:t + 1] in b' ,' and b[t:t + 1]:
                            t += 1
                        add(func, ks, t, '', 'nokw')
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load):
                sw = {'x': 'y', 'y': 'x', 'p1': 'p2', 'p2': 'p1', 'dl': 'dr', 'dr': 'dl', 'x1': 'x2', 'x2': 'x1', 'y1': 'y2', 'y2': 'y1', 'width': 'height', 'height': 'width',
                      'sin': 'cos', 'cos': 'sin'}.get(n.attr)
                if sw:
                    add(func, s, e, seg(n.value) + '.' + sw, 'attr')
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
                sw = {'min': 'max', 'max': 'min', 'any': 'all', 'all': 'any'}.get(n.id)
                if sw:
                    add(func, s, e, sw, 'name')
            if isinstance(n, (ast.Expr, ast.AugAssign, ast.Assign)) and not (isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant)):
                if not isinstance(n, ast.Assign) or not all(isinstance(t, ast.Name) for t in n.targets):
                    add(func, s, e, 'pass', 'delete')
            if isinstance(n, (ast.Continue, ast.Break)):
                add(func, s, e, 'pass', 'delete')
            if isinstance(n, ast.Raise):
                add(func, s, e, 'pass', 'delete')
            if isinstance(n, ast.JoinedStr):
                return
        for c in ast.iter_child_nodes(n):
            if isinstance(n, ast.Assert) and c is n.msg:
                continue
            visit(c, func)
    visit(ast.parse(src), '')
    res = []
    for m in out:
        t = (b[:m['start']] + m['new'].encode() + b[m['end']:]).decode()
        try:
            ast.parse(t)
        except SyntaxError:
            continue
        res.append(m)
    return res


def apply(root, m):
    p = os.path.join(root, 'x7/geom/%s.py' % m['file'])
    b = open('/repo/x7/geom/%s.py' % m['file'], 'rb').read()
    assert b[m['start']:m['end']].decode() == m['old']
    open(p, 'wb').write(b[:m['start']] + m['new'].encode() + b[m['end']:])
    return p


def undo(root, m):
    shutil.copy('/repo/x7/geom/%s.py' % m['file'], os.path.join(root, 'x7/geom/%s.py' % m['file']))


class Pool:
    """Scratch copies of /repo (and /verif), one per worker"""
    def __init__(self, n, verif=False):
        import queue
        self.q = queue.Queue()
        self.base = tempfile.mkdtemp(prefix='mut')
        for i in range(n):
            w = os.path.join(self.base, str(i))
            subprocess.run(['git', 'clone', '-q', '/repo', w + '/repo'], check=True)
            if verif:
                subprocess.run(['git', 'clone', '-q', HERE, w + '/verif'], check=True)
            self.q.put(w)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        shutil.rmtree(self.base, ignore_errors=True)


def test(path):
    import mkseed
    ms = json.load(open(path))
    base = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
    r, w = os.pipe()
    x = subprocess.Popen(['Xvfb', '-displayfd', str(w), '-screen', '0', '1280x1024x24', '-nolisten', 'tcp'], pass_fds=[w], stderr=subprocess.DEVNULL)
    mkseed.DISPLAY = ':' + os.read(r, 20).decode().strip()
    with Pool(8) as pool:
        def one(m):
            if 'survives' in m:
                return
            w = pool.q.get()
            try:
                apply(w + '/repo', m)
                try:
                    m['survives'] = not (base - mkseed.tests(w + '/repo', w + '/o.json'))
                except Exception as e:
                    m['survives'] = False
                undo(w + '/repo', m)
            finally:
                pool.q.put(w)
        with ThreadPoolExecutor(8) as ex:
            for i, _ in enumerate(ex.map(one, ms)):
                if i % 100 == 99:
                    json.dump(ms, open(path, 'w'), indent=0)
                    print(i + 1, sum(m.get('survives', False) for m in ms), flush=True)
    json.dump(ms, open(path, 'w'), indent=0)
    x.terminate()


def cover():
    res, cost = {}, {}
    for f in glob.glob(HERE + '/evidence/C*.json'):
        d = json.load(open(f))
        cost[d['property']] = d['wall_s']
        for q in d['functions_encoded']:
            res.setdefault(q, set()).add(d['property'])
    return res, cost


def check(path, limit, workers=3):
    """Run the checks of mutants chosen round robin over the functions"""
    ms = json.load(open(path))
    cov, cost = cover()
    by = {}
    for m in ms:
        if m.get('survives') and 'caught' not in m:
            by.setdefault((m['file'], m['func']), []).append(m)
    rnd = random.Random(1)
    for v in by.values():
        rnd.shuffle(v)
    order = []
    while any(by.values()):
        for v in by.values():
            if v:
                order.append(v.pop())
    order = [m for m in order if cov.get('x7/geom/%s.py:%s' % (m['file'], m['func']))][:limit]
    with Pool(workers, True) as pool:
        def one(m):
            w = pool.q.get()
            try:
                apply(w + '/repo', m)
                env = dict(os.environ, SYMX_REPO=w + '/repo', PYTHONPATH=w + '/repo', VERIF_SEED='1', VERIF_TIER='quick')
                ids = sorted(cov['x7/geom/%s.py:%s' % (m['file'], m['func'])], key=lambda c: cost[c])
                m['ran'], m['caught'] = {}, None
                for c in ids:
                    try:
                        p = subprocess.run(['timeout', '600', './check', c, 'quick'], cwd=w + '/verif', env=env, capture_output=True, text=True)
                        m['ran'][c] = p.returncode
                        if p.returncode == 1:
                            m['caught'] = c
                            break
                    except Exception as e:
                        m['ran'][c] = str(e)
                undo(w + '/repo', m)
                print('%-8s %s:%d %s [%s] %r -> %r %s' % (m['caught'] or 'MISSED', m['file'], m['line'], m['func'], m['what'], m['old'][:60], m['new'][:60], '' if m['caught'] else m['ran']), flush=True)
            finally:
                pool.q.put(w)
        with ThreadPoolExecutor(workers) as ex:
            for i, _ in enumerate(ex.map(one, order)):
                if i % 10 == 9:
                    json.dump(ms, open(path, 'w'), indent=0)
    json.dump(ms, open(path, 'w'), indent=0)


if __name__ == '__main__':
    if sys.argv[1] == 'gen':
        ms = [m for f in FILES for m in gen(f)]
        json.dump(ms, open(sys.argv[2], 'w'), indent=0)
        print(len(ms))
    elif sys.argv[1] == 'test':
        test(sys.argv[2])
    else:
        check(sys.argv[2], int(sys.argv[3]) if len(sys.argv) > 3 else 10000, int(sys.argv[4]) if len(sys.argv) > 4 else 3)
