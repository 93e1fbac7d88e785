#!/usr/bin/env python3
"""refactor.py KIND DIR [--half N]: rewrites every function of DIR/x7/geom/*.py by a transformation that keeps behaviour; used to see
that the checks stay quiet on such edits.  KIND: tempreturn invertif helper whileloop unrollcomp swapcmp chain mathops noop ifexp augment
temps minmax nested earlyreturn all-kinds are listed by --list"""
import ast, glob, os, sys, copy

N = [0]


def fresh(p='_t'):
    N[0] += 1
    return '%s%d' % (p, N[0])


def name(n, store=False):
    return ast.Name(id=n, ctx=ast.Store() if store else ast.Load())


class Base(ast.NodeTransformer):
    def body_map(self, node, f):
        for fld in ('body', 'orelse', 'finalbody'):
            v = getattr(node, fld, None)
            if isinstance(v, list):
                out = []
                for s in v:
                    r = f(s)
                    out += r if isinstance(r, list) else [r]
                setattr(node, fld, out)
        return node


class TempReturn(Base):
    def visit_Return(self, n):
        self.generic_visit(n)
        if n.value is None or isinstance(n.value, (ast.Name, ast.Constant)):
            return n
        t = fresh('_ret')
        return [ast.Assign(targets=[name(t, 1)], value=n.value), ast.Return(value=name(t))]


class InvertIf(Base):
    def visit_If(self, n):
        self.generic_visit(n)
        if n.orelse and not (len(n.orelse) == 1 and isinstance(n.orelse[0], ast.If)):
            return ast.If(test=ast.UnaryOp(op=ast.Not(), operand=n.test), body=n.orelse, orelse=n.body)
        return n

    def visit_IfExp(self, n):
        self.generic_visit(n)
        return ast.IfExp(test=ast.UnaryOp(op=ast.Not(), operand=n.test), body=n.orelse, orelse=n.body)


class Helper(Base):
    def visit_ClassDef(self, c):
        out = []
        for s in c.body:
            if isinstance(s, ast.FunctionDef) and not s.decorator_list and s.args.args and s.args.args[0].arg == 'self' and s.name not in ('__new__', '__init_subclass__') \
                    and '__class__' not in ast.dump(s):
                imp = copy.deepcopy(s)
                imp.name = '_impl_' + s.name.strip('_')
                if any(isinstance(x, ast.FunctionDef) and x.name == imp.name for x in out):
                    out.append(s)
                    continue
                imp.args.defaults = []
                imp.args.kw_defaults = [None] * len(imp.args.kwonlyargs)
                if imp.args.posonlyargs:
                    out.append(s)
                    continue
                a = s.args
                args = [name(x.arg) for x in a.args[1:]]
                if a.vararg:
                    args.append(ast.Starred(value=name(a.vararg.arg), ctx=ast.Load()))
                kws = [ast.keyword(arg=x.arg, value=name(x.arg)) for x in a.kwonlyargs]
                if a.kwarg:
                    kws.append(ast.keyword(arg=None, value=name(a.kwarg.arg)))
                # call through the class's own name so that subclasses' helpers are not picked up
                call = ast.Call(func=ast.Attribute(value=name(c.name), attr=imp.name, ctx=ast.Load()), args=[name('self')] + args, keywords=kws)
                s = copy.deepcopy(s)
                s.body = [ast.Return(value=call)]
                out += [imp, s]
            else:
                out.append(s)
        c.body = out
        return c


class WhileLoop(Base):
    def visit_For(self, n):
        self.generic_visit(n)
        if n.orelse:
            return n
        it = fresh('_it')
        flag = fresh('_has')
        return [ast.Assign(targets=[name(it, 1)], value=ast.Call(func=name('iter'), args=[n.iter], keywords=[])),
                ast.While(test=ast.Constant(value=True), body=[
                    ast.Try(body=[ast.Assign(targets=[n.target], value=ast.Call(func=name('next'), args=[name(it)], keywords=[]))],
                            handlers=[ast.ExceptHandler(type=name('StopIteration'), name=None, body=[ast.Break()])], orelse=[], finalbody=[])] + n.body, orelse=[])]


class UnrollComp(Base):
    """[e for ...] as the value of an assignment or return becomes a loop"""
    def unroll(self, lc):
        if not isinstance(lc, ast.ListComp) or any(g.is_async for g in lc.generators):
            return None
        t = fresh('_acc')
        body = [ast.Expr(value=ast.Call(func=ast.Attribute(value=name(t), attr='append', ctx=ast.Load()), args=[lc.elt], keywords=[]))]
        # rename the targets to avoid clobbering
        ren = {}
        for g in lc.generators:
            for x in ast.walk(g.target):
                if isinstance(x, ast.Name):
                    ren[x.id] = fresh('_' + x.id)

        class R(ast.NodeTransformer):
            def visit_Name(self, x):
                return ast.Name(id=ren.get(x.id, x.id), ctx=x.ctx)
        first = True
        for g in reversed(lc.generators):
            for c in reversed(g.ifs):
                body = [ast.If(test=c, body=body, orelse=[])]
            body = [ast.For(target=g.target, iter=g.iter, body=body, orelse=[])]
        it0 = lc.generators[0].iter
        k = fresh('_src')
        loop = body[0]
        loop.iter = name(k)
        loop = R().visit(loop)
        loop.iter = name(k)
        if any(isinstance(x, ast.Lambda) for x in ast.walk(loop)):
            return None
        return [ast.Assign(targets=[name(k, 1)], value=it0), ast.Assign(targets=[name(t, 1)], value=ast.List(elts=[], ctx=ast.Load())), loop], name(t)

    def visit_ClassDef(self, c):
        c.body = [self.visit(s) if isinstance(s, (ast.FunctionDef, ast.ClassDef)) else s for s in c.body]
        return c

    def visit_Return(self, n):
        r = self.unroll(n.value)
        if r:
            return r[0] + [ast.Return(value=r[1])]
        return n

    def visit_Assign(self, n):
        r = self.unroll(n.value)
        if r:
            return r[0] + [ast.Assign(targets=n.targets, value=r[1])]
        return n


SW = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE}


class SwapCmp(Base):
    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) == 1 and type(n.ops[0]) in SW:
            return ast.Compare(left=n.comparators[0], ops=[SW[type(n.ops[0])]()], comparators=[n.left])
        return n


class Chain(Base):
    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) > 1:
            xs = [n.left] + n.comparators
            return ast.BoolOp(op=ast.And(), values=[ast.Compare(left=xs[i], ops=[n.ops[i]], comparators=[xs[i + 1]]) for i in range(len(n.ops))])
        return n


class DeMorgan(Base):
    def visit_BoolOp(self, n):
        self.generic_visit(n)
        return n

    def visit_If(self, n):
        self.generic_visit(n)
        t = n.test
        if isinstance(t, ast.BoolOp):
            op = ast.Or() if isinstance(t.op, ast.And) else ast.And()
            n.test = ast.UnaryOp(op=ast.Not(), operand=ast.BoolOp(op=op, values=[ast.UnaryOp(op=ast.Not(), operand=v) for v in t.values]))
        return n


class MathOps(Base):
    """math functions by other names: sqrt -> **0.5, hypot -> sqrt of squares, radians -> times pi/180, x**2 -> x*x for names, math.pi -> np.pi"""
    def visit_Call(self, n):
        self.generic_visit(n)
        f = n.func
        if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name) and f.value.id == 'math' and not n.keywords:
            if f.attr == 'sqrt':
                return ast.BinOp(left=n.args[0], op=ast.Pow(), right=ast.Constant(value=0.5))
            if f.attr == 'hypot' and len(n.args) == 2:
                sq = [ast.BinOp(left=copy.deepcopy(a), op=ast.Pow(), right=ast.Constant(value=2)) for a in n.args]
                return ast.Call(func=ast.Attribute(value=name('math'), attr='sqrt', ctx=ast.Load()), args=[ast.BinOp(left=sq[0], op=ast.Add(), right=sq[1])], keywords=[])
            if f.attr == 'radians':
                return ast.BinOp(left=ast.BinOp(left=n.args[0], op=ast.Mult(), right=ast.Attribute(value=name('math'), attr='pi', ctx=ast.Load())), op=ast.Div(), right=ast.Constant(value=180))
            if f.attr == 'degrees':
                return ast.BinOp(left=ast.BinOp(left=n.args[0], op=ast.Mult(), right=ast.Constant(value=180)), op=ast.Div(), right=ast.Attribute(value=name('math'), attr='pi', ctx=ast.Load()))
        return n

    def visit_BinOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Pow) and isinstance(n.right, ast.Constant) and n.right.value == 2 and isinstance(n.left, (ast.Name, ast.Attribute)):
            return ast.BinOp(left=n.left, op=ast.Mult(), right=copy.deepcopy(n.left))
        return n


class NoOp(Base):
    def visit_FunctionDef(self, n):
        self.generic_visit(n)
        i = 1 if n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant) else 0
        n.body[i:i] = ast.parse('_unused = None\npass').body
        return n


class IfExpStmt(Base):
    def visit_Assign(self, n):
        if isinstance(n.value, ast.IfExp) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
            v = n.value
            return ast.If(test=v.test, body=[ast.Assign(targets=n.targets, value=v.body)], orelse=[ast.Assign(targets=copy.deepcopy(n.targets), value=v.orelse)])
        return n

    def visit_Return(self, n):
        if isinstance(n.value, ast.IfExp):
            v = n.value
            return ast.If(test=v.test, body=[ast.Return(value=v.body)], orelse=[ast.Return(value=v.orelse)])
        return n

    def visit_ClassDef(self, c):
        c.body = [self.visit(s) if isinstance(s, (ast.FunctionDef, ast.ClassDef)) else s for s in c.body]
        return c


class Temps(Base):
    """every argument of a call in a simple statement goes through a temporary, in evaluation order"""
    def stmt(self, n):
        v = n.value
        if isinstance(v, ast.Call) and isinstance(v.func, (ast.Name, ast.Attribute)) and not v.keywords and v.args and \
                not any(isinstance(a, ast.Starred) for a in v.args) and not (isinstance(v.func, ast.Name) and v.func.id == 'super') and \
                (isinstance(v.func, ast.Name) or isinstance(v.func.value, ast.Name)):
            pre = []
            new = []
            for a in v.args:
                if isinstance(a, (ast.Constant, ast.GeneratorExp)):
                    new.append(a)
                    continue
                t = fresh('_arg')
                pre.append(ast.Assign(targets=[name(t, 1)], value=a))
                new.append(name(t))
            v.args = new
            return pre + [n]
        return n

    def visit_Return(self, n):
        return self.stmt(n)

    def visit_Assign(self, n):
        return self.stmt(n)

    def visit_Expr(self, n):
        return self.stmt(n)

    def visit_ClassDef(self, c):
        c.body = [self.visit(s) if isinstance(s, (ast.FunctionDef, ast.ClassDef)) else s for s in c.body]
        return c


class MinMax(Base):
    """two-argument min/max as conditional expressions"""
    def visit_Call(self, n):
        self.generic_visit(n)
        if isinstance(n.func, ast.Name) and n.func.id in ('min', 'max') and len(n.args) == 2 and not n.keywords and not any(isinstance(a, ast.Starred) for a in n.args):
            a, b = n.args
            op = ast.LtE() if n.func.id == 'min' else ast.GtE()
            return ast.IfExp(test=ast.Compare(left=copy.deepcopy(a), ops=[op], comparators=[copy.deepcopy(b)]), body=a, orelse=b)
        if isinstance(n.func, ast.Name) and n.func.id == 'abs' and len(n.args) == 1 and isinstance(n.args[0], (ast.Name, ast.Attribute, ast.BinOp)):
            a = n.args[0]
            return ast.Call(func=name('max'), args=[a, ast.UnaryOp(op=ast.USub(), operand=copy.deepcopy(a))], keywords=[])
        return n


class Nested(Base):
    """bodies wrapped in an inner closure that is called at once"""
    def visit_FunctionDef(self, n):
        if any(isinstance(x, (ast.Yield, ast.YieldFrom, ast.Nonlocal, ast.Global)) for x in ast.walk(n)) or n.decorator_list:
            return n
        stores = {x.id for x in ast.walk(n) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)} | \
                 {x.name for x in ast.walk(n) if isinstance(x, (ast.FunctionDef, ast.ClassDef)) and x is not n} | {x.name for x in ast.walk(n) if isinstance(x, ast.ExceptHandler) and x.name}
        params = {a.arg for a in ast.walk(n.args) if isinstance(a, ast.arg)}
        if stores & params or any(isinstance(x, (ast.Import, ast.ImportFrom)) for x in ast.walk(n)) or '__class__' in ast.dump(n) or \
                any(isinstance(x, ast.Name) and x.id == 'super' for x in ast.walk(n)):
            return n
        i = 1 if isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant) else 0
        if not n.body[i:]:
            return n
        inner = ast.FunctionDef(name='_inner', args=ast.arguments(posonlyargs=[], args=[], kwonlyargs=[], kw_defaults=[], defaults=[]), body=n.body[i:], decorator_list=[], type_params=[])
        n.body = n.body[:i] + [inner, ast.Return(value=ast.Call(func=name('_inner'), args=[], keywords=[]))]
        return n


class EarlyReturn(Base):
    """if c: return A (else:) return B  ->  if/else with a result variable; and  'if c: return A' followed by rest -> else: rest"""
    def visit_FunctionDef(self, n):
        self.generic_visit(n)
        n.body = self.fold(n.body)
        return n

    def fold(self, body):
        for i, s in enumerate(body):
            if isinstance(s, ast.If) and not s.orelse and isinstance(s.body[-1], (ast.Return, ast.Raise)) and body[i + 1:]:
                return body[:i] + [ast.If(test=s.test, body=s.body, orelse=self.fold(body[i + 1:]))]
        return body


class Augment(Base):
    """x += e -> x = x + e for local names bound to numbers is not safe for lists; only for e a numeric expression of attributes: skipped for calls"""
    def visit_AugAssign(self, n):
        if isinstance(n.op, (ast.Add, ast.Sub, ast.Mult)) and isinstance(n.target, ast.Name) and isinstance(n.value, (ast.BinOp, ast.Constant)) :
            return ast.Assign(targets=[n.target], value=ast.BinOp(left=name(n.target.id), op=n.op, right=n.value))
        return n


class LoopComp(Base):
    """list comprehension -> list(generator); set literal etc. untouched"""
    def visit_ListComp(self, n):
        self.generic_visit(n)
        return ast.Call(func=name('list'), args=[ast.GeneratorExp(elt=n.elt, generators=n.generators)], keywords=[])


class Parens(Base):
    """a + b + c regrouped is not float-preserving; a*b -> b*a for pure names/attributes/constants is"""
    def visit_BinOp(self, n):
        self.generic_visit(n)
        ok = (ast.Name, ast.Attribute, ast.Constant)
        if isinstance(n.op, ast.Mult) and isinstance(n.left, ast.Constant) and isinstance(n.left.value, (int, float)) and isinstance(n.right, ok):
            return ast.BinOp(left=n.right, op=n.op, right=n.left)
        if isinstance(n.op, ast.Div) and isinstance(n.right, ast.Constant) and n.right.value == 2:
            return ast.BinOp(left=n.left, op=ast.Mult(), right=ast.Constant(value=0.5))
        return n


class Format(Base):
    """'%' formatting -> str.format is not done; f-strings split by concatenation"""
    def visit_JoinedStr(self, n):
        if any(not isinstance(v, (ast.Constant, ast.FormattedValue)) for v in n.values):
            return n
        parts = [ast.JoinedStr(values=[v]) for v in n.values]
        if len(parts) < 2:
            return n
        return ast.Call(func=ast.Attribute(value=ast.Constant(value=''), attr='join', ctx=ast.Load()), args=[ast.List(elts=parts, ctx=ast.Load())], keywords=[])


KINDS = dict(tempreturn=TempReturn, invertif=InvertIf, helper=Helper, whileloop=WhileLoop, unrollcomp=UnrollComp, swapcmp=SwapCmp, chain=Chain,
             demorgan=DeMorgan, mathops=MathOps, noop=NoOp, ifexp=IfExpStmt, temps=Temps, minmax=MinMax, nested=Nested, earlyreturn=EarlyReturn,
             augment=Augment, loopcomp=LoopComp, parens=Parens, format=Format)


def main():
    kind, d = sys.argv[1:3]
    for f in glob.glob(os.path.join(d, 'x7/geom/*.py')):
        src = open(f).read()
        t = ast.parse(src)
        for k in (KINDS if kind == 'all' else kind.split(',')):
            t = KINDS[k]().visit(t)
            ast.fix_missing_locations(t)
        open(f, 'w').write(ast.unparse(t) + '\n')


if __name__ == '__main__':
    if sys.argv[1:] == ['--list']:
        print(' '.join(KINDS))
    else:
        main()
