"""Checks that solvers and executor are usable (setup_cmd): proves one identity, refutes one false claim"""
import sys
from . import worker        # sets up the path
from . import terms as T, engine, loader


def main():
    got = {}

    def body(path):
        x, y = T.Sym.var('x'), T.Sym.var('y')
        r = engine.solve([((x + y) * (x + y) - 4 * x * y).rel('<')])
        got['proof'] = r[0]
        r = engine.solve([(x * x - y).rel('='), (y - 2).rel('=')])
        got['refute'] = r[0]
        got['branch'] = bool(T.sym_sqrt(x * x + 1) > 0)
        return 'done'
    engine.Explorer().run(body)
    ok = got == dict(proof='unsat', refute='sat', branch=True)
    c = engine.run_cvc5([(T.Sym.var('x') * T.Sym.var('x') + 1).rel('<')], 5000)
    print('z3: %s, cvc5: %s' % (got, c))
    if not ok or c not in ('unsat',):
        print('selftest FAILED')
        return 1
    return 0


if __name__ == '__main__':
    sys.exit(main())
