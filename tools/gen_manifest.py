#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json: one check per property that has a module in checks/; the rest is listed as not applicable."""
import glob, json, os, re
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'))]
NA = {
    'C54': 'the outcome is produced by native code (the PIL rasteriser, quantiser and GIF encoder), which symbolic execution of the Python code cannot enter; the coordinates handed to PIL are decided by C47',
    'C55': 'the crossings are found by the compiled third-party bezier package; x7-geom only calls it. What x7-geom does with its answers is decided by C27 and C28 with the library replaced by arbitrary answers',
    'C56': 'the encoding is over exact reals; an IEEE-754 encoding of the same (multiplication, division, sqrt, trigonometry) is not decidable within reach of the installed solvers for more than single operations',
}
TODO = 'no check has been built for it yet'


def has(i):
    return os.path.exists(os.path.join(HERE, 'checks', i + '.py'))


checks, na = [], []
for p in PROPS:
    i = p['id']
    if has(i):
        src = open(os.path.join(HERE, 'checks', i + '.py')).read()
        n = len(re.findall(r'^@harness', src, re.M))
        checks.append(dict(
            property=i, quick_cmd='./check %s quick' % i, thorough_cmd='./check %s thorough' % i,
            technique='SMT-based symbolic execution of the real Python source (z3/nlsat/cvc5), counterexamples replayed concretely',
            level='model_checking',
            level_note='%d harness%s; bounded: %s. Every path within the bounds is explored and every assertion is decided for all real values; numbers are exact reals.' % (
                n, '' if n == 1 else 'es', p['quantifier']['text'])))
    else:
        na.append(dict(property=i, reason=NA.get(i, TODO)))
m = dict(version=1, setup_cmd='./setup.sh', checks=checks, not_applicable=na,
         notes='Exit codes of a check: 0 held on everything explored, 1 VIOLATION (reproduced on the unmodified package), 2 no verdict. '
               'No hooks are needed in /repo; see DESIGN.md for the engine, bounds, stubs and findings.')
if __name__ == '__main__':
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')
    print(len(checks), 'checks,', len(na), 'not applicable')
