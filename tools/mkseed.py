#!/usr/bin/env python3
"""mkseed.py SPEC.py...: confirm planted bugs in a scratch copy of /repo and write them to /verif/seeded/<id>/.

A spec defines ID, PROPERTY, EDITS = [(file, old, new), ...], NEEDS, BREAKS and DEMO (Python text that exits 0 on the
unchanged tree). Nothing in here is used by the checks."""
import json, os, runpy, shutil, subprocess, sys, tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'
DEMO_SH = '''#!/bin/bash
# exit 0: behaves as it should; nonzero: broken
export PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg
exec /opt/venv/bin/python "$(dirname "$0")/demo.py"
'''


def tests(root, out):
    env = dict(os.environ, PYTHONPATH=root, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', MPLBACKEND='Agg', MPLCONFIGDIR='/opt/venv/mplconfig',
               OPENBLAS_CORETYPE='Prescott', OPENBLAS_NUM_THREADS='1', DISPLAY=DISPLAY)
    subprocess.run([PY, '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '--timeout=300', '--continue-on-collection-errors', '-o', 'python_functions=NONE_',
                    '-o', 'junit_family=xunit2', '--junitxml=%s.xml' % out, 'tests'], cwd=root, env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    subprocess.run(['/usr/bin/python3', '/opt/vp/results.py', out, 'junit:%s.xml' % out], check=True, stdout=subprocess.DEVNULL)
    return set(json.load(open(out))['passed'])


def demo(root, d):
    env = {k: v for k, v in os.environ.items() if k != 'DISPLAY'}
    env['PYTHONPATH'] = root
    p = subprocess.run(['bash', os.path.join(d, 'demo.sh')], cwd=root, env=env, capture_output=True, text=True, timeout=300)
    return p.returncode, (p.stdout + p.stderr)[-600:]


def main():
    global DISPLAY
    base = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
    bad = 0
    for spec in sys.argv[1:]:
        s = runpy.run_path(spec)
        work = tempfile.mkdtemp(prefix='seed')
        try:
            root = os.path.join(work, 'repo')
            subprocess.run(['git', 'clone', '-q', '/repo', root], check=True)
            d = os.path.join(work, s['ID'])
            os.makedirs(d)
            open(os.path.join(d, 'demo.py'), 'w').write(s['DEMO'].lstrip())
            open(os.path.join(d, 'demo.sh'), 'w').write(DEMO_SH)
            json.dump({'property': s['PROPERTY'], 'needs': s['NEEDS'], 'what_it_breaks': s['BREAKS']}, open(os.path.join(d, 'meta.json'), 'w'), indent=1)
            msg = []
            rc, out = demo(root, d)
            if rc:
                msg.append('demo fails on the unchanged tree: ' + out)
            for f, old, new in s['EDITS']:
                p = os.path.join(root, f)
                t = open(p).read()
                if t.count(old) != 1:
                    msg.append('%s: old text found %d times' % (f, t.count(old)))
                open(p, 'w').write(t.replace(old, new))
            diff = subprocess.run(['git', 'diff'], cwd=root, capture_output=True, text=True).stdout
            open(os.path.join(d, 'patch.diff'), 'w').write(diff)
            removed = [l[1:] for l in diff.splitlines() if l.startswith('-') and not l.startswith('---')]
            for f in {e[0] for e in s['EDITS']}:
                orig = subprocess.run(['git', 'show', '4a02dcc:' + f], cwd=root, capture_output=True, text=True).stdout.splitlines()
                if removed and not any(l in orig for l in removed):
                    msg.append('changes no line of the original repository')
            rc, out = demo(root, d)
            if not rc:
                msg.append('demo passes with the patch')
            passed = tests(root, os.path.join(work, 'o.json'))
            if base - passed:
                msg.append('tests broken: %s' % sorted(base - passed)[:5])
            print(s['ID'], s['PROPERTY'], 'BAD ' + '; '.join(msg) if msg else 'ok', '| demo says:', out.strip().splitlines()[-1:] or '')
            if msg:
                bad = 1
            else:
                t = os.path.join(HERE, 'seeded', s['ID'])
                shutil.rmtree(t, ignore_errors=True)
                shutil.copytree(d, t)
        finally:
            shutil.rmtree(work, ignore_errors=True)
    return bad


if __name__ == '__main__':
    r, w = os.pipe()
    x = subprocess.Popen(['Xvfb', '-displayfd', str(w), '-screen', '0', '1280x1024x24', '-nolisten', 'tcp'], pass_fds=[w], stderr=subprocess.DEVNULL)
    try:
        DISPLAY = ':' + os.read(r, 20).decode().strip()
        sys.exit(main())
    finally:
        x.terminate()
