"""
Concrete execution of harnesses on the unmodified package.
  --server        read JSON jobs from stdin, write JSON results to stdout
  FILE            replay a saved counterexample; exit 1 if it fails on the current /repo
"""
import importlib
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
if HERE not in sys.path:
    sys.path.insert(0, HERE)


def prepare():
    os.environ['MPLBACKEND'] = 'Agg'
    try:
        import matplotlib
        matplotlib.use = lambda *a, **k: None
    except ImportError:
        pass


_mods = {}


def run_job(job):
    import contextlib
    import io
    from symx import harness as H
    res = dict(status='ok', failed=[], obs=[])
    buf = io.StringIO()
    with contextlib.redirect_stdout(buf), contextlib.redirect_stderr(buf):
        try:
            importlib.import_module(job['module'])
            har = [h for h in H.REGISTRY if h.name == job['harness'] and h.module == job['module']][0]
            kw = har.params[int(job['param'])] if har.params else {}
            h = H.ConcH(job['inputs'], job['choices'], job.get('tier', 'quick'))
            import random
            random.random = h.rand_unit
            random.uniform = lambda a, b: a + (b - a) * h.rand_unit()
            try:
                har.fn(h, **kw)
            except H.AssumeFailed:
                res['status'] = 'assume'
            except Exception as e:
                res['status'] = 'exception'
                res['exc'] = '%s: %s' % (type(e).__name__, e)
                res['exc_type'] = type(e).__name__
                import traceback
                res['trace'] = traceback.format_exc()[-1500:]
            res['failed'] = h.failed
            res['obs'] = h.obs
        except Exception as e:
            res['status'] = 'error'
            res['exc'] = '%s: %s' % (type(e).__name__, e)
    return res


def main():
    prepare()
    if sys.argv[1] == '--server':
        out = sys.stdout
        for line in sys.stdin:
            r = run_job(json.loads(line))
            try:
                s = json.dumps(r, default=str)
            except (TypeError, ValueError) as e:
                s = json.dumps(dict(status='error', failed=[], exc=str(e)))
            out.write(s + '\n')
            out.flush()
        return 0
    with open(sys.argv[1]) as f:
        d = json.load(f)
    r = run_job(d['job'])
    print(json.dumps(dict(job=d['job'], result=r), indent=1))
    return 1 if r['failed'] or r['status'] == 'exception' else 0


if __name__ == '__main__':
    sys.exit(main())
