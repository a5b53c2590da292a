"""Concrete contract replay: evaluates a property's contracts on the real code in /repo (PyPy).
usage: run.py PROP SEED TIER BUDGET OUT.json"""
import sys, os, json
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import io
prop, seed, tier, budget, out = sys.argv[1], int(sys.argv[2]), sys.argv[3], float(sys.argv[4]), sys.argv[5]
real_out = sys.stdout
sys.stdout = sys.stderr = io.StringIO()
res = dict(property=prop)
try:
    from hlib import *
    import importlib
    fn = None
    rep = Rep(prop, seed, tier, budget)
    for m in ('p_deriv', 'p_graph', 'p_opt', 'p_misc'):
        if not os.path.exists(os.path.join(os.path.dirname(os.path.abspath(__file__)), m + '.py')): continue
        mod = importlib.import_module(m)
        if hasattr(mod, prop.lower()):
            fn = getattr(mod, prop.lower())
    import chumpy
    res['chumpy'] = chumpy.__file__
    try:
        fn(rep)
    except Stop:
        pass
    except Exception as e:
        import traceback
        rep.failures.append(dict(section=rep.section, case='harness', message='unexpected %s: %s\n%s' % (type(e).__name__, e, traceback.format_exc()[-1500:])))
    res.update(evaluations=rep.evaluations, distinct=len(rep.keys), samples=[str(s) for s in (rep.samples or sorted(map(str, rep.keys))[:5])], failures=rep.failures, known=rep.known, wall=time.time() - rep.t0)
except Exception as e:
    import traceback
    res['failures'] = [dict(section='import', case='import', message='importing chumpy failed: %s: %s\n%s' % (type(e).__name__, e, traceback.format_exc()[-1500:]))]
json.dump(res, open(out, 'w'))
