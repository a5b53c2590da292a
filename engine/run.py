"""Discharge the contracts of one property.  usage: run.py PROP TIER OUT.json
Every entry (a function or group of functions under contract) is explored in its own process."""
import sys, os, json, time, multiprocessing, importlib, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import registry

def one(args):
    prop, mod, name, tier = args
    t0 = time.time()
    out = dict(entry=name, module=mod, obligations=[], paths=0, unsupported=[], assumptions=[], functions=[], notes=[])
    try:
        import core, io
        so = sys.stdout; sys.stdout = io.StringIO()
        m = importlib.import_module(mod)
        for n, f, cov, opts in m.entries():
            if n != name: continue
            r = core.explore(name, f, must_cover=cov, max_paths=opts.get('max_paths', 4000), max_time=opts.get('max_time', 300) * (1 if tier == 'quick' else 4))
            agg = {}
            for o in r.obligations:
                k = (o.name, o.func)
                a = agg.setdefault(k, dict(name=o.name, function=o.func or name, count=0, proved=0, refuted=0, unknown=0, backends={}, time=0., detail=''))
                a['count'] += 1; a[o.status] += 1; a['time'] += o.time
                a['backends'][o.backend] = a['backends'].get(o.backend, 0) + 1
                if o.status != 'proved' and not a['detail']: a['detail'] = o.detail
            keep = [a for a in agg.values() if registry.counts(prop, mod, a['name'])]
            for a in keep:
                b = registry.base_needed(prop, mod, a['name'])
                if b and a['refuted'] and any(o['refuted'] for (n, fn), o in agg.items() if n == b and fn == a['function']):
                    a['unknown'] += a['refuted']; a['refuted'] = 0; a['detail'] = 'not decided: fails before the change too'
            out.update(obligations=keep, paths=r.paths, unsupported=sorted(set(r.unsupported))[:20], covered=sorted(map(str, r.covered)), notes=sorted(set(map(str, r.notes)))[:20],
                       functions=opts.get('functions', []), bounded=opts.get('bounded', ''), assumptions=opts.get('assumptions', []))
            if not keep and agg and not out['unsupported']: out['skip'] = True      # its obligations belong to other properties
            elif not keep and not opts.get('may_be_empty'): out['unsupported'].append('no obligation was generated')
        out['solver_time'] = core.SOLVER_TIME[0]; out['queries'] = core.QUERIES[0]
        sys.stdout = so
    except BaseException as e:
        out['unsupported'].append('entry not explored: %s: %s\n%s' % (type(e).__name__, e, traceback.format_exc()[-800:]))
    out['wall'] = time.time() - t0
    return out

def main(prop, tier, out, jobs=6):
    sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
    work = []; res = []; errs = []
    for mod in registry.MODULES.get(prop, []):
        try:
            m = importlib.import_module(mod)
            for n, f, cov, opts in m.entries():
                if prop in opts['props'] and (tier == 'thorough' or opts.get('tier', 'quick') == 'quick'): work.append((prop, mod, n, tier, opts.get('weight', 1)))
        except Exception as e:
            errs.append('theory %s does not load: %s' % (mod, e))
    work.sort(key=lambda w: -w[4]); work = [w[:4] for w in work]
    limit = 420 if tier == 'quick' else 3000
    t0 = time.time()
    if work:
        ctx = multiprocessing.get_context('fork')
        with ctx.Pool(min(jobs, len(work)), maxtasksperchild=4) as pool:
            hs = [(w, pool.apply_async(one, (w,))) for w in work]
            for w, h in hs:
                try: res.append(h.get(max(1., limit - (time.time() - t0))))
                except multiprocessing.TimeoutError: res.append(dict(entry=w[2], module=w[1], obligations=[], paths=0, unsupported=['time limit'], wall=limit, functions=[], assumptions=[]))
            pool.terminate()
    res = [r for r in res if not r.get('skip')]
    json.dump(dict(property=prop, tier=tier, entries=res, errors=errs, wall=time.time() - t0), open(out, 'w'), indent=1)

if __name__ == '__main__': main(*sys.argv[1:4])
