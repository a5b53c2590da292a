#!/usr/bin/env python3
"""check.py PROP: decide one property on /repo's current working tree.
1. deductive part: engine/run.py extracts the functions under contract from the current source and discharges their obligations;
2. concrete part: harness/run.py replays the contracts on the real code (PyPy), looking for a failing input; it stands in, labelled
   bounded, for functions outside the verifier's reach.
exit 0: held on everything explored;  exit 1 + VIOLATION line: broken."""
import sys, os, json, time, subprocess, re
V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('CHUMPY_ROOT', '/repo')
PYPY = '/opt/pypyvenv/bin/python'
VT = '/opt/veriftools/pyvenv/bin/python3'
if not os.path.exists(VT): VT = 'python3-vt'

def env():
    e = dict(os.environ)
    e.update(PYTHONDONTWRITEBYTECODE='1', OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1', CHUMPY_ROOT=REPO)
    e.pop('PYTHONPATH', None)
    return e

def harness(prop, seed, tier, budget, out):
    e = env(); e['PYTHONPATH'] = REPO; e['PYTHONHASHSEED'] = '0'
    return subprocess.Popen([PYPY, '-W', 'ignore', os.path.join(V, 'harness', 'run.py'), prop, str(seed), tier, str(budget), out], env=e, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE)

def finish(p, out, limit):
    """-> dict or None (the harness itself gave no answer)"""
    try: _, err = p.communicate(timeout=limit)
    except subprocess.TimeoutExpired:
        p.kill(); p.communicate(); return dict(timeout=True)
    try: return json.load(open(out))
    except Exception: return dict(crash=(err or b'').decode(errors='replace')[-2000:], rc=p.returncode)

def known_findings():
    out = []
    f = os.path.join(V, 'known_findings.txt')
    if os.path.exists(f):
        for l in open(f):
            m = re.match(r'known: property=(\S+) (.*\S)', l)
            if m: out.append((m.group(1), m.group(2)))
    return out

def main():
    prop = sys.argv[1]; t0 = time.time()
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'): tier = 'quick'
    try: seed = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError: seed = 1
    man = {c['property']: c for c in json.load(open(os.path.join(V, 'MANIFEST.json')))['checks']}
    level = man.get(prop, {}).get('level', 'other')
    ev = os.path.join(V, 'evidence'); os.makedirs(ev, exist_ok=True)
    try: os.unlink(os.path.join(ev, '%s.violation.txt' % prop))
    except OSError: pass
    import tempfile
    tmp = tempfile.mkdtemp(prefix='chk_%s_' % prop)
    eo = os.path.join(tmp, 'engine.json')
    ep = subprocess.Popen([VT, os.path.join(V, 'engine', 'run.py'), prop, tier, eo], env=env(), stdout=subprocess.DEVNULL, stderr=subprocess.PIPE)
    budget = 150 if tier == 'quick' else 900
    ho = os.path.join(tmp, 'h.json')
    hs = [(seed + k, os.path.join(tmp, 'h%d.json' % k)) for k in range(3)]
    hs = [(s, o, harness(prop, s, tier, budget, o)) for s, o in hs]
    runs = [(s, tier, finish(p, o, 420 if tier == 'quick' else 2000)) for s, o, p in hs]
    try: _, err = ep.communicate(timeout=(460 if tier == 'quick' else 3200))
    except subprocess.TimeoutExpired: ep.kill(); _, err = ep.communicate()
    try: E = json.load(open(eo))
    except Exception: E = dict(entries=[], errors=['the verifier gave no result: %s' % (err or b'').decode(errors='replace')[-800:]])
    refuted = [(e['entry'], o) for e in E['entries'] for o in e['obligations'] if o['refuted']]
    def fails():
        out = []
        for s, t, r in runs:
            for f in r.get('failures', []): out.append((s, t, f))
        return out
    runs[1:] = [r for r in runs[1:] if 'timeout' not in r[2] and 'crash' not in r[2]]
    base = runs[0][2]
    if 'timeout' in base and not fails():   # the unchanged tree needs seconds: confirm with a second, short run before calling it non-termination
        b2 = finish(harness(prop, seed, 'quick', 60, ho), ho, 200)
        runs[0] = (seed, tier, b2 if 'timeout' not in b2 else dict(failures=[dict(section='', case='termination', message='evaluating the cases of this property did not terminate (twice); on the unchanged tree this takes seconds')]))
    elif 'crash' in base and not fails():
        b2 = finish(harness(prop, seed, tier, budget, ho), ho, 200)
        runs[0] = (seed, tier, b2 if 'crash' not in b2 else dict(failures=[dict(section='', case='interpreter', message='the interpreter died while evaluating the cases of this property (twice): rc=%s %s' % (b2.get('rc'), b2.get('crash')))]))
    if refuted and not fails():
        # an obligation failed: look harder for an input that shows it on the real code
        ps = [(seed + 1000 * k, harness(prop, seed + 1000 * k, 'thorough' if k % 2 else 'quick', 120, os.path.join(tmp, 'x%d.json' % k)), os.path.join(tmp, 'x%d.json' % k)) for k in range(1, 7)]
        for s, p, o in ps:
            r = finish(p, o, 200)
            if 'failures' in r: runs.append((s, 'thorough', r))
    fl = fails()
    kf = known_findings(); violations = []
    for s, t, r in runs:
        for k in r.get('known', []):
            if (prop, k) in kf: print('KNOWN-FINDING: property=%s %s' % (prop, k))
            else: violations.append('known-looking failure that is not listed: %s' % k)
        break
    rc = 0; vio = 0
    if fl or violations or refuted:
        rc = 1; vio = max(1, len(fl))
        rp = os.path.join(ev, '%s.violation.txt' % prop)
        with open(rp, 'w') as f:
            if fl or violations:
                s, t, r = fl[0] if fl else (seed, tier, dict(section='', case='', message=violations[0]))
                f.write('Violation of %s, shown on the real code.\nreplay: PYTHONPATH=%s PYTHONHASHSEED=0 %s %s %s %d %s %d /tmp/out.json; cat /tmp/out.json\n\n' % (prop, REPO, PYPY, os.path.join(V, 'harness', 'run.py'), prop, s, t, budget))
                for s, t, r in fl[:5]: f.write('case: %s (%s)\n%s\n\n' % (r['case'], r['section'], r['message']))
                for v in violations: f.write(v + '\n')
            else:
                f.write('Violation of %s: the obligations below, generated from the current source, are refuted by the solver. No failing input was found by replaying %d cases.\n\n' % (prop, sum(r.get('evaluations', 0) for _, _, r in runs)))
            if refuted: f.write('failed obligations:\n')
            for e, o in refuted: f.write('  %s / %s: %s (refuted on %d of %d paths)\n    %s\n' % (e, o['function'], o['name'], o['refuted'], o['count'], o['detail']))
        print('VIOLATION property=%s replay=%s%s' % (prop, rp, '' if fl or violations else ' no-failing-input-found'))
        for s, t, r in fl[:2]: print('  case %s: %s' % (r['case'], r['message'].splitlines()[0] if r['message'] else ''))
        for e, o in refuted[:8]: print('  failed obligation: %s: %s' % (o['function'], o['name']))
    write_evidence(prop, tier, seed, level, E, runs, refuted, vio, t0)
    sys.stdout.flush()
    subprocess.run(['rm', '-rf', tmp])
    sys.exit(rc)

def write_evidence(prop, tier, seed, level, E, runs, refuted, vio, t0):
    obs = [o for e in E['entries'] for o in e['obligations']]
    total = sum(o['count'] for o in obs); proved = sum(o['proved'] for o in obs)
    back = {}
    for o in obs:
        for k, v in o['backends'].items(): back[k] = back.get(k, 0) + v
    undec = {e['entry']: e['unsupported'] for e in E['entries'] if e['unsupported']}
    unk = [dict(function=o['function'], name=o['name'], detail=o['detail'][:300]) for o in obs if o['unknown']]
    functions = sorted(set(f for e in E['entries'] for f in (e.get('functions') or [])) | set(o['function'] for o in obs))
    assum = sorted(set(a for e in E['entries'] for a in e.get('assumptions', [])))
    bounded = {e['entry']: e['bounded'] for e in E['entries'] if e.get('bounded')}
    keys = [r for _, _, r in runs if 'evaluations' in r]
    cov = dict(obligations=total, discharged=proved, distinct_obligations=len(obs), obligation_list=[dict(function=o['function'], name=o['name'], instances=o['count'], discharged=o['proved']) for o in obs][:400],
               checker_cmd='python3-vt engine/run.py %s %s out.json   (z3 %s; cvc5 for queries z3 leaves open)' % (prop, tier, 'python bindings'),
               trusted_base=['engine/core.py (path exploration, proof obligations), engine/load.py (mechanical rewrite of loops and displays), the contracts in engine/t_*.py', 'z3 / cvc5', 'CPython executing the extracted functions', 'contracts of numpy/scipy as written in the theories'] + ([] if not obs else []),
               functions_under_contract=functions, back_ends=back, solver_time_s=round(sum(e.get('solver_time', 0) for e in E['entries']), 2), solver_queries=sum(e.get('queries', 0) for e in E['entries']),
               paths=sum(e['paths'] for e in E['entries']), not_discharged=unk, refuted=[dict(function=o['function'], name=o['name']) for _, o in refuted],
               outside_reach=undec, theory_errors=E.get('errors', []), bounded_contracts=bounded,
               evaluations=sum(r['evaluations'] for r in keys), distinct_nontrivial=sum(r['distinct'] for r in keys),
               rule='bounded stand-in: the contract evaluated on the real code (PyPy) for generated operands, shapes, arguments and histories; a case is distinct by its operation, argument and shape key and counts only if a Jacobian, value or history was compared with its independent reference',
               samples=[s for r in keys for s in r.get('samples', [])][:5])
    cov['explanation'] = 'deductive: %d obligations (%d distinct) from the current source of %d functions, %d discharged; %d entries not (fully) decided by the verifier; bounded replay: %d evaluations' % (total, len(obs), len(functions), proved, len(undec), cov['evaluations'])
    if not total and level == 'proof': cov['explanation'] += '; NOTHING WAS PROVED ON THIS TREE'
    if level != 'proof' and not total:
        cov.pop('obligation_list')
    json.dump(dict(property=prop, tier=tier, seed=seed, level=level, coverage=cov, assumptions=assum, wall_s=round(time.time() - t0, 2), violations=vio), open(os.path.join(V, 'evidence', prop + '.json'), 'w'), indent=1)

if __name__ == '__main__': main()
