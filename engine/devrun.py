import sys, collections, time, core
def main(entries):
    want = sys.argv[1:]
    for name, f, cov, opts in entries:
        if want and not any(w in name for w in want): continue
        t = time.time()
        r = core.explore(name, f, must_cover=cov, max_paths=opts.get('max_paths', 4000), max_time=opts.get('max_time', 300))
        print('%-60s paths %d obl %s %.1fs unsupported %s' % (name, r.paths, dict(collections.Counter(o.status for o in r.obligations)), time.time() - t, sorted(set(r.unsupported))[:4]))
        seen = set()
        for o in r.obligations:
            if o.status != 'proved' and o.name not in seen:
                seen.add(o.name); print('    ', o.status, o.backend, '%.2f' % o.time, o.func, '|', o.name, '|', o.detail[:600])
