"""engine only, against ad-hoc changes: mut.py PROP FILE OLD NEW  (OLD/NEW are python string literals or @file)"""
import sys, os, subprocess, tempfile, json, shutil
def run(prop, fn, old, new, tier='quick', quiet=False):
    d = tempfile.mkdtemp(prefix='mut_'); w = d + '/repo'
    subprocess.run(['cp', '-a', '/repo', w]); p = w + '/chumpy/' + fn
    s = open(p).read(); assert s.count(old) >= 1, 'old text not found'
    open(p, 'w').write(s.replace(old, new))
    subprocess.run(['python3-vt', '/verif/engine/run.py', prop, tier, d + '/o.json'], env=dict(os.environ, CHUMPY_ROOT=w))
    r = json.load(open(d + '/o.json')); shutil.rmtree(d)
    ref = [(e['entry'], o['name'], o['refuted'], o['detail'][:200]) for e in r['entries'] for o in e['obligations'] if o['refuted']]
    uns = [(e['entry'], e['unsupported'][:2]) for e in r['entries'] if e['unsupported']]
    unk = [(e['entry'], o['name']) for e in r['entries'] for o in e['obligations'] if o['unknown']]
    print(prop, repr(new[:60]), '->', 'REFUTED %d' % len(ref) if ref else 'ok', '| undecided entries', len(uns), '| unknown', len(unk), '| errors', r['errors'], 'wall %.0f' % r['wall'])
    if not quiet:
        for x in ref[:3]: print('     ', x)
        for x in uns[:6]: print('      ?', x)
    return ref
if __name__ == '__main__':
    import ast
    run(*sys.argv[1:3], *[ast.literal_eval(a) if a[:1] in '\'"' else a for a in sys.argv[3:5]])
