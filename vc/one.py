"""developer tool: verify contract functions of one file.  one.py FILE [-Dflags] [-t] name..."""
import sys, os, time
import build
from ir import Module
import engine
import traceback

src = sys.argv[1]
flags = [a for a in sys.argv[2:] if a.startswith('-D') or a.startswith('-std') or a.startswith('-I')]
trace = '-t' in sys.argv
names = [a for a in sys.argv[2:] if not a.startswith('-')]
os.makedirs('/tmp/vcw', exist_ok=True)
t = time.time()
try:
    ll = build.compile_contract(src, 'one%d' % os.getpid(), flags, '/tmp/vcw')
except build.BuildError as x:
    x = str(x); i = x.find('\n')
    sys.exit('\n'.join(l for l in x[i:].splitlines() if 'error' in l)[:1500])
print('build %.1fs' % (time.time() - t))
m = Module(open(ll).read())
os.unlink(ll)
ents = sorted(n for n in m.fraw if n.startswith('@vc_contract_'))
for e in ents:
    if names and not any(x in e for x in names):
        continue
    t = time.time()
    E = engine.Engine(m, {'timeout': 20000, 'budget': 600, 'trace': trace})
    err = None
    try:
        E.prove(e)
    except (engine.Unsupported, engine.Budget, engine.IRError) as x:
        err = repr(x)
        if trace: traceback.print_exc()
    print('=== %s: %d obligations, %d queries, %.1fs %s' % (e, len(E.obl), E.queries, time.time() - t, 'ERROR ' + err if err else ''))
    for o in E.obl.values():
        if o.status != 'discharged':
            print('   %s [%s] %s at %s' % (o.status, o.kind, o.name, o.loc))
            print('      ', o.fail['inputs'])
            for x in o.fail['stack'][:8]: print('        ', x)
    print('   covers', E.covers)
    for k, v in E.loops_info.items():
        if v['cut']: print('   loop', k[0][:60], k[1], v['inv'], v.get('n_auto'), v.get('items'))
    if '-v' in sys.argv:
        for o in E.obl.values(): print('   ', o.status, o.kind, o.name, o.loc, o.n, o.backends)
