"""The check of one property: prove every contract registered for it against /repo's current source.

run.py P01 [--tier quick|thorough]
exit 0: nothing found; exit 1: a VIOLATION line was printed; exit 2: the check could not be carried out at all."""
import json
import multiprocessing
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time
import traceback
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
sys.path.insert(0, VERIF)
import build
import engine
from ir import Module
from contracts.registry import CHECKS

T0 = time.time()
OUT = os.environ.get('VC_OUT', VERIF)
UNITS = {}


def cover_names(mod, entry):
    """the reachability goals written in the contract function itself"""
    raw = mod.fraw.get(entry)
    txt = repr(raw)
    out = []
    for m in re.finditer(r'@vc_cover\(ptr [^@)]*(@[\w.$"]+)', txt):
        out.append(m.group(1))
    return out


def work(task):
    unit, entry, opts, t_end = task
    mod = UNITS[unit][0]
    r = {'unit': unit, 'entry': entry, 'error': None}
    t = time.time()
    left = t_end - t
    if left < 5:
        r.update(error='no time left', obl=[], covers={}, funcs=[], ext=[], loops=[], queries=0, solver_time=0.0, wall=0.0)
        return r
    o = dict(opts)
    o['budget'] = min(o.get('budget', 600), left)
    E = engine.Engine(mod, o)
    try:
        E.prove(entry)
    except (engine.Unsupported, engine.Budget, engine.IRError, engine.UnrollFail) as x:
        r['error'] = '%s: %s' % (type(x).__name__, str(x)[:400])
    except RecursionError as x:
        r['error'] = 'RecursionError'
    except Exception as x:
        r['error'] = 'internal: ' + traceback.format_exc()[-800:]
    r['obl'] = [dict(name=b.name, loc=str(b.loc), kind=b.kind, n=b.n, time=b.time, status=b.status, fail=b.fail, backends=b.backends) for b in E.obl.values()]
    r['covers'] = dict(E.covers)
    r['funcs'] = sorted(E.funcs_seen)
    r['ext'] = sorted(E.ext_seen)
    r['loops'] = [(str(k), v) for k, v in E.loops_info.items() if v.get('cut')]
    r['queries'] = E.queries
    r['solver_time'] = E.solver_time
    r['wall'] = time.time() - t
    return r


def demangle(names):
    try:
        p = subprocess.run(['c++filt'], input='\n'.join(n.lstrip('@').strip('"') for n in names), capture_output=True, text=True, timeout=60)
        return p.stdout.splitlines()
    except Exception:
        return list(names)


def run_replay(prop, spec, hints, work_dir, seconds, out):
    """search for a failing input of the real code; returns (status, text): 'fail', 'pass', 'none', 'error'"""
    src = spec.get('replay')
    if not src:
        return 'none', 'no native driver for this property'
    seed = os.environ.get('VERIF_SEED', '1')
    hf = os.path.join(work_dir, 'hints')
    with open(hf, 'w') as f:
        for h in hints:
            f.write('%d\n' % h)
    texts = []
    status = 'pass'
    builds = []
    for i, flags in enumerate(spec.get('replay_flags', [[]])):
        builds.append((i, flags, os.path.join(work_dir, 'replay%d' % i)))

    def mk(b):
        i, flags, exe = b
        std = [f for f in flags if f.startswith('-std=')] or ['-std=c++98']
        rest = [f for f in flags if not f.startswith('-std=')]
        cmd = ['clang++-18'] + std + ['-O1', '-g', '-w', '-fsanitize=address,undefined', '-fno-sanitize-recover=undefined', '-fno-sanitize=vptr', '-DBOOST_ASIO_NO_DEPRECATED',
               '-DBOOST_CHRONO_HEADER_ONLY', '-I' + VERIF + '/replay', '-I' + build.REPO + '/include'] + rest + [os.path.join(VERIF, 'replay', src), '-o', exe,
               '-lboost_thread', '-lboost_system', '-lboost_chrono', '-lpthread']
        return b, subprocess.run(cmd, capture_output=True, text=True)
    with ThreadPoolExecutor(8) as ex:
        rs = list(ex.map(mk, builds))
    for (i, flags, exe), r in rs:
        if r.returncode != 0:
            status = 'error' if status == 'pass' else status
            texts.append('driver %s %s does not build:\n%s' % (src, flags, r.stderr[-3000:]))
            continue
        env = dict(os.environ, VERIF_SEED=seed, VC_SECONDS=str(seconds), VC_HINTS=hf, ASAN_OPTIONS='detect_leaks=1:abort_on_error=0:allocator_may_return_null=1',
                   UBSAN_OPTIONS='print_stacktrace=1')
        try:
            p = subprocess.run([exe], capture_output=True, text=True, errors='replace', env=env, cwd=work_dir, timeout=seconds * 4 + 60)
            o = p.stdout[-6000:] + p.stderr[-6000:]
            rc = p.returncode
        except subprocess.TimeoutExpired as x:
            o = 'driver did not finish'
            rc = 3
        texts.append('driver %s %s seed %s: exit %s\n%s' % (src, ' '.join(flags), seed, rc, o))
        if rc == 1 or rc < 0 or (rc != 0 and 'Sanitizer' in o) or 'runtime error' in o:
            return 'fail', '\n'.join(texts)
        if rc != 0 and status == 'pass':
            status = 'error'
    return status, '\n'.join(texts)


def main():
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in sys.argv:
        tier = sys.argv[sys.argv.index('--tier') + 1]
    spec = CHECKS[prop]
    seed = int(os.environ.get('VERIF_SEED', '1'))
    wd = tempfile.mkdtemp(prefix='vc_%s_' % prop)
    try:
        rc = check(prop, spec, tier, seed, wd)
    finally:
        shutil.rmtree(wd, ignore_errors=True)
    sys.exit(rc)


def check(prop, spec, tier, seed, wd):
    total = 560 if tier == 'quick' else 3000
    t_end = T0 + total
    units = [u for u in spec['units'] if tier == 'thorough' or u.get('tier', 'quick') == 'quick']
    trusted = list(spec.get('trusted', []))

    def comp(iu):
        i, u = iu
        try:
            return build.compile_contract(os.path.join(VERIF, 'contracts', u['file']), 'u%d' % i, u.get('flags', []), wd), None
        except build.BuildError as x:
            return None, str(x)
    with ThreadPoolExecutor(6) as ex:
        built = list(ex.map(comp, enumerate(units)))
    tasks = []
    undecided = []
    for i, (u, (ll, err)) in enumerate(zip(units, built)):
        if err:
            undecided.append('%s %s: contracts do not compile against the current source: %s' % (u['file'], ' '.join(u.get('flags', [])), err[-2500:]))
            continue
        mod = Module(open(ll).read())
        os.unlink(ll)
        ents = sorted(n for n in mod.fraw if n.startswith('@vc_contract_'))
        pat = u.get('entries')
        if pat:
            ents = [e for e in ents if re.match(pat + '$', e[len('@vc_contract_'):])]
        UNITS[i] = (mod, u)
        if not ents:
            undecided.append(u['file'] + ': no contract functions')
        opts = {'timeout': u.get('timeout', 20000 if tier == 'quick' else 60000), 'budget': u.get('budget', 400 if tier == 'quick' else 1500)}
        for e in ents:
            tasks.append((i, e, opts, t_end))
    tasks.sort(key=lambda t: -units[t[0]].get('cost', {}).get(t[1][len('@vc_contract_'):], 1))
    results = []
    sys.setrecursionlimit(20000)
    if tasks:
        with multiprocessing.get_context('fork').Pool(min(8, len(tasks)), maxtasksperchild=1) as pool:
            pend = [(t, pool.apply_async(work, (t,))) for t in tasks]
            for t, a in pend:
                try:
                    results.append(a.get(max(1, t_end + 30 - time.time())))
                except multiprocessing.TimeoutError:
                    undecided.append('%s: out of time' % t[1])
            pool.terminate()
    failed, obligations, discharged, backends, funcs, ext, solver_time, queries, loops = [], 0, 0, {}, set(), set(), 0.0, 0, []
    per_fn = []
    hints = set()
    for r in results:
        u = units[r['unit']]
        nm = '%s[%s]' % (r['entry'][len('@vc_contract_'):], ' '.join(u.get('flags', [])))
        if r['error']:
            undecided.append('%s: %s' % (nm, r['error']))
        n = d = 0
        for o in r['obl']:
            n += 1
            if o['status'] == 'discharged':
                d += 1
            elif o['status'] == 'failed':
                failed.append((nm, o))
            else:
                undecided.append('%s: obligation "%s" (%s) at %s: solver gave no answer' % (nm, o['name'], o['kind'], o['loc']))
            for b, k in o['backends'].items():
                backends[b] = backends.get(b, 0) + k
            if o['fail']:
                for a in o['fail']['inputs']:
                    try:
                        hints.add(int(a[1]))
                    except Exception:
                        pass
        if not r['error'] and n == 0:
            undecided.append(nm + ': no obligation was generated')
        mod = UNITS[r['unit']][0]
        want = cover_names(mod, r['entry'])
        if not r['error'] and want:
            reached = sum(1 for v in r['covers'].values() if v)
            if reached < len(set(want)):
                undecided.append('%s: only %d of %d reachability goals reached (%s)' % (nm, reached, len(set(want)), r['covers']))
        elif not want:
            undecided.append(nm + ': contract without reachability goal')
        obligations += n
        discharged += d
        funcs |= set(r['funcs'])
        ext |= set(r['ext'])
        solver_time += r['solver_time']
        queries += r['queries']
        loops += r['loops']
        per_fn.append({'contract': nm, 'obligations': n, 'discharged': d, 'queries': r['queries'], 'solver_s': round(r['solver_time'], 2), 'wall_s': round(r['wall'], 2),
                       'error': r['error'], 'reached': sorted(k for k, v in r['covers'].items() if v), 'loops_by_invariant': len(r['loops'])})
    fl = demangle(sorted(funcs))
    real = [f for f in fl if 'st_asio_wrapper' in f and 'vc_' not in f]
    status = 0
    standin = None
    lines = []
    if failed or undecided:
        secs = 25 if tier == 'quick' else 120
        st, text = run_replay(prop, spec, sorted(hints), wd, secs, None)
        standin = st
        os.makedirs(os.path.join(OUT, 'replays'), exist_ok=True)
        rp = os.path.join(OUT, 'replays', prop + '.txt')
        with open(rp, 'w') as f:
            f.write('property %s, tier %s\n\n' % (prop, tier))
            for nm, o in failed:
                f.write('FAILED OBLIGATION "%s" (%s) at %s\n  contract %s\n  counterexample of the verifier: %s\n  condition: %s\n  call stack:\n' % (o['name'], o['kind'], o['loc'], nm,
                        o['fail']['inputs'], o['fail']['cond']))
                for x in o['fail']['stack']:
                    f.write('    %s\n' % (x,))
            for x in undecided:
                f.write('UNDECIDED %s\n' % x)
            f.write('\nreplay on the real code: %s\n%s\n' % (st, text))
            f.write('\nrun again: cd /verif && VERIF_SEED=%d python3-vt vc/run.py %s --tier %s\n' % (seed, prop, tier))
        for nm, o in failed:
            print('failed obligation: "%s" (%s) at %s in contract %s' % (o['name'], o['kind'], o['loc'], nm))
        for x in undecided:
            print('undecided: ' + x[:600])
        if st == 'fail':
            lines.append('VIOLATION property=%s replay=%s' % (prop, rp))
            status = 1
        elif failed:
            lines.append('VIOLATION property=%s replay=%s no-failing-input-found' % (prop, rp))
            status = 1
        elif st == 'pass':
            print('the verifier left something undecided; the bounded stand-in (%s, %d s per configuration) found no failure; see %s' % (spec.get('replay'), secs, rp))
        else:
            print(text[-3000:])
            status = 2
    for x in spec.get('known', []):
        print('KNOWN-FINDING: property=%s %s' % (prop, x))
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': 'proof', 'coverage': {
        'obligations': obligations, 'discharged': discharged,
        'checker_cmd': 'cd /verif && python3-vt vc/run.py %s --tier %s' % (prop, tier),
        'trusted_base': ['vc/ (the verification-condition generator) and its reading of LLVM IR', 'clang 18 front end', 'z3 %s, cvc5' % engine.z3.get_version_string(),
                         'contracts assumed for dependencies: models/models.cpp, models/include/'] + trusted,
        'functions_under_contract': real, 'contracts': per_fn, 'solver_queries': queries, 'solver_s': round(solver_time, 2), 'backends': backends,
        'loops_proved_by_invariant': len(loops), 'assumed_dependency_functions': sorted(x for x in ext if not x.startswith('@vc_') and not x.startswith('@llvm.')),
        'undecided': [x[:500] for x in undecided], 'bounded_standin': standin},
        'assumptions': spec.get('assumptions', []), 'wall_s': round(time.time() - T0, 2), 'violations': 1 if status == 1 else 0}
    os.makedirs(os.path.join(OUT, 'evidence'), exist_ok=True)
    with open(os.path.join(OUT, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    print('%s: %d/%d obligations discharged, %d contracts, %d functions of the library executed, %.0f s solver, %.0f s' %
          (prop, discharged, obligations, len(results), len(real), solver_time, time.time() - T0))
    for x in lines:
        print(x)
    return status


if __name__ == '__main__':
    main()
