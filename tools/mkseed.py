"""helper to write /verif/seeded/<id>: seed(id, prop, edits, needs, breaks, demo, flags) makes the patch in a scratch copy of /repo, runs the demo on
the unchanged and on the changed tree and keeps the entry if it tells them apart.  (Whether the stable tests pass is decided by vcheck.)"""
import json, os, shutil, subprocess, sys, tempfile
SEEDED = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'seeded')
PRE = '''#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <string>
#include <vector>
#include <iostream>
static int bad = 0;
#define CHECK(x) do {if (!(x)) {printf("broken: %s (line %d)\\n", #x, __LINE__); bad = 1;}} while (0)
'''
SH = '''#!/bin/bash
# run in /repo: 0 as long as the property holds in this demonstration
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 3
trap 'rm -rf "$t"' EXIT
g++ -std=%s -w -O1 -DBOOST_ASIO_NO_DEPRECATED -DBOOST_CHRONO_HEADER_ONLY %s -I include "$d/demo.cpp" -o "$t/demo" -lboost_system -lboost_thread -pthread || exit 3
cd "$t" && timeout %d ./demo
'''
def sh(cmd, cwd): return subprocess.run(cmd, cwd=cwd, capture_output=True, text=True)
def seed(sid, prop, edits, needs, breaks, demo, flags='', std='c++98', timeout=60, pre=True):
    if len(sys.argv) > 1 and sid not in sys.argv[1:]: return
    d = os.path.join(SEEDED, sid)
    t = tempfile.mkdtemp(prefix='seed')
    try:
        subprocess.run('git archive HEAD | tar x -C ' + t, shell=True, cwd='/repo', check=True)
        sh(['git', 'init', '-q', '.'], t); sh(['git', 'add', '-A'], t); sh(['git', '-c', 'user.name=x', '-c', 'user.email=x', 'commit', '-qm', 'x'], t)
        os.makedirs(d, exist_ok=True)
        open(d + '/demo.cpp', 'w').write((PRE if pre else '') + demo)
        open(d + '/demo.sh', 'w').write(SH % (std, flags, timeout)); os.chmod(d + '/demo.sh', 0o755)
        json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(d + '/meta.json', 'w'), indent=1)
        a = sh(['bash', d + '/demo.sh'], t)
        for f, old, new in edits:
            p = os.path.join(t, f); s = open(p, newline='').read()
            if '\r\n' in s: old, new = old.replace('\n', '\r\n'), new.replace('\n', '\r\n')
            assert s.count(old) == 1, (sid, f, s.count(old), old)
            open(p, 'w', newline='').write(s.replace(old, new))
        open(d + '/patch.diff', 'w', newline='').write(sh(['git', 'diff'], t).stdout)
        b = sh(['bash', d + '/demo.sh'], t)
        ok = a.returncode == 0 and b.returncode not in (0, 3)
        print(sid, 'OK' if ok else 'BAD', a.returncode, b.returncode, b.stdout.strip()[-150:].replace('\n', ' | '), '' if ok else a.stdout[-800:] + a.stderr[-1500:] + b.stderr[-600:], flush=True)
        if not ok and not os.environ.get('KEEP'): shutil.rmtree(d)
    finally: shutil.rmtree(t)
