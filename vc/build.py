"""Compile a contract file against the current /repo sources and the dependency contracts; link; light cleanup."""
import os
import subprocess
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get('VC_REPO', '/repo')
LLVM = '/usr/lib/llvm-18/bin/'
BASE = ['-O0', '-Xclang', '-disable-O0-optnone', '-I' + VERIF + '/models', '-I' + VERIF + '/models/include', '-I' + REPO + '/include',
        '-I' + VERIF + '/contracts', '-DBOOST_ASIO_NO_DEPRECATED', '-DBOOST_CHRONO_HEADER_ONLY', '-gline-tables-only', '-S',
        '-emit-llvm', '-fno-inline', '-w', '-ferror-limit=5']


class BuildError(Exception):
    pass


def run(cmd):
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode != 0:
        raise BuildError(' '.join(cmd) + '\n' + r.stderr[-6000:])
    return r


def compile_contract(src, out, flags, workdir):
    std = '-std=c++98'
    for f in flags:
        if f.startswith('-std='):
            std = f
    fl = [f for f in flags if not f.startswith('-std=')]
    a = os.path.join(workdir, out)
    run(['clang++-18'] + BASE + [std] + fl + [src, '-o', a + '.1.ll'])
    run(['clang++-18', '-std=c++11'] + BASE + [os.path.join(VERIF, 'models', 'models.cpp'), '-o', a + '.2.ll'])
    run([LLVM + 'llvm-link', '-S', a + '.1.ll', a + '.2.ll', '-o', a + '.3.ll'])
    run([LLVM + 'opt', '-S', '-passes=sroa,early-cse,simplifycfg', a + '.3.ll', '-o', a + '.ll'])
    for k in '123':
        os.unlink(a + '.%s.ll' % k)
    return a + '.ll'
