"""nothing to build: the checks compile what they need from /repo on every run; verify that the tools are there"""
import shutil, sys
import z3
ok = True
for t in ('clang++-18', '/usr/lib/llvm-18/bin/llvm-link', '/usr/lib/llvm-18/bin/opt', 'cvc5', 'c++filt'):
    if not shutil.which(t):
        print('missing ' + t); ok = False
print('z3', z3.get_version_string())
sys.exit(0 if ok else 1)
