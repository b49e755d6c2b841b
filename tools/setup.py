"""sanity of the sandbox: the compilers and solvers the checks use are there"""
import shutil, sys, z3, sympy, mpmath
for x in ('clang++-18', 'g++', 'c++filt'):
    if not shutil.which(x):
        sys.exit('missing ' + x)
print('ok', z3.get_version_string())
