"""Nothing is installed: the checks need python3, clang++-18, ninja and the project's own build. Verifies that."""
import py_compile
import glob
import os
import shutil
import sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for tool in ('clang++-18', 'ninja', 'git', 'make'):
    if not shutil.which(tool):
        sys.exit('missing ' + tool)
for f in glob.glob(here + '/lib/*.py') + glob.glob(here + '/checks/*.py'):
    py_compile.compile(f, doraise=True, cfile='/dev/null' if False else None)
print('ok')
