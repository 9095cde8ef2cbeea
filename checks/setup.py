"""Checks that what the framework needs is there: the Quint package, node, and
that the harness builds.  Nothing it leaves behind is needed by the checks."""
import os, shutil, sys, tempfile
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import engine
work = tempfile.mkdtemp(prefix='mplx-setup-')
try:
    engine.quint_package()
    print('built', os.path.basename(engine.build(work)))
except engine.ToolError as e:
    print(e)
    sys.exit(1)
finally:
    shutil.rmtree(work, ignore_errors=True)
