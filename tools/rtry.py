"""python3 tools/rtry.py REFAC PROP [sa.run args]: one check on one refactoring, verbosely"""
import sys, os, tempfile, shutil, subprocess
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import refac
refac.load()
d = tempfile.mkdtemp(prefix='rtry.', dir='/tmp')
try:
    refac.copy(sys.argv[1], d)
    subprocess.run(['python3', '-m', 'sa.run', sys.argv[2], '--repo', d + '/repo'] + sys.argv[3:], cwd=refac.V)
finally:
    shutil.rmtree(d)
