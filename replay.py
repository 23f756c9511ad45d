import os, sys, tempfile, shutil
sys.dont_write_bytecode = True
a = sys.argv[1:]
sys.argv = ['check.py']
import check
w = tempfile.mkdtemp(prefix='vp-replay-')
try:
    h = check.Hunt(w, ver=int(os.environ.get('VER', 16)))
    if not h.ready():
        print(h.err)
        sys.exit(2)
    rc, o = h.run(['replay'] + a, 60)
    print(o)
    sys.exit(rc)
finally:
    shutil.rmtree(w)
