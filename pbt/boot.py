"""Puts /repo (the code under test) and the two site-packages on sys.path.

Hypothesis lives in the verification venv, pycryptodome / Pillow / chardet in the
project's own venv; both are the same CPython 3.12, so one process can use both.
Nothing is installed and no byte code is written or read from /repo.
"""
import os, sys, logging, warnings, tempfile, atexit, shutil

REPO = os.environ.get('PBT_REPO', '/repo')
EXTRA = ['/opt/venv/lib/python3.12/site-packages']
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

sys.dont_write_bytecode = True
sys.path[:] = [p for p in sys.path if p not in ('', REPO)]
sys.path.insert(0, REPO)
if VERIF not in sys.path:
    sys.path.insert(1, VERIF)
for p in EXTRA:
    if p not in sys.path:
        sys.path.append(p)
os.environ.pop('CMAP_PATH', None)
warnings.simplefilter('ignore')
logging.disable(logging.CRITICAL)
logging.getLogger().addHandler(logging.NullHandler())
