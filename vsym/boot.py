"""Environment set-up: import z3 from the tooling venv and lambeq from /repo."""
import os
import sys

REPO = os.environ.get('VERIF_REPO', '/repo')
_VT = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'

for _k, _v in {'MPLBACKEND': 'Agg', 'HF_HUB_OFFLINE': '1',
               'TRANSFORMERS_OFFLINE': '1', 'CUDA_VISIBLE_DEVICES': '',
               'OMP_NUM_THREADS': '1', 'MKL_NUM_THREADS': '1',
               'TOKENIZERS_PARALLELISM': 'false', 'JAX_PLATFORMS': 'cpu',
               'TQDM_DISABLE': '1'}.items():
    os.environ.setdefault(_k, _v)
sys.dont_write_bytecode = True

sys.path.append(_VT)
try:
    import z3                       # noqa: F401
finally:
    sys.path.remove(_VT)

if REPO in sys.path:
    sys.path.remove(REPO)
sys.path.insert(0, REPO)
sys.setrecursionlimit(5000)

import lambeq                       # noqa: E402
_root = os.path.realpath(os.path.dirname(os.path.dirname(lambeq.__file__)))
if _root != os.path.realpath(REPO):
    print(f'error: lambeq imported from {_root}, not from {REPO}')
    sys.exit(2)
