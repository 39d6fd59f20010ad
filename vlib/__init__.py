import os, sys
sys.dont_write_bytecode = True
_z = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
if _z not in sys.path: sys.path.append(_z)
REPO = os.environ.get("VERIF_REPO", "/repo")
if REPO not in sys.path: sys.path.insert(0, REPO)
