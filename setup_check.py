"""setup_cmd: nothing has to be built; fails if an interpreter or solver the checks use is missing."""
import os, shutil, subprocess, sys
py = shutil.which("python3-vt") or "/opt/veriftools/pyvenv/bin/python"
subprocess.run([py, "-c", "import z3, libcst; print('z3', z3.get_version_string())"], check=True)
subprocess.run(["/opt/venv/bin/python", "-c", "import sys; sys.dont_write_bytecode = True; import torch, megatron.energon; print('repo importable')"], check=True)
os.makedirs(os.path.join(os.path.dirname(os.path.abspath(__file__)), "evidence"), exist_ok=True)
