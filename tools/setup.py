"""Nothing is built ahead: every check builds the replay harness from /repo's current tree itself."""
import os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for t in ("cargo", "rustc"):
    subprocess.run([t, "--version"], check=True)
py = "/opt/veriftools/pyvenv/bin/python3"
subprocess.run([py if os.path.exists(py) else "python3-vt", "-c", "import z3; print(z3.get_version_string())"], check=True)
