"""setup_cmd: checks that the tools are there (each check builds what it needs by itself)."""
import subprocess, sys, os
from vlib import JARS
for cmd in (["g++", "--version"], ["java", "-cp", JARS, "tlc2.TLC", "-h"]):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if p.returncode not in (0, 1):
        print("missing tool", cmd[0])
        sys.exit(1)
os.makedirs(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "evidence"), exist_ok=True)
print("ready")
