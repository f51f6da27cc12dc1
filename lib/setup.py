"""setup_cmd: checks that the tools the checks need are present and that /repo builds in a scratch directory"""
import os, shutil, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
import harness as H
for t in ("gcc", "as", "ld", "bash"):
    if not shutil.which(t):
        sys.exit("missing tool: " + t)
os.makedirs(os.path.join(H.VERIF, "evidence"), exist_ok=True)
b = H.Build("plain")
print("built", b.cspc)
