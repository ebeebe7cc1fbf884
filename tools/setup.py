#!/usr/bin/env python3
"""Warms Go's build cache; every check builds what it needs by itself too."""
import os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
import run
def main():
    env = run.goenv()
    for opt in ((), ("race",), ("asan",)):
        pkgs = sorted({(c["pkg"]) for c in run.CHECKS.values() if c["race"] == ("race" in opt) and c["asan"] == ("asan" in opt)})
        for p in pkgs:
            if not os.path.isdir(os.path.join(V, "harness", p)):
                continue
            tmp = tempfile.mkdtemp(prefix="verif-setup-")
            try:
                run.build(env, tmp, dict(pkg=p, race="race" in opt, asan="asan" in opt))
                print("built", p, *opt)
            finally:
                shutil.rmtree(tmp, ignore_errors=True)
main()
