#!/usr/bin/env python3
"""python3 check.py <property id>: decides one property on /repo's current tree."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "engine"))
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "rules"))
import importlib, infra

def run(pid):
    import registry
    modname, fname, text, assumptions, floor = registry.RULES[pid]
    mod = importlib.import_module(modname)
    return infra.main(pid, getattr(mod, fname), text, assumptions, floor)

if __name__ == "__main__":
    sys.exit(run(sys.argv[1]))
