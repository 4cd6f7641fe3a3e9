#!/usr/bin/env python3
"""python3 run.py <property id>: run one check (VERIF_SEED, VERIF_TIER from the environment)."""
import importlib, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "lib"))
sys.dont_write_bytecode = True
import vp
def main():
    pid = sys.argv[1]
    if len(sys.argv) > 2: os.environ["VERIF_TIER"] = sys.argv[2]
    mod = importlib.import_module("checks_" + {"P": "pool", "M": "marray", "N": "num", "F": "files", "T": "tau",
                                               "B": "body", "X": "xs", "S": "sim"}[pid[0]])
    c = vp.Check(pid)
    sys.exit(c.main(getattr(mod, pid)))
main()
