#!/usr/bin/env python3
"""check.py <property> [quick|thorough]"""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
sys.dont_write_bytecode = True
import importlib
import vlib

MODULES = {"F": "c_twin", "T": "c_pool", "S": "c_struct", "D": "c_db", "K": "c_cache"}
OVERRIDE = {"F10": "c_image", "F11": "c_archive", "F12": "c_size", "F13": "c_verbose"}


def run(pid, tier):
    m = importlib.import_module(OVERRIDE.get(pid, MODULES[pid[0]]))
    vlib.main(pid, tier, getattr(m, pid.lower()), getattr(m, "LEVEL", {}).get(pid, "model_checking"))


if __name__ == "__main__":
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    run(pid, tier)
