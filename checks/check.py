#!/usr/bin/env python3
"""check.py PROPERTY TIER"""
import importlib, sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib import ToolError, log

WHERE = {"T": "tid", "V": "engine", "O": "engine", "M": "engine", "L": "lang", "S": "server", "S04": "engine", "M02": "trans", "M03": "trans"}


def main():
    prop, tier = sys.argv[1], sys.argv[2]
    mod = importlib.import_module(WHERE.get(prop) or WHERE[prop[0]])
    try:
        rc = mod.main(prop, tier)
    except ToolError as e:
        log("check error:", e)
        rc = 2
    sys.exit(rc)


if __name__ == "__main__":
    main()
