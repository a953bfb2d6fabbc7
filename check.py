#!/usr/bin/env python3
"""check.py PROPERTY quick|thorough [-v] [UNIT...]"""
import os
import sys

if os.environ.get("PYTHONHASHSEED") != "0":
    # The same analysis in the same order, run after run
    try:
        import ctypes

        ctypes.CDLL(None).personality(0x0040000)
    except Exception:
        pass
    os.environ["PYTHONHASHSEED"] = "0"
    os.execv(sys.executable, [sys.executable] + sys.argv)
sys.dont_write_bytecode = False
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
import framework

sys.modules["framework"] = framework
if __name__ == "__main__":
    a = [x for x in sys.argv[1:] if x != "-v"]
    prop = a[0]
    tier = a[1] if len(a) > 1 else "quick"
    sys.exit(framework.main(prop, tier, a[2:], "-v" in sys.argv))
