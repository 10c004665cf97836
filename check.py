#!/usr/bin/env python3
"""check.py <property id>   (VERIF_SEED, VERIF_TIER from the environment; 'setup' builds everything)"""
import importlib, os, sys, traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
import core

def main():
    pid = sys.argv[1]
    if pid == "setup":
        for b in core.BUILDS:
            core.build(b, must=b in ("dbg", "rel", "cli"))
        return 0
    try:
        import checks
        return checks.RUN[pid]()
    except core.ToolError as e:
        print("TOOL ERROR:", e, file=sys.stderr)
        return 2
    except Exception:
        traceback.print_exc()
        return 2

if __name__ == "__main__":
    sys.exit(main())
