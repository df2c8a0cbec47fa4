#!/usr/bin/env python3
"""main.py PROP quick|thorough   |   main.py replay FILE"""
import importlib, json, os, sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "checks"))
import core, build


def main():
    only = None
    if sys.argv[1] == "replay":
        r = json.load(open(sys.argv[2] if os.path.exists(sys.argv[2]) else os.path.join(core.VERIF, sys.argv[2])))
        prop, tier, only = r["property"], r["tier"], (r["phase"], r["index"])
    else:
        prop, tier = sys.argv[1], (sys.argv[2] if len(sys.argv) > 2 else "quick")
    m = importlib.import_module(prop.lower())
    ck = core.Check(prop, tier, m.LEVEL, m.TECH)
    ck.only = only
    print("%s %s" % (prop, tier), flush=True)
    build.build()
    try:
        rc = m.run(ck, tier)
    finally:
        ck.close()
    sys.exit(rc)


if __name__ == "__main__":
    main()
