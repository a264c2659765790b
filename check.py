#!/usr/bin/env python3
"""check.py ID [--tier quick|thorough] [--seed N]: decides one property."""
import argparse, importlib, os, sys, traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
sys.dont_write_bytecode = True
sys.setrecursionlimit(100000)
import vf

AREAS = {
    "front": ["C01", "C02", "C03", "C04"],
    "treechk": ["C05", "C06"],
    "boxes": ["C07", "C08", "C09", "C10", "C11", "C12", "C13"],
    "typeset": ["C14", "C15", "C16", "C17"],
    "render": ["C18", "C22", "C25"],
    "fonts": ["C19", "C20"],
    "syms": ["C21", "C24"],
    "conc": ["C23"],
    "gui": ["C26"],
    "loop": ["C28"],
    "vector": ["C29"],
    "pdf": ["C27"],
}


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("id")
    ap.add_argument("--tier")
    ap.add_argument("--seed")
    a = ap.parse_args()
    area = next(k for k, v in AREAS.items() if a.id in v)
    c = vf.Check(a.id, a.tier, a.seed)
    try:
        importlib.import_module(area).run(c)
        rc = c.finish()
    except vf.Broken as e:
        print("BROKEN: %s" % e, file=sys.stderr)
        rc = 2
    except Exception:
        traceback.print_exc()
        rc = 2
    finally:
        c.cleanup()
    sys.exit(rc)


if __name__ == "__main__":
    main()
