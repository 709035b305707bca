"""Runs recorded inputs on the real package.

usage: replay.py <file.json>     file: {"property": id, "inputs": [...]}; prints one JSON line
       replay.py --one <file>    a single VIOLATION replay file; exit 1 when the violation reproduces
"""
import importlib
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.dont_write_bytecode = True
sys.path.insert(0, VERIF)
sys.path.insert(0, os.path.join(REPO, "bittrue", "models", "python"))


def main():
    one = sys.argv[1] == "--one"
    d = json.load(open(sys.argv[-1]))
    from replay import conenv
    import en_cl_fix_pkg as pkg
    mod = importlib.import_module("props." + d["module"])
    if one:
        r = conenv.run_one(mod, pkg, d["input"])
        print(json.dumps(r, default=str))
        sys.exit(1 if r["status"] in ("fail", "error") else 0)
    out = [conenv.run_one(mod, pkg, i) for i in d["inputs"]]
    print("RESULT " + json.dumps(out, default=str))


if __name__ == "__main__":
    main()
