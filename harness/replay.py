#!/opt/venv/bin/python
"""replay.py <file>: run a recorded violation again on /repo's current tree and hold it to the specification."""
import importlib, json, os, sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import core, tlc  # noqa: E402


def main():
    d = json.load(open(sys.argv[1]))
    print("recorded verdict:", core.describe(d["verdict"], d["trace"]))
    mod, name, args, spec, env = d["job"]
    t = getattr(importlib.import_module(mod), name)(*args)
    c = core.Check(d["property"], "quick")
    c.judge(spec, [t], env=env)
    if "-v" in sys.argv:
        print(json.dumps(t, indent=1))
    if not c.rejects:
        print("now: accepted")
        return 0
    for x, tr, _ in c.rejects:
        print("now:", core.describe(x, tr))
    return 1


if __name__ == "__main__":
    sys.exit(main())
