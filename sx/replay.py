"""Concrete execution of a harness against the real, unmodified code of /repo (run with /opt/venv/bin/python).

  replay.py --serve HARNESS.py       JSON requests on stdin, JSON answers on stdout
  replay.py FILE.json                re-run one recorded counterexample; exit 1 if it still fails
"""
import json
import os
import sys
import traceback

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
if sys.path and os.path.abspath(sys.path[0] or ".") == os.path.join(ROOT, "sx"):
    sys.path[0] = ROOT
else:
    sys.path.insert(0, ROOT)
os.environ.setdefault("TZ", "UTC")
import time

time.tzset()
import warnings

warnings.simplefilter("ignore")


def load(path):
    import importlib.util

    from sx import api

    # the package under test comes from the current working tree of /repo
    src = os.environ.get("SX_REPO_SRC", "/repo/src")
    sys.path.insert(0, src)
    sys.path.append(os.path.join(ROOT, "harness"))
    import ics

    if os.path.realpath(os.path.dirname(ics.__file__)) != os.path.realpath(os.path.join(src, "ics")):
        raise SystemExit(f"wrong ics: {ics.__file__}")
    del api.CASES[:]
    spec = importlib.util.spec_from_file_location("h_" + os.path.basename(path)[:-3], path)
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    return {c.name: c for c in api.CASES}


def run(cases, req):
    from sx import api

    c = cases[req["case"]]
    return api.Concrete(req["inputs"], req.get("tier", "quick"), tuple(req.get("known", ()))).run(c.fn, c.args)


def failed(res):
    """labels that fail in a concrete result"""
    out = [l for l, ok in res["checks"] if not ok]
    if res["exc"]:
        out.append("exception:" + res["exc"][0])
    return out


def main():
    if sys.argv[1] == "--serve":
        out = os.fdopen(os.dup(1), "w")
        os.dup2(2, 1)
        cases = load(sys.argv[2])
        for line in sys.stdin:
            req = json.loads(line)
            try:
                res = run(cases, req)
            except BaseException:
                res = {"error": traceback.format_exc()}
            out.write(json.dumps(res) + "\n")
            out.flush()
    else:
        req = json.load(open(sys.argv[1]))
        cases = load(os.path.join(ROOT, "harness", req["harness"]))
        res = run(cases, req)
        print(json.dumps(res))
        sys.exit(1 if failed(res) else 0)


if __name__ == "__main__":
    main()
