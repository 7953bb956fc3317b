"""Turn the table of bugs into /verif/seeded/<id>/ and try the checks on them.

  plant.py write [ID..]   write patch.diff, demo.sh, demo.py, meta.json; confirm that the
                          patch applies, that the stable tests still pass with it, and that
                          the demonstration passes without and fails with it
  plant.py check [ID..]   run the property's quick check on each patched tree
"""
import json, os, re, subprocess, sys, shutil, tempfile
HERE = os.path.dirname(os.path.abspath(__file__))
V = os.path.dirname(HERE)
sys.path.insert(0, HERE)
from bugs import BUGS
BASE = json.load(open("/opt/vp/BASELINE.json"))

def sh(cmd, cwd="/repo", timeout=900):
    return subprocess.run(cmd, shell=True, cwd=cwd, text=True, timeout=timeout,
                          stdout=subprocess.PIPE, stderr=subprocess.STDOUT)

def clean():
    sh("git checkout -- .")

def base_lines():
    return set()

def stable():
    def names(o):
        if isinstance(o, dict):
            for k in ("stable", "passed", "tests", "stable_pass"):
                if k in o:
                    return names(o[k])
            return set(o)
        return set(o)
    return names(BASE)

def tests():
    out = tempfile.mktemp(suffix=".json")
    sh(f"bash /opt/vp/test.sh {out}")
    try:
        r = json.load(open(out))
    except Exception as e:
        return ["no result %s" % e]
    finally:
        if os.path.exists(out):
            os.unlink(out)
    passed = set(r.get("passed", []))
    return sorted(stable() - passed)

def demo(d):
    return sh(f"bash {d}/demo.sh", timeout=300)

def write(bid, b):
    d = f"{V}/seeded/{bid}"
    clean()
    for f, old, new in b["edits"]:
        p = "/repo/src/ics/" + f
        s = open(p).read()
        assert s.count(old) == 1, (bid, f, s.count(old), old)
    os.makedirs(d, exist_ok=True)
    open(d + "/demo.py", "w").write(b["demo"].strip() + "\n")
    env = b.get("env", "")
    open(d + "/demo.sh", "w").write(
        "#!/bin/bash\n" + (f"export {env}\n" if env else "") +
        'exec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"\n')
    json.dump({"property": b["prop"], "needs": b["needs"], "what_it_breaks": b["what"]},
              open(d + "/meta.json", "w"), indent=1)
    r = demo(d)
    ok = True
    if r.returncode != 0:
        print(bid, "DEMO FAILS ON CLEAN TREE", r.stdout[-1500:]); ok = False
    import time
    time.sleep(1.1)     # a cached .pyc goes by whole seconds
    # every removed line has to be original
    for f, old, new in b["edits"]:
        p = "/repo/src/ics/" + f
        s = open(p).read()
        open(p, "w").write(s.replace(old, new))
    diff = sh("git diff").stdout
    open(d + "/patch.diff", "w").write(diff)
    base = sh("git log --format=%h --reverse").stdout.split()[0]
    for f in sorted({e[0] for e in b["edits"]}):
        cur = 0
        for line in sh(f"git diff -U0 -- src/ics/{f}").stdout.splitlines():
            m = re.match(r"@@ -(\d+)(?:,(\d+))?", line)
            if m and m.group(2) != "0":
                n = int(m.group(2) or 1)
                bl = sh(f"git blame -s -L {m.group(1)},+{n} HEAD -- src/ics/{f}").stdout
                for x in bl.splitlines():
                    if x.split()[0].lstrip("^")[:7] != base[:7]:
                        print(bid, "NOT ORIGINAL:", x); ok = False
    try:
        r = demo(d)
        if r.returncode == 0:
            print(bid, "DEMO PASSES WITH THE BUG"); ok = False
        else:
            last = (r.stdout.strip().splitlines() or [""])[-1]
            print(bid, "demo:", last[:150])
        t = tests()
        if t:
            print(bid, "TESTS FAIL:", len(t), t[:3]); ok = False
    finally:
        clean()
    if not ok:
        shutil.rmtree(d)
    print(bid, "ok" if ok else "REJECTED", flush=True)

def check(bid, b, props=None):
    d = f"{V}/seeded/{bid}"
    if not os.path.exists(d):
        return
    clean()
    r = sh(f"git apply {d}/patch.diff")
    assert r.returncode == 0, r.stdout
    try:
        import time
        t = time.time()
        res = []
        for p in props or [b["prop"]]:
            r = sh(f"python3-vt -m sx.runner {p} --tier quick", cwd=V)
            v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
            res.append(f"{p}:{r.returncode}:{len(v)}")
            lines = [l for l in r.stdout.splitlines() if "VIOL" in l or "replay" in l.lower()]
        print(bid, "CAUGHT" if any(":1:" in x for x in res) else "MISSED", " ".join(res),
              "%.0fs" % (time.time() - t), (lines[0][:120] if lines else ""), flush=True)
        cs = [l.strip()[5:] for l in r.stdout.splitlines() if l.startswith("  case ")]
        if os.environ.get("CATCH"):
            json.dump({bid: cs[0].split("  inputs")[0][:160] if cs else "missed"}, open(os.environ["CATCH"] + "/" + bid, "w"))
        if not any(":1:" in x for x in res):
            print(r.stdout[-600:])
    finally:
        clean()

if __name__ == "__main__":
    cmd, ids = sys.argv[1], sys.argv[2:]
    for bid, b in BUGS.items():
        if ids and not any(bid == i or bid.startswith(i) for i in ids):
            continue
        (write if cmd == "write" else check)(bid, b)
