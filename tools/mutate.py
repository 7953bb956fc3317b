"""Mutation of the sources of ics-py, to find behaviour that no check looks at.

  mutate.py list N SEED DIR      draw N mutants -> DIR/mutants.json
  mutate.py tests DIR [JOBS]     which of them survive the stable tests (private copies of /repo)
  mutate.py checks DIR           run the checks that execute the mutated function on the survivors
"""
import ast, copy, glob, json, os, random, subprocess, sys, tempfile, shutil, concurrent.futures, time

SRC = "/repo/src/ics"
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CMP = {ast.Lt: [ast.LtE, ast.GtE], ast.LtE: [ast.Lt, ast.Gt], ast.Gt: [ast.GtE, ast.LtE], ast.GtE: [ast.Gt, ast.Lt],
       ast.Eq: [ast.NotEq], ast.NotEq: [ast.Eq], ast.Is: [ast.IsNot], ast.IsNot: [ast.Is], ast.In: [ast.NotIn], ast.NotIn: [ast.In]}
BIN = {ast.Add: [ast.Sub], ast.Sub: [ast.Add], ast.Mult: [ast.Add], ast.FloorDiv: [ast.Mult], ast.Mod: [ast.Add]}


def alternatives(n):
    if isinstance(n, ast.Compare) and len(n.ops) == 1:
        for o in CMP.get(type(n.ops[0]), ()):
            m = copy.deepcopy(n); m.ops = [o()]; yield m
    if isinstance(n, ast.BoolOp):
        m = copy.deepcopy(n); m.op = ast.Or() if isinstance(n.op, ast.And) else ast.And(); yield m
        for i in range(len(n.values)):
            if len(n.values) == 2:
                yield n.values[i]
            else:
                m = copy.deepcopy(n); del m.values[i]; yield m
    if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
        yield n.operand
    if isinstance(n, ast.BinOp) and type(n.op) in BIN:
        for o in BIN[type(n.op)]:
            m = copy.deepcopy(n); m.op = o(); yield m
    if isinstance(n, ast.Constant):
        if isinstance(n.value, bool):
            yield ast.Constant(not n.value)
        elif isinstance(n.value, int):
            yield ast.Constant(n.value + 1)
            if n.value: yield ast.Constant(n.value - 1)
        elif isinstance(n.value, str) and n.value:
            yield ast.Constant(n.value[:-1])
            yield ast.Constant(n.value + "X")
    if isinstance(n, (ast.If, ast.IfExp, ast.While)):
        m = copy.deepcopy(n)
    if isinstance(n, ast.Return) and n.value is not None and not (isinstance(n.value, ast.Constant) and n.value.value is None):
        yield ast.Return(ast.Constant(None))
    if isinstance(n, (ast.Expr, ast.Assign, ast.AugAssign, ast.Raise, ast.Continue, ast.Break, ast.Delete)):
        if not (isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant)):
            yield ast.Pass()
    if isinstance(n, ast.If):
        m = copy.deepcopy(n); m.test = ast.Constant(False); yield m
        m = copy.deepcopy(n); m.test = ast.Constant(True); yield m
    if isinstance(n, ast.IfExp):
        yield n.body
        yield n.orelse
    if isinstance(n, ast.Call):
        for i in range(len(n.args)):
            if len(n.args) > 1:
                m = copy.deepcopy(n); del m.args[i]; yield m
        for i in range(len(n.keywords)):
            m = copy.deepcopy(n); del m.keywords[i]; yield m
        if len(n.args) == 2:
            m = copy.deepcopy(n); m.args.reverse(); yield m
        if isinstance(n.func, ast.Attribute) and not n.args and not n.keywords:
            yield n.func.value
    if isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Slice):
        for f in ("lower", "upper"):
            if getattr(n.slice, f) is not None:
                m = copy.deepcopy(n); setattr(m.slice, f, None); yield m


def mutants(path):
    src = open(path).read()
    lines = src.splitlines(keepends=True)
    tree = ast.parse(src)
    rel = os.path.relpath(path, SRC)
    mod = "ics." + rel[:-3].replace("/", ".").replace(".__init__", "")
    out = []

    def walk(n, qual, infn):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            q = qual + [n.name]
            fn = infn or isinstance(n, ast.FunctionDef)
            if isinstance(n, ast.FunctionDef) and n.name in ("__repr__", "__str__", "get_str_segments", "__init_subclass__", "_repr_pretty_"):
                return
            if isinstance(n, ast.FunctionDef) and any("overload" in ast.dump(d) for d in n.decorator_list):
                return
            for c in n.body:
                walk(c, q, fn)
            return
        if isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id == "__all__" for t in n.targets):
            return
        if isinstance(n, (ast.Import, ast.ImportFrom, ast.AnnAssign)) and not infn:
            if isinstance(n, ast.AnnAssign) and n.value is not None:
                walk(n.value, qual, infn)
            return
        if isinstance(n, ast.AnnAssign):
            if n.value is not None:
                walk(n.value, qual, infn)
            return
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
            return
        if isinstance(n, (ast.Raise, ast.Assert, ast.JoinedStr)) :
            if isinstance(n, ast.Raise) and infn:
                out.append((n, ast.Pass(), qual))
            return
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("warn", "cast", "TypeVar"):
            return
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("cast", "TypeVar"):
            return
        if hasattr(n, "lineno"):
            for m in alternatives(n):
                out.append((n, m, qual))
        for c in ast.iter_child_nodes(n):
            walk(c, qual, infn)

    for c in tree.body:
        if isinstance(c, ast.If) and "TYPE_CHECKING" in ast.dump(c.test):
            continue
        if isinstance(c, ast.If) and "__main__" in ast.dump(c.test):
            continue
        walk(c, [], False)
    for n, m, qual in out:
        off = [0]
        for l in lines:
            off.append(off[-1] + len(l.encode()))
        b = src.encode()
        s, e = off[n.lineno - 1] + n.col_offset, off[n.end_lineno - 1] + n.end_col_offset
        old = b[s:e].decode()
        new = ast.unparse(ast.fix_missing_locations(m))
        if isinstance(m, ast.expr) and not isinstance(m, ast.Constant):
            new = "(" + new + ")"
        if "\n" in new:
            new = new.replace("\n", "\n" + " " * n.col_offset)
        res = (b[:s] + new.encode() + b[e:]).decode()
        if res == src:
            continue
        try:
            compile(res, path, "exec")
        except SyntaxError:
            continue
        yield dict(file=rel, mod=mod, fn=".".join([mod] + qual), line=n.lineno, old=old[:300], new=new[:300], start=s, end=e, text=new)


def apply(root, m):
    p = f"{root}/src/ics/{m['file']}"
    b = open(p, "rb").read()
    open(p, "wb").write(b[: m["start"]] + m["text"].encode() + b[m["end"]:])
    return p, b


def iso(cmd, root, ev=None, timeout=900):
    c = f"mount --bind {root} /repo && "
    if ev:
        c += f"mount --bind {ev} {V}/evidence && cd {V} && "
    return subprocess.run(["timeout", str(timeout), "unshare", "-m", "bash", "-c", c + cmd], text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)


def show(m):
    return f"{m['file']}:{m['line']} [{m['fn'].split('.', 1)[1]}] {m['old'][:150]!r} -> {m['new'][:150]!r}"


def main():
    cmd = sys.argv[1]
    if cmd == "list":
        n, seed, d = int(sys.argv[2]), sys.argv[3], sys.argv[4]
        allm = [m for p in sorted(glob.glob(SRC + "/**/*.py", recursive=True)) for m in mutants(p)]
        print(len(allm), "mutants")
        random.Random(seed).shuffle(allm)
        os.makedirs(d, exist_ok=True)
        json.dump(allm[:n], open(d + "/mutants.json", "w"), indent=1)
    elif cmd == "tests":
        d = sys.argv[2]
        jobs = int(sys.argv[3]) if len(sys.argv) > 3 else 8
        ms = json.load(open(d + "/mutants.json"))
        base = json.load(open("/opt/vp/BASELINE.json"))
        names = base
        for k in ("stable", "passed", "tests", "stable_pass"):
            if isinstance(names, dict) and k in names:
                names = names[k]
        names = set(names)
        import queue
        roots = queue.Queue()
        for i in range(jobs):
            r = tempfile.mkdtemp(prefix="mutrepo")
            shutil.rmtree(r)
            subprocess.run(["cp", "-a", "/repo", r], check=True)
            roots.put(r)

        def one(m):
            r = roots.get()
            try:
                p, b = apply(r, m)
                out = tempfile.mktemp(suffix=".json")
                try:
                    q = iso("cd / && /opt/venv/bin/python -c 'import ics, ics.timeline, ics.rrule'", r)
                    if q.returncode:
                        m["tests"] = -1
                        return m
                    iso(f"bash /opt/vp/test.sh {out} >/dev/null 2>&1", r, timeout=300)
                    try:
                        passed = set(json.load(open(out)).get("passed", []))
                        m["tests"] = len(names - passed)
                    except Exception:
                        m["tests"] = -2
                finally:
                    open(p, "wb").write(b)
                    if os.path.exists(out):
                        os.unlink(out)
                return m
            finally:
                roots.put(r)

        with concurrent.futures.ThreadPoolExecutor(jobs) as ex:
            for i, m in enumerate(ex.map(one, ms)):
                if m["tests"] == 0:
                    print("survives:", show(m), flush=True)
        while not roots.empty():
            shutil.rmtree(roots.get())
        json.dump(ms, open(d + "/mutants.json", "w"), indent=1)
        print(sum(m["tests"] == 0 for m in ms), "of", len(ms), "survive the tests")
    elif cmd == "checks":
        d = sys.argv[2]
        ms = json.load(open(d + "/mutants.json"))
        enc = {}
        for f in glob.glob(V + "/evidence/P*.json"):
            e = json.load(open(f))
            enc[e["property"]] = (set(e["coverage"]["functions_encoded"]), e["wall_s"])
        root = tempfile.mkdtemp(prefix="mutrepo")
        shutil.rmtree(root)
        subprocess.run(["cp", "-a", "/repo", root], check=True)
        ev = tempfile.mkdtemp(prefix="mutev")
        for m in ms:
            if m.get("tests") != 0 or m.get("killed") is not None:
                continue
            props = [p for p, (fs, w) in enc.items() if any(f == m["fn"] or f.startswith(m["fn"] + ".") for f in fs)]
            incl = bool(props)
            if not props:
                props = [p for p, (fs, w) in enc.items() if any(f.startswith(m["mod"] + ".") for f in fs)]
            props.sort(key=lambda p: enc[p][1])
            p, b = apply(root, m)
            t = time.time()
            m["killed"] = ""
            tried = []
            try:
                for pid in props:
                    tried.append(pid)
                    q = iso(f"python3-vt -m sx.runner {pid} --tier quick --budget 100", root, ev)
                    if "VIOLATION" in q.stdout:
                        m["killed"] = pid
                        break
                    if q.returncode not in (0, 1) or "engine error" in q.stdout or "UNCONF" in q.stdout:
                        print("  note", pid, q.returncode, q.stdout[-300:], flush=True)
            finally:
                open(p, "wb").write(b)
            print(("killed by " + m["killed"]) if m["killed"] else f"MISSED ({','.join(tried)}{'' if incl else ' module'})", show(m), "%.0fs" % (time.time() - t), flush=True)
            json.dump(ms, open(d + "/mutants.json", "w"), indent=1)
        shutil.rmtree(root)
        shutil.rmtree(ev)


main()
