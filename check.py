#!/usr/bin/env python3
"""Decides one property on /repo's current tree.

  check.py <ID>                      (VERIF_SEED, VERIF_TIER from the environment)
  check.py <ID> --replay <file>      replays a recorded case against the current tree

1. pyvc generates the verification conditions of every function under contract for the property from the current
   source and lets z3/cvc5 discharge them (see DESIGN.md);
2. the runtime form of the same contracts runs on a freshly built copy of the tree: it searches for the concrete
   failing input of a failed obligation and is the bounded stand-in for functions the verifier cannot reach."""
import argparse, ast, json, os, re, shutil, signal, subprocess, sys, tempfile, time
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
PY = "/opt/venv/bin/python"
VT = "/opt/veriftools/pyvenv/bin/python" if os.path.exists("/opt/veriftools/pyvenv/bin/python") else "python3-vt"
NPROC = 8


def sources():
    out = []
    for d, _, fs in os.walk(os.path.join(REPO, "switss")):
        if "__pycache__" in d or d.endswith("/test"):
            continue
        for f in fs:
            if f.endswith((".py", ".pyx", ".pxd")):
                out.append(os.path.relpath(os.path.join(d, f), REPO))
    return sorted(out)


def literals():
    r = {}
    for f in sources():
        s = open(os.path.join(REPO, f), encoding="utf-8").read()
        s = re.sub(r'"""[\s\S]*?"""|#.*', "", s)
        r[f] = sorted({int(x) for x in re.findall(r"(?<![\w.])(\d{1,4})(?![\w.])", s)})
    return r


def mined_sizes():
    """sizes around integer literals that are new in the current source"""
    try:
        base = json.load(open(os.path.join(HERE, "baseline_literals.json")))
    except OSError:
        return []
    res = set()
    for f, ls in literals().items():
        for x in ls:
            if x not in base.get(f, []) and 2 <= x <= 60:
                res |= {x - 1, x, x + 1, x + 2}
            elif x not in base.get(f, []) and 60 < x <= 300:
                res |= {x + 1, x + 2}
    return sorted(res)[:12]


def build(scratch):
    root = os.path.join(scratch, "tree")
    os.makedirs(root)
    shutil.copytree(os.path.join(REPO, "switss"), os.path.join(root, "switss"),
                    ignore=shutil.ignore_patterns("__pycache__", "*.so", "*.c", "test", ".pytest_cache"))
    for f in ("setup.py", "README.md"):
        if os.path.exists(os.path.join(REPO, f)):
            shutil.copy(os.path.join(REPO, f), root)
    env = dict(os.environ, CYTHON_FORCE_REGEN="1", HOME=scratch, PYTHONDONTWRITEBYTECODE="1", CFLAGS="-O1")
    env.pop("PYTHONPATH", None)
    key = None
    if os.environ.get("VERIF_DEVCACHE"):      # development only; never set by the registered commands
        import hashlib
        h = hashlib.sha256()
        for d, _, fs in sorted(os.walk(root)):
            for f in sorted(fs):
                if f.endswith((".pyx", ".pxd", "setup.py")):
                    h.update(f.encode() + open(os.path.join(d, f), "rb").read())
        key = os.path.join(os.environ["VERIF_DEVCACHE"], h.hexdigest())
        if os.path.isdir(key):
            for f in os.listdir(key):
                shutil.copy(os.path.join(key, f), os.path.join(root, "switss/utils"))
            return root, None
    p = subprocess.run([PY, "setup.py", "-q", "build_ext", "--inplace", "--force", "-j3"], cwd=root, env=env,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=600)
    if p.returncode != 0:
        return root, p.stdout[-3000:]
    if key:
        os.makedirs(key, exist_ok=True)
        for f in os.listdir(os.path.join(root, "switss/utils")):
            if f.endswith(".so"):
                shutil.copy(os.path.join(root, "switss/utils", f), key)
    return root, None


class Workers:
    def __init__(self, pid, root, scratch, seed, budget, sizes, k, tag):
        self.pid, self.budget, self.ps = pid, budget, []
        env = dict(os.environ, PYTHONPATH=root, PYTHONDONTWRITEBYTECODE="1", HOME=scratch, TMPDIR=scratch,
                   OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", PYTHONHASHSEED=str(seed))
        for i in range(k):
            out, cur = (os.path.join(scratch, "%s_%d.%s" % (tag, i, x)) for x in ("out", "cur"))
            p = subprocess.Popen([PY, "-W", "ignore", os.path.join(HERE, "dyn/run.py"), pid, "--seed", "%d%02d%s" % (seed, i, {"a": 1, "b": 2}[tag]),
                                  "--budget", str(budget), "--out", out, "--cur", cur, "--sizes", ",".join(map(str, sizes))],
                                 env=env, cwd=scratch, stdout=subprocess.DEVNULL, stderr=open(os.path.join(scratch, "%s_%d.err" % (tag, i)), "w"),
                                 start_new_session=True)
            self.ps.append((p, out, cur, os.path.join(scratch, "%s_%d.err" % (tag, i))))
        self.t0 = time.time()

    def collect(self):
        res, viol, errors = [], None, []
        for p, out, cur, err in self.ps:
            left = self.t0 + self.budget + 120 - time.time()
            hung = False
            try:
                p.wait(timeout=max(1, left))
            except subprocess.TimeoutExpired:
                hung = True
                try:
                    os.killpg(p.pid, signal.SIGKILL)
                except OSError:
                    pass
                p.wait()
            if os.path.exists(out):
                r = json.load(open(out))
                res.append(r)
                if r["violation"] and viol is None:
                    viol = r["violation"]
            elif hung or p.returncode < 0:
                case = json.load(open(cur)) if os.path.exists(cur) else None
                if p.returncode == -signal.SIGKILL and not hung:
                    errors.append("worker was killed (memory?)")
                elif case is not None and viol is None:
                    viol = dict(case=case, message="the code %s on this input" % ("does not terminate" if hung else "crashes the interpreter (signal %d)" % -p.returncode))
            else:
                errors.append(open(err).read()[-1500:])
        return res, viol, errors


def replay(pid, root, scratch, path):
    env = dict(os.environ, PYTHONPATH=root, PYTHONDONTWRITEBYTECODE="1", HOME=scratch, TMPDIR=scratch)
    return subprocess.run([PY, "-W", "ignore", os.path.join(HERE, "dyn/run.py"), pid, "--replay", os.path.abspath(path)], env=env, cwd=scratch).returncode


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--replay")
    ap.add_argument("--budget", type=float)
    ap.add_argument("--no-dyn", action="store_true")
    a = ap.parse_args()
    pid, t0 = a.prop, time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    tier = os.environ.get("VERIF_TIER", "quick")
    tier = tier if tier in ("quick", "thorough") else "quick"
    scratch = tempfile.mkdtemp(prefix="switss_verif_")
    try:
        sys.exit(run(a, pid, t0, seed, tier, scratch))
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def run(a, pid, t0, seed, tier, scratch):
    root, err = build(scratch)
    if err:
        print("the tree does not build:\n" + err)
        return 2
    if a.replay:
        case = json.load(open(a.replay))
        if "case" not in case:
            print("no concrete input recorded: %s" % json.dumps(case, indent=1)[:4000])
            return 1
        return replay(pid, root, scratch, a.replay)
    budget = a.budget or (18 if tier == "quick" else 240)
    sizes = mined_sizes()
    vcout = os.path.join(scratch, "vc.json")
    vc = subprocess.Popen([VT, "-W", "ignore", os.path.join(HERE, "pyvc/main.py"), pid, "--repo", REPO, "--out", vcout, "--tier", tier],
                          stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, start_new_session=True)
    res, viol, errors = [], None, []
    if not a.no_dyn:
        w = Workers(pid, root, scratch, seed, budget, sizes, NPROC, "a")
        res, viol, errors = w.collect()
    try:
        log, _ = vc.communicate(timeout=480 if tier == "quick" else 2400)
    except subprocess.TimeoutExpired:
        os.killpg(vc.pid, signal.SIGKILL)
        log, _ = vc.communicate()
    V = json.load(open(vcout)) if os.path.exists(vcout) else None
    if V is None:
        V = dict(obligations=[], functions=[], trusted=[], error="the verifier did not finish: " + (log or "")[-2000:])
        print(V["error"])
    failed = [o for o in V["obligations"] if o["status"].startswith("failed")]
    if failed and viol is None and not a.no_dyn:
        res2, viol, e2 = Workers(pid, root, scratch, seed + 1, 3 * budget, sizes, NPROC, "b").collect()
        res += res2
        errors += e2
    known = []
    kf = os.path.join(HERE, "known_findings.jsonl")
    status = 0
    ev = sum(r["n"] for r in res)
    nt = sum(r["nontrivial"] for r in res)
    rdir = os.path.join(HERE, "evidence", "replay")
    os.makedirs(rdir, exist_ok=True)
    line = None
    if viol is not None:
        path = os.path.join(rdir, pid + ".json")
        json.dump(dict(property=pid, message=viol["message"], case=viol["case"], failed_obligations=[o["name"] for o in failed]), open(path, "w"), indent=1)
        print("%s: %s" % (pid, viol["message"]))
        for o in failed[:20]:
            print("failed obligation: %s" % o["name"])
        line = "VIOLATION property=%s replay=%s" % (pid, path)
        status = 1
    elif failed:
        path = os.path.join(rdir, pid + ".json")
        json.dump(dict(property=pid, failed_obligations=failed), open(path, "w"), indent=1)
        for o in failed[:20]:
            print("failed obligation: %s (%s)" % (o["name"], o["status"]))
        line = "VIOLATION property=%s replay=%s no-failing-input-found" % (pid, path)
        status = 1
    elif errors and not res:
        print("the runtime contracts could not run:\n" + errors[0])
        return 2
    obl = V["obligations"]
    backends = {}
    for o in obl:
        b = backends.setdefault(o.get("backend", "?"), [0, 0.0])
        b[0] += 1
        b[1] += o.get("time", 0)
    level = "proof" if obl else "exploration"
    cov = dict(evaluations=ev, distinct_nontrivial=nt, rule=res[0]["rule"] if res else "",
               samples=[s for r in res for s in r["samples"]][:3])
    if obl:
        cov.update(obligations=len(obl), discharged=sum(o["status"] == "proved" for o in obl),
                   checker_cmd="python3-vt /verif/pyvc/main.py %s --repo /repo --out /tmp/vc.json" % pid,
                   trusted_base=V["trusted"],
                   functions_under_contract=[f for f in V["functions"] if f["status"] == "verified"],
                   functions_bounded_only=[f for f in V["functions"] if f["status"] != "verified"],
                   backends={k: dict(obligations=v[0], seconds=round(v[1], 2)) for k, v in backends.items()},
                   slowest=[dict(name=o["name"], seconds=o["time"]) for o in sorted(obl, key=lambda o: -o.get("time", 0))[:3]],
                   lemmas=V.get("lemmas", []))
    if V.get("error"):
        cov["verifier_error"] = V["error"]
    evd = dict(property=pid, tier=tier, seed=seed, level=level, coverage=cov,
               assumptions=V.get("assumptions", []) + ["the runtime contracts explore generated inputs only (bounded); they never discharge an obligation"],
               wall_s=round(time.time() - t0, 2), violations=1 if status else 0)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    json.dump(evd, open(os.path.join(HERE, "evidence", pid + ".json"), "w"), indent=1)
    print("%s: %d/%d obligations discharged, %d functions under contract, %d bounded only; %d runtime cases (%d non-trivial); %.1f s" %
          (pid, sum(o["status"] == "proved" for o in obl), len(obl), sum(f["status"] == "verified" for f in V["functions"]),
           sum(f["status"] != "verified" for f in V["functions"]), ev, nt, time.time() - t0))
    for f in V["functions"]:
        if f["status"] != "verified":
            print("  bounded stand-in: %s (%s)" % (f["name"], f.get("reason", "")))
    if os.path.exists(kf):
        for l in open(kf):
            d = json.loads(l)
            if d["kind"] == "known" and d["property"] == pid:
                print("KNOWN-FINDING: property=%s %s" % (pid, d["what"]))
    if line:
        print(line)
    return status


if __name__ == "__main__":
    main()
