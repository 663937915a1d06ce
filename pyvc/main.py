"""pyvc driver: python3-vt main.py PROP --repo /repo --out out.json [--tier quick|thorough] [--unit name] [-v]"""
import argparse, importlib, json, multiprocessing as mp, os, sys, time, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)


class Unit:
    """one verification unit: run(E) sets up arbitrary inputs, calls the real function and states obligations"""

    def __init__(self, name, functions, run, contracts=None, externals=None, setup=None, budget=20, assumptions=(), lemmas=()):
        self.name, self.functions, self.run = name, [functions] if isinstance(functions, str) else list(functions), run
        self.contracts, self.externals, self.setup, self.budget = contracts or {}, externals or {}, setup, budget
        self.assumptions, self.lemmas = list(assumptions), list(lemmas)


def units(prop):
    m = importlib.import_module("specs." + prop.lower())
    return m.UNITS


def explore_unit(args):
    prop, uname, repo, verbose = args
    import z3
    from values import Unsupported, SymRaise, decls_in, conj, BoolVal, str_axioms, is_true, simplify
    import values, vc
    from engine import Engine, EndPath
    from lib import Lib
    u = [x for x in units(prop) if x.name == uname][0]
    t0 = time.time()
    res = dict(unit=uname, functions=u.functions, tasks=[], canaries=[], status="ok", reason="", trusted=[], contracts=sorted(u.contracts), inlined=[])
    E = None
    try:
        E = Engine(repo, lib=Lib, contracts=u.contracts)
        E.lib.externals.update(u.externals)
        if u.setup:
            u.setup(E)
        count = [0]

        def one():
            try:
                u.run(E)
            except EndPath:
                pass
            count[0] += 1
            out = []
            seen = {}
            strax = str_axioms()
            last = None
            for name, hyps, goal in E.obls:
                if is_true(simplify(goal)):
                    out.append((name, None, False, False))
                    continue
                base = hyps + strax
                ax = vc.measure_axioms(E, base + [goal])
                full = base + ax
                smts = [vc.dump(full, goal)]
                f = vc.filter_hyps(base, goal, 2)
                f = f + vc.measure_axioms(E, f + [goal])
                if len(f) < len(full) and decls_in(goal):
                    smts.append(vc.dump(f, goal))
                inst = vc.instances(base, goal)
                if inst:
                    smts.insert(1, vc.dump(full + inst, goal))
                names = decls_in(goal)
                lit = set()
                for k, h in E.pc:
                    ns = decls_in(h)
                    if k == "L" or ns & names:
                        lit |= ns
                tainted = any(n in E.tainted for n in names)
                taint2 = any(n in E.tainted for n in lit)
                out.append((name, smts, tainted, taint2))
                last = full
            hy = E.hyps() + strax
            can = vc.dump(hy + vc.measure_axioms(E, hy), BoolVal(False))
            return out, can
        for i, (obls, can) in enumerate(E.explore(one)):
            for name, smts, t1, t2 in obls:
                res["tasks"].append(dict(name="%s: %s" % (uname, name), path=i, smts=smts, tainted=t1, taint2=t2, budget=u.budget))
            if can:
                res["canaries"].append(can)
        if not res["tasks"]:
            res["status"], res["reason"] = "bounded", "no obligation was generated"
    except Unsupported as ex:
        res["status"], res["reason"] = "bounded", str(ex)
        if verbose:
            traceback.print_exc()
    except SymRaise as ex:
        res["status"], res["reason"] = "bounded", "uncaught %s %s" % (ex.exc, ex.info)
        if verbose:
            traceback.print_exc()
    except Exception as ex:
        res["status"], res["reason"] = "bounded", "verifier error: %s: %s" % (type(ex).__name__, str(ex)[:300])
        if verbose:
            traceback.print_exc()
    if E is not None:
        res["trusted"] = sorted(E.lib.trusted)
        res["inlined"] = sorted(E.inlined)
        res["paths"] = E.stats["paths"]
    res["time"] = time.time() - t0
    return res


def run_vc(task):
    """solve in a child that is ended when a solver overruns its time limit"""
    import vc, pickle, select, signal
    if task[0] == "canary":
        lost = ("canary", task[1], "unknown")
        limit = task[3] + 10
    else:
        lost = ("obl", task[1], "unknown", "z3+cvc5", 0.0, None)
        limit = (3.6 * task[3] if task[4] else len(task[2]) * 2 * max(1.0, 0.1 * task[3])) + 10
    t0 = time.time()
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            os.setpgid(0, 0)
            x = ("canary",) + vc.canary(task[1:]) if task[0] == "canary" else ("obl",) + vc.discharge(task[1:])
            with os.fdopen(w, "wb") as f:
                pickle.dump(x, f)
        finally:
            os._exit(0)
    os.close(w)
    data = b""
    while True:
        left = t0 + limit - time.time()
        if left <= 0 or not select.select([r], [], [], left)[0]:
            break
        b = os.read(r, 1 << 16)
        if not b:
            break
        data += b
    os.close(r)
    for k in (lambda: os.killpg(pid, signal.SIGKILL), lambda: os.kill(pid, signal.SIGKILL)):
        try:
            k()
        except OSError:
            pass
    os.waitpid(pid, 0)
    try:
        return pickle.loads(data)
    except Exception:
        return lost if lost[0] == "canary" else lost[:4] + (time.time() - t0, None)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--repo", default="/repo")
    ap.add_argument("--out")
    ap.add_argument("--tier", default="quick")
    ap.add_argument("--unit")
    ap.add_argument("--dump")
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    t0 = time.time()
    out = dict(obligations=[], functions=[], trusted=[], assumptions=[], lemmas=[])
    try:
        us = units(a.prop)
    except ModuleNotFoundError:
        us = []
    if a.unit:
        us = [u for u in us if u.name == a.unit]
    byname = {u.name: u for u in us}
    if us:
        with mp.get_context("fork").Pool(min(8, len(us)), maxtasksperchild=1) as pool:
            rs = pool.map(explore_unit, [(a.prop, u.name, a.repo, a.v) for u in us], chunksize=1)
        tasks, meta = [], {}
        for r in rs:
            if r["status"] != "ok":
                continue
            for j, t in enumerate(r["tasks"]):
                key = "%s#%d#%d" % (r["unit"], t["path"], j)
                meta[key] = (r, t)
                if t["smts"] is not None:
                    tasks.append(("obl", key, t["smts"], t["budget"] * (1 if a.tier == "quick" else 5)))
            for j, c in enumerate(r["canaries"]):
                tasks.append(("canary", "%s#%d" % (r["unit"], j), c, 2.0))
        if a.dump:
            os.makedirs(a.dump, exist_ok=True)
            for t in tasks:
                if t[0] == "obl":
                    for k, s in enumerate(t[2]):
                        open(os.path.join(a.dump, t[1].replace("/", "_").replace(" ", "_") + ".%d.smt2" % k), "w").write(s)
        results, cans = {}, {}
        if tasks:
            limit = t0 + (420 if a.tier == "quick" else 3000)
            obl = [t for t in tasks if t[0] == "obl"]
            with mp.get_context("fork").Pool(8) as pool:
                for x in pool.imap_unordered(run_vc, [t for t in tasks if t[0] != "obl"] + [t + (0,) for t in obl], chunksize=1):
                    if x[0] == "canary":
                        cans[x[1]] = x[2]
                    else:
                        results[x[1]] = x[2:]
                left = [t for t in obl if results[t[1]][0] == "unknown"]
                taint = lambda k: meta[k][1]["tainted"] or meta[k][1]["taint2"]
                fails = sum(1 for k, v in results.items() if v[0] == "refuted" and not taint(k))
                # an obligation of one kind on several paths: one path of each kind first
                seen = {}
                for t in left:
                    n = meta[t[1]][1]["name"]
                    seen[n] = seen.get(n, 0) + 1
                    t_rank = seen[n]
                    meta[t[1]][1]["rank"] = t_rank
                left.sort(key=lambda t: (not taint(t[1]), meta[t[1]][1]["rank"]))
                for t in left:
                    results[t[1]] = ("undecided", "z3+cvc5", 0.0, None)
                it = pool.imap_unordered(run_vc, [t + (1,) for t in left], chunksize=1)
                for _ in left:
                    if fails >= 3 and not any(results[t[1]][0] == "undecided" and taint(t[1]) for t in left):
                        break
                    try:
                        x = it.next(timeout=max(1.0, limit - time.time()))
                    except mp.TimeoutError:
                        out["timeout"] = True
                        break
                    results[x[1]] = x[2:]
                    if x[2] != "proved" and not taint(x[1]):
                        fails += 1
                pool.terminate()
            if out.get("timeout") and not fails:
                for t in left:
                    if results[t[1]][0] == "undecided":
                        results[t[1]] = ("out of time", "z3+cvc5", 0.0, None)
        for r in rs:
            u = byname[r["unit"]]
            st, reason = r["status"], r["reason"]
            if st == "ok":
                cs = [cans.get("%s#%d" % (r["unit"], j)) for j in range(len(r["canaries"]))]
                # (a lemma that fails is assumed afterwards, which may contradict the rest: then its failure is what counts)
                fl = any(rr is r and t["smts"] is not None and results[k][0] not in ("proved", "undecided", "out of time") for k, (rr, t) in meta.items())
                if cs and all(c == "unsat" for c in cs) and not fl:
                    st, reason = "bounded", "contradictory assumptions (vacuous)"
            groups = {}
            if st == "ok":
                for key, (rr, t) in meta.items():
                    if rr is not r:
                        continue
                    if t["smts"] is None:
                        s = ("proved", "simplifier", 0.0, None)
                    else:
                        s = results[key]
                    g = groups.setdefault(t["name"], dict(name=t["name"], status="proved", backend=s[1], time=0.0, paths=0))
                    g["paths"] += 1
                    g["time"] = round(g["time"] + s[2], 3)
                    if s[1] != "simplifier":
                        g["backend"] = s[1]
                    if s[0] != "proved":
                        if s[0] == "undecided":
                            pass
                        elif t["tainted"] or t["taint2"]:
                            st, reason = "bounded", "imprecise loop summary in: " + t["name"]
                        if s[0] == "undecided" and g["status"].startswith("failed"):
                            continue
                        g["status"] = "undecided" if s[0] == "undecided" else "failed (%s)" % s[0]
                        g["path"] = t["path"]
                        if s[3]:
                            g["counterexample"] = s[3]
                if st != "ok" and a.v:
                    for g in groups.values():
                        print("   ", g["status"], g["name"])
            if st == "ok":
                out["obligations"] += list(groups.values())
            for f in u.functions:
                out["functions"].append(dict(name=f, unit=u.name, status="verified" if st == "ok" else "bounded", reason=reason, explore_s=round(r["time"], 2),
                                             paths=r.get("paths"), inlined=[x for x in r["inlined"] if x not in u.functions], assumed_contracts=r["contracts"]))
            if st == "ok":
                for t in r["trusted"]:
                    if t not in out["trusted"]:
                        out["trusted"].append(t)
                for x in u.assumptions:
                    if x not in out["assumptions"]:
                        out["assumptions"].append(x)
                for x in u.lemmas:
                    if x not in out["lemmas"]:
                        out["lemmas"].append(x)
    if out["obligations"]:
        out["trusted"] += ["pyvc (symbolic interpreter and loop summaries)", "z3", "cvc5"]
        out["assumptions"] += ["floating point numbers are exact reals", "Python ints are unbounded", "finite containers enumerate each element exactly once"]
    out["wall_s"] = round(time.time() - t0, 2)
    if a.out:
        json.dump(out, open(a.out, "w"), indent=1)
    if a.v or not a.out:
        for o in out["obligations"]:
            print("%-10s %6.2fs %-12s %s%s" % (o["status"], o["time"], o["backend"], o["name"], (" path %s" % o.get("path")) if o["status"] != "proved" else ""))
        for f in out["functions"]:
            print("%-9s %s [%s] paths=%s %.1fs %s" % (f["status"], f["name"], f["unit"], f["paths"], f["explore_s"], f["reason"]))
        print("%.1f s" % (time.time() - t0))


if __name__ == "__main__":
    # fork start: the specs are imported in the workers
    import main as _m   # so that specs and workers share one Unit class
    _m.main()
