"""Worker: runs the runtime contracts of one property on a built copy of the current tree.
usage: run.py PROP --seed S --budget SEC --out FILE --cur FILE --sizes a,b,c   |   run.py PROP --replay FILE"""
import argparse, json, os, random, signal, sys, time, traceback, warnings
warnings.filterwarnings("ignore")
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
_so = sys.stdout
sys.stdout = open(os.devnull, "w")
import numpy as np
np.seterr(all="ignore")
import props, props2
import switss.model, switss.problem, switss.certification
sys.stdout = _so


class Cx:
    pass


class Hang(Exception):
    pass


def one(pid, case):
    """None or message"""
    P = props.REG[pid]

    def onalarm(*a):
        raise Hang("no answer within 60 s")
    signal.signal(signal.SIGALRM, onalarm)
    signal.alarm(60)
    try:
        return P.check(case)
    except Hang as e:
        return str(e)
    except MemoryError:
        return None
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        inrepo = [f for f in tb if "/switss/" in f.filename]
        where = inrepo[-1] if inrepo else tb[-1]
        if not inrepo and not isinstance(e, (KeyError, ValueError, TypeError, IndexError, AttributeError)):
            raise
        return "%s: %s (at %s:%s in %s)" % (type(e).__name__, e, os.path.basename(where.filename), where.lineno, where.name)
    finally:
        signal.alarm(0)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--budget", type=float, default=10)
    ap.add_argument("--out")
    ap.add_argument("--cur")
    ap.add_argument("--sizes", default="")
    ap.add_argument("--replay")
    ap.add_argument("--max", type=int, default=10 ** 9)
    a = ap.parse_args()
    P = props.REG[a.prop]
    if a.replay:
        case = json.load(open(a.replay))
        case = case.get("case", case)
        msg = one(a.prop, case)
        print("REPLAY %s: %s" % (a.prop, msg or "holds"))
        sys.exit(1 if msg else 0)
    cx = Cx()
    cx.sizes = [int(x) for x in a.sizes.split(",") if x]
    t0 = time.time()
    n = 0
    seen, nontriv, samples = set(), set(), []
    viol = None
    while time.time() - t0 < a.budget and n < a.max:
        rng = random.Random("%s/%s/%s" % (a.prop, a.seed, n))
        case = P.gen(rng, cx)
        s = json.dumps(case, sort_keys=True)
        case = json.loads(s)
        if a.cur:
            with open(a.cur, "w") as f:
                f.write(s)
        msg = one(a.prop, case)
        n += 1
        h = hash(s)
        seen.add(h)
        if P.nontrivial(case):
            nontriv.add(h)
            if len(samples) < 1 and len(s) < 1500:
                samples.append(case)
        if msg:
            viol = dict(case=case, message=msg)
            break
    res = dict(n=n, distinct=len(seen), nontrivial=len(nontriv), samples=samples, violation=viol, rule=P.rule, wall=time.time() - t0)
    with open(a.out, "w") as f:
        json.dump(res, f)


main()
