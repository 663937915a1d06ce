"""Random models, builders for the real classes, and independent oracles (no code of /repo is used in an oracle).

A model is a JSON-able dict:
  kind   "dtmc" | "mdp"
  n      number of states
  rows   list of [state, action, [[dest, prob], ...]] in the order of the matrix rows
  ls     {label: [states]}          la  {label: [[s, a], ...]}
  rew    list of rewards per row or None
  fmt    how the matrix is handed over
  z      extra explicitly stored zeros [[row, col], ...] (sparse formats only)
"""
import itertools, random
import numpy as np

ZPROBS = [0.5, 0.25, 0.1, 0.2, 0.3, 1/3, 0.7, 0.05, 0.125, 0.9, 0.01]


def split_prob(rng, k, nice=None):
    """k positive probabilities that sum to one (up to float rounding)"""
    if k == 1:
        return [1.0]
    mode = rng.randrange(5)
    if mode == 0:
        return [1.0 / k] * k
    if mode == 1:
        w = [rng.randint(1, 10) for _ in range(k)]
        s = sum(w)
        return [x / s for x in w]
    if mode == 2:
        w = [rng.random() + 0.05 for _ in range(k)]
        s = sum(w)
        return [x / s for x in w]
    if mode == 3:
        cuts = sorted(rng.sample(range(1, 20), k - 1)) if k <= 10 else sorted(rng.sample(range(1, 20 * k), k - 1))
        top = 20 if k <= 10 else 20 * k
        c = [0] + cuts + [top]
        return [(c[i + 1] - c[i]) / top for i in range(k)]
    first = rng.choice([0.5, 0.9, 0.1, 0.75, 0.05])
    rest = split_prob(rng, k - 1) if k > 2 else [1.0]
    return [first] + [(1 - first) * x for x in rest]


def shrink_some(rng, rows):
    """give some successors of some rows a very small probability (10^-4 .. 10^-8)"""
    for r in rows:
        if len(r[2]) > 1 and rng.random() < 0.4:
            q = 10.0 ** -rng.uniform(4, 8)
            j = rng.randrange(len(r[2]))
            oth = 1.0 - r[2][j][1]
            if oth > 1e-6:
                r[2] = [[d, q if k == j else p * (1 - q) / oth] for k, (d, p) in enumerate(r[2])]
    return rows


def gen_model(rng, kind=None, nmax=7, nmin=1, sizes=None, labels=True, fmt=None, rew=None, p_self=0.25, maxact=3, hard=True, tiny=False):
    kind = kind or rng.choice(["dtmc", "mdp", "mdp"])
    n = rng.randint(nmin, nmax)
    if sizes and rng.random() < 0.15:
        n = max(nmin, rng.choice(sizes))
    shape = rng.randrange(6)
    rows = []
    det = rng.random() < 0.25
    for s in range(n):
        na = 1 if kind == "dtmc" else rng.choice([1, 1, 2, 2, 3][:maxact + 2])
        if kind == "dtmc":
            acts = [0]
        else:
            r = rng.random()
            acts = list(range(na)) if r < 0.6 else (rng.sample(range(0, 6), na) if r < 0.95 else rng.sample(range(0, 1000), na))
        for a in acts:
            if rng.random() < p_self * 0.5:
                dests = [s]
            else:
                k = 1 if det else min(n, rng.choice([1, 1, 2, 2, 3, 4]))
                if shape == 0:       # local
                    cand = [d for d in range(max(0, s - 2), min(n, s + 3))]
                elif shape == 1:     # forward with some back edges
                    cand = [d for d in range(s, n)] if rng.random() < 0.8 else list(range(n))
                elif shape == 2:     # clusters
                    c = s // 3
                    cand = [d for d in range(n) if d // 3 == c] if rng.random() < 0.75 else list(range(n))
                elif shape == 3:     # chain
                    cand = list({min(s + 1, n - 1), s}) if rng.random() < 0.7 else list(range(n))
                else:
                    cand = list(range(n))
                k = min(k, len(cand))
                dests = rng.sample(cand, k)
            ps = split_prob(rng, len(dests))
            if sum(ps) > 1.0000000004 or abs(sum(ps) - 1) > 1e-12:
                ps = [1.0 / len(dests)] * len(dests)
            rows.append([s, a, [[d, p] for d, p in zip(dests, ps)]])
    if kind == "mdp" or rng.random() < 0.2:
        if rng.random() < 0.5:
            rng.shuffle(rows)
    if tiny and rng.random() < 0.25:
        shrink_some(rng, rows)
    m = dict(kind=kind, n=n, rows=rows, ls={}, la={}, rew=None, z=[],
             fmt=fmt or rng.choice(["list", "array", "dok", "csr", "csc", "coo", "matrix"]))
    if rng.random() < 0.5:
        m["ord"] = rng.randrange(1 << 20)
    if labels:
        for l in ["a", "b", "lab c", "x1"][:rng.randint(0, 4)]:
            m["ls"][l] = sorted(rng.sample(range(n), rng.randint(0, n)))
        if kind == "mdp":
            sas = [[r[0], r[1]] for r in rows]
            for l in ["A", "B"][:rng.randint(0, 2)]:
                m["la"][l] = rng.sample(sas, rng.randint(0, len(sas)))
    if rew or (rew is None and rng.random() < 0.15):
        m["rew"] = [rng.choice([0, 1, 2, 0.5, 3.25]) for _ in rows]
    if hard and m["fmt"] in ("csr", "csc", "coo", "dok") and rng.random() < 0.4:
        zs = set()
        for _ in range(rng.randint(1, 3)):
            i, j = rng.randrange(len(rows)), rng.randrange(n)
            if all(d != j for d, _ in rows[i][2]):
                zs.add((i, j))
        m["z"] = sorted([list(z) for z in zs])
    return m


def reach_model(rng, **kw):
    """model with labels init and target such that a target is reachable from init"""
    for _ in range(60):
        m = gen_model(rng, **{**kw, "nmin": max(1, kw.get("nmin", 2))})
        n = m["n"]
        init = rng.randrange(n)
        reach = sorted(forward(m, {init}))
        others = [s for s in reach if s != init]
        if not others:
            if rng.random() < 0.9:
                continue
            tgt = {init}
        else:
            tgt = set(rng.sample(others, 1 if rng.random() < 0.6 else rng.randint(1, len(others))))
            if rng.random() < 0.2:
                tgt |= set(rng.sample(range(n), rng.randint(1, n)))
                if rng.random() < 0.9:
                    tgt -= {init}
        if not tgt:
            continue
        m["ls"]["init"] = [init]
        m["ls"]["target"] = sorted(tgt)
        return m
    m = dict(kind="dtmc", n=2, rows=[[0, 0, [[1, 1.0]]], [1, 0, [[1, 1.0]]]], ls={"init": [0], "target": [1]}, la={}, rew=None, z=[], fmt="array")
    return m


def dense(m):
    P = np.zeros((len(m["rows"]), m["n"]))
    for i, (s, a, ds) in enumerate(m["rows"]):
        for d, p in ds:
            P[i, d] += p
    return P


def matrix(m):
    import scipy.sparse as sp
    P = dense(m)
    f = m["fmt"]
    if f == "list":
        return P.tolist()
    if f == "array":
        return P
    if f == "matrix":
        return np.matrix(P)
    r, c = np.nonzero(P)
    v = P[r, c]
    if m["z"]:
        r = np.concatenate([r, [z[0] for z in m["z"]]]).astype(int)
        c = np.concatenate([c, [z[1] for z in m["z"]]]).astype(int)
        v = np.concatenate([v, [0.0] * len(m["z"])])
    if m.get("ord") is not None:
        o = random.Random(m["ord"]).sample(range(len(r)), len(r))
        r, c, v = r[o], c[o], v[o]
        if f == "dok":
            D = sp.dok_matrix(P.shape)
            for i, j, x in zip(r, c, v):
                if x != 0:
                    D[i, j] = x
            return D
    coo = sp.coo_matrix((v, (r, c)), shape=P.shape)
    return {"coo": lambda: coo, "csr": lambda: coo.tocsr(), "csc": lambda: coo.tocsc(), "dok": lambda: sp.dok_matrix(coo)}[f]()


def build(m, **kw):
    from switss.model import DTMC, MDP
    P = matrix(m)
    ls = {l: set(v) for l, v in m["ls"].items()}
    isa = {(r[0], r[1]): i for i, r in enumerate(m["rows"])}
    rew = None if m["rew"] is None else np.array(m["rew"], dtype=float)
    if m["kind"] == "dtmc":
        ident = all(r[0] == i and r[1] == 0 for i, r in enumerate(m["rows"]))
        return DTMC(P, label_to_states=ls, index_by_state_action=None if ident else isa, reward_vector=rew, **kw)
    la = {l: {tuple(x) for x in v} for l, v in m["la"].items()}
    return MDP(P, isa, la, ls, reward_vector=rew, **kw)


# ---------------------------------------------------------------- oracles
def edges(m):
    return {(r[0], r[1], d): p for r in m["rows"] for d, p in r[2] if p != 0}


def forward(m, start, block=frozenset(), back=False):
    succ = {s: set() for s in range(m["n"])}
    for (s, a, d) in edges(m):
        (succ[d].add(s) if back else succ[s].add(d))
    seen, todo = set(start), list(start)
    while todo:
        s = todo.pop()
        if s in block:
            continue
        for d in succ[s]:
            if d not in seen:
                seen.add(d)
                todo.append(d)
    return seen


def scc_oracle(n, E, keep):
    """reachability-closure based SCCs of the graph restricted to keep; list of frozensets"""
    keep = sorted(keep)
    idx = {s: i for i, s in enumerate(keep)}
    k = len(keep)
    R = np.eye(k, dtype=bool)
    for s, d in E:
        if s in idx and d in idx:
            R[idx[s], idx[d]] = True
    for _ in range(max(1, k.bit_length())):
        R = (R.astype(np.int32) @ R.astype(np.int32)) > 0
    out, seen = [], set()
    for i in range(k):
        if i in seen:
            continue
        c = [j for j in range(k) if R[i, j] and R[j, i]]
        seen.update(c)
        out.append(frozenset(keep[j] for j in c))
    return out


def mec_oracle(m):
    """list of (frozenset states, proper) by removing leaving actions until stable, every state in exactly one class"""
    n = m["n"]
    acts = {}
    for (s, a, ds) in m["rows"]:
        acts.setdefault(s, []).append((a, {d for d, p in ds if p != 0}))
    todo = [frozenset(range(n))]
    res = []
    while todo:
        T = todo.pop()
        E = {(s, d) for s in T for a, ds in acts.get(s, []) if ds <= T for d in ds}
        comps = scc_oracle(n, E, T)
        if len(comps) == 1:
            s0 = next(iter(T))
            proper = len(T) > 1 or any(ds == {s0} for a, ds in acts.get(s0, []))
            res.append((T, proper))
        else:
            todo.extend(comps)
    return res


def pr_opt(n, rows, target, mode, iters=None, rew=None):
    """min/max probability of reaching `target` (set) for rows [[s,a,[[d,p]..]]..]; missing mass is lost.
    exact policy evaluation after a qualitative precomputation: value iteration to 1e-13 plus policy solve"""
    acts = {s: [] for s in range(n)}
    for (s, a, ds) in rows:
        acts[s].append([(d, p) for d, p in ds if p != 0])
    tgt = set(target)
    if mode == "max":
        can = set(tgt)
        ch = True
        while ch:
            ch = False
            for s in range(n):
                if s not in can and any(any(d in can for d, p in ac) for ac in acts[s]):
                    can.add(s)
                    ch = True
        zero = set(range(n)) - can
    else:
        # greatest set avoiding target: states that have an action (or mass loss) keeping them away
        pos = set(tgt)
        ch = True
        while ch:
            ch = False
            for s in range(n):
                if s not in pos and acts[s] and all(any(d in pos for d, p in ac) for ac in acts[s]):
                    pos.add(s)
                    ch = True
        zero = set(range(n)) - pos
    rest = [s for s in range(n) if s not in tgt and s not in zero]
    x = np.zeros(n)
    for t in tgt:
        x[t] = 1.0
    if not rest:
        return x
    pick = max if mode == "max" else min
    # policy iteration on the remaining states
    if mode == "max":
        # start from a proper policy: layers towards target
        dist, layer = {t: 0 for t in tgt}, set(tgt)
        pol = {}
        ch = True
        while ch:
            ch = False
            new = []
            for s in rest:
                if s in pol:
                    continue
                for i, ac in enumerate(acts[s]):
                    if any(d in layer for d, p in ac):
                        pol[s] = i
                        new.append(s)
                        break
            if new:
                layer |= set(new)
                ch = True
    else:
        pol = {s: 0 for s in rest}
    idx = {s: i for i, s in enumerate(rest)}
    for _ in range(500):
        A = np.eye(len(rest))
        b = np.zeros(len(rest))
        for s in rest:
            for d, p in acts[s][pol[s]]:
                if d in idx:
                    A[idx[s], idx[d]] -= p
                elif d in tgt:
                    b[idx[s]] += p
        v = np.linalg.lstsq(A, b, rcond=None)[0]
        for s in rest:
            x[s] = v[idx[s]]
        changed = False
        for s in rest:
            vals = [sum(p * x[d] for d, p in ac) for ac in acts[s]]
            best = pick(vals)
            if (best > vals[pol[s]] + 1e-11) if mode == "max" else (best < vals[pol[s]] - 1e-11):
                pol[s] = vals.index(best)
                changed = True
        if not changed:
            break
    return x


def rew_opt(n, rows, rew, target, mode):
    """min/max expected reward until target, assuming target is reached almost surely under every choice"""
    acts = {s: [] for s in range(n)}
    for i, (s, a, ds) in enumerate(rows):
        acts[s].append((rew[i], ds))
    rest = [s for s in range(n) if s not in target]
    idx = {s: i for i, s in enumerate(rest)}
    pol = {s: 0 for s in rest}
    x = np.zeros(n)
    for _ in range(500):
        A, b = np.eye(len(rest)), np.zeros(len(rest))
        for s in rest:
            r, ds = acts[s][pol[s]]
            b[idx[s]] = r
            for d, p in ds:
                if d in idx:
                    A[idx[s], idx[d]] -= p
        v = np.linalg.solve(A, b) if rest else b
        for s in rest:
            x[s] = v[idx[s]]
        ch = False
        for s in rest:
            vals = [r + sum(p * x[d] for d, p in ds) for r, ds in acts[s]]
            best = max(vals) if mode == "max" else min(vals)
            if abs(best - vals[pol[s]]) > 1e-10:
                pol[s] = vals.index(best)
                ch = True
        if not ch:
            break
    return x


def rf_rows(rf):
    """read a reachability form back as rows over N states (including target, fail), using only its public matrix"""
    sysm = rf.system
    inv = sysm.index_by_state_action.inv
    P = sysm.P.toarray()
    rows = []
    for i in range(P.shape[0]):
        s, a = inv[i]
        rows.append([int(s), int(a), [[int(j), float(P[i, j])] for j in np.nonzero(P[i])[0]]])
    return rows, P.shape[1]


def reduce_oracle(m):
    """kept states of the reduction and the row data of the reachability form (as dict on original states)"""
    init = m["ls"]["init"][0]
    tg = set(m["ls"]["target"])
    fw = forward(m, {init}, block=tg)
    bw = forward(m, tg, back=True)
    return fw & bw


def rf_model(rng, **kw):
    """a model together with the reachability form it reduces to (real code); retries until init reaches target"""
    m = reach_model(rng, **kw)
    return m


def sub_rows(rows, n, keep):
    """restriction of reachability form rows to `keep` (target n-2 and fail n-1 always kept); lost mass to fail"""
    T, F = n - 2, n - 1
    out = []
    for s, a, ds in rows:
        if s in (T, F):
            out.append([s, a, ds])
        elif s in keep:
            nd, lost = [], 0.0
            for d, p in ds:
                if d in keep or d == T:
                    nd.append([d, p])
                else:
                    lost += p
            if lost > 0:
                nd.append([F, lost])
            out.append([s, a, nd])
        else:
            out.append([s, a, [[F, 1.0]]])
    return out
