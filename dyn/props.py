"""Runtime form of the contracts: for each property a case generator and a check of the real code against an
independent oracle.  gen(rng, cx) -> JSON-able case;  check(case) -> None or a description of the violation."""
import contextlib, io, itertools, json, math, os, random, sys, tempfile
import numpy as np
import models as M

TOL = 1e-6
REG = {}


def prop(pid):
    def deco(cls):
        REG[pid] = cls
        return cls
    return deco


def raises(f, exc=Exception):
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            f()
    except exc as e:
        return e
    return None


def quiet(f, *a, **k):
    with contextlib.redirect_stdout(io.StringIO()):
        return f(*a, **k)


def key(x):
    return tuple(x) if isinstance(x, list) else x


# ------------------------------------------------------------------------------------------------ C01
@prop("C01")
class C01:
    rule = "random initial dictionaries over small key/value pools and random interleavings of add/remove/lookup/invert; non-trivial = at least one mutation after an inversion"

    def gen(rng, cx):
        ks = ["k%d" % i for i in range(4)] + [[0, 1], [2, 2], 7]
        vs = [0, 1, 2, 3, "v", [1, 0]]
        if rng.random() < 0.2:
            ks, vs = list(range(4)), list(range(4))
        d = [[k, rng.sample(vs, rng.randint(0, 3))] for k in rng.sample(ks, rng.randint(0, 4))]
        ops = []
        for _ in range(rng.randint(1, 14)):
            o = rng.choice(["add", "add", "add", "rem", "rem", "get", "inv", "chk", "invinv", "items"])
            ops.append([o, rng.random() < 0.5, rng.choice(ks), rng.choice(vs)])
        return dict(d=d, default=rng.random() < 0.5, ops=ops)

    def nontrivial(c):
        seen = False
        for o in c["ops"]:
            seen |= o[0] in ("inv", "chk", "invinv") or o[1]
            if seen and o[0] in ("add", "rem"):
                return True
        return False

    def check(c):
        from switss.utils import InvertibleDict
        init = {key(k): {key(v) for v in vs} for k, vs in c["d"]}
        snapshot = {k: set(v) for k, v in init.items()}
        f = InvertibleDict(init, is_default=c["default"])
        rel = {(k, v) for k, vs in init.items() for v in vs}
        everK = {k for k in init} | set()
        everV = {v for _, v in rel}
        ks = set(everK) | {key(o[2]) for o in c["ops"]}
        vs = set(everV) | {key(o[3]) for o in c["ops"]}

        def cmp(f, what):
            inv = f.inv
            for (mp, dom, rng_, sw, ever) in [(f, ks, vs, False, everK), (inv, vs, ks, True, everV)]:
                for k in dom:
                    want = {(p[0] if sw else p[1]) for p in rel if (p[1] if sw else p[0]) == k}
                    if k in ever or c["default"]:
                        try:
                            got = mp[k]
                        except KeyError:
                            if want or (c["default"]):
                                return "%s: lookup of %r raised KeyError, want %r" % (what, k, want)
                            continue
                        if set(got) != want:
                            return "%s: %s[%r] = %r, want %r" % (what, "inverse" if sw else "map", k, got, want)
                    else:
                        e = raises(lambda: mp[k])
                        if not isinstance(e, KeyError):
                            return "%s: lookup of never entered key %r gave %r instead of KeyError" % (what, k, e)
                it = {(k, v) for k, x in mp.items() for v in x}
                want = {(b, a) for a, b in rel} if sw else rel
                if it != want:
                    return "%s: items of %s are %r, want %r" % (what, "inverse" if sw else "map", it, want)
                for k, x in mp.items():
                    if x and k not in mp:
                        return "%s: key %r not contained" % (what, k)
                if set(mp.keys()) != {k for k, _ in mp.items()}:
                    return what + ": keys() differ from items()"
            return None
        for i, (o, oninv, k, v) in enumerate(c["ops"]):
            k, v = key(k), key(v)
            what = "after op %d (%s%s %r %r)" % (i, "inv." if oninv else "", o, k, v)
            tgt = f.inv if oninv else f
            a, b = (v, k) if oninv else (k, v)
            if o == "add":
                tgt.add(a, b)
                rel.add((k, v))
                everK.add(k)
                everV.add(v)
            elif o == "rem":
                if (k, v) in rel:
                    tgt.remove(a, b)
                    rel.discard((k, v))
                else:
                    e = raises(lambda: tgt.remove(a, b))
                    if e is None:
                        return what + ": removing an absent pair was accepted"
            elif o == "get":
                if c["default"] or a in (everV if oninv else everK):
                    raises(lambda: tgt[a])
            elif o == "inv":
                tgt.inv
            elif o == "invinv":
                if tgt.inv.inv is not tgt:
                    return what + ": inverting twice gives another object"
            elif o == "items":
                list(tgt.items())
            elif o == "chk":
                r = cmp(f, what)
                if r:
                    return r
            if tgt.inv.is_default != c["default"] and o == "inv":
                return what + ": inverse has another default mode"
        return cmp(f, "at the end")


# ------------------------------------------------------------------------------------------------ C02
@prop("C02")
class C02:
    rule = "random models in 7 matrix formats, half of them with exactly one defect (row sum, range, reward, shape, action); non-trivial = has a defect or labels/rewards"

    def gen(rng, cx):
        m = M.gen_model(rng, nmax=7, sizes=cx.sizes)
        m["bad"] = None
        r = rng.random()
        if r < 0.1:   # harmless perturbation below the tolerance
            i = rng.randrange(len(m["rows"]))
            ds = m["rows"][i][2]
            j = max(range(len(ds)), key=lambda j: ds[j][1])
            ds[j][1] -= rng.choice([1e-12, 1e-10, 3e-10])
        elif r < 0.6:
            kinds = ["sum+", "sum-", "neg", "big", "rew", "sumhalf", "zero"]
            if m["kind"] == "dtmc":
                kinds += ["shape", "action"]
            b = rng.choice(kinds)
            i = rng.choice([0, len(m["rows"]) - 1, rng.randrange(len(m["rows"]))])
            ds = m["rows"][i][2]
            if b == "sum+":
                j = min(range(len(ds)), key=lambda j: ds[j][1])
                if ds[j][1] > 0.9:
                    b = "sum-"
                else:
                    ds[j][1] += rng.choice([1e-8, 1e-6, 0.05, 2e-9])
            if b == "sum-":
                j = max(range(len(ds)), key=lambda j: ds[j][1])
                ds[j][1] -= rng.choice([1e-8, 1e-6, 0.05, 0.5 * ds[j][1], 2e-9])
            if b == "sumhalf":
                for d in ds:
                    d[1] *= rng.choice([0.5, 0.999])
            if b == "zero":
                m["rows"][i][2] = []
            if b == "neg":
                if m["n"] < 2:
                    ds[0][1] = -ds[0][1]
                else:
                    x = rng.choice([0.1, 1e-3, 1e-12, 0.5])
                    have = {d for d, p in ds}
                    free = [d for d in range(m["n"]) if d not in have]
                    if free:
                        ds[0][1] += x / 2
                        if len(ds) > 1:
                            ds[1][1] += x / 2
                        else:
                            ds[0][1] += x / 2
                        ds.append([rng.choice(free), -x])
                    else:
                        j, k = rng.sample(range(len(ds)), 2)
                        y = ds[j][1] + x
                        ds[j][1] = -x
                        ds[k][1] += y
            if b == "big":
                if m["n"] < 2:
                    ds[0][1] = 2.0
                else:
                    j, k = rng.sample(range(m["n"]), 2)
                    x = rng.choice([0.1, 1.0, 0.01])
                    m["rows"][i][2] = [[j, 1 + x], [k, -x]]
            if b == "rew":
                m["rew"] = [rng.choice([0, 1, 2.5]) for _ in m["rows"]]
                m["rew"][i] = rng.choice([-1, -0.5, -1e-9, -1e-3])
            if b == "action":
                m["rows"][i][1] = rng.choice([1, 2, -1])
            m["bad"] = b
        return m

    def nontrivial(c):
        return bool(c["bad"] or c["ls"] or c["rew"])

    def check(c):
        from switss.model import DTMC, MDP
        if c["bad"] == "shape":
            P = M.dense(c)
            x = np.vstack([P, P[-1:]])
            y = P[:-1] if len(P) > 1 else np.hstack([P * 0.5, P * 0.5])
            for Q in (x, y):
                e = raises(lambda: DTMC(Q, label_to_states={}))
                if not isinstance(e, AssertionError):
                    return "non-square matrix of shape %s: %r instead of AssertionError" % (Q.shape, e)
            return None
        sums = [sum(p for d, p in r[2]) for r in c["rows"]]
        ok_sum = all(abs(s - 1) < 4.9e-10 for s in sums)
        bad_sum = any(abs(s - 1) > 5.1e-10 for s in sums)
        ok_rng = all(0 <= p <= 1 for r in c["rows"] for d, p in r[2])
        ok_rew = c["rew"] is None or all(x >= 0 for x in c["rew"])
        ok_act = c["kind"] == "mdp" or all(r[1] == 0 for r in c["rows"])
        if not (ok_sum or bad_sum):
            return None
        good = ok_sum and ok_rng and ok_rew and ok_act
        try:
            m = quiet(M.build, c)
        except AssertionError as e:
            return "well-formed model rejected: %s" % e if good else None
        except Exception as e:
            return "%s model: %s instead of %s" % ("well-formed" if good else "malformed", repr(e)[:200], "success" if good else "AssertionError")
        if not good:
            return "malformed model accepted (row sums ok %s, entries ok %s, rewards ok %s, actions ok %s)" % (ok_sum, ok_rng, ok_rew, ok_act)
        P = M.dense(c)
        if (m.C, m.N) != P.shape:
            return "sizes (%s,%s), want %s" % (m.C, m.N, P.shape)
        if not np.array_equal(m.P.toarray(), P):
            return "matrix differs from the given one"
        isa = {(r[0], r[1]): i for i, r in enumerate(c["rows"])}
        if dict(m.index_by_state_action.items()) != isa or dict(m.index_by_state_action.inv.items()) != {v: k for k, v in isa.items()}:
            return "state-action indexing differs"
        for l in list(c["ls"]) + ["nolabel"]:
            if set(m.states_by_label[l]) != set(c["ls"].get(l, [])):
                return "states_by_label[%r]" % l
        for s in range(c["n"]):
            if set(m.labels_by_state[s]) != {l for l, v in c["ls"].items() if s in v}:
                return "labels_by_state[%r]" % s
            if any(r[0] == s for r in c["rows"]) and set(m.actions_by_state[s]) != {r[1] for r in c["rows"] if r[0] == s}:
                return "actions_by_state[%r]" % s
        if c["kind"] == "mdp":
            for l in list(c["la"]) + ["nolabel"]:
                if set(m.actions_by_label[l]) != {tuple(x) for x in c["la"].get(l, [])}:
                    return "actions_by_label[%r]" % l
            for (s, a) in isa:
                if set(m.labels_by_action[(s, a)]) != {l for l, v in c["la"].items() if [s, a] in v}:
                    return "labels_by_action"
        if (m.reward_vector is None) != (c["rew"] is None) or (c["rew"] is not None and list(m.reward_vector) != c["rew"]):
            return "reward vector differs"
        return None


# ------------------------------------------------------------------------------------------------ C03
@prop("C03")
class C03:
    rule = "random models; all states listed twice in random order; non-trivial = at least one state with two actions or explicit zeros"

    def gen(rng, cx):
        return M.gen_model(rng, nmax=9, sizes=cx.sizes, tiny=True)

    def nontrivial(c):
        return bool(c["z"]) or len(c["rows"]) > c["n"]

    def check(c):
        m = quiet(M.build, c)
        P = m.P
        want_s = {s: [] for s in range(c["n"])}
        want_p = {s: [] for s in range(c["n"])}
        for (s, a, ds) in c["rows"]:
            for d, p in ds:
                if p > 0:
                    want_s[s].append((d, a, p))
                    want_p[d].append((s, a, p))
        for rnd in range(2):
            for s in range(c["n"]):
                got = [tuple(x) for x in m.successors(s)]
                if sorted(got) != sorted(want_s[s]):
                    return "successors(%d) = %s, want %s" % (s, sorted(got), sorted(want_s[s]))
                got = [tuple(x) for x in m.predecessors(s)]
                if sorted(got) != sorted(want_p[s]):
                    return "predecessors(%d) = %s, want %s" % (s, sorted(got), sorted(want_p[s]))
            if rnd == 0:
                m.maximal_end_components()
                m.reachable_mask({0}, "forward")
                its = [m.successors(s) for s in range(c["n"])]
                list(zip(*its))
        return None


# ------------------------------------------------------------------------------------------------ C04
@prop("C04")
class C04:
    rule = "random models with random start and block sets in both directions; non-trivial = nonempty block set"

    def gen(rng, cx):
        m = M.gen_model(rng, nmax=10, sizes=cx.sizes, tiny=True)
        n = m["n"]
        m["start"] = sorted(rng.sample(range(n), rng.choice([1, 1, 1, min(2, n), rng.randint(1, n)])))
        m["block"] = sorted(rng.sample(range(n), rng.choice([0, 1, rng.randint(0, n)])))
        if rng.random() < 0.3 and n > 1:
            m["block"] = sorted(set(m["block"]) | {m["start"][0]})
        m["dir"] = rng.choice(["forward", "backward"])
        return m

    def nontrivial(c):
        return bool(c["block"])

    def check(c):
        m = quiet(M.build, c)
        st, bl = set(c["start"]), set(c["block"])
        if not bl:
            got = m.reachable_mask(st, c["dir"])
        else:
            got = m.reachable_mask(st, c["dir"], blocklist=bl)
        want = M.forward(c, st, block=bl, back=c["dir"] == "backward")
        got = list(got)
        if len(got) != c["n"]:
            return "vector has length %d" % len(got)
        if any(int(x) not in (0, 1) for x in got):
            return "entries are not 0/1: %s" % got
        have = {i for i, x in enumerate(got) if x}
        if have != want:
            return "reachable = %s, want %s" % (sorted(have), sorted(want))
        if st != set(c["start"]) or bl != set(c["block"]):
            return "arguments were changed"
        got2 = m.reachable_mask(list(st), c["dir"], blocklist=bl)
        if list(got2) != got:
            return "second query differs"
        other = "forward" if c["dir"] == "backward" else "backward"
        got3 = {i for i, x in enumerate(m.reachable_mask(st, other, blocklist=bl)) if x}
        w3 = M.forward(c, st, block=bl, back=other == "backward")
        if got3 != w3:
            return "reachable (%s) = %s, want %s" % (other, sorted(got3), sorted(w3))
        if not np.array_equal(m.P.toarray(), M.dense(c)):
            return "the model was changed"
        return None


# ------------------------------------------------------------------------------------------------ C05 / C06
def graphy(rng, cx, big=False):
    if rng.random() < 0.5:
        m = M.gen_model(rng, nmax=10, sizes=cx.sizes, labels=False, rew=False, tiny=True)
    else:   # structured: rings with chords and exits
        n = rng.randint(2, 14)
        rows = []
        kind = rng.choice(["mdp", "mdp", "dtmc"])
        nxt = list(range(n))
        rng.shuffle(nxt)
        for s in range(n):
            acts = 1 if kind == "dtmc" else rng.randint(1, 3)
            for a in range(acts):
                r = rng.random()
                if r < 0.45:
                    ds = [nxt[s]]
                elif r < 0.6:
                    ds = [s]
                elif r < 0.8:
                    ds = list({nxt[s], rng.randrange(n)})
                else:
                    ds = rng.sample(range(n), min(n, rng.randint(1, 3)))
                rows.append([s, a, [[d, 1.0 / len(ds)] for d in ds]])
        if rng.random() < 0.5:
            rng.shuffle(rows) if kind == "mdp" else None
        if rng.random() < 0.3:
            M.shrink_some(rng, rows)
        m = dict(kind=kind, n=n, rows=rows, ls={}, la={}, rew=None, z=[], fmt="csr")
    return m


@prop("C05")
class C05:
    rule = "random directed graphs as models (local, clustered, chains, rings with chords); non-trivial = some component with more than one state and more than one component"
    gen = staticmethod(graphy)

    def nontrivial(c):
        comps = M.scc_oracle(c["n"], {(s, d) for (s, a, d) in M.edges(c)}, range(c["n"]))
        return 1 < len(comps) < c["n"]

    def check(c):
        m = quiet(M.build, c)
        comps = M.scc_oracle(c["n"], {(s, d) for (s, a, d) in M.edges(c)}, range(c["n"]))
        vec, count = m.strongly_connected_components()
        vec = [int(x) for x in vec]
        if count != len(comps):
            return "count = %d, want %d" % (count, len(comps))
        if set(vec) != set(range(count)):
            return "indices used: %s, count %d" % (sorted(set(vec)), count)
        for comp in comps:
            if len({vec[s] for s in comp}) != 1:
                return "component %s is split: %s" % (sorted(comp), vec)
        return None


@prop("C06")
class C06:
    rule = "random MDPs and DTMCs (rings with chords, nested cycles, exits, self loops); non-trivial = some proper and some improper class"
    gen = staticmethod(graphy)

    def nontrivial(c):
        r = M.mec_oracle(c)
        return len({p for _, p in r}) == 2

    def check(c):
        m = quiet(M.build, c)
        want = M.mec_oracle(c)
        vec, proper, count = m.maximal_end_components()
        vec = [int(x) for x in vec]
        if len(vec) != c["n"]:
            return "vector length"
        if count != len(want):
            return "count = %d, want %d" % (count, len(want))
        if set(vec) != set(range(count)) or len(proper) != count:
            return "indices used: %s, count %d, %d flags" % (sorted(set(vec)), count, len(proper))
        for T, pr in want:
            if len({vec[s] for s in T}) != 1:
                return "MEC %s is split: %s" % (sorted(T), vec)
            if bool(proper[vec[next(iter(T))]]) != pr:
                return "class %s flagged proper=%s, want %s" % (sorted(T), proper[vec[next(iter(T))]], pr)
        vec2, proper2, count2 = m.maximal_end_components()
        if count2 != count:
            return "second query differs"
        return None


# ------------------------------------------------------------------------------------------------ C07 / C08
def gen_reduce(rng, cx):
    m = M.reach_model(rng, nmax=9, sizes=cx.sizes, rew=rng.random() < 0.3, tiny=True)
    m["tl"] = rng.choice([None, None, ["goal!", "sink"], ["t2", "f2"]])
    return m


def do_reduce(c):
    from switss.model import ReachabilityForm
    m = quiet(M.build, c)
    kw = {} if not c.get("tl") else dict(new_target_label=c["tl"][0], new_fail_label=c["tl"][1])
    with contextlib.redirect_stdout(io.StringIO()):
        rf, sm, sam = ReachabilityForm.reduce(m, "init", "target", **kw)
    return m, rf, sm, sam


@prop("C07")
class C07:
    rule = "random models with labels init/target, several targets, dead ends and unreachable parts; non-trivial = some state removed"
    gen = staticmethod(gen_reduce)

    def nontrivial(c):
        return len(M.reduce_oracle(c)) < c["n"]

    def check(c):
        from switss.model import ReachabilityForm
        m, rf, sm, sam = do_reduce(c)
        tl, fl = c["tl"] or ["rf_target", "rf_fail"]
        sysm = rf.system
        if (rf.initial_label, rf.target_label, rf.fail_label) != ("init", tl, fl):
            return "label names %s" % ((rf.initial_label, rf.target_label, rf.fail_label),)
        if type(sysm) is not type(m):
            return "model type changed"
        r = rf_valid(sysm, "init", tl, fl)
        if r:
            return r
        e = raises(lambda: ReachabilityForm.assert_consistency(sysm, "init", tl, fl))
        if e:
            return "own consistency check: %r" % e
        e = raises(lambda: ReachabilityForm(sysm, "init", tl, fl))
        if e:
            return "wrapping again: %r" % e
        N, C = sysm.N, sysm.C
        if (rf.target_state_idx, rf.fail_state_idx, rf.target_sap_idx, rf.fail_sap_idx) != (N - 2, N - 1, C - 2, C - 1):
            return "exposed target/fail indices"
        if rf.initial not in sysm.states_by_label["init"]:
            return "exposed initial state"
        return None


def rf_valid(sysm, il, tl, fl):
    """None if the model is in reachability form, else the violated condition (independent predicate)"""
    if len({il, tl, fl}) != 3:
        return "labels not distinct"
    for l in (il, tl, fl):
        if len(sysm.states_by_label[l]) != 1:
            return "%d states labelled %s" % (len(sysm.states_by_label[l]), l)
    init, t, f = (next(iter(sysm.states_by_label[l])) for l in (il, tl, fl))
    P = sysm.P.toarray()
    C, N = P.shape
    inv = sysm.index_by_state_action.inv
    rows = []
    for i in range(C):
        if i not in inv:
            return "row %d has no state-action pair" % i
        s, a = inv[i]
        rows.append([s, a, [[j, P[i, j]] for j in np.nonzero(P[i])[0]]])
        if abs(P[i].sum() - 1) > 1e-9 or (P[i] < 0).any():
            return "row %d is not a distribution" % i
    m = dict(n=N, rows=rows)
    for st, si, name in ((t, N - 2, "target"), (f, N - 1, "fail")):
        if st != si:
            return "%s state is %d" % (name, st)
        own = [i for i, r in enumerate(rows) if r[0] == st]
        if own != [C - 2 if name == "target" else C - 1]:
            return "%s rows are %s" % (name, own)
        if [list(x) for x in rows[own[0]][2]] != [[st, 1.0]] and not (len(rows[own[0]][2]) == 1 and rows[own[0]][2][0][0] == st):
            return "%s is not absorbing" % name
    fw = M.forward(m, {init})
    bw = M.forward(m, {t}, back=True)
    for s in range(N):
        if s != f and s not in fw:
            return "state %d not reachable" % s
        if s != f and s not in bw:
            return "state %d does not reach the target" % s
    return None


@prop("C08")
class C08:
    rule = C07.rule + " (labels on states and actions, rewards)"
    gen = staticmethod(gen_reduce)
    nontrivial = C07.nontrivial

    def check(c):
        m, rf, sm, sam = do_reduce(c)
        keep = M.reduce_oracle(c)
        tg = set(c["ls"]["target"])
        tl, fl = c["tl"] or ["rf_target", "rf_fail"]
        S = rf.system
        sm, sam = dict(sm), dict(sam)
        if set(sm) != keep:
            return "kept states %s, want %s" % (sorted(sm), sorted(keep))
        k = len(keep)
        if sorted(sm.values()) != list(range(k)) or S.N != k + 2:
            return "state map %s is not onto 0..%d (N=%d)" % (sm, k - 1, S.N)
        want = {(r[0], r[1]) for r in c["rows"] if r[0] in keep}
        if set(sam) != want:
            return "kept state-action pairs %s, want %s" % (sorted(sam), sorted(want))
        if len(set(sam.values())) != len(sam) or S.C != len(want) + 2:
            return "state-action map is not injective / wrong number of rows"
        isa = dict(S.index_by_state_action.items())
        if set(sam.values()) | {(k, 0), (k + 1, 0)} != set(isa):
            return "state-action pairs of the form %s" % sorted(isa)
        P = S.P.toarray()
        if set(rf.system.states_by_label["init"]) != {sm[c["ls"]["init"][0]]}:
            return "initial state"
        orig = {(r[0], r[1]): (i, dict((d, p) for d, p in r[2])) for i, r in enumerate(c["rows"])}
        if (S.reward_vector is None) != (c["rew"] is None):
            return "reward vector lost or invented"
        for (s, a), (ns, na) in sam.items():
            if ns != sm[s]:
                return "maps disagree on state %d" % s
            i = isa[(ns, na)]
            oi, row = orig[(s, a)]
            wantrow = np.zeros(S.N)
            if s in tg:
                wantrow[k] = 1
            else:
                for d, p in row.items():
                    if d in keep:
                        wantrow[sm[d]] = p
            for j in range(k + 1):
                if P[i, j] != wantrow[j]:
                    return "P[(%d,%d) -> %s] = %r, want %r" % (s, a, j, P[i, j], wantrow[j])
            lost = 0.0 if s in tg else sum(p for d, p in row.items() if d not in keep)
            if abs(P[i, k + 1] - lost) > 2e-9:
                return "fail mass of (%d,%d) = %r, want %r" % (s, a, P[i, k + 1], lost)
            if set(S.labels_by_action[(ns, na)]) != {l for l, v in c["la"].items() if [s, a] in v and c["kind"] == "mdp"}:
                return "action labels of (%d,%d): %s" % (s, a, S.labels_by_action[(ns, na)])
            if c["rew"] is not None and S.reward_vector[i] != c["rew"][oi]:
                return "reward of (%d,%d) = %r, want %r" % (s, a, S.reward_vector[i], c["rew"][oi])
        if c["rew"] is not None and (S.reward_vector[S.C - 1] != 0 or S.reward_vector[S.C - 2] != 0 or len(S.reward_vector) != S.C):
            return "rewards of target/fail"
        for s in keep:
            if set(S.labels_by_state[sm[s]]) != {l for l, v in c["ls"].items() if s in v}:
                return "labels of state %d: %s" % (s, S.labels_by_state[sm[s]])
        if set(S.labels_by_state[k]) != {tl} or set(S.labels_by_state[k + 1]) != {fl}:
            return "labels of target/fail"
        pm, pn = m.P.toarray(), M.dense(c)
        if not np.array_equal(pm, pn) or set(m.states_by_label.keys()) != set(c["ls"]):
            return "the original model was changed"
        return None


# ------------------------------------------------------------------------------------------------ C09
@prop("C09")
class C09:
    rule = "valid reachability forms and forms with one mutated condition; non-trivial = mutated"

    def gen(rng, cx):
        m = M.reach_model(rng, nmax=6, rew=False, tiny=True)
        keep = sorted(M.reduce_oracle(m))
        tg = set(m["ls"]["target"])
        init = m["ls"]["init"][0]
        k = len(keep)
        mp = {s: i for i, s in enumerate(keep)}
        rows = []
        for s, a, ds in m["rows"]:
            if s in mp:
                if s in tg:
                    rows.append([mp[s], a, [[k, 1.0]]])
                else:
                    nd = [[mp[d], p] for d, p in ds if d in mp]
                    lost = min(1.0, sum(p for d, p in ds if d not in mp))
                    if lost > 0:
                        nd.append([k + 1, lost])
                    rows.append([mp[s], a, nd])
        rows += [[k, 0, [[k, 1.0]]], [k + 1, 0, [[k + 1, 1.0]]]]
        f = dict(kind=m["kind"], n=k + 2, rows=rows, ls={"init": [mp[init]], "T": [k], "F": [k + 1], "x": [0]}, la={}, rew=None, z=[], fmt=rng.choice(["csr", "csr", "dok"]), labs=["init", "T", "F"], ord=rng.randrange(1 << 20))
        mut = rng.choice(["none", "none", "dup", "nolab", "two", "tloop", "floop", "taction", "faction", "swap", "unreach", "dead", "rowpos", "failin", "tfail", "statepos"])
        n = f["n"]
        if mut == "dup":
            i, j = rng.sample(range(3), 2)
            f["labs"][i] = f["labs"][j]
        elif mut == "nolab":
            f["ls"][rng.choice(["init", "T", "F"])] = []
        elif mut == "two":
            l = rng.choice(["init", "T", "F"])
            f["ls"][l] = sorted(set(f["ls"][l]) | {rng.randrange(n)})
        elif mut in ("tloop", "floop"):
            i = -2 if mut == "tloop" else -1
            d = rng.randrange(n)
            s = f["rows"][i][0]
            f["rows"][i][2] = [[d, 1.0]] if rng.random() < 0.5 or d == s else [[s, 0.5], [d, 0.5]]
        elif mut in ("taction", "faction") and f["kind"] == "mdp":
            s = n - 2 if mut == "taction" else n - 1
            if rng.random() < 0.5:
                a0 = rng.choice([0, 0, 2, 5])
                f["rows"][-2 if mut == "taction" else -1][1] = a0
                f["rows"].insert(rng.randrange(len(rows) - 1), [s, rng.choice([b for b in (0, 1, 2, 5, 7) if b != a0]), [[s, 1.0]]])
                f["fmt"] = rng.choice(["dok", "dok", "csr", "csc", "coo", "array"])
                f["mut"] = mut
                return f
            f["rows"].insert(rng.randrange(len(rows) - 1), [s, rng.choice([1, 5]), [[rng.choice([s, rng.randrange(n)]), 1.0]]])
        elif mut == "swap":
            f["ls"]["T"], f["ls"]["F"] = f["ls"]["F"], f["ls"]["T"]
        elif mut == "statepos":
            f["ls"][rng.choice(["T", "F"])] = [rng.randrange(n)]
        elif mut == "rowpos" and f["kind"] == "mdp":
            i = rng.randrange(len(rows) - 1)
            j = rng.choice([-1, -2])
            f["rows"][i], f["rows"][j] = f["rows"][j], f["rows"][i]
        elif mut in ("unreach", "dead", "failin"):
            # insert a state before the last two
            ns = n - 2
            sh = lambda d: d if d < n - 2 else d + 1
            f["rows"] = [[sh(s), a, [[sh(d), p] for d, p in ds]] for s, a, ds in f["rows"]]
            f["ls"] = {l: [sh(s) for s in v] for l, v in f["ls"].items()}
            f["n"] = n + 1
            if mut == "unreach":
                new = [[ns, 0, [[rng.choice([n - 1, rng.randrange(max(1, ns))]), 1.0]]]]
            else:
                new = [[ns, 0, [[rng.choice([ns, n]), 1.0]]]]
                r = f["rows"][rng.randrange(len(f["rows"]) - 2)]
                if len(r[2]) >= 1:
                    d, p = r[2][0]
                    r[2][0] = [d, p / 2]
                    r[2].append([ns, p / 2])
            f["rows"] = f["rows"][:-2] + new + f["rows"][-2:]
        elif mut == "tfail":
            f["rows"][-2][2] = [[n - 2, 0.5], [n - 1, 0.5]]
        f["mut"] = mut
        return f

    def nontrivial(c):
        return c["mut"] != "none"

    def check(c):
        from switss.model import ReachabilityForm
        m = quiet(M.build, c)
        il, tl, fl = c["labs"]
        want = rf_valid(m, il, tl, fl)
        for f in (lambda: ReachabilityForm.assert_consistency(m, il, tl, fl), lambda: ReachabilityForm(m, il, tl, fl)):
            e = raises(f)
            if e is not None and not isinstance(e, AssertionError):
                return "%r instead of AssertionError (%s)" % (e, want) if want else "valid form: %r" % e
            if want is None and e is not None:
                return "valid form rejected: %s" % e
            if want is not None and e is None:
                return "accepted although: %s" % want
        return None


# ------------------------------------------------------------------------------------------------ reachability form helpers
def make_rf(c):
    from switss.model import ReachabilityForm
    m = quiet(M.build, c)
    with contextlib.redirect_stdout(io.StringIO()):
        rf, sm, sam = ReachabilityForm.reduce(m, "init", "target")
    return rf


def rf_info(rf):
    """independent reading of a reachability form: rows, N, A, b, init, proper-EC states"""
    rows, N = M.rf_rows(rf)
    C = len(rows)
    P = np.zeros((C, N))
    for i, (s, a, ds) in enumerate(rows):
        for d, p in ds:
            P[i, d] = p
    E = np.zeros((C - 2, N - 2))
    for i in range(C - 2):
        E[i, rows[i][0]] = 1
    A = E - P[:C - 2, :N - 2]
    b = P[:C - 2, N - 2]
    init = next(iter(rf.system.states_by_label[rf.initial_label]))
    mecs = M.mec_oracle(dict(n=N, rows=rows))
    ec = {s for T, p in mecs if p for s in T if s < N - 2}
    return dict(rows=rows, N=N, C=C, A=A, b=b, init=init, ec=ec, P=P)


THR = [0.0, 0.1, 0.25, 0.3, 1 / 3, 0.5, 0.7, 0.9, 0.999, 1.0]


@prop("C10")
class C10:
    rule = "reachability forms from random models and random sequences of constraint queries with different thresholds and kinds; non-trivial = at least two queries"

    def gen(rng, cx):
        m = M.reach_model(rng, nmax=7, sizes=cx.sizes, tiny=True)
        m["q"] = [[rng.choice(["y", "z", "min", "max", "lp"]), rng.choice(THR + [rng.random()])] for _ in range(rng.randint(1, 5))]
        return m

    def nontrivial(c):
        return len(c["q"]) > 1

    def check(c):
        rf = make_rf(c)
        I = rf_info(rf)
        A, b, init, C, N = I["A"], I["b"], I["init"], I["C"] - 2, I["N"] - 2
        if rf.P.shape != (C, N) or not np.array_equal(rf.P.toarray(), I["P"][:C, :N]):
            return "exposed transition matrix"
        if np.abs(rf.A.toarray() - A).max(initial=0) > 1e-15:
            return "exposed system matrix"
        tt = np.asarray(rf.to_target).flatten()
        if not np.array_equal(tt, b):
            return "exposed one-step target probabilities %s, want %s" % (tt, b)
        if dict(rf.index_by_state_action.items()) != {(r[0], r[1]): i for i, r in enumerate(I["rows"][:-2])}:
            return "exposed state-action indexing"
        if rf.initial != init:
            return "exposed initial state"
        dz = np.zeros((1, N)); dz[0, init] = -1
        Mz, My = np.vstack([A, dz]), np.vstack([A.T, -b[None, :]])
        e_i = np.zeros(N); e_i[init] = 1
        hist = []
        for q, t in c["q"]:
            if q == "lp":
                rf.pr_min()
                continue
            if q in ("y", "max"):
                got = rf.fark_y_constraints(t) if q == "y" else rf.fark_constraints(t, "max")
                want = (My, np.append(e_i, -t))
            else:
                got = rf.fark_z_constraints(t) if q == "z" else rf.fark_constraints(t, "min")
                want = (Mz, np.append(b, -t))
            hist.append((q, t, got, want))
            for (q_, t_, g, w) in hist:
                g0 = np.asarray(g[0].todense())
                if g0.shape != w[0].shape or np.abs(g0 - w[0]).max(initial=0) > 1e-15:
                    return "matrix of query %s(%s) differs after query %s(%s)" % (q_, t_, q, t)
                g1 = np.asarray(g[1]).flatten()
                if g1.shape != w[1].shape or np.abs(g1 - w[1]).max() > 0:
                    return "right-hand side of query %s(%s) is %s, want %s (looked at after query %s(%s))" % (q_, t_, g1, w[1], q, t)
        return None


# ------------------------------------------------------------------------------------------------ C11 / C12
SENSES = ["<=", "<", ">=", ">"]


def cert_conditions(I, mode, sense, t, v, tol):
    """(decided, accepted): exact tolerance-relaxed certificate conditions; decided False if too close to the border"""
    A, b, init, C, N = I["A"], I["b"], I["init"], I["C"] - 2, I["N"] - 2
    isy = (mode == "min") == (sense in ("<=", "<"))
    dist = []          # signed slack incl. tolerance: must be >= 0
    strict = None
    ok = True
    if isy:
        if (v < 0).any():
            dist.append(np.min(v) + tol)
        r = v @ A
        e = np.zeros(N); e[init] = 1
        if sense in (">=", ">"):
            dist += list(e - r + tol)
            last = v @ b - t + tol
        else:
            dist += list(r - e + tol)
            last = t - v @ b + tol
        if mode == "min":
            ok = all(v[i] == 0 for i in range(C) if I["rows"][i][0] in I["ec"])
    else:
        r = A @ v
        if sense in (">=", ">"):
            dist += list(b - r + tol)
            last = v[init] - t + tol
        else:
            dist += list(r - b + tol)
            last = t - v[init] + tol
        if mode == "min":
            ok = all(v[i] == 0 for i in range(N) if i in I["ec"])
    dist.append(last)
    scale = 1e-12 * (1 + np.abs(v).max(initial=0))
    if not ok:
        return True, False
    if sense in ("<", ">"):
        if min(dist) > scale:
            return True, True
        if min(dist) < -scale:
            return True, False
        return False, None
    if min(dist) < -scale:
        return True, False
    if min(dist) > scale:
        return True, True
    return False, None


@prop("C11")
class C11:
    rule = "reachability forms, all modes/senses, candidate vectors: optimal certificates, perturbed ones at single entries, random and partly negative ones, several tolerances; non-trivial = candidate not the zero vector"

    def gen(rng, cx):
        m = M.reach_model(rng, nmax=6, rew=False)
        m["mode"], m["sense"] = rng.choice(["min", "max"]), rng.choice(SENSES)
        m["t"] = rng.choice(THR + [rng.random(), None, None])
        m["tol"] = rng.choice([0, 1e-8, 1e-8, 1e-5, 0.01, 0.1])
        m["cand"] = rng.choice(["opt", "opt", "opt", "optpert", "optpert", "optpert", "rand", "rand01", "neg", "zero"])
        m["seed"] = rng.randrange(1 << 30)
        return m

    def nontrivial(c):
        return c["cand"] != "zero"

    def cand(c, I):
        rng = random.Random(c["seed"])
        isy = (c["mode"] == "min") == (c["sense"] in ("<=", "<"))
        C, N = I["C"] - 2, I["N"] - 2
        x = M.pr_opt(I["N"], I["rows"], {N}, c["mode"])[:N]
        if isy:
            # expected visits of an optimal policy (damped so that it always exists)
            best = {}
            full = np.append(x, [1.0, 0.0])
            for i in range(C):
                s, a, ds = I["rows"][i]
                v = sum(p * full[d] for d, p in ds)
                if s not in best or (v > best[s][0] + 1e-12 if c["mode"] == "max" else v < best[s][0] - 1e-12) or (abs(v - best[s][0]) < 1e-12 and rng.random() < 0.5):
                    best[s] = (v, i)
            sel = [best[s][1] for s in range(N)]
            Pp = I["P"][sel][:, :N]
            e = np.zeros(N); e[I["init"]] = 1
            fac = 1.0
            try:
                u = np.linalg.solve(np.eye(N) - fac * Pp.T, e)
                if not np.isfinite(u).all() or np.abs(u).max() > 1e6:
                    raise ValueError
            except Exception:
                u = np.linalg.solve(np.eye(N) - 0.999 * Pp.T, e)
            v = np.zeros(C)
            for s in range(N):
                v[sel[s]] = max(0.0, u[s])
            if c["mode"] == "min":
                for i in range(C):
                    if I["rows"][i][0] in I["ec"] and rng.random() < 0.9:
                        v[i] = 0
        else:
            v = x.copy()
        val = (v @ I["b"]) if isy else v[I["init"]]
        k = c["cand"]
        if k == "zero":
            v = v * 0
        elif k == "rand":
            v = np.array([rng.uniform(0, 2) for _ in v])
        elif k == "rand01":
            v = np.array([rng.choice([0, 0, 1, 0.5]) for _ in v], dtype=float)
        elif k == "neg":
            for i in range(len(v)):
                if rng.random() < 0.4:
                    v[i] = -rng.choice([0.5, 1e-3, 1.0])
                elif rng.random() < 0.5:
                    v[i] += rng.choice([0.5, 1.0])
        elif k == "optpert" and len(v):
            i = rng.randrange(len(v))
            v[i] += rng.choice([1, -1]) * rng.choice([1e-3, 0.05, 0.3, 3e-9, 1e-6, 0.02, c["tol"] * 0.5, c["tol"] * 1.5])
        t = c["t"]
        if t is None:
            t = val + rng.choice([0, 0, 1, -1]) * rng.choice([1e-3, 0.05, c["tol"] * 0.5, c["tol"] * 1.5, c["tol"] * 3])
            t = min(1.0, max(0.0, t))
        return v, t

    def check(c):
        from switss.certification import check_farkas_certificate
        rf = make_rf(c)
        I = rf_info(rf)
        v, t = C11.cand(c, I)
        v0 = v.copy()
        got = quiet(check_farkas_certificate, rf, c["mode"], c["sense"], t, v, tol=c["tol"])
        if not np.array_equal(v, v0):
            return "the candidate vector was changed"
        got = bool(got)
        decided, want = cert_conditions(I, c["mode"], c["sense"], t, v, c["tol"])
        if decided and got != want:
            return "%s %s %s with tol %s: check = %s, conditions %s for vector %s" % (c["mode"], c["sense"], t, c["tol"], got, "hold" if want else "fail", list(v))
        if got and c["tol"] <= 1e-8:
            pr = M.pr_opt(I["N"], I["rows"], {I["N"] - 2}, c["mode"])[I["init"]]
            good = {"<=": pr <= t + 1e-5, "<": pr < t + 1e-5, ">=": pr >= t - 1e-5, ">": pr > t - 1e-5}[c["sense"]]
            if not good:
                return "accepted certificate for Pr^%s %s %s but the probability is %s" % (c["mode"], c["sense"], t, pr)
        if c["tol"] == 1e-8:
            if bool(quiet(check_farkas_certificate, rf, c["mode"], c["sense"], t, v)) != got:
                return "default tolerance differs from 1e-8"
        return None


@prop("C12")
class C12:
    rule = "reachability forms, all modes/senses, thresholds at, above and below the true probability by a margin, tolerances; non-trivial = bound holds"

    def gen(rng, cx):
        m = M.reach_model(rng, nmax=6, rew=False)
        m["mode"], m["sense"] = rng.choice(["min", "max"]), rng.choice(SENSES)
        m["off"] = rng.choice([0.02, -0.02, 0.1, -0.1, 0.3, -0.3, None])
        m["t"] = rng.choice(THR)
        m["tol"] = rng.choice([None, None, 1e-5, 1e-6])
        m["solver"] = "cbc" if rng.random() < 0.85 else "glpk"
        return m

    def nontrivial(c):
        return c["off"] is not None and (c["off"] > 0) == (c["sense"] in ("<=", "<"))

    def check(c):
        from switss.certification import check_farkas_certificate, generate_farkas_certificate
        rf = make_rf(c)
        I = rf_info(rf)
        pr = M.pr_opt(I["N"], I["rows"], {I["N"] - 2}, c["mode"])[I["init"]]
        t = c["t"] if c["off"] is None else pr + c["off"]
        if not 0 <= t <= 1:
            t = min(1.0, max(0.0, t))
        kw = {} if c["tol"] is None else dict(tol=c["tol"])
        tol = c["tol"] or 1e-5
        cert = quiet(generate_farkas_certificate, rf, c["mode"], c["sense"], t, solver=c["solver"], **kw)
        what = "Pr^%s %s %s (probability %s)" % (c["mode"], c["sense"], t, pr)
        isy = (c["mode"] == "min") == (c["sense"] in ("<=", "<"))
        holds = {"<=": pr <= t, "<": pr < t, ">=": pr >= t, ">": pr > t}[c["sense"]]
        if cert is not None:
            if cert.shape != (I["C"] - 2 if isy else I["N"] - 2,):
                return what + ": certificate of shape %s" % (cert.shape,)
            if not quiet(check_farkas_certificate, rf, c["mode"], c["sense"], t, cert, tol=tol):
                return what + ": generated certificate is not accepted"
            dec, acc = cert_conditions(I, c["mode"], c["sense"], t, np.array(cert, dtype=float), tol)
            if dec and not acc:
                return what + ": generated vector is no certificate: %s" % list(cert)
            if not holds and abs(pr - t) > 0.009 and C12.cond(I) < 60:
                return what + ": certificate for a false bound: %s" % list(cert)
        elif not I["ec"] and holds and abs(pr - t) > 1e-3 and C12.cond(I) < 1e4:
            return what + ": no certificate found although the bound holds"
        return None

    def cond(I):
        # worst expected number of steps under any policy (rough): max over uniform policies by linear solve
        N = I["N"] - 2
        big = 0.0
        rng = random.Random(1)
        by = {}
        for i in range(I["C"] - 2):
            by.setdefault(I["rows"][i][0], []).append(i)
        for _ in range(8):
            sel = [rng.choice(by[s]) for s in range(N)]
            A = np.eye(N) - I["P"][sel][:, :N]
            try:
                big = max(big, np.abs(np.linalg.inv(A)).sum())
            except np.linalg.LinAlgError:
                return 1e9
        return big
