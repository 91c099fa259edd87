import os, subprocess, sys, json, time
from mon.common import *
from mon import gen, oracles as o, core
from mon.c13_ops import do, canon, run_ops

ID = "C13"
RULE = ("sessions of 14 random operations (rules with all algorithms and modes, axiom checks, scores, text forms) over 4 shared "
        "profiles; every returned object is kept and watched, then vandalised, and every operation is repeated later in another "
        "order and with another random state; a part of the sessions (80 operations, larger elections) is replayed in fresh interpreters with other hash seeds, "
        "with assertions off (-O), without gmpy2, in reversed order; the pure Python operations are run in three threads at once; process-wide state (random sources, module constants, environment, verbosity) is watched around every operation; non-trivial: operation has a non-constant result")
ASSUMPTIONS = ["solver algorithms in resolute mode (or with a limit) may return any winning committee, so only the number is compared "
               "(C09/C10 check membership)"]
PLAN = {"quick": 420, "thorough": 6000}
REQUIRED = ["repeat", "kept-objects", "child:hash0", "child:-O", "child:nogmpy2", "child:reversed", "vandalised", "profile-snapshots", "after-mutation", "ambient", "rsd-stream", "threads:ops", "threads:overlaps"]
RULES = [r for r in OPTIMISATION + SEQUENTIAL + OTHER if r != "rsd"] + ["geom1.5", "rule-x", "seqgeom1.5"]
PURE = ["equal-shares", "rule-x", "equal-shares-with-av-completion", "equal-shares-with-increment-completion", "equal-shares-without-completion",
        "seqphragmen", "seqpav", "seqslav", "seqcc", "seqgeom2", "revseqpav", "revseqcc", "revseqgeom2", "phragmen-enestroem", "consensus-rule",
        "maximin-support", "greedy-monroe", "eph", "av", "sav", "trivial"]
PROPS = ["pareto", "jr", "pjr", "ejr", "ejr+", "fjr", "core", "priceability", "stable-priceability"]


def stable_rules_ok(inst):
    return all(irresolute_ok(r, inst, cap=60) for r in ("seqphragmen", "seqpav", "equal-shares", "revseqpav", "maximin-support",
                                                         "consensus-rule", "phragmen-enestroem", "seqcc", "revseqcc"))


def sibling(rng, inst):
    """a different instance that agrees with the given one in most summary values (size, names, total weight, ballot sets)"""
    out = dict(inst, votes=[list(b) for b in inst["votes"]], w=list(inst["w"]) if inst["w"] else None)
    n, m = len(out["votes"]), inst["m"]
    r = rng.random()
    if r < 0.3 and out["w"]:
        rng.shuffle(out["w"])
    elif r < 0.5:
        out["votes"][rng.randrange(n)] = rng.sample(range(m), rng.randint(0, m))
    elif r < 0.7:
        a, b = rng.randrange(m), rng.randrange(m)
        out["votes"] = [[{a: b, b: a}.get(c, c) for c in x] for x in out["votes"]]
    elif r < 0.85:
        i, j = rng.randrange(n), rng.randrange(n)
        out["votes"][i] = list(out["votes"][j])
    else:
        out["k"] = min(m, inst["k"] + 1)
    return out


def mutate(rng, inst, prof):
    """change the live profile through its public interface and return the instance it now stands for"""
    out = dict(inst, votes=[list(b) for b in inst["votes"]], w=list(inst["w"]) if inst["w"] else None)
    n, m = len(out["votes"]), inst["m"]
    r = rng.random()
    ballot = rng.sample(range(m), rng.randint(0, m))
    if r < 0.35:
        w = 1 if is_unit(inst) else rng.choice([1, 2, 3])
        prof.add_voter(Voter(ballot, weight=w) if rng.random() < 0.5 or w != 1 else ballot)
        out["votes"].append(ballot)
        if out["w"]:
            out["w"].append(w)
    elif r < 0.7:
        i = rng.randrange(n)
        prof[i] = Voter(ballot, weight=prof[i].weight)
        out["votes"][i] = ballot
    elif r < 0.85:
        i = rng.randrange(n)
        prof[i].approved = CandidateSet(ballot)
        out["votes"][i] = ballot
    elif not is_unit(inst):
        i = rng.randrange(n)
        prof[i].weight = 7
        out["w"][i] = 7
    else:
        i = rng.randrange(n)
        c = rng.randrange(m)
        if c in prof[i].approved:
            prof[i].approved.remove(c)
            out["votes"][i] = [x for x in out["votes"][i] if x != c]
        else:
            prof[i].approved.add(c)
            out["votes"][i].append(c)
    return out


def gen_ops(rng, nops, npool, big=False):
    pool = []
    for i in range(npool):
        if big and i < npool // 2:   # larger elections: resolute runs of the pure Python algorithms
            inst = gen.inst(rng, nmin=8, nmax=16, mmin=6, mmax=10, kmax=7, wkinds=["unit", "unit", "int", "frac"])
            pool.append((rng.randrange(1 << 30), dict(inst, big=1)))
            continue
        while True:
            inst = gen.inst(rng, nmax=6, mmax=6 if rng.random() < 0.9 else 11, kmax=4, max_committees=40)
            if stable_rules_ok(inst):
                break
        pool.append((rng.randrange(1 << 30), inst))
        if rng.random() < 0.35 and len(pool) < npool:
            sib = sibling(rng, inst)
            if stable_rules_ok(sib):
                pool.append((rng.randrange(1 << 30), sib))
        if len(pool) >= npool:
            break
    ops = []
    while len(ops) < nops:
        pid, inst = rng.choice(pool)
        m, k = inst["m"], inst["k"]
        op = {"inst": inst, "pid": pid}
        r = rng.random()
        if r < 0.7 or inst.get("big"):
            rule = rng.choice(RULES if not inst.get("big") else PURE)
            if rule in UNIT_ONLY and not is_unit(inst):
                continue
            alg = rng.choice(algs(rule) + ["fastest"])
            if not applicable(rule, alg, inst) or alg == "gmpy2-fractions" and rng.random() < 0.5:
                continue
            if rule in RESOLUTE_ONLY:
                res = True
            else:
                res = rng.random() < 0.4
                if inst.get("big") or not irresolute_ok(rule, inst, cap=60):
                    res = True
            solver = alg in ("gurobi", "mip-cbc", "ortools-cp") or alg == "fastest" and \
                algs(rule)[0] in ("gurobi", "mip-cbc", "ortools-cp")
            op.update(op="compute", rule=rule, alg=alg, resolute=res, k=k, solver=solver)
            if not res and rng.random() < 0.15:
                op["lim"] = rng.randint(1, 3)
        elif r < 0.85:
            prop = rng.choice(PROPS)
            op.update(op="check", prop=prop, com=sorted(rng.sample(range(m), k)))
            if prop in ("pareto", "pjr", "ejr", "fjr", "core"):
                op["alg"] = rng.choice(["gurobi", "brute-force"])
        elif r < 0.95:
            f = rng.choice(["thiele", "add", "remove", "monroe", "mav"])
            if f == "monroe" and not is_unit(inst):
                continue
            op.update(op="score", f=f, sid=rng.choice(["pav", "slav", "cc", "av", "geom3/2", "atleast2"]), k=k,
                      com=rng.sample(range(m), k))
        else:
            op.update(op="text")
        ops.append(op)
    return ops


def gen_case(rng, idx, tier):
    child = idx % 12 == 0
    return {"child": child, "ops": gen_ops(rng, 80 if child else 14, 10 if child else 4, big=child), "s": rng.randrange(1 << 30)}


def freeze(x):
    if isinstance(x, (list, tuple)):
        return [freeze(y) for y in x]
    if isinstance(x, (set, frozenset)):
        return ("set", sorted(int(c) for c in x))
    return repr(x)


def vandal(x):
    """a user changes an object the library has returned"""
    if isinstance(x, list):
        for y in x:
            if isinstance(y, set):
                y.clear()
                y.add(0)
        x.append("vandal")


def label(op):
    return json.dumps({k: v for k, v in op.items() if k not in ("pid",)})


def child(ops, flags=(), env=None, **spec):
    e = dict(os.environ)
    e.update(env or {})
    p = subprocess.run([sys.executable, *flags, os.path.join(core.VERIF, "mon", "c13_child.py")],
                       input=json.dumps(dict(spec, ops=ops)), capture_output=True, text=True, env=e, timeout=400)
    if p.returncode != 0:
        raise RuntimeError("child failed: %s" % p.stderr[-1500:])
    return json.loads(p.stdout)


def ambient():
    """process-wide state that computations have no business changing"""
    import os, decimal, warnings, logging, locale
    import numpy as np
    mods = [abcrules, properties, scores, misc, preferences, aoutput]
    consts = {(x.__name__, n): v for x in mods for n, v in vars(x).items() if n.isupper() and isinstance(v, (int, float, str, tuple, type(None)))}
    st = np.random.get_state()
    return {"random": random.getstate(), "numpy.random": (st[0], tuple(st[1].tolist()), st[2:]), "environ": dict(os.environ), "cwd": os.getcwd(),
            "decimal": repr(decimal.getcontext()), "numpy errors": np.geterr(), "constants": consts, "verbosity": output.verbosity,
            "recursion": sys.getrecursionlimit(), "warnings": len(warnings.filters), "locale": locale.setlocale(locale.LC_ALL)}


def rsd_stream(mon, rng, ops, cache):
    """random serial dictator draws from the module random and nothing else: reproducible under a seed, whatever happened before, and it
    leaves the generator in a state that depends on the state before"""
    op = rng.choice(ops)
    prof = profile(dict(op["inst"], w=None), op["pid"])
    k = op["inst"]["k"]
    seeds = [rng.randrange(1 << 40) for _ in range(2)]
    outs, after = [], []
    for r in range(2):
        for s in seeds:
            random.seed(s)
            if r:
                x = rng.choice(ops)
                do(x, cache[x["pid"]])
            outs.append([frozenset(c) for c in abcrules.compute("rsd", prof, k)])
            after.append(random.random())
    mon.count("rsd-stream")
    mon.check(outs[0] == outs[2] and outs[1] == outs[3], lambda: "rsd with the same random state gives %s and %s" % (outs[:2], outs[2:]), "rsd-seed")
    mon.check(after[0] == after[2] and after[0] != after[1], lambda: "random numbers after rsd with seeds %s: %s" % (seeds, after), "rsd-state")


def threads(mon, rng, ops, cache, first):
    """the pure Python operations of the session at the same time in several threads on the shared profiles"""
    pure = [i for i, op in enumerate(ops) if op["op"] in ("score", "text") or op["op"] == "compute" and not op["solver"]
            or op["op"] == "check" and (op.get("alg") == "brute-force" or op["prop"] in ("jr", "ejr+"))]
    if len(pure) < 3:
        return
    import threading
    comp = [i for i in pure if ops[i]["op"] == "compute"]
    base = (rng.sample(comp, min(len(comp), 4)) + rng.sample(pure, min(len(pure), 3))) * 2
    plans = [rng.sample(base, len(base)) for _ in range(3)]
    got, spans, errors = {}, [], []
    gate = threading.Barrier(len(plans))

    def work(t):
        try:
            gate.wait()
            for i in plans[t]:
                a = time.perf_counter()
                r = do(ops[i], cache[ops[i]["pid"]])
                spans.append((a, time.perf_counter(), t, i))
                got[t, i] = json.loads(json.dumps(canon(ops[i], r)))
        except BaseException as e:
            errors.append(e)
    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-6)
    try:
        ts = [threading.Thread(target=work, args=(t,)) for t in range(len(plans))]
        for x in ts:
            x.start()
        for x in ts:
            x.join()
    finally:
        sys.setswitchinterval(old)
    if errors:
        mon.violate("operations %s in parallel threads raise %r" % ([label(ops[i]) for i in sorted(set(sum(plans, [])))], errors[0]), "threads")
    pairs = {(ops[x[3]].get("rule", ops[x[3]]["op"]), ops[y[3]].get("rule", ops[y[3]]["op"]))
             for x in spans for y in spans if x[2] < y[2] and x[0] < y[1] and y[0] < x[1]}
    mon.count("threads:overlaps", len(pairs))
    for p in pairs:
        mon.seen("overlap", *p)
    for (t, i), r in got.items():
        mon.count("threads:ops")
        mon.check(r == first[i], lambda: "%s in a thread beside other computations gives %s, alone %s" % (label(ops[i]), r, first[i]), "threads:" + ops[i]["op"])


def run_case(case, mon):
    ops = case["ops"]
    rng = random.Random(case["s"])
    import numpy as np
    cache = {}
    first = [None] * len(ops)
    kept = []
    for i, op in enumerate(ops):
        if op["pid"] not in cache:
            cache[op["pid"]] = profile(op["inst"], op["pid"])
        prof = cache[op["pid"]]
        snaps = {p: snapshot(x) for p, x in cache.items()}
        com = op.get("com")
        com0 = list(com) if com else None
        amb = ambient()
        res = do(op, prof)
        now = ambient()
        mon.count("ambient")
        mon.check(amb == now, lambda: "%s changed process-wide state: %s" % (label(op), [x for x in amb if amb[x] != now[x]]), "ambient")
        mon.count("ops")
        mon.eq(com, com0, "committee argument after " + label(op), "arg-changed")
        for p, x in cache.items():
            now = snapshot(x)
            if op["op"] == "compute" and op["alg"] == "ortools-cp":
                break
            mon.count("profile-snapshots")
            mon.check(now == snaps[p], lambda: "profile changed by %s" % label(op), "profile-changed:" + op["op"])
        for (o0, r0, f0) in kept:
            mon.count("kept-objects")
            mon.check(freeze(r0) == f0, lambda: "an earlier result of %s was changed by %s: %r instead of %r" % (
                label(o0), label(op), r0, f0), "earlier-result-changed")
        kept.append((op, res, freeze(res)))
        first[i] = json.loads(json.dumps(canon(op, res)))
        if op["op"] != "text":
            mon.seen(label(op))
    for _, r0, _ in kept:
        vandal(r0)
        mon.count("vandalised")
    order = list(range(len(ops)))
    rng.shuffle(order)
    for i in order:
        op = ops[i]
        random.seed(rng.randrange(1 << 30))
        np.random.seed(rng.randrange(1 << 30))
        prof = cache[op["pid"]] if rng.random() < 0.7 else profile(op["inst"], op["pid"])
        again = json.loads(json.dumps(canon(op, do(op, prof))))
        mon.count("repeat")
        mon.check(again == first[i], lambda: "repeating %s later in the session gives %s, first %s" % (
            label(op), again, first[i]), "repeat:" + op["op"])
    rsd_stream(mon, rng, ops, cache)
    threads(mon, rng, ops, cache, first)
    current = {op["pid"]: op["inst"] for op in ops}
    for _ in range(3):     # the user changes a profile between computations: nothing of the old contents may survive
        pid = rng.choice([op["pid"] for op in ops])
        new = current[pid] = mutate(rng, current[pid], cache[pid])
        mine = [dict(op, inst=new) for op in ops if op["pid"] == pid]
        mon.count("mutations")
        small = stable_rules_ok(new)
        for op in rng.sample(mine, min(4, len(mine))):
            if op["op"] == "compute" and (not small and not op["resolute"] or not applicable(op["rule"], op["alg"], new)):
                continue
            fresh = profile(new, case["s"])
            if op.get("rule") == "sav" and (sav_affected(fresh, op["k"]) or sav_affected(cache[pid], op["k"])):
                continue   # known finding C02/sav-float-ties
            want = json.loads(json.dumps(canon(op, do(op, fresh))))
            got = json.loads(json.dumps(canon(op, do(op, cache[pid]))))
            mon.count("after-mutation")
            mon.check(got == want, lambda: "after a change of the profile %s gives %s, on a fresh equal profile %s" % (
                label(op), got, want), "stale:" + op["op"])
    if not case["child"]:
        return
    which = [("hash0", dict(env={"PYTHONHASHSEED": "0"}, seed=1)),
             ("hash-other", dict(env={"PYTHONHASHSEED": str(rng.randrange(1, 4000000))}, seed=2, order=order)),
             ("-O", dict(flags=["-O"], seed=3)),
             ("nogmpy2", dict(nogmpy2=True, seed=4)),
             ("reversed", dict(order=list(reversed(range(len(ops)))), env={"PYTHONHASHSEED": "random"}))]
    for name, kw in which:
        kw = dict(kw)
        flags = kw.pop("flags", ())
        env = kw.pop("env", None)
        r = child(ops, flags, env, **kw)
        mon.count("child:" + name)
        if name == "nogmpy2" and r["gmpy2"] or name == "-O" and r["debug"]:
            raise RuntimeError("environment variation %s had no effect" % name)
        for op, a, b in zip(ops, first, r["res"]):
            if b == "unavailable":
                mon.count("unavailable")
                continue
            mon.count("cross-process")
            mon.check(a == b, lambda: "%s in another process (%s) gives %s, here %s" % (label(op), name, b, a),
                      "process:%s:%s" % (name, op["op"]))
