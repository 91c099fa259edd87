from mon.common import *
from mon import gen, oracles as o, lp

ID = "C16"
RULE = ("random instance (unit and weighted), committees drawn at random, from budget-based rules, and perturbed by one swap; "
        "verdicts against exact rational linear programmes of the definition; non-trivial: an LP was decided and the committee "
        "contains only approved candidates")
ASSUMPTIONS = []
PLAN = {"quick": 9000, "thorough": 120000}
REQUIRED = ["price:True", "price:False", "stable:True", "stable:False", "few-approved", "weighted", "partial-committee"]
SRC = ["seqphragmen", "equal-shares", "equal-shares-without-completion", "maximin-support", "seqpav", "av", "phragmen-enestroem"]


def gen_case(rng, idx, tier):
    inst = gen.inst(rng, nmax=7, mmax=6, kmax=5, wkinds=["unit", "unit", "int", "frac", "fracsmall", "bigint"])
    tight = idx % 11 == 10
    if tight:
        inst, com = gen.tight(rng, 6, 5, 8, ["unit", "unit", "int", "frac", "bigint"])
    elif idx % 19 == 18:
        inst = gen.wide(rng, wkinds=inst["tag"].split("/")[-1:], max_committees=100, nmax=8) if rng.random() < 0.5 else gen.crowd(rng, wkinds=inst["tag"].split("/")[-1:], nmax=30)
    m, k = inst["m"], inst["k"]
    r = rng.random()
    if not tight:
        com = rng.choice(SRC) if r < 0.6 else rng.sample(range(m), k)
    return {"inst": inst, "com": com, "swap": rng.random() < 0.3, "s": rng.randrange(1 << 30)}


def priceable(m, votes, w, com, stable):
    n = len(votes)
    com = sorted(com)
    appr = set().union(*votes) if votes else set()
    if len(appr) < len(com):
        return appr <= set(com), True
    if not set(com) <= appr:
        return False, False
    # var 0 = budget, then payments of supporters, then (stable) per-voter maxima
    var = {}
    for v in range(n):
        for c in com:
            if c in votes[v]:
                var[v, c] = 1 + len(var)
    nv = 1 + len(var)
    rows = []
    for v in range(n):
        d = {var[v, c]: 1 for c in com if c in votes[v]}
        d[0] = -w[v]
        rows.append((d, "<=", 0))
    for c in com:
        rows.append(({var[v, c]: 1 for v in range(n) if c in votes[v]}, "==", 1))
    if not stable:
        for c in appr - set(com):
            d = {0: F(0)}
            for v in range(n):
                if c in votes[v]:
                    d[0] += w[v]
                    for x in com:
                        if x in votes[v]:
                            d[var[v, x]] = d.get(var[v, x], 0) - 1
            rows.append((d, "<=", 1))
    else:
        e = {v: nv + v for v in range(n)}
        nv += n
        for v in range(n):
            for c in com:
                if c in votes[v]:
                    rows.append(({var[v, c]: 1, e[v]: -1}, "<=", 0))
            d = {0: w[v], e[v]: -1}
            for c in com:
                if c in votes[v]:
                    d[var[v, c]] = -1
            rows.append((d, "<=", 0))
        for c in appr - set(com):
            rows.append(({e[v]: 1 for v in range(n) if c in votes[v]}, "<=", 1))
    return lp.feasible(nv, rows) is not None, False


def run_case(case, mon):
    inst = case["inst"]
    m, k = inst["m"], inst["k"]
    votes, w = votes_of(inst), weights_of(inst)
    rng = random.Random(case["s"])
    prof = profile(inst, case["s"])
    com = case["com"]
    if isinstance(com, str):
        com = sorted(abcrules.compute(com, prof, k, resolute=True)[0])
        if not com:
            com = rng.sample(range(m), k)
    if case["swap"] and len(com) < m:
        com = list(com)
        com[rng.randrange(len(com))] = rng.choice([c for c in range(m) if c not in com])
    if len(com) < k:
        mon.count("partial-committee")
    for stable in (False, True):
        want, special = priceable(m, votes, w, com, stable)
        if special:
            mon.count("few-approved")
        else:
            mon.seen(stable, m, sorted(map(sorted, votes)), w, sorted(com))
            if not is_unit(inst):
                mon.count("weighted")
        mon.count(("stable:%s" if stable else "price:%s") % want)
        calls = [lambda: properties.check("stable-priceability" if stable else "priceability", prof, com)]
        if stable:
            calls.append(lambda: properties.check_stable_priceability(prof, set(com), algorithm="gurobi"))
            calls.append(lambda: properties.check_priceability(prof, tuple(com), stable=True))
        else:
            calls.append(lambda: properties.check_priceability(prof, com, algorithm=rng.choice(["gurobi", "fastest"])))
        for f in ([rng.choice(calls)] if rng.random() < 0.7 else calls):
            before = snapshot(prof)
            try:
                got = f()
            except GurobiError as e:
                if licence(e):
                    mon.count("licence")
                    continue
                raise
            mon.count("verdicts")
            mon.eq(snapshot(prof), before, "profile after the check", "impure")
            mon.check(got is want, lambda: "%spriceability of %s is %r, the linear programme says %s: m=%d votes=%r w=%r" % (
                "stable " if stable else "", sorted(com), got, want, m, inst["votes"], inst.get("w")),
                "stable" if stable else "price")
