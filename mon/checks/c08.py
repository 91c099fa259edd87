from mon.common import *
from mon import gen, oracles as o
import itertools
import math, random

ID = "C08"
RULE = ("random instance; greedy Monroe, E Pluribus Hugo (3 arithmetics), trivial rule against exact references; serial "
        "dictatorship: every sampled committee must be in the set derived from all voter orders, and on small instances "
        "every such committee must occur in repeated runs; non-trivial: some candidate is approved")
ASSUMPTIONS = ["a possible serial-dictatorship outcome of probability >= 1/60 that is not seen in 1200 seeded runs counts as impossible (miss probability < 2e-9)"]
HANG = True     # pure Python on small inputs: a case without an answer hangs
PLAN = {"quick": 20000, "thorough": 90000}
REQUIRED = ["greedy-monroe", "eph", "trivial", "rsd", "rsd-support-complete", "rsd-many-voters", "ties", "weighted", "large"]
RULES = ["greedy-monroe", "eph", "trivial", "rsd"]


def tied(inst):
    """number of committees of highest total approval weight"""
    sc = [sum(w for b, w in zip(inst["votes"], weights_of(inst)) if c in b) for c in range(inst["m"])]
    cut = sorted(sc, reverse=True)[inst["k"] - 1]
    return math.comb(sc.count(cut), inst["k"] - sum(s > cut for s in sc))


def gen_case(rng, idx, tier):
    rule = RULES[idx % 4]
    cover = rule == "rsd" and idx % 16 == 3
    if cover:
        inst = gen.inst(rng, nmax=3, mmax=5, kmax=3, wkinds=["unit"])
    elif rule == "rsd" and idx % 12 == 7:
        inst = gen.large(rng, wkinds=["unit"]) if rng.random() < 0.5 else gen.inst(rng, nmax=30, mmax=14, kmax=12, wkinds=["unit"])
    elif rule in ("greedy-monroe", "rsd"):
        inst = gen.inst(rng, nmax=13 if rule == "greedy-monroe" else 6, mmax=9, kmax=8, wkinds=["unit"])
    elif rule == "trivial":
        inst = gen.inst(rng, nmax=4, mmax=9, kmax=9, max_committees=130)
    else:
        inst = gen.inst(rng, nmax=12, mmax=9, kmax=8, max_committees=200, wkinds=["unit", "unit", "int", "frac", "fracsmall", "huge"])
        if rng.random() < 0.15:
            inst, safe = gen.near(rng, inst)
            if inst["w"][0] and not isinstance(inst["w"][0], int) or inst["w"][0] > 10 ** 6:
                return {"inst": inst, "rule": rule, "cover": False, "algs": gen.EXACT, "s": rng.randrange(1 << 30)}
    if idx % 4 == 0 and idx % 41 == 40 or rule == "eph" and idx % 43 == 42:
        inst = gen.large(rng, wkinds=["unit"] if rule != "eph" else ["bigint", "huge"])
        if rule == "eph" and tied(inst) > 60:
            inst["k"] = min(range(1, inst["m"] + 1), key=lambda k: (tied(dict(inst, k=k)) > 60, -k))
    return {"inst": inst, "rule": rule, "cover": cover, "s": rng.randrange(1 << 30)}


def rsd_dist(m, k, votes):
    """exact distribution of the committee if the leftover seats were filled uniformly"""
    n = len(votes)
    dist = {}
    perms = list(itertools.permutations(range(n)))
    for p in perms:
        com = []
        for v in p:
            for c in sorted(votes[v]):
                if c not in com and len(com) < k:
                    com.append(c)
        rest = [c for c in range(m) if c not in com]
        fills = list(itertools.combinations(rest, k - len(com)))
        for x in fills:
            key = frozenset(com) | frozenset(x)
            dist[key] = dist.get(key, 0) + 1.0 / len(fills) / len(perms)
    return dist


def rsd_possible(com, m, k, votes):
    """can some voter order lead to com: voters whose ballot lies inside com come first, then at most one other voter
    fills the remaining seats with her smallest candidates"""
    first = frozenset().union(*[v for v in votes if v <= com])
    if first == com or all(v <= com for v in votes):
        return True
    for v in votes:
        if not v <= com:
            stop = min(v - com)
            if com <= first | {c for c in v if c < stop}:
                return True
    return False


def run_case(case, mon):
    inst, rule = case["inst"], case["rule"]
    m, k = inst["m"], inst["k"]
    votes, w = votes_of(inst), weights_of(inst)
    mon.count(rule)
    if m >= 12:
        mon.count("large")
    desc = "%s %s" % (rule, show(inst))
    if any(votes):
        mon.seen(rule, m, k, sorted(map(sorted, votes)), w)
    if not is_unit(inst):
        mon.count("weighted")
    if rule == "greedy-monroe":
        want, _, _ = o.greedy_monroe(m, k, votes)
        got = compute(mon, rule, profile(inst, case["s"]), k, resolute=True)
        mon.eq(got, [want], desc, rule)
    elif rule == "trivial":
        want = {frozenset(c) for c in itertools.combinations(range(m), k)}
        judge(mon, compute(mon, rule, profile(inst, case["s"]), k, resolute=False), want, desc, rule)
        judge_resolute(mon, compute(mon, rule, profile(inst, case["s"]), k, resolute=True), want, desc, rule)
    elif rule == "eph":
        want = o.eph(m, k, votes, w)
        if len(want) > 1:
            mon.count("ties")
        for alg in case.get("algs") or algs(rule):
            judge(mon, compute(mon, rule, profile(inst, case["s"]), k, algorithm=alg, resolute=False), want,
                  desc + " " + alg, "eph:" + alg)
            judge_resolute(mon, compute(mon, rule, profile(inst, case["s"]), k, algorithm=alg, resolute=True), want,
                           desc + " " + alg, "eph:" + alg)
    else:
        if len(votes) > 6:
            random.seed(case["s"])
            mon.count("rsd-many-voters")
            for _ in range(8):
                for com in fsets(compute(mon, rule, profile(inst, case["s"]), k)):
                    mon.check(len(com) == k and com <= frozenset(range(m)) and rsd_possible(com, m, k, votes),
                              "%s: no voter order leads to %s" % (desc, sorted(com)), "rsd-many")
            return
        want = o.rsd_all(m, k, votes)
        for com in (map(frozenset, itertools.combinations(range(m), k)) if math.comb(m, k) <= 20 else ()):
            assert rsd_possible(com, m, k, votes) == (com in want), (com, m, k, votes)
        prof = profile(inst, case["s"])
        random.seed(case["s"])
        if not case["cover"]:
            for _ in range(8):
                judge_resolute(mon, compute(mon, rule, prof, k), want, desc, "rsd")
            return
        seen = set()
        for _ in range(1200):
            got = fsets(abcrules.compute_rsd(prof, k))
            judge_resolute(mon, got, want, desc, "rsd")
            seen.add(got[0])
        dist = rsd_dist(m, k, votes)
        never = [c for c, p in dist.items() if p >= 1 / 60 and c not in seen]
        if never:
            mon.violate("%s: possible committees %s never occurred in 1200 runs" % (desc, srt(never)), "rsd-support")
        mon.count("rsd-support-complete")
